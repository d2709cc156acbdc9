I = "include/maec/"
S = "src/"
TECH = ("TLA+ specification of envelopes over frame time (TLC: the chunk-wise algorithm equals the sample-wise definition for every sequence of adds, starts, "
        "forced moves and buffer sizes) + model histories and random ones replayed into the real envelopes + TLC validation of every sample")
NOTE = ("Model exhaustive for 2-3 envelopes and stop times on and between frames; thousands of generated executions of the code, every sample compared by TLC "
        "(ramps to 1/10..1/160 of a unit, exponential ramps in log2 to 0.002). The timer of an envelope is configured with its buffers' channels.")


def define(prop):
    prop("C17", "Basic envelopes follow their definition at every frame",
         "At every frame of an envelope's own timer the emitted value, the same for all channels of the frame, is: constant - the start value; set value - the start value while at least one whole frame is left before the stop time, then the stop value; "
         "linear ramp - the straight line from start to stop value between start and stop time; exponential ramp - the geometric line (a start of zero counting as a very small number). Processing "
         "fills a buffer of the configured size and moves the timer on by exactly that many samples, so the values do not depend on how the stream is cut into buffers. The number of remaining "
         "samples is that of the whole frames left before the stop time, never negative.",
         ["inputs", "histories"], "every start and stop time (on or between frames), values, frame length, channel count, buffer size and timer position",
         "Tests use one ramp of one second with one buffer size and one channel, and only check monotony.",
         [I + "envelope.hpp", S + "envelope.cpp", I + "chrono.hpp"],
         [("value formulas", "LinearRamp/ExponentialRamp/SetValue/ConstantEnvelope::process"), ("remaining frames", "BaseEnvelope::remaining_samples")],
         [("timer", "samples emitted", "BaseEnvelope::timer")], ["get_buffer()", "remaining_samples()", "get_timer()"], TECH, NOTE)
    prop("C18", "A chain of envelopes plays each one in turn without gaps",
         "A chain of envelopes emits, sample by sample, the value of the envelope in force: the envelopes in the order added, each until its stop time has come (for ever when it is negative, until the user moves on); "
         "the chain's start value before the first one starts, and the last stop value reached between two that leave a gap and after the last. Overlapped or "
         "already past envelopes are started late or skipped. Buffers always have the full configured size and the stream does not depend on how it is cut into buffers. Envelopes may be added at any time, "
         "also while the trailing value is playing; moving on past the last one has no effect; stopping it and starting it again goes on with the envelope in force.",
         ["inputs", "histories"], "every list of envelopes, times on or between frames, every order of adds, forced moves and buffer sizes, any channel count",
         "Tests use two envelopes whose times are whole buffers.",
         [I + "envelope.hpp", S + "envelope.cpp"], [("filler envelopes", "ChainEnvelope::create_internal/optimize"), ("switching", "ChainEnvelope::process/next_envelope")],
         [("envs", "envelopes and fillers", "ChainEnvelope::envs"), ("env_index", "position", "ChainEnvelope::env_index")],
         ["get_buffer()", "get_current()"], TECH, NOTE)
    prop("C19", "Relative envelopes are anchored when they start",
         "Starting a duration envelope at time T starts the envelope it holds and makes it run from T to T plus the duration, however often it is restarted, and its output is exactly that envelope's. Starting an ADSR envelope, for the first time or again, gives "
         "from that moment on a linear attack from 0 to 1, a linear decay to the sustain value that ends attack plus decay after the start, and then the sustain value until a finish request, for any "
         "attack and decay including zero. A finish request at any time makes it ramp linearly from the value reached to zero over the release time and stay at zero; the envelope is finishing until "
         "the release is over and then declares itself finished, once per release.",
         ["inputs", "histories"], "every duration, start time, number of restarts, moment of the finish request; every attack, decay, sustain, frame length, channel count and buffer size",
         "Tests restart one duration envelope once; no test processes an ADSR envelope at all.",
         [I + "envelope.hpp", S + "envelope.cpp"], [("times fixed on start", "DurationEnvelope::start"), ("segments", "ADSREnvelope::start")],
         [("duration", "length", "DurationEnvelope::duration")], ["get_buffer()", "get_start_time()/get_stop_time()"], TECH, NOTE)
