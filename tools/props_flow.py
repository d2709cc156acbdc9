I = "include/maec/"
S = "src/"
TECH = ("TLA+ specification of the buffer modules (TLC: exhaustive model of re-blocking, mixing, counting and time) + histories from the model and random ones "
        "replayed into the real modules + TLC validation of every recorded result")
NOTE = ("Model exhaustive for small blocks; for the code about a thousand generated histories per quick run, each result compared by TLC with the specification's value, "
        "under AddressSanitizer. Samples are integers, so results are exact.")


def define(prop):
    prop("C11", "Mixing down sums its inputs sample by sample",
         "A mixing module asks each of its inputs exactly once per buffer and produces a buffer of the configured size, channel count and sample rate in which every sample is the sum of the inputs' "
         "samples at that position. Inputs shorter than that contribute silence beyond their end, longer ones are cut, nothing is read or written outside the buffers; no inputs give silence.",
         ["inputs", "histories"], "any number of inputs of any sizes and channel counts, inputs added between buffers, any reconfiguration",
         "The tests mix two equally sized constant buffers.",
         [I + "module_mixer.hpp", S + "module_mixer.cpp"], [("sum into a fresh buffer", "ModuleMixDown::process / mix helpers")],
         [("in", "inputs", "ModuleMixDown::in")], ["get_buffer()"], TECH, NOTE)
    prop("C13", "Re-blocking preserves the sample stream",
         "A module that makes buffer sizes uniform delivers, concatenated over all calls, exactly the samples it received, in order: none lost, repeated or replaced. Each buffer has the configured "
         "size (all channels), and upstream is asked for more only while the samples at hand do not fill it.",
         ["inputs", "histories"], "every sequence of incoming buffer sizes (including empty ones) and configured sizes, any number of channels",
         "The tests use one or two fixed size ratios with one channel.",
         [I + "meta_audio.hpp", S + "meta_audio.cpp"], [("index into the held buffer", "UniformBuffer::process")],
         [("held buffer and position", "samples not delivered yet", "UniformBuffer")], ["get_buffer()"], TECH, NOTE)
    prop("C15", "Counting and latency figures match what actually passed",
         "Counting modules pass every buffer through unchanged and report exactly the number of buffers and of samples (all channels) since the last reset. The latency module's expected, actual, total and average figures "
         "follow from those counts, the buffers' rate and channels and the time each production took; a reset starts all of them again and the averages never mix in what came before it.",
         ["inputs", "histories"], "every sequence of buffers, channel counts, production times, starts and resets",
         "Tests check one reading after a few equal buffers, on a wall clock.",
         [I + "meta_audio.hpp", S + "meta_audio.cpp", I + "chrono.hpp"], [("counters", "Counter::process"), ("statistics", "LatencyModule::meta_process")],
         [("buffers, samples", "totals", "Counter"), ("time totals", "LatencyModule")], ["processed()/samples() and the latency getters"], TECH, NOTE)
    prop("C16", "Chain time is exact frame time",
         "A chain timer's time is always the number of whole frames counted (samples divided by channels) times the length of one frame; setting, adding, incrementing, resetting and reconfiguring it keep "
         "that relation, and time queries for a given number of samples agree with it and do not change the timer. The clock used for scheduling reports elapsed steady time.",
         ["inputs", "histories"], "every sequence of timer operations for every rate and channel count, within integer range",
         "Tests check two or three conversions at one rate.",
         [I + "chrono.hpp", S + "chrono.cpp"], [("frames times nanoseconds per frame", "ChainTimer::time")],
         [("sample", "samples counted", "ChainTimer")], ["time()", "get_sample()"], TECH, NOTE)
    prop("C29", "Value modules emit, repeat, scale and offset exactly",
         "A constant source fills a buffer of the configured size with its current value; a buffer source delivers an equal copy of its buffer every time, whatever its size, "
         "and never alters the original; amplitude scaling and offset apply their factor or amount to every sample of a buffer of any size and leave its channel count and rate alone. "
         "Changes of the value or configuration take effect from the next buffer on.",
         ["inputs", "histories"], "every value, buffer size, channel count and sequence of changes",
         "Tests use one size and one value each.",
         [I + "meta_audio.hpp", S + "meta_audio.cpp", I + "amp_module.hpp", S + "amp_module.cpp"],
         [("fill", "ConstModule::process"), ("copy", "BufferModule::process"), ("in-place arithmetic", "AmplitudeScale/AmplitudeAdd::process")],
         [("value", "current value", "ConstModule / AmplitudeScale / AmplitudeAdd")], ["get_buffer()"], TECH, NOTE)
