#!/usr/bin/env python3
"""Source of known_findings.json:  python3 tools/findings.py  (run by hand, never by a check)"""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOG = subprocess.run(["git", "-C", os.environ.get("VF_REPO", "/repo"), "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()

# (property, subject of the fix commit without "fix: ", what failed)
FIXED = [
    ("C03", "ParallelModule::stop() could hang", "stop() notified without the mutex: the background thread between its check and its wait never woke up"),
    ("C02", "ParallelModule resumes when its maximum", "raising max_size did not wake a waiting producer; production stayed stopped"),
    ("C03", "ParallelModule stopped back modules", "meta_stop reached upstream modules while the thread was still processing them"),
    ("C03", "ParallelModule broke when stopped from several sides", "two stops joined the same thread (std::system_error or a hang), a stop of the thread upon itself never returned, destruction while running terminated the program"),
    ("C04", "ParallelModule broke when stopped from several sides", "a start while running lost the thread (terminate), the state of the start overrode one the upstream had already set"),
    ("C12", "ModuleMixUp wrote past its copy", "copy allocated for one channel: heap overflow for larger buffers"),
    ("C12", "ModuleMixUp had no forward module", "no forward module: info sync from upstream of a mixer crashed"),
    ("C05", "SourceModule left its state unset", "state not set when start/stop/finish are overridden"),
    ("C05", "ModuleMixDown never reported", "ModuleMixDown did not enter the finishing state"),
    ("C07", "module count grew on every info sync", "the chain's module count was never reset"),
    ("C07", "info sync of a ModuleMixUp whose outputs", "null chain record dereferenced when outputs are not synced yet"),
    ("C15", "Counter and LatencyModule counted every", "samples counted once per channel twice"),
    ("C15", "LatencyModule averages counted", "reset did not reset the count the averages divide by"),
    ("C29", "BufferModule wrote past its output", "heap overflow when the held buffer is larger than the chain's"),
    ("C13", "UniformBuffer filled only", "only buffer_size samples of buffer_size*channels were filled"),
    ("C17", "remaining samples of an envelope", "negative count after the stop time: SetValue wrote before its buffer"),
    ("C18", "ChainEnvelope hung on stop times", "endless loop when a stop time lies between two samples; other channels silent"),
    ("C18", "ChainEnvelope used a freed envelope", "use after free when an envelope is added while the last filler plays; next past the end"),
    ("C18", "ChainEnvelope played its first envelope", "no start value before the first envelope; crash without envelopes"),
    ("C17", "ExponentialRamp starting at zero", "stayed at zero"),
    ("C19", "ADSREnvelope could not be processed", "null dereference on process; decay ended at an absolute time"),
    ("C09", "sequential iteration over an empty buffer", "division by zero (SIGFPE) for sbegin()/send() of a buffer without samples"),
    ("C10", "RingBuffer resolved negative indexes", "int % size_t: ring[-1] of three values named the second one; empty rings divided by zero"),
    ("C23", "lowest 16bit samples did not survive", "-32768 read as below -1 and written back as +32767"),
    ("C22", "CharIStream read beyond the end", "bytes beyond the array were copied (heap overflow) and the stream stayed good"),
    ("C22", "CharOStream ignored a position beyond", "written at the end of the array instead of at the position"),
    ("C24", "WaveWriter did not start its stream", "nothing was written to a file stream that the user had not started"),
    ("C25", "WaveReader lost track of files with an extended", "everything after a format chunk of more than 16 bytes was misread"),
    ("C25", "WaveReader did not skip the padding", "everything after a chunk of odd size was misread"),
    ("C25", "WaveReader took any chunk before the format", "a chunk before the format chunk was taken for it"),
    ("C25", "WaveSource could not be created", "all members private: the module was unusable"),
    ("C26", "BaseConvFilter mixed the channels", "interleaved channels were convolved as one signal; output had one channel at the default rate"),
    ("C27", "IIRFilter applied its B", "feedback coefficients were applied to the wrong previous outputs"),
    ("C27", "IIRFilter had no room", "set_asize/set_bsize reserved only: coefficients written out of bounds"),
    ("C27", "SinglePole", "frequencies in hertz used as fractions of the rate; high pass had the wrong feedback coefficient"),
    ("C27", "freq_response mixed up", "previous outputs in the numerator, inputs in the denominator, wrong signs and delays: DC gain of a low pass was not 1"),
    ("C30", "dot_product", "the sum was an int whatever the samples"),
    ("C27", "freq_map was defined again", "a program including iir.hpp in two files did not link"),
    ("C21", "square, sawtooth and triangle waves were wrong at negative", "cycles were mirrored wrongly on the negative side: square stuck at one, sawtooth beyond -1"),
    ("C24", "wave readers and writers could not be started again", "the second file repeated the counters of the first: wrong sizes when written, frames missing when read"),
    ("C18", "a chain envelope that was started again", "a start moved on to the next envelope although it was not asked for: part of the curve was skipped"),
    ("C19", "an ADSR envelope that was started again", "the parts of the first start were kept: the second note did not begin with its attack"),
    ("C07", "copied sinks used the chain info of the original", "the copy's pointer named the original's chain info (dangling once that was gone)"),
    ("C06", "modules that are not part of a chain crashed", "null chain info dereferenced by done() before any sync"),
    ("C19", "ADSR envelopes had no release", "finish did nothing: no release, and the envelope was never done"),
    ("C09", "const iterators did not compile", "differences, advancing by 64 bit or unsigned numbers and values of const iterators did not compile"),
    ("C09", "-> on iterators", "operator-> returned the address of the pointer: did not compile"),
    ("C26", "conv_fft did not compile", "called functions of another namespace, with sizes that are no power of two and arrays too short for the bins"),
    ("C31", "matrix_mult did not compile", "called a member that does not exist, and ran over samples as rows"),
    ("C21", "oscillators advanced their phase", "the phase advanced for every channel of a frame: wrong pitch and channels out of phase"),
    ("C33", "ALSA devices were used after they were closed", "snd_pcm_hw_free on a closed handle, on stop and after every query"),
    ("C33", "asking for an ALSA device left it open", "every query opened the device once more than it closed it: later opens of an exclusive device fail"),
    ("C33", "get_device_by_name leaked the names", "the strings of the library were not freed"),
    ("C33", "an ALSA device without a description", "std::string(nullptr) for a device without a DESC hint"),
    ("C33", "DeviceInfo reported the chosen values", "ranges asked for after the configuration was committed: minimum and maximum equal to the chosen value"),
    ("C33", "ALSASink told ALSA the number of samples", "frames = samples * channels * channels: reads beyond the buffer and wrong sound for every stereo stream"),
    ("C33", "ALSASink did not hand the values of its device", "the chain produced its default channels and rate whatever the device was opened with"),
    ("C09", "Buffer took two values for a pair of iterators", "a buffer of two values got a channel count and a sample rate as two more samples"),
    ("C10", "a ring buffer lost its place once", "subscripts beyond 2^31 named other values, so a recursive filter (C27) took wrong history after 2^31 samples"),
    ("C16", "the time of a chain timer jumped back", "the sample count was an int: negative time after half a day of audio"),
    ("C15", "the samples counted by a counter overflowed", "the count was an int"),
    ("C25", "WAV chunks that claim 2 GiB", "a streamed file (sizes 2^32-1) gave no frames, a chunk of 2 GiB or more threw std::length_error or was allocated whole"),
    ("C24", "WAV files of more than 2 GiB", "the size had become negative, so the header kept zeros"),
]
KNOWN = [
    {"property": "C25", "status": "known", "scripts": ["3b606d5b6ca27c9d"], "kind": "rejected", "at": 3,
     "what": "an 8 bit WAV file that ends before its data chunk does: the missing samples of the buffer are -1 instead of zero "
             "(mstreams do not tell how much they read)"},
]


def main():
    out = []
    for p, subj, what in FIXED:
        m = [l.split(" ", 1)[0] for l in LOG if l.split(" ", 1)[1].startswith("fix: " + subj)]
        assert len(m) == 1, (subj, m)
        out.append({"property": p, "status": "fixed", "entry": f"fixed: property={p} {m[0]} {what}"})
    with open(os.path.join(V, "known_findings.json"), "w") as f:
        json.dump({"findings": KNOWN + out}, f, indent=1)


if __name__ == "__main__":
    main()
