I = "include/maec/"
SPECN = "TLA+ specification of byte streams, the PCM codec and the RIFF format (spec/Io.tla)"


def define(prop):
    prop("C22", "Streams transfer exactly the bytes asked for",
         "Reading an mstream delivers the bytes at its position in order, without a gap or a repetition, and moves the position by what was delivered; what the stream no longer has is not written to the caller's array "
         "and puts the stream in its stopped state, so that it is not good any more. Writing replaces or appends bytes at the position, also after a seek back or beyond the end (zeros between), and touches nothing else; "
         "after stop a file holds exactly these bytes. Starting a stream that cannot be opened leaves it in the error state, and a write that fails stops it. Memory and file streams agree.",
         ["inputs", "histories", "fault_sequences"], "every sequence of seeks, reads and writes of any size on memory and file streams, missing files, full devices",
         "Tests read or write one short array once, mostly from the start, and never beyond its end.",
         [I + "io/mstream.hpp", "src/io/mstream.cpp"],
         [("read", "CharIStream::read, FIStream::read"), ("write", "CharOStream::write, FOStream::write"), ("open/close", "FIStream::start/stop, FOStream::start/stop")],
         [("arr", "bytes", "CharIStream::arr, CharOStream::arr"), ("index", "position", "CharIStream::index"), ("state", "stream state", "BaseMStream::state")],
         ["read()/write() arrays", "get_state()", "get_array()", "the file on disk"],
         SPECN + ": TLC shows a stream is a memory holding the last write at each position; histories from the model and random ones replayed on real streams of all four kinds, every byte and state validated by TLC",
         "Model exhaustive for up to 4 (thorough 5) operations on positions up to 5; about 1200 histories per run under AddressSanitizer. Excluded: negative positions and use after stop.")
    prop("C23", "Sample codes survive conversion exactly",
         "Every 8 and 16 bit sample code, signed and unsigned, becomes a value in [-1, 1] - the extreme codes exactly -1 and 1 - that grows with the code and is that code again when converted back. Values between two codes are cut "
         "towards zero in the signed formats and rounded to the nearest in the unsigned ones. Integers become bytes in little endian order and back without loss, whatever the sign. Conversions that only cast change no value a float can hold. Squishing "
         "a buffer converts every sample and puts it where its traversal (interleaved or sequential) says.",
         ["inputs"], "all codes of all formats, all values of the 16 and 32 bit integers, buffers of any shape",
         "Tests convert a few values and compare with a tolerance; the extreme codes and signs are where conversions break.",
         [I + "audio_buffer.hpp", "src/audio_buffer.cpp"], [("codec", "mf_int16/int16_mf, mf_char/char_mf, mf_uint16/uint16_mf, mf_uchar/uchar_mf"), ("bytes", "char_int16/char_int32/int16_char/int32_char")],
         [("code", "integer sample", "argument and result")], ["return values", "squished arrays"],
         SPECN + ": TLC enumerates all codes; every code of every format converted by the real functions and validated by TLC, plus exact dyadic values between codes",
         "Exhaustive over codes (131,584). Values between codes and 32 bit integers are samples. mf_float and mf_null, which only cast, on values a float holds.")
    prop("C24", "Written WAV files are complete and correct",
         "After start, any number of writes and stop, the stream of a WaveWriter holds a RIFF/WAVE file whose header states the configured format, channels, sample rate and bits, the byte rate and block size that follow from these whatever order "
         "they were configured in, and sizes equal to what was really written, followed by all the samples, in order, in the codec's encoding. The writer starts and stops its stream. A single chunk decodes to what was encoded.",
         ["inputs", "histories"], "every configuration, sequence of buffers of any size (also none) and values; memory and file streams",
         "Tests compare two fixed files and round trip one random one with a tolerance.",
         [I + "io/wav.hpp", "src/io/wav.cpp"], [("header", "WaveWriter::start"), ("data", "WaveWriter::write_data"), ("sizes patched", "WaveWriter::stop")],
         [("size", "bytes written", "BaseWave::size"), ("channels, sample_rate, bits_per_sample, byte_rate, block_align", "configuration", "BaseWave")],
         ["bytes of the stream or file", "BaseWave getters"],
         SPECN + ": TLC shows that reading a written file gives what was written; every byte of files written by random configurations and buffers is compared with the specification by TLC, and they are read back",
         "About 560 files per run. 8 and 16 bit; files below 2 GB. The padding byte after odd data is not demanded.")
    prop("C25", "Readers deliver every frame of a WAV file once, then silence",
         "A WaveReader (and the WaveSource module built on it) delivers the frames of all data chunks of a file in order, none lost or repeated, however the file is divided into chunks - other chunks before, between and after, "
         "odd sizes with padding, format chunks with extra fields - and whatever buffer sizes are asked for; buffers have the file's channels and rate, and the part after the last frame is silent. "
         "It is done, with its stream stopped, when everything was delivered - not earlier - and also if the file is shorter than it says or missing.",
         ["inputs", "histories", "fault_sequences"], "every layout of chunks, sequence of buffer sizes, format, and point where the file may be cut",
         "Tests read three fixed files, one frame at a time, without extra chunks.",
         [I + "io/wav.hpp", "src/io/wav.cpp"], [("chunks and buffers", "WaveReader::get_data"), ("header", "WaveReader::start"), ("source", "WaveSource::process")],
         [("total_read, chunk_read, needs_chunk, head", "position in the file", "WaveReader")], ["get_data()", "done()", "stream state", "module buffer and info"],
         SPECN + ": TLC shows on small files of all layouts that buffers concatenate to the frames; files generated from chunk grammars read by the real reader and source, every sample, done flag and state validated by TLC",
         "About 820 files per run. Chunk sizes below 2 GB, whole frames per data chunk; a known finding covers 8 bit files cut inside their data.")
    prop("C33", "A sound card gets every buffer once, whole and in order",
         "Between start and stop an ALSASink hands each buffer of its upstream to the chosen device by exactly one write, in production order, as interleaved 16 bit codes, with as many frames as the buffer has; after the card ran out of "
         "frames the device is prepared again before the next write, and it is never prepared while it plays. A start opens the device once, with 16 bit interleaved samples and the channels, rate, period size and periods of its description; "
         "a stop drains and closes it; nothing is used after it was closed and nothing stays open, also when devices are only asked about. The chain takes its channels, rate and buffer size (half a period) from the description. "
         "Queries report every listed device with its name, description, direction and id, the ranges it offers and the values it settles on: what was asked for where the device offers it, its own choice where it does not or nothing was asked for.",
         ["inputs", "histories", "fault_sequences"], "every card, description, sequence of buffers of any size and underruns, starts and stops",
         "Tests need a sound card; none runs on a build machine, and on a real one nobody reads back what was played.",
         [I + "io/alsa_module.hpp", "src/io/alsa_module.cpp"],
         [("write and recovery", "ALSASink::process"), ("session", "ALSABase::alsa_start, alsa_stop"), ("description", "DeviceInfo::create_device, DeviceInfo::update"), ("chain values", "ALSASink::info_sync")],
         [("device", "description of the chosen device", "ALSABase::device"), ("pcm", "open device", "ALSABase::pcm"), ("return_code", "result of the last write", "ALSABase::return_code")],
         ["calls received by the sound library", "DeviceInfo", "ModuleInfo, ChainInfo"],
         "TLA+ specification of a card and its stream (spec/Alsa.tla): TLC shows that a sink that follows the protocol loses only the blocks the card refused; histories of starts, buffers, underruns and stops from the model and random ones "
         "run through the real sink on a stand-in sound library, every library call and description validated by TLC",
         "Model: up to 6 (thorough 9) buffers with underruns at any write. About 550 executions per run under AddressSanitizer. The library is a stand-in that keeps its documented protocol; devices that do not exist, partial writes and timing are not covered; a buffer refused by the card is not demanded again.")
