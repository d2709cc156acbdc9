I = "include/maec/"
SPECN = "TLA+ specification of the transforms from their defining sums (spec/Dsp.tla)"


def define(prop):
    prop("C26", "Convolution is exact, and streaming changes nothing",
         "Convolving n with m samples gives the n+m-1 sums of the definition, by either direct algorithm or by transforms (up to rounding) and through any kind of iterator, and writes nothing else. A convolution filter with a kernel set turns a stream of buffers into "
         "the convolution of the whole stream with the kernel: wherever the stream is cut into buffers, whatever their sizes (also none, one, or shorter than the kernel), for every channel on its own, with the channel count and sample rate "
         "of its input. Starting it again forgets what came before.",
         ["inputs", "histories"], "every signal, kernel, number of channels and division of the stream into buffers",
         "Tests convolve one mono buffer with one kernel; the overlap between buffers, several channels and blocks shorter than the kernel are not reached.",
         [I + "dsp/conv.hpp", I + "filter_module.hpp"],
         [("sums", "input_conv/output_conv"), ("overlap add", "BaseConvFilter::process"), ("restart", "BaseConvFilter::start")],
         [("kernel", "filter kernel", "BaseConvFilter"), ("tail", "overhanging samples of the buffers so far", "BaseConvFilter")],
         ["output arrays", "buffers out of a filter"],
         SPECN + ": TLC shows that streaming with overlap is the convolution of the whole stream; model histories, random signals and streams run through the real algorithms and filters, every sample validated by TLC",
         "Model exhaustive for kernels up to 3, blocks up to 2 frames of 2 channels, 3 steps (thorough one more). About 750 executions per run with integer samples, compared exactly, under AddressSanitizer. "
         "Not covered: conv_fft (does not compile), changing the kernel while samples are held.")
    prop("C27", "Recursive filters follow their difference equation",
         "A recursive filter's output is its difference equation over all samples since its creation, y[n] = sum a_i x[n-i] + sum b_i y[n-1-i] with silence before the first sample, whatever numbers of coefficients "
         "it has, however it is given them and however its samples are divided into calls; coefficients read back as set and changes take effect from the next sample on. Single pole low and high pass filters "
         "have the coefficients of their definition: a low pass has gain one for a constant, a high pass has gain zero for it and one at half the sampling rate - also when a filter is configured again. "
         "The frequency response computed from coefficients is the gain and phase the filter with these coefficients has.",
         ["inputs", "histories"], "every number and value of coefficients, every signal and division into calls",
         "Nothing in the test suite touches recursive filters.",
         [I + "dsp/iir.hpp", "src/dsp/iir.cpp"], [("difference equation", "IIRFilter::process"), ("coefficients", "SinglePole::generate")],
         [("acoes/bcoes", "coefficients", "IIRFilter"), ("in/out rings", "last samples", "IIRFilter"), ("index", "next sample", "IIRFilter")],
         ["returned samples", "get_a()/get_b()"],
         SPECN + ": TLC shows that rings of the last samples compute the difference equation; model histories and random filters run for real, each sample validated by TLC",
         "Model exhaustive for up to 2+2 coefficients and 5 steps. About 780 filters per run with up to 8+8 integer coefficients, exact. Sizes are set before the first sample.")
    prop("C28", "Fourier transforms are the transform and undo each other",
         "The discrete and fast transforms, in place and out of place, real and complex, forward and inverse, compute the defining sums - the in-place ones in bit-reversed order where they say so - for every supported length, "
         "real transforms give the n/2+1 bins up to half the rate, and an inverse after its forward transform gives the signal back. Lengths and bin frequencies are computed consistently.",
         ["inputs"], "every signal and every supported length (powers of two; any length for the direct transform)",
         "Tests transform one or two fixed signals.",
         [I + "dsp/ft.hpp", "src/dsp/ft.cpp"], [("sums", "dft_*/idft_*"), ("radix 2", "fft_c_radix2*, fft_r_radix2*"), ("order", "bit_reverse")],
         [("bins", "spectrum", "arguments")], ["output arrays"],
         SPECN + ": TLC shows over the integers modulo 17, where roots of unity are exact, that the radix-2 recursions are the transform up to order and invert; outputs of the real functions are compared with the sums over a sine table by TLC",
         "Model: lengths 1-16, unit vectors and all short vectors. About 270 scripts per run, lengths up to 64 (round trips up to 256), tolerance half of 1e-5 per unit of input. Excluded: real fast transform of length 1.")
    prop("C30", "Windows and filter kernels are what they are named after",
         "Window functions have the values of their definition at every position: symmetric, one in the middle, Hann and Blackman closed at the ends. A windowed sinc kernel of odd size is symmetric, sums to one and "
         "passes what is below its cutoff; spectral inversion gives all-pass minus the kernel and reversal negates every other sample. A SincFilter of each of the four types has the kernel these make of its two frequencies, "
         "at the sample rate of its chain, as its impulse response, whatever the buffers. Element products and dot products are the sums of the definition for every kind of number.",
         ["inputs"], "every size, frequency, window parameter and type",
         "Tests compare a few windows of one size; kernels are compared with outputs of the same code.",
         ["src/dsp/window.cpp", "src/dsp/kernel.cpp", I + "dsp/kernel.hpp", I + "filter_module.hpp", I + "dsp/matrix.hpp"],
         [("windows", "window_hann/hamming/blackman"), ("kernel", "sinc_kernel, spectral_inversion/reversal"), ("four types", "SincFilter::generate_kernel")],
         [("type, size, start_freq, stop_freq", "configuration", "SincFilter")], ["returned values", "impulse response"],
         SPECN + ": TLC shows symmetry, closing ends and gains of the specified windows and kernels; every value of the real ones at the sampled sizes and frequencies is compared with the specification by TLC",
         "About 390 scripts per run, sizes dividing 2880, frequencies in steps of rate/2880 between 20 and 1400; tolerance 4e-4 for kernels, 3e-5 for windows. Even sizes and frequency zero are excluded.")
    prop("C21", "Oscillators produce one continuous wave",
         "Each oscillator (sine, square, sawtooth, triangle) produces the wave it is named after with values in [-1, 1]: frame n of its output, counted over all its buffers, is the wave at n times frequency over sample rate periods, "
         "whatever the sizes of the buffers, the number of channels - all channels of a frame are equal - and however it is connected. Its buffers have the channels, rate and size of its chain. A modulated oscillator advances after each frame by "
         "the frequency delivered for that frame over the sample rate, and equals the plain one at a constant frequency. A phase read from one oscillator and set on another of the same kind continues its wave.",
         ["inputs", "histories"], "every frequency, sample rate, channel count, sequence of buffer sizes, frequency changes and phase restorations",
         "Tests compare one mono buffer per wave; joins between buffers, several channels and frequency changes are not reached.",
         ["src/fund_oscillator.cpp", I + "base_oscillator.hpp"],
         [("sample loop", "SineOscillator::process and the other seven"), ("phase", "inc_phase/set_phase")],
         [("phase", "frames so far, or position in periods of a modulated oscillator", "BaseOscillator::phase, BaseModulatedOscillator::phase"), ("freq", "frequency", "BaseOscillator::freq, BaseModulatedOscillator::freq")],
         ["output buffers", "get_phase()"],
         "TLA+ specification of the waves as functions of an integer position in the period (spec/Osc.tla; sine from a table): TLC shows that any division into buffers gives one wave and that modulated and plain oscillators agree; "
         "model histories and random ones run on the real oscillators, alone and in chains, every sample validated by TLC",
         "Model exhaustive for 4 waves, 2 channels, 2 frames, 3 (thorough 4) steps. About 700 executions per run, tolerance 3e-5; frequencies in quarters of a hertz up to the sample rate. At the jump of a wave either value is accepted "
         "unless the rate is a power of two (where the arithmetic is exact). Negative frequencies and phases not read from an oscillator are excluded.")
