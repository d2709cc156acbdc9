// Convolution, streamed and recursive filters, Fourier transforms, windows and kernels.
#include <complex>
#include <deque>
#include <list>
#include <memory>
#include <numbers>

#include "audio_buffer.hpp"
#include "dsp/conv.hpp"
#include "dsp/ft.hpp"
#include "dsp/iir.hpp"
#include "dsp/kernel.hpp"
#include "dsp/matrix.hpp"
#include "dsp/util.hpp"
#include "dsp/window.hpp"
#include "filter_module.hpp"
#include "kit.hpp"
#include "source_module.hpp"

using namespace kit;
using Vec = std::vector<double>;
using Cx = std::complex<double>;
using CVec = std::vector<Cx>;

static const long BAD = 2000000001;
static long scaled(double v, double by = 100000) {
    double x = v * by;
    return std::isfinite(x) && std::fabs(x) < 1.99e9 ? std::lround(x) : BAD;
}
static long exact(double v) { return v == std::floor(v) && std::fabs(v) < 1.99e9 ? (long)v : BAD; }
template <class C>
static std::string exacts(const C& c) { return list(c, [](double v) { return std::to_string(exact(v)); }); }
template <class C>
static std::string scaleds(const C& c, double by = 100000) {
    return list(c, [by](double v) { return std::to_string(scaled(v, by)); });
}
static std::string cx(const CVec& c, double by = 100000) {
    return list(c, [by](Cx z) { return "[" + std::to_string(scaled(z.real(), by)) + "," + std::to_string(scaled(z.imag(), by)) + "]"; });
}
// What the scripts call one is 1/fx for a sample and 1/fk for a factor (powers of two, so every product and sum below is
// exact); with geo > 1 the n-th sample of a recursive filter is in units geo times smaller than the one before.
static double fx = 1, fk = 1, geo = 1;
static Vec times(Vec v, double by) {
    for (auto& x : v) x *= by;
    return v;
}
// lists on a line are separated by "|"
static std::vector<Vec> lists(const Args& a, std::size_t i) {
    std::vector<Vec> r(1);
    for (; i < a.size(); ++i)
        if (a[i] == "|") r.emplace_back();
        else r.back().push_back(D(a[i]));
    return r;
}
static AudioBuffer buffer(const Vec& v, int ch = 1, double rate = 44100) {
    AudioBuffer b(v.size() / ch, ch, rate);
    for (std::size_t i = 0; i < v.size(); ++i) b.ibegin()[(int)i] = v[i];
    return b;
}
static Vec flat(AudioBuffer& b) {
    Vec v;
    for (auto it = b.ibegin(); it.get_index() < (int)b.size(); ++it) v.push_back(*it);
    return v;
}
static BufferPointer pointer(const Vec& v) { return std::make_unique<AudioBuffer>(buffer(v)); }

static Vec convolve(const std::string& how, const Vec& x, const Vec& k) {
    namespace C = dsp::conv;
    Vec o(x.size() + k.size() - 1, 0.0);
    if (how == "in") C::input_conv(x.begin(), x.size(), k.begin(), k.size(), o.begin());
    else if (how == "out") C::output_conv(x.begin(), x.size(), k.begin(), k.size(), o.begin());
    else if (how == "inr") C::input_conv(x.begin(), x.end(), k.begin(), k.end(), o.begin());
    else if (how == "outr") C::output_conv(x.begin(), x.end(), k.begin(), k.end(), o.begin());
    else if (how == "inp") C::input_conv(x.data(), x.size(), k.data(), k.size(), o.data());
    else if (how == "inb") { auto p = C::input_conv(pointer(x), pointer(k)); o = flat(*p); }
    else if (how == "outb") { auto p = C::output_conv(pointer(x), pointer(k)); o = flat(*p); }
    else if (how == "fft" || how == "ffti") {  // whole numbers up to the rounding of the transforms
        auto bx = buffer(x), bk = buffer(k), bo = buffer(o);
        if (how == "fft") C::conv_fft(x.begin(), (int)x.size(), k.begin(), (int)k.size(), o.begin());
        else C::conv_fft(bx.ibegin(), (int)x.size(), bk.sbegin(), (int)k.size(), bo.sbegin()), o = flat(bo);
        for (auto& v : o)
            if (double w = v * fx * fk; std::abs(w - std::round(w)) < 1e-4) v = std::round(w) / fx / fk;
    } else {  // iterators of buffers
        auto bx = buffer(x), bk = buffer(k), bo = buffer(o);
        if (how == "ini") C::input_conv(bx.ibegin(), x.size(), bk.sbegin(), k.size(), bo.sbegin());
        else if (how == "outi") C::output_conv(bx.sbegin(), x.size(), bk.ibegin(), k.size(), bo.ibegin());
        else bad(how);
        o = flat(bo);
    }
    return o;
}

// ---- a filter in a chain, fed with the blocks of the script ----
struct Feed : SourceModule {
    AudioBuffer next{0};
    void process() override { set_buffer(std::move(next)); }
};
static std::unique_ptr<BaseConvFilter<>> fir;
static std::unique_ptr<SincFilter<>> sinc;
static std::unique_ptr<Feed> feed;
static bool chained;
static int fch;
static double frate;
template <class F>
static void pass(F& f, const Vec& v, Obj& o) {
    AudioBuffer b = buffer(times(v, 1 / fx), fch, frate);
    if (chained) {
        feed->next = std::move(b);
        f.meta_process();
    } else {
        f.set_buffer(std::move(b));
        f.process();
    }
    AudioBuffer r = take(f.get_buffer());
    o.n("ch", r.channels()).n("rate", (long)r.get_samplerate()).n("n", (long)r.size());
    o.raw("out", &f == (void*)sinc.get() ? scaleds(flat(r), 100000 * fx) : exacts(times(flat(r), fx * fk)));
}

// ---- recursive filters ----
static std::unique_ptr<dsp::iir::IIRFilter<double>> iir;
static std::unique_ptr<dsp::iir::SinglePole<double>> pole;
static std::deque<double> xs, ys;
static Vec ca, cb, ka, kb;   // the coefficients of the script, and in units of the filter
static bool lone;
static long turn;            // samples since the filter was made
static double unit_a(int i) { return std::pow(geo, i) * fk; }
static double unit_b(int i) { return std::pow(geo, i + 1); }

static double window(const std::string& w, int n, int size, long p, bool plain) {
    namespace W = dsp::win;
    if (w == "rect") return W::window_rectangle(n, size);
    if (w == "hann") return plain ? W::window_hann(n, size) : W::window_hann(n, size, p / 1000.0);
    if (w == "hamming") return plain ? W::window_hamming(n, size) : W::window_hamming(n, size, p / 1000.0);
    return plain ? W::window_blackman(n, size) : W::window_blackmanc(n, size, p / 1000.0);
}

static bool op(const Args& a) {
    const std::string& k = a[0];
    if (k == "fine") { fx = D(a[1]), fk = D(a[2]), geo = D(a[3]); return true; }
    if (k == "conv") {  // conv how x.. | k..
        auto l = lists(a, 2);
        Obj o("conv");
        o.raw("x", exacts(l[0])).raw("k", exacts(l[1]));
        o.n("len", dsp::conv::length_conv((int)l[0].size(), (int)l[1].size())).n("len2", dsp::conv::length_conv(l[0].size(), l[1].size()));
        o.raw("out", exacts(times(convolve(a[1], times(l[0], 1 / fx), times(l[1], 1 / fk)), fx * fk))).put();
    } else if (k == "fir") {  // fir direct|chain channels rate k..
        fir = std::make_unique<BaseConvFilter<>>();
        sinc.reset();
        feed = std::make_unique<Feed>();
        chained = a[1] == "chain";
        fch = I(a[2]);
        frate = I(a[3]);
        Vec v = lists(a, 4)[0];
        fir->set_kernel(pointer(times(v, 1 / fk)));
        if (chained) fir->link(feed.get());
        chained ? fir->meta_start() : fir->start();
        Obj("fir").n("ch", fch).n("rate", (long)frate).raw("k", exacts(v)).put();
    } else if (k == "block") {
        Vec v = lists(a, 1)[0];
        Obj o("block");
        o.raw("x", exacts(v));
        sinc ? pass(*sinc, v, o) : pass(*fir, v, o);
        o.put();
    } else if (k == "restart") {
        if (sinc) sinc->start(); else fir->start();
        Obj("restart").put();
    } else if (k == "shape") {  // shape channels rate: the next blocks have another shape, after a restart
        fch = I(a[1]);
        frate = I(a[2]);
        fir->start();
        Obj("shape").n("ch", fch).n("rate", (long)frate).put();
    } else if (k == "sinc") {  // sinc direct|chain type m p q rate
        fir.reset();
        sinc = std::make_unique<SincFilter<>>();
        feed = std::make_unique<Feed>();
        chained = a[1] == "chain";
        fch = 1;
        frate = I(a[6]);
        using T = dsp::consts::FilterType;
        if (chained) sinc->link(feed.get());
        sinc->get_info()->sample_rate = frate;
        sinc->set_type(a[2] == "low" ? T::LowPass : a[2] == "high" ? T::HighPass : a[2] == "pass" ? T::BandPass : T::BandReject);
        if (I(a[3]) != 51) sinc->set_size(I(a[3]));
        sinc->set_start_freq(I(a[4]) * frate / 2880);
        sinc->set_stop_freq(I(a[5]) * frate / 2880);
        sinc->start();
        Obj("sinc").str("type", a[2]).n("m", sinc->get_size()).n("p", I(a[4])).n("q", I(a[5])).n("rate", (long)frate).put();
    } else if (k == "retune") {  // retune type m p q: the same filter, started again
        using T = dsp::consts::FilterType;
        sinc->set_type(a[1] == "low" ? T::LowPass : a[1] == "high" ? T::HighPass : a[1] == "pass" ? T::BandPass : T::BandReject);
        sinc->set_size(I(a[2]));
        sinc->set_start_freq(I(a[3]) * frate / 2880);
        sinc->set_stop_freq(I(a[4]) * frate / 2880);
        chained ? sinc->meta_start() : sinc->start();
        Obj("sinc").str("type", a[1]).n("m", sinc->get_size()).n("p", I(a[3])).n("q", I(a[4])).n("rate", (long)frate).put();
    } else if (k == "kernel") {  // kernel k..: another kernel for the same filter, started again
        Vec v = lists(a, 1)[0];
        fir->set_kernel(pointer(times(v, 1 / fk)));
        chained ? fir->meta_start() : fir->start();
        Obj("fir").n("ch", fch).n("rate", (long)frate).raw("k", exacts(v)).put();
    } else if (k == "resp") {  // resp m: frequency response at m/2880 of the rate
        long m = I(a[1]);
        Cx z = dsp::iir::freq_response(dsp::iir::freq_map(m * 10.0, 28800), ca, cb);
        Obj("resp").n("m", m).n("re", scaled(z.real(), 1000)).n("im", scaled(z.imag(), 1000)).put();
    } else if (k == "kern") {  // kern m p
        int m = I(a[1]);
        Vec v(m);
        double f = I(a[2]) / 2880.0;
        if (a[3] == "black") dsp::kern::sinc_kernel(f, m, v.begin());
        else dsp::kern::sinc_kernel(f, m, v.begin(), dsp::win::window_rectangle);
        double s = 0;
        bool sym = true;
        for (int i = 0; i < m; ++i) s += v[i], sym &= std::fabs(v[i] - v[m - 1 - i]) < 1e-9;
        Obj("kern").n("m", m).n("p", I(a[2])).str("w", a[3]).raw("v", scaleds(v)).n("sum", scaled(s, 1000000)).n("sym", sym).put();
    } else if (k == "invert" || k == "reverse") {
        Vec v = lists(a, 1)[0], w = times(v, 1 / fx);
        auto b = buffer(w);
        if (k == "invert") dsp::kern::spectral_inversion(w.begin(), (int)w.size()), dsp::kern::spectral_inversion(b.ibegin(), (int)w.size());
        else dsp::kern::spectral_reversal(w.begin(), (int)w.size()), dsp::kern::spectral_reversal(b.ibegin(), (int)w.size());
        Obj(k).raw("v", exacts(v)).n("one", (long)fx).raw("out", exacts(times(w, fx))).raw("outb", exacts(times(flat(b), fx))).put();
    } else if (k == "win") {  // win kind param d plain: all positions 0..d
        int d = I(a[3]);
        long p = I(a[2]);
        Vec v;
        for (int n = 0; n <= d; ++n) v.push_back(window(a[1], n, d + 1, p, a[4] == "plain"));
        Obj("win").str("w", a[1]).n("p", p).n("d", d).raw("v", scaleds(v)).put();
    } else if (k == "iir") {  // iir how a.. | b..
        auto l = lists(a, 2);
        ca = ka = l[0], cb = kb = l[1];
        for (size_t i = 0; i < ka.size(); ++i) ka[i] /= unit_a((int)i);
        for (size_t i = 0; i < kb.size(); ++i) kb[i] /= unit_b((int)i);
        turn = 0;
        lone = a[1] == "single";
        pole.reset();
        xs.assign(ca.size(), 0), ys.assign(std::max<size_t>(cb.size(), 1), 0);
        iir = std::make_unique<dsp::iir::IIRFilter<double>>();
        if (a[1] == "ctor" || lone) iir = std::make_unique<dsp::iir::IIRFilter<double>>((int)ca.size(), (int)cb.size());
        else if (a[1] == "sizes") iir->set_asize((int)ca.size()), iir->set_bsize((int)cb.size());
        else iir->set_bsize((int)cb.size()), iir->set_asize((int)ca.size());
        if (a[1] == "rev") iir->reserve();
        if (ca.size() % 2) std::copy(ka.begin(), ka.end(), iir->abegin());
        else for (size_t i = 0; i < ka.size(); ++i) iir->set_a((int)i, ka[i]);
        if (cb.size() % 2) for (size_t i = 0; i < kb.size(); ++i) iir->set_b((int)i, kb[i]);
        else std::copy(kb.begin(), kb.end(), iir->bbegin());
        Obj("iir").raw("a", exacts(ca)).raw("b", exacts(cb)).n("na", iir->get_asize()).n("nb", iir->get_bsize())
            .n("da", iir->aend() - iir->abegin()).n("db", iir->bend() - iir->bbegin()).put();
    } else if (k == "coef") {  // coef a|b index value
        int i = I(a[2]);
        double u = a[1] == "a" ? unit_a(i) : unit_b(i);
        (a[1] == "a" ? ca : cb)[i] = I(a[3]);
        (a[1] == "a" ? ka : kb)[i] = I(a[3]) / u;
        if (a[1] == "a") iir->set_a(i, I(a[3]) / u); else iir->set_b(i, I(a[3]) / u);
        Obj("coef").str("k", a[1]).n("i", i).n("x", I(a[3])).n("y", exact((a[1] == "a" ? iir->get_a(i) : iir->get_b(i)) * u)).put();
    } else if (k == "run") {  // run in|out|buf x..
        Vec raw = lists(a, 2)[0], v = raw, o(v.size(), 0);
        for (size_t i = 0; i < v.size(); ++i) v[i] /= fx * std::pow(geo, turn + (long)i);
        bool kept = true;
        if (lone) {
            for (size_t i = 0; i < v.size(); ++i)
                o[i] = dsp::iir::iir_recursive_single(v[i], xs, ys, ka, kb, (int)ca.size(), (int)cb.size());
            kept = xs.size() == ca.size();
        } else if (a[1] == "in") {
            o = v;
            iir->process(o.begin(), (int)o.size());
        } else if (a[1] == "out") {
            Vec w = v;
            iir->process(w.begin(), (int)w.size(), o.begin());
            kept = w == v;
        } else {
            auto b = buffer(v);
            iir->process(b.sbegin(), (int)v.size());
            o = flat(b);
        }
        for (auto& y : o) y *= fx * fk * std::pow(geo, turn++);
        Obj("run").raw("x", exacts(raw)).raw("out", exacts(o)).n("kept", kept).put();
    } else if (k == "idle") {  // idle n: n samples of silence
        Vec z(1 << 16, 0.0);
        long bad = 0;
        for (long n = std::stol(a[1]); n > 0;) {
            long m = std::min<long>(n, (long)z.size());
            iir->process(z.begin(), (int)m);
            for (long i = 0; i < m; ++i) bad += z[i] != 0, z[i] = 0;
            n -= m;
        }
        Obj("idle").n("zero", bad == 0).put();
    } else if (k == "pole") {  // pole low|high i how rate: cutoff i/40 of the rate; a second one configures the same filter again
        bool fresh = !pole;
        if (fresh) pole = std::make_unique<dsp::iir::SinglePole<double>>();
        bool low = a[1] == "low";
        double rate = I(a[4]), fr = I(a[2]) / 40.0;
        pole->set_sample_rate((int)rate);
        pole->set_type(low ? dsp::consts::FilterType::LowPass : dsp::consts::FilterType::HighPass);
        if (a[3] == "frac") low ? pole->set_frac_high(fr) : pole->set_frac_low(fr);
        else low ? pole->set_freq_high(fr * rate) : pole->set_freq_low(fr * rate);
        pole->generate_coefficients();
        Vec va(pole->abegin(), pole->aend()), vb(pole->bbegin(), pole->bend());
        // the answer to a held value and to one that alternates, after it settled
        auto settle = [&](bool alt) {
            Vec v(2000);
            for (size_t i = 0; i < v.size(); ++i) v[i] = alt && i % 2 ? -1 : 1;
            pole->process(v.begin(), (int)v.size());
            return v;
        };
        Vec first = settle(false);
        double dc = first.back(), f0 = first[0];
        double ny = settle(true).back();
        Obj("pole").str("k", a[1]).n("i", I(a[2])).raw("a", scaleds(va)).raw("b", scaleds(vb)).n("fresh", fresh).n("first", scaled(f0))
            .n("r0", scaled(std::abs(dsp::iir::freq_response(0, va, vb)))).n("rn", scaled(std::abs(dsp::iir::freq_response(dsp::iir::freq_map(rate / 2, rate), va, vb)))).n("dc", scaled(dc)).n("ny", scaled(std::fabs(ny)))
            .n("hz", scaled(low ? pole->get_freq_high() : pole->get_freq_low(), 40)).n("rate", (long)rate).put();
    } else if (k == "ft") {  // ft how re im re im ..  (real transforms take real parts only)
        Vec v = lists(a, 2)[0];
        CVec x, o;
        Vec re;
        for (size_t i = 0; i + 1 < v.size(); i += 2) x.push_back({v[i] / fx, v[i + 1] / fx}), re.push_back(v[i] / fx);
        int n = (int)x.size();
        if (a[1] == "dft") { o.assign(dsp::ft::length_ft(n), 0); dsp::ft::dft(re.begin(), n, o.begin()); }
        else if (a[1] == "dftb") { auto b = buffer(re); o.assign(dsp::ft::length_ft(n), 0); dsp::ft::dft(b.ibegin(), n, o.begin()); }
        else if (a[1] == "out") { o.assign(n, 0); dsp::ft::fft_c_radix2(x.begin(), n, o.begin()); }
        else if (a[1] == "outp") { o.assign(n, 0); dsp::ft::fft_c_radix2(x.data(), n, o.data()); }
        else if (a[1] == "iout") { o.assign(n, 0); dsp::ft::ifft_c_radix2(x.begin(), n, o.begin()); }
        else if (a[1] == "in") { o = x; dsp::ft::fft_c_radix2(o.begin(), n); }
        else if (a[1] == "inrev") { o = x; dsp::ft::fft_c_radix2(o.begin(), n); dsp::util::bit_reverse(n, o.begin()); }
        else if (a[1] == "iin") { o = x; dsp::ft::ifft_c_radix2(o.begin(), n); }
        else if (a[1] == "iinrev") { o = x; dsp::ft::ifft_c_radix2(o.begin(), n); dsp::util::bit_reverse(n, o.begin()); }
        else if (a[1] == "real") { o.assign(dsp::ft::length_ft(n), 0); dsp::ft::fft_r_radix2(re.begin(), n, o.begin()); }
        else if (a[1] == "realb") { auto b = buffer(re); o.assign(dsp::ft::length_ft(n), 0); dsp::ft::fft_r_radix2(b.ibegin(), n, o.begin()); }
        else bad(a[1]);
        bool inv = a[1][0] == 'i' && a[1] != "in" && a[1] != "inrev";
        Obj("ft").str("how", a[1]).raw("x", list(x, [](Cx z) { return "[" + std::to_string(exact(z.real() * fx)) + "," + std::to_string(exact(z.imag() * fx)) + "]"; }))
            .raw("out", cx(o, fx * (inv ? 100000.0 * n : 100000.0))).n("half", (long)dsp::ft::length_ft(n)).put();
    } else if (k == "ift") {  // ift dft|real re im ..: a half spectrum
        Vec v = lists(a, 2)[0];
        CVec x;
        for (size_t i = 0; i + 1 < v.size(); i += 2) x.push_back({v[i] / fx, v[i + 1] / fx});
        CVec y = x;
        size_t n = dsp::ft::length_ift(x.size());
        Vec o(n, 0.0);
        if (a[1] == "dft") dsp::ft::inv_dft(y.begin(), y.size(), o.begin());
        else if (a[1] == "real") dsp::ft::ifft_r_radix2(y.begin(), (int)y.size(), o.begin());
        else bad(a[1]);
        Obj("ift").str("how", a[1]).raw("x", list(x, [](Cx z) { return "[" + std::to_string(exact(z.real() * fx)) + "," + std::to_string(exact(z.imag() * fx)) + "]"; }))
            .n("n", (long)n).raw("out", scaleds(o, fx * 100000.0 * n)).put();
    } else if (k == "trip") {  // trip how re im ..: there and back, in thousandths
        Vec v = lists(a, 2)[0];
        CVec x, o;
        Vec re;
        for (size_t i = 0; i + 1 < v.size(); i += 2) x.push_back({v[i] / fx, v[i + 1] / fx}), re.push_back(v[i] / fx);
        int n = (int)x.size(), h = (int)dsp::ft::length_ft(n);
        if (a[1] == "out") { CVec t(n); o.assign(n, 0); dsp::ft::fft_c_radix2(x.begin(), n, t.begin()); dsp::ft::ifft_c_radix2(t.begin(), n, o.begin()); }
        else if (a[1] == "in") { o = x; dsp::ft::fft_c_radix2(o.begin(), n); dsp::util::bit_reverse(n, o.begin()); dsp::ft::ifft_c_radix2(o.begin(), n); dsp::util::bit_reverse(n, o.begin()); }
        else {
            CVec t(h, 0);
            Vec r(n, 0.0);
            if (a[1] == "dft") dsp::ft::dft(re.begin(), n, t.begin()), dsp::ft::inv_dft(t.begin(), h, r.begin());
            else if (a[1] == "real") dsp::ft::fft_r_radix2(re.begin(), n, t.begin()), dsp::ft::ifft_r_radix2(t.begin(), h, r.begin());
            else if (a[1] == "mix") dsp::ft::fft_r_radix2(re.begin(), n, t.begin()), dsp::ft::inv_dft(t.begin(), h, r.begin());
            else bad(a[1]);
            for (double d : r) o.push_back({d, 0});
            for (auto& z : x) z = {z.real(), 0};
        }
        Obj("trip").str("how", a[1]).raw("x", cx(x, 1000 * fx)).raw("out", cx(o, 1000 * fx)).put();
    } else if (k == "bitrev") {
        int n = I(a[1]);
        std::vector<long> v(n);
        for (int i = 0; i < n; ++i) v[i] = i;
        dsp::util::bit_reverse(n, v.begin());
        Obj("bitrev").n("n", n).raw("v", ints(v)).put();
    } else if (k == "ftlen") {
        long n = I(a[1]);
        Obj("ftlen").n("n", n).n("f", (long)dsp::ft::length_ft(n)).n("b", (long)dsp::ft::length_ift(n)).put();
    } else if (k == "bin") {  // frequency of a bin, times the size
        Obj("bin").n("i", I(a[1])).n("n", I(a[2])).n("rate", I(a[3])).n("hz", scaled(dsp::ft::index_freq(I(a[1]), I(a[2]), I(a[3])), I(a[2]))).put();
    } else if (k == "dot") {  // dot x.. | y..: in units of 1/fx and 1/fk
        auto l = lists(a, 1);
        Vec x = l[0], y = l[1];
        x = times(x, 1 / fx), y = times(y, 1 / fk);
        Obj o("dot");
        o.raw("x", exacts(l[0])).raw("y", exacts(l[1])).n("d", exact(fx * fk * dsp::mat::dot_product(x.begin(), y.begin(), (int)x.size())));
        auto bx = buffer(x), by = buffer(y);
        std::vector<int> ix(l[0].begin(), l[0].end()), iy(l[1].begin(), l[1].end());
        o.n("b", exact(fx * fk * dsp::mat::dot_product(bx.ibegin(), by.sbegin(), (int)x.size())));
        o.n("i", dsp::mat::dot_product(ix.begin(), iy.begin(), (int)x.size()));
        Vec m(x.size());
        dsp::util::multiply_signals((int)x.size(), x.begin(), y.begin(), m.begin());
        CVec c(x.size()), e(x.size() / 2);
        dsp::util::real_complex_naive(x.begin(), (int)x.size(), c.begin());
        dsp::util::real_eop_complex(x.begin(), (int)x.size(), e.begin());
        o.raw("m", exacts(times(m, fx * fk))).raw("c", cx(c, fx)).raw("e", cx(e, fx)).put();
    } else return false;
    return true;
}

int main(int argc, char** argv) {
    return run(argc, argv, {[](const std::string&) { fir.reset(); sinc.reset(); feed.reset(); iir.reset(); pole.reset(); fx = fk = geo = 1; header("{}"); }, op, [] {}});
}
