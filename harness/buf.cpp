// Buffers, their iterators and ring buffers.
#include <algorithm>
#include <complex>
#include <memory>
#include <numeric>
#include <optional>
#include <variant>

#include "audio_buffer.hpp"
#include "dsp/buffer.hpp"
#include "dsp/matrix.hpp"
#include "kit.hpp"

using namespace kit;
using SI = AudioBuffer::SeqIterator<>;
using II = AudioBuffer::InterIterator<>;
using Ring = dsp::buff::RingBuffer<double>;
using RI = Ring::RingIterator<double>;

static std::unique_ptr<AudioBuffer> B[5];
static std::optional<std::variant<SI, II>> T[4];
static std::unique_ptr<Ring> R;
static std::optional<RI> RT[3];

static double fine = 1;   // samples are whole multiples of 1/fine
static std::vector<double> rest(const Args& a, std::size_t i, double by = 0) {
    std::vector<double> v;
    for (; i < a.size(); ++i) v.push_back(D(a[i]) / (by ? by : fine));
    return v;
}
static double V(const std::string& s) { return D(s) / fine; }
static std::string vals(std::vector<double> v) {
    for (auto& x : v) x *= fine;
    return nums(v);
}
static std::string obs(const AudioBuffer& b) {
    std::vector<double> v;
    for (std::size_t i = 0; i < b.size(); ++i) v.push_back(b.at((int)i));
    return "{\"v\":" + vals(v) + ",\"ch\":" + std::to_string(b.channels()) + ",\"rate\":" + num(b.get_samplerate()) +
           ",\"cap\":" + std::to_string(b.channel_capacity()) + ",\"n\":" + std::to_string(b.size()) + "}";
}
// an index that may be any number of rounds away
static long long far(const std::vector<std::string>& a, std::size_t rounds) {
    return I(a[1]) + (a.size() > rounds ? std::stoll(a[rounds]) * (long long)R->size() : 0);
}
static AudioBuffer& buf(const std::string& s) {
    long i = I(s);
    if (i < 1 || i > 4 || !B[i]) bad("buffer " + s);
    return *B[i];
}
template <class F>
static auto with(int k, F f) {
    if (!T[k]) bad("iterator");
    return std::visit(f, *T[k]);
}
template <class It>
static std::string where(It& t, AudioBuffer* b) {
    std::string s = "\"x\":" + std::to_string(t.get_index());
    if (t.get_index() >= 0 && (std::size_t)t.get_index() < b->size())
        s += ",\"c\":" + std::to_string(t.get_channel()) + ",\"s\":" + std::to_string(t.get_sample()) + ",\"v\":" + num(*t * fine);
    return "{" + s + "}";
}
static AudioBuffer* owner[4];

template <class It, class End>
static void walk(It i, End e, Obj& o, bool pos) {
    std::vector<double> v;
    std::vector<long> c, s;
    for (; i != e; ++i) {
        v.push_back(*i);
        if constexpr (requires { i.get_channel(); })
            if (pos) c.push_back(i.get_channel()), s.push_back(i.get_sample());
    }
    o.raw("v", vals(v)).raw("c", ints(c)).raw("s", ints(s));
}

template <std::size_t N>
static void stat(int ch, double rate, int rep) {
    dsp::buff::StaticBuffer<double, N> b;
    b.set_channels(ch);
    b.set_samplerate(rate);
    for (std::size_t i = 0; i < N; ++i) b.at((int)i) = (double)(i + 1 + rep);
    auto c = b;
    c.at(0) = -1;
    auto f = [](auto i, auto e) {
        std::vector<double> v;
        for (; i != e; ++i) v.push_back(*i);
        return nums(v);
    };
    Obj("static").n("ch", ch).d("rate", b.get_samplerate()).n("n", (long)b.size()).n("cap", (long)b.channel_capacity())
        .n("nch", (long)b.channels()).n("rep", rep).raw("seq", f(b.sbegin(), b.send())).raw("inter", f(b.ibegin(), b.iend()))
        .raw("rseq", f(b.srbegin(), b.srend())).raw("rinter", f(b.irbegin(), b.irend())).raw("cpy", f(c.ibegin(), c.iend()))
        .n("SIZE", (long)N).put();
}

// Buffers of other elements and of fixed size: every way to give them their values, every way to read them.
template <class T>
static std::string texts(const std::vector<T>& v) {
    std::vector<long> r;
    for (auto& x : v)
        if constexpr (requires { x.imag(); }) r.push_back(x.imag() == -x.real() ? (long)(x.real() * 8) : -999999);
        else if constexpr (std::is_floating_point_v<T>) r.push_back((T)((long)(x * 8) / 8.0) == x ? (long)(x * 8) : -999999);
        else r.push_back((long)x);
    return ints(r);
}
template <class T>
static T value(double x) {
    if constexpr (requires(T y) { y.imag(); }) return T(x / 8, -x / 8);
    else if constexpr (std::is_floating_point_v<T>) return (T)(x / 8);   // in eighths
    else return (T)x;
}
template <class It, class End>
static std::string walked(It i, End e) {
    std::vector<std::remove_cvref_t<decltype(*i)>> v;
    for (; i != e; ++i) v.push_back(*i);
    return texts(v);
}
template <class Buf, bool Fixed>
static void typed(const Args& a) {  // typed KIND HOW CH RATE v..
    using T = typename Buf::value_type;
    const std::string& how = a[2];
    int ch = (int)I(a[3]);
    double rate = D(a[4]);
    typename Buf::container v{};
    auto nums = rest(a, 5, 1);
    if constexpr (!Fixed) v.resize(nums.size());
    if (v.size() != nums.size()) bad("typed size");
    for (std::size_t i = 0; i < nums.size(); ++i) v[i] = value<T>(nums[i]);
    std::unique_ptr<Buf> b;
    auto blank = [&] {
        if constexpr (Fixed) b = std::make_unique<Buf>(ch, rate);
        else b = std::make_unique<Buf>((int)v.size() / ch, ch, rate);
    };
    bool shaped = true;
    if (how == "ctor") {
        if constexpr (Fixed) {
            if constexpr (std::tuple_size_v<typename Buf::container> == 6) b = std::make_unique<Buf>(v[0], v[1], v[2], v[3], v[4], v[5]), shaped = false;
            else blank(), b->assign(v);
        } else b = std::make_unique<Buf>(v, ch, rate);
    } else if (how == "list") {
        if constexpr (!Fixed) {
            if (v.size() == 4) b = std::make_unique<Buf>(std::initializer_list<T>{v[0], v[1], v[2], v[3]}, ch, rate);
            else b = std::make_unique<Buf>(v.begin(), v.end(), ch, rate);
        } else blank(), b->assign(v);
    } else if (how.starts_with("bare")) {  // the shape left to the buffer
        auto make = [&] {
            if constexpr (Fixed) b = std::make_unique<Buf>(), std::copy(v.begin(), v.end(), b->begin());
            else if (how == "bare_int") b = std::make_unique<Buf>((int)v.size()), std::copy(v.begin(), v.end(), b->begin());
            else if (how == "bare_size") b = std::make_unique<Buf>((std::size_t)v.size()), std::copy(v.begin(), v.end(), b->begin());
            else if (how == "bare_vec") b = std::make_unique<Buf>(v);
            else if (how == "bare_iter") b = std::make_unique<Buf>(v.begin(), v.end());
            else if (how == "bare_list" && v.size() == 4) b = std::make_unique<Buf>(std::initializer_list<T>{v[0], v[1], v[2], v[3]});
            else if (how == "bare_ch" && v.size() == 4) b = std::make_unique<Buf>(std::initializer_list<T>{v[0], v[1], v[2], v[3]}, ch);
            else if (how == "bare_ch") b = std::make_unique<Buf>(v, ch);
            else if (how == "bare_values" && !std::is_integral_v<T>) {   // integers name a shape
                if (v.size() == 1) b = std::make_unique<Buf>(v[0]);
                else if (v.size() == 2) b = std::make_unique<Buf>(v[0], v[1]);
                else if (v.size() == 4) b = std::make_unique<Buf>(v[0], v[1], v[2], v[3]);
                else if (v.size() == 6) b = std::make_unique<Buf>(v[0], v[1], v[2], v[3], v[4], v[5]);
                else b = std::make_unique<Buf>(v);
            }
            else {
                b = std::make_unique<Buf>();
                for (auto& x : v) b->push_back(x);
            }
        };
        make();
        if (how != "bare_ch" || Fixed) ch = 1;
        if (rate != 44100) bad("bare rate");
    } else {
        blank();
        auto w = v;
        if (how == "eqc") *b = w;
        else if (how == "eqm") *b = std::move(w);
        else if (how == "asc") b->assign(w);
        else if (how == "asm") b->assign(std::move(w));
        else if (how == "seqw") std::copy(v.begin(), v.end(), b->sbegin());
        else if (how == "interw") std::copy(v.begin(), v.end(), b->ibegin());
        else if (how == "at") { for (std::size_t i = 0; i < v.size(); ++i) b->at((int)i) = v[i]; }
        else if (how == "atcs") { for (std::size_t i = 0; i < v.size(); ++i) b->at((int)(i % ch), (int)(i / ch)) = v[i]; }
        else if (how == "idx") { auto t = b->ibegin(); for (std::size_t i = 0; i < v.size(); ++i) t[(int)i] = v[i]; }
        else if (how == "copied" || how == "moved" || how == "copyeq" || how == "moveeq") {
            b->assign(v);
            std::unique_ptr<Buf> c;
            if (how == "copied") c = std::make_unique<Buf>(*b);
            else if (how == "moved") c = std::make_unique<Buf>(std::move(*b));
            else {
                if constexpr (Fixed) c = std::make_unique<Buf>();
                else c = std::make_unique<Buf>(1);
                if (how == "copyeq") *c = *b;
                else *c = std::move(*b);
            }
            if (how[0] == 'c') std::fill(b->begin(), b->end(), T(1000));  // the copy is its own
            b = std::move(c);
        } else bad(how);
    }
    if (!shaped) b->set_channels((std::size_t)ch), b->set_samplerate(rate);
    const Buf& c = *b;
    std::vector<T> cells, ptrs, cidx;
    for (int s = 0; s < (int)c.channel_capacity(); ++s)
        for (int k = 0; k < ch; ++k) {
            cells.push_back(c.at(k, s));
            if (b->at(k, s) != c.at(k, s)) cells.push_back(T(-1));
        }
    const auto ct = c.icbegin();
    for (auto i = c.scbegin(); i != c.scend(); ++i) {
        if constexpr (requires(T y) { y.imag(); }) ptrs.push_back(T(i->real(), i->imag()));
        else ptrs.push_back(*i);
    }
    for (std::size_t i = 0; i < c.size(); ++i) cidx.push_back(ct[(int)i]);
    Obj("typed").str("how", how).raw("v", texts(std::vector<T>(v.begin(), v.end()))).n("ch", ch).d("rate", rate).d("gr", c.get_samplerate())
        .n("n", (long)c.size()).n("cap", (long)c.channel_capacity()).n("nch", (long)c.channels()).raw("cells", texts(cells))
        .raw("seq", walked(b->sbegin(), b->send())).raw("inter", walked(b->ibegin(), b->iend())).raw("range", walked(b->begin(), b->end()))
        .raw("cseq", walked(c.scbegin(), c.scend())).raw("cinter", walked(c.icbegin(), c.icend()))
        .raw("rseq", walked(b->srbegin(), b->srend())).raw("rinter", walked(b->irbegin(), b->irend())).raw("ptrs", texts(ptrs)).raw("cidx", texts(cidx)).put();
}

// Generic algorithms over the iterators.
template <class It>
static void alter(It b, It e, const std::string& f, int n, int m) {
    if (f == "reverse") std::reverse(b, e);
    else if (f == "rotate") std::rotate(b, b + n, e);
    else if (f == "iota") std::generate(b, e, [v = (double)n]() mutable { return v++ / fine; });
    else if (f == "plus") std::transform(b, e, b, [&](double x) { return x + n / fine; });
    else if (f == "fill") std::fill(b, e, n / fine);
    else if (f == "fillto") std::fill(b, b + n, m / fine);
    else if (f == "heap") { std::make_heap(b, e); std::sort_heap(b, e); }
    else if (f == "swap") std::iter_swap(b + n, b + m);
    else if (f == "shift") std::copy_backward(b, e - n, e);
    else if (f == "drop") std::copy(b + n, e, b);
    else if (f == "swapr") std::swap_ranges(b, b + n, b + n);
    else bad(f);
}
template <class It>
static void ask(It b, It e, int n, Obj& o) {
    auto at = [&](It i) { return (long)(int)(i - b); };
    o.n("sum", (long)(fine * std::accumulate(b, e, 0.0))).n("dist", (long)std::distance(b, e)).n("max", at(std::max_element(b, e))).n("min", at(std::min_element(b, e)))
        .n("find", at(std::find(b, e, n / fine))).n("count", (long)std::count(b, e, n / fine)).n("adj", at(std::adjacent_find(b, e)))
        .n("sorted", std::is_sorted(b, e)).n("dot", (long)(fine * fine * std::inner_product(b, e, b, 0.0))).n("eq", std::equal(b, e, b));
    std::vector<double> v(b, e), w;
    o.raw("vec", vals(v));
    for (std::reverse_iterator<It> r(e), x(b); r != x; ++r) w.push_back(*r);
    o.raw("rev", vals(w));
    w.clear();
    for (It i = e; i != b;) w.push_back(*std::prev(i)), i--;
    o.raw("back", vals(w));
    w.clear();
    for (int64_t i = 0; i < std::distance(b, e); ++i) w.push_back(*(b + i)), w.push_back(*(b + (std::size_t)i)), w.push_back(*(b + (unsigned)i)), w.push_back(*(b + (int)i));
    o.raw("plus", vals(w));
}

template <class A, class B, class O>
static void mulk(int ra, int rb, const std::vector<double>& x, const std::vector<double>& y, int junk, Obj& o) {
    // the factors that are not whole by nature are fractions, where the result can hold them
    constexpr double fa = std::is_floating_point_v<A> && std::is_floating_point_v<O> ? 64 : 1, fb = std::is_floating_point_v<B> && std::is_floating_point_v<O> ? 1024 : 1;
    dsp::buff::Buffer<A> a(0, ra);
    dsp::buff::Buffer<B> b(0, rb);
    for (double v : x) a.push_back((A)(v / fa));
    for (double v : y) b.push_back((B)(v / fb));
    dsp::buff::Buffer<O> c(std::vector<O>((std::size_t)junk, (O)7), 1);
    dsp::mat::matrix_mult(a, b, c);
    std::vector<long> v;
    for (std::size_t i = 0; i < c.size(); ++i) v.push_back((long)(fa * fb * c.at((int)i)));
    o.raw("v", ints(v)).n("ch", (long)c.channels()).n("cap", (long)c.channel_capacity());
}

static bool op(const Args& a) {
    header("{}");
    const std::string& o = a[0];
    if (o == "fine") { fine = D(a[1]); return true; }
    if (o == "new") {
        long i = I(a[1]);
        const std::string& how = a[2];
        int ch = (int)I(a[3]);
        double rate = D(a[4]);
        auto v = rest(a, 5);
        if (how == "size") B[i] = std::make_unique<AudioBuffer>((int)v.size() / ch, ch, rate);
        else if (how == "usize") B[i] = std::make_unique<AudioBuffer>(v.size() / ch, ch, rate);
        else if (how == "vec") B[i] = std::make_unique<AudioBuffer>(v, ch, rate);
        else if (how == "iter") B[i] = std::make_unique<AudioBuffer>(v.begin(), v.end(), ch, rate);
        else if (how == "make") B[i] = rate == 44100 ? create_buffer((int)v.size() / ch, ch) : create_buffer((int)v.size() / ch, ch, rate);
        else bad(how);
        if (how == "size" || how == "usize" || how == "make") v.assign(v.size(), 0);
        Obj("new").n("b", i).raw("v", vals(v)).n("ch", ch).d("rate", rate).raw("o", obs(*B[i])).put();
    } else if (o == "copy" || o == "move") {
        AudioBuffer& s = buf(a[1]);
        long j = I(a[2]);
        bool mv = o == "move";
        if (a[3] == "ctor") B[j] = mv ? std::make_unique<AudioBuffer>(std::move(s)) : std::make_unique<AudioBuffer>(s);
        else if (mv) buf(a[2]) = std::move(s);
        else buf(a[2]) = s;
        Obj e(o);
        e.n("b", I(a[1])).n("to", j).raw("o", obs(*B[j]));
        if (!mv) e.raw("src", obs(s));
        e.put();
        if (mv) B[I(a[1])].reset();
    } else if (o == "assign") {
        AudioBuffer& b = buf(a[1]);
        auto v = rest(a, 3);
        auto w = v;
        if (a[2] == "eqc") b = w;
        else if (a[2] == "eqm") b = std::move(w);
        else if (a[2] == "asc") b.assign(w);
        else b.assign(std::move(w));
        Obj("assign").n("b", I(a[1])).raw("v", vals(v)).raw("o", obs(b)).put();
    } else if (o == "resize" || o == "reserve" || o == "push" || o == "clear" || o == "setch" || o == "setrate") {
        AudioBuffer& b = buf(a[1]);
        long n = a.size() > 2 ? I(a[2]) : 0;
        if (o == "resize") b.resize((int)n);
        else if (o == "reserve") b.reserve((std::size_t)n);
        else if (o == "push") b.push_back(n / fine);
        else if (o == "clear") b.clear();
        else if (o == "setch") b.set_channels((std::size_t)n);
        else b.set_samplerate((double)n);
        Obj(o).n("b", I(a[1])).n("n", n).raw("o", obs(b)).put();
    } else if (o == "put") {
        AudioBuffer& b = buf(a[1]);
        b.at((int)I(a[2]), (int)I(a[3])) = V(a[4]);
        Obj("put").n("b", I(a[1])).n("c", I(a[2])).n("s", I(a[3])).d("x", D(a[4])).raw("o", obs(b)).put();
    } else if (o == "putf") {
        AudioBuffer& b = buf(a[1]);
        b.at((int)I(a[2])) = V(a[3]);
        Obj("putf").n("b", I(a[1])).n("i", I(a[2])).d("x", D(a[3])).raw("o", obs(b)).put();
    } else if (o == "get") {
        AudioBuffer& b = buf(a[1]);
        const AudioBuffer& cb = b;
        int c = (int)I(a[2]), s = (int)I(a[3]);
        Obj("get").n("b", I(a[1])).n("c", c).n("s", s).d("x", b.at(c, s) * fine).d("y", cb.at(c, s) * fine).put();
    } else if (o == "dump") {
        AudioBuffer& b = buf(a[1]);
        Obj e("dump");
        e.n("b", I(a[1])).str("k", a[2]);
        const std::string& k = a[2];
        if (k == "seq") walk(b.sbegin(), b.send(), e, true);
        else if (k == "inter") walk(b.ibegin(), b.iend(), e, true);
        else if (k == "range") walk(b.begin(), b.end(), e, true);
        else if (k == "cseq") walk(((const AudioBuffer&)b).scbegin(), ((const AudioBuffer&)b).scend(), e, true);
        else if (k == "cinter") walk(((const AudioBuffer&)b).icbegin(), ((const AudioBuffer&)b).icend(), e, true);
        else if (k == "rseq") walk(b.srbegin(), b.srend(), e, false);
        else if (k == "rinter") walk(b.irbegin(), b.irend(), e, false);
        else if (k == "sqinter" || k == "sqseq") {
            std::vector<double> v(b.size());
            auto f = [](double x) { return x; };
            if (k == "sqinter") squish_inter(&b, v.begin(), f);
            else squish_seq(&b, v.begin(), f);
            e.raw("v", vals(v)).raw("c", "[]").raw("s", "[]");
        } else bad(k);
        e.put();
    } else if (o == "conv") {  // conv from kind to kind: the traversal of one written along that of the other
        AudioBuffer &x = buf(a[1]), &y = buf(a[3]);
        if (a[2] == "seq" && a[4] == "seq") std::copy(x.sbegin(), x.send(), y.sbegin());
        else if (a[2] == "seq") std::copy(x.sbegin(), x.send(), y.ibegin());
        else if (a[4] == "seq") std::copy(x.ibegin(), x.iend(), y.sbegin());
        else std::copy(x.ibegin(), x.iend(), y.ibegin());
        Obj("conv").n("b", I(a[1])).str("k", a[2]).n("to", I(a[3])).str("k2", a[4]).raw("o", obs(y)).put();
    } else if (o == "it") {
        int t = (int)I(a[1]), pos = (int)I(a[4]);
        AudioBuffer& b = buf(a[3]);
        owner[t] = &b;
        if (a[2] == "seq") T[t] = a[5] == "add" ? b.sbegin() + pos : a[5] == "end" ? b.send() - (int)(b.size() - pos) : SI(&b, pos);
        else T[t] = a[5] == "add" ? b.ibegin() + pos : a[5] == "end" ? b.iend() - (int)(b.size() - pos) : II(&b, pos);
        Obj e("it");
        e.n("t", t).str("k", a[2]).n("b", I(a[3])).n("p", pos);
        with(t, [&](auto& i) { e.raw("w", where(i, owner[t])); });
        e.put();
    } else if (o == "ito") {
        int t = (int)I(a[1]);
        const std::string& f = a[2];
        long n = a.size() > 3 ? I(a[3]) : 0, m = a.size() > 4 ? I(a[4]) : 0;
        Obj e("ito");
        e.n("t", t).str("f", f).n("n", n).n("m", m);
        with(t, [&](auto& i) {
            using It = std::decay_t<decltype(i)>;
            AudioBuffer* b = owner[t];
            auto from = i;
            auto ret = i;
            if (f == "inc") { auto& q = ++i; ret = q; }
            else if (f == "dec") { auto& q = --i; ret = q; }
            else if (f == "pinc") ret = i++;
            else if (f == "pdec") ret = i--;
            else if (f == "add") { auto& q = i += (int)n; ret = q; }
            else if (f == "addu") { auto& q = i += (unsigned)n; ret = q; }
            else if (f == "addl") { auto& q = i += (int64_t)n; ret = q; }
            else if (f == "addz") { auto& q = i += (std::size_t)n; ret = q; }
            else if (f == "sub") { auto& q = i -= (int)n; ret = q; }
            else if (f == "plus") ret = i + (int)n;
            else if (f == "plusu") ret = i + (unsigned)n;
            else if (f == "plusl") ret = i + (int64_t)n;
            else if (f == "plusz") ret = i + (std::size_t)n;
            else if (f == "minus") ret = i - (int)n;
            else if (f == "set") { i.set_index((int)n); ret = i; }
            else if (f == "pos") { i.set_position((int)n, (int)m); ret = i; }
            else if (f == "chan") {
                if constexpr (requires { i.set_channel(1); }) i.set_channel((int)n);
                ret = i;
            } else if (f == "smp") {
                if constexpr (requires { i.set_sample(1); }) i.set_sample((int)n);
                ret = i;
            } else if (f == "write") { *i = n / fine; ret = i; }
            else if (f == "abs") { e.d("v", i[(int)n] * fine); ret = i; }
            else if (f == "absw") { i[(int)n] = m / fine; ret = i; }
            else bad(f);
            (void)sizeof(It);
            e.raw("w", where(i, b)).raw("r", where(ret, b)).raw("o", obs(*b));
        });
        e.put();
    } else if (o == "itc") {
        int t = (int)I(a[1]), u = (int)I(a[2]);
        if (!T[t] || !T[u] || T[t]->index() != T[u]->index()) bad("itc");
        Obj e("itc");
        e.n("t", t).n("u", u);
        auto f = [&](auto& i, auto& j) {
            e.raw("q", ints({i == j, i != j, i < j, i > j, i <= j, i >= j})).n("d", (int)(i - j)).n("ci", (int)i);
        };
        if (T[t]->index() == 0) f(std::get<0>(*T[t]), std::get<0>(*T[u]));
        else f(std::get<1>(*T[t]), std::get<1>(*T[u]));
        e.put();
    } else if (o == "typed") {
        const std::string& k = a[1];
        if (k == "double") typed<dsp::buff::Buffer<double>, false>(a);
        else if (k == "float") typed<dsp::buff::Buffer<float>, false>(a);
        else if (k == "int") typed<dsp::buff::Buffer<int>, false>(a);
        else if (k == "short") typed<dsp::buff::Buffer<short>, false>(a);
        else if (k == "long") typed<dsp::buff::Buffer<long>, false>(a);
        else if (k == "cplx") typed<dsp::buff::Buffer<std::complex<double>>, false>(a);
        else if (k == "s4") typed<dsp::buff::StaticBuffer<double, 4>, true>(a);
        else if (k == "s6") typed<dsp::buff::StaticBuffer<double, 6>, true>(a);
        else if (k == "s6f") typed<dsp::buff::StaticBuffer<float, 6>, true>(a);
        else if (k == "s12i") typed<dsp::buff::StaticBuffer<int, 12>, true>(a);
        else if (k == "s6c") typed<dsp::buff::StaticBuffer<std::complex<double>, 6>, true>(a);
        else bad(k);
    } else if (o == "mul") {  // mul b u to
        dsp::mat::matrix_mult(buf(a[1]), buf(a[2]), buf(a[3]));
        Obj("mul").n("b", I(a[1])).n("u", I(a[2])).n("to", I(a[3])).raw("o", obs(buf(a[3]))).put();
    } else if (o == "mulk") {  // mulk kinds ra rb junk n x.. y..
        int ra = (int)I(a[2]), rb = (int)I(a[3]), junk = (int)I(a[4]);
        auto v = rest(a, 6);
        std::vector<double> x(v.begin(), v.begin() + I(a[5])), y(v.begin() + I(a[5]), v.end());
        Obj e("mulk");
        e.n("ra", ra).n("rb", rb).raw("x", vals(x)).raw("y", vals(y));
        const std::string& k = a[1];
        if (k == "iii") mulk<int, int, int>(ra, rb, x, y, junk, e);
        else if (k == "ifl") mulk<int, float, long>(ra, rb, x, y, junk, e);
        else if (k == "dif") mulk<double, int, float>(ra, rb, x, y, junk, e);
        else if (k == "fdd") mulk<float, double, double>(ra, rb, x, y, junk, e);
        else if (k == "ddd") mulk<double, double, double>(ra, rb, x, y, junk, e);
        else bad(k);
        e.put();
    } else if (o == "alg") {  // alg b kind what n m
        AudioBuffer& b = buf(a[1]);
        int n = (int)I(a[4]), m = (int)I(a[5]);
        if (a[2] == "seq") alter(b.sbegin(), b.send(), a[3], n, m);
        else alter(b.ibegin(), b.iend(), a[3], n, m);
        Obj("alg").n("b", I(a[1])).str("k", a[2]).str("f", a[3]).n("n", n).n("m", m).raw("o", obs(b)).put();
    } else if (o == "ask") {  // ask b kind n
        AudioBuffer& b = buf(a[1]);
        const AudioBuffer& cb = b;
        Obj e("ask");
        int n = (int)I(a[3]);
        e.n("b", I(a[1])).str("k", a[2]).n("n", n);
        if (a[2] == "seq") ask(b.sbegin(), b.send(), n, e);
        else if (a[2] == "inter") ask(b.ibegin(), b.iend(), n, e);
        else if (a[2] == "cseq") ask(cb.scbegin(), cb.scend(), n, e);
        else ask(cb.icbegin(), cb.icend(), n, e);
        e.put();
    } else if (o == "static") {
        int ch = (int)I(a[2]), rep = (int)I(a[4]);
        switch (I(a[1])) {
            case 1: stat<1>(ch, D(a[3]), rep); break;
            case 4: stat<4>(ch, D(a[3]), rep); break;
            case 6: stat<6>(ch, D(a[3]), rep); break;
            case 12: stat<12>(ch, D(a[3]), rep); break;
            default: bad("static");
        }
    } else if (o == "ring") {
        auto v = rest(a, 2);
        if (a[1] == "size") {
            R = std::make_unique<Ring>(v.size());
            v.assign(v.size(), 0);
        } else R = std::make_unique<Ring>(v);
        for (auto& t : RT) t.reset();
        Obj("ring").raw("v", vals(v)).n("n", (long)R->size()).put();
    } else if (o == "rcopy") {  // go on with a copy; what is written there is not seen in the original
        auto c = std::make_unique<Ring>(*R);
        double keep = R->size() ? (*R)[0] : 0;
        if (c->size()) (*c)[0] = keep + 1 / fine;
        double orig = R->size() ? (*R)[0] : 0;
        if (c->size()) (*c)[0] = keep;
        R = std::move(c);
        for (auto& t : RT) t.reset();
        Obj("rcopy").n("same", orig == keep).put();
    } else if (o == "rput") {
        (*R)[far(a, 3)] = V(a[2]);
        Obj("rput").n("i", I(a[1])).d("x", D(a[2])).put();
    } else if (o == "rget") {
        Obj("rget").n("i", I(a[1])).d("x", (*R)[far(a, 2)] * fine).put();
    } else if (o == "rresize") {
        R->resize((std::size_t)I(a[1]));
        Obj("rresize").n("n", I(a[1])).n("size", (long)R->size()).put();
    } else if (o == "rreserve") {
        R->reserve((std::size_t)I(a[1]));
        Obj("rreserve").n("n", I(a[1])).n("size", (long)R->size()).put();
    } else if (o == "rdump") {
        std::vector<double> v;
        for (auto i = R->begin(); i != R->end(); ++i) v.push_back(*i);
        Obj("rdump").raw("v", vals(v)).n("size", (long)R->size()).put();
    } else if (o == "rit") {
        int t = (int)I(a[1]);
        RT[t] = a[3] == "end" ? R->end() : RI(R.get(), (int)I(a[2]));
        long p = a[3] == "end" ? (long)R->size() : I(a[2]);
        Obj("rit").n("t", t).n("p", p).n("x", RT[t]->get_index()).d("v", **RT[t] * fine).put();
    } else if (o == "rito") {
        int t = (int)I(a[1]);
        if (!RT[t]) bad("rito");
        auto& i = *RT[t];
        const std::string& f = a[2];
        int n = a.size() > 3 ? (int)I(a[3]) : 0;
        RI ret = i;
        if (f == "inc") ret = ++i;
        else if (f == "dec") ret = --i;
        else if (f == "pinc") ret = i++;
        else if (f == "pdec") ret = i--;
        else if (f == "add") ret = i += n;
        else if (f == "sub") ret = i -= n;
        else if (f == "plus") ret = i + n;
        else if (f == "minus") ret = i - n;
        else if (f == "set") { i.set_index(n); ret = i; }
        else if (f == "write") { *i = n / fine; ret = i; }
        else if (f == "abs") ret = RI(R.get(), n), ret.set_index(n);
        else bad(f);
        Obj e("rito");
        e.n("t", t).str("f", f).n("n", n).n("x", i.get_index()).d("v", *i * fine).n("rx", ret.get_index()).d("rv", *ret * fine);
        if (f == "abs") e.d("av", i[n] * fine);
        e.put();
    } else return false;
    return true;
}

int main(int c, char** v) {
    return kit::run(c, v, {[](const std::string&) {
                               for (auto& b : B) b.reset();
                               for (auto& t : T) t.reset();
                               for (auto& t : RT) t.reset();
                               R.reset();
                               fine = 1;
                           },
                           op, [] {}});
}
