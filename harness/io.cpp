// Byte streams, the PCM codec, WAV writers, readers and sources.
#include <unistd.h>

#include <filesystem>
#include <memory>

#include "audio_buffer.hpp"
#include "io/mstream.hpp"
#include "io/wav.hpp"
#include "kit.hpp"

using namespace kit;
namespace fs = std::filesystem;
using Bytes = std::vector<long>;

static fs::path dir;
static int files = 0;
static std::string fresh() { return (dir / ("f" + std::to_string(++files))).string(); }
static Bytes rest(const Args& a, std::size_t i) {
    Bytes v;
    for (; i < a.size(); ++i) v.push_back(I(a[i]));
    return v;
}
template <class C>
static std::string bytes(const C& c) {
    Bytes v;
    for (auto x : c) v.push_back((unsigned char)x);
    return ints(v);
}
static void spit(const std::string& p, const Bytes& b) {
    std::ofstream f(p, std::ios::binary);
    for (long x : b) f.put((char)x);
}
static std::string slurp(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(f), {});
}
template <class M>
static std::string state(M& m) {
    switch (m.get_state()) {
        case M::init: return "init";
        case M::started: return "started";
        case M::stopped: return "stopped";
        default: return "err";
    }
}

struct Str {
    std::unique_ptr<CharIStream> ci;
    std::unique_ptr<CharOStream> co;
    std::unique_ptr<FIStream> fi;
    std::unique_ptr<FOStream> fo;
    bool ok = true;
    BaseMIStream* in() { return ci ? (BaseMIStream*)ci.get() : fi.get(); }
    BaseMOStream* outp() { return co ? (BaseMOStream*)co.get() : fo.get(); }
    std::string st() { return in() ? state(*in()) : state(*outp()); }
};
static Str S[4];
static std::unique_ptr<WaveWriter> W;
static Str WS, RS;
static std::unique_ptr<WaveReader> Rd;
static std::unique_ptr<WaveSource> Src;
static Bytes last;

static void see(Obj& e, int i) {
    e.n("i", i).str("st", S[i].st());
    if (S[i].co) e.raw("v", bytes(S[i].co->get_array()));
}

// values measured in thousandths of a code (of half a code for unsigned formats); a value that is not one: a string
static std::string measure(const std::string& f, double v) {
    double top = f == "i16" ? 32767 : f == "char" ? 127 : f == "u16" ? 65535 : 255;
    bool sgn = f == "i16" || f == "char";
    double x = (sgn && v < 0 ? top + 1 : top) * v * 1000;
    double r = std::round(x);
    return std::fabs(x - r) < 1e-3 ? num(r) : num(x);
}
static double den = 1;
// the code of a value; what is only cast in units of 1/den
static long code(const std::string& f, double v) {
    if (f == "float" || f == "null") {
        double x = (f == "float" ? (double)mf_float(v) : mf_null(v)) * den;
        return x == (double)(long)x ? (long)x : -99999999;
    }
    return f == "i16" ? (long)mf_int16(v) : f == "char" ? (long)(signed char)mf_char(v) : f == "u16" ? (long)mf_uint16(v) : (long)mf_uchar(v);
}
static double value(const std::string& f, long c) {
    return f == "i16" ? int16_mf((int16_t)c) : f == "char" ? char_mf((char)c) : f == "u16" ? uint16_mf((uint16_t)c) : uchar_mf((unsigned char)c);
}
template <class B>
static void info(Obj& e, B& w) {
    e.n("f", w.get_format()).n("ch", w.get_channels()).n("rate", w.get_samplerate()).n("bits", w.get_bits_per_sample())
        .n("bytes", w.get_bytes_per_sample()).n("align", w.get_blockalign()).n("brate", w.get_byterate()).n("size", w.get_size());
}
// samples of a reader: 16 bit in 1/1000 of a code, 8 bit shifted so that codes are 2000 apart
static std::string samples(AudioBuffer& b, int bits) {
    std::string s = "[";
    for (std::size_t i = 0; i < b.size(); ++i) {
        double v = b.at((int)i);
        if (i) s += ",";
        if (bits == 16) s += measure("i16", v);
        else {
            double x = (v + 1) * 255000, r = std::round(x);
            s += std::fabs(x - r) < 1e-3 ? num(r) : num(x);
        }
    }
    return s + "]";
}

static bool op(const Args& a) {
    header("{}");
    const std::string& o = a[0];
    if (o == "mk") {
        int i = (int)I(a[1]);
        const std::string& k = a[2];
        const std::string& how = a[3];  // ok, none, full
        auto b = rest(a, 4);
        S[i] = Str{};
        S[i].ok = how != "none";
        if (k == "ci") {
            S[i].ci = std::make_unique<CharIStream>((int)b.size());
            for (std::size_t j = 0; j < b.size(); ++j) S[i].ci->get_array()[j] = (unsigned char)b[j];
        } else if (k == "co") {
            S[i].co = std::make_unique<CharOStream>((int)b.size());
            for (std::size_t j = 0; j < b.size(); ++j) S[i].co->get_array()[j] = (unsigned char)b[j];
        } else {
            std::string p = how == "none" ? (dir / "absent" / "x").string() : how == "full" ? "/dev/full" : fresh();
            if (how == "ok") spit(p, b);
            if (k == "fi") S[i].fi = std::make_unique<FIStream>(), S[i].fi->set_path(p);
            else S[i].fo = std::make_unique<FOStream>(), S[i].fo->set_path(p);
        }
        Obj("mk").n("i", i).str("k", k).n("ok", S[i].ok).raw("v", ints(b)).str("st", S[i].st()).put();
    } else if (o == "start" || o == "stop" || o == "seek") {
        int i = (int)I(a[1]);
        Obj e(o);
        auto act = [&](auto* m) {
            if (o == "start") m->start();
            else if (o == "stop") m->stop();
            else m->seek((int)I(a[2])), e.n("p", I(a[2]));
        };
        if (S[i].in()) act(S[i].in());
        else act(S[i].outp());
        see(e, i);
        if (o == "stop" && S[i].fo) {
            bool file = S[i].ok && S[i].fo->get_path() != "/dev/full";
            e.n("ok", file);
            if (file) e.raw("v", bytes(slurp(S[i].fo->get_path())));
        }
        e.put();
    } else if (o == "read") {
        int i = (int)I(a[1]), n = (int)I(a[2]);
        std::vector<char> b(n, (char)165);
        S[i].in()->read(b.data(), n);
        Obj e("read");
        e.n("n", n).raw("b", bytes(b));
        see(e, i);
        e.put();
    } else if (o == "write") {
        int i = (int)I(a[1]);
        auto b = rest(a, 2);
        std::vector<char> c(b.begin(), b.end());
        S[i].outp()->write(c.data(), (int)c.size());
        Obj e("write");
        e.raw("b", ints(b));
        see(e, i);
        e.put();
    } else if (o == "fill") {
        int i = (int)I(a[1]);
        std::vector<char> c(200000, 'x');
        S[i].outp()->write(c.data(), (int)c.size());
        Obj e("fill");
        see(e, i);
        e.put();
    } else if (o == "codec") {
        const std::string& f = a[1];
        long lo = I(a[2]), n = I(a[3]);
        std::string m = "[", b = "[";
        for (long c = lo; c < lo + n; ++c) {
            double v = value(f, c);
            m += (c > lo ? "," : "") + measure(f, v);
            b += (c > lo ? "," : "") + std::to_string(code(f, v));
        }
        Obj("codec").str("f", f).n("lo", lo).n("n", n).raw("mf", m + "]").raw("back", b + "]").put();
    } else if (o == "enc") {
        long n = I(a[2]);
        den = (double)n;
        auto x = rest(a, 3);
        Bytes v;
        for (long k : x) v.push_back(code(a[1], (double)k / den));
        Obj("enc").str("f", a[1]).n("den", n).raw("x", ints(x)).raw("v", ints(v)).put();
    } else if (o == "squish") {
        const std::string &how = a[1], &f = a[2];
        int ch = (int)I(a[3]);
        long n = I(a[4]);
        den = (double)n;
        auto x = rest(a, 5);
        std::vector<double> d;
        for (long k : x) d.push_back((double)k / den);
        AudioBuffer b(d, ch);
        Bytes v(x.size(), 77);
        auto fn = [&](double y) { return code(f, y); };
        if (how == "inter") squish_inter(&b, v.begin(), fn);
        else if (how == "seq") squish_seq(&b, v.begin(), fn);
        else squish_null(&b, v.begin(), fn);
        Obj("squish").str("how", how).str("f", f).n("ch", ch).n("den", n).raw("x", ints(x)).raw("v", ints(v)).put();
    } else if (o == "bytes") {
        auto b = rest(a, 1);
        std::vector<char> c(b.begin(), b.end());
        std::vector<unsigned char> u(b.begin(), b.end());
        int16_t i16 = char_int16(c.begin());
        int32_t s32 = char_int32(c.data());
        uint32_t u32 = char_uint32(u.data());
        std::vector<char> e16(2), es(4), eu(4);
        int16_char(i16, e16.begin());
        int32_char(s32, es.data());
        uint32_char(u32, eu.begin());
        Obj("bytes").raw("b", ints(b)).n("i16", i16).n("s32lo", s32 & 0xffff).n("s32hi", s32 >> 16)
            .raw("u32", ints({(long)(u32 & 0xffff), (long)(u32 >> 16)})).raw("e16", bytes(e16)).raw("es32", bytes(es)).raw("eu32", bytes(eu)).put();
    } else if (o == "wnew") {
        WS = Str{};
        bool mem = a[1] == "mem";
        if (mem) WS.co = std::make_unique<CharOStream>();
        else WS.fo = std::make_unique<FOStream>(), WS.fo->set_path(fresh());
        if (a[2] == "ctor") W = std::make_unique<WaveWriter>(WS.outp());
        else W = std::make_unique<WaveWriter>(), W->set_stream(WS.outp());
        Obj("wnew").put();
    } else if (o == "wstream") {  // same: the stream it has, from its start; mem, file: another one
        bool keep = a[1] == "same" && WS.co;
        if (a[1] == "mem") WS = Str{}, WS.co = std::make_unique<CharOStream>();
        else if (a[1] == "file") WS = Str{}, WS.fo = std::make_unique<FOStream>(), WS.fo->set_path(fresh());
        else if (WS.co) WS.co->seek(0);
        W->set_stream(WS.outp());
        Obj("wstream").n("keep", keep).put();
    } else if (o == "wset") {
        int x = (int)I(a[2]);
        if (a[1] == "ch") W->set_channels(x);
        else if (a[1] == "rate") W->set_samplerate(x);
        else if (a[1] == "bits") W->set_bits_per_sample(x);
        else if (a[1] == "bytes") W->set_bytes_per_sample(x);
        else if (a[1] == "format") W->set_format(x);
        else bad(a[1]);
        Obj e("wset");
        e.str("what", a[1]).n("x", x);
        info(e, *W);
        e.put();
    } else if (o == "wstart") {
        if (a[1] == "started") WS.outp()->start();
        W->start();
        Obj e("wstart");
        info(e, *W);
        e.str("st", WS.st()).put();
    } else if (o == "wwrite") {
        int ch = (int)I(a[1]);
        long n = I(a[2]);
        den = (double)n;
        auto x = rest(a, 3);
        std::vector<double> d;
        for (long k : x) d.push_back((double)k / den);
        W->write_data(std::make_unique<AudioBuffer>(d, ch));
        Obj e("wwrite");
        e.n("den", den).raw("x", ints(x));
        info(e, *W);
        e.put();
    } else if (o == "wstop") {
        W->stop();
        std::string b;
        if (WS.co) b.assign(WS.co->get_array().begin(), WS.co->get_array().end());
        else b = slurp(WS.fo->get_path());
        last.clear();
        for (unsigned char c : b) last.push_back(c);
        Obj("wstop").raw("v", bytes(b)).str("st", WS.st()).put();
    } else if (o == "wgiant") {  // wgiant ch bits m: m blocks of 65536 bytes; all but the header is thrown away
        struct Pipe : BaseMOStream {
            std::vector<unsigned char> head;
            long at = 0, len = 0;
            void seek(int p) override { at = p; }
            void write(char* b, int n) override {
                for (long i = at; i < 44 && i < at + n; ++i) { if ((long)head.size() <= i) head.resize(i + 1); head[i] = (unsigned char)b[i - at]; }
                at += n;
                len = std::max(len, at);
            }
        } p;
        int ch = (int)I(a[1]), bits = (int)I(a[2]);
        long m = I(a[3]);
        WaveWriter w(&p);
        w.set_channels(ch); w.set_bits_per_sample(bits); w.set_samplerate(8000);
        w.start();
        for (long i = 0; i < m; ++i) w.write_data(std::make_unique<AudioBuffer>(65536 / (bits / 8) / ch, ch));
        w.stop();
        Obj e("wgiant");
        e.n("ch", ch).n("bits", bits).n("m", m).raw("v", bytes(std::string(p.head.begin(), p.head.end()))).n("hi", p.len >> 16).n("lo", p.len & 65535).put();
    } else if (o == "chunk") {
        const std::string& k = a[1];
        std::string id = a[2];  // ids without blanks; _ stands for one
        for (char& c : id)
            if (c == '_') c = ' ';
        auto x = rest(a, 3);
        CharOStream os;
        Obj e("chunk");
        e.str("k", k).raw("id", bytes(id)).raw("x", ints(x));
        auto back = [&] {
            auto is = std::make_unique<CharIStream>();
            is->get_array() = os.get_array();
            return is;
        };
        if (k == "head") {
            ChunkHeader h(id, (uint32_t)x[0]), g;
            h.encode(os);
            g.decode(*back());
            e.raw("id2", bytes(g.chunk_id)).raw("y", ints({(long)g.chunk_size}));
        } else if (k == "riff") {
            WavHeader h, g;
            h.chunk_size = (uint32_t)x[0];
            h.encode(os);
            g.chunk_id = "....", g.format = "....";
            g.decode(*back());
            e.raw("id2", bytes(g.chunk_id)).raw("id3", bytes(g.format)).raw("y", ints({(long)g.chunk_size}));
        } else if (k == "fmt") {
            WavFormat h, g;
            h.format = (uint16_t)x[0], h.channels = (uint16_t)x[1], h.sample_rate = (uint32_t)x[2], h.byte_rate = (uint32_t)x[3];
            h.block_align = (uint16_t)x[4], h.bits_per_sample = (uint16_t)x[5];
            h.encode(os);
            auto is = back();
            is->seek(8);
            g.decode(*is);
            e.raw("y", ints({g.format, g.channels, (long)g.sample_rate, (long)g.byte_rate, g.block_align, g.bits_per_sample}));
        } else if (k == "other") {
            UnknownChunk h((uint32_t)x.size()), g((uint32_t)x.size());
            h.chunk_id = id;
            for (std::size_t i = 0; i < x.size(); ++i) h.data[i] = (char)x[i];
            h.encode(os);
            auto is = back();
            is->seek(8);
            g.decode(*is);
            e.raw("y", bytes(g.data)).n("size", h.size());
        } else bad(k);
        e.raw("v", bytes(os.get_array())).put();
    } else if (o == "file") {
        last = rest(a, 1);
        Obj("file").raw("v", ints(last)).put();
    } else if (o == "ropen" || o == "sopen") {  // mem|file|missing|same buffer [again]
        bool again = a.size() > 3;
        if (!again) Rd.reset(), Src.reset();
        bool missing = a[1] == "missing";
        if (a[1] == "same") {
            if (Src) Src->meta_stop();
            else Rd->stop();
            if (RS.ci) RS.ci->seek(0);
        } else RS = Str{};
        if (a[1] == "same") {
        } else if (a[1] == "mem") {
            RS.ci = std::make_unique<CharIStream>();
            for (long b : last) RS.ci->get_array().push_back((unsigned char)b);
        } else {
            RS.fi = std::make_unique<FIStream>();
            std::string p = missing ? (dir / "absent" / "y").string() : fresh();
            if (!missing) spit(p, last);
            RS.fi->set_path(p);
        }
        int buf = (int)I(a[2]);
        Obj e(o);
        e.n("buf", buf);
        if (o == "ropen") {
            if (!again) Rd = std::make_unique<WaveReader>(RS.in());
            Rd->set_stream(RS.in());
            Rd->start();
            Rd->set_buffer_size(buf);
            e.n("missing", missing);
            info(e, *Rd);
            e.n("done", Rd->done()).str("st", RS.st()).put();
        } else {
            if (!again) Src = std::make_unique<WaveSource>(RS.in());
            Src->set_stream(RS.in());
            Src->get_info()->out_buffer = buf;
            Src->meta_start();
            e.n("ch", Src->get_info()->channels).d("rate", Src->get_info()->sample_rate).put();
        }
    } else if (o == "rbuf") {
        if (Rd) Rd->set_buffer_size((int)I(a[1]));
        Obj("rbuf").n("n", I(a[1])).put();
    } else if (o == "rget") {
        Obj e("rget");
        auto show = [&](AudioBuffer& b, WaveReader& r) {
            e.n("ch", (long)b.channels()).n("cap", b.channels() ? (long)b.channel_capacity() : 0).d("rate", b.get_samplerate())
                .raw("v", samples(b, r.get_bits_per_sample())).n("done", r.done()).str("st", RS.st());
        };
        if (Rd) {
            auto b = Rd->get_data();
            show(*b, *Rd);
        } else {
            Src->meta_process();
            AudioBuffer b(take(Src->get_buffer()));
            show(b, *Src);
        }
        e.put();
    } else return false;
    return true;
}

int main(int c, char** v) {
    if (c < 3) return 2;
    std::string t = std::string(v[2]) + ".XXXXXX";  // beside the output, removed with it
    if (!mkdtemp(t.data())) return 2;
    dir = t;
    int rc = kit::run(c, v, {[](const std::string&) {
                                 for (auto& s : S) s = Str{};
                                 Rd.reset(), Src.reset(), W.reset();
                                 WS = Str{}, RS = Str{};
                                 last.clear();
                                 for (const auto& f : fs::directory_iterator(dir)) fs::remove(f.path());
                             },
                             op, [] {}});
    fs::remove_all(dir);
    return rc;
}
