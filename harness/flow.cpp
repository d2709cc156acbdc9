// Driver for the modules that sum, re-block, count, time, repeat and scale buffers.  Time is virtual: the
// steady clock is this program's own, and upstream modules advance it.
#include <chrono>
#include <memory>

#include "kit.hpp"
#include "amp_module.hpp"
#include "meta_audio.hpp"
#include "module_mixer.hpp"
#include "sink_module.hpp"
#include "source_module.hpp"

static long long now_ns = 5;
static long long unit = 1;   // nanoseconds per tick of the script: the same history at the scale of days
// Samples are whole multiples of 1/fine, factors of 1/gfine, sample rates of 1/rfine (powers of two: every value below is exact)
static double fine = 1, gfine = 1, rfine = 1;
namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(now_ns)); }
}
}

using namespace kit;

// a buffer in a script: ch:rate:v,v,v
static AudioBuffer parse(const std::string& s) {
    size_t a = s.find(':'), b = s.find(':', a + 1);
    int ch = (int)I(s.substr(0, a));
    double rate = D(s.substr(a + 1, b - a - 1)) / rfine;
    std::vector<double> v;
    std::istringstream ss(s.substr(b + 1));
    for (std::string w; std::getline(ss, w, ',');) v.push_back(D(w) / fine);
    return AudioBuffer(v, ch, rate);
}
static std::string enc(AudioBuffer& b, double by = 0) {
    std::vector<double> v{(double)b.channels(), b.get_samplerate() * rfine};
    for (size_t i = 0; i < b.size(); ++i) v.push_back(b.at((int)i) * (by ? by : fine));
    return nums(v);
}

// Somebody asked for more than the script offers: no specified history does that
[[noreturn]] static void dry() {
    Obj("dry").put();
    std::_Exit(97);
}

// Upstream: hands out the scripted buffers, one per call, taking scripted time
struct Feed : SourceModule {
    std::vector<std::pair<long, AudioBuffer>> q;
    size_t next = 0;
    std::vector<std::string> given;
    void process() override {
        if (next >= q.size()) dry();
        now_ns += q[next].first * unit;
        AudioBuffer b = q[next++].second;
        given.push_back(enc(b));
        this->set_buffer(std::move(b));
    }
    std::string take() {
        std::string s = list(given, [](const std::string& x) { return x; });
        given.clear();
        return s;
    }
};

// A latency module with work of its own: done once per block, after the measurement
struct Measured : LatencyModule {
    void process() override {
        for (std::size_t i = 0; i < this->buff.size(); ++i) this->buff.at((int)i) += 7 / fine;
        now_ns += 3 * unit;
    }
};

struct World {
    SinkModule<> sink;
    std::vector<std::unique_ptr<Feed>> feeds;
    ModuleMixDown mix;
    UniformBuffer uni;
    Counter cnt;
    Measured lat2;
    LatencyModule lat1;
    LatencyModule* lat = &lat1;
    AudioBuffer gb;
    std::unique_ptr<ConstModule> con;
    std::unique_ptr<BufferModule> rep;
    std::unique_ptr<AmplitudeScale<>> scale;
    std::unique_ptr<AmplitudeAdd<>> add;
    ChainTimer timer;
    BaseModule* m = nullptr;
};
static std::unique_ptr<World> w;
static std::string kind;
static bool remade = false;  // the repeated buffer was given to the constructor

static void setchain(const Args& a) {
    ChainInfo* c = w->sink.get_chain_info();
    c->sample_rate = D(a[1]) / rfine; c->buffer_size = (int)I(a[2]); c->channels = (int)I(a[3]);
    w->sink.meta_info_sync();
    Obj("chain").raw("v", ints({I(a[1]), I(a[2]), I(a[3])})).put();
}
// the unit of the value a module is given
static double vfine() { return kind == "scale" ? gfine : fine; }
static std::string pull() {
    // in front of the module is a sink, or now and then somebody who only looks
    const bool far = look();
    BaseModule* front = far ? w->m : &w->sink;
    front->meta_process();
    AudioBuffer b;
    if (far) b = static_cast<const AudioBuffer&>(front->get_buffer());
    else b = front->get_buffer();
    std::string s = enc(b, kind == "scale" ? fine * gfine : fine);
    for (size_t i = 0; i < b.size(); ++i) b.at((int)i) = -777;   // what the consumer does must not matter
    return s;
}

// a time, in ticks
static std::string ticks(long long v, bool whole = true) {
    if (whole && v % unit) return "\"odd\"";
    v /= unit;
    return v > -2147483647LL && v < 2147483648LL ? std::to_string(v) : "\"big\"";
}

static long long cunit = 1;     // samples of a timer, in this many
static long long flooded = 0;   // samples a counter was given in floods
static std::string many(long long v, long long u) {
    if (v % u) return "\"odd\"";
    v /= u;
    return v > -2147483647LL && v < 2147483648LL ? std::to_string(v) : "\"big\"";
}

static bool op(const Args& a) {
    const std::string& k = a[0];
    if (k == "cunit") { cunit = I(a[1]); return true; }
    if (k == "unit") { unit = I(a[1]); now_ns *= unit; return true; }
    if (k == "fine") { fine = D(a[1]); gfine = D(a[2]); rfine = D(a[3]); return true; }
    if (k == "kind") {
        kind = a[1];
        bool made = a.size() > 2;   // with the constructor that takes the value
        remade = made;
        double v0 = made && kind != "repeat" ? D(a[2]) / vfine() : 1;
        header("{\"kind\":" + q(kind) + ",\"v0\":" + num(v0 * vfine()) + ",\"own\":" + (kind == "latency" && made ? "1" : "0") + ",\"unit\":" + std::to_string(unit) + "}");
        if (kind == "latency" && made) w->lat = &w->lat2;
        if (kind == "const") w->con = made ? std::make_unique<ConstModule>(v0) : std::make_unique<ConstModule>();
        if (kind == "scale") w->scale = made ? std::make_unique<AmplitudeScale<>>(v0) : std::make_unique<AmplitudeScale<>>();
        if (kind == "add") w->add = made ? std::make_unique<AmplitudeAdd<>>(v0) : std::make_unique<AmplitudeAdd<>>();
        if (kind == "repeat") w->rep = made ? std::make_unique<BufferModule>(&w->gb) : std::make_unique<BufferModule>();
        auto feed = [&] { w->feeds.push_back(std::make_unique<Feed>()); return w->feeds.back().get(); };
        if (kind == "mix") w->m = &w->mix;
        if (kind == "uniform") { w->m = &w->uni; w->uni.link(feed()); }
        if (kind == "counter") { w->m = &w->cnt; w->cnt.link(feed()); }
        if (kind == "latency") { w->m = w->lat; w->lat->link(feed()); }
        if (kind == "const") w->m = w->con.get();
        if (kind == "repeat") w->m = w->rep.get();
        if (kind == "scale") { w->m = w->scale.get(); w->scale->link(feed()); }
        if (kind == "add") { w->m = w->add.get(); w->add->link(feed()); }
        if (w->m) w->sink.link(w->m);
        return true;
    }
    if (k == "chain") { setchain(a); return true; }
    if (k == "input") { w->feeds.push_back(std::make_unique<Feed>()); w->mix.link(w->feeds.back().get()); w->sink.meta_info_sync(); return true; }
    if (k == "feed") { w->feeds.at(I(a[1]))->q.push_back({I(a[2]), parse(a[3])}); return true; }
    if (k == "mix") {
        std::string out = pull(), in = "[";
        for (size_t i = 0; i < w->feeds.size(); ++i) in += (i ? "," : "") + w->feeds[i]->take();
        Obj("mix").raw("ins", in + "]").raw("out", out).n("n", w->mix.num_inputs()).put();
        return true;
    }
    if (k == "pull") {
        if (kind == "latency") {
            auto& f = *w->feeds[0];
            if (f.next >= f.q.size()) dry();
            Obj("cost").n("n", f.q[f.next].first).put();
        }
        std::string out = pull();
        Obj o("pull");
        o.raw("ins", w->feeds.empty() ? "[]" : w->feeds[0]->take()).raw("out", out);
        if (kind == "counter" || kind == "latency") {
            Counter* c = kind == "counter" ? &w->cnt : w->lat;
            o.n("processed", c->processed()).raw("samples", many(c->samples() - flooded, 1));
        }
        o.put();
        return true;
    }
    if (k == "stats") {
        auto& l = *w->lat;
        auto f = [](int64_t v) { return ticks(v); };
        auto g = [](int64_t v) { return ticks(v, false); };
        Obj("stats").n("processed", l.processed()).n("samples", l.samples())
            .raw("start", f(l.get_start_time())).raw("elapsed", f(l.elapsed())).raw("expected", f(l.expected()))
            .raw("time", f(l.time())).raw("ttime", f(l.total_time())).raw("lat", f(l.latency())).raw("tlat", f(l.total_latency()))
            .raw("slat", f(l.sum_latency())).raw("atime", g(l.average_time())).raw("alat", g(l.average_latency())).put();
        return true;
    }
    if (k == "reset") {
        flooded = 0;
        if (kind == "counter") w->cnt.reset(); else w->lat->reset();
        Counter* c = kind == "counter" ? &w->cnt : w->lat;
        Obj("reset").n("processed", c->processed()).n("samples", c->samples()).put();
        return true;
    }
    if (k == "start") { w->sink.meta_start(); Obj("start").put(); return true; }
    if (k == "tick") { now_ns += I(a[1]) * unit; Obj("tick").n("n", I(a[1])).put(); return true; }
    if (k == "value") {
        double v = D(a[1]) / vfine(), g = 0;
        if (kind == "const") { w->con->set_value(v); g = w->con->get_value(); }
        if (kind == "scale") { w->scale->set_value(v); g = w->scale->get_value(); }
        if (kind == "add") { w->add->set_value(v); g = w->add->get_value(); }
        Obj("value").d("v", D(a[1])).d("get", g * vfine()).put();
        return true;
    }
    if (k == "rbuf") {
        w->gb = parse(a[1]);
        if (!remade) w->rep->set_rbuffer(&w->gb);
        Obj("rbuf").raw("b", enc(w->gb)).n("same", w->rep->get_rbuffer() == &w->gb).put();
        return true;
    }
    // timers
    auto& t = w->timer;
    auto st = [&](const char* n, long v, long v2 = 0) {
        Obj(n).n("v", v).n("v2", v2).raw("npf", ticks(t.get_npf())).n("ch", t.get_channels())
            .raw("s", many(t.get_sample(), cunit)).raw("t", many(t.get_time(), unit * cunit)).put();
        return true;
    };
    if (k == "t.rate") { t.set_samplerate((int)I(a[1])); return st("trate", I(a[1])); }
    if (k == "t.npf") { t.set_npf(I(a[1]) * unit); return st("tnpf", I(a[1])); }
    if (k == "t.ch") { t.set_channels((int)I(a[1])); return st("tch", I(a[1])); }
    if (k == "t.set") { t.set_sample(I(a[1]) * cunit); return st("tset", I(a[1])); }
    if (k == "t.add") { t.add_sample(I(a[1]) * cunit); return st("tadd", I(a[1])); }
    if (k == "flood") {   // 2^30 samples in 256 buffers
        w->cnt.set_buffer(AudioBuffer(1 << 22, 1));
        for (int i = 0; i < 256; ++i) w->cnt.process();
        w->cnt.set_buffer(AudioBuffer());
        flooded += 1LL << 30;
        Obj("flood").n("processed", w->cnt.processed()).raw("samples", many(w->cnt.samples() - flooded, 1)).put();
        return true;
    }
    if (k == "t.inc") { t.inc_sample(); return st("tadd", 1); }
    if (k == "t.reset") { t.reset(); return st("treset", 0); }
    if (k == "t.q1") { Obj("tq1").n("v", I(a[1])).raw("t", ticks(t.get_time((int)I(a[1])))).put(); return true; }
    if (k == "t.q2") { Obj("tq2").n("v", I(a[1])).n("c", I(a[2])).raw("t", ticks(t.get_time((int)I(a[1]), (int)I(a[2])))).put(); return true; }
    if (k == "t.clock") {
        long long a0 = get_time();
        now_ns += I(a[1]) * unit;
        Obj("tclock").n("v", I(a[1])).raw("d", ticks(get_time() - a0)).put();
        return true;
    }
    return false;
}

int main(int argc, char** argv) {
    return run(argc, argv, {[](const std::string&) { w = std::make_unique<World>(); now_ns = 5; unit = 1; cunit = 1; flooded = 0; fine = gfine = rfine = 1; }, op, nullptr});
}
