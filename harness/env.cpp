// Driver for envelopes: single ones, chains of them, durations, ADSR.
#include <memory>

#include "kit.hpp"
#include "envelope.hpp"
#include "sink_module.hpp"

using namespace kit;

// An envelope that counts how often it was started (it may hold something that needs it)
static long starts = 0;
template <class T>
struct Probe : T {
    void start() override { ++starts; T::start(); }
};

struct World {
    std::vector<std::unique_ptr<BaseEnvelope>> es;
    std::unique_ptr<ChainEnvelope> chain;
    std::unique_ptr<DurationEnvelope> dur;
    BaseEnvelope* m = nullptr;      // the module that is processed
    BaseEnvelope* clock = nullptr;  // the envelope whose timer drives it
    ChainInfo info;
    long sc = 1, a = 0, d = 0, s = 0, r = 0;    // times in units
    double fine = 1;                            // values are in units of 1/fine
    long u = 1;                                 // nanoseconds per unit of the script: the same history at the scale of days
};
static std::unique_ptr<World> w;
static std::string kind;

static long cur() {
    if (!w->chain || !w->chain->get_current()) return 0;
    for (size_t i = 0; i < w->es.size(); ++i)
        if (w->es[i].get() == w->chain->get_current()) return (long)i + 1;
    return 0;
}
static void setup() {
    if (w->m) return;
    header("{\"kind\":" + q(kind) + ",\"sc\":" + std::to_string(w->sc) + ",\"one\":" + std::to_string((long)w->fine) + "}");
    if (kind == "chain") w->chain = std::make_unique<ChainEnvelope>();
    if (kind == "adsr") w->chain = std::make_unique<ADSREnvelope>(w->a * w->u, w->d * w->u, w->s / w->fine, w->r * w->u);
    if (kind == "dur") w->dur = std::make_unique<DurationEnvelope>();
    w->m = w->chain ? (BaseEnvelope*)w->chain.get() : (BaseEnvelope*)w->dur.get();
    w->clock = w->m;
    w->m->set_chain_info(&w->info);
}
static long ticks(long long v) { return v < 0 ? (long)v : v % w->u ? 2000000000 + v % 1000 : (long)(v / w->u); }
static long log1000(double v) { return v == 0 ? -99999999 : std::lround(1000 * std::log2(std::fabs(v))); }

static bool op(const Args& a) {
    const std::string& k = a[0];
    if (k == "kind") { kind = a[1]; w->sc = I(a[2]); return true; }
    if (k == "fine") { w->fine = D(a[1]); return true; }
    if (k == "unit") { w->u = I(a[1]); return true; }
    if (k == "adsr" && w->m) {      // for the next start
        auto* x = static_cast<ADSREnvelope*>(w->chain.get());
        w->a = I(a[1]); w->d = I(a[2]); w->s = I(a[3]); w->r = I(a[4]);
        x->set_attack(w->a * w->u); x->set_decay(w->d * w->u); x->set_sustain(w->s / w->fine); x->set_release(w->r * w->u);
        return true;
    }
    if (k == "adsr") { w->a = I(a[1]); w->d = I(a[2]); w->s = I(a[3]); w->r = I(a[4]); return true; }
    if (kind == "single" && k != "env" && !w->m) bad("no envelope yet");
    if (kind != "single") setup();
    if (k == "env") {       // env kind t0 t1 v0 v1 (t1 = far: never within reach)
        std::unique_ptr<BaseEnvelope> e;
        if (a[1] == "const") e = std::make_unique<Probe<ConstantEnvelope>>();
        else if (a[1] == "set") e = std::make_unique<Probe<SetValue>>();
        else if (a[1] == "lin") e = std::make_unique<Probe<LinearRamp>>();
        else if (a[1] == "exp") e = std::make_unique<Probe<ExponentialRamp>>();
        else return false;
        bool far = a[3] == "far";
        double v0 = D(a[4]) / w->fine, v1 = D(a[5]) / w->fine, e0 = v0 == 0 ? SMALL : v0;
        e->set_start_time(I(a[2]) * w->u);
        e->set_stop_time(far ? 1000000000000000 : I(a[3]) < 0 ? I(a[3]) : I(a[3]) * w->u);
        e->set_start_value(v0);
        e->set_stop_value(v1);
        BaseEnvelope* p = e.get();
        w->es.push_back(std::move(e));
        if (kind == "single") {
            header("{\"kind\":\"single\",\"sc\":" + std::to_string(w->sc) + ",\"one\":" + std::to_string((long)w->fine) + "}");
            w->m = w->clock = p;
        } else if (kind == "dur") {
            w->dur->set_envelope(p);
            w->clock = p;
        } else w->chain->add_envelope(p);
        bool exp = a[1] == "exp";
        Obj r("");
        r.s = "{\"k\":" + q(a[1]);
        r.n("t0", ticks(p->get_start_time())).n("t1", far ? 100000000 : ticks(p->get_stop_time()))
            .d("v0", p->get_start_value() * w->fine).d("v1", p->get_stop_value() * w->fine)
            .n("lg", exp ? log1000(e0 * w->fine) : 0).n("lk", exp ? log1000(v1 / e0) : 0).n("u", (long)w->es.size());
        Obj("env").raw("e", r.s + "}").n("cur", cur()).put();
        return true;
    }
    if (k == "timer") {     // npf, channels
        w->clock->get_timer()->set_npf(I(a[1]) * w->u);
        w->clock->get_timer()->set_channels((int)I(a[2]));
        Obj("timer").n("npf", I(a[1])).n("ch", I(a[2])).put();
        return true;
    }
    if (k == "info") {      // size channels rate
        for (BaseEnvelope* x : {w->m, w->clock}) {
            x->get_info()->out_buffer = (int)I(a[1]);
            x->get_info()->channels = (int)I(a[2]);
            x->get_info()->sample_rate = D(a[3]);
        }
        Obj("info").n("n", I(a[1])).n("ch", I(a[2])).n("rate", I(a[3])).put();
        return true;
    }
    if (k == "startv") { w->m->set_start_value(D(a[1]) / w->fine); Obj("startv").d("v", w->m->get_start_value() * w->fine).put(); return true; }
    if (k == "seek") { w->clock->get_timer()->set_sample((int)I(a[1])); Obj("seek").n("n", I(a[1])).put(); return true; }
    if (k == "rem") { Obj("rem").n("rem", w->clock->remaining_samples()).put(); return true; }
    if (k == "dur") { w->dur->set_duration(I(a[1]) * w->u); Obj("dur").n("d", ticks(w->dur->get_duration())).put(); return true; }
    if (k == "dseek") {
        w->dur->get_timer()->set_npf(I(a[1]) * w->u);
        w->dur->get_timer()->set_sample((int)I(a[2]));
        Obj("dseek").n("t", ticks(w->dur->get_time())).put();
        return true;
    }
    if (k == "start") {
        w->m->meta_start();
        Obj o("start");
        o.n("cur", cur());
        if (kind == "dur") o.n("t0", ticks(w->clock->get_start_time())).n("t1", ticks(w->clock->get_stop_time())).n("starts", starts);
        if (kind == "adsr") o.n("a", w->a).n("d", w->d).n("s", w->s).n("st", (int)w->m->get_state());
        o.put();
        return true;
    }
    if (k == "stop") { w->m->meta_stop(); Obj("stop").n("cur", cur()).put(); return true; }
    if (k == "next") { w->chain->next_envelope(); Obj("next").n("cur", cur()).put(); return true; }
    if (k == "finish") { w->m->meta_finish(); Obj("finish").n("r", w->r).n("st", (int)w->m->get_state()).put(); return true; }
    if (k == "process") {
        w->m->meta_process();
        AudioBuffer b = take(w->m->get_buffer());
        std::vector<double> v;
        std::vector<long> lg;
        for (size_t i = 0; i < b.size(); ++i) {
            double x = b.at((int)i) * w->fine;
            v.push_back(std::isfinite(x) && std::fabs(x) < 1e6 ? std::round(x * w->sc) : 1e9);
            lg.push_back(std::isfinite(x) ? log1000(x) : 99999999);
        }
        Obj("process").raw("out", nums(v)).raw("lg", ints(lg)).n("ch", b.channels()).d("rate", b.get_samplerate())
            .n("smp", w->clock->get_timer()->get_sample()).n("cur", cur())
            .n("st", (int)w->m->get_state()).n("fin", w->info.module_finish).put();
        return true;
    }
    return false;
}

int main(int argc, char** argv) {
    return run(argc, argv, {[](const std::string&) { w = std::make_unique<World>(); starts = 0; }, op, nullptr});
}
