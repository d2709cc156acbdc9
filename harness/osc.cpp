// Oscillators, plain and modulated, alone or in a chain.
#include <memory>

#include "audio_buffer.hpp"
#include "fund_oscillator.hpp"
#include "kit.hpp"
#include "sink_module.hpp"
#include "source_module.hpp"

using namespace kit;

static long scaled(double v) {
    double x = v * 100000;
    return std::isfinite(x) && std::fabs(x) < 1.9e9 ? std::lround(x) : 2000000001;
}
// delivers the frequencies of the script, the same in every channel
struct Gliss : SourceModule {
    std::vector<long> next;
    void process() override {
        this->reserve();
        for (std::size_t i = 0; i < buff.size(); ++i) {
            std::size_t f = i / buff.channels();
            buff.at((int)i) = f < next.size() ? next[f] / 4.0 : 0;
        }
    }
};
static std::unique_ptr<BaseOscillator> osc;
static std::unique_ptr<BaseModulatedOscillator> mod;
static std::unique_ptr<SinkModule<>> sink;
static std::unique_ptr<Gliss> gliss;
static bool chained, constant;
static double saved, frate;
static long freq, size, chans;
static std::string kind;

template <class T, class... A>
static void make(std::unique_ptr<T>& p, const std::string& k, A... a) {
    if constexpr (std::is_same_v<T, BaseOscillator>) {
        if (k == "sine") p = std::make_unique<SineOscillator>(a...);
        else if (k == "square") p = std::make_unique<SquareOscillator>(a...);
        else if (k == "saw") p = std::make_unique<SawtoothOscillator>(a...);
        else if (k == "triangle") p = std::make_unique<TriangleOscillator>(a...);
        else bad(k);
    } else {
        if (k == "sine") p = std::make_unique<ModSineOscillator>(a...);
        else if (k == "square") p = std::make_unique<ModSquareOscillator>(a...);
        else if (k == "saw") p = std::make_unique<ModSawtoothOscillator>(a...);
        else if (k == "triangle") p = std::make_unique<ModTriangleOscillator>(a...);
        else bad(k);
    }
}
static BaseModule* module() { return osc ? (BaseModule*)osc.get() : mod.get(); }
static void configure() {
    if (chained) {
        auto* c = sink->get_chain_info();
        c->sample_rate = frate;
        c->channels = (int)chans;
        c->buffer_size = (int)size;
        sink->meta_info_sync();
    } else {
        auto* i = module()->get_info();
        i->sample_rate = frate;
        i->channels = (int)chans;
        i->in_buffer = i->out_buffer = (int)size;
        if (mod) mod->get_frequency()->conf_mod(mod.get());
    }
}
// how the oscillator gets its frequency and phase: "set", "ctor" or "ctor2"
static void create(const std::string& how, double phase) {
    bool m = mod != nullptr;
    osc.reset();
    double f = freq / 4.0;
    if (!m) {
        mod.reset();
        if (how == "ctor") make(osc, kind, f);
        else if (how == "ctor2") make(osc, kind, f, phase);
        else make(osc, kind), osc->set_frequency(f);
        if (how != "ctor2") osc->set_phase(phase);
    } else {
        mod.reset();
        if (how == "ctor") make(mod, kind, f);
        else if (how == "ctor2") make(mod, kind, f, phase);
        else make(mod, kind), mod->get_frequency()->set_constant(f);
        if (how != "ctor2") mod->set_phase(phase);
        if (!constant) mod->get_frequency()->link(gliss.get());
    }
    if (chained) {
        sink = std::make_unique<SinkModule<>>();
        if (osc) sink->link(osc.get()); else sink->link(mod.get());
    }
    configure();
    if (chained) sink->meta_start(); else osc ? osc->meta_start() : mod->meta_start();
}

static bool op(const Args& a) {
    const std::string& k = a[0];
    if (k == "new") {  // new plain|mod|glide kind rate channels size freq direct|chain set|ctor|ctor2
        osc.reset(), mod.reset(), sink.reset();
        gliss = std::make_unique<Gliss>();
        kind = a[2], frate = D(a[3]), chans = I(a[4]), size = I(a[5]), freq = I(a[6]);
        chained = a[7] == "chain";
        constant = a[1] == "mod";
        saved = 0;
        if (a[1] != "plain") mod = std::make_unique<ModSineOscillator>();
        create(a[8], 0);
        long r = std::lround(4 * frate);
        Obj("new").str("kind", kind).n("mod", mod != nullptr).n("r", r).n("ch", chans).n("size", size).n("f", freq).n("exact", (r & (r - 1)) == 0).put();
    } else if (k == "freq") {
        freq = I(a[1]);
        if (osc) osc->set_frequency(freq / 4.0);
        else if (constant) mod->get_frequency()->set_constant(freq / 4.0), configure();
        else bad(k);
        Obj o("freq");
        o.n("f", osc ? std::lround(osc->get_frequency() * 4) : freq).put();
    } else if (k == "size" || k == "chan") {
        (k == "size" ? size : chans) = I(a[1]);
        configure();
        Obj(k).n("n", I(a[1])).put();
    } else if (k == "save") {
        saved = osc ? osc->get_phase() : mod->get_phase();
        Obj("save").put();
    } else if (k == "restore") {  // restore same|set|ctor|ctor2: into this or into a new oscillator
        if (a[1] == "same") osc ? osc->set_phase(saved) : mod->set_phase(saved);
        else create(a[1], saved);
        Obj("restore").put();
    } else if (k == "phase") {  // phase n: frames, or units of a period when modulated
        if (osc) osc->set_phase(D(a[1]));
        else mod->set_phase(D(a[1]) / (4 * frate));
        Obj("phase").n("n", I(a[1])).put();
    } else if (k == "again") {  // stopped and started
        if (chained) sink->meta_stop(), sink->meta_start();
        else if (osc) osc->meta_stop(), osc->meta_start();
        else mod->meta_stop(), mod->meta_start();
        Obj("again").put();
    } else if (k == "block") {  // block frequencies (glide only)
        gliss->next.clear();
        for (std::size_t i = 1; i < a.size(); ++i) gliss->next.push_back(I(a[i]));
        if (constant) gliss->next.assign(size, freq);
        gliss->next.resize(mod ? size : 0);
        if (chained) sink->meta_process();
        else module()->meta_process();
        AudioBuffer b = take(chained ? sink->get_buffer() : module()->get_buffer());
        std::vector<long> v;
        for (auto it = b.ibegin(); it.get_index() < (int)b.size(); ++it) v.push_back(scaled(*it));
        Obj("block").n("ch", b.channels()).d("r", 4 * b.get_samplerate()).n("n", (long)b.size()).raw("f", ints(gliss->next)).raw("out", ints(v)).put();
    } else return false;
    return true;
}
int main(int argc, char** argv) {
    return run(argc, argv, {[](const std::string&) { osc.reset(), mod.reset(), sink.reset(); header("{}"); }, op, [] { sink.reset(), osc.reset(), mod.reset(); }});
}
