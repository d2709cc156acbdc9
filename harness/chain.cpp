// Driver for module chains: builds chains of probe modules (dynamic and static), performs public operations
// on them and records every hook that ran, every buffer and the observable state of every module.
#include <functional>
#include <map>
#include <memory>
#include <set>

#include "kit.hpp"
#include "meta_audio.hpp"
#include "module_mixer.hpp"
#include "module_param.hpp"
#include "sink_module.hpp"
#include "source_module.hpp"

using namespace kit;

static std::vector<std::vector<long>> hk;

struct Probe {
    int id = 0;
    bool lazy = false, quiet = false;
    long cnt = 0;
    bool odd = false;      // a source that delivers buffers of a shape and rate of its own
};

// samples are whole multiples of 1/fine, sample rates of 1/rfine
static double fine = 1, rfine = 1;
static double rated(double x) { return x == 44100 ? x : x * rfine; }    // but the default is the default

template <class M>
static void hook(M* m, int h) {
    hk.push_back({m->id, h, (long)m->get_state()});
}

#define HOOKS(BASE)                                                    \
    void start() override { hook(this, 1); if (!quiet) BASE::start(); } \
    void stop() override { hook(this, 2); if (!quiet) BASE::stop(); }   \
    void finish() override {                                           \
        hook(this, 3);                                                 \
        if (lazy) return;                                              \
        if (quiet) this->done(); else BASE::finish();                  \
    }                                                                  \
    void done() override { hook(this, 6); BASE::done(); }              \
    void info_sync() override { hook(this, 5); BASE::info_sync(); }

template <class A>
static void fold(AudioBuffer& b, A& arr) {
    for (auto* p : arr) {
        AudioBuffer w = take(p->get());
        for (size_t i = 0; i < std::min(b.size(), w.size()); ++i) b.at(i) += w.at(i);
    }
}
static void affine(AudioBuffer& b, int id) {
    for (size_t i = 0; i < b.size(); ++i) b.at(i) = 2 * b.at(i) + id / fine;
}

struct PSrc : SourceModule, Probe {
    using B = SourceModule;
    HOOKS(B)
    void gen() {
        if (odd) {
            this->reserve(1 + (int)((id + 2 * cnt) % 6), 1 + (int)((id + cnt) % 3));
            buff.set_samplerate((9000 + 500 * ((id + cnt) % 3)) / rfine);
        } else if (id % 2) this->reserve();
        else {  // a new one of that shape
            this->reserve(this->get_info()->out_buffer, this->get_info()->channels);
            buff.set_samplerate(this->get_info()->sample_rate);
        }
        for (size_t i = 0; i < buff.size(); ++i) buff.at(i) = (id * 1000 + cnt * 100 + (long)i + 1) / fine;
        ++cnt;
    }
    void process() override { hook(this, 4); gen(); }
};
template <int N>
struct PPSrc : ParamSource<N>, Probe {
    using B = ParamSource<N>;
    HOOKS(B)
    void process() override {
        hook(this, 4);
        this->reserve();
        for (size_t i = 0; i < this->buff.size(); ++i) this->buff.at(i) = (id * 1000 + cnt * 100 + (long)i + 1) / fine;
        ++cnt;
        fold(this->buff, *this->get_array());
    }
};
template <class Bk = BaseModule*>
struct PMod : AudioModule<void, Bk>, Probe {
    using B = AudioModule<void, Bk>;
    HOOKS(B)
    void process() override { hook(this, 4); affine(this->buff, id); }
};
template <class Bk = BaseModule*>
struct PModC : AudioModule<PModC<Bk>, Bk>, Probe {   // knows its own type at compile time
    using B = AudioModule<PModC<Bk>, Bk>;
    HOOKS(B)
    void process() override { hook(this, 4); affine(this->buff, id); }
};
template <int N>
struct PPMod : ParamModule<N>, Probe {
    using B = ParamModule<N>;
    HOOKS(B)
    void process() override { hook(this, 4); affine(this->buff, id); fold(this->buff, *this->get_array()); }
};
template <class Bk = BaseModule*>
struct PSink : SinkModule<Bk>, Probe {
    using B = SinkModule<Bk>;
    HOOKS(B)
    void process() override { hook(this, 4); }
};
template <int N>
struct PPSink : ParamSink<N>, Probe {
    using B = ParamSink<N>;
    HOOKS(B)
    void process() override { hook(this, 4); affine(this->buff, id); fold(this->buff, *this->get_array()); }
};
struct PPer : PeriodSink, Probe {
    using B = PeriodSink;
    HOOKS(B)
    // everything it has seen so far shows in the first sample
    void process() override {
        hook(this, 4);
        for (size_t i = 0; i < buff.size(); ++i) cnt = (cnt + std::lround(buff.at((int)i) * fine) % 997) % 997;
        if (buff.size()) buff.at(0) += cnt / fine;
    }
};
struct PParam : ModuleParam, Probe {
    using B = ModuleParam;
    HOOKS(B)
    void process() override { hook(this, 4); }
};
struct PMixD : ModuleMixDown, Probe {
    using B = ModuleMixDown;
    HOOKS(B)
    void process() override { hook(this, 4); B::process(); }
};
struct PMixU : ModuleMixUp, Probe {
    using B = ModuleMixUp;
    HOOKS(B)
    void process() override { hook(this, 4); B::process(); }
};
struct PMulti : MultiMix, Probe {
    using B = MultiMix;
    HOOKS(B)
    void process() override { hook(this, 4); B::process(); }
};

struct Ent {
    BaseModule* m = nullptr;
    Probe* p = nullptr;
    std::string kind;
    bool lazy = false, quiet = false;
    long val = 0;
    int npar = 0;
    std::array<ModuleParam*, 1>* a1 = nullptr;
    std::array<ModuleParam*, 2>* a2 = nullptr;
    int nset = 0;
};
static std::vector<Ent> ents;                 // index 0 unused
static std::vector<std::shared_ptr<void>> keep;
static std::map<ChainInfo*, int> owner;
static std::set<int> later;                   // created by a copy
static std::set<int> unsynced;                // copies that were not synced yet: the chain they belong to is open
using Copier = std::function<void(const std::string&, const std::vector<int>&)>;
static std::map<int, Copier> copiers;         // of static pieces, by the id of their front module
static std::map<int, void*> pieces;

static void reg(int id, BaseModule* m, Probe* p) {
    Ent& e = ents.at(id);
    e.m = m;
    e.p = p;
    if (p) { p->id = id; p->lazy = e.lazy; p->quiet = e.quiet; p->odd = e.kind == "src" && e.val > 40; }
    if (e.kind == "sink" || e.kind == "psink" || e.kind == "psnk" || e.kind == "param") owner[m->get_chain_info()] = id;
}
template <class M>
static M* mk(int id) {
    auto s = std::make_shared<M>();
    keep.push_back(s);
    reg(id, s.get(), s.get());
    return s.get();
}
static bool is_sink(const Ent& e) { return e.kind == "sink" || e.kind == "psink" || e.kind == "psnk" || e.kind == "param"; }

static void create(int id) {
    Ent& e = ents.at(id);
    const std::string& k = e.kind;
    if (k == "src") mk<PSrc>(id);
    else if (k == "mod") { if (id % 2) mk<PMod<>>(id); else mk<PModC<>>(id); }
    else if (k == "sink") mk<PSink<>>(id);
    else if (k == "psink") mk<PPer>(id);
    else if (k == "param") mk<PParam>(id);
    else if (k == "mixd") mk<PMixD>(id);
    else if (k == "mixu") mk<PMixU>(id);
    else if (k == "multi") mk<PMulti>(id);
    else if (k == "psrc" && e.npar == 1) { auto* m = mk<PPSrc<1>>(id); ents[id].a1 = m->get_array(); }
    else if (k == "psrc") { auto* m = mk<PPSrc<2>>(id); ents[id].a2 = m->get_array(); }
    else if (k == "pmod" && e.npar == 1) { auto* m = mk<PPMod<1>>(id); ents[id].a1 = m->get_array(); }
    else if (k == "pmod") { auto* m = mk<PPMod<2>>(id); ents[id].a2 = m->get_array(); }
    else if (k == "psnk" && e.npar == 1) { auto* m = mk<PPSink<1>>(id); ents[id].a1 = m->get_array(); }
    else if (k == "psnk") { auto* m = mk<PPSink<2>>(id); ents[id].a2 = m->get_array(); }
    else if (k == "const") {}
    else bad("kind " + k);
}

static int id_of(BaseModule* m) {
    if (!m) return 0;
    for (size_t i = 1; i < ents.size(); ++i) if (ents[i].m == m) return (int)i;
    return -2;
}
static std::string cfgjson() {
    std::string k = "[", l = "[", v = "[";
    for (size_t i = 1; i < ents.size(); ++i) {
        const char* c = i > 1 ? "," : "";
        k += c + q(ents[i].kind);
        l += std::string(c) + (ents[i].lazy ? "true" : "false");
        v += c + std::to_string(ents[i].val);
    }
    return "{\"kind\":" + k + "],\"lazy\":" + l + "],\"val\":" + v + "]}";
}
static void observe(Obj& o, const std::set<int>& fwset = {}) {
    std::string st = "[", info = "[", own = "[", ci = "[", fw = "[", io = "[";
    for (size_t i = 1; i < ents.size(); ++i) {
        Ent& e = ents[i];
        const char* c = i > 1 ? "," : "";
        st += c; info += c; own += c; ci += c; fw += c; io += c;
        if (!e.m) { st += "-1"; info += "[]"; own += "-1"; ci += "[]"; fw += "-1"; io += "[]"; continue; }
        st += std::to_string((int)e.m->get_state());
        ModuleInfo* f = e.m->get_info();
        info += "[" + num(rated(f->sample_rate)) + "," + std::to_string(f->in_buffer) + "," + std::to_string(f->out_buffer) + "," +
                std::to_string(f->channels) + "]";
        ChainInfo* h = e.m->get_chain_info();
        own += unsynced.count((int)i) ? "-1" : h ? std::to_string(owner.count(h) ? owner[h] : -3) : "0";
        ci += is_sink(e) ? "[" + std::to_string(h->module_num) + "," + std::to_string(h->module_finish) + "]" : "[]";
        fw += fwset.count(i) ? std::to_string(id_of(e.m->forward())) : "-1";
        int ni = -1, no = -1;
        if (auto* x = dynamic_cast<ModuleMixDown*>(e.m)) ni = x->num_inputs();
        if (auto* x = dynamic_cast<ModuleMixUp*>(e.m)) no = x->num_outputs();
        io += "[" + std::to_string(ni) + "," + std::to_string(no) + "]";
    }
    o.raw("st", st + "]").raw("info", info + "]").raw("own", own + "]").raw("ci", ci + "]").raw("fw", fw + "]").raw("io", io + "]");
    o.raw("hk", list(hk, [](const std::vector<long>& x) { return ints(x); }));
    hk.clear();
}
static std::string enc(AudioBuffer& b) {
    if (b.size() == 0) return "[]";
    std::vector<double> v{(double)b.channels(), rated(b.get_samplerate())};
    for (size_t i = 0; i < b.size(); ++i) v.push_back(b.at((int)i) * fine);
    return nums(v);
}
static BaseModule* M(const std::string& a) {
    BaseModule* m = ents.at(I(a)).m;
    if (!m) bad("no module " + a);
    return m;
}
template <class M>
static void regs(M* m, const std::vector<int>& ids, std::size_t i) {
    reg(ids.at(i), m, m);
    if constexpr (requires { typename M::BT; }) {
        if constexpr (std::is_class_v<typename M::BT>) regs(&m->backward(), ids, i + 1);
    }
}
// a static piece can be copied, moved or assigned as a whole
template <class M>
static void piece(M* m, int front) {
    pieces[front] = m;
    copiers[front] = [m](const std::string& how, const std::vector<int>& to) {
        M* n = nullptr;
        if (how == "over") n = static_cast<M*>(pieces.at(to[0])), *n = *m;
        else {
            std::shared_ptr<M> s;
            if (how == "ctor") s = std::make_shared<M>(*m);
            else if (how == "move") s = std::make_shared<M>(std::move(*m));
            else if (how == "assign") s = std::make_shared<M>(), *s = *m;
            else if (how == "massign") s = std::make_shared<M>(), *s = std::move(*m);
            else bad(how);
            keep.push_back(s);
            n = s.get();
        }
        regs(n, to, 0);
        piece(n, to[0]);
    };
}
static void slink(int f, int b) { Obj o("slink"); o.n("a", f).n("b", b); observe(o); o.put(); }

static bool make_static(const Args& a) {
    std::string k = a[1];
    auto id = [&](int i) { return (int)I(a.at(2 + i)); };
    auto hold = [](auto s) { keep.push_back(s); return s.get(); };
    if (k == "s2") {
        auto* c = hold(std::make_shared<PSink<PSrc>>());
        reg(id(0), c, c); reg(id(1), &c->backward(), &c->backward());
        piece(c, id(0)); header(cfgjson()); slink(id(0), id(1));
    } else if (k == "s3") {
        auto* c = hold(std::make_shared<PSink<PMod<PSrc>>>());
        auto& m = c->backward(); auto& s = m.backward();
        reg(id(0), c, c); reg(id(1), &m, &m); reg(id(2), &s, &s);
        piece(c, id(0)); header(cfgjson()); slink(id(0), id(1)); slink(id(1), id(2));
    } else if (k == "s4") {
        auto* c = hold(std::make_shared<PSink<PModC<PMod<PSrc>>>>());
        auto& m = c->backward(); auto& n = m.backward(); auto& s = n.backward();
        reg(id(0), c, c); reg(id(1), &m, &m); reg(id(2), &n, &n); reg(id(3), &s, &s);
        piece(c, id(0)); header(cfgjson()); slink(id(0), id(1)); slink(id(1), id(2)); slink(id(2), id(3));
    } else if (k == "sd") {      // static front, dynamic behind
        auto* c = hold(std::make_shared<PSink<PModC<>>>());
        auto& m = c->backward();
        reg(id(0), c, c); reg(id(1), &m, &m);
        header(cfgjson()); slink(id(0), id(1));
    } else if (k == "sx") {      // static sink on a mixer
        auto* c = hold(std::make_shared<PSink<PMixD>>());
        auto& m = c->backward();
        reg(id(0), c, c); reg(id(1), &m, &m);
        header(cfgjson()); slink(id(0), id(1));
    } else if (k == "ds") {      // static piece to be linked behind a dynamic module
        auto* c = hold(std::make_shared<PMod<PModC<PSrc>>>());
        auto& m = c->backward(); auto& s = m.backward();
        reg(id(0), c, c); reg(id(1), &m, &m); reg(id(2), &s, &s);
        piece(c, id(0)); header(cfgjson()); slink(id(0), id(1)); slink(id(1), id(2));
    } else if (k == "l3") {      // existing piece moved into a static chain
        auto* c = hold(std::make_shared<PSink<PMod<PSrc>>>());
        PMod<PSrc> m;
        m.id = 999;
        auto* r = c->link_static(std::move(m));
        auto& n = c->backward(); auto& s = n.backward();
        reg(id(0), c, c); reg(id(1), &n, &n); reg(id(2), &s, &s);
        piece(c, id(0)); header(cfgjson());
        Obj o("link");
        o.n("a", id(0)).n("b", id(1)).n("ret", id_of(r)).n("fb", id_of(n.forward()));
        observe(o); o.put();
        slink(id(1), id(2));
    } else return false;
    return true;
}

static std::set<int> wired;   // modules whose forward pointer is defined (linked, or static and synced)

static std::map<int, std::vector<int>> backs;
static void reach(int m, std::set<int>& r) { if (r.insert(m).second) for (int b : backs[m]) reach(b, r); }

static bool op(const Args& a) {
    const std::string& k = a[0];
    if (k == "fine") { fine = D(a[1]), rfine = D(a[2]); return true; }
    if (k == "mod") {            // mod id kind lazy quiet val npar
        size_t id = I(a[1]);
        if (ents.size() <= id) ents.resize(id + 1);
        Ent& e = ents[id];
        e.kind = a[2]; e.lazy = I(a[3]); e.quiet = I(a[4]); e.val = I(a[5]); e.npar = (int)I(a[6]);
        return true;
    }
    if (k == "static") return make_static(a);
    if (k == "later") {
        for (size_t i = 1; i < a.size(); ++i) later.insert((int)I(a[i]));
        return true;
    }
    if (k == "copy") {           // copy how n from... to...
        std::size_t n = I(a[2]);
        std::vector<int> from, to;
        for (std::size_t i = 0; i < n; ++i) from.push_back((int)I(a[3 + i])), to.push_back((int)I(a[3 + n + i]));
        copiers.at(from[0])(a[1], to);
        if (a[1] == "move" || a[1] == "massign") for (int i : from) { if (is_sink(ents[i])) owner.erase(ents[i].m->get_chain_info()); ents[i].m = nullptr; }
        for (int i : to) if (!is_sink(ents[i])) unsynced.insert(i);
        for (int i : to) if (is_sink(ents[i])) owner[ents[i].m->get_chain_info()] = i;
        Obj o("copy");
        o.raw("from", ints(std::vector<long>(from.begin(), from.end()))).raw("to", ints(std::vector<long>(to.begin(), to.end())));
        observe(o); o.put();
        return true;
    }
    if (k == "make") {
        for (size_t i = 1; i < ents.size(); ++i) if (!ents[i].m && !later.count((int)i)) create((int)i);
        header(cfgjson());
        return true;
    }
    if (k == "link") {
        int f = (int)I(a[1]), b = (int)I(a[2]);
        BaseModule* r = M(a[1])->link(M(a[2]));
        Obj o("link");
        o.n("a", f).n("b", b).n("ret", id_of(r)).n("fb", id_of(M(a[2])->forward()));
        observe(o); o.put();
        return true;
    }
    if (k == "nolink") {
        BaseModule* r = M(a[1])->link(M(a[2]));
        Obj o("nolink");
        o.n("ret", id_of(r)); observe(o); o.put();
        return true;
    }
    if (k == "param") {
        Ent& h = ents.at(I(a[1]));
        auto* p = dynamic_cast<ModuleParam*>(M(a[2]));
        if (h.a1) (*h.a1)[h.nset++] = p;
        else if (h.a2) (*h.a2)[h.nset++] = p;
        else bad("param host");
        Obj("param").n("a", I(a[1])).n("b", I(a[2])).put();
        return true;
    }
    if (k == "setconst") {       // setconst p c
        auto* p = dynamic_cast<ModuleParam*>(M(a[1]));
        // whatever constant it held before is gone
        for (auto& e : ents) if (e.kind == "const" && e.m && e.m->forward() == p) e.m = nullptr;
        Ent& c = ents.at(I(a[2]));
        p->set_constant(c.val / fine);
        c.m = &p->backward();
        Obj o("setconst");
        o.n("a", I(a[1])).n("b", I(a[2])); observe(o); o.put();
        return true;
    }
    if (k == "chain") {
        ChainInfo* c = M(a[1])->get_chain_info();
        c->sample_rate = D(a[2]) / rfine; c->buffer_size = (int)I(a[3]); c->channels = (int)I(a[4]);
        Obj o("chain");
        o.n("a", I(a[1])).raw("v", ints({I(a[2]), I(a[3]), I(a[4])})); observe(o); o.put();
        return true;
    }
    if (k == "period") {
        dynamic_cast<PeriodSink*>(M(a[1]))->set_period((int)I(a[2]));
        Obj("period").n("a", I(a[1])).n("n", dynamic_cast<PeriodSink*>(M(a[1]))->get_period()).put();
        return true;
    }
    if (k == "fetch") {
        BaseModule* m = M(a[1]);
        m->meta_process();
        std::string bufs = "[";
        for (int i = 0; i < I(a[2]); ++i) {
            AudioBuffer&& got = m->get_buffer();
            AudioBuffer mine;
            AudioBuffer& b = look() ? got : (mine = std::move(got));      // kept, or used where it is
            bufs += (i ? "," : "") + enc(b);
            for (size_t j = 0; j < b.size(); ++j) b.at((int)j) = -7;
            b.set_channels(77);
        }
        Obj o("fetch");
        o.n("a", I(a[1])).n("n", I(a[2])).raw("bufs", bufs + "]"); observe(o); o.put();
        return true;
    }
    BaseModule* m = M(a.at(1));
    Obj o(k);
    o.n("a", I(a[1]));
    std::set<int> fw;
    if (k == "start") m->meta_start();
    else if (k == "stop") m->meta_stop();
    else if (k == "finish") m->meta_finish();
    else if (k == "done") m->done();
    else if (k == "sync") { m->meta_info_sync(); for (size_t i = 2; i < a.size(); ++i) fw.insert((int)I(a[i])), unsynced.erase((int)I(a[i])); }
    else if (k == "conf") { dynamic_cast<ModuleParam*>(m)->conf_mod(M(a[2])); o.n("b", I(a[2])); }
    else if (k == "process") {
        std::string b;
        if (auto* p = dynamic_cast<PParam*>(m)) { AudioBuffer x = take(p->get()); b = enc(x); }
        else { m->meta_process(); // (one that is asked for no periods still has what was left in it)
            AudioBuffer x = dynamic_cast<PPer*>(m) ? AudioBuffer(m->get_buffer()) : take(m->get_buffer());
            b = enc(x); }
        o.raw("buf", b);
    } else return false;
    observe(o, fw);
    o.put();
    return true;
}

int main(int argc, char** argv) {
    return run(argc, argv, {[](const std::string&) { fine = rfine = 1; ents.clear(); ents.resize(1); keep.clear(); owner.clear(); hk.clear(); later.clear(), unsynced.clear(), copiers.clear(), pieces.clear(); }, op, nullptr});
}
