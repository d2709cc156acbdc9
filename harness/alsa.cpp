// The ALSA sink and the device queries, on sound cards of this program: every library function the sources call is
// defined here.  A card has ranges for its four settings; what is not asked for is settled at the card's preference.
#include <cerrno>
#include <iostream>
#include <memory>
#include <set>

#include "io/alsa_module.hpp"
#include "kit.hpp"
#include "source_module.hpp"

using namespace kit;

enum { CH, RATE, PS, NP };
struct Card {
    std::string name, descr;
    int dir = 0;      // 0 both, 1 in, 2 out
    bool busy = false;
    unsigned long lo[4], hi[4], pref[4];
};
enum St { OPEN, PREPARED, RUNNING, XRUN, CLOSED };
struct _snd_pcm {
    Card* card;
    St st = OPEN;
    unsigned long v[4] = {};
    int access = -1, format = -1;
};
struct _snd_pcm_hw_params {
    Card* card;
    unsigned long lo[4], hi[4];
    int access, format;
};
static std::vector<Card> cards;
static std::vector<std::unique_ptr<_snd_pcm>> handles;
static std::vector<std::string> calls;
static std::set<void*> texts_out, hints_out;
static long misused = 0;
static std::vector<bool> faults;   // of the writes to come
static void call(std::vector<long> v) { calls.push_back(ints(v)); }
static bool gone(snd_pcm_t* p) {
    if (p && p->st != CLOSED) return false;
    ++misused;
    return true;
}
extern "C" {
void __real_free(void* p);
void __wrap_free(void* p) { texts_out.erase(p); __real_free(p); }
int snd_device_name_hint(int, const char*, void*** hints) {
    auto** h = (void**)std::calloc(cards.size() + 1, sizeof(void*));
    for (size_t i = 0; i < cards.size(); ++i) h[i] = &cards[i];
    hints_out.insert(h);
    *hints = h;
    return 0;
}
int snd_device_name_free_hint(void** h) {
    if (!hints_out.erase(h)) ++misused;
    else __real_free(h);
    return 0;
}
char* snd_device_name_get_hint(const void* hint, const char* id) {
    const Card* c = (const Card*)hint;
    std::string k = id;
    const char* s = k == "NAME" ? c->name.c_str() : k == "DESC" ? (c->descr == "-" ? nullptr : c->descr.c_str()) : c->dir == 0 ? nullptr : c->dir == 1 ? "Input" : "Output";
    if (!s) return nullptr;
    char* r = strdup(s);
    texts_out.insert(r);
    return r;
}
int snd_pcm_open(snd_pcm_t** p, const char* name, snd_pcm_stream_t stream, int) {
    for (size_t i = 0; i < cards.size(); ++i)
        if (cards[i].name == name && !cards[i].busy && stream == SND_PCM_STREAM_PLAYBACK) {
            handles.push_back(std::make_unique<_snd_pcm>());
            handles.back()->card = &cards[i];
            *p = handles.back().get();
            call({1, (long)i + 1});
            return 0;
        }
    return -ENODEV;
}
int snd_pcm_close(snd_pcm_t* p) {
    if (gone(p)) return -EBADFD;
    p->st = CLOSED;
    call({6});
    return 0;
}
int snd_pcm_hw_free(snd_pcm_t* p) {
    if (gone(p)) return -EBADFD;
    if (p->st == RUNNING) ++misused;
    p->st = OPEN;
    return 0;
}
static int prepare(snd_pcm_t* p) {
    if (gone(p) || p->st == OPEN) return -EBADFD;
    call({3, p->st == RUNNING});
    p->st = PREPARED;
    return 0;
}
int snd_pcm_prepare(snd_pcm_t* p) { return prepare(p); }
int snd_pcm_recover(snd_pcm_t* p, int err, int) { return err == -EPIPE || err == -ESTRPIPE ? prepare(p) : err; }
int snd_pcm_drain(snd_pcm_t* p) {
    if (gone(p) || p->st == OPEN) return -EBADFD;
    call({5});
    p->st = PREPARED;
    return 0;
}
int snd_pcm_drop(snd_pcm_t* p) {
    if (gone(p) || p->st == OPEN) return -EBADFD;
    call({7});
    p->st = PREPARED;
    return 0;
}
snd_pcm_state_t snd_pcm_state(snd_pcm_t* p) {
    if (gone(p)) return SND_PCM_STATE_DISCONNECTED;
    return p->st == OPEN ? SND_PCM_STATE_OPEN : p->st == PREPARED ? SND_PCM_STATE_PREPARED : p->st == XRUN ? SND_PCM_STATE_XRUN : SND_PCM_STATE_RUNNING;
}
snd_pcm_sframes_t snd_pcm_writei(snd_pcm_t* p, const void* b, snd_pcm_uframes_t n) {
    if (gone(p) || p->st == OPEN) return -EBADFD;
    bool fault = false;
    if (!faults.empty()) fault = faults.front(), faults.erase(faults.begin());
    if (fault && p->st == RUNNING) p->st = XRUN;
    std::vector<long> v{4, (long)n, 1};
    for (size_t i = 0; i < n * p->v[CH]; ++i) v.push_back(((const int16_t*)b)[i]);
    if (p->st == XRUN) v[2] = 0;
    call(v);
    if (p->st == XRUN) return -EPIPE;
    p->st = RUNNING;
    return (snd_pcm_sframes_t)n;
}
size_t snd_pcm_hw_params_sizeof() { return sizeof(_snd_pcm_hw_params); }
int snd_pcm_hw_params_any(snd_pcm_t* p, snd_pcm_hw_params_t* q) {
    if (gone(p)) return -EBADFD;
    q->card = p->card;
    q->access = q->format = -1;
    std::copy(p->card->lo, p->card->lo + 4, q->lo);
    std::copy(p->card->hi, p->card->hi + 4, q->hi);
    return 0;
}
static int fix(snd_pcm_t* p, snd_pcm_hw_params_t* q, int f, unsigned long v) {
    if (gone(p)) return -EBADFD;
    if (v < q->lo[f] || v > q->hi[f]) return -EINVAL;
    q->lo[f] = q->hi[f] = v;
    return 0;
}
int snd_pcm_hw_params_set_access(snd_pcm_t* p, snd_pcm_hw_params_t* q, snd_pcm_access_t a) { if (gone(p)) return -EBADFD; q->access = a; return 0; }
int snd_pcm_hw_params_set_format(snd_pcm_t* p, snd_pcm_hw_params_t* q, snd_pcm_format_t a) { if (gone(p)) return -EBADFD; q->format = a; return 0; }
int snd_pcm_hw_params_set_rate_resample(snd_pcm_t* p, snd_pcm_hw_params_t*, unsigned) { return gone(p) ? -EBADFD : 0; }
int snd_pcm_hw_params_set_channels(snd_pcm_t* p, snd_pcm_hw_params_t* q, unsigned v) { return fix(p, q, CH, v); }
int snd_pcm_hw_params_set_rate(snd_pcm_t* p, snd_pcm_hw_params_t* q, unsigned v, int) { return fix(p, q, RATE, v); }
int snd_pcm_hw_params_set_periods(snd_pcm_t* p, snd_pcm_hw_params_t* q, unsigned v, int) { return fix(p, q, NP, v); }
int snd_pcm_hw_params_set_period_size(snd_pcm_t* p, snd_pcm_hw_params_t* q, snd_pcm_uframes_t v, int) { return fix(p, q, PS, v); }
int snd_pcm_hw_params(snd_pcm_t* p, snd_pcm_hw_params_t* q) {
    if (gone(p)) return -EBADFD;
    if (p->st == RUNNING) ++misused;
    for (int f = 0; f < 4; ++f) {
        if (q->lo[f] != q->hi[f]) q->lo[f] = q->hi[f] = q->card->pref[f];
        p->v[f] = q->lo[f];
    }
    p->access = q->access, p->format = q->format;
    p->st = PREPARED;
    call({2, (long)p->v[CH], (long)p->v[RATE], (long)p->v[PS], (long)p->v[NP], p->access == SND_PCM_ACCESS_RW_INTERLEAVED && p->format == SND_PCM_FORMAT_S16});
    return 0;
}
static unsigned long low(const snd_pcm_hw_params_t* q, int f) { return f < 4 ? q->lo[f] : f == 4 ? q->lo[PS] * 1000000 / q->hi[RATE] : q->lo[PS] * q->lo[NP]; }
static unsigned long high(const snd_pcm_hw_params_t* q, int f) { return f < 4 ? q->hi[f] : f == 4 ? q->hi[PS] * 1000000 / q->lo[RATE] : q->hi[PS] * q->hi[NP]; }
extern "C++" template <class T>
int one(const snd_pcm_hw_params_t* q, T* v, int f) {
    if (low(q, f) != high(q, f)) return -EINVAL;
    *v = (T)low(q, f);
    return 0;
}
#define GET(NAME, T, F)                                                                                                      \
    int snd_pcm_hw_params_get_##NAME(const snd_pcm_hw_params_t* q, T* v, int*) { return one(q, v, F); }                       \
    int snd_pcm_hw_params_get_##NAME##_min(const snd_pcm_hw_params_t* q, T* v, int*) { *v = (T)low(q, F); return 0; }         \
    int snd_pcm_hw_params_get_##NAME##_max(const snd_pcm_hw_params_t* q, T* v, int*) { *v = (T)high(q, F); return 0; }
#define GET2(NAME, T, F)                                                                                                     \
    int snd_pcm_hw_params_get_##NAME(const snd_pcm_hw_params_t* q, T* v) { return one(q, v, F); }                             \
    int snd_pcm_hw_params_get_##NAME##_min(const snd_pcm_hw_params_t* q, T* v) { *v = (T)low(q, F); return 0; }               \
    int snd_pcm_hw_params_get_##NAME##_max(const snd_pcm_hw_params_t* q, T* v) { *v = (T)high(q, F); return 0; }
GET(rate, unsigned, RATE)
GET(periods, unsigned, NP)
GET(period_size, snd_pcm_uframes_t, PS)
GET(period_time, unsigned, 4)
GET2(channels, unsigned, CH)
GET2(buffer_size, snd_pcm_uframes_t, 5)
int snd_pcm_hw_params_get_sbits(const snd_pcm_hw_params_t*) { return 16; }
}

// Upstream: the blocks of the script, given as the codes the card is to receive
static std::vector<double> samples(const std::vector<long>& c) {
    std::vector<double> v;
    for (long x : c) v.push_back(x < 0 ? (x - 0.25) / 32768 : (x + 0.25) / 32767);
    return v;
}
static std::vector<std::vector<long>> blocks;
static std::vector<std::string> given;
struct Feed : SourceModule {
    void process() override {
        if (blocks.empty()) {
            Obj("dry").put();
            std::_Exit(97);
        }
        auto b = blocks.front();
        blocks.erase(blocks.begin());
        given.push_back(ints(b));
        int ch = get_info()->channels;
        AudioBuffer buf(b.size() / ch, ch, get_info()->sample_rate);
        auto v = samples(b);
        std::copy(v.begin(), v.end(), buf.ibegin());
        this->set_buffer(std::move(buf));
    }
};
struct World {
    Feed feed;
    ALSASink sink;
};
static std::unique_ptr<World> w;
static DeviceInfo dev;   // the description asked for last

static std::string describe(const DeviceInfo& d) {
    long id = 0, text = 0;
    for (size_t i = 0; i < cards.size(); ++i)
        if (cards[i].name == d.name) id = (long)i + 1, text = d.description == (cards[i].descr == "-" ? "" : cards[i].descr);
    return "{\"card\":" + std::to_string(id) + ",\"id\":" + std::to_string(d.id) + ",\"text\":" + std::to_string(text) + ",\"in\":" + std::to_string(d.input) + ",\"out\":" + std::to_string(d.output) + ",\"fail\":" +
           std::to_string(d.load_fail) + ",\"v\":" + ints({(long)d.channels, (long)d.sample_rate, (long)d.period_size, (long)d.period}) + ",\"lo\":" +
           ints({(long)d.channels_min, (long)d.sample_rate_min, (long)d.period_size_min, (long)d.period_min}) + ",\"hi\":" +
           ints({(long)d.channels_max, (long)d.sample_rate_max, (long)d.period_size_max, (long)d.period_max}) + ",\"time\":" +
           (d.load_fail ? "[]" : ints({(long)d.period_time_min, (long)d.period_time, (long)d.period_time_max})) + ",\"size\":" + ints({(long)d.buffer_size_min, (long)d.buffer_size, (long)d.buffer_size_max}) + "}";
}
static void finish(Obj& o) {
    long open = 0;
    for (auto& h : handles) open += h->st != CLOSED;
    o.raw("calls", list(calls, [](const std::string& s) { return s; })).n("open", open).n("misused", misused).n("kept", (long)(texts_out.size() + hints_out.size())).put();
    calls.clear();
}
static void clear() {
    w.reset();
    dev = DeviceInfo();
    handles.clear(), cards.clear(), calls.clear(), faults.clear(), blocks.clear(), given.clear(), texts_out.clear(), hints_out.clear();
    misused = 0;
}

static bool op(const Args& a) {
    const std::string& k = a[0];
    if (k == "card") {   // card name descr dir busy lo hi pref (four each)
        Card c;
        c.name = a[1], c.descr = a[2], c.dir = (int)I(a[3]), c.busy = I(a[4]);
        for (int f = 0; f < 4; ++f) c.lo[f] = I(a[5 + f]), c.hi[f] = I(a[9 + f]), c.pref[f] = I(a[13 + f]);
        cards.push_back(c);
        return true;
    }
    if (!w) {
        auto v = [](const unsigned long* x) { return ints({(long)x[0], (long)x[1], (long)x[2], (long)x[3]}); };
        header("{\"cards\":" + list(cards, [&](const Card& c) {
            return "{\"dir\":" + std::to_string(c.dir) + ",\"busy\":" + std::to_string(c.busy) + ",\"lo\":" + v(c.lo) + ",\"hi\":" + v(c.hi) + ",\"pref\":" + v(c.pref) + "}"; }) + "}");
        w = std::make_unique<World>();
        w->sink.link(&w->feed);
        Obj o("made");
        finish(o);
    }
    auto& s = w->sink;
    if (k == "count") { Obj o("count"); o.n("n", s.get_device_count()); finish(o); return true; }
    if (k == "ask") {    // ask id i | ask name i
        DeviceInfo d = a[1] == "id" ? s.get_device_by_id((int)I(a[2]) - 1) : s.get_device_by_name(cards.at(I(a[2]) - 1).name);
        Obj o("ask");
        o.n("i", I(a[2])).raw("d", describe(d));
        finish(o);
        return true;
    }
    if (k == "choose") { // choose id|name|info i
        int i = (int)I(a[2]) - 1;
        if (a[1] == "id") s.set_device(i);
        else if (a[1] == "name") s.set_device(cards.at(i).name);
        else s.set_device(s.get_device_by_id(i));
        Obj o("choose");
        o.n("i", I(a[2])).raw("d", describe(s.get_device()));
        finish(o);
        return true;
    }
    if (k == "tune") {   // tune ch rate ps np: another description of the device that is chosen; 0 is left to the card
        DeviceInfo d = s.get_device();
        d.channels = I(a[1]), d.sample_rate = I(a[2]), d.period_size = I(a[3]), d.period = I(a[4]);
        d.update();
        s.set_device(d);
        Obj o("tune");
        o.raw("want", ints({I(a[1]), I(a[2]), I(a[3]), I(a[4])})).raw("d", describe(s.get_device()));
        finish(o);
        return true;
    }
    if (k == "sync") {
        s.meta_info_sync();
        Obj o("sync");
        auto f = [](ModuleInfo* m) { return "[" + std::to_string(m->channels) + "," + num(m->sample_rate) + "," + std::to_string(m->in_buffer) + "," + std::to_string(m->out_buffer) + "]"; };
        o.raw("sink", f(s.get_info())).raw("feed", f(w->feed.get_info())).n("period", s.get_period()).n("num", s.get_chain_info()->module_num);
        finish(o);
        return true;
    }
    if (k == "start") { s.meta_start(); Obj o("start"); o.raw("d", describe(s.get_device())); finish(o); return true; }
    if (k == "stop") { s.meta_stop(); Obj o("stop"); finish(o); return true; }
    if (k == "block") {
        std::vector<long> v;
        for (size_t i = 1; i < a.size(); ++i) v.push_back(I(a[i]));
        blocks.push_back(v);
        return true;
    }
    if (k == "fault") { for (size_t i = 1; i < a.size(); ++i) faults.push_back(I(a[i])); return true; }
    if (k == "process") {
        s.meta_process();
        Obj o("process");
        o.raw("ins", list(given, [](const std::string& x) { return x; }));
        given.clear();
        finish(o);
        return true;
    }
    return false;
}

int main(int argc, char** argv) {
    std::cout.setstate(std::ios::failbit);
    return run(argc, argv, {[](const std::string&) { clear(); }, op, [] { clear(); }});
}
