// Driver for the background-thread module: runs scenarios under controlled schedules and records
// every public call, its result, and every upstream production, in the order they really happened.
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#include "module_mixer.hpp"
#include "parallel.hpp"
#include "sink_module.hpp"
#include "source_module.hpp"

#include "sched.hpp"

struct Shared {
    size_t len, len1;
    char buf[1 << 20];
    char buf1[1 << 18];  // what concerns the second module, in scenarios with two
    int ended;
    int nch;
    int nchoices[20000];
    int choice[20000];
};
static Shared* sh;

#define NI __attribute__((no_instrument_function))

NI static void ev(const char* fmt, ...) {
    sched::Mask mask;
    va_list ap;
    va_start(ap, fmt);
    size_t room = sizeof(sh->buf) - sh->len;
    int n = vsnprintf(sh->buf + sh->len, room, fmt, ap);
    va_end(ap);
    if (n > 0 && (size_t)n < room) sh->len += n;
}

NI static void ev1(const char* fmt, ...) {
    sched::Mask mask;
    va_list ap;
    va_start(ap, fmt);
    size_t room = sizeof(sh->buf1) - sh->len1;
    int n = vsnprintf(sh->buf1 + sh->len1, room, fmt, ap);
    va_end(ap);
    if (n > 0 && (size_t)n < room) sh->len1 += n;
}
#define EV(M, ...) ((M) ? ev1(__VA_ARGS__) : ev(__VA_ARGS__))

NI static std::string enc(AudioBuffer& b) {
    sched::Mask mask;
    if (b.size() == 0) return "[]";
    std::string s = "[" + std::to_string(b.channels()) + "," + std::to_string((int)b.get_samplerate());
    for (size_t i = 0; i < b.size(); ++i) s += "," + std::to_string((long)b.at(i));
    return s + "]";
}

static const char* NAMES[] = {"M", "C", "A", "W"};
static int producer[2] = {-1, -1};   // the thread that is inside the upstream of a module
NI static const char* who() {
    int r = sched::role_of_self();
    return r < 0 ? "?" : NAMES[r];
}
// as seen from module m: its own background thread while it produces is W, the other module's is X
NI static const char* who(int m) {
    int r = sched::role_of_self();
    return r < 0 ? "?" : sched::self() == producer[m] ? "W" : r < 3 ? NAMES[r] : "X";
}

struct Scen {
    std::string id;
    int max = 1, shape = 0, selfstop = -1;
    bool deep = false;   // upstream is a chain of two modules; downstream a sink
    int topo = 0;        // two modules: 1 in series, 2 mixed, 3 apart
    int selfstop1 = -1;
    std::vector<std::vector<std::string>> ops[3];
    std::vector<sched::Config> runs;
    int dfs = 0, dfs_preempt = 2;
};

static ParallelModule* par;
static SinkModule<>* snk;

// Two modules: every public call is recorded where it enters the module it is for
struct Par : ParallelModule {
    int id;
    bool feeds = false;      // this one is the upstream of module 0
    int nest[256] = {};
    NI explicit Par(int i) : id(i) {}
    NI bool enter(const char* fn) {
        int me = sched::self();
        if (me < 0 || nest[me]++) return false;
        EV(id, "{\"op\":\"call\",\"th\":\"%s\",\"fn\":\"%s\",\"arg\":0}\n", who(id), fn);
        sched::point();
        return true;
    }
    NI void leave(bool first, const char* fn, const char* res = "[]") {
        int me = sched::self();
        if (me >= 0) --nest[me];
        if (!first) return;
        sched::point();
        EV(id, "{\"op\":\"ret\",\"th\":\"%s\",\"fn\":\"%s\",\"res\":%s}\n", who(id), fn, res);
    }
    NI void start() override { bool f = enter("start"); ParallelModule::start(); leave(f, "start"); }
    NI void stop() override { bool f = enter("stop"); ParallelModule::stop(); leave(f, "stop"); }
    NI void meta_start() override {
        if (feeds) ev("{\"op\":\"upstart\"}\n");
        bool f = enter("start");
        ParallelModule::meta_start();
        leave(f, "start");
    }
    NI void meta_stop() override {
        if (feeds) ev("{\"op\":\"upstop\"}\n");
        bool f = enter("stop");
        ParallelModule::meta_stop();
        leave(f, "stop");
    }
    NI void meta_process() override {
        if (feeds) {
            producer[0] = sched::self();
            ev("{\"op\":\"pb\"}\n");
            sched::point();
        }
        bool f = enter("proc");
        ParallelModule::meta_process();
        std::string res;
        {
            sched::Mask mask;
            AudioBuffer b(get_buffer());
            res = enc(b);
            set_buffer(std::move(b));
        }
        leave(f, "proc", res.c_str());
        if (feeds) {
            sched::point();
            ev("{\"op\":\"pe\",\"buf\":%s}\n", res.c_str());
            producer[0] = -1;
        }
    }
};
static Par* two[2];

// Upstream: produces buffers it never repeats
class Source : public SourceModule {
public:
    int seq = 0;
    const Scen* sc = nullptr;
    int m = 0;
    NI void meta_process() override {
        producer[m] = sched::self();
        EV(m, "{\"op\":\"pb\"}\n");
        sched::point();
        ++seq;
        AudioBuffer b;
        {
        sched::Mask mask;
        int chans = 1 + (sc->shape ? (seq * 7 + sc->shape) % 3 : 0);
        int size = 1 + (sc->shape ? (seq * 5 + sc->shape) % 4 : 1);
        b = AudioBuffer(size, chans, 8000.0 + (sc->shape ? 100 * seq : 0));
        for (size_t i = 0; i < b.size(); ++i) b.at(i) = seq * 100 + (double)i;
        }
        if (sc->topo && seq == (m ? sc->selfstop1 : sc->selfstop)) two[m]->stop();
        if (!sc->topo && seq == sc->selfstop) {
            ev("{\"op\":\"call\",\"th\":\"W\",\"fn\":\"stop\",\"arg\":0}\n");
            par->stop();
            ev("{\"op\":\"ret\",\"th\":\"W\",\"fn\":\"stop\",\"res\":[]}\n");
        }
        sched::point();
        {
            sched::Mask mask;
            EV(m, "{\"op\":\"pe\",\"buf\":%s}\n", enc(b).c_str());
        }
        producer[m] = -1;
        set_buffer(std::move(b));
    }
    NI void process() override {}
    NI void meta_stop() override {
        EV(m, "{\"op\":\"upstop\"}\n");
        SourceModule::meta_stop();
    }
    NI void meta_start() override {
        EV(m, "{\"op\":\"upstart\"}\n");
        SourceModule::meta_start();
    }
};

// Two modules: an operation is on the whole chain (mstart, mstop, proc) or on one of them ("1:proc")
NI static void run_two(const Scen& sc, const std::vector<std::string>& op) {
    int m, a;
    char k;
    {
        sched::Mask mask;
        const std::string& f = op[0];
        m = f[1] == ':' ? f[0] - '0' : -1;
        std::string g = m < 0 ? f : f.substr(2);
        a = op.size() > 1 ? atoi(op[1].c_str()) : 0;
        k = g == "quiet" ? 'q' : g == "mstart" ? 'S' : g == "mstop" ? 'E' : g == "proc" ? 'p' : g == "max" ? 'm' : g == "getmax" ? 'g' : g == "size" ? 's' : g == "start" ? 'b' : g == "stop" ? 'e' : g == "finish" ? 'f' : '?';
    }
    if (k == 'q') {
        sched::quiesce();
        ev("{\"op\":\"quiet\"}\n");
        ev1("{\"op\":\"quiet\"}\n");
        return;
    }
    if (m < 0) {
        if (k == 'S') snk->meta_start();
        else if (k == 'E') snk->meta_stop();
        else if (k == 'p') snk->meta_process();
        else if (k == 'f') snk->meta_finish();
        else _exit(2);
        return;
    }
    if (k == 'S') two[m]->meta_start();
    else if (k == 'E') two[m]->meta_stop();
    else if (k == 'b') two[m]->start();
    else if (k == 'e') two[m]->stop();
    else if (k == 'f') two[m]->meta_finish();
    else if (k == 'p') {
        two[m]->meta_process();
        AudioBuffer b(two[m]->get_buffer());
    }
    else {
        const char* fn = k == 'm' ? "max" : k == 'g' ? "getmax" : "size";
        EV(m, "{\"op\":\"call\",\"th\":\"%s\",\"fn\":\"%s\",\"arg\":%d}\n", who(m), fn, a);
        sched::point();
        size_t n = 0;
        if (k == 'm') two[m]->max_size((size_t)a);
        else n = k == 'g' ? two[m]->max_size() : two[m]->size();
        sched::point();
        if (k == 'm') EV(m, "{\"op\":\"ret\",\"th\":\"%s\",\"fn\":\"max\",\"res\":[]}\n", who(m));
        else EV(m, "{\"op\":\"ret\",\"th\":\"%s\",\"fn\":\"%s\",\"res\":[%zu]}\n", who(m), fn, n);
    }
}

NI static void run_op(const Scen& sc, const std::vector<std::string>& op) {
    if (sc.topo) {
        run_two(sc, op);
        return;
    }
    enum { START, STOP, MSTART, MSTOP, DEL, MAX, GETMAX, SIZE, PROC } what;
    const char* fn;
    int a;
    bool is_quiet = false, is_finish = false;
    std::string res;
    {
        sched::Mask mask;
        const std::string& f = op[0];
        is_quiet = f == "quiet";
        a = op.size() > 1 ? atoi(op[1].c_str()) : 0;
        res = "[]";
        if (f == "start") what = START;
        else if (f == "stop") what = STOP;
        else if (f == "mstart") what = MSTART;
        else if (f == "mstop") what = MSTOP;
        else if (f == "del") what = DEL;
        else if (f == "max") what = MAX;
        else if (f == "getmax") what = GETMAX;
        else if (f == "size") what = SIZE;
        else if (f == "proc") what = PROC;
        else if (f == "finish") is_finish = true;
        else if (f != "quiet") _exit(2);
        fn = f == "mstart" ? "start" : f == "mstop" || f == "del" ? "stop" : f.c_str();
    }
    if (is_quiet) {
        sched::quiesce();
        ev("{\"op\":\"quiet\"}\n");
        return;
    }
    if (is_finish) {   // a graceful end is asked for: nothing to the queue and its thread
        sched::point();
        if (sc.deep) snk->meta_finish();
        else par->meta_finish();
        sched::point();
        return;
    }
    ev("{\"op\":\"call\",\"th\":\"%s\",\"fn\":\"%s\",\"arg\":%d}\n", who(), fn, a);
    sched::point();
    size_t n = 0;
    switch (what) {
        case START: par->start(); break;
        case STOP: par->stop(); break;
        case MSTART: par->meta_start(); break;
        case MSTOP: par->meta_stop(); break;
        case DEL: delete par; par = nullptr; break;   // as good as a stop
        case MAX: par->max_size((size_t)a); break;
        case GETMAX: n = par->max_size(); break;
        case SIZE: n = par->size(); break;
        case PROC:
            if (sc.deep) {
                snk->meta_process();
                AudioBuffer b(snk->get_buffer());
                res = enc(b);
            } else {
                par->meta_process();
                AudioBuffer b(par->get_buffer());
                res = enc(b);
            }
    }
    {
        sched::Mask mask;
        if (what == GETMAX || what == SIZE) res = "[" + std::to_string(n) + "]";
    }
    sched::point();
    ev("{\"op\":\"ret\",\"th\":\"%s\",\"fn\":\"%s\",\"res\":%s}\n", who(), fn, res.c_str());
}

struct TArg { const Scen* sc; int role; };
NI static void body(void* p) {
    auto* t = static_cast<TArg*>(p);
    const auto* ops = &t->sc->ops[t->role];
    size_t n;
    {
        sched::Mask mask;
        n = ops->size();
    }
    for (size_t i = 0; i < n; ++i) {
        const std::vector<std::string>* op;
        {
            sched::Mask mask;
            op = &(*ops)[i];
        }
        run_op(*t->sc, *op);
    }
}

NI static void keep(const sched::Report& rep) {
    sh->nch = 0;
    for (size_t i = 0; i < rep.choice.size() && i < 20000; ++i, ++sh->nch) {
        sh->choice[i] = rep.choice[i];
        sh->nchoices[i] = rep.nchoices[i];
    }
    if (getenv("VF_POINTS")) fprintf(stderr, "points %ld choices %d\n", rep.points, sh->nch);
}

NI static void dead(const char* why) {
    ev("{\"op\":\"%s\"}\n", why);
    ev1("{\"op\":\"%s\"}\n", why);
    keep(sched::report());
    sh->ended = 1;
}

NI static void child(const Scen& sc, const sched::Config& cfg) {
    alarm(30);
    sched::on_dead = dead;
    sched::start(cfg);
    {
        auto* src = new Source;
        auto* mid = new AudioModule<>;
        snk = new SinkModule<>;
        src->sc = &sc;
        if (sc.topo) {
            two[0] = new Par(0), two[1] = new Par(1);
            auto* other = new Source;
            other->sc = &sc;
            other->m = 1;
            if (sc.topo == 1) {
                two[1]->feeds = true;
                snk->link(two[0])->link(two[1])->link(other);
            } else {
                two[0]->link(src);
                two[1]->link(other);
                auto* mix = new ModuleMixDown;
                if (sc.topo == 2) snk->link(mix);
                if (sc.topo == 2) mix->link(two[0]), mix->link(two[1]);
            }
        } else {
            par = new ParallelModule;
        }
        if (sc.topo) {
            if (sc.max != 1) two[0]->max_size((size_t)sc.max), two[1]->max_size((size_t)sc.max);
        } else if (sc.deep) {
            snk->link(par)->link(mid)->link(src);
            snk->get_info()->out_buffer = 4;
        } else {
            par->link(src);
        }
        if (sc.max != 1 && !sc.topo) par->max_size((size_t)sc.max);
        TArg a[3] = {{&sc, 0}, {&sc, 1}, {&sc, 2}};
        for (int r = 1; r < 3; ++r)
            if (!sc.ops[r].empty()) sched::spawn(body, &a[r], r);
        body(&a[0]);
        sched::join_all();
        ev("{\"op\":\"end\"}\n");
        ev1("{\"op\":\"end\"}\n");
    }
    keep(sched::stop());
    sh->ended = 1;
    _exit(0);
}

NI static std::string run_child(const Scen& sc, const sched::Config& c) {
    sh->len = sh->len1 = 0;
    sh->ended = 0;
    sh->nch = 0;
    pid_t p = fork();
    if (p == 0) child(sc, c);
    int st = 0;
    waitpid(p, &st, 0);
    std::string s(sh->buf, sh->len);
    if (!sh->ended || !WIFEXITED(st) || WEXITSTATUS(st))
        s += "{\"op\":\"crash\",\"sig\":" + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)) + "}\n";
    else if (sc.topo)   // each module on its own is such a module
        s += "{\"op\":\"reset\"}\n" + std::string(sh->buf1, sh->len1);
    return s;
}

NI int main(int argc, char** argv) {
    if (argc < 3) return 2;
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "w");
    std::string line;
    Scen sc;
    while (std::getline(in, line)) {
        std::istringstream ls(line);
        std::string k;
        ls >> k;
        if (k == "T") {
            sc = Scen{};
            ls >> sc.id;
        } else if (k == "max") ls >> sc.max;
        else if (k == "shape") ls >> sc.shape;
        else if (k == "selfstop") ls >> sc.selfstop;
        else if (k == "deep") sc.deep = true;
        else if (k == "series") sc.topo = 1;
        else if (k == "mixed") sc.topo = 2;
        else if (k == "apart") sc.topo = 3;
        else if (k == "selfstop1") ls >> sc.selfstop1;
        else if (k == "M" || k == "C" || k == "A") {
            int r = k == "M" ? 0 : k == "C" ? 1 : 2;
            std::vector<std::string> op;
            std::string w;
            while (ls >> w) op.push_back(w);
            sc.ops[r].push_back(op);
        } else if (k == "rand") {
            sched::Config c;
            int n;
            ls >> n >> c.seed >> c.psync >> c.pfine >> c.pspur;
            for (int i = 0; i < n; ++i) { sc.runs.push_back(c); ++c.seed; }
        } else if (k == "pct") {
            sched::Config c;
            int n;
            c.strat = "pct";
            ls >> n >> c.seed >> c.depth >> c.length >> c.pspur;
            for (int i = 0; i < n; ++i) { sc.runs.push_back(c); ++c.seed; }
        } else if (k == "guide") {
            sched::Config c;
            c.strat = "guide";
            std::string g;
            ls >> c.seed >> c.pfine >> g;
            for (char ch : g) c.guide.push_back(ch == 'M' ? 0 : ch == 'C' ? 1 : ch == 'W' ? 3 : 2);
            sc.runs.push_back(c);
        } else if (k == "dfs") {
            ls >> sc.dfs >> sc.dfs_preempt;
        } else if (k == "E") {
            fprintf(out, "{\"T\":\"%s\",\"cfg\":{\"max\":%d}}\n", sc.id.c_str(), sc.max);
            std::set<std::string> seen;
            bool first = true;
            int total = 0, bad = 0;   // runs that never end take long, and a few are enough
            auto emit = [&](const std::string& s) {
                ++total;
                if (s.find("\"limit\"") != s.npos || s.find("\"deadlock\"") != s.npos || s.find("\"crash\"") != s.npos) ++bad;
                if (!seen.insert(s).second) return;
                if (!first) fputs("{\"op\":\"reset\"}\n", out);
                first = false;
                fputs(s.c_str(), out);
            };
            for (auto& c : sc.runs)
                if (bad < 6) emit(run_child(sc, c));
            if (sc.dfs) {
                sched::Config c;
                c.strat = "dfs";
                std::vector<int> prefix;
                for (int n = 0; n < sc.dfs && bad < 6; ++n) {
                    c.guide = prefix;
                    emit(run_child(sc, c));
                    // next prefix within the preemption bound
                    std::vector<int> ch(sh->choice, sh->choice + sh->nch), nc(sh->nchoices, sh->nchoices + sh->nch);
                    int k = (int)ch.size() - 1;
                    bool found = false;
                    for (; k >= 0 && !found; --k) {
                        int pre = 0;
                        for (int i = 0; i < k; ++i)
                            if (nc[i] > 0 && ch[i] > 0) ++pre;
                        int opts = nc[k] > 0 ? nc[k] : -nc[k];
                        if (ch[k] + 1 < opts && (nc[k] < 0 || pre + 1 <= sc.dfs_preempt)) {
                            prefix.assign(ch.begin(), ch.begin() + k);
                            prefix.push_back(ch[k] + 1);
                            found = true;
                        }
                    }
                    if (!found) break;
                }
            }
            fprintf(out, "{\"op\":\"runs\",\"n\":%d}\n", total);
            fputs("{\"E\":1}\n", out);
            fflush(out);
        } else if (!k.empty()) {
            fprintf(stderr, "bad line %s\n", line.c_str());
            return 2;
        }
    }
    fclose(out);
    return 0;
}
