#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sched.hpp"

#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace {
long rawsys(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

enum St { RUN, BMUTEX, BCOND, BJOIN, BFUTEX, BSLEEP, BQUIET, BALL, DONE };
struct Thr {
    std::atomic<int> go{0};
    St st = RUN;
    const void* on = nullptr;
    bool timed = false, woken = false, timedout = false;
    pthread_t pt{};
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    int role = -1;
    long prio = 0;
    bool joined = false;    // somebody joins it already, or it was detached
    bool created = false;   // by pthread_create (joinable by handle)
    int sleeps = 0;
    bool parked = false;    // a sleeper kept asleep during quiesce
};

bool active = false;
sched::Config cfg;
sched::Report rep;
std::vector<Thr*> thr;
int cur = -1;
std::map<const void*, int> owner;          // mutex -> thread
std::map<const void*, std::map<int, int>> rd;  // rwlock readers
std::mt19937_64 rng;
size_t gpos = 0;
std::vector<long> changes;
int quiet_rounds = 0;
bool wake_sleepers = true;
__thread int me = -1;
__thread int inside = 0;

struct Guard {
    Guard() { ++inside; }
    ~Guard() { --inside; }
};

template <class F>
F real(const char* n) {
    static std::map<std::string, void*> cache;
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}

double u01() { return (rng() >> 11) * (1.0 / 9007199254740992.0); }

void die(const char* why) {
    active = false;
    if (sched::on_dead) sched::on_dead(why);
    _exit(0);
}

bool runnable(int i) { return thr[i]->st == RUN; }

void park() {
    Thr* t = thr[me];
    while (t->go.load() == 0) rawsys(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    t->go.store(0);
}

void handoff(int next) {
    if (next == cur) return;
    Thr* t = thr[next];
    cur = next;
    t->go.store(1);
    rawsys(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

std::vector<int> runset() {
    std::vector<int> r;
    for (int i = 0; i < (int)thr.size(); ++i)
        if (runnable(i)) r.push_back(i);
    return r;
}

// nobody can run: let time pass, or finish a quiesce, or report a deadlock
void unstick() {
    for (int round = 0; round < 4; ++round) {
        if (!runset().empty()) return;
        // sleepers and timed waiters
        bool quiet_waiter = false;
        for (auto* t : thr) quiet_waiter |= t->st == BQUIET;
        bool any = false;
        if (!quiet_waiter || quiet_rounds > 0) {
            for (auto* t : thr) {
                if (t->st == BSLEEP || ((t->st == BCOND || t->st == BFUTEX || t->st == BMUTEX) && t->timed)) {
                    if (t->st != BSLEEP) t->timedout = true;
                    t->st = RUN;
                    any = true;
                }
            }
            if (any && quiet_waiter) --quiet_rounds;
        }
        if (any) return;
        for (auto* t : thr)
            if (t->st == BQUIET) { t->st = RUN; return; }
    }
    if (runset().empty()) die("deadlock");
}

int pick(bool must, bool fine) {
    auto r = runset();
    if (r.empty()) {
        unstick();
        r = runset();
    }
    bool curok = !must && runnable(me);
    if (cfg.strat == "guide") {
        if (fine) return curok ? me : r[rng() % r.size()];
        while (gpos < cfg.guide.size()) {
            int want = cfg.guide[gpos++];
            for (int i : r)
                if (thr[i]->role == want) return i;
            // not able to move: the schedule is only a guide
            if (gpos % 3 == 0) break;
        }
        if (gpos >= cfg.guide.size()) {
            if (curok && u01() > 0.3) return me;
            return r[rng() % r.size()];
        }
        return curok ? me : r[rng() % r.size()];
    }
    if (cfg.strat == "dfs") {
        if (fine) return curok ? me : r[0];
        if (r.size() == 1) return r[0];
        // current thread first, so that choice 0 is "no preemption"
        if (curok) {
            std::vector<int> o{me};
            for (int i : r)
                if (i != me) o.push_back(i);
            r = o;
        }
        int c = 0;
        size_t k = rep.choice.size();
        if (k < cfg.guide.size()) c = cfg.guide[k];
        if (c >= (int)r.size()) c = 0;
        rep.nchoices.push_back((int)r.size() * (curok ? 1 : -1));
        rep.choice.push_back(c);
        return r[c];
    }
    if (cfg.strat == "pct") {
        for (size_t k = 0; k < changes.size(); ++k)
            if (rep.points == changes[k]) thr[me]->prio = -(long)k - 1;
        int best = r[0];
        for (int i : r)
            if (thr[i]->prio > thr[best]->prio) best = i;
        return best;
    }
    if (curok && u01() >= (fine ? cfg.pfine : cfg.psync)) return me;
    if (fine && curok) {
        std::vector<int> o;
        for (int i : r)
            if (i != me) o.push_back(i);
        if (o.empty()) return me;
        return o[rng() % o.size()];
    }
    return r[rng() % r.size()];
}

void maybe_spurious() {
    if (cfg.pspur <= 0 || u01() >= cfg.pspur) return;
    std::vector<Thr*> w;
    for (auto* t : thr)
        if (t->st == BCOND) w.push_back(t);
    if (w.empty()) return;
    Thr* t = w[rng() % w.size()];
    t->st = RUN;
    t->woken = true;
}

void schedpoint(bool must, bool fine) {
    if (++rep.points > cfg.limit) die("limit");
    if (!fine) maybe_spurious();
    if (!fine && u01() < 0.05) {  // time passes: one sleeper wakes up
        bool quiet_waiter = false;
        std::vector<Thr*> w;
        for (auto* t : thr) {
            quiet_waiter |= t->st == BQUIET;
            if (t->st == BSLEEP) w.push_back(t);
        }
        if (!quiet_waiter && !w.empty()) w[rng() % w.size()]->st = RUN;
    }
    int n = pick(must, fine);
    if (n != me) {
        handoff(n);
        park();
    }
}

bool managed() { return active && me >= 0 && inside == 0; }

void block(St s, const void* on, bool timed) {
    Thr* t = thr[me];
    t->st = s;
    t->on = on;
    t->timed = timed;
    t->timedout = false;
    t->woken = false;
    schedpoint(true, false);
}

void wake_mutex(const void* m) {
    for (auto* t : thr)
        if (t->st == BMUTEX && t->on == m) t->st = RUN;
}

int lock_mutex(const void* m, bool timed, bool point) {
    if (point) schedpoint(false, false);
    while (owner.count(m)) {
        if (owner[m] == me) die("self-deadlock");
        block(BMUTEX, m, timed);
        if (thr[me]->timedout) return ETIMEDOUT;
    }
    owner[m] = me;
    return 0;
}

void unlock_mutex(const void* m) {
    owner.erase(m);
    wake_mutex(m);
}

int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    schedpoint(false, false);
    unlock_mutex(m);
    block(BCOND, c, timed);
    bool to = thr[me]->timedout;
    lock_mutex(m, false, false);
    return to ? ETIMEDOUT : 0;
}

int cond_wake(pthread_cond_t* c, bool all) {
    schedpoint(false, false);
    std::vector<Thr*> w;
    for (auto* t : thr)
        if (t->st == BCOND && t->on == c) w.push_back(t);
    if (w.empty()) return 0;
    if (all) {
        for (auto* t : w) t->st = RUN;
    } else {
        w[rng() % w.size()]->st = RUN;
    }
    schedpoint(false, false);
    return 0;
}

void finish_self() {
    Thr* t = thr[me];
    t->st = DONE;
    for (auto* o : thr)
        if (o->st == BJOIN && o->on == t) o->st = RUN;
    bool all = true;
    for (int i = 1; i < (int)thr.size(); ++i) all &= thr[i]->st == DONE;
    if (all && thr[0]->st == BALL) thr[0]->st = RUN;
    int n = pick(true, false);
    handoff(n);
}

void* trampoline(void* p) {
    me = (int)(intptr_t)p;
    inside = 1;
    park();
    inside = 0;
    thr[me]->ret = thr[me]->fn(thr[me]->arg);
    inside = 1;
    void* ret = thr[me]->ret;
    finish_self();
    return ret;
}

int create(pthread_t* out, void* (*f)(void*), void* arg, int role) {
    Guard g;
    auto* t = new Thr;
    t->fn = f;
    t->arg = arg;
    t->role = role;
    t->prio = (long)(rng() % 1000000) + 1;
    thr.push_back(t);
    int id = (int)thr.size() - 1;
    using F = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static F rc = real<F>("pthread_create");
    int r = rc(&t->pt, nullptr, trampoline, (void*)(intptr_t)id);
    if (r) {
        thr.pop_back();
        return r;
    }
    if (out) *out = t->pt;
    schedpoint(false, false);
    return 0;
}
}  // namespace

namespace sched {
void (*on_dead)(const char*) = nullptr;
Mask::Mask() { ++inside; }
Mask::~Mask() { --inside; }

void start(const Config& c) {
    cfg = c;
    rep = Report{};
    rng.seed(c.seed * 0x9E3779B97F4A7C15ull + 12345);
    for (int i = 0; i < c.depth; ++i) changes.push_back((long)(rng() % (c.length > 0 ? c.length : 1)));
    thr.reserve(256);   // never reallocated: exiting threads may still look at it
    auto* t = new Thr;
    t->role = 0;
    t->prio = (long)(rng() % 1000000) + 1;
    thr.push_back(t);
    me = 0;
    cur = 0;
    active = true;
}
Report stop() {
    active = false;
    return rep;
}
const Report& report() { return rep; }
int self() { return me; }
int role_of_self() { return me < 0 ? -1 : thr[me]->role; }
void point() {
    if (!managed()) return;
    Guard g;
    schedpoint(false, false);
}
bool quiesce() {
    Guard g;
    quiet_rounds = 25;
    block(BQUIET, nullptr, false);
    return true;
}
struct Spawn { void (*f)(void*); void* a; };
static void* runspawn(void* p) {
    auto* s = static_cast<Spawn*>(p);
    s->f(s->a);
    delete s;
    return nullptr;
}
int spawn(void (*f)(void*), void* a, int role) { return create(nullptr, runspawn, new Spawn{f, a}, role); }
void join_all() {
    Guard g;
    for (;;) {
        bool all = true;
        for (int i = 1; i < (int)thr.size(); ++i) all &= thr[i]->st == DONE;
        if (all) return;
        block(BALL, nullptr, false);
    }
}
}  // namespace sched

extern "C" {
__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void*, void*) {
    if (!active || me < 0 || inside) return;
    ++inside;
    schedpoint(false, true);
    --inside;
}
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void*, void*) {
    if (!active || me < 0 || inside) return;
    ++inside;
    schedpoint(false, true);
    --inside;
}

int pthread_mutex_lock(pthread_mutex_t* m) {
    using F = int (*)(pthread_mutex_t*);
    if (!managed()) {
        static F f = real<F>("pthread_mutex_lock");
        return f(m);
    }
    Guard g;
    return lock_mutex(m, false, true);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    using F = int (*)(pthread_mutex_t*);
    if (!managed()) {
        static F f = real<F>("pthread_mutex_trylock");
        return f(m);
    }
    Guard g;
    schedpoint(false, false);
    if (owner.count(m)) return EBUSY;
    owner[m] = me;
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) {
    Guard g;
    return lock_mutex(m, true, true);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) {
    Guard g;
    return lock_mutex(m, true, true);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    using F = int (*)(pthread_mutex_t*);
    if (!managed()) {
        static F f = real<F>("pthread_mutex_unlock");
        return f(m);
    }
    Guard g;
    unlock_mutex(m);
    schedpoint(false, false);
    return 0;
}
static int rw_lock(pthread_rwlock_t* m, const char* n) {
    using F = int (*)(pthread_rwlock_t*);
    if (!managed()) return real<F>(n)(m);
    Guard g;
    return lock_mutex(m, false, true);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return rw_lock(m, "pthread_rwlock_rdlock"); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return rw_lock(m, "pthread_rwlock_wrlock"); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    using F = int (*)(pthread_rwlock_t*);
    if (!managed()) return real<F>("pthread_rwlock_unlock")(m);
    Guard g;
    unlock_mutex(m);
    schedpoint(false, false);
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    using F = int (*)(pthread_cond_t*, pthread_mutex_t*);
    if (!managed()) {
        static F f = real<F>("pthread_cond_wait");
        return f(c, m);
    }
    Guard g;
    return cond_wait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    using F = int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
    if (!managed()) {
        static F f = real<F>("pthread_cond_timedwait");
        return f(c, m, t);
    }
    Guard g;
    return cond_wait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    using F = int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
    if (!managed()) {
        static F f = real<F>("pthread_cond_clockwait");
        return f(c, m, k, t);
    }
    Guard g;
    return cond_wait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) {
    using F = int (*)(pthread_cond_t*);
    if (!managed()) {
        static F f = real<F>("pthread_cond_signal");
        return f(c);
    }
    Guard g;
    return cond_wake(c, false);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    using F = int (*)(pthread_cond_t*);
    if (!managed()) {
        static F f = real<F>("pthread_cond_broadcast");
        return f(c);
    }
    Guard g;
    return cond_wake(c, true);
}
int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    using F = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    if (!managed()) {
        static F f = real<F>("pthread_create");
        return f(out, a, fn, arg);
    }
    return create(out, fn, arg, 3);
}
int pthread_join(pthread_t p, void** ret) {
    using F = int (*)(pthread_t, void**);
    static F f = real<F>("pthread_join");
    if (!managed()) return f(p, ret);
    Guard g;
    schedpoint(false, false);
    for (auto* t : thr)
        if (t->fn && pthread_equal(t->pt, p)) {
            if (t == thr[me]) return EDEADLK;
            if (t->joined) return EINVAL;
            t->joined = true;
            while (t->st != DONE) block(BJOIN, t, false);
            if (ret) *ret = t->ret;
            t->fn = nullptr;
            return 0;
        }
    return ESRCH;
}
int pthread_detach(pthread_t p) {
    using F = int (*)(pthread_t);
    static F f = real<F>("pthread_detach");
    if (!managed()) return f(p);
    Guard g;
    for (auto* t : thr)
        if (t->fn && pthread_equal(t->pt, p)) t->joined = true;
    return 0;
}
static int managed_sleep() {
    Guard g;
    // a sleeping thread gives way to everybody who can run
    auto r = runset();
    if (r.size() > 1) {
        thr[me]->prio -= 1000000;
        block(BSLEEP, nullptr, true);
    } else {
        block(BSLEEP, nullptr, true);
    }
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    using F = int (*)(const struct timespec*, struct timespec*);
    if (!managed()) {
        static F f = real<F>("nanosleep");
        return f(a, b);
    }
    return managed_sleep();
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) {
    using F = int (*)(clockid_t, int, const struct timespec*, struct timespec*);
    if (!managed()) {
        static F f = real<F>("clock_nanosleep");
        return f(c, fl, a, b);
    }
    return managed_sleep();
}
int sched_yield(void) noexcept {
    if (!managed()) return (int)rawsys(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    return managed_sleep();
}
long syscall(long n, ...) noexcept {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
         f = va_arg(ap, long);
    va_end(ap);
    if (managed() && n == SYS_futex) {
        int cmd = (int)(b & 127);
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
            Guard g;
            schedpoint(false, false);
            if (*(volatile int*)a != (int)c) {
                errno = EAGAIN;
                return -1;
            }
            block(BFUTEX, (void*)a, d != 0);
            if (thr[me]->timedout) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
            Guard g;
            int k = 0;
            for (auto* t : thr)
                if (t->st == BFUTEX && t->on == (void*)a && k < (int)c) {
                    t->st = RUN;
                    ++k;
                }
            schedpoint(false, false);
            return k;
        }
    }
    long r = rawsys(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
}
