// Deterministic cooperative scheduler: pthread mutexes, condition variables, thread creation and
// joining, sleeps and futex waits of the program are interposed, and exactly one thread runs at a time.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace sched {
struct Config {
    std::string strat = "rand";        // rand | pct | guide | dfs
    uint64_t seed = 1;
    double psync = 0.5;                // rand: probability of a switch at a synchronisation point
    double pfine = 0.01;               // rand: probability of a switch at a function boundary
    double pspur = 0.0;                // probability of a spurious wake-up at a synchronisation point
    int depth = 3;                     // pct: number of priority change points
    int length = 3000;                 // pct: assumed number of points
    long limit = 400000;               // scheduling points before the run counts as not terminating
    std::vector<int> guide;            // guide/dfs: thread to run (guide), choice index (dfs)
};
struct Report {
    bool deadlock = false, limit = false;
    std::vector<int> nchoices, choice; // dfs: options at every decision and the one taken
    long points = 0;
};
void start(const Config& c);           // the calling thread becomes managed thread 0 ("M")
Report stop();
const Report& report();
int self();                            // managed id, -1 if not managed
void point();                          // an explicit synchronisation point
bool quiesce();                        // run everybody else until nobody else can move
int spawn(void (*f)(void*), void* arg, int role);   // managed thread with a role
void join_all();                       // wait for all managed threads
int role_of_self();
struct Mask { Mask(); ~Mask(); };        // no scheduling points while one is alive
extern void (*on_dead)(const char* why);
}  // namespace sched
