// Controlled OpenMP/thread runtime and happens-before race detector.  Replaces libgomp and the sanitizer runtime: one
// logical thread runs at a time, every blocking or synchronising operation is a scheduling point decided by a policy.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <functional>
namespace sch {
#ifndef SCHED_MAXT
#define SCHED_MAXT 72
#endif
const int MAXT = SCHED_MAXT;
struct Policy {
    std::vector<int> teams{1};  // team size given to the k-th parallel region (last one repeats)
    int max_threads = 8;        // what omp_get_max_threads reports
    int rot = 0; bool rev = false;   // order in which runnable members run: rot, rot+1, ... (or rot, rot-1, ...)
    bool chunks = false;        // hand over after every dynamically scheduled chunk
    bool cyclic = false;        // teams repeats as a whole instead of its last entry
    int exec = -1;              // team member (modulo team size) that executes `single' blocks; -1: the first to arrive
    int dev = -1, exec2 = 0;    // ... except the dev-th single of the execution, which exec2 executes
};
extern Policy pol;
extern long regions, barriers, singles, switches, accesses, events;
extern int max_team_seen;
void begin();                   // forget the policy position and the shadow state (a new execution)
// problems found
struct Problem { const char* kind; uintptr_t pc1, pc2; int t1, t2; bool w1, w2; };
extern std::vector<Problem> problems;
void clear_range(void* p, size_t n);
// explicit threads under a choice-driven scheduler (C09): runs the bodies as logical threads; choices[i] selects among the
// runnable threads at the i-th point (0 = keep running the current one); returns the branching degree seen at each point
struct Trace { std::vector<int> degree; std::vector<int> taken; bool deadlock = false; };
Trace run_threads(const std::vector<std::function<void()>>& bodies, const std::vector<int>& choices, bool points_on_alloc);
}
