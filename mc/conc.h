// Engine B: systematic exploration of the schedules of the real, multithreaded client library against the real server.
// A state is the complete memory of the system; at every scheduling point of a client thread (synchronisation, socket I/O and
// racy memory accesses) every enabled choice is explored: switching threads (bounded number of preemptions), letting the server
// or another module act, and faults (bounded number): receive calls that return less, early expiry of a timed wait, spurious
// wakeups, death of the server.
#pragma once
#include "cscn.h"
namespace sched {
struct Log {                                      // lives in the explored memory
    int pc[6]; int done[6]; int waits_event[6]; int fired; int crashed; int nforeign; int disconnects; int freed_udata[16];
    struct Ev { int udata; int n; unsigned char d[16]; int thread; } ev[40]; int nev; int in_cb; int gen; int user[64];
};
struct Scn {
    string name; std::function<void()> setup;               // run without preemption
    vector<std::function<void()>> threads;                  // programs of the application threads (client process)
    vector<std::function<void()>> foreign; vector<string> foreign_names;            // actions of other modules, in order
    std::function<void()> final;                            // after all application threads have finished (no preemption)
    int pre = 2, env = 0; bool crash = false; bool fire = true, shortr = true, spur = true; bool late_ok = false;
    bool race = true;
};
extern Log *L; extern dax_state *ds; extern int wire;
void run(const Scn &s);
inline void app(int t, int step) { L->pc[t] = step; }
}
