// Simulated threads: real threads of which exactly one runs at a time, switched at planned points
// inside the instrumented library code.
#ifndef THR_H
#define THR_H
#include "sim.h"
namespace thr
{
    using sim::str;
    using sim::u64;
    static const int MAXT = 4;
    struct Switch { long after; int to; };
    // Runs the bodies as threads; returns when all are through
    void run(const std::vector<std::function<void()>>& bodies, const std::vector<Switch>& schedule, long every);
    int self();                           // -1 outside
    void failAt(long nth, long burst);    // operator new of this thread
    void heal();
    long failed();
    u64 events();                         // yield points passed
    u64 switches();                       // context switches made
    u64 overlap();                        // bit set of pairs of threads that were switched between
    void track(bool on);                  // tracking of memory
}
namespace work
{
    // one operation of the library on values of its own; its outcome as text
    sim::str op(const sim::str& name, sim::u64 seed, int tid, int step);
    std::vector<sim::str> names();
    void files(int tid);                  // what the operations of a thread read
}
#endif
