// A scheduler for threads of the code under test: one runs at a time, and changes of thread happen only where the
// plan says, at a thread's n-th point. Points are memory accesses (the code is compiled with -fsanitize=thread and
// this runtime takes the place of libtsan) and lock operations.
#pragma once
#include <functional>
#include <utility>
#include <vector>

namespace sched
{
    struct Change { int from; long at; int to; };   // when thread `from` comes to its point `at`, `to` goes on instead
    struct Plan
    {
        std::vector<int> order;         // who starts, and who goes on when one ends or waits
        std::vector<Change> changes;
        bool everything = false;        // points are accesses to any memory, not only the registry's and static data
        bool log = false;               // find the points where threads meet
    };
    struct Result
    {
        std::vector<long> points;               // of each thread
        std::vector<std::vector<long>> meets;   // the points at which a thread touches what another touches too, one of them writing; and lock operations
        bool stuck = false;
    };
    Result run( const std::vector<std::function<void()>>& threads, const Plan& plan );
    void mark();                    // a point of the harness
    struct Quiet { Quiet(); ~Quiet(); };    // no points meanwhile: the harness's own bookkeeping
}
