// Simulated threads: real pthreads of which exactly one runs at a time.  The
// simulator chooses, at the granularity of single memory accesses, when the
// running thread is preempted and which one continues.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim { namespace mt {

struct Stats { uint64_t points, switches, hot, blocked, atomics, guards, locks; uint64_t schedule; };

// Runs the bodies as threads 1..n under the simulated scheduler; returns when all have ended.
// Data races, deadlocks, use of released memory and lack of progress are violations.
Stats run(const std::vector<std::function<void()>> &bodies);
int current();           // 0 outside simulated threads

}} // namespace
