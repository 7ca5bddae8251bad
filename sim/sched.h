// Simulated scheduler: sessions are threads, exactly one runs; switches happen at system calls,
// allocations and instrumented edges, as drawn from the choice sequence.
#pragma once
#include "core.h"

namespace sim
{
   // Runs all tasks to completion under drawn schedules. fineGrain: also switch at instrumented edges.
   void runTasks( Choices &c, const std::vector<std::function<void()>> &tasks, bool fineGrain );
   uint64_t schedSwitches();
   uint64_t schedHash();
   int schedSelf();
   // Lets another session run at an operation boundary of the harness.
   void schedYieldPoint();
}
