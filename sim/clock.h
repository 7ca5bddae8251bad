// Simulated time of day, advanced by a microsecond whenever it is asked for.
#pragma once
#include <cstdint>
#include <sys/types.h>

namespace sim
{
   struct SimClock
   {
      bool on = false;
      uint64_t now = 1500000000ULL * 1000000000ULL; // nanoseconds
      pid_t pid = 4711;
      uint64_t asked = 0;
   };
   extern SimClock g_clock;
}
