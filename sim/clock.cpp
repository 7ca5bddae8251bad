// Simulated clock and process identity: whatever the library might ask for is decided here.
#include "clock.h"
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace sim
{
   SimClock g_clock;
   namespace
   {
      uint64_t tick()
      {
         g_clock.asked++;
         return g_clock.now += 1000;
      }
   }
}
using namespace sim;

extern "C"
{
   int __real_clock_gettime( clockid_t, struct timespec * );
   int __real_gettimeofday( struct timeval *, void * );
   time_t __real_time( time_t * );
   clock_t __real_clock();
   pid_t __real_getpid();

   int __wrap_clock_gettime( clockid_t id, struct timespec *t )
   {
      if ( !g_clock.on )
      {
         return __real_clock_gettime( id, t );
      }
      uint64_t n = tick();
      t->tv_sec = time_t( n / 1000000000 );
      t->tv_nsec = long( n % 1000000000 );
      return 0;
   }
   int __wrap_gettimeofday( struct timeval *t, void *z )
   {
      if ( !g_clock.on )
      {
         return __real_gettimeofday( t, z );
      }
      uint64_t n = tick();
      t->tv_sec = time_t( n / 1000000000 );
      t->tv_usec = long( n % 1000000000 / 1000 );
      return 0;
   }
   time_t __wrap_time( time_t *t )
   {
      if ( !g_clock.on )
      {
         return __real_time( t );
      }
      time_t r = time_t( tick() / 1000000000 );
      if ( t )
      {
         *t = r;
      }
      return r;
   }
   clock_t __wrap_clock()
   {
      return g_clock.on ? clock_t( tick() / 1000 ) : __real_clock();
   }
   pid_t __wrap_getpid()
   {
      return g_clock.on ? g_clock.pid : __real_getpid();
   }
   // std::chrono clocks
   int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv()
   {
      struct timespec t;
      __wrap_clock_gettime( CLOCK_REALTIME, &t );
      return int64_t( t.tv_sec ) * 1000000000 + t.tv_nsec;
   }
   int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv()
   {
      struct timespec t;
      __wrap_clock_gettime( CLOCK_MONOTONIC, &t );
      return int64_t( t.tv_sec ) * 1000000000 + t.tv_nsec;
   }
}
