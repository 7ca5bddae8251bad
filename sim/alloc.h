// Simulated allocator: accounting of blocks owned by the library, allocation failures, memory bound, fill pattern.
#pragma once
#include "core.h"

namespace sim
{
   struct AllocCtl
   {
      // blocks allocated while inside a library call and not yet freed
      int64_t liveBlocks = 0;
      int64_t liveBytes = 0;
      int64_t peakBytes = 0;
      uint64_t count = 0;     // eligible allocations since armed
      bool armed = false;
      uint64_t failAt = ~0ULL; // index of the allocation that fails
      uint64_t fired = 0;
      int64_t capBytes = int64_t( 1 ) << 62; // exceeding: std::bad_alloc and capHit
      bool capHit = false;
      int fill = -1; // pattern for fresh memory
   };
   extern AllocCtl g_alloc;
   extern thread_local int g_libDepth;

   // Marks the extent of a library call.
   struct InLib
   {
      InLib()
      {
         ++g_libDepth;
      }
      ~InLib()
      {
         --g_libDepth;
      }
   };
   // Harness code that runs below a library call.
   struct OutOfLib
   {
      int saved;
      OutOfLib() : saved( g_libDepth )
      {
         g_libDepth = 0;
      }
      ~OutOfLib()
      {
         g_libDepth = saved;
      }
   };
   void allocInit();
   std::string describeLive( uint64_t sinceSeq );
   uint64_t allocSeq();
   int64_t liveSince( uint64_t seq ); // live library blocks allocated after seq
}
