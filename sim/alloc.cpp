#include "alloc.h"
#include <execinfo.h>
#include "disk.h"
#include <cstdlib>
#include <dlfcn.h>
#include <link.h>
#include <new>

namespace sim
{
   AllocCtl g_alloc;
   thread_local int g_libDepth = 0;

   struct Hdr
   {
      Hdr *prev;
      Hdr *next;
      size_t size;
      uint64_t seq; // 0: harness block
      void *ra;
      uint64_t magic;
   };
   static_assert( sizeof( Hdr ) % 16 == 0, "alignment" );
   static Hdr g_head = { &g_head, &g_head, 0, 0, nullptr, 0 };
   static uint64_t g_seq = 0;
   static uintptr_t g_xlo = 0, g_xhi = 0;
   constexpr uint64_t kMagic = 0xA110CA7EDB10C5ULL;

   static int phdrCb( struct dl_phdr_info *info, size_t, void * )
   {
      if ( info->dlpi_name && strstr( info->dlpi_name, "xerces" ) )
      {
         for ( int i = 0; i < info->dlpi_phnum; i++ )
         {
            if ( info->dlpi_phdr[i].p_type == PT_LOAD )
            {
               uintptr_t lo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
               uintptr_t hi = lo + info->dlpi_phdr[i].p_memsz;
               if ( !g_xlo || lo < g_xlo )
               {
                  g_xlo = lo;
               }
               if ( hi > g_xhi )
               {
                  g_xhi = hi;
               }
            }
         }
      }
      return 0;
   }
   void allocInit()
   {
      dl_iterate_phdr( phdrCb, nullptr );
   }
   uint64_t allocSeq()
   {
      return g_seq;
   }
   int64_t liveSince( uint64_t seq )
   {
      int64_t n = 0;
      for ( Hdr *h = g_head.next; h != &g_head; h = h->next )
      {
         n += h->seq > seq;
      }
      return n;
   }
   // debugging aid: SIM_ALLOC=<seq> prints where that block was allocated
   static const uint64_t g_traceSeq = getenv( "SIM_ALLOC" ) ? strtoull( getenv( "SIM_ALLOC" ), nullptr, 10 ) : 0;

   std::string describeLive( uint64_t since )
   {
      std::vector<Hdr *> hs;
      for ( Hdr *h = g_head.next; h != &g_head; h = h->next )
      {
         if ( h->seq > since )
         {
            hs.push_back( h );
         }
      }
      std::string out;
      int n = 0;
      for ( auto h : hs )
      {
         if ( n++ < 4 )
         {
            Dl_info di;
            const char *sym = "?";
            if ( dladdr( h->ra, &di ) && di.dli_sname )
            {
               sym = di.dli_sname;
            }
            out += strf( " [%zu bytes from %s]", h->size, sym );
            trace( "  live block %llu of %zu bytes from %s", (unsigned long long)h->seq, h->size, sym );
         }
      }
      return out;
   }

   static void *allocate( size_t n, void *ra, bool nothrow )
   {
      const bool lib = g_libDepth > 0;
      const bool xerces = uintptr_t( ra ) >= g_xlo && uintptr_t( ra ) < g_xhi;
      if ( lib )
      {
         if ( !xerces )
         {
            schedPoint( 100 );
         }
         if ( g_alloc.armed && !xerces )
         {
            if ( g_alloc.count++ == g_alloc.failAt )
            {
               g_alloc.fired++;
               ev( 0xA11, g_alloc.failAt );
               if ( nothrow )
               {
                  return nullptr;
               }
               throw std::bad_alloc();
            }
         }
         if ( int64_t( n ) < 0 || g_alloc.liveBytes + int64_t( n ) > g_alloc.capBytes )
         {
            g_alloc.capHit = true;
            if ( nothrow )
            {
               return nullptr;
            }
            throw std::bad_alloc();
         }
      }
      auto h = static_cast<Hdr *>( malloc( n + sizeof( Hdr ) ) );
      if ( !h )
      {
         if ( nothrow )
         {
            return nullptr;
         }
         throw std::bad_alloc();
      }
      h->size = n;
      h->magic = kMagic;
      h->ra = ra;
      if ( lib )
      {
         h->seq = ++g_seq;
         if ( h->seq == g_traceSeq )
         {
            void *bt[40];
            backtrace_symbols_fd( bt, backtrace( bt, 40 ), 2 );
         }
         h->prev = g_head.prev;
         h->next = &g_head;
         g_head.prev->next = h;
         g_head.prev = h;
         g_alloc.liveBlocks++;
         g_alloc.liveBytes += int64_t( n );
         if ( g_alloc.liveBytes > g_alloc.peakBytes )
         {
            g_alloc.peakBytes = g_alloc.liveBytes;
         }
         if ( g_alloc.fill >= 0 )
         {
            memset( h + 1, g_alloc.fill, n );
         }
      }
      else
      {
         h->seq = 0;
      }
      return h + 1;
   }
   static void release( void *p )
   {
      if ( !p )
      {
         return;
      }
      Hdr *h = static_cast<Hdr *>( p ) - 1;
      if ( h->magic != kMagic )
      {
         failNow( "heap misuse: freeing a block that is not allocated (double free or overrun)" );
      }
      h->magic = 0xDEAD;
      if ( h->seq )
      {
         h->prev->next = h->next;
         h->next->prev = h->prev;
         g_alloc.liveBlocks--;
         g_alloc.liveBytes -= int64_t( h->size );
      }
      free( h );
   }
}

void *operator new( size_t n )
{
   return sim::allocate( n, __builtin_return_address( 0 ), false );
}
void *operator new[]( size_t n )
{
   return sim::allocate( n, __builtin_return_address( 0 ), false );
}
void *operator new( size_t n, const std::nothrow_t & ) noexcept
{
   return sim::allocate( n, __builtin_return_address( 0 ), true );
}
void *operator new[]( size_t n, const std::nothrow_t & ) noexcept
{
   return sim::allocate( n, __builtin_return_address( 0 ), true );
}
void operator delete( void *p ) noexcept
{
   sim::release( p );
}
void operator delete[]( void *p ) noexcept
{
   sim::release( p );
}
void operator delete( void *p, size_t ) noexcept
{
   sim::release( p );
}
void operator delete[]( void *p, size_t ) noexcept
{
   sim::release( p );
}
