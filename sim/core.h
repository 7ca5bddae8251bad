// Choice sequence, event hash, probes and violation reporting shared by all parts of the simulator.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace sim
{
   inline uint64_t splitmix( uint64_t &s )
   {
      uint64_t z = ( s += 0x9E3779B97F4A7C15ULL );
      z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ULL;
      z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBULL;
      return z ^ ( z >> 31 );
   }
   inline uint64_t mix( uint64_t a, uint64_t b )
   {
      uint64_t s = a * 0x9E3779B97F4A7C15ULL + b;
      splitmix( s );
      return splitmix( s );
   }
   inline uint64_t hashStr( const char *s )
   {
      uint64_t h = 1469598103934665603ULL;
      for ( ; *s; ++s )
      {
         h = ( h ^ uint8_t( *s ) ) * 1099511628211ULL;
      }
      return h;
   }
   inline uint64_t hashBytes( const void *p, size_t n, uint64_t h = 1469598103934665603ULL )
   {
      auto c = static_cast<const uint8_t *>( p );
      for ( size_t i = 0; i < n; i++ )
      {
         h = ( h ^ c[i] ) * 1099511628211ULL;
      }
      return h;
   }

   // Plain PRNG for bulk data; its seed is always drawn from the choice sequence.
   struct Rng
   {
      uint64_t s;
      explicit Rng( uint64_t seed ) : s( seed )
      {
      }
      uint64_t next()
      {
         return splitmix( s );
      }
      uint64_t below( uint64_t n )
      {
         return n ? next() % n : 0;
      }
   };

   constexpr unsigned kMaxChoices = 1u << 18;
   constexpr unsigned kMaxProbes = 512;

   // Result of one run, in memory shared between the forked run and the worker.
   struct Shared
   {
      uint32_t status; // 0 running, 1 held, 2 violation, 3 aborted by the harness
      uint32_t nchoices;
      uint32_t nontrivial;
      uint32_t traceLen;
      uint64_t hash;
      uint64_t ops;
      uint64_t simNs;
      uint64_t sessions;
      uint32_t choices[kMaxChoices];
      uint32_t probes[kMaxProbes];
      char msg[8192];
      char trace[65536];
   };
   extern Shared *g_sh;

   // Every decision of a run is drawn here. 0 is always the simplest option.
   class Choices
   {
   public:
      void seed( uint64_t s )
      {
         rng_ = s;
         replay_ = false;
      }
      void replay( std::vector<uint32_t> in )
      {
         in_ = std::move( in );
         replay_ = true;
      }
      uint32_t draw( uint64_t n ); // in [0,n)
      uint32_t range( uint32_t lo, uint32_t hi )
      {
         return lo + draw( uint64_t( hi ) - lo + 1 );
      }
      bool chance( uint32_t num, uint32_t den )
      {
         return draw( den ) >= den - num;
      }
      uint64_t sub()
      {
         uint64_t v = draw( 1ULL << 32 );
         return mix( v, 0x5EED );
      }
      // small numbers likely, large ones possible
      uint32_t skewed( uint32_t max );
      size_t weighted( std::initializer_list<uint32_t> w );

      // draws that are not part of the run's choice list (seeded from it)
      static Choices quiet( uint64_t s )
      {
         Choices c;
         c.seed( s );
         c.record_ = false;
         return c;
      }

   private:
      bool record_ = true;
      uint64_t rng_ = 1;
      bool replay_ = false;
      size_t pos_ = 0;
      std::vector<uint32_t> in_;
   };

   struct Violation
   {
      std::string msg;
   };
   // The drawn case does not fit the family (e.g. its fault-free part already fails); the run counts as trivial.
   struct Unsuitable
   {
   };
   struct HarnessError
   {
      std::string msg;
   };
   [[noreturn]] void fail( const std::string &msg );
   [[noreturn]] void failNow( const std::string &msg ); // for places that must not throw: ends the run at once

   // Event hash: everything observable is folded in, so that equal hashes mean equal executions.
   void ev( uint64_t a, uint64_t b = 0, uint64_t c = 0 );
   void evs( const std::string &s );
   void trace( const char *fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
   std::string strf( const char *fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
   extern bool g_traceOn;

   // Reach probes: sites register at static initialisation.
   unsigned registerProbe( const char *name );
   const std::vector<std::string> &probeNames();
   inline void hit( unsigned p, uint32_t n = 1 )
   {
      g_sh->probes[p] += n;
   }
   struct ProbeSite
   {
      unsigned idx;
      explicit ProbeSite( const char *n ) : idx( registerProbe( n ) )
      {
      }
   };
   template <typename Tag> struct ProbeHolder
   {
      static ProbeSite site;
   };
   template <typename Tag> ProbeSite ProbeHolder<Tag>::site{ Tag::name() };
#define PROBE( NAME )                                                                              \
   do                                                                                              \
   {                                                                                               \
      struct PTag                                                                                  \
      {                                                                                            \
         static const char *name()                                                                 \
         {                                                                                         \
            return NAME;                                                                           \
         }                                                                                         \
      };                                                                                           \
      sim::hit( sim::ProbeHolder<PTag>::site.idx );                                                \
   } while ( 0 )

   void nontrivial();

   // A family decides one or more properties; run() throws Violation.
   struct Family
   {
      const char *name;
      void ( *run )( Choices &c, unsigned profile );
      unsigned profiles;
      int cpuSeconds = 12; // limit of one run
   };
   void registerFamily( const Family &f );
   const Family *findFamily( const std::string &name );
   struct FamilyReg
   {
      explicit FamilyReg( const Family &f )
      {
         registerFamily( f );
      }
   };
}
