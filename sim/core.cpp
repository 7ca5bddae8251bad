#include "core.h"
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <map>
#include <memory>
#include <unistd.h>

namespace sim
{
   static Shared *bootShared()
   {
      static Shared *s = static_cast<Shared *>( calloc( 1, sizeof( Shared ) ) );
      return s;
   }
   Shared *g_sh = bootShared();
   bool g_traceOn = false;

   uint32_t Choices::draw( uint64_t n )
   {
      if ( n <= 1 )
      {
         return 0; // nothing to decide
      }
      uint32_t v = 0;
      if ( replay_ )
      {
         v = ( pos_ < in_.size() ) ? in_[pos_] : 0;
         ++pos_;
         v = uint32_t( v % n );
      }
      else
      {
         v = uint32_t( ( static_cast<unsigned __int128>( splitmix( rng_ ) ) * n ) >> 64 );
      }
      if ( !record_ )
      {
         return v;
      }
      if ( g_sh->nchoices >= kMaxChoices )
      {
         throw HarnessError{ "too many choices" };
      }
      g_sh->choices[g_sh->nchoices++] = v;
      return v;
   }
   uint32_t Choices::skewed( uint32_t max )
   {
      switch ( draw( 4 ) )
      {
         case 0:
            return draw( std::min<uint64_t>( 4, uint64_t( max ) + 1 ) );
         case 1:
            return draw( std::min<uint64_t>( 20, uint64_t( max ) + 1 ) );
         case 2:
            return draw( uint64_t( max ) / 4 + 1 );
         default:
            return draw( uint64_t( max ) + 1 );
      }
   }
   size_t Choices::weighted( std::initializer_list<uint32_t> w )
   {
      uint32_t total = 0;
      for ( auto x : w )
      {
         total += x;
      }
      uint32_t d = draw( total );
      size_t i = 0;
      for ( auto x : w )
      {
         if ( d < x )
         {
            return i;
         }
         d -= x;
         ++i;
      }
      return 0;
   }

   void fail( const std::string &msg )
   {
      evs( msg );
      throw Violation{ msg };
   }
   void failNow( const std::string &msg )
   {
      evs( msg );
      snprintf( g_sh->msg, sizeof g_sh->msg, "%s", msg.c_str() );
      g_sh->status = 2;
      _exit( 0 );
   }
   void ev( uint64_t a, uint64_t b, uint64_t c )
   {
      uint64_t v[3] = { a, b, c };
      uint64_t h = g_sh->hash;
      for ( uint64_t x : v )
      {
         h = ( h ^ x ) * 0x9E3779B97F4A7C15ULL;
         h ^= h >> 29;
      }
      g_sh->hash = h;
   }
   void evs( const std::string &s )
   {
      ev( hashBytes( s.data(), s.size() ), s.size() );
   }
   void trace( const char *fmt, ... )
   {
      if ( !g_traceOn )
      {
         return;
      }
      va_list ap;
      va_start( ap, fmt );
      size_t room = sizeof( g_sh->trace ) - g_sh->traceLen;
      if ( room > 256 )
      {
         int n = vsnprintf( g_sh->trace + g_sh->traceLen, room - 1, fmt, ap );
         if ( n > 0 )
         {
            g_sh->traceLen += std::min<size_t>( n, room - 2 );
            g_sh->trace[g_sh->traceLen++] = '\n';
         }
      }
      va_end( ap );
   }
   std::string strf( const char *fmt, ... )
   {
      char buf[2048];
      va_list ap;
      va_start( ap, fmt );
      vsnprintf( buf, sizeof buf, fmt, ap );
      va_end( ap );
      return buf;
   }

   static std::vector<std::string> &probeVec()
   {
      static std::vector<std::string> v;
      return v;
   }
   unsigned registerProbe( const char *name )
   {
      auto &v = probeVec();
      for ( unsigned i = 0; i < v.size(); i++ )
      {
         if ( v[i] == name )
         {
            return i;
         }
      }
      v.push_back( name );
      if ( v.size() > kMaxProbes )
      {
         abort();
      }
      return unsigned( v.size() - 1 );
   }
   const std::vector<std::string> &probeNames()
   {
      return probeVec();
   }
   void nontrivial()
   {
      g_sh->nontrivial = 1;
   }

   static std::map<std::string, Family> &fams()
   {
      static std::map<std::string, Family> m;
      return m;
   }
   void registerFamily( const Family &f )
   {
      fams()[f.name] = f;
   }
   const Family *findFamily( const std::string &name )
   {
      auto it = fams().find( name );
      return it == fams().end() ? nullptr : &it->second;
   }
}
