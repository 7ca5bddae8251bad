// C10: malformed input.
#include "fam.h"

namespace sim
{
   // A file left by a power loss: any subset of the session's writes survived.
   static std::vector<uint8_t> powerLoss( Choices &c, const std::vector<JournalEntry> &j, const std::string &path )
   {
      std::vector<uint8_t> b;
      size_t upto = c.chance( 1, 2 ) ? j.size() : c.draw( j.size() + 1 );
      unsigned keepOf8 = 1 + c.draw( 8 );
      Rng r( c.sub() );
      for ( size_t i = 0; i < upto; i++ )
      {
         auto &e = j[i];
         if ( e.path != path || e.type != JournalEntry::Write )
         {
            continue;
         }
         bool last = i + 3 >= upto;
         if ( r.below( 8 ) >= keepOf8 && !last )
         {
            // size change survives, data does not
            if ( b.size() < e.off + e.data.size() )
            {
               b.resize( e.off + e.data.size() );
            }
            continue;
         }
         if ( b.size() < e.off + e.data.size() )
         {
            b.resize( e.off + e.data.size() );
         }
         memcpy( &b[e.off], e.data.data(), e.data.size() );
      }
      return b;
   }
   static void runHostile( Choices &c, unsigned profile )
   {
      GenOpts o = profile < 6 ? smallOpts( c ) : drawOpts( c, c.draw( 8 ) );
      if ( profile & 1 )
      {
         o.forceCV = 1 + int( c.draw( 2 ) );
      }
      auto d = genDoc( c, o );
      trace( "document: %s", docSummary( *d ).c_str() );
      const char *path = "/sim/a.e57";
      g_disk->journalOn = true;
      bool own = c.chance( 1, 3 );
      std::vector<uint8_t> clean;
      if ( own )
      {
         Choices q = Choices::quiet( c.sub() );
         clean = encodeDoc( *d, q, LayoutOpts() );
      }
      else
      {
         writeClean( *d, path );
         clean = g_disk->bytes( path );
      }
      std::vector<JournalEntry> j;
      j.swap( g_disk->journal );
      g_disk->journalOn = false;
      unsigned rounds = profile < 6 ? 6 : 3;
      for ( unsigned k = 0; k < rounds; k++ )
      {
         std::vector<uint8_t> b = clean;
         std::string what;
         if ( !own && c.chance( 1, 10 ) )
         {
            b = powerLoss( c, j, path );
            what = " survivor of a power loss";
            PROBE( "fault:power loss" );
            if ( b.size() % 1024 == 0 && c.chance( 1, 2 ) )
            {
               sealPages( b );
            }
         }
         else
         {
            what = mutateFile( c, b );
         }
         DumpOpts dop;
         static const unsigned ch[] = { 64, 1, 7, 1000 };
         dop.chunk = ch[c.draw( 4 )];
         dop.policy = c.chance( 1, 2 ) ? 100 : int( c.draw( 101 ) );
         dop.maxRecords = 20000;
         dop.maxNodes = 6000;
         dop.strConv = c.chance( 1, 4 );
         bool mem = c.chance( 1, 3 );
         trace( "round %u:%s (%zu bytes) policy %d %s", k, what.c_str(), b.size(), dop.policy, mem ? "memory" : "file" );
         g_disk->clearPlan();
         g_disk->put( path, b );
         nontrivial();
         PROBE( "hostile input read" );
         g_disk->opCap = g_disk->ops + 3000000;
         int64_t live0 = g_alloc.liveBytes;
         g_alloc.peakBytes = live0;
         g_alloc.capBytes = live0 + ( int64_t( 300 ) << 20 );
         g_alloc.capHit = false;
         std::unique_ptr<uint8_t[]> copy( new uint8_t[b.size() + 1] );
         memcpy( copy.get(), b.data(), b.size() );
         Dump du = mem ? dumpBuffer( reinterpret_cast<const char *>( copy.get() ), b.size(), dop ) : dumpFile( path, dop );
         g_sh->sessions++;
         if ( g_alloc.capHit )
         {
            fail( strf( "reading a file of %zu bytes asked for more than 300 MB :: ", b.size() ) + what );
         }
         g_alloc.capBytes = int64_t( 1 ) << 62;
         g_disk->opCap = ~0ULL;
         if ( !g_disk->outside.empty() )
         {
            fail( "reading a file reached for " + g_disk->outside[0] + " :: " + what );
         }
         if ( du.opened )
         {
            PROBE( "hostile input opened" );
         }
         else
         {
            PROBE( "hostile input refused" );
            if ( du.openRes.foreign )
            {
               fail( "opening a malformed file threw " + resStr( du.openRes ) + " :: " + what );
            }
         }
         for ( auto &x : du.obs )
         {
            if ( !x.ok )
            {
               PROBE( "hostile input: query reported an exception" );
            }
            if ( x.foreign )
            {
               fail( "reading a malformed file threw " + x.detail + " :: " + x.what + " :: " + what );
            }
         }
      }
   }
   static FamilyReg r10( { "hostile", runHostile, 8 } );
}
