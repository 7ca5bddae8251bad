// C17, C20: the high-level reader and writer.
#include "simple.h"

namespace sim
{
   using namespace e57;
   namespace
   {
      const char *const kPath = "/sim/a.e57";

      SOpts drawSimpleOpts( Choices &c, unsigned profile )
      {
         SOpts o;
         switch ( profile )
         {
            case 0:
            case 1:
               o.maxScans = 1;
               o.maxImages = 1;
               o.maxPoints = 30;
               o.maxImage = 200;
               break;
            case 2:
               o.maxScans = 1;
               o.maxImages = 0;
               o.maxPoints = 4000;
               break;
            case 3:
               o.maxScans = 0;
               o.maxImages = 4;
               o.maxImage = 40000;
               break;
            default:
               o.maxScans = 1 + c.draw( 4 );
               o.maxImages = c.draw( 4 );
               o.maxPoints = c.chance( 1, 2 ) ? 100 : 1000;
         }
         return o;
      }
      std::string summary( const SDoc &d )
      {
         std::string s = strf( "%zu scans, %zu images, %zu steps:", d.scans.size(), d.images.size(), d.steps.size() );
         for ( auto &x : d.scans )
         {
            s += strf( " [scan of %llu points%s%s%s, %zu groups]", (unsigned long long)x.n, x.wide ? " double" : " float", x.ctor ? " library buffers" : "",
                       x.oneShot ? " in one call" : "", x.gid.size() );
         }
         return s;
      }
      // Everything written; an empty string or what went wrong.
      std::string writeAll( SWriting &w, Res &err )
      {
         err = w.open();
         while ( err && w.more() )
         {
            err = w.step();
         }
         if ( err )
         {
            err = w.close();
         }
         return w.bad;
      }
   }

   static void runSimple( Choices &c, unsigned profile )
   {
      auto d = genSimple( c, drawSimpleOpts( c, profile ) );
      trace( "document: %s", summary( *d ).c_str() );
      SWriting w( *d, kPath );
      Res err;
      std::string bad = writeAll( w, err );
      if ( !err )
      {
         fail( "writing a legal file through the high-level interface fails: " + resStr( err ) + strf( " :: step %zu %s", w.pos(), err.what.c_str() ) );
      }
      if ( !bad.empty() )
      {
         fail( bad );
      }
      {
         bool again = true, open = true;
         Res r = lib( [&] {
            open = w.writer()->IsOpen();
            again = w.writer()->Close();
         } );
         if ( !r || open || again )
         {
            fail( "a closed writer does not report itself closed" );
         }
      }
      w.destroy();
      for ( unsigned k = 0; k < 2; k++ )
      {
         std::string diff = verifySimple( kPath, *d, &w, k ? &c : nullptr, false, err );
         if ( !diff.empty() )
         {
            fail( diff );
         }
         if ( !err )
         {
            fail( "reading a file through the high-level interface fails: " + resStr( err ) + " :: " + err.what );
         }
      }
      std::string m = validateFile( g_disk->bytes( kPath ), nullptr );
      if ( !m.empty() )
      {
         fail( "the file is not valid: " + m );
      }
      g_sh->sessions += 3;
      if ( d->steps.size() > 1 )
      {
         nontrivial();
      }
      if ( g_disk->openFds() )
      {
         fail( "a descriptor stayed open" );
      }
   }
   static FamilyReg r17( { "simple", runSimple, 8 } );

   // ------------------------------------------------------------------ C20
   static void simpleWriteFaults( Choices &c, SDoc &d, const std::vector<uint8_t> &clean, const std::vector<OpRec> &log )
   {
      for ( unsigned k = 0; k < 5; k++ )
      {
         g_disk->files.clear();
         g_disk->clearPlan();
         g_disk->planPath = kPath;
         if ( c.chance( 1, 6 ) )
         {
            g_disk->capacity = c.draw( clean.size() + 1 );
            trace( "round %u: disk of %llu bytes (file needs %zu)", k, (unsigned long long)g_disk->capacity, clean.size() );
         }
         else
         {
            g_disk->plan = drawPlan( c, log, PlanWrite );
            trace( "round %u: %s", k, planStr( g_disk->plan ).c_str() );
         }
         // Some sessions are simply dropped before their end.
         const size_t stop = c.chance( 1, 4 ) ? c.draw( d.steps.size() + 1 ) : ~size_t( 0 );
         bool reported = false, closed = false;
         SWriting w( d, kPath );
         Res r = w.open();
         reported = !r;
         while ( r && w.more() && w.pos() < stop )
         {
            r = w.step();
            reported = reported || !r;
         }
         const bool complete = !w.more();
         if ( r && complete && stop == ~size_t( 0 ) )
         {
            r = w.close();
            reported = reported || !r;
            closed = r.ok;
         }
         else if ( w.writer() && c.chance( 1, 2 ) )
         {
            // goes on regardless of what was reported; nothing but survival is promised
            for ( unsigned more = c.draw( 4 ); more && w.more(); more-- )
            {
               w.step();
            }
            if ( c.chance( 1, 2 ) )
            {
               w.close();
            }
            PROBE( "went on after an error or before the end" );
         }
         std::string bad = w.bad;
         const bool tellsOpen = closed && w.writer()->IsOpen();
         w.destroy( c.draw( 2 ) );
         g_sh->sessions++;
         const uint64_t fired = g_disk->firedCount;
         const std::string what = firedStr();
         if ( fired )
         {
            nontrivial();
            PROBE( "high-level write session with a fault that fired" );
         }
         g_disk->clearPlan();
         if ( g_disk->openFds() )
         {
            fail( "a descriptor stayed open after the writer was destroyed" );
         }
         if ( reported )
         {
            PROBE( "fault reported" );
            if ( !fired )
            {
               fail( "a session without a fired fault reported an error" );
            }
            continue;
         }
         if ( !closed )
         {
            PROBE( "writer dropped" );
            continue;
         }
         if ( tellsOpen )
         {
            fail( "a writer that closed says it is open" );
         }
         if ( !bad.empty() )
         {
            fail( bad + " :: " + what );
         }
         if ( fired )
         {
            PROBE( "fault absorbed" );
         }
         if ( !g_disk->exists( kPath ) )
         {
            fail( "Close reported success but the file is missing :: " + what );
         }
         if ( g_disk->bytes( kPath ) == clean )
         {
            continue;
         }
         Res err;
         std::string m = verifySimple( kPath, d, nullptr, nullptr, false, err );
         if ( !m.empty() )
         {
            fail( "Close reported success but the content is wrong :: " + what + " :: " + m );
         }
         if ( !err )
         {
            fail( "Close reported success but the file cannot be read: " + resStr( err ) + " :: " + what );
         }
      }
   }

   static void simpleReadFaults( Choices &c, SDoc &d, const std::vector<uint8_t> &clean )
   {
      for ( unsigned k = 0; k < 4; k++ )
      {
         const uint64_t seed = c.sub();
         g_disk->files.clear();
         g_disk->put( kPath, clean );
         g_disk->clearPlan();
         g_disk->logOps = true;
         g_disk->log.clear();
         Res err;
         {
            Choices q = Choices::quiet( seed );
            std::string m = verifySimple( kPath, d, nullptr, &q, true, err );
            if ( !m.empty() || !err )
            {
               throw Unsuitable{}; // C17's business
            }
         }
         std::vector<OpRec> log;
         log.swap( g_disk->log );
         g_disk->logOps = false;
         g_disk->clearPlan();
         g_disk->planPath = kPath;
         g_disk->plan = drawPlan( c, log, PlanRead );
         trace( "round %u: %s", k, planStr( g_disk->plan ).c_str() );
         Choices q = Choices::quiet( seed );
         std::string m = verifySimple( kPath, d, nullptr, &q, true, err );
         g_sh->sessions += 2;
         const uint64_t fired = g_disk->firedCount;
         const std::string what = firedStr();
         g_disk->clearPlan();
         if ( fired )
         {
            nontrivial();
            PROBE( "high-level read session with a fault that fired" );
         }
         if ( !m.empty() )
         {
            fail( "the reader returned something else than the file holds :: " + what + " :: " + m );
         }
         if ( !err )
         {
            PROBE( "read fault reported" );
            if ( !fired )
            {
               fail( "reading reported an error without a fired fault" );
            }
         }
         if ( g_disk->openFds() )
         {
            fail( "a descriptor stayed open after the reader was destroyed" );
         }
      }
   }

   static void runSimpleFault( Choices &c, unsigned profile )
   {
      SOpts o = drawSimpleOpts( c, profile < 6 ? 0 : profile == 6 ? 3 : 7 );
      o.fixedGuids = true;
      o.maxPoints = std::min<uint64_t>( o.maxPoints, 300 );
      o.maxImage = std::min<uint64_t>( o.maxImage, 6000 );
      if ( profile < 6 )
      {
         o.maxScans = 2;
      }
      auto d = genSimple( c, o );
      trace( "document: %s", summary( *d ).c_str() );
      g_disk->logOps = true;
      std::vector<uint8_t> clean;
      {
         SWriting w( *d, kPath );
         Res err;
         std::string bad = writeAll( w, err );
         w.destroy();
         if ( !err || !bad.empty() )
         {
            throw Unsuitable{}; // C17's business
         }
         clean = g_disk->bytes( kPath );
      }
      std::vector<OpRec> log;
      log.swap( g_disk->log );
      g_disk->logOps = false;
      if ( profile % 2 )
      {
         simpleReadFaults( c, *d, clean );
      }
      else
      {
         simpleWriteFaults( c, *d, clean, log );
      }
   }
   static FamilyReg r20( { "simplefault", runSimpleFault, 8 } );
}
