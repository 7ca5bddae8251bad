// C02, C03, C06, C08: writing sessions under disk faults, crashes and abandonment; structural validity.
#include "fam.h"

namespace sim
{
   // ------------------------------------------------------------------ C02
   static void runWriteFault( Choices &c, unsigned profile )
   {
      GenOpts o = profile < 6 ? smallOpts( c ) : drawOpts( c, c.draw( 8 ) );
      auto d = genDoc( c, o );
      trace( "document: %s", docSummary( *d ).c_str() );
      const char *path = "/sim/a.e57";
      g_disk->logOps = true;
      writeClean( *d, path );
      std::vector<OpRec> log;
      log.swap( g_disk->log );
      g_disk->logOps = false;
      std::vector<uint8_t> clean = g_disk->bytes( path );
      unsigned rounds = profile < 6 ? 6 : 2;
      for ( unsigned k = 0; k < rounds; k++ )
      {
         g_disk->files.clear();
         g_disk->clearPlan();
         g_disk->planPath = path;
         if ( c.chance( 1, 6 ) )
         {
            g_disk->capacity = c.draw( clean.size() + 1 );
            trace( "round %u: disk of %llu bytes (file needs %zu)", k, (unsigned long long)g_disk->capacity, clean.size() );
         }
         else
         {
            g_disk->plan = drawPlan( c, log, PlanWrite );
            trace( "round %u: %s", k, planStr( g_disk->plan ).c_str() );
         }
         bool reported = false, closed = false;
         std::string mism;
         {
            WriteSession w( *d, path );
            Res r = w.open();
            reported = !r;
            while ( r && w.more() )
            {
               r = w.step();
               if ( !r )
               {
                  reported = true;
               }
            }
            if ( r )
            {
               r = w.close();
               reported = reported || !r;
               closed = r.ok;
            }
            else if ( w.imf() && c.chance( 1, 2 ) )
            {
               if ( c.chance( 1, 2 ) )
               {
                  PROBE( "went on after an error" );
                  while ( w.more() )
                  {
                     // an error was already reported; going on anyway must neither crash nor hang
                     if ( !w.step() && !( c.chance( 1, 4 ) && w.step() ) )
                     {
                        w.skip();
                     }
                  }
               }
               w.close();
            }
            mism = w.readMismatch;
            w.destroy();
         }
         g_sh->sessions++;
         uint64_t fired = g_disk->firedCount;
         std::string what = firedStr();
         if ( fired )
         {
            nontrivial();
            PROBE( "write session with a fault that fired" );
         }
         g_disk->clearPlan();
         if ( reported )
         {
            PROBE( "fault reported" );
            if ( !fired )
            {
               fail( "a session without a fired fault reported an error" );
            }
            continue;
         }
         if ( fired )
         {
            PROBE( "fault absorbed" );
         }
         if ( !mism.empty() )
         {
            fail( "wrong data read back while writing after an unreported fault :: " + what + " :: " + mism );
         }
         if ( !closed || !g_disk->exists( path ) )
         {
            fail( "close reported success but the file is missing :: " + what );
         }
         if ( g_disk->bytes( path ) == clean )
         {
            continue;
         }
         Res err;
         std::string m = openAndVerify( path, *d, nullptr, err );
         if ( !err )
         {
            fail( "close reported success but the file cannot be read: " + resStr( err ) + " :: " + what );
         }
         if ( !m.empty() )
         {
            fail( "close reported success but the content is wrong :: " + what + " :: " + m );
         }
         m = validateFile( g_disk->bytes( path ), d.get() );
         if ( !m.empty() )
         {
            fail( "close reported success but the file is not valid :: " + what + " :: " + m );
         }
      }
   }

   // ------------------------------------------------------------------ C03
   static void runCrash( Choices &c, unsigned profile )
   {
      GenOpts o = profile < 5 ? smallOpts( c ) : drawOpts( c, c.draw( 8 ) );
      auto d = genDoc( c, o );
      trace( "document: %s", docSummary( *d ).c_str() );
      const char *path = "/sim/a.e57";
      std::vector<uint8_t> before;
      if ( c.chance( 1, 3 ) )
      {
         // the path may already hold an older finished file
         Choices q = Choices::quiet( c.sub() );
         GenOpts so = smallOpts( q );
         auto old = genDoc( q, so );
         writeClean( *old, path );
         before = g_disk->bytes( path );
      }
      g_disk->journalOn = true;
      writeClean( *d, path );
      std::vector<JournalEntry> j;
      j.swap( g_disk->journal );
      g_disk->journalOn = false;
      std::vector<uint8_t> final = g_disk->bytes( path );
      unsigned points = profile < 5 ? 14 : 6;
      for ( unsigned k = 0; k < points; k++ )
      {
         size_t n;
         switch ( c.draw( 5 ) )
         {
            case 0:
            case 1:
               n = j.size() - 1 - c.draw( std::min<size_t>( j.size(), 8 ) );
               break;
            case 2:
               n = j.size() - c.draw( std::min<size_t>( j.size(), 80 ) );
               break;
            case 3:
               n = c.draw( std::min<size_t>( j.size(), 20 ) );
               break;
            default:
               n = c.draw( j.size() + 1 );
         }
         size_t torn = 0;
         if ( n < j.size() && !j[n].data.empty() && c.chance( 2, 3 ) )
         {
            switch ( c.draw( 4 ) )
            {
               case 0:
                  torn = c.draw( std::min<size_t>( j[n].data.size(), 60 ) );
                  break;
               case 1:
                  torn = j[n].data.size() - 1 - c.draw( std::min<size_t>( j[n].data.size(), 8 ) );
                  break;
               default:
                  torn = c.draw( j[n].data.size() );
            }
         }
         auto fs = crashImage( j, n, torn );
         g_disk->files.clear();
         if ( n == 0 && !before.empty() )
         {
            g_disk->put( path, before );
            continue; // nothing was touched yet
         }
         if ( !fs.count( path ) )
         {
            continue;
         }
         const std::vector<uint8_t> img = fs[path];
         g_disk->put( path, img );
         trace( "crash %u: after %zu of %zu disk writes, %zu bytes of the next; %zu of %zu bytes on disk", k, n, j.size(), torn, img.size(), final.size() );
         nontrivial();
         PROBE( "fault:crash" );
         if ( torn )
         {
            PROBE( "fault:torn write at crash" );
         }
         static const int pol[] = { 100, 100, 100, 0, 25, 50 };
         int policy = pol[c.draw( 6 )];
         Res err;
         std::unique_ptr<e57::ImageFile> imf;
         err = lib( [&] { imf.reset( new e57::ImageFile( path, "r", policy ) ); } );
         g_sh->sessions++;
         if ( !err )
         {
            PROBE( "crash image refused" );
            if ( err.foreign )
            {
               fail( "opening a crash image threw " + resStr( err ) );
            }
            if ( img == final )
            {
               fail( "the complete file is refused: " + resStr( err ) );
            }
         }
         else
         {
            PROBE( "crash image opened" );
            std::string m = verifyFile( *imf, *d, nullptr, VerifyOpts(), err );
            if ( !err )
            {
               fail( strf( "a crash image opens but cannot be read: %s :: crash after %zu of %zu writes + %zu bytes, policy %d", resStr( err ).c_str(), n,
                           j.size(), torn, policy ) );
            }
            if ( !m.empty() )
            {
               fail( strf( "a crash image opens with wrong content :: crash after %zu of %zu writes + %zu bytes, policy %d :: ", n, j.size(), torn, policy ) + m );
            }
         }
         lib( [&] { imf.reset(); } );
         if ( !g_disk->exists( path ) || g_disk->bytes( path ) != img )
         {
            fail( "opening a crash image for reading changed the file" );
         }
         // restart: the session runs again over the leftover
         if ( k % 4 == 3 )
         {
            WriteSession w( *d, path );
            Res r = w.runAll();
            w.destroy();
            g_sh->sessions++;
            PROBE( "restart over the leftover" );
            if ( !r )
            {
               fail( "restarting the session over the leftover failed: " + resStr( r ) );
            }
            if ( g_disk->bytes( path ) != final )
            {
               fail( "restarting the session over the leftover gives other bytes than a fresh session" );
            }
         }
      }
   }

   // ------------------------------------------------------------------ C06
   static void checkReaderLeavesFile( Choices &c, Doc &d, const std::string &path )
   {
      auto bytes = g_disk->bytes( path );
      std::unique_ptr<e57::ImageFile> imf;
      bool fault = c.chance( 1, 3 );
      if ( fault )
      {
         g_disk->clearPlan();
         g_disk->planPath = path;
         PlannedFault f{};
         f.at = c.draw( 200 );
         f.kind = c.chance( 1, 2 ) ? FErr : FShort;
         f.arg = c.draw( 1024 );
         f.span = c.chance( 1, 4 ) ? ~0u : 1;
         f.onlyKind = -1;
         g_disk->plan.push_back( f );
      }
      Res r = lib( [&] { imf.reset( new e57::ImageFile( path, "r" ) ); } );
      if ( r )
      {
         Res err;
         if ( c.chance( 1, 2 ) )
         {
            verifyFile( *imf, d, &c, VerifyOpts(), err );
         }
         unsigned n = c.draw( 4 );
         for ( unsigned i = 0; i < n; i++ )
         {
            bool cancel = c.chance( 1, 2 );
            Res x = lib( [&] { cancel ? imf->cancel() : imf->close(); } );
            trace( "%s a reading handle -> %s", cancel ? "cancel" : "close", resStr( x ).c_str() );
            if ( !x && !fault )
            {
               fail( strf( "%s on a reading handle failed: ", cancel ? "cancel" : "close" ) + resStr( x ) );
            }
         }
      }
      lib( [&] { imf.reset(); } );
      g_disk->clearPlan();
      PROBE( "reading handle ended" );
      if ( !g_disk->exists( path ) )
      {
         fail( "a reading session removed the file" );
      }
      if ( g_disk->bytes( path ) != bytes )
      {
         fail( "a reading session changed the file" );
      }
      if ( g_disk->wroteReadOnly )
      {
         fail( "a reading session tried to write" );
      }
   }
   static void runAbandon( Choices &c, unsigned profile )
   {
      GenOpts o = profile < 6 ? smallOpts( c ) : drawOpts( c, c.draw( 8 ) );
      auto d = genDoc( c, o );
      trace( "document: %s", docSummary( *d ).c_str() );
      const char *path = "/sim/a.e57";
      g_disk->logOps = true;
      writeClean( *d, path );
      std::vector<OpRec> log;
      log.swap( g_disk->log );
      g_disk->logOps = false;
      checkReaderLeavesFile( c, *d, path );
      unsigned rounds = 5;
      for ( unsigned k = 0; k < rounds; k++ )
      {
         bool leftover = c.chance( 1, 3 );
         if ( !leftover )
         {
            g_disk->files.clear();
         }
         g_disk->clearPlan();
         g_disk->planPath = path;
         bool faults = c.chance( 1, 2 );
         if ( faults )
         {
            g_disk->plan = drawPlan( c, log, PlanWrite );
         }
         size_t stopAt = c.chance( 1, 4 ) ? d->steps.size() : c.draw( d->steps.size() + 1 );
         trace( "round %u: abandon after step %zu of %zu%s%s", k, stopAt, d->steps.size(), faults ? ", faults: " : "", planStr( g_disk->plan ).c_str() );
         WriteSession w( *d, path );
         Res r = w.open();
         if ( !r )
         {
            PROBE( "open for writing failed" );
            continue; // no session came into being
         }
         bool failed = false, closedOk = false;
         while ( r && w.more() && w.pos() < stopAt )
         {
            r = w.step();
         }
         failed = !r;
         bool closeTried = false;
         if ( ( r && w.pos() >= d->steps.size() && c.chance( 1, 2 ) ) || ( failed && c.chance( 1, 2 ) ) )
         {
            Res cl = w.close();
            closeTried = true;
            closedOk = cl.ok;
         }
         unsigned cancels = c.draw( 3 );
         bool cancelOk = false;
         for ( unsigned i = 0; i < cancels; i++ )
         {
            Res x = w.cancel();
            cancelOk = cancelOk || x.ok;
            if ( !x && !g_disk->firedCount )
            {
               fail( "cancel of a writing session failed: " + resStr( x ) );
            }
            if ( !x && cancelOk )
            {
               fail( "a repeated cancel failed: " + resStr( x ) );
            }
            if ( x && !closedOk && g_disk->exists( path ) && !g_disk->unlinkFaults )
            {
               fail( "cancel returned but the file is still there" );
            }
         }
         if ( c.chance( 1, 2 ) )
         {
            g_disk->plan.clear(); // the fault clears before the handles go away
         }
         std::string what;
         w.destroy( c.draw( 3 ) );
         what = firedStr();
         g_sh->sessions++;
         nontrivial();
         if ( failed )
         {
            PROBE( "abandoned after a failed call" );
         }
         if ( closeTried && !closedOk )
         {
            PROBE( "abandoned after a failed close" );
         }
         if ( closedOk )
         {
            PROBE( "cancel after successful close" );
            if ( !g_disk->exists( path ) )
            {
               fail( "cancel after a successful close removed the finished file" );
            }
            continue;
         }
         // the removal itself may be what fails
         if ( g_disk->exists( path ) && !g_disk->unlinkFaults )
         {
            fail( std::string( "an abandoned writing session left its file :: " ) + ( closeTried ? "after a failed close" : failed ? "after a failed call" : "" ) +
                  ( cancels ? " cancelled" : " destroyed" ) + " :: " + what );
         }
         PROBE( "abandoned session left nothing" );
      }
   }

   // ------------------------------------------------------------------ C08
   // Two uses that the library allows and does not store properly (known_findings.txt): records that never get a writer, and a
   // blob made between the opening and the closing of a writer.
   static bool makeOddUse( Choices &c, Doc &d, bool &noWriter )
   {
      noWriter = c.chance( 1, 2 );
      if ( d.cvs.empty() )
      {
         return false;
      }
      DNode *cv = d.cvs[c.draw( d.cvs.size() )];
      if ( noWriter )
      {
         std::vector<Step> left;
         for ( auto &s : d.steps )
         {
            if ( s.n != cv || s.op == SCreate || s.op == SAttach )
            {
               left.push_back( s );
            }
         }
         d.steps = left;
         d.totalRecords -= cv->nrec;
         cv->nrec = 0;
         for ( auto &k : cv->cols )
         {
            k = Column();
         }
         return true;
      }
      size_t open = d.steps.size(), close = 0;
      std::vector<size_t> makes;
      for ( size_t i = 0; i < d.steps.size(); i++ )
      {
         auto &s = d.steps[i];
         if ( s.n == cv && s.op == SOpenWriter )
         {
            open = i;
         }
         if ( s.n == cv && s.op == SCloseWriter )
         {
            close = i;
         }
         if ( close && s.op == SCreate && s.n->kind == KBlob )
         {
            makes.push_back( i );
         }
      }
      if ( makes.empty() || close <= open )
      {
         return false;
      }
      size_t from = makes[c.draw( makes.size() )], to = open + 1 + c.draw( close - open );
      Step s = d.steps[from];
      d.steps.erase( d.steps.begin() + ptrdiff_t( from ) );
      d.steps.insert( d.steps.begin() + ptrdiff_t( to ), s );
      return true;
   }

   static void runValid( Choices &c, unsigned profile )
   {
      GenOpts o = drawOpts( c, profile );
      auto d = genDoc( c, o );
      bool noWriter = false;
      const bool odd = c.chance( 1, 40 ) && makeOddUse( c, *d, noWriter );
      trace( "document: %s", docSummary( *d ).c_str() );
      const char *path = "/sim/a.e57";
      WriteSession w( *d, path );
      Res r = w.runAll();
      w.destroy();
      g_sh->sessions++;
      if ( !r )
      {
         PROBE( "unsuitable: fault-free write failed" );
         throw Unsuitable{};
      }
      std::string m = validateFile( g_disk->bytes( path ), d.get() );
      if ( !m.empty() )
      {
         fail( ( !odd ? "closed file is not valid: " : noWriter ? "records without a writer: " : "a blob made while records are written: " ) + m );
      }
      nontrivial();
   }

   static FamilyReg r2( { "writefault", runWriteFault, 8 } );
   static FamilyReg r3( { "crash", runCrash, 8 } );
   static FamilyReg r6( { "abandon", runAbandon, 8 } );
   static FamilyReg r8( { "valid", runValid, 11 } );
}
