// C07: descriptors and memory over repeated sessions. C18: failing allocations.
#include "alloc.h"
#include "fam.h"

namespace sim
{
   struct Prepared
   {
      std::shared_ptr<Doc> doc;
      std::string path;
      std::vector<uint8_t> bytes;
      std::vector<OpRec> wlog, rlog;
   };
   static Prepared prepare( Choices &c, const GenOpts &o, const char *path )
   {
      Prepared p;
      p.doc = genDoc( c, o );
      p.path = path;
      trace( "document for %s: %s", path, docSummary( *p.doc ).c_str() );
      g_disk->logOps = true;
      writeClean( *p.doc, path );
      p.wlog.swap( g_disk->log );
      p.bytes = g_disk->bytes( path );
      Res err;
      std::string m = openAndVerify( path, *p.doc, nullptr, err );
      p.rlog.swap( g_disk->log );
      g_disk->logOps = false;
      if ( !m.empty() || !err )
      {
         PROBE( "unsuitable: fault-free read failed" );
         throw Unsuitable{};
      }
      return p;
   }

   // A reading session with handles of all kinds, ended by dropping them in a drawn order.
   static Res readAndDrop( Choices &c, Prepared &p, const char *buffer, size_t size, bool orderly )
   {
      std::unique_ptr<e57::ImageFile> imf;
      int policy = c.chance( 1, 2 ) ? 100 : int( c.draw( 101 ) );
      Res r = lib( [&] {
         if ( buffer )
         {
            imf.reset( new e57::ImageFile( buffer, size, policy ) );
         }
         else
         {
            imf.reset( new e57::ImageFile( p.path, "r", policy ) );
         }
      } );
      trace( "  open -> %s", resStr( r ).c_str() );
      if ( !r )
      {
         return r;
      }
      auto paths = docPaths( *p.doc );
      std::vector<std::unique_ptr<e57::Node>> nodes;
      std::vector<std::unique_ptr<StepReader>> readers;
      Res first = r;
      unsigned actions = 1 + c.draw( 6 );
      for ( unsigned a = 0; a < actions; a++ )
      {
         switch ( c.draw( 4 ) )
         {
            case 0:
            case 1:
               if ( !p.doc->cvs.empty() )
               {
                  if ( readers.size() && c.chance( 3, 4 ) )
                  {
                     auto &last = *readers.back();
                     if ( last.handle() )
                     {
                        Res x = last.close();
                        if ( !x && first )
                        {
                           first = x;
                        }
                     }
                  }
                  auto cvs = p.doc->cvs;
                  DNode *n = cvs[c.draw( cvs.size() )];
                  readers.emplace_back( new StepReader( *imf, *n, paths[n], &c ) );
                  Res x = readers.back()->open();
                  unsigned steps = c.draw( 4 );
                  std::string bad;
                  for ( unsigned s = 0; x && s < steps && bad.empty(); s++ )
                  {
                     x = readers.back()->step( bad );
                  }
                  if ( !x && first )
                  {
                     first = x;
                  }
               }
               break;
            case 2:
            {
               auto it = paths.begin();
               std::advance( it, c.draw( paths.size() ) );
               nodes.emplace_back();
               Res x = lib( [&] { nodes.back().reset( new e57::Node( imf->root().get( it->second ) ) ); } );
               if ( !x && first )
               {
                  first = x;
               }
               break;
            }
            default:
            {
               auto bl = p.doc->blobs;
               if ( !bl.empty() )
               {
                  DNode *b = bl[c.draw( bl.size() )];
                  uint64_t n = b->blob.size();
                  uint64_t s = c.draw( n + 1 );
                  std::string bad;
                  Res x = readBlobRange( *imf, paths[b], *b, s, c.draw( n - s + 1 ), bad );
                  if ( !x && first )
                  {
                     first = x;
                  }
               }
            }
         }
      }
      bool close = orderly || c.chance( 1, 2 );
      unsigned order = c.draw( 4 );
      trace( "  end: %s, order %u", close ? "close" : "drop", order );
      if ( close && order != 2 )
      {
         for ( auto &x : readers )
         {
            if ( order & 1 )
            {
               x->destroy();
            }
         }
         Res x = lib( [&] { imf->close(); } );
         if ( !x && first )
         {
            first = x;
         }
      }
      switch ( order )
      {
         case 0: // image file first
            lib( [&] { imf.reset(); } );
            lib( [&] { nodes.clear(); } );
            readers.clear();
            break;
         case 1: // readers, nodes, file
            readers.clear();
            lib( [&] { nodes.clear(); } );
            lib( [&] { imf.reset(); } );
            break;
         case 2: // nodes, file, readers
            lib( [&] { nodes.clear(); } );
            lib( [&] { imf.reset(); } );
            while ( !readers.empty() )
            {
               readers.pop_back();
            }
            break;
         default: // file, readers in order of making, nodes one by one
            lib( [&] { imf.reset(); } );
            while ( !readers.empty() )
            {
               readers.erase( readers.begin() );
            }
            while ( !nodes.empty() )
            {
               lib( [&] { nodes.erase( nodes.begin() ); } );
            }
      }
      return first;
   }

   static void writeAndDrop( Choices &c, Prepared &p, const std::string &path )
   {
      size_t stopAt = c.chance( 1, 3 ) ? p.doc->steps.size() : c.draw( p.doc->steps.size() + 1 );
      WriteSession w( *p.doc, path );
      Res r = w.open();
      while ( r && w.more() && w.pos() < stopAt )
      {
         r = w.step();
      }
      unsigned end = c.draw( 4 );
      if ( w.imf() )
      {
         if ( end == 1 || end == 3 )
         {
            w.close();
         }
         if ( end >= 2 )
         {
            w.cancel();
         }
      }
      trace( "  end %u at step %zu", end, w.pos() );
      w.destroy( c.draw( 3 ) );
   }

   static std::string openFailure( Choices &c, Prepared &p )
   {
      unsigned k = c.draw( 7 );
      static const char *names[] = { "no such file", "bad mode", "odd size", "null buffer", "empty file", "no memory buffer", "two handles, one bad" };
      std::vector<uint8_t> odd;
      if ( k == 2 )
      {
         odd = p.bytes;
         odd.resize( odd.size() - 1 - c.draw( 1023 ) );
      }
      if ( k == 5 )
      {
         odd.assign( p.bytes.begin(), p.bytes.begin() + long( c.draw( p.bytes.size() ) ) );
      }
      g_disk->put( "/sim/odd.e57", odd );
      unsigned pick = c.draw( 2 );
      Res r = lib( [&] {
         switch ( k )
         {
            case 0:
            {
               e57::ImageFile f( "/sim/missing.e57", "r" );
               break;
            }
            case 1:
            {
               e57::ImageFile f( "/sim/x.e57", pick ? "rw" : "" );
               break;
            }
            case 2:
            {
               e57::ImageFile f( "/sim/odd.e57", "r" );
               break;
            }
            case 3:
            {
               e57::ImageFile f( nullptr, 0 );
               break;
            }
            case 4:
            {
               e57::ImageFile f( "/sim/odd.e57", "r" );
               break;
            }
            case 5:
            {
               e57::ImageFile f( reinterpret_cast<const char *>( odd.data() ), odd.size() );
               break;
            }
            default:
            {
               e57::ImageFile g( p.path, "r" );
               e57::ImageFile f( "/sim/missing.e57", "r" );
            }
         }
      } );
      g_disk->files.erase( "/sim/odd.e57" );
      g_disk->files.erase( "/sim/x.e57" );
      return std::string( names[k] ) + " -> " + resStr( r );
   }

   static void conserved( uint64_t seq, const std::string &after )
   {
      if ( !g_disk->misuse.empty() )
      {
         fail( "descriptor misuse: " + g_disk->misuse[0] + " :: after " + after );
      }
      if ( g_disk->openFds() )
      {
         fail( "a descriptor stays open after all objects are gone :: after " + after );
      }
      int64_t n = liveSince( seq );
      if ( n )
      {
         fail( strf( "memory stays allocated after all objects are gone: " ) + describeLive( seq ) + " :: " + strf( "%lld blocks, ", (long long)n ) +
               "after " + after );
      }
   }

   static void runResources( Choices &c, unsigned profile )
   {
      std::vector<Prepared> ps;
      ps.push_back( prepare( c, profile < 6 ? smallOpts( c ) : drawOpts( c, c.draw( 8 ) ), "/sim/a.e57" ) );
      if ( c.chance( 1, 2 ) )
      {
         ps.push_back( prepare( c, smallOpts( c ), "/sim/b.e57" ) );
      }
      unsigned n = 3 + c.draw( profile < 6 ? 4 : 2 );
      uint64_t seq = allocSeq();
      for ( unsigned k = 0; k < n; k++ )
      {
         Prepared &p = ps[c.draw( ps.size() )];
         unsigned kind = c.weighted( { 5, 6, 4, 2, 2 } );
         g_disk->clearPlan();
         bool faults = kind != 3 && c.chance( 2, 3 );
         if ( faults )
         {
            g_disk->plan = drawPlan( c, kind == 0 ? p.wlog : p.rlog, kind == 0 ? PlanWrite : PlanRead );
         }
         std::string what;
         switch ( kind )
         {
            case 0:
               what = "a writing session";
               trace( "%u: %s, %s", k, what.c_str(), planStr( g_disk->plan ).c_str() );
               writeAndDrop( c, p, "/sim/w.e57" );
               break;
            case 1:
               what = "a reading session";
               trace( "%u: %s, %s", k, what.c_str(), planStr( g_disk->plan ).c_str() );
               readAndDrop( c, p, nullptr, 0, false );
               break;
            case 2:
            {
               std::vector<uint8_t> b = p.bytes;
               what = "reading a malformed file:" + mutateFile( c, b );
               trace( "%u: %s, %s", k, what.c_str(), planStr( g_disk->plan ).c_str() );
               g_disk->put( "/sim/h.e57", b );
               DumpOpts o;
               o.maxRecords = 5000;
               o.policy = c.chance( 1, 2 ) ? 100 : int( c.draw( 101 ) );
               if ( c.chance( 1, 2 ) )
               {
                  dumpFile( "/sim/h.e57", o );
               }
               else
               {
                  dumpBuffer( reinterpret_cast<const char *>( b.data() ), b.size(), o );
               }
               break;
            }
            case 3:
               what = "a failed open: " + openFailure( c, p );
               trace( "%u: %s", k, what.c_str() );
               break;
            default:
               what = "reading from memory";
               trace( "%u: %s", k, what.c_str() );
               readAndDrop( c, p, reinterpret_cast<const char *>( p.bytes.data() ), p.bytes.size(), false );
         }
         if ( g_disk->firedCount )
         {
            what += ", " + firedStr();
            PROBE( "session with faults accounted for" );
         }
         else
         {
            PROBE( "session without faults accounted for" );
         }
         g_disk->clearPlan();
         g_disk->files.erase( "/sim/w.e57" );
         g_disk->files.erase( "/sim/h.e57" );
         g_sh->sessions++;
         nontrivial();
         conserved( seq, what );
      }
   }

   // ------------------------------------------------------------------ C18
   static void runNoMem( Choices &c, unsigned profile )
   {
      GenOpts o = smallOpts( c );
      if ( profile >= 4 )
      {
         o.forceCV = 1;
      }
      Prepared p = prepare( c, o, "/sim/a.e57" );
      Prepared other = prepare( c, smallOpts( c ), "/sim/b.e57" );
      unsigned n = 6;
      uint64_t seq = allocSeq();
      for ( unsigned k = 0; k < n; k++ )
      {
         unsigned kind = c.draw( 4 ); // 0 write, 1 read a file, 2 read memory, 3 read and compare everything
         // the same draws with and without the failure
         uint64_t sub = c.sub();
         std::string differs;
         auto session = [&]( bool &closedOk ) {
            Choices q = Choices::quiet( sub );
            closedOk = false;
            Res r;
            r.ok = true;
            if ( kind == 3 )
            {
               Res err;
               differs = openAndVerify( p.path, *p.doc, &q, err );
               return err;
            }
            if ( kind == 0 )
            {
               WriteSession w( *p.doc, "/sim/w.e57" );
               r = w.open();
               while ( r && w.more() )
               {
                  r = w.step();
               }
               if ( r )
               {
                  r = w.close();
                  closedOk = r.ok;
                  if ( !r && q.chance( 1, 2 ) )
                  {
                     Res again = w.close();
                     closedOk = again.ok;
                  }
               }
               else if ( w.imf() && q.chance( 1, 2 ) )
               {
                  // continuing after the failure: whatever it says, nothing may break
                  Res x = w.close();
                  trace( "  close after the failure -> %s", resStr( x ).c_str() );
               }
               w.destroy( q.draw( 3 ) );
            }
            else
            {
               r = readAndDrop( q, p, kind == 2 ? reinterpret_cast<const char *>( p.bytes.data() ) : nullptr, p.bytes.size(), true );
            }
            return r;
         };
         bool ok = false;
         g_alloc.count = 0;
         g_alloc.failAt = ~0ULL;
         g_alloc.armed = true;
         Res base = session( ok );
         g_alloc.armed = false;
         uint64_t total = g_alloc.count;
         conserved( seq, "the session without failures" );
         bool baseClosed = ok;
         g_disk->files.erase( "/sim/w.e57" );
         if ( !total )
         {
            continue;
         }
         g_alloc.failAt = c.draw( total );
         g_alloc.count = 0;
         g_alloc.fired = 0;
         g_alloc.armed = true;
         trace( "%u: kind %u, allocation %llu of %llu fails", k, kind, (unsigned long long)g_alloc.failAt, (unsigned long long)total );
         Res r = session( ok );
         g_alloc.armed = false;
         g_sh->sessions += 2;
         std::string what = strf( "allocation %llu of %llu failing in %s", (unsigned long long)g_alloc.failAt, (unsigned long long)total,
                                  kind == 0 ? "a writing session" : kind == 1 ? "a reading session" : "reading from memory" );
         if ( g_alloc.fired )
         {
            PROBE( "fault:allocation failed" );
            nontrivial();
            if ( !r && base )
            {
               PROBE( "allocation failure reported" );
            }
         }
         conserved( seq, what );
         if ( !differs.empty() && r )
         {
            fail( "wrong data was read without any report :: " + differs + " :: " + what );
         }
         if ( kind == 0 && ok && g_alloc.fired )
         {
            PROBE( "closed in spite of an allocation failure" );
            Res err;
            std::string m = g_disk->exists( "/sim/w.e57" ) ? openAndVerify( "/sim/w.e57", *p.doc, nullptr, err ) : "the file is missing";
            if ( !m.empty() || !err )
            {
               fail( "close reported success but the file is incomplete :: " + ( m.empty() ? resStr( err ) : m ) + " :: " + what );
            }
         }
         // the same with memory available
         g_disk->files.erase( "/sim/w.e57" );
         Res again = session( ok );
         if ( again.ok != base.ok || again.err != base.err || ok != baseClosed )
         {
            fail( "repeating the session with memory available: " + resStr( again ) + ", before: " + resStr( base ) + " :: " + what );
         }
         if ( kind == 0 && ok && g_disk->bytes( "/sim/w.e57" ) != p.bytes )
         {
            fail( "repeating the session with memory available gave a different file :: " + what );
         }
         g_disk->files.erase( "/sim/w.e57" );
         if ( c.chance( 1, 4 ) )
         {
            Res err;
            std::string m = openAndVerify( other.path, *other.doc, nullptr, err );
            if ( !m.empty() || !err )
            {
               fail( "another file is affected: " + ( m.empty() ? resStr( err ) : m ) + " :: " + what );
            }
         }
         conserved( seq, "the sessions after " + what );
      }
   }

   static FamilyReg r7( { "resources", runResources, 8 } );
   static FamilyReg r18( { "nomem", runNoMem, 8 } );
}
