// C04, C05, C13, C16: reading sessions over damaged files, faulty disks, memory buffers and checksum policies.
#include "fam.h"
#include <sys/mman.h>
#include <unistd.h>

namespace sim
{
   // A read-only copy whose end coincides with an inaccessible page.
   class GuardedBuffer
   {
   public:
      explicit GuardedBuffer( const std::vector<uint8_t> &b )
      {
         size_t pg = size_t( sysconf( _SC_PAGESIZE ) );
         body_ = ( b.size() + pg - 1 ) / pg * pg;
         total_ = body_ + 2 * pg;
         base_ = static_cast<uint8_t *>( mmap( nullptr, total_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ) );
         if ( base_ == MAP_FAILED )
         {
            throw HarnessError{ "mmap" };
         }
         data_ = base_ + pg + body_ - b.size();
         if ( !b.empty() )
         {
            memcpy( data_, b.data(), b.size() );
         }
         mprotect( base_, pg, PROT_NONE );
         mprotect( base_ + pg + body_, pg, PROT_NONE );
         if ( body_ )
         {
            mprotect( base_ + pg, body_, PROT_READ );
         }
         pg_ = pg;
      }
      void damage( const std::vector<uint8_t> &b )
      {
         mprotect( base_ + pg_, body_, PROT_READ | PROT_WRITE );
         memcpy( data_, b.data(), b.size() );
         mprotect( base_ + pg_, body_, PROT_READ );
      }
      ~GuardedBuffer()
      {
         munmap( base_, total_ );
      }
      const char *data() const
      {
         return reinterpret_cast<const char *>( data_ );
      }

   private:
      uint8_t *base_, *data_;
      size_t body_, total_, pg_;
   };

   // A finished file for reading: written by the library or by the independent encoder.
   static std::vector<uint8_t> makeFile( Choices &c, Doc &d, const char *path, bool own )
   {
      if ( own )
      {
         Choices q = Choices::quiet( c.sub() );
         LayoutOpts lo;
         auto b = encodeDoc( d, q, lo );
         g_disk->put( path, b );
         PROBE( "file from the independent encoder" );
         return b;
      }
      writeClean( d, path );
      return g_disk->bytes( path );
   }

   // ------------------------------------------------------------------ damage
   static uint64_t drawPos( Choices &c, const std::vector<uint8_t> &b, const std::vector<FieldPos> &f )
   {
      switch ( c.draw( 4 ) )
      {
         case 0:
            if ( !f.empty() )
            {
               auto &x = f[c.draw( f.size() )];
               uint64_t p = physOf( x.off + c.draw( x.len ) );
               if ( p < b.size() )
               {
                  return p;
               }
            }
            return c.draw( b.size() );
         case 1: // checksum bytes
            return b.size() < 1024 ? c.draw( b.size() ) : c.draw( b.size() / 1024 ) * 1024 + 1020 + c.draw( 4 );
         default:
            return c.draw( b.size() );
      }
   }
   // Pages of `now` that differ from `was` and are not valid pages; false if some differing page happens to be valid.
   static bool damagedPages( const std::vector<uint8_t> &was, const std::vector<uint8_t> &now, std::set<size_t> &out )
   {
      out.clear();
      for ( size_t p = 0; ( p + 1 ) * 1024 <= std::min( was.size(), now.size() ); p++ )
      {
         if ( memcmp( &was[p * 1024], &now[p * 1024], 1024 ) )
         {
            if ( pageOk( now, p ) )
            {
               return false;
            }
            out.insert( p );
         }
      }
      return true;
   }
   static std::string drawDamage( Choices &c, std::vector<uint8_t> &b, const std::vector<FieldPos> &f, bool sameSize )
   {
      std::string s;
      unsigned n = 1 + ( c.chance( 1, 4 ) ? 1 + c.draw( 3 ) : 0 );
      for ( unsigned k = 0; k < n && !b.empty(); k++ )
      {
         uint64_t p = drawPos( c, b, f );
         Rng r( c.sub() );
         switch ( c.draw( sameSize ? 6 : 8 ) )
         {
            case 0:
            {
               unsigned bit = c.draw( 8 );
               b[p] ^= uint8_t( 1u << bit );
               s += strf( " flip bit %u of byte %llu;", bit, (unsigned long long)p );
               PROBE( "fault:bit flip at rest" );
               break;
            }
            case 1:
            {
               unsigned m = 2 + c.draw( 30 );
               uint64_t base = p / 1024 * 1024;
               for ( unsigned i = 0; i < m; i++ )
               {
                  uint64_t q = base + r.below( std::min<uint64_t>( 1024, b.size() - base ) );
                  b[q] ^= uint8_t( 1u << r.below( 8 ) );
               }
               s += strf( " flip %u bits in page %llu;", m, (unsigned long long)( p / 1024 ) );
               PROBE( "fault:bit flips at rest" );
               break;
            }
            case 2:
            {
               unsigned m = 1 + c.draw( 200 );
               for ( uint64_t i = p; i < p + m && i < b.size(); i++ )
               {
                  b[i] = uint8_t( r.next() );
               }
               s += strf( " %u garbage bytes at %llu;", m, (unsigned long long)p );
               PROBE( "fault:garbage burst at rest" );
               break;
            }
            case 3:
            {
               unsigned m = 1 + c.draw( 3 );
               for ( uint64_t i = p / 1024 * 1024; i < ( p / 1024 + m ) * 1024 && i < b.size(); i++ )
               {
                  b[i] = 0;
               }
               s += strf( " zero %u pages at %llu;", m, (unsigned long long)( p / 1024 ) );
               PROBE( "fault:zeroed page at rest" );
               break;
            }
            case 4:
            {
               for ( uint64_t i = p / 1024 * 1024; i < std::min<uint64_t>( ( p / 1024 + 1 ) * 1024, b.size() ); i++ )
               {
                  b[i] = uint8_t( r.next() );
               }
               s += strf( " garbage page %llu;", (unsigned long long)( p / 1024 ) );
               PROBE( "fault:garbage page at rest" );
               break;
            }
            case 5:
            {
               // lost tail of a page write: the rest reads as zero or ones
               uint64_t e = std::min<uint64_t>( ( p / 1024 + 1 ) * 1024, b.size() );
               uint8_t v = c.chance( 1, 2 ) ? 0xFF : 0;
               for ( uint64_t i = p; i < e; i++ )
               {
                  b[i] = v;
               }
               s += strf( " page tail lost from byte %llu;", (unsigned long long)p );
               PROBE( "fault:page tail lost at rest" );
               break;
            }
            case 6:
            {
               size_t to = c.chance( 1, 2 ) ? p / 1024 * 1024 : size_t( p );
               b.resize( to );
               s += strf( " truncate to %zu bytes;", to );
               PROBE( "fault:truncation at rest" );
               break;
            }
            default:
            {
               size_t by = c.chance( 1, 2 ) ? 1024 * ( 1 + c.draw( 3 ) ) : 1 + c.draw( 2000 );
               size_t was = b.size();
               b.resize( was + by );
               for ( size_t i = was; i < b.size(); i++ )
               {
                  b[i] = uint8_t( r.next() );
               }
               s += strf( " append %zu garbage bytes;", by );
               PROBE( "fault:garbage appended at rest" );
               break;
            }
         }
      }
      return s;
   }

   // ------------------------------------------------------------------ C04
   static void runCorrupt( Choices &c, unsigned profile )
   {
      GenOpts o = profile < 6 ? smallOpts( c ) : drawOpts( c, c.draw( 8 ) );
      auto d = genDoc( c, o );
      trace( "document: %s", docSummary( *d ).c_str() );
      const char *path = "/sim/a.e57";
      auto clean = makeFile( c, *d, path, c.chance( 1, 4 ) );
      auto fields = findFields( clean );
      DumpOpts dop;
      dop.chunk = 1 + c.skewed( 200 );
      Dump ref = dumpFile( path, dop );
      if ( !ref.opened )
      {
         throw Unsuitable{};
      }
      for ( auto &x : ref.obs )
      {
         if ( !x.ok )
         {
            PROBE( "unsuitable: the undamaged file does not read" );
            throw Unsuitable{};
         }
      }
      unsigned rounds = profile < 6 ? 6 : 3;
      for ( unsigned k = 0; k < rounds; k++ )
      {
         bool transit = c.chance( 1, 6 );
         bool late = c.chance( 1, 3 );
         std::vector<uint8_t> b = clean;
         std::string what;
         std::set<size_t> pages;
         if ( transit )
         {
            late = false;
         }
         else
         {
            what = drawDamage( c, b, fields, late );
            if ( !damagedPages( clean, b, pages ) || b == clean )
            {
               continue;
            }
         }
         static const int pol[] = { 100, 100, 100, 101, 1000000 };
         int policy = pol[c.draw( 5 )];
         bool mem = !transit && c.chance( 1, 3 );
         trace( "round %u:%s %s%s policy %d", k, transit ? " a bit flips while being read" : what.c_str(), mem ? "memory" : "file", late ? ", after a first reading" : "",
                policy );
         nontrivial();
         g_disk->clearPlan();
         g_disk->put( path, late ? clean : b );
         if ( transit )
         {
            g_disk->planPath = path;
            PlannedFault f{};
            f.at = c.chance( 1, 2 ) ? c.draw( 60 ) : c.draw( 4 * clean.size() / 1024 + 20 );
            f.kind = FFlip;
            f.arg = c.draw( 8192 );
            f.span = c.chance( 1, 4 ) ? 20 : 2;
            f.onlyKind = OpRead;
            g_disk->plan.push_back( f );
         }
         std::unique_ptr<GuardedBuffer> gb;
         if ( mem )
         {
            gb.reset( new GuardedBuffer( late ? clean : b ) );
         }
         std::unique_ptr<e57::ImageFile> imf;
         Res r = lib( [&] {
            imf.reset( mem ? new e57::ImageFile( gb->data(), late ? clean.size() : b.size(), policy ) : new e57::ImageFile( path, "r", policy ) );
         } );
         g_sh->sessions++;
         if ( !r )
         {
            PROBE( "damage refused at open" );
            if ( r.foreign )
            {
               fail( "opening a damaged file threw " + resStr( r ) + " :: " + what );
            }
            if ( late )
            {
               fail( "the undamaged file does not open" );
            }
            g_disk->clearPlan();
            continue;
         }
         PROBE( "damaged file opened" );
         std::unique_ptr<StepReader> sr;
         auto paths = docPaths( *d );
         if ( late )
         {
            // read something first, then the damage happens under the open handle
            if ( !d->cvs.empty() && c.chance( 2, 3 ) )
            {
               DNode *n = d->cvs[c.draw( d->cvs.size() )];
               sr.reset( new StepReader( *imf, *n, paths[n], &c ) );
               Res x = sr->open();
               std::string bad;
               if ( x )
               {
                  sr->step( bad );
               }
            }
            if ( mem )
            {
               gb->damage( b );
            }
            else
            {
               g_disk->files[path]->data = b;
            }
         }
         if ( sr )
         {
            std::string bad;
            while ( !sr->failed && !sr->done() )
            {
               sr->step( bad );
               if ( !bad.empty() )
               {
                  fail( "a damaged file delivered wrong records :: " + what + " :: " + bad );
               }
            }
            sr->destroy();
         }
         if ( c.chance( 1, 2 ) )
         {
            Dump got;
            got.opened = true;
            dumpOpen( *imf, dop, got );
            std::string m = compareDump( ref, got, false );
            if ( !m.empty() )
            {
               fail( "a damaged file delivered altered content :: " + ( transit ? firedStr() : what ) + " :: " + m );
            }
            for ( auto &x : got.obs )
            {
               if ( x.foreign )
               {
                  fail( "reading a damaged file threw " + x.detail + " :: " + what );
               }
               if ( !x.ok )
               {
                  PROBE( "damage reported while reading" );
               }
            }
         }
         else
         {
            Res err;
            VerifyOpts vo;
            std::string m = verifyFile( *imf, *d, &c, vo, err );
            if ( !m.empty() )
            {
               fail( "a damaged file delivered altered content :: " + ( transit ? firedStr() : what ) + " :: " + m );
            }
            if ( !err )
            {
               PROBE( "damage reported while reading" );
               if ( err.foreign )
               {
                  fail( "reading a damaged file threw " + resStr( err ) + " :: " + what );
               }
            }
         }
         // every blob byte range by itself
         for ( auto n : d->blobs )
         {
            if ( n->blob.empty() )
            {
               continue;
            }
            uint64_t s = c.draw( n->blob.size() ), cnt = 1 + c.draw( n->blob.size() - s );
            std::string bad;
            Res x = readBlobRange( *imf, paths[n], *n, s, cnt, bad );
            if ( !bad.empty() )
            {
               fail( "a damaged file delivered altered blob bytes :: " + what + " :: " + bad );
            }
            (void)x;
         }
         Res e = lib( [&] { imf.reset(); } );
         g_disk->clearPlan();
         (void)e;
      }
   }

   // ------------------------------------------------------------------ C05
   static void runReadFault( Choices &c, unsigned profile )
   {
      GenOpts o = profile < 6 ? smallOpts( c ) : drawOpts( c, c.draw( 8 ) );
      if ( profile & 1 )
      {
         o.forceCV = 2;
         o.maxCV = 3;
      }
      auto d = genDoc( c, o );
      trace( "document: %s", docSummary( *d ).c_str() );
      const char *path = "/sim/a.e57";
      auto clean = makeFile( c, *d, path, c.chance( 1, 4 ) );
      auto paths = docPaths( *d );
      Res err;
      g_disk->logOps = true;
      std::string m = openAndVerify( path, *d, nullptr, err );
      std::vector<OpRec> log;
      log.swap( g_disk->log );
      g_disk->logOps = false;
      if ( !err || !m.empty() )
      {
         PROBE( "unsuitable: the undamaged file does not read" );
         throw Unsuitable{};
      }
      unsigned rounds = profile < 6 ? 4 : 2;
      for ( unsigned k = 0; k < rounds; k++ )
      {
         g_disk->clearPlan();
         g_disk->planPath = path;
         g_disk->plan = drawPlan( c, log, PlanRead );
         int policy = c.chance( 1, 3 ) ? int( c.draw( 101 ) ) : 100;
         trace( "round %u: %s, policy %d", k, planStr( g_disk->plan ).c_str(), policy );
         std::unique_ptr<e57::ImageFile> imf;
         Res r = lib( [&] { imf.reset( new e57::ImageFile( path, "r", policy ) ); } );
         g_sh->sessions++;
         std::vector<std::unique_ptr<StepReader>> rd;
         bool afterErr = false;
         auto check = [&]( const char *what, const Res &x, const std::string &bad ) {
            if ( !bad.empty() )
            {
               fail( strf( "%s delivered wrong data under a read fault :: ", what ) + firedStr() + " :: " + bad );
            }
            if ( !x )
            {
               PROBE( "read fault reported" );
               afterErr = true;
               if ( x.foreign )
               {
                  fail( strf( "%s threw %s :: ", what, resStr( x ).c_str() ) + firedStr() );
               }
               if ( !g_disk->firedCount )
               {
                  fail( strf( "%s failed without a fault: ", what ) + resStr( x ) );
               }
            }
            else if ( afterErr )
            {
               PROBE( "correct data after an earlier error on the same handle" );
            }
         };
         check( "open", r, "" );
         if ( r )
         {
            unsigned acts = 3 + c.draw( 14 );
            for ( unsigned a = 0; a < acts; a++ )
            {
               std::string bad;
               switch ( c.weighted( { 4, 6, 2, 3, 1, 1 } ) )
               {
                  case 0:
                     if ( !d->cvs.empty() && rd.empty() ) // one reader at a time per handle
                     {
                        DNode *n = d->cvs[c.draw( d->cvs.size() )];
                        std::unique_ptr<StepReader> s( new StepReader( *imf, *n, paths[n], &c ) );
                        Res x = s->open();
                        check( "opening a record reader", x, "" );
                        if ( x )
                        {
                           rd.push_back( std::move( s ) );
                        }
                     }
                     break;
                  case 1:
                     if ( !rd.empty() )
                     {
                        auto &s = *rd[c.draw( rd.size() )];
                        bool was = s.failed;
                        Res x = s.step( bad );
                        if ( !was )
                        {
                           check( "reading records", x, bad );
                        }
                     }
                     break;
                  case 2:
                     if ( !rd.empty() )
                     {
                        size_t i = c.draw( rd.size() );
                        if ( c.chance( 1, 2 ) )
                        {
                           check( "closing a record reader", rd[i]->close(), "" );
                        }
                        rd[i]->destroy();
                        rd.erase( rd.begin() + long( i ) );
                     }
                     break;
                  case 3:
                     if ( !d->blobs.empty() )
                     {
                        DNode *n = d->blobs[c.draw( d->blobs.size() )];
                        if ( !n->blob.empty() )
                        {
                           uint64_t s = c.draw( n->blob.size() ), cnt = 1 + c.draw( n->blob.size() - s );
                           Res x = readBlobRange( *imf, paths[n], *n, s, cnt, bad );
                           check( "reading a blob", x, bad );
                        }
                     }
                     break;
                  case 4:
                  {
                     rd.clear();
                     Res e;
                     bad = verifyFile( *imf, *d, &c, VerifyOpts(), e );
                     check( "reading the file", e, bad );
                     break;
                  }
                  default:
                  {
                     rd.clear();
                     Dump du;
                     du.opened = true;
                     DumpOpts dop;
                     dumpOpen( *imf, dop, du );
                     for ( auto &x : du.obs )
                     {
                        if ( x.foreign )
                        {
                           fail( "reading threw " + x.detail + " :: " + firedStr() );
                        }
                        afterErr = afterErr || !x.ok;
                     }
                  }
               }
            }
         }
         if ( g_disk->firedCount )
         {
            nontrivial();
            PROBE( "reading session with a fault that fired" );
         }
         std::string what = firedStr();
         g_disk->plan.clear(); // the fault has cleared
         if ( r )
         {
            for ( auto &s : rd )
            {
               std::string bad;
               while ( !s->failed && !s->done() )
               {
                  Res x = s->step( bad );
                  if ( !bad.empty() || !x )
                  {
                     fail( "a reader opened before the fault is wrong after it cleared :: " + what + " :: " + bad + resStr( x ) );
                  }
               }
               if ( s->failed && c.chance( 1, 2 ) )
               {
                  s->step( bad ); // may deliver anything, must not crash
               }
            }
            Res e;
            rd.clear();
            std::string bad = verifyFile( *imf, *d, &c, VerifyOpts(), e );
            if ( !e || !bad.empty() )
            {
               fail( "after the fault cleared the same handle does not deliver the content: " + resStr( e ) + " :: " + what + " :: " + bad );
            }
            Res x = lib( [&] {
               if ( c.chance( 1, 2 ) )
               {
                  imf->close();
               }
               imf.reset();
            } );
            if ( !x )
            {
               fail( "ending a reading session failed after the fault cleared: " + resStr( x ) + " :: " + what );
            }
         }
         if ( g_disk->bytes( path ) != clean )
         {
            fail( "reading changed the file :: " + what );
         }
         Res e;
         std::string bad = openAndVerify( path, *d, nullptr, e );
         if ( !e || !bad.empty() )
         {
            fail( "a new handle after the fault does not deliver the content: " + resStr( e ) + " :: " + what + " :: " + bad );
         }
      }
   }

   // ------------------------------------------------------------------ C13
   static bool sameError( int a, int b ) // e57::ErrorCode
   {
      // a position outside the input may be noticed when seeking or when reading
      auto range = []( int e ) { return e == e57::ErrorSeekFailed || e == e57::ErrorReadFailed || e == e57::ErrorInternal; };
      return a == b || ( range( a ) && range( b ) );
   }
   static std::string obsStr( const Obs &o )
   {
      return o.ok ? o.val.substr( 0, 80 ) : strf( "error %d %s", o.err, o.detail.substr( 0, 80 ).c_str() );
   }
   static void runMemBuf( Choices &c, unsigned profile )
   {
      GenOpts o = profile < 6 ? smallOpts( c ) : drawOpts( c, c.draw( 8 ) );
      auto d = genDoc( c, o );
      trace( "document: %s", docSummary( *d ).c_str() );
      const char *path = "/sim/a.e57";
      auto clean = makeFile( c, *d, path, c.chance( 1, 3 ) );
      auto fields = findFields( clean );
      auto paths = docPaths( *d );
      unsigned rounds = profile < 6 ? 5 : 2;
      for ( unsigned k = 0; k < rounds; k++ )
      {
         std::vector<uint8_t> b = clean;
         std::string what = " undamaged";
         unsigned kind = c.draw( 4 );
         if ( kind )
         {
            what = drawDamage( c, b, fields, false );
            if ( kind == 2 && b.size() % 1024 == 0 )
            {
               sealPages( b ); // damage that the checksums do not show
               what += " resealed";
            }
         }
         DumpOpts dop;
         dop.chunk = 1 + c.skewed( 200 );
         dop.policy = c.chance( 1, 2 ) ? 100 : int( c.draw( 101 ) );
         trace( "round %u:%s policy %d", k, what.c_str(), dop.policy );
         g_disk->put( path, b );
         nontrivial();
         Dump f = dumpFile( path, dop );
         GuardedBuffer gb( b );
         Dump m = dumpBuffer( gb.data(), b.size(), dop );
         g_sh->sessions += 2;
         if ( f.opened != m.opened || ( !f.opened && !sameError( f.openRes.err, m.openRes.err ) ) )
         {
            fail( "opening from memory differs: file " + resStr( f.openRes ) + ", memory " + resStr( m.openRes ) + " :: " + what );
         }
         if ( f.opened )
         {
            PROBE( "both open" );
            for ( size_t i = 0; i < std::min( f.obs.size(), m.obs.size() ); i++ )
            {
               auto &x = f.obs[i], &y = m.obs[i];
               if ( x.what != y.what || x.ok != y.ok || !sameError( x.err, y.err ) || x.val != y.val )
               {
                  fail( "reading from memory differs at " + x.what + ": file " + obsStr( x ) + ", memory " + obsStr( y ) + " :: " + what );
               }
               if ( !x.ok )
               {
                  PROBE( "both report the same error" );
               }
            }
            if ( f.obs.size() != m.obs.size() )
            {
               fail( "reading from memory differs in the number of observations :: " + what );
            }
         }
         else
         {
            PROBE( "both refuse to open" );
         }
         if ( memcmp( gb.data(), b.data(), b.size() ) )
         {
            fail( "the memory buffer was written to" );
         }
         if ( !kind )
         {
            // the same drawn reading history on both
            for ( int pass = 0; pass < 2; pass++ )
            {
               Choices q = Choices::quiet( c.sub() );
               std::unique_ptr<e57::ImageFile> imf;
               Res r = lib( [&] {
                  imf.reset( pass ? new e57::ImageFile( gb.data(), b.size(), dop.policy ) : new e57::ImageFile( path, "r", dop.policy ) );
               } );
               Res err;
               std::string bad = r ? verifyFile( *imf, *d, &q, VerifyOpts(), err ) : "";
               if ( pass && ( !r || !err || !bad.empty() ) )
               {
                  fail( "reading from memory is wrong: " + resStr( r ) + " " + resStr( err ) + " :: " + bad );
               }
               if ( !pass && ( !r || !err || !bad.empty() ) )
               {
                  PROBE( "unsuitable: the undamaged file does not read" );
                  break;
               }
               lib( [&] {
                  if ( q.chance( 1, 2 ) )
                  {
                     q.chance( 1, 2 ) ? imf->close() : imf->cancel();
                  }
                  imf.reset();
               } );
            }
            if ( memcmp( gb.data(), b.data(), b.size() ) )
            {
               fail( "the memory buffer was written to" );
            }
         }
      }
   }

   // ------------------------------------------------------------------ C16
   struct BlobPlace
   {
      DNode *n;
      std::string path;
      uint64_t logical; // of the first blob byte
   };
   static void blobPlaces( const XElem &e, const std::string &p, std::map<std::string, uint64_t> &out )
   {
      auto t = e.attr( "type" );
      if ( t && *t == "Blob" && e.attr( "fileOffset" ) )
      {
         out[p] = logOf( strtoull( e.attr( "fileOffset" )->c_str(), nullptr, 10 ) ) + 16;
      }
      bool vec = t && *t == "Vector";
      for ( size_t i = 0; i < e.ch.size(); i++ )
      {
         blobPlaces( *e.ch[i], p + "/" + ( vec ? std::to_string( i ) : e.ch[i]->name ), out );
      }
   }
   static void runPolicy( Choices &c, unsigned profile )
   {
      GenOpts o = profile < 6 ? smallOpts( c ) : drawOpts( c, c.draw( 8 ) );
      o.forceBlob = 1 + int( c.draw( 2 ) );
      o.maxBlob = 3;
      o.maxBlobSize = 8000 + c.draw( 40000 );
      auto d = genDoc( c, o );
      trace( "document: %s", docSummary( *d ).c_str() );
      const char *path = "/sim/a.e57";
      auto clean = makeFile( c, *d, path, c.chance( 1, 4 ) );
      auto paths = docPaths( *d );
      auto lg = toLogical( clean );
      uint64_t xo = 0, xl = 0;
      memcpy( &xo, &lg[24], 8 );
      memcpy( &xl, &lg[32], 8 );
      xo = logOf( xo );
      if ( xo > lg.size() || xl > lg.size() - xo )
      {
         throw Unsuitable{};
      }
      std::map<std::string, uint64_t> places;
      try
      {
         auto root = parseXml( std::string( reinterpret_cast<const char *>( &lg[xo] ), xl ) );
         blobPlaces( *root, "", places );
      }
      catch ( const std::string & )
      {
         throw Unsuitable{};
      }
      std::vector<BlobPlace> bl;
      for ( auto n : d->blobs )
      {
         auto it = places.find( paths[n] );
         if ( it != places.end() && !n->blob.empty() )
         {
            bl.push_back( { n, paths[n], it->second } );
         }
      }
      unsigned rounds = 5;
      for ( unsigned k = 0; k < rounds; k++ )
      {
         int policy;
         switch ( c.draw( 4 ) )
         {
            case 0:
            {
               static const int named[] = { 0, 25, 50, 100 };
               policy = named[c.draw( 4 )];
               break;
            }
            case 1:
               policy = int( c.draw( 101 ) );
               break;
            case 2:
            {
               static const int odd[] = { -1, -100, INT32_MIN, 101, 200, INT32_MAX, 1, 99, 66, 67, 34, 33 };
               policy = odd[c.draw( 12 )];
               break;
            }
            default:
               policy = 1 + int( c.draw( 60 ) );
         }
         int eff = std::max( 0, std::min( 100, policy ) );
         g_disk->put( path, clean );
         bool mem = c.chance( 1, 3 );
         // undamaged: every policy delivers everything
         if ( k == 0 || c.chance( 1, 4 ) )
         {
            std::unique_ptr<GuardedBuffer> gb( mem ? new GuardedBuffer( clean ) : nullptr );
            std::unique_ptr<e57::ImageFile> imf;
            Res r = lib( [&] { imf.reset( mem ? new e57::ImageFile( gb->data(), clean.size(), policy ) : new e57::ImageFile( path, "r", policy ) ); } );
            Res err;
            std::string bad = r ? verifyFile( *imf, *d, &c, VerifyOpts(), err ) : "";
            g_sh->sessions++;
            lib( [&] { imf.reset(); } );
            if ( !r || !err || !bad.empty() )
            {
               if ( eff == 100 )
               {
                  PROBE( "unsuitable: the undamaged file does not read" );
                  throw Unsuitable{};
               }
               Res e2;
               std::string b2 = openAndVerify( path, *d, nullptr, e2, 100 );
               if ( e2 && b2.empty() )
               {
                  fail( strf( "the undamaged file reads wrong under policy %d: ", policy ) + resStr( r ) + resStr( err ) + " :: " + bad );
               }
            }
            PROBE( "undamaged file under a drawn policy" );
         }
         if ( bl.empty() )
         {
            continue;
         }
         // damage pages that hold nothing but bytes of one blob
         BlobPlace &p = bl[c.draw( bl.size() )];
         uint64_t size = p.n->blob.size();
         size_t first = size_t( ( p.logical + 1019 ) / 1020 ), last = size_t( ( p.logical + size ) / 1020 ); // whole pages [first,last)
         if ( first >= last )
         {
            continue;
         }
         std::vector<uint8_t> b = clean;
         std::set<size_t> pages;
         size_t window = eff ? size_t( ( 100 + eff - 1 ) / eff ) : 1;
         size_t run = c.chance( 1, 2 ) ? 1 : std::min( last - first, window );
         size_t at = first + c.draw( last - first - run + 1 );
         for ( size_t q = at; q < at + run; q++ )
         {
            Rng r( c.sub() );
            unsigned nb = 1 + c.draw( 6 );
            for ( unsigned i = 0; i < nb; i++ )
            {
               b[q * 1024 + r.below( 1024 )] ^= uint8_t( 1u << r.below( 8 ) );
            }
            if ( memcmp( &b[q * 1024], &clean[q * 1024], 1024 ) && !pageOk( b, q ) )
            {
               pages.insert( q );
            }
         }
         PROBE( "fault:damaged pages inside a blob" );
         trace( "round %u: policy %d, %s, blob %s pages [%zu,%zu), damaged [%zu,+%zu)", k, policy, mem ? "memory" : "file", p.path.c_str(), first, last, at, run );
         if ( pages.size() != run )
         {
            continue;
         }
         nontrivial();
         g_disk->put( path, b );
         std::unique_ptr<GuardedBuffer> gb( mem ? new GuardedBuffer( b ) : nullptr );
         std::unique_ptr<e57::ImageFile> imf;
         Res r = lib( [&] { imf.reset( mem ? new e57::ImageFile( gb->data(), b.size(), policy ) : new e57::ImageFile( path, "r", policy ) ); } );
         g_sh->sessions++;
         if ( !r )
         {
            fail( strf( "damage inside a blob makes the file unopenable under policy %d: ", policy ) + resStr( r ) );
         }
         unsigned reads = 4;
         for ( unsigned i = 0; i < reads; i++ )
         {
            uint64_t s, e;
            switch ( c.draw( 4 ) )
            {
               case 0:
                  s = 0;
                  e = size;
                  break;
               case 1: // ends inside the damaged run
               {
                  uint64_t lo = at * 1020 - p.logical;
                  e = lo + 1 + c.draw( run * 1020 );
                  s = c.draw( e );
                  break;
               }
               case 2: // starts inside
               {
                  uint64_t lo = at * 1020 - p.logical;
                  s = lo + c.draw( run * 1020 );
                  e = s + 1 + c.draw( size - s );
                  break;
               }
               default:
                  s = c.draw( size );
                  e = s + 1 + c.draw( size - s );
            }
            size_t p0 = size_t( ( p.logical + s ) / 1020 ), p1 = size_t( ( p.logical + e - 1 ) / 1020 );
            std::vector<uint8_t> out( e - s );
            Res x = lib( [&] {
               e57::BlobNode bn( imf->root().get( p.path ) );
               bn.read( out.data(), int64_t( s ), e - s );
            } );
            trace( "  read [%llu,%llu) pages %zu..%zu -> %s", (unsigned long long)s, (unsigned long long)e, p0, p1, resStr( x ).c_str() );
            bool touches = false;
            size_t touched = 0;
            for ( auto q : pages )
            {
               touched += q >= p0 && q <= p1;
            }
            touches = touched > 0;
            bool must = touches && ( eff == 100 || ( eff > 0 && ( touched >= window || pages.count( p1 ) ) ) );
            if ( x )
            {
               if ( must )
               {
                  fail( strf( "under policy %d a read of a damaged page that must be verified reported nothing :: pages %zu..%zu, damaged [%zu,+%zu)", policy, p0,
                              p1, at, run ) );
               }
               if ( touches )
               {
                  PROBE( "damaged page read without verification" );
               }
               for ( uint64_t j = s; j < e; j++ )
               {
                  size_t pg = size_t( ( p.logical + j ) / 1020 );
                  if ( !pages.count( pg ) && out[j - s] != p.n->blob[j] )
                  {
                     fail( strf( "under policy %d an undamaged part reads wrong", policy ) );
                  }
               }
            }
            else
            {
               PROBE( "damaged page reported" );
               if ( !touches )
               {
                  fail( strf( "under policy %d a read of undamaged pages failed: ", policy ) + resStr( x ) );
               }
               if ( eff == 0 )
               {
                  fail( "with checking off a read reported " + resStr( x ) );
               }
               if ( x.foreign || x.err != e57::ErrorBadChecksum )
               {
                  fail( strf( "under policy %d a damaged page was reported as ", policy ) + resStr( x ) );
               }
            }
         }
         // everything else in the file is untouched
         for ( auto &q : bl )
         {
            if ( q.n != p.n )
            {
               std::string bad;
               Res x = readBlobRange( *imf, q.path, *q.n, 0, q.n->blob.size(), bad );
               if ( !x || !bad.empty() )
               {
                  fail( strf( "under policy %d damage in one blob affects another: ", policy ) + resStr( x ) + " :: " + bad );
               }
            }
         }
         for ( auto n : d->cvs )
         {
            StepReader sr( *imf, *n, paths[n], &c );
            Res x = sr.open();
            std::string bad;
            while ( x && !sr.done() && bad.empty() )
            {
               x = sr.step( bad );
            }
            if ( !x || !bad.empty() )
            {
               fail( strf( "under policy %d damage in a blob affects record data: ", policy ) + resStr( x ) + " :: " + bad );
            }
         }
         lib( [&] { imf.reset(); } );
      }
   }

   static FamilyReg r4( { "corrupt", runCorrupt, 8 } );
   static FamilyReg r5( { "readfault", runReadFault, 8 } );
   static FamilyReg r13( { "membuf", runMemBuf, 8 } );
   static FamilyReg r16( { "policy", runPolicy, 8 } );
}
