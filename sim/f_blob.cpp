// C14: a blob is a zero-filled byte array under any reads and writes.
#include "fam.h"

namespace sim
{
   namespace
   {
      struct ModelBlob
      {
         std::vector<uint8_t> bytes;
         std::unique_ptr<e57::BlobNode> h;
         bool attached = false;
         std::string path;
      };

      uint64_t drawSize( Choices &c, bool big )
      {
         switch ( c.draw( 6 ) )
         {
            case 0:
               return c.draw( 12 );
            case 1:
               return c.draw( 300 );
            case 2: // around the page size
               return 1020 * uint64_t( c.range( 1, 3 ) ) - 20 + c.draw( 40 );
            case 3: // the section itself ends near a page boundary
               return 1020 * uint64_t( c.range( 1, 3 ) ) - 16 - 4 + c.draw( 9 );
            case 4:
               return c.draw( 6000 );
            default:
               return big ? c.draw( 200000 ) : c.draw( 3000 );
         }
      }

      // [start,start+count) within size
      void drawRange( Choices &c, uint64_t size, uint64_t &start, uint64_t &count )
      {
         switch ( c.draw( 6 ) )
         {
            case 0:
               start = 0;
               count = size;
               break;
            case 1:
               start = c.draw( size + 1 );
               count = c.draw( size - start + 1 );
               break;
            case 2: // one byte
               start = size ? c.draw( size ) : 0;
               count = size ? 1 : 0;
               break;
            case 3: // the end
               count = std::min<uint64_t>( size, c.draw( 40 ) );
               start = size - count;
               break;
            case 4: // around a page boundary of the file, wherever it is
               start = c.draw( size + 1 );
               count = std::min<uint64_t>( size - start, c.draw( 2100 ) );
               break;
            default: // nothing
               start = c.draw( size + 1 );
               count = 0;
         }
      }

      struct BadRange
      {
         int64_t start;
         size_t count;
      };
      BadRange drawBad( Choices &c, uint64_t size )
      {
         switch ( c.draw( 8 ) )
         {
            case 0:
               return { int64_t( size ), 1 };
            case 1:
               return { int64_t( c.draw( size + 1 ) ), size_t( size + 1 + c.draw( 100 ) ) };
            case 2:
               return { int64_t( size ) + 1 + c.draw( 2000 ), 0 };
            case 3:
               return { -int64_t( 1 + c.draw( 40 ) ), size_t( 41 + c.draw( 60 ) ) };
            case 4:
               return { -int64_t( 1 + c.draw( 3000 ) ), 0 };
            case 5:
               return { int64_t( c.draw( size + 1 ) ), SIZE_MAX - c.draw( 20 ) };
            case 6:
               return { INT64_MAX - c.draw( 20 ), size_t( c.draw( 40 ) ) };
            default:
               return { INT64_MIN + c.draw( 20 ), size_t( INT64_MAX ) + c.draw( 40 ) };
         }
      }

      // A read with guard bytes around the destination. Empty: as the model says.
      std::string checkRead( e57::BlobNode &b, const std::vector<uint8_t> &m, uint64_t start, uint64_t count, Res &r )
      {
         constexpr size_t G = 64;
         std::vector<uint8_t> buf( count + 2 * G, 0xA5 );
         r = lib( [&] { b.read( buf.data() + G, int64_t( start ), size_t( count ) ); } );
         for ( size_t i = 0; i < G; i++ )
         {
            if ( buf[i] != 0xA5 || buf[G + count + i] != 0xA5 )
            {
               return "a blob read stored bytes outside the range asked for";
            }
         }
         if ( !r )
         {
            return "";
         }
         for ( uint64_t i = 0; i < count; i++ )
         {
            if ( buf[G + i] != m[start + i] )
            {
               return strf( "a blob read returned other bytes than last written :: size %zu [%llu,+%llu) at %llu: got %u want %u", m.size(),
                            (unsigned long long)start, (unsigned long long)count, (unsigned long long)( start + i ), buf[G + i], m[start + i] );
            }
         }
         ev( 0xB10B, start, count );
         return "";
      }

      void readOrFail( e57::BlobNode &b, const std::vector<uint8_t> &m, uint64_t start, uint64_t count )
      {
         Res r;
         std::string bad = checkRead( b, m, start, count, r );
         trace( "read [%llu,+%llu) -> %s", (unsigned long long)start, (unsigned long long)count, resStr( r ).c_str() );
         if ( !r )
         {
            fail( "a blob read inside the blob was refused: " + resStr( r ) );
         }
         if ( !bad.empty() )
         {
            fail( bad );
         }
      }

      // Out-of-range access: refused with the argument error, nothing stored anywhere.
      void refused( Choices &c, e57::BlobNode &b, uint64_t size, bool write, int want )
      {
         BadRange g = drawBad( c, size );
         std::vector<uint8_t> buf( 4096, 0xA5 );
         // A refused call must not touch memory, so a small buffer is enough even for an absurd count.
         Res r = lib( [&] {
            if ( write )
            {
               b.write( buf.data() + 1024, g.start, g.count );
            }
            else
            {
               b.read( buf.data() + 1024, g.start, g.count );
            }
         } );
         trace( "%s out of range [%lld,+%zu) of %llu -> %s", write ? "write" : "read", (long long)g.start, g.count, (unsigned long long)size,
                resStr( r ).c_str() );
         PROBE( "out-of-range blob access" );
         if ( r )
         {
            fail( strf( "a blob %s outside the blob was accepted :: [%lld,+%zu) of %llu", write ? "write" : "read", (long long)g.start, g.count,
                        (unsigned long long)size ) );
         }
         if ( r.foreign || r.err != want )
         {
            fail( strf( "a blob %s outside the blob threw the wrong exception: ", write ? "write" : "read" ) + resStr( r ) );
         }
         for ( auto x : buf )
         {
            if ( x != 0xA5 )
            {
               fail( "a refused blob read changed the caller's buffer" );
            }
         }
      }

      struct SmallCV
      {
         std::unique_ptr<e57::CompressedVectorNode> cv;
         std::unique_ptr<e57::CompressedVectorWriter> w;
         std::vector<int64_t> buf;
         uint64_t written = 0;
         uint64_t seed = 0;
         std::string path;
      };
   }

   static void runBlob( Choices &c, unsigned profile )
   {
      using namespace e57;
      const char *path = "/sim/b.e57";
      std::vector<ModelBlob> blobs;
      std::vector<SmallCV> cvs;
      int openCV = -1;
      unsigned names = 0;
      if ( c.chance( 1, 3 ) )
      {
         // a longer file was here before; its bytes must not show through
         std::vector<uint8_t> old( 1024 * ( 1 + c.draw( 60 ) ), 0xCC );
         g_disk->put( path, old );
      }
      auto imf = std::make_unique<ImageFile>( path, "w" );
      auto must = [&]( const Res &r, const char *what ) {
         if ( !r )
         {
            fail( std::string( "a legal call was refused: " ) + what + " -> " + resStr( r ) );
         }
      };
      auto create = [&] {
         ModelBlob m;
         uint64_t size = drawSize( c, profile >= 6 );
         must( lib( [&] { m.h.reset( new BlobNode( *imf, int64_t( size ) ) ); } ), "create blob" );
         m.bytes.assign( size, 0 );
         m.path = strf( "/b%u", names++ );
         trace( "blob %zu of %llu bytes", blobs.size(), (unsigned long long)size );
         blobs.push_back( std::move( m ) );
      };
      auto attach = [&]( ModelBlob &m ) {
         must( lib( [&] { imf->root().set( m.path, *m.h ); } ), "attach blob" );
         m.attached = true;
      };
      auto closeCV = [&] {
         SmallCV &v = cvs[openCV];
         must( lib( [&] { v.w->close(); } ), "close writer" );
         must( lib( [&] { v.w.reset(); } ), "destroy writer" );
         openCV = -1;
      };
      create();
      unsigned ops = profile < 3 ? 12 : profile < 6 ? 40 : 90;
      for ( unsigned k = 0; k < ops; k++ )
      {
         ModelBlob &m = blobs[c.draw( blobs.size() )];
         switch ( c.weighted( { 30, 25, 8, 6, 8, 5, 8, 6, 4 } ) )
         {
            case 0: // write
            {
               uint64_t s, n;
               drawRange( c, m.bytes.size(), s, n );
               std::vector<uint8_t> buf( n );
               Rng rg( c.sub() );
               bool zero = c.chance( 1, 6 );
               for ( auto &x : buf )
               {
                  x = zero ? 0 : uint8_t( rg.next() );
               }
               if ( !m.attached && c.chance( 3, 4 ) )
               {
                  attach( m );
               }
               std::vector<uint8_t> keep = buf;
               uint8_t dummy = 0;
               Res r = lib( [&] { m.h->write( n ? buf.data() : &dummy, int64_t( s ), size_t( n ) ); } );
               trace( "write %s [%llu,+%llu) -> %s", m.path.c_str(), (unsigned long long)s, (unsigned long long)n, resStr( r ).c_str() );
               if ( m.attached )
               {
                  must( r, "write blob" );
                  std::copy( keep.begin(), keep.end(), m.bytes.begin() + s );
                  PROBE( "partial blob write" );
               }
               else
               {
                  PROBE( "write to an unattached blob" );
                  if ( r || r.foreign || r.err != ErrorNodeUnattached )
                  {
                     fail( "writing an unattached blob was not refused as documented: " + resStr( r ) );
                  }
               }
               if ( buf != keep )
               {
                  fail( "a blob write changed the caller's buffer" );
               }
               nontrivial();
               break;
            }
            case 1: // read
            {
               uint64_t s, n;
               drawRange( c, m.bytes.size(), s, n );
               readOrFail( *m.h, m.bytes, s, n );
               PROBE( "blob read while writing" );
               break;
            }
            case 2:
               refused( c, *m.h, m.bytes.size(), c.chance( 1, 2 ) && m.attached, ErrorBadAPIArgument );
               break;
            case 3:
               if ( openCV < 0 && blobs.size() < 8 )
               {
                  create();
                  if ( c.chance( 1, 2 ) )
                  {
                     attach( blobs.back() );
                  }
               }
               break;
            case 4: // other elements
            {
               std::string p = strf( "/e%u", names++ );
               unsigned t = c.draw( 3 );
               must( lib( [&] {
                        switch ( t )
                        {
                           case 0:
                              imf->root().set( p, IntegerNode( *imf, 7, 0, 100 ) );
                              break;
                           case 1:
                              imf->root().set( p, StringNode( *imf, std::string( 700, 'x' ) ) );
                              break;
                           default:
                              imf->root().set( p, StructureNode( *imf ) );
                        }
                     } ),
                     "attach element" );
               break;
            }
            case 5: // negative size
            {
               Res r = lib( [&] { BlobNode bad( *imf, -int64_t( 1 + c.draw( 5000 ) ) ); } );
               PROBE( "blob of negative size" );
               if ( r || r.foreign || r.err != ErrorBadAPIArgument )
               {
                  fail( "a blob of negative size was not refused as documented: " + resStr( r ) );
               }
               break;
            }
            case 6: // record writing around the blob accesses
               if ( openCV < 0 && cvs.size() < 4 )
               {
                  SmallCV v;
                  v.seed = c.sub();
                  v.path = strf( "/v%u", names++ );
                  v.buf.resize( 256 );
                  must( lib( [&] {
                           StructureNode proto( *imf );
                           proto.set( "x", IntegerNode( *imf, 0, INT64_MIN, INT64_MAX ) );
                           v.cv.reset( new CompressedVectorNode( *imf, proto, VectorNode( *imf, true ) ) );
                           imf->root().set( v.path, *v.cv );
                        } ),
                        "create compressed vector" );
                  std::vector<SourceDestBuffer> sb;
                  must( lib( [&] {
                           sb.emplace_back( *imf, "x", v.buf.data(), v.buf.size(), true );
                           v.w.reset( new CompressedVectorWriter( v.cv->writer( sb ) ) );
                        } ),
                        "open writer" );
                  openCV = int( cvs.size() );
                  cvs.push_back( std::move( v ) );
                  PROBE( "blob accesses beside an open record writer" );
               }
               break;
            case 7:
               if ( openCV >= 0 )
               {
                  SmallCV &v = cvs[openCV];
                  unsigned reps = 1 + c.draw( 60 );
                  for ( unsigned i = 0; i < reps; i++ )
                  {
                     for ( size_t q = 0; q < v.buf.size(); q++ )
                     {
                        v.buf[q] = int64_t( mix( v.seed, v.written + q ) );
                     }
                     must( lib( [&] { v.w->write( v.buf.size() ); } ), "write records" );
                     v.written += v.buf.size();
                  }
               }
               break;
            default:
               if ( openCV >= 0 )
               {
                  closeCV();
               }
         }
      }
      if ( openCV >= 0 )
      {
         closeCV();
      }
      for ( auto &m : blobs )
      {
         readOrFail( *m.h, m.bytes, 0, m.bytes.size() );
         Res r = lib( [&] {
            if ( m.h->byteCount() != int64_t( m.bytes.size() ) )
            {
               throw Violation{ "byteCount differs from the size given at creation" };
            }
         } );
         must( r, "byteCount" );
      }
      must( lib( [&] { imf->close(); } ), "close" );
      for ( auto &m : blobs )
      {
         uint8_t b[4] = { 1, 2, 3, 4 };
         Res r = lib( [&] { m.h->read( b, 0, 0 ); } );
         if ( r || r.foreign || r.err != ErrorImageFileNotOpen )
         {
            fail( "a blob access after close was not refused as documented: " + resStr( r ) );
         }
         r = lib( [&] { m.h->write( b, 0, 0 ); } );
         if ( r || r.foreign || r.err != ErrorImageFileNotOpen )
         {
            fail( "a blob access after close was not refused as documented: " + resStr( r ) );
         }
      }
      lib( [&] {
         for ( auto &m : blobs )
         {
            m.h.reset();
         }
         cvs.clear();
         imf.reset();
      } );
      g_sh->sessions++;
      std::vector<uint8_t> bytes = g_disk->bytes( path );
      // after reopening
      unsigned reopen = 1 + c.draw( 2 );
      for ( unsigned k = 0; k < reopen; k++ )
      {
         bool mem = c.chance( 1, 3 );
         int pol = c.chance( 1, 2 ) ? 100 : int( c.draw( 101 ) );
         must( lib( [&] {
                  if ( mem )
                  {
                     imf.reset( new ImageFile( reinterpret_cast<const char *>( bytes.data() ), bytes.size(), pol ) );
                  }
                  else
                  {
                     imf.reset( new ImageFile( path, "r", pol ) );
                  }
               } ),
               "open for reading" );
         for ( auto &m : blobs )
         {
            bool there = false;
            must( lib( [&] { there = imf->root().isDefined( m.path ); } ), "isDefined" );
            if ( there != m.attached )
            {
               fail( m.attached ? "an attached blob is missing after reopening" : "an unattached blob appeared in the file" );
            }
            if ( there )
            {
               must( lib( [&] { m.h.reset( new BlobNode( imf->root().get( m.path ) ) ); } ), "get blob" );
            }
         }
         unsigned acc = 8 + c.draw( 30 );
         bool faulty = !mem && c.chance( 1, 3 );
         for ( unsigned i = 0; i < acc; i++ )
         {
            ModelBlob &m = blobs[c.draw( blobs.size() )];
            if ( !m.attached )
            {
               continue;
            }
            switch ( c.weighted( { 10, 3, 2, 1, 2 } ) )
            {
               case 0:
               {
                  uint64_t s, n;
                  drawRange( c, m.bytes.size(), s, n );
                  readOrFail( *m.h, m.bytes, s, n );
                  PROBE( "blob read after reopening" );
                  break;
               }
               case 1:
                  refused( c, *m.h, m.bytes.size(), false, ErrorBadAPIArgument );
                  break;
               case 2: // read-only
               {
                  uint8_t b[4] = { 1, 2, 3, 4 };
                  Res r = lib( [&] { m.h->write( b, 0, std::min<size_t>( 4, m.bytes.size() ) ); } );
                  if ( r || r.foreign || r.err != ErrorFileReadOnly )
                  {
                     fail( "a blob write in a file opened for reading was not refused as documented: " + resStr( r ) );
                  }
                  break;
               }
               case 3:
               {
                  Res r = lib( [&] { BlobNode bad( *imf, 10 ); } );
                  if ( r || r.foreign || r.err != ErrorFileReadOnly )
                  {
                     fail( "creating a blob in a file opened for reading was not refused as documented: " + resStr( r ) );
                  }
                  break;
               }
               default: // a read that meets a disk fault must not spoil the next one
                  if ( faulty )
                  {
                     g_disk->clearPlan();
                     g_disk->planPath = path;
                     PlannedFault f{};
                     f.at = c.draw( 6 );
                     f.kind = c.chance( 1, 3 ) ? FShort : c.chance( 1, 2 ) ? FErr : FEof;
                     f.arg = c.draw( 1024 );
                     f.span = 1;
                     f.onlyKind = -1;
                     g_disk->plan.push_back( f );
                     uint64_t s, n;
                     drawRange( c, m.bytes.size(), s, n );
                     Res r;
                     std::string bad = checkRead( *m.h, m.bytes, s, n, r );
                     if ( !bad.empty() )
                     {
                        fail( bad + " (disk fault)" );
                     }
                     if ( r.foreign )
                     {
                        fail( "a disk fault in a blob read surfaced as " + resStr( r ) );
                     }
                     if ( !r )
                     {
                        PROBE( "fault:blob read failed" );
                     }
                     g_disk->clearPlan();
                  }
            }
         }
         for ( auto &m : blobs )
         {
            if ( m.attached )
            {
               readOrFail( *m.h, m.bytes, 0, m.bytes.size() );
            }
         }
         lib( [&] {
            for ( auto &m : blobs )
            {
               m.h.reset();
            }
            imf.reset();
         } );
         if ( g_disk->bytes( path ) != bytes )
         {
            fail( "reading blobs changed the file" );
         }
         g_sh->sessions++;
      }
      // what a decoder that shares no code with the library finds
      std::string v = validateFile( bytes, nullptr );
      if ( !v.empty() )
      {
         fail( "the file with the blobs is not valid: " + v );
      }
   }
   static FamilyReg r14( { "blob", runBlob, 8 } );
}
