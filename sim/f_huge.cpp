// C01, C14: blobs and files beyond 2 and 4 GiB on a disk that keeps blank pages for free.
#include "fam.h"
#include "refcodec.h"
#include <algorithm>

namespace sim
{
   using namespace e57;

   namespace
   {
      // Zeros, except where something was stored.
      struct Sparse
      {
         uint64_t size = 0;
         std::map<uint64_t, std::vector<uint8_t>> chunk; // of 1 KiB
         void set( uint64_t pos, const uint8_t *p, size_t n )
         {
            for ( size_t i = 0; i < n; i++ )
            {
               auto &v = chunk[( pos + i ) / 1024];
               v.resize( 1024 );
               v[( pos + i ) % 1024] = p[i];
            }
         }
         std::vector<uint8_t> get( uint64_t pos, size_t n ) const
         {
            std::vector<uint8_t> r( n );
            for ( size_t i = 0; i < n; i++ )
            {
               auto it = chunk.find( ( pos + i ) / 1024 );
               r[i] = it == chunk.end() ? 0 : it->second[( pos + i ) % 1024];
            }
            return r;
         }
      };

      void must( const char *what, const Res &r )
      {
         if ( !r )
         {
            fail( strf( "%s failed: ", what ) + resStr( r ) );
         }
      }

      struct Big
      {
         Choices &c;
         Sparse m;
         uint64_t fileAt = 0; // about where the blob lies in the file
         std::vector<uint64_t> marks;

         explicit Big( Choices &ch ) : c( ch )
         {
         }
         // A range in the blob, mostly around powers of two of the blob or of the file.
         void range( uint64_t &pos, size_t &n, size_t maxLen )
         {
            n = 1 + c.skewed( uint32_t( maxLen - 1 ) );
            uint64_t at = 0;
            switch ( c.draw( 6 ) )
            {
               case 0:
                  at = c.draw( 5000 );
                  break;
               case 1:
                  at = m.size - std::min<uint64_t>( m.size, c.draw( 5000 ) );
                  break;
               case 2:
                  at = 1ULL << ( 31 + c.draw( 3 ) );
                  break;
               case 3:
                  at = logOf( 1ULL << ( 31 + c.draw( 3 ) ) ) - fileAt;
                  break;
               case 4:
                  at = marks.empty() ? 0 : marks[c.draw( marks.size() )];
                  break;
               default:
                  at = ( uint64_t( c.draw( 1u << 31 ) ) << 31 | c.draw( 1u << 31 ) ) % m.size;
            }
            at -= std::min<uint64_t>( at, c.draw( 2 ) ? c.draw( uint32_t( maxLen ) ) : 0 );
            if ( at >= m.size )
            {
               at = m.size - 1;
            }
            pos = at;
            n = size_t( std::min<uint64_t>( n, m.size - pos ) );
         }
         void read( BlobNode &b, const char *when )
         {
            uint64_t pos;
            size_t n;
            range( pos, n, 4000 );
            std::vector<uint8_t> got( n, 0xA5 );
            Res r = lib( [&] { b.read( got.data(), int64_t( pos ), n ); } );
            trace( "read [%llu,+%zu) %s -> %s", (unsigned long long)pos, n, when, resStr( r ).c_str() );
            must( "reading a large blob", r );
            if ( got != m.get( pos, n ) )
            {
               fail( strf( "a large blob reads wrong %s", when ) + strf( " :: at %llu, %zu bytes", (unsigned long long)pos, n ) );
            }
            ev( 0x4B, pos, n );
            PROBE( "large blob read" );
            if ( pos + n > ( 1ULL << 32 ) )
            {
               PROBE( "large blob read beyond 4 GiB" );
            }
         }
         void write( BlobNode &b )
         {
            uint64_t pos;
            size_t n;
            range( pos, n, 3000 );
            std::vector<uint8_t> v( n );
            Rng r( c.sub() );
            for ( auto &x : v )
            {
               x = uint8_t( r.next() );
            }
            Res q = lib( [&] { b.write( v.data(), int64_t( pos ), n ); } );
            trace( "write [%llu,+%zu) -> %s", (unsigned long long)pos, n, resStr( q ).c_str() );
            must( "writing a large blob", q );
            m.set( pos, v.data(), n );
            marks.push_back( pos );
            PROBE( "large blob written" );
         }
         void refused( BlobNode &b )
         {
            uint8_t x[16];
            uint64_t over = m.size - c.draw( 8 );
            Res q = lib( [&] { b.read( x, int64_t( over ), 9 ); } );
            if ( q || q.foreign )
            {
               fail( "a range beyond the end of a large blob was accepted" );
            }
         }
      };

      uint64_t drawSize( Choices &c, unsigned top )
      {
         return ( 1ULL << ( 31 + c.draw( top ) ) ) + c.draw( 200000 ) - 20000;
      }

      // A file with a large blob made by hand.
      void runHugeRead( Choices &c, unsigned )
      {
         Big big( c );
         big.m.size = drawSize( c, 4 );
         const uint64_t at = 48 + 4 * uint64_t( c.draw( 600 ) );
         big.fileAt = at + 16;
         for ( unsigned i = 0, n = 3 + c.draw( 8 ); i < n; i++ )
         {
            uint64_t pos;
            size_t len;
            big.range( pos, len, 3000 );
            std::vector<uint8_t> v( len );
            Rng r( c.sub() );
            for ( auto &x : v )
            {
               x = uint8_t( r.next() );
            }
            big.m.set( pos, v.data(), len );
            big.marks.push_back( pos );
         }
         // the logical file
         Sparse lg;
         std::string text = strf( "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<e57Root type=\"Structure\" xmlns=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\">\n"
                                  "<big type=\"Blob\" fileOffset=\"%llu\" length=\"%llu\"/>\n</e57Root>\n",
                                  (unsigned long long)physOf( at ), (unsigned long long)big.m.size );
         while ( text.size() % 4 )
         {
            text += ' ';
         }
         auto put = [&]( uint64_t pos, uint64_t v, unsigned n ) {
            uint8_t b[8];
            for ( unsigned i = 0; i < n; i++ )
            {
               b[i] = uint8_t( v >> ( 8 * i ) );
            }
            lg.set( pos, b, n );
         };
         const uint64_t secLen = ( 16 + big.m.size + 3 ) / 4 * 4, xmlAt = at + secLen;
         lg.size = ( xmlAt + text.size() + 1019 ) / 1020 * 1020;
         lg.set( 0, reinterpret_cast<const uint8_t *>( "ASTM-E57" ), 8 );
         put( 8, 1, 4 );
         put( 12, 0, 4 );
         put( 16, lg.size / 1020 * 1024, 8 );
         put( 24, physOf( xmlAt ), 8 );
         put( 32, text.size(), 8 );
         put( 40, 1024, 8 );
         put( at + 8, secLen, 8 );
         for ( auto &k : big.m.chunk )
         {
            uint64_t pos = k.first * 1024;
            lg.set( at + 16 + pos, k.second.data(), size_t( std::min<uint64_t>( 1024, big.m.size - pos ) ) );
         }
         lg.set( xmlAt, reinterpret_cast<const uint8_t *>( text.data() ), text.size() );
         // pages in memory: the first ones and those from the text on
         const uint64_t pages = lg.size / 1020, head = 8, tail = xmlAt / 1020;
         std::vector<uint8_t> flat = lg.get( 0, size_t( head * 1020 ) ), end = lg.get( tail * 1020, size_t( ( pages - tail ) * 1020 ) );
         flat.insert( flat.end(), end.begin(), end.end() );
         g_disk->put( "/sim/h.e57", toPhysical( flat ), head * 1024, ( tail - head ) * 1024 );
         for ( auto &k : lg.chunk )
         {
            for ( uint64_t p = k.first * 1024 / 1020; p <= ( k.first * 1024 + 1023 ) / 1020; p++ )
            {
               if ( p >= head && p < tail )
               {
                  g_disk->files["/sim/h.e57"]->island[p] = toPhysical( lg.get( p * 1020, 1020 ) );
               }
            }
         }
         trace( "blob of %llu bytes", (unsigned long long)big.m.size );
         std::unique_ptr<ImageFile> f;
         must( "opening a large file", lib( [&] { f.reset( new ImageFile( "/sim/h.e57", "r", c.chance( 1, 2 ) ? 100 : int( c.draw( 101 ) ) ) ); } ) );
         g_sh->sessions++;
         std::unique_ptr<BlobNode> b;
         must( "finding a large blob", lib( [&] { b.reset( new BlobNode( f->root().get( "big" ) ) ); } ) );
         if ( uint64_t( b->byteCount() ) != big.m.size )
         {
            fail( "the size of a large blob is wrong" );
         }
         for ( unsigned i = 0; i < 40; i++ )
         {
            big.read( *b, "from a given file" );
         }
         big.refused( *b );
         must( "closing a large file", lib( [&] {
                  b.reset();
                  f->close();
                  f.reset();
               } ) );
         nontrivial();
      }

      struct Recs
      {
         std::string name;
         unsigned n = 0;
         uint64_t seed = 0;
         int32_t a( unsigned i ) const
         {
            return int32_t( mix( seed, i ) % 1000 );
         }
         double x( unsigned i ) const
         {
            return double( int64_t( mix( seed, i + 100000 ) % 2000001 ) - 1000000 ) / 64;
         }
      };
      void writeRecs( ImageFile &f, const Recs &r )
      {
         must( "writing records", lib( [&] {
                  StructureNode p( f );
                  p.set( "a", IntegerNode( f, 0, 0, 999 ) );
                  p.set( "x", FloatNode( f, 0. ) );
                  CompressedVectorNode cv( f, p, VectorNode( f, true ) );
                  f.root().set( r.name, cv );
                  std::vector<int32_t> a( 100 );
                  std::vector<double> x( 100 );
                  std::vector<SourceDestBuffer> b;
                  b.emplace_back( f, "a", a.data(), 100, true );
                  b.emplace_back( f, "x", x.data(), 100, true );
                  CompressedVectorWriter w = cv.writer( b );
                  for ( unsigned done = 0; done < r.n; )
                  {
                     unsigned k = std::min( 100u, r.n - done );
                     for ( unsigned i = 0; i < k; i++ )
                     {
                        a[i] = r.a( done + i );
                        x[i] = r.x( done + i );
                     }
                     w.write( k );
                     done += k;
                  }
                  w.close();
               } ) );
      }
      void readRecs( ImageFile &f, const Recs &r )
      {
         unsigned done = 0;
         bool ok = true;
         must( "reading records of a large file", lib( [&] {
                  CompressedVectorNode cv( f.root().get( r.name ) );
                  std::vector<int32_t> a( 130 );
                  std::vector<double> x( 130 );
                  std::vector<SourceDestBuffer> b;
                  b.emplace_back( f, "a", a.data(), 130, true );
                  b.emplace_back( f, "x", x.data(), 130, true );
                  CompressedVectorReader rd = cv.reader( b );
                  while ( unsigned k = rd.read() )
                  {
                     for ( unsigned i = 0; i < k; i++, done++ )
                     {
                        ok = ok && a[i] == r.a( done ) && x[i] == r.x( done );
                     }
                  }
                  rd.close();
               } ) );
         if ( done != r.n || !ok )
         {
            fail( "records of a large file read wrong" );
         }
         PROBE( "records of a large file compared" );
      }

      // The library itself makes the large file.
      void runHugeWrite( Choices &c, unsigned profile )
      {
         Big big( c );
         big.m.size = profile % 2 ? ( 1ULL << 31 ) + c.draw( 200000 ) - 20000 : ( 1ULL << 32 ) + c.draw( 200000 ) - 20000;
         g_disk->sparse = true;
         std::unique_ptr<ImageFile> f;
         must( "opening a file", lib( [&] { f.reset( new ImageFile( "/sim/h.e57", "w" ) ); } ) );
         g_sh->sessions++;
         std::vector<Recs> recs;
         auto more = [&] {
            Recs r;
            r.name = strf( "r%zu", recs.size() );
            r.n = c.chance( 1, 4 ) ? 12000 : 1 + c.draw( 600 );
            r.seed = c.sub();
            writeRecs( *f, r );
            recs.push_back( r );
         };
         if ( c.chance( 1, 2 ) )
         {
            more();
         }
         std::unique_ptr<BlobNode> b, small;
         must( "making a large blob", lib( [&] { b.reset( new BlobNode( *f, int64_t( big.m.size ) ) ); } ) );
         must( "attaching a large blob", lib( [&] { f->root().set( "big", *b ); } ) );
         trace( "blob of %llu bytes", (unsigned long long)big.m.size );
         std::vector<uint8_t> sv( 1 + c.draw( 5000 ) );
         Rng r( c.sub() );
         for ( auto &x : sv )
         {
            x = uint8_t( r.next() );
         }
         for ( unsigned i = 0, n = 8 + c.draw( 20 ); i < n; i++ )
         {
            switch ( c.weighted( { 6, 4, 1, 1 } ) )
            {
               case 0:
                  big.write( *b );
                  break;
               case 1:
                  big.read( *b, "while it is written" );
                  break;
               case 2:
                  more();
                  break;
               default:
                  if ( !small )
                  {
                     must( "making a blob beyond a large one", lib( [&] {
                              small.reset( new BlobNode( *f, int64_t( sv.size() ) ) );
                              f->root().set( "small", *small );
                              small->write( sv.data(), 0, sv.size() );
                           } ) );
                  }
            }
         }
         more();
         big.refused( *b );
         must( "closing a large file", lib( [&] { f->close(); } ) );
         lib( [&] {
            b.reset();
            f.reset();
         } );
         must( "opening a large file", lib( [&] { f.reset( new ImageFile( "/sim/h.e57", "r" ) ); } ) );
         g_sh->sessions++;
         must( "finding a large blob", lib( [&] { b.reset( new BlobNode( f->root().get( "big" ) ) ); } ) );
         if ( uint64_t( b->byteCount() ) != big.m.size )
         {
            fail( "the size of a large blob is wrong" );
         }
         for ( unsigned i = 0; i < 60; i++ )
         {
            big.read( *b, "after the file was closed" );
         }
         for ( auto &x : recs )
         {
            readRecs( *f, x );
         }
         if ( small )
         {
            std::vector<uint8_t> got( sv.size() );
            must( "reading a blob beyond a large one", lib( [&] { BlobNode( f->root().get( "small" ) ).read( got.data(), 0, got.size() ); } ) );
            if ( got != sv )
            {
               fail( "a blob beyond a large one reads wrong" );
            }
         }
         must( "closing a large file", lib( [&] {
                  b.reset();
                  small.reset();
                  f.reset();
               } ) );
         nontrivial();
      }
      // Texts of many megabytes, in records and in elements.
      std::string longText( uint64_t seed, uint64_t len )
      {
         std::string s( size_t( len ), 'x' );
         Rng r( seed );
         for ( size_t i = 0; i + 8 <= s.size(); i += 8 )
         {
            const uint64_t v = r.next();
            for ( unsigned k = 0; k < 8; k++ )
            {
               s[i + k] = char( 'A' + ( ( v >> ( 8 * k ) ) & 31 ) );
            }
         }
         return s;
      }
      void runLongText( Choices &c, unsigned )
      {
         const unsigned n = 2 + c.draw( 5 );
         std::vector<std::string> s;
         for ( unsigned i = 0; i < n; i++ )
         {
            uint64_t len = c.draw( 300 );
            if ( i == 0 || c.chance( 1, 6 ) )
            {
               len = ( 1ULL << ( 21 + c.draw( 4 ) ) ) + c.draw( 8000 ) - 4000;
            }
            s.push_back( longText( c.sub(), len ) );
         }
         std::rotate( s.begin(), s.begin() + c.draw( n ), s.end() );
         const std::string element = longText( c.sub(), c.chance( 1, 2 ) ? 3000000 + c.draw( 3000000 ) : 100 );
         const unsigned batch = 1 + c.draw( n );
         for ( auto &x : s )
         {
            trace( "text of %zu bytes", x.size() );
         }
         std::unique_ptr<ImageFile> f;
         must( "writing long texts", lib( [&] {
                  f.reset( new ImageFile( "/sim/h.e57", "w" ) );
                  StructureNode p( *f );
                  p.set( "i", IntegerNode( *f, 0, 0, 1000 ) );
                  p.set( "s", StringNode( *f ) );
                  CompressedVectorNode cv( *f, p, VectorNode( *f, true ) );
                  f->root().set( "cv", cv );
                  f->root().set( "t", StringNode( *f, element ) );
                  std::vector<int32_t> num( batch );
                  std::vector<ustring> txt( batch );
                  std::vector<SourceDestBuffer> b;
                  b.emplace_back( *f, "i", num.data(), batch, true );
                  b.emplace_back( *f, "s", &txt );
                  CompressedVectorWriter w = cv.writer( b );
                  for ( unsigned done = 0; done < n; )
                  {
                     const unsigned k = std::min( batch, n - done );
                     for ( unsigned i = 0; i < k; i++ )
                     {
                        num[i] = int32_t( done + i );
                        txt[i] = s[done + i];
                     }
                     w.write( k );
                     done += k;
                  }
                  w.close();
                  f->close();
               } ) );
         g_sh->sessions += 2;
         const std::string m = validateFile( g_disk->bytes( "/sim/h.e57" ), nullptr );
         if ( !m.empty() )
         {
            fail( "a file with long texts is not valid: " + m );
         }
         unsigned done = 0;
         bool ok = true, elementOk = false;
         const unsigned cap = 1 + c.draw( n );
         must( "reading long texts", lib( [&] {
                  f.reset( new ImageFile( "/sim/h.e57", "r" ) );
                  CompressedVectorNode cv( f->root().get( "cv" ) );
                  std::vector<int32_t> num( cap );
                  std::vector<ustring> txt( cap );
                  std::vector<SourceDestBuffer> b;
                  b.emplace_back( *f, "i", num.data(), cap, true );
                  b.emplace_back( *f, "s", &txt );
                  CompressedVectorReader rd = cv.reader( b );
                  while ( unsigned k = rd.read() )
                  {
                     for ( unsigned i = 0; i < k; i++, done++ )
                     {
                        ok = ok && done < n && num[i] == int32_t( done ) && txt[i] == s[done];
                     }
                  }
                  rd.close();
                  elementOk = StringNode( f->root().get( "t" ) ).value() == element;
                  f->close();
               } ) );
         if ( done != n || !ok )
         {
            fail( "long texts in records read wrong" );
         }
         if ( !elementOk )
         {
            fail( "a long text in an element reads wrong" );
         }
         lib( [&] { f.reset(); } );
         PROBE( "long texts compared" );
         nontrivial();
      }
      // Trees that are wide or deep, long names, many extensions, many sections.
      void runBigTree( Choices &c, unsigned profile )
      {
         const uint64_t seed = c.sub();
         unsigned n = 0;
         auto near = [&]( unsigned top ) {
            static const unsigned k[] = { 127, 255, 256, 1000, 32767, 65535 };
            unsigned at = k[c.draw( 6 )];
            return std::min( top, at + c.draw( 4 ) );
         };
         auto value = [&]( unsigned i ) { return int64_t( mix( seed, i ) % 2000 ) - 1000; };
         auto nameOf = [&]( unsigned i ) {
            std::string s = strf( "n%u_", i );
            s.resize( s.size() + ( profile == 3 ? 200 + mix( seed, i ) % 70000 : 0 ), char( 'a' + i % 26 ) );
            return s;
         };
         switch ( profile )
         {
            case 0:
               n = near( 70000 );
               break;
            case 1:
               n = near( 1500 );
               break;
            case 2:
               n = 100 + c.draw( 900 );
               break;
            case 3:
               n = 1 + c.draw( 5 );
               break;
            case 4:
               n = near( 400 );
               break;
            default:
               n = near( 300 );
         }
         static const char *const what[] = { "children of a vector", "children of a structure", "levels", "long names", "extensions", "sections" };
         trace( "%u %s", n, what[profile] );
         std::unique_ptr<ImageFile> f;
         must( "writing a large tree", lib( [&] {
                  f.reset( new ImageFile( "/sim/h.e57", "w" ) );
                  StructureNode root = f->root();
                  if ( profile == 0 )
                  {
                     VectorNode v( *f, n > 2000 || ( seed & 1 ) ); // every child is compared with all others otherwise
                     root.set( "v", v );
                     for ( unsigned i = 0; i < n; i++ )
                     {
                        v.append( IntegerNode( *f, value( i ), -1000, 1000 ) );
                     }
                  }
                  else if ( profile == 1 || profile == 3 )
                  {
                     for ( unsigned i = 0; i < n; i++ )
                     {
                        root.set( nameOf( i ), IntegerNode( *f, value( i ), -1000, 1000 ) );
                     }
                  }
                  else if ( profile == 2 )
                  {
                     StructureNode at( *f );
                     root.set( "d", at );
                     for ( unsigned i = 0; i < n; i++ )
                     {
                        at.set( "i", IntegerNode( *f, value( i ) ) );
                        StructureNode next( *f );
                        at.set( "d", next );
                        at = next;
                     }
                  }
                  else if ( profile == 4 )
                  {
                     for ( unsigned i = 0; i < n; i++ )
                     {
                        f->extensionsAdd( strf( "e%u", i ), strf( "http://example.com/%u", i ) );
                     }
                     for ( unsigned i = 0; i < n; i++ )
                     {
                        root.set( strf( "e%u:x", i ), IntegerNode( *f, value( i ) ) );
                     }
                  }
                  else
                  {
                     for ( unsigned i = 0; i < n; i++ )
                     {
                        uint8_t b[8];
                        const int64_t v = value( i );
                        memcpy( b, &v, 8 );
                        BlobNode blob( *f, 8 );
                        root.set( strf( "b%u", i ), blob );
                        blob.write( b, 0, 8 );
                        StructureNode p( *f );
                        p.set( "a", IntegerNode( *f, 0, -1000, 1000 ) );
                        CompressedVectorNode cv( *f, p, VectorNode( *f, true ) );
                        root.set( strf( "c%u", i ), cv );
                        int64_t a[1] = { v };
                        std::vector<SourceDestBuffer> sb;
                        sb.emplace_back( *f, "a", a, 1, true );
                        CompressedVectorWriter w = cv.writer( sb );
                        w.write( 1 );
                        w.close();
                     }
                  }
                  f->close();
               } ) );
         g_sh->sessions += 2;
         const std::string m = validateFile( g_disk->bytes( "/sim/h.e57" ), nullptr );
         if ( !m.empty() )
         {
            fail( "a file with a large tree is not valid: " + m );
         }
         unsigned wrong = 0;
         bool size = true;
         must( "reading a large tree", lib( [&] {
                  f.reset( new ImageFile( "/sim/h.e57", "r" ) );
                  StructureNode root = f->root();
                  auto check = [&]( const Node &x, unsigned i ) { wrong += IntegerNode( x ).value() != value( i ); };
                  if ( profile == 0 )
                  {
                     VectorNode v( root.get( "v" ) );
                     size = v.childCount() == n;
                     for ( unsigned i = 0; size && i < n; i++ )
                     {
                        check( v.get( i ), i );
                     }
                     check( root.get( strf( "v/%u", n - 1 ) ), n - 1 );
                  }
                  else if ( profile == 1 || profile == 3 )
                  {
                     size = root.childCount() == n;
                     for ( unsigned i = 0; size && i < n; i++ )
                     {
                        check( root.get( int64_t( i ) ), i );
                        check( root.get( nameOf( i ) ), i );
                        size = size && root.get( int64_t( i ) ).elementName() == nameOf( i );
                     }
                  }
                  else if ( profile == 2 )
                  {
                     StructureNode at( root.get( "d" ) );
                     std::string path;
                     for ( unsigned i = 0; i < n; i++ )
                     {
                        check( at.get( "i" ), i );
                        at = StructureNode( at.get( "d" ) );
                        path += "/d";
                     }
                     size = at.childCount() == 0 && at.pathName() == path + "/d" && root.isDefined( path ) && !root.isDefined( path + "/d/d" );
                  }
                  else if ( profile == 4 )
                  {
                     for ( unsigned i = 0; i < n; i++ )
                     {
                        check( root.get( strf( "e%u:x", i ) ), i );
                        ustring uri;
                        size = size && f->extensionsLookupPrefix( strf( "e%u", i ), uri ) && uri == strf( "http://example.com/%u", i );
                     }
                  }
                  else
                  {
                     for ( unsigned i = 0; i < n; i++ )
                     {
                        uint8_t b[8] = {};
                        int64_t v = 0;
                        BlobNode( root.get( strf( "b%u", i ) ) ).read( b, 0, 8 );
                        memcpy( &v, b, 8 );
                        int64_t a[2] = { 5000, 5000 };
                        std::vector<SourceDestBuffer> sb;
                        sb.emplace_back( *f, "a", a, 2, true );
                        CompressedVectorReader rd = CompressedVectorNode( root.get( strf( "c%u", i ) ) ).reader( sb );
                        size = size && rd.read() == 1;
                        rd.close();
                        wrong += v != value( i ) || a[0] != value( i );
                     }
                  }
                  f->close();
               } ) );
         if ( wrong || !size )
         {
            fail( strf( "a large tree reads wrong: %s", what[profile] ) + strf( " :: %u of %u values, %s", wrong, n, size ? "structure right" : "structure wrong" ) );
         }
         lib( [&] { f.reset(); } );
         PROBE( "large tree compared" );
         nontrivial();
      }
      // Records of very many fields, up to and beyond what a data packet can list. Most of them need no bits, so that they cost nothing.
      void runWideCV( Choices &c, unsigned profile )
      {
         static const unsigned base[] = { 240, 21830, 24568, 32500, 32765 }, span[] = { 1800, 40, 20, 265, 300 };
         const unsigned n = base[profile] + c.draw( span[profile] );
         const unsigned real = 1 + c.skewed( 299 ), records = 1 + c.skewed( 400 );
         const uint64_t seed = c.sub();
         const unsigned perGroup = 150;
         std::map<unsigned, unsigned> bits; // field -> bits per record
         for ( unsigned i = 0; i < real; i++ )
         {
            bits[unsigned( mix( seed, i ) % n )] = 1 + unsigned( mix( seed, i + 1000 ) % 40 );
         }
         trace( "%u fields, %u of them not constant, %u records", n, unsigned( bits.size() ), records );
         auto path = [&]( unsigned i ) { return strf( "g%u/f%u", i / perGroup, i % perGroup ); };
         std::map<unsigned, std::vector<int64_t>> values;
         std::vector<int64_t> sevens( records, 7 );
         for ( auto &b : bits )
         {
            for ( unsigned r = 0; r < records; r++ )
            {
               values[b.first].push_back( int64_t( mix( seed + r, b.first ) & ( ( 1ULL << b.second ) - 1 ) ) - 5 );
            }
         }
         std::unique_ptr<ImageFile> f;
         std::unique_ptr<CompressedVectorNode> cv;
         std::unique_ptr<CompressedVectorWriter> w;
         std::vector<SourceDestBuffer> sb;
         must( "describing records of many fields", lib( [&] {
                  f.reset( new ImageFile( "/sim/h.e57", "w" ) );
                  StructureNode proto( *f );
                  std::unique_ptr<StructureNode> g;
                  for ( unsigned i = 0; i < n; i++ )
                  {
                     if ( i % perGroup == 0 )
                     {
                        g.reset( new StructureNode( *f ) );
                        proto.set( strf( "g%u", i / perGroup ), *g );
                     }
                     auto b = bits.find( i );
                     const int64_t low = b == bits.end() ? 7 : -5, high = b == bits.end() ? 7 : int64_t( ( 1ULL << b->second ) - 1 ) - 5;
                     g->set( strf( "f%u", i % perGroup ), IntegerNode( *f, low, low, high ) );
                     sb.emplace_back( *f, path( i ), b == bits.end() ? sevens.data() : values[i].data(), records );
                  }
                  cv.reset( new CompressedVectorNode( *f, proto, VectorNode( *f, true ) ) );
                  f->root().set( "cv", *cv );
               } ) );
         Res o = lib( [&] { w.reset( new CompressedVectorWriter( cv->writer( sb ) ) ); } );
         if ( n > 32764 )
         {
            if ( o || o.err != ErrorBadPrototype )
            {
               fail( strf( "a writer for more fields than a packet can list: " ) + resStr( o ) );
            }
            PROBE( "too many fields refused" );
            if ( f->writerCount() != 0 || !f->isOpen() )
            {
               fail( "a refused writer is counted as open" );
            }
            lib( [&] { sb.clear(); cv.reset(); f->cancel(); f.reset(); } );
            nontrivial();
            return;
         }
         must( "opening a writer for many fields", o );
         must( "writing records of many fields", lib( [&] {
                  w->write( records );
                  w->close();
                  w.reset();
                  f->close();
                  sb.clear();
                  cv.reset();
                  f.reset();
               } ) );
         std::string bad;
         if ( c.chance( 1, 2 ) )
         {
            bad = validateFile( g_disk->bytes( "/sim/h.e57" ), nullptr );
            if ( !bad.empty() )
            {
               fail( "a file of records with many fields is not valid: " + bad );
            }
         }
         must( "reading records of many fields", lib( [&] {
                  f.reset( new ImageFile( "/sim/h.e57", "r" ) );
                  CompressedVectorNode in( f->root().get( "cv" ) );
                  if ( in.childCount() != int64_t( records ) )
                  {
                     bad = "record count";
                  }
                  std::map<unsigned, std::vector<int64_t>> got;
                  for ( auto &v : values )
                  {
                     got[v.first].assign( records, -99 );
                  }
                  for ( unsigned i = 0; i < 5; i++ )
                  {
                     got[unsigned( mix( seed, i + 5000 ) % n )].assign( records, -99 );
                  }
                  for ( auto &v : got )
                  {
                     sb.emplace_back( *f, path( v.first ), v.second.data(), records );
                  }
                  CompressedVectorReader rd = in.reader( sb );
                  const unsigned count = rd.read();
                  if ( count != records )
                  {
                     bad = "number of records delivered";
                  }
                  for ( auto &v : got )
                  {
                     auto e = values.find( v.first );
                     if ( v.second != ( e == values.end() ? sevens : e->second ) )
                     {
                        bad = "value of a field";
                     }
                  }
                  rd.close();
                  sb.clear();
                  f->close();
                  f.reset();
               } ) );
         if ( !bad.empty() )
         {
            fail( "records of many fields read wrong: " + bad );
         }
         PROBE( "records of many fields compared" );
         nontrivial();
      }
      FamilyReg r5( { "widecv", runWideCV, 5, 90 } );
      FamilyReg r4( { "bigtree", runBigTree, 6, 60 } );
      FamilyReg r3( { "longtext", runLongText, 2, 60 } );
      FamilyReg r1( { "hugeread", runHugeRead, 4 } );
      FamilyReg r2( { "hugewrite", runHugeWrite, 2, 150 } );
   }
}
