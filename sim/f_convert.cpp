// C24: record transfer between file fields and buffers of any memory type, with and without conversion and scaling.
#include "fam.h"
#include <cfloat>
#include <climits>
#include <cmath>
#include <limits>

namespace sim
{
   using namespace e57;

   namespace
   {
      // What a transfer of one value may do: throw, deliver one of at most two values, or deliver anything.
      struct Want
      {
         bool mustThrow = false;
         bool mayThrow = false;
         bool any = false;
         bool span = false; // any integer from i[0] to i[1]
         bool real = false; // r[] instead of i[]
         int n = 0;
         int64_t i[2] = { 0, 0 };
         double r[2] = { 0, 0 };
         static Want refuse()
         {
            Want w;
            w.mustThrow = true;
            return w;
         }
         static Want integer( int64_t v )
         {
            Want w;
            w.n = 1;
            w.i[0] = v;
            return w;
         }
         static Want floating( double v )
         {
            Want w;
            w.real = true;
            w.n = 1;
            w.r[0] = v;
            return w;
         }
         static Want whatever()
         {
            Want w;
            w.any = w.mayThrow = true;
            return w;
         }
         Want orThrow() const
         {
            Want w = *this;
            w.mayThrow = true;
            return w;
         }
         bool acceptsInt( int64_t v ) const
         {
            return any || ( span && v >= i[0] && v <= i[1] ) || ( !real && n > 0 && ( v == i[0] || ( n > 1 && v == i[1] ) ) );
         }
         bool acceptsReal( double v ) const
         {
            if ( any )
            {
               return true;
            }
            for ( int k = 0; k < n && real; k++ )
            {
               if ( v == r[k] || ( v != v && r[k] != r[k] ) )
               {
                  return true;
               }
            }
            return false;
         }
         std::string str() const
         {
            if ( mustThrow )
            {
               return "an error";
            }
            std::string s;
            for ( int k = 0; k < n; k++ )
            {
               s += ( k ? " or " : "" ) + ( real ? strf( "%.17g", r[k] ) : strf( "%lld", (long long)i[k] ) );
            }
            return any ? "anything" : mayThrow ? s + " or an error" : s;
         }
      };

      void intRange( MemRep r, int64_t &lo, int64_t &hi )
      {
         switch ( r )
         {
            case RI8:
               lo = INT8_MIN, hi = INT8_MAX;
               break;
            case RU8:
               lo = 0, hi = UINT8_MAX;
               break;
            case RI16:
               lo = INT16_MIN, hi = INT16_MAX;
               break;
            case RU16:
               lo = 0, hi = UINT16_MAX;
               break;
            case RI32:
               lo = INT32_MIN, hi = INT32_MAX;
               break;
            case RU32:
               lo = 0, hi = UINT32_MAX;
               break;
            default:
               lo = INT64_MIN, hi = INT64_MAX;
         }
      }
      bool isInt( MemRep r )
      {
         return r <= RI64;
      }

      // An integral-valued double within [lo,hi]?
      bool within( double x, int64_t lo, int64_t hi )
      {
         if ( !( x >= -9223372036854775808.0 && x < 9223372036854775808.0 ) )
         {
            return false;
         }
         int64_t v = int64_t( x );
         return v >= lo && v <= hi;
      }
      // x to an integer in [lo,hi]: the integers next to x, or an error when one of them is outside.
      Want toInt( double x, int64_t lo, int64_t hi, bool nearest )
      {
         if ( !std::isfinite( x ) )
         {
            return Want::refuse();
         }
         double f = std::floor( x ), c = std::ceil( x );
         if ( nearest && f != c && ( x - f ) != 0.5 )
         {
            f = c = ( x - f ) < 0.5 ? f : c;
         }
         bool fo = within( f, lo, hi ), co = within( c, lo, hi );
         if ( !fo && !co )
         {
            return Want::refuse();
         }
         Want w;
         if ( fo )
         {
            w.i[w.n++] = int64_t( f );
         }
         if ( co && ( !fo || f != c ) )
         {
            w.i[w.n++] = int64_t( c );
         }
         w.mayThrow = !fo || !co;
         return w;
      }
      // x, computed with rounding errors, to an integer in [lo,hi]
      Want toIntAbout( double x, int64_t lo, int64_t hi )
      {
         if ( !std::isfinite( x ) || std::fabs( x ) < 2251799813685248.0 )
         {
            return toInt( x, lo, hi, true );
         }
         double d = std::fabs( x ) * 1e-15 + 2;
         bool a = within( x - d, lo, hi ), b = within( x + d, lo, hi );
         if ( !a && !b )
         {
            Want w = Want::refuse();
            w.mayThrow = true;
            if ( x - d < double( lo ) && x + d > double( hi ) )
            {
               return Want::whatever();
            }
            return w;
         }
         Want w;
         w.span = true;
         w.n = 2;
         w.i[0] = a ? int64_t( x - d ) : lo;
         w.i[1] = b ? int64_t( x + d ) : hi;
         w.mayThrow = !a || !b;
         return w;
      }
      // x to single precision
      Want toSingle( double x )
      {
         if ( std::isinf( x ) )
         {
            return Want::floating( x ).orThrow();
         }
         if ( std::isnan( x ) )
         {
            return Want::floating( x );
         }
         if ( std::fabs( x ) > double( FLT_MAX ) )
         {
            return std::isinf( float( x ) ) ? Want::refuse() : Want::floating( double( float( x ) ) ).orThrow();
         }
         return Want::floating( double( float( x ) ) );
      }
      Want toBool( double x )
      {
         if ( std::isnan( x ) )
         {
            return Want::whatever();
         }
         return Want::integer( x != 0 );
      }

      double realOf( const DNode &leaf, uint64_t bits )
      {
         if ( leaf.single )
         {
            uint32_t b = uint32_t( bits );
            float f;
            memcpy( &f, &b, 4 );
            return f;
         }
         double d;
         memcpy( &d, &bits, 8 );
         return d;
      }
      uint64_t bitsOf( const DNode &leaf, double x )
      {
         if ( leaf.single )
         {
            float f = float( x );
            uint32_t b;
            memcpy( &b, &f, 4 );
            return b;
         }
         uint64_t b;
         memcpy( &b, &x, 8 );
         return b;
      }

      // ---- reading: stored value -> memory
      Want wantRead( const DNode &leaf, const FieldRep &fr, uint64_t bits )
      {
         if ( leaf.kind == KString )
         {
            return fr.rep == RStr ? Want::integer( 0 ) : Want::refuse();
         }
         if ( fr.rep == RStr )
         {
            return Want::refuse();
         }
         int64_t lo, hi;
         intRange( fr.rep, lo, hi );
         if ( leaf.kind == KFloat )
         {
            double x = realOf( leaf, bits );
            if ( fr.rep == RR64 )
            {
               return Want::floating( x );
            }
            if ( fr.rep == RR32 )
            {
               return leaf.single ? Want::floating( x ) : toSingle( x );
            }
            if ( !fr.conv )
            {
               return Want::refuse();
            }
            return fr.rep == RBool ? toBool( x ) : toInt( x, lo, hi, false );
         }
         int64_t raw = int64_t( bits );
         if ( leaf.kind == KScaled && fr.scal )
         {
            double x = double( raw ) * leaf.scale + leaf.offset;
            if ( fr.rep == RR64 || fr.rep == RR32 )
            {
               return !fr.conv ? Want::refuse() : fr.rep == RR64 ? Want::floating( x ) : toSingle( x );
            }
            if ( fr.rep == RBool )
            {
               if ( std::fabs( x ) < 1 && x != 0 )
               {
                  return Want::whatever();
               }
               return fr.conv ? toBool( x ) : toBool( x ).orThrow();
            }
            Want w = toIntAbout( x, lo, hi );
            return fr.conv ? w : w.orThrow();
         }
         if ( fr.rep == RR64 )
         {
            return fr.conv ? Want::floating( double( raw ) ) : Want::refuse();
         }
         if ( fr.rep == RR32 )
         {
            return fr.conv ? Want::floating( double( float( raw ) ) ) : Want::refuse();
         }
         if ( fr.rep == RBool )
         {
            Want w = Want::integer( raw != 0 );
            return fr.conv ? w : w.orThrow();
         }
         return raw >= lo && raw <= hi ? Want::integer( raw ) : Want::refuse();
      }

      // ---- writing: memory -> stored value. The memory value is iv (integers, bool) or rv (floats).
      Want wantWrite( const DNode &leaf, const FieldRep &fr, int64_t iv, double rv )
      {
         if ( leaf.kind == KString )
         {
            return fr.rep == RStr ? Want::integer( 0 ) : Want::refuse();
         }
         if ( fr.rep == RStr )
         {
            return Want::refuse();
         }
         const bool realMem = fr.rep == RR32 || fr.rep == RR64;
         if ( leaf.kind == KFloat )
         {
            if ( !realMem && !fr.conv )
            {
               return Want::refuse();
            }
            if ( !realMem )
            {
               return Want::floating( leaf.single ? double( float( iv ) ) : double( iv ) );
            }
            return leaf.single && fr.rep == RR64 ? toSingle( rv ) : Want::floating( rv );
         }
         if ( leaf.kind == KScaled && fr.scal )
         {
            if ( realMem && !fr.conv )
            {
               return Want::refuse();
            }
            double x = ( ( realMem ? rv : double( iv ) ) - leaf.offset ) / leaf.scale;
            Want w = toIntAbout( x, leaf.imin, leaf.imax );
            return fr.conv ? w : w.orThrow();
         }
         if ( realMem )
         {
            return fr.conv ? toInt( rv, leaf.imin, leaf.imax, false ) : Want::refuse();
         }
         if ( fr.rep == RBool && !fr.conv )
         {
            return Want::refuse();
         }
         return iv >= leaf.imin && iv <= leaf.imax ? Want::integer( iv ) : Want::refuse();
      }

      int64_t edgeInt( Rng &r )
      {
         static const int64_t e[] = { 0,         1,          -1,        2,          INT8_MIN,       INT8_MAX,   UINT8_MAX,
                                      INT16_MIN, INT16_MAX,  UINT16_MAX, INT32_MIN, INT32_MAX,      UINT32_MAX, 1 << 24,
                                      1LL << 53, INT64_MIN,  INT64_MAX, 1000,       -( 1LL << 53 ), 1LL << 62 };
         uint64_t v = uint64_t( e[r.below( sizeof e / sizeof *e )] );
         if ( r.below( 2 ) )
         {
            v += r.below( 5 ) - 2;
         }
         return int64_t( v );
      }
      double edgeReal( Rng &r )
      {
         double x;
         switch ( r.below( 4 ) )
         {
            case 0:
            {
               static const double e[] = { std::numeric_limits<double>::quiet_NaN(),
                                           std::numeric_limits<double>::infinity(),
                                           -std::numeric_limits<double>::infinity(),
                                           FLT_MAX,
                                           -FLT_MAX,
                                           1e300,
                                           -1e300,
                                           9223372036854775808.0,
                                           -9223372036854775808.0,
                                           18446744073709551616.0,
                                           2147483648.0,
                                           4294967296.0,
                                           1e-310,
                                           1e-40,
                                           -0.0,
                                           DBL_MAX };
               x = e[r.below( sizeof e / sizeof *e )];
               break;
            }
            case 1:
               x = double( edgeInt( r ) );
               break;
            case 2:
               x = double( edgeInt( r ) ) + ( r.below( 2 ) ? 0.5 : -0.25 );
               break;
            default:
               x = ( double( r.below( 200001 ) ) - 100000 ) / 1000;
         }
         if ( r.below( 6 ) == 0 )
         {
            x = std::nextafter( x, r.below( 2 ) ? 1e308 : -1e308 );
         }
         return x;
      }
      int64_t clampTo( int64_t v, const DNode &leaf )
      {
         return v < leaf.imin ? leaf.imin : v > leaf.imax ? leaf.imax : v;
      }

      DPtr drawLeaf( Choices &c, unsigned k )
      {
         auto n = std::make_shared<DNode>();
         n->name = strf( "f%u", k );
         n->kind = Kind( "\x02\x03\x04\x05"[c.weighted( { 3, 3, 4, 1 } )] );
         Rng r( c.sub() );
         if ( n->kind == KInt || n->kind == KScaled )
         {
            switch ( c.draw( 4 ) )
            {
               case 0:
                  n->imin = INT64_MIN;
                  n->imax = INT64_MAX;
                  break;
               case 1:
                  intRange( MemRep( c.draw( 7 ) ), n->imin, n->imax );
                  break;
               case 2:
                  n->imin = edgeInt( r );
                  n->imax = edgeInt( r );
                  if ( n->imin > n->imax )
                  {
                     std::swap( n->imin, n->imax );
                  }
                  break;
               default:
                  n->imin = -int64_t( c.draw( 300 ) );
                  n->imax = n->imin + c.draw( 600 );
            }
            n->iv = clampTo( 0, *n );
            if ( n->kind == KScaled )
            {
               static const double sc[] = { 1, 0.001, 0.5, 1e-6, 1000, 0.25, -0.25, 3.0, 1e-9, 1e30, 1e-300, 1e300 };
               static const double of[] = { 0, 1, -1000.5, 1e6, 0.25, 123456.789, -7, 1e18, 1e305 };
               n->scale = sc[c.draw( sizeof sc / sizeof *sc )];
               n->offset = of[c.draw( sizeof of / sizeof *of )];
            }
         }
         else if ( n->kind == KFloat )
         {
            n->single = c.chance( 1, 2 );
            n->fmin = n->single ? double( FLOAT_MIN ) : DOUBLE_MIN;
            n->fmax = n->single ? double( FLOAT_MAX ) : DOUBLE_MAX;
         }
         return n;
      }
      FieldRep drawAny( Choices &c, const DNode &leaf )
      {
         FieldRep f;
         if ( leaf.kind == KString ? c.chance( 7, 8 ) : c.chance( 1, 16 ) )
         {
            f.rep = RStr;
            return f;
         }
         f.rep = MemRep( c.draw( 10 ) );
         f.conv = c.chance( 3, 4 );
         f.scal = c.chance( 1, 2 );
         if ( c.chance( 1, 4 ) )
         {
            f.extraStride = 1 + c.draw( 20 );
         }
         return f;
      }

      int64_t memInt( const RBuf &b, size_t i )
      {
         const uint8_t *p = b.mem.get() + i * b.stride;
         switch ( b.fr.rep )
         {
#define GET( R, T )                                                                                                  \
   case R:                                                                                                           \
   {                                                                                                                 \
      T v;                                                                                                           \
      memcpy( &v, p, sizeof v );                                                                                     \
      return int64_t( v );                                                                                           \
   }
            GET( RI8, int8_t )
            GET( RU8, uint8_t )
            GET( RI16, int16_t )
            GET( RU16, uint16_t )
            GET( RI32, int32_t )
            GET( RU32, uint32_t )
            GET( RI64, int64_t )
            GET( RBool, uint8_t )
#undef GET
            default:
               throw HarnessError{ "not an integer buffer" };
         }
      }
      double memReal( const RBuf &b, size_t i )
      {
         const uint8_t *p = b.mem.get() + i * b.stride;
         if ( b.fr.rep == RR32 )
         {
            float f;
            memcpy( &f, p, 4 );
            return f;
         }
         double d;
         memcpy( &d, p, 8 );
         return d;
      }
      void putMem( RBuf &b, size_t i, int64_t iv, double rv )
      {
         uint8_t *p = b.mem.get() + i * b.stride;
         if ( b.fr.rep == RR32 )
         {
            float f = float( rv );
            memcpy( p, &f, 4 );
         }
         else if ( b.fr.rep == RR64 )
         {
            memcpy( p, &rv, 8 );
         }
         else if ( b.fr.rep == RBool )
         {
            *p = iv != 0;
         }
         else
         {
            memcpy( p, &iv, repSize( b.fr.rep ) ); // little endian
         }
      }

      FieldRep native( const DNode &leaf )
      {
         FieldRep f;
         f.rep = leaf.kind == KString ? RStr : leaf.kind == KFloat ? ( leaf.single ? RR32 : RR64 ) : RI64;
         return f;
      }
      std::string fieldStr( const DNode &n )
      {
         switch ( n.kind )
         {
            case KInt:
               return strf( "integer [%lld,%lld]", (long long)n.imin, (long long)n.imax );
            case KScaled:
               return strf( "scaled [%lld,%lld] scale %g offset %g", (long long)n.imin, (long long)n.imax, n.scale, n.offset );
            case KFloat:
               return n.single ? "single" : "double";
            default:
               return "string";
         }
      }
      std::string repStr( const FieldRep &f )
      {
         return strf( "%s%s%s", repName( f.rep ), f.conv ? " conv" : "", f.scal ? " scaled" : "" );
      }
      const char *kindStr( const DNode &n )
      {
         return n.kind == KInt ? "integer" : n.kind == KScaled ? "scaled integer" : n.kind == KFloat ? ( n.single ? "single" : "double" ) : "string";
      }

      struct Table
      {
         DPtr proto;
         std::vector<DPtr> f;
         std::vector<Column> col;
         std::vector<std::vector<Want>> want; // per field and record, when written through a conversion
         uint64_t n = 0;
         std::string path;
      };

      void drawProto( Choices &c, Table &t )
      {
         t.proto = std::make_shared<DNode>();
         t.proto->kind = KStruct;
         unsigned k = 1 + c.draw( 4 );
         for ( unsigned i = 0; i < k; i++ )
         {
            t.f.push_back( drawLeaf( c, i ) );
            t.proto->ch.push_back( t.f.back() );
            trace( "field %s: %s", t.f.back()->name.c_str(), fieldStr( *t.f.back() ).c_str() );
         }
         t.col.resize( k );
         t.n = c.chance( 1, 6 ) ? 500 + c.draw( 4000 ) : 1 + c.draw( 40 );
      }

      CompressedVectorNode makeCV( ImageFile &imf, Table &t )
      {
         CompressedVectorNode cv( imf, makeLibNode( imf, *t.proto ), VectorNode( imf, true ) );
         imf.root().set( t.path, cv );
         return cv;
      }

      // One reader over any fields with any memory types; throws Violation on a wrong delivery.
      void readOnce( Choices &c, ImageFile &imf, Table &t, bool faults, bool nativeOnly )
      {
         std::vector<RBuf> b;
         uint64_t cap = nativeOnly ? 64 : 1 + ( c.chance( 1, 2 ) ? c.draw( 8 ) : c.draw( t.n + 5 ) );
         for ( size_t k = 0; k < t.f.size(); k++ )
         {
            if ( !nativeOnly && t.f.size() > 1 && c.chance( 1, 3 ) )
            {
               continue;
            }
            RBuf x;
            x.path = t.f[k]->name;
            x.leaf = t.f[k].get();
            x.col = unsigned( k );
            x.fr = nativeOnly ? native( *t.f[k] ) : drawAny( c, *t.f[k] );
            b.push_back( std::move( x ) );
         }
         if ( b.empty() )
         {
            RBuf x;
            x.path = t.f[0]->name;
            x.leaf = t.f[0].get();
            x.fr = drawAny( c, *t.f[0] );
            b.push_back( std::move( x ) );
         }
         std::string desc;
         for ( auto &x : b )
         {
            x.alloc( cap );
            x.fillPattern( 0xA5 );
            desc += " " + x.path + ":" + repStr( x.fr );
         }
         trace( "read %s, %llu at a time:%s", t.path.c_str(), (unsigned long long)cap, desc.c_str() );
         std::unique_ptr<CompressedVectorReader> rd;
         auto faulted = [&] { return faults && g_disk->firedCount > 0; };
         Res r = lib( [&] {
            std::vector<SourceDestBuffer> s;
            for ( auto &x : b )
            {
               x.add( imf, s );
            }
            CompressedVectorNode cv( imf.root().get( t.path ) );
            rd.reset( new CompressedVectorReader( cv.reader( s ) ) );
         } );
         if ( !r.ok )
         {
            if ( faulted() )
            {
               return;
            }
            fail( "a record reader could not be made :: " + resStr( r ) );
         }
         uint64_t pos = 0;
         for ( ;; )
         {
            uint64_t m = std::min<uint64_t>( cap, t.n - pos );
            // what this call has to do
            bool must = false, may = false;
            std::string why;
            for ( auto &x : b )
            {
               for ( uint64_t i = 0; i < m; i++ )
               {
                  Want w = wantRead( *x.leaf, x.fr, x.leaf->kind == KString ? 0 : t.col[x.col].v[pos + i] );
                  if ( w.mustThrow && !must )
                  {
                     must = true;
                     uint64_t v = x.leaf->kind == KString ? 0 : t.col[x.col].v[pos + i];
                     why = strf( "from %s to %s :: record %llu, %s", kindStr( *x.leaf ), repStr( x.fr ).c_str(), (unsigned long long)( pos + i ),
                                 x.leaf->kind == KFloat ? strf( "%.17g", realOf( *x.leaf, v ) ).c_str()
                                                        : strf( "%lld", (long long)v ).c_str() );
                  }
                  may = may || w.mayThrow;
               }
            }
            unsigned got = 0;
            r = lib( [&] { got = rd->read(); } );
            if ( !r.ok )
            {
               if ( r.foreign )
               {
                  fail( "reading records: " + resStr( r ) );
               }
               if ( !must && !may && !faulted() )
               {
                  fail( "reading records that fit their buffers failed :: " + resStr( r ) + desc );
               }
               if ( must )
               {
                  PROBE( "transfer out of the file refused" );
                  if ( r.err == ErrorInternal && !faulted() )
                  {
                     fail( "a refused transfer is reported as an internal error :: " + resStr( r ) );
                  }
               }
               break;
            }
            if ( must )
            {
               fail( "a value that cannot be delivered was: " + why );
            }
            if ( got != m )
            {
               fail( strf( "wrong record count :: read returned %u instead of %llu at %llu", got, (unsigned long long)m, (unsigned long long)pos ) );
            }
            for ( auto &x : b )
            {
               for ( uint64_t i = 0; i < m; i++ )
               {
                  if ( x.leaf->kind == KString )
                  {
                     if ( x.strs[i] != t.col[x.col].s[pos + i] )
                     {
                        fail( "a string record was altered" );
                     }
                     continue;
                  }
                  uint64_t v = t.col[x.col].v[pos + i];
                  Want w = wantRead( *x.leaf, x.fr, v );
                  bool real = x.fr.rep == RR32 || x.fr.rep == RR64;
                  bool ok = real ? w.acceptsReal( memReal( x, i ) ) : w.acceptsInt( memInt( x, i ) );
                  if ( !ok )
                  {
                     fail( strf( "a value changed from %s to %s :: record %llu, delivered %s, expected %s", kindStr( *x.leaf ), repStr( x.fr ).c_str(),
                                 (unsigned long long)( pos + i ),
                                 real ? strf( "%.17g", memReal( x, i ) ).c_str() : strf( "%lld", (long long)memInt( x, i ) ).c_str(),
                                 w.str().c_str() ) );
                  }
                  ev( 0xC0, uint64_t( x.col ), real ? 1 : uint64_t( memInt( x, i ) ) );
               }
               std::string g = x.checkGaps( 0xA5 );
               if ( !g.empty() )
               {
                  fail( g );
               }
            }
            PROBE( "transfer out of the file exact" );
            pos += m;
            if ( m == 0 || ( !nativeOnly && c.chance( 1, 12 ) ) )
            {
               break;
            }
         }
         if ( c.chance( 1, 2 ) )
         {
            r = lib( [&] { rd->close(); } );
            if ( !r.ok )
            {
               fail( "closing a record reader: " + resStr( r ) );
            }
         }
         r = lib( [&] { rd.reset(); } );
         if ( !r.ok )
         {
            fail( "dropping a record reader: " + resStr( r ) );
         }
      }

      // Fills a table with stored values and writes it with native buffers.
      void fillStored( Choices &c, Table &t )
      {
         for ( size_t k = 0; k < t.f.size(); k++ )
         {
            DNode &l = *t.f[k];
            Rng r( c.sub() );
            unsigned tame = c.draw( 3 ); // how rare special values are
            for ( uint64_t i = 0; i < t.n; i++ )
            {
               bool special = tame == 2 || ( tame == 1 && r.below( 20 ) == 0 );
               if ( l.kind == KString )
               {
                  t.col[k].s.push_back( seededText( r, uint32_t( r.below( 20 ) ) ) );
               }
               else if ( l.kind == KFloat )
               {
                  double x = special ? edgeReal( r ) : double( r.below( 100 ) );
                  if ( l.single && std::fabs( x ) > double( FLT_MAX ) && std::isfinite( x ) )
                  {
                     x = FLT_MAX;
                  }
                  t.col[k].v.push_back( bitsOf( l, x ) );
               }
               else
               {
                  t.col[k].v.push_back( uint64_t( clampTo( special ? edgeInt( r ) : int64_t( r.below( 100 ) ), l ) ) );
               }
            }
         }
      }

      // Writes batches; the buffers hold what the table says (native) or are drawn here (conversion). Returns whether the session goes on.
      bool writeTable( Choices &c, ImageFile &imf, Table &t, bool nat )
      {
         std::vector<RBuf> b;
         std::vector<unsigned> tame;
         std::vector<uint64_t> seed;
         uint64_t cap = 1 + ( c.chance( 1, 2 ) ? c.draw( 8 ) : c.draw( t.n ) );
         std::string desc;
         for ( size_t k = 0; k < t.f.size(); k++ )
         {
            RBuf x;
            x.path = t.f[k]->name;
            x.leaf = t.f[k].get();
            x.col = unsigned( k );
            x.fr = nat ? native( *t.f[k] ) : drawAny( c, *t.f[k] );
            x.alloc( cap );
            desc += " " + x.path + ":" + repStr( x.fr );
            b.push_back( std::move( x ) );
            tame.push_back( c.draw( 3 ) );
            seed.push_back( c.sub() );
         }
         t.want.assign( t.f.size(), {} );
         trace( "write %s, %llu at a time:%s", t.path.c_str(), (unsigned long long)cap, desc.c_str() );
         std::unique_ptr<CompressedVectorWriter> wr;
         Res r = lib( [&] {
            CompressedVectorNode cv = makeCV( imf, t );
            std::vector<SourceDestBuffer> s;
            for ( auto &x : b )
            {
               x.add( imf, s );
            }
            wr.reset( new CompressedVectorWriter( cv.writer( s ) ) );
         } );
         if ( !r.ok )
         {
            fail( "a record writer could not be made :: " + resStr( r ) );
         }
         uint64_t pos = 0;
         std::vector<Rng> rng;
         for ( auto s : seed )
         {
            rng.emplace_back( s );
         }
         while ( pos < t.n )
         {
            uint64_t m = std::min<uint64_t>( cap, t.n - pos );
            if ( c.chance( 1, 4 ) )
            {
               m = 1 + c.draw( m );
            }
            bool must = false, may = false;
            std::string why;
            for ( size_t k = 0; k < b.size(); k++ )
            {
               RBuf &x = b[k];
               for ( uint64_t i = 0; i < m; i++ )
               {
                  bool special = tame[k] == 2 || ( tame[k] == 1 && rng[k].below( 20 ) == 0 );
                  int64_t iv = 0;
                  double rv = 0;
                  if ( x.fr.rep == RStr )
                  {
                     x.strs[i] = nat ? t.col[k].s[pos + i] : seededText( rng[k], uint32_t( rng[k].below( 20 ) ) );
                     if ( !nat )
                     {
                        t.col[k].s.push_back( x.strs[i] );
                     }
                  }
                  else if ( nat )
                  {
                     memcpy( x.mem.get() + i * x.stride, &t.col[k].v[pos + i], repSize( x.fr.rep ) );
                     continue;
                  }
                  else
                  {
                     if ( special )
                     {
                        iv = edgeInt( rng[k] );
                        rv = edgeReal( rng[k] );
                     }
                     else if ( x.leaf->kind == KScaled && x.fr.scal )
                     {
                        int64_t raw = clampTo( int64_t( rng[k].below( 100 ) ), *x.leaf );
                        rv = double( raw ) * x.leaf->scale + x.leaf->offset;
                        iv = within( std::floor( rv ), INT64_MIN, INT64_MAX ) ? int64_t( std::floor( rv ) ) : 0;
                     }
                     else
                     {
                        iv = x.leaf->kind == KFloat ? int64_t( rng[k].below( 100 ) ) : clampTo( int64_t( rng[k].below( 100 ) ), *x.leaf );
                        rv = double( iv );
                     }
                     if ( x.fr.rep == RR32 && std::fabs( rv ) > double( FLT_MAX ) && std::isfinite( rv ) )
                     {
                        rv = FLT_MAX;
                     }
                     putMem( x, i, iv, rv );
                     if ( x.fr.rep == RR32 || x.fr.rep == RR64 )
                     {
                        rv = memReal( x, i );
                     }
                     else
                     {
                        iv = memInt( x, i );
                     }
                  }
                  if ( nat )
                  {
                     continue;
                  }
                  Want w = wantWrite( *x.leaf, x.fr, iv, rv );
                  if ( w.mustThrow && !must )
                  {
                     must = true;
                     why = strf( "from %s to %s :: record %llu, %s", repStr( x.fr ).c_str(), kindStr( *x.leaf ), (unsigned long long)( pos + i ),
                                 x.fr.rep == RR32 || x.fr.rep == RR64 ? strf( "%.17g", rv ).c_str() : strf( "%lld", (long long)iv ).c_str() );
                  }
                  may = may || w.mayThrow;
                  t.want[k].push_back( w );
               }
            }
            r = lib( [&] { wr->write( m ); } );
            if ( !r.ok )
            {
               if ( r.foreign || ( !must && !may ) )
               {
                  fail( "writing records that fit their fields failed :: " + resStr( r ) + desc );
               }
               if ( must )
               {
                  PROBE( "transfer into the file refused" );
                  if ( r.err == ErrorInternal )
                  {
                     fail( "a refused transfer is reported as an internal error :: " + resStr( r ) );
                  }
               }
               r = lib( [&] { wr.reset(); } );
               if ( !r.ok )
               {
                  fail( "dropping a record writer: " + resStr( r ) );
               }
               return false;
            }
            if ( must )
            {
               fail( "a value that cannot be stored was accepted: " + why );
            }
            PROBE( "transfer into the file accepted" );
            pos += m;
         }
         r = lib( [&] {
            wr->close();
            wr.reset();
         } );
         if ( !r.ok )
         {
            fail( "closing a record writer: " + resStr( r ) );
         }
         return true;
      }

      // After writing through conversions: reads natively and checks every stored value; the table then holds what is stored.
      void readStored( ImageFile &imf, Table &t )
      {
         std::vector<RBuf> b;
         for ( size_t k = 0; k < t.f.size(); k++ )
         {
            RBuf x;
            x.path = t.f[k]->name;
            x.leaf = t.f[k].get();
            x.col = unsigned( k );
            x.fr = native( *t.f[k] );
            x.alloc( t.n + 1 );
            b.push_back( std::move( x ) );
         }
         unsigned got = 0;
         Res r = lib( [&] {
            std::vector<SourceDestBuffer> s;
            for ( auto &x : b )
            {
               x.add( imf, s );
            }
            CompressedVectorNode cv( imf.root().get( t.path ) );
            CompressedVectorReader rd = cv.reader( s );
            got = rd.read();
            rd.close();
         } );
         if ( !r.ok || got != t.n )
         {
            fail( strf( "records written through conversions cannot be read back :: %u of %llu, ", got, (unsigned long long)t.n ) + resStr( r ) );
         }
         for ( size_t k = 0; k < b.size(); k++ )
         {
            RBuf &x = b[k];
            for ( uint64_t i = 0; i < t.n; i++ )
            {
               if ( x.fr.rep == RStr )
               {
                  if ( x.strs[i] != t.col[k].s[i] )
                  {
                     fail( "a string record was altered" );
                  }
                  continue;
               }
               const Want &w = t.want[k][i];
               bool real = x.leaf->kind == KFloat;
               bool ok = real ? w.acceptsReal( memReal( x, i ) ) : w.acceptsInt( memInt( x, i ) );
               if ( !real && ( memInt( x, i ) < x.leaf->imin || memInt( x, i ) > x.leaf->imax ) )
               {
                  fail( "a stored value is outside the bounds of its field" );
               }
               if ( !ok )
               {
                  fail( strf( "a value was stored changed in a %s field :: record %llu, stored %s, expected %s", kindStr( *x.leaf ),
                              (unsigned long long)i,
                              real ? strf( "%.17g", memReal( x, i ) ).c_str() : strf( "%lld", (long long)memInt( x, i ) ).c_str(),
                              w.str().c_str() ) );
               }
               t.col[k].v.push_back( real ? bitsOf( *x.leaf, memReal( x, i ) ) : uint64_t( memInt( x, i ) ) );
            }
         }
      }

      // profile: 0 reads, 1 writes, 2 reads over a failing disk, 3 both in one history
      void runConvert( Choices &c, unsigned profile )
      {
         const char *path = "/sim/c.e57";
         std::vector<std::unique_ptr<Table>> ts;
         unsigned nt = 1 + c.draw( 3 );
         bool whole = true;
         {
            std::unique_ptr<ImageFile> imf;
            Res r = lib( [&] { imf.reset( new ImageFile( path, "w" ) ); } );
            if ( !r.ok )
            {
               throw Unsuitable{};
            }
            g_sh->sessions++;
            for ( unsigned k = 0; k < nt && whole; k++ )
            {
               auto t = std::make_unique<Table>();
               t->path = strf( "t%u", k );
               drawProto( c, *t );
               bool nat = profile == 0 || profile == 2 || ( profile == 3 && c.chance( 1, 2 ) );
               if ( nat )
               {
                  fillStored( c, *t );
               }
               whole = writeTable( c, *imf, *t, nat );
               if ( whole )
               {
                  ts.push_back( std::move( t ) );
               }
            }
            if ( !whole )
            {
               // the file is in no documented state: it must still go away quietly
               r = lib( [&] {
                  if ( c.chance( 1, 2 ) )
                  {
                     imf->cancel();
                  }
                  imf.reset();
               } );
               if ( !r.ok )
               {
                  fail( "abandoning a file after a refused transfer: " + resStr( r ) );
               }
               nontrivial();
               return;
            }
            r = lib( [&] {
               imf->close();
               imf.reset();
            } );
            if ( !r.ok )
            {
               fail( "closing a file: " + resStr( r ) );
            }
         }
         if ( profile == 2 )
         {
            // a trial session to learn the operations, then faults among them
            g_disk->logOps = true;
            g_disk->log.clear();
            std::unique_ptr<ImageFile> imf;
            Res r = lib( [&] { imf.reset( new ImageFile( path, "r" ) ); } );
            if ( !r.ok )
            {
               fail( "a file of records cannot be opened: " + resStr( r ) );
            }
            for ( auto &t : ts )
            {
               readOnce( c, *imf, *t, false, true );
            }
            lib( [&] { imf.reset(); } );
            std::vector<OpRec> log;
            log.swap( g_disk->log );
            g_disk->logOps = false;
            g_disk->clearPlan();
            g_disk->plan = drawPlan( c, log, PlanRead );
            g_disk->planPath = path;
            trace( "faults: %s", planStr( g_disk->plan ).c_str() );
         }
         bool faults = profile == 2;
         std::unique_ptr<ImageFile> imf;
         Res r = lib( [&] { imf.reset( new ImageFile( path, "r" ) ); } );
         g_sh->sessions++;
         if ( !r.ok )
         {
            if ( faults && g_disk->firedCount > 0 )
            {
               g_disk->clearPlan();
               nontrivial();
               return;
            }
            fail( "a file of converted records cannot be opened: " + resStr( r ) );
         }
         if ( !faults )
         {
            for ( auto &t : ts )
            {
               if ( t->want[0].size() )
               {
                  readStored( *imf, *t );
               }
            }
         }
         unsigned rounds = profile == 1 ? 1 : 2 + c.draw( 5 );
         for ( unsigned k = 0; k < rounds; k++ )
         {
            readOnce( c, *imf, *ts[c.draw( ts.size() )], faults, false );
         }
         if ( faults )
         {
            g_disk->clearPlan();
         }
         // whatever was refused before, plain reading still delivers everything
         for ( auto &t : ts )
         {
            readOnce( c, *imf, *t, faults, true );
         }
         r = lib( [&] {
            imf->close();
            imf.reset();
         } );
         if ( !r.ok )
         {
            fail( "closing a file after reading: " + resStr( r ) );
         }
         nontrivial();
      }
      FamilyReg reg( { "convert", runConvert, 4 } );
   }
}
