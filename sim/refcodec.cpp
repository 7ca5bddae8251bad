#include "refcodec.h"
#include <algorithm>
#include <cerrno>
#include <cfloat>
#include <climits>
#include <cmath>

namespace sim
{
   // ------------------------------------------------------------------ pages
   uint32_t crc32c( const uint8_t *p, size_t n )
   {
      static uint32_t tab[8][256];
      static bool init = false;
      if ( !init )
      {
         for ( uint32_t i = 0; i < 256; i++ )
         {
            uint32_t c = i;
            for ( int k = 0; k < 8; k++ )
            {
               c = ( c >> 1 ) ^ ( ( c & 1 ) ? 0x82F63B78u : 0 );
            }
            tab[0][i] = c;
         }
         for ( uint32_t i = 0; i < 256; i++ )
         {
            for ( int k = 1; k < 8; k++ )
            {
               tab[k][i] = ( tab[k - 1][i] >> 8 ) ^ tab[0][tab[k - 1][i] & 255];
            }
         }
         init = true;
      }
      uint32_t c = 0xFFFFFFFFu;
      while ( n >= 8 )
      {
         uint32_t a, b;
         memcpy( &a, p, 4 );
         memcpy( &b, p + 4, 4 );
         a ^= c;
         c = tab[7][a & 255] ^ tab[6][( a >> 8 ) & 255] ^ tab[5][( a >> 16 ) & 255] ^ tab[4][a >> 24] ^ tab[3][b & 255] ^
             tab[2][( b >> 8 ) & 255] ^ tab[1][( b >> 16 ) & 255] ^ tab[0][b >> 24];
         p += 8;
         n -= 8;
      }
      while ( n-- )
      {
         c = ( c >> 8 ) ^ tab[0][( c ^ *p++ ) & 255];
      }
      return c ^ 0xFFFFFFFFu;
   }
   static void sealPage( uint8_t *page )
   {
      uint32_t c = crc32c( page, 1020 );
      page[1020] = uint8_t( c >> 24 );
      page[1021] = uint8_t( c >> 16 );
      page[1022] = uint8_t( c >> 8 );
      page[1023] = uint8_t( c );
   }
   void sealPages( std::vector<uint8_t> &b )
   {
      for ( size_t i = 0; i + 1024 <= b.size(); i += 1024 )
      {
         sealPage( &b[i] );
      }
   }
   bool pageOk( const std::vector<uint8_t> &b, size_t page )
   {
      const uint8_t *p = &b[page * 1024];
      uint32_t c = crc32c( p, 1020 );
      return p[1020] == uint8_t( c >> 24 ) && p[1021] == uint8_t( c >> 16 ) && p[1022] == uint8_t( c >> 8 ) && p[1023] == uint8_t( c );
   }
   std::vector<uint8_t> toPhysical( std::vector<uint8_t> l )
   {
      size_t pages = ( l.size() + 1019 ) / 1020;
      l.resize( pages * 1020 );
      std::vector<uint8_t> out( pages * 1024 );
      for ( size_t i = 0; i < pages; i++ )
      {
         memcpy( &out[i * 1024], &l[i * 1020], 1020 );
         sealPage( &out[i * 1024] );
      }
      return out;
   }
   std::vector<uint8_t> toLogical( const std::vector<uint8_t> &p )
   {
      size_t pages = p.size() / 1024;
      std::vector<uint8_t> out( pages * 1020 );
      for ( size_t i = 0; i < pages; i++ )
      {
         memcpy( &out[i * 1020], &p[i * 1024], 1020 );
      }
      return out;
   }
   static uint64_t le( const uint8_t *p, int n )
   {
      uint64_t v = 0;
      for ( int i = n - 1; i >= 0; i-- )
      {
         v = ( v << 8 ) | p[i];
      }
      return v;
   }
   static void putLe( std::vector<uint8_t> &o, uint64_t v, int n )
   {
      for ( int i = 0; i < n; i++ )
      {
         o.push_back( uint8_t( v >> ( 8 * i ) ) );
      }
   }
   static void setLe( std::vector<uint8_t> &o, size_t at, uint64_t v, int n )
   {
      for ( int i = 0; i < n; i++ )
      {
         o[at + size_t( i )] = uint8_t( v >> ( 8 * i ) );
      }
   }

   // ------------------------------------------------------------------ XML
   namespace
   {
      struct XParser
      {
         const std::string &s;
         size_t p = 0;
         explicit XParser( const std::string &str ) : s( str )
         {
         }
         [[noreturn]] void bad( const char *m )
         {
            throw strf( "XML not well-formed at byte %zu: %s", p, m );
         }
         bool starts( const char *t )
         {
            return s.compare( p, strlen( t ), t ) == 0;
         }
         void ws()
         {
            while ( p < s.size() && strchr( " \t\r\n", s[p] ) && s[p] )
            {
               p++;
            }
         }
         void misc()
         {
            for ( ;; )
            {
               ws();
               if ( starts( "<!--" ) )
               {
                  comment();
               }
               else if ( starts( "<?" ) )
               {
                  size_t e = s.find( "?>", p );
                  if ( e == std::string::npos )
                  {
                     bad( "processing instruction" );
                  }
                  p = e + 2;
               }
               else
               {
                  return;
               }
            }
         }
         void comment()
         {
            size_t e = s.find( "-->", p + 4 );
            if ( e == std::string::npos )
            {
               bad( "comment" );
            }
            p = e + 3;
         }
         std::string name()
         {
            size_t b = p;
            while ( p < s.size() && ( isalnum( uint8_t( s[p] ) ) || strchr( "_:.-", s[p] ) || uint8_t( s[p] ) >= 128 ) && s[p] )
            {
               p++;
            }
            if ( p == b || isdigit( uint8_t( s[b] ) ) || s[b] == '-' || s[b] == '.' )
            {
               bad( "name" );
            }
            return s.substr( b, p - b );
         }
         void entity( std::string &out )
         {
            size_t e = s.find( ';', p );
            if ( e == std::string::npos || e - p > 12 )
            {
               bad( "bare &" );
            }
            std::string n = s.substr( p + 1, e - p - 1 );
            p = e + 1;
            if ( n == "lt" )
            {
               out += '<';
            }
            else if ( n == "gt" )
            {
               out += '>';
            }
            else if ( n == "amp" )
            {
               out += '&';
            }
            else if ( n == "quot" )
            {
               out += '"';
            }
            else if ( n == "apos" )
            {
               out += '\'';
            }
            else if ( n.size() > 1 && n[0] == '#' )
            {
               uint32_t v = n[1] == 'x' ? uint32_t( strtoul( n.c_str() + 2, nullptr, 16 ) ) : uint32_t( strtoul( n.c_str() + 1, nullptr, 10 ) );
               if ( v < 0x80 )
               {
                  out += char( v );
               }
               else if ( v < 0x800 )
               {
                  out += char( 0xC0 | ( v >> 6 ) );
                  out += char( 0x80 | ( v & 63 ) );
               }
               else if ( v < 0x10000 )
               {
                  out += char( 0xE0 | ( v >> 12 ) );
                  out += char( 0x80 | ( ( v >> 6 ) & 63 ) );
                  out += char( 0x80 | ( v & 63 ) );
               }
               else
               {
                  out += char( 0xF0 | ( v >> 18 ) );
                  out += char( 0x80 | ( ( v >> 12 ) & 63 ) );
                  out += char( 0x80 | ( ( v >> 6 ) & 63 ) );
                  out += char( 0x80 | ( v & 63 ) );
               }
            }
            else
            {
               bad( "unknown entity" );
            }
         }
         void addChar( std::string &out )
         {
            uint8_t c = uint8_t( s[p] );
            if ( c < 0x20 && c != '\t' && c != '\n' && c != '\r' )
            {
               bad( "control character" );
            }
            if ( c == '\r' )
            {
               // line end normalisation
               out += '\n';
               p++;
               if ( p < s.size() && s[p] == '\n' )
               {
                  p++;
               }
               return;
            }
            out += s[p++];
         }
         std::shared_ptr<XElem> element( int depth )
         {
            if ( depth > 2000 )
            {
               bad( "too deep" );
            }
            auto e = std::make_shared<XElem>();
            p++; // <
            e->name = name();
            for ( ;; )
            {
               size_t before = p;
               ws();
               if ( p >= s.size() )
               {
                  bad( "unterminated tag" );
               }
               if ( starts( "/>" ) )
               {
                  p += 2;
                  return e;
               }
               if ( s[p] == '>' )
               {
                  p++;
                  break;
               }
               if ( before == p )
               {
                  bad( "missing space before attribute" );
               }
               std::string an = name();
               ws();
               if ( p >= s.size() || s[p] != '=' )
               {
                  bad( "attribute without value" );
               }
               p++;
               ws();
               if ( p >= s.size() || ( s[p] != '"' && s[p] != '\'' ) )
               {
                  bad( "attribute value not quoted" );
               }
               char qc = s[p++];
               std::string v;
               while ( p < s.size() && s[p] != qc )
               {
                  if ( s[p] == '<' )
                  {
                     bad( "< in attribute" );
                  }
                  if ( s[p] == '&' )
                  {
                     entity( v );
                  }
                  else
                  {
                     addChar( v );
                  }
               }
               if ( p >= s.size() )
               {
                  bad( "unterminated attribute" );
               }
               p++;
               if ( e->attr( an ) )
               {
                  bad( "duplicate attribute" );
               }
               e->attrs.emplace_back( an, v );
            }
            for ( ;; )
            {
               if ( p >= s.size() )
               {
                  bad( "unterminated element" );
               }
               if ( starts( "</" ) )
               {
                  p += 2;
                  std::string en = name();
                  if ( en != e->name )
                  {
                     bad( "mismatched end tag" );
                  }
                  ws();
                  if ( p >= s.size() || s[p] != '>' )
                  {
                     bad( "end tag" );
                  }
                  p++;
                  return e;
               }
               if ( starts( "<!--" ) )
               {
                  comment();
               }
               else if ( starts( "<![CDATA[" ) )
               {
                  size_t end = s.find( "]]>", p );
                  if ( end == std::string::npos )
                  {
                     bad( "CDATA" );
                  }
                  p += 9;
                  while ( p < end )
                  {
                     addChar( e->text );
                  }
                  p = end + 3;
               }
               else if ( starts( "<?" ) )
               {
                  misc();
               }
               else if ( s[p] == '<' )
               {
                  e->ch.push_back( element( depth + 1 ) );
               }
               else if ( s[p] == '&' )
               {
                  entity( e->text );
               }
               else
               {
                  if ( starts( "]]>" ) )
                  {
                     bad( "]]> in text" );
                  }
                  addChar( e->text );
               }
            }
         }
      };
   }
   std::shared_ptr<XElem> parseXml( const std::string &s )
   {
      XParser x( s );
      if ( s.compare( 0, 3, "\xEF\xBB\xBF" ) == 0 )
      {
         x.p = 3;
      }
      if ( !x.starts( "<?xml" ) )
      {
         x.bad( "no XML declaration" );
      }
      x.misc();
      if ( x.p >= s.size() || s[x.p] != '<' )
      {
         x.bad( "no root element" );
      }
      auto r = x.element( 0 );
      x.misc();
      // trailing padding
      while ( x.p < s.size() && s[x.p] == 0 )
      {
         x.p++;
      }
      if ( x.p != s.size() )
      {
         x.bad( "content after the root element" );
      }
      return r;
   }

   // ------------------------------------------------------------------ validation
   namespace
   {
      unsigned bitsFor( int64_t lo, int64_t hi )
      {
         uint64_t span = uint64_t( hi ) - uint64_t( lo );
         unsigned b = 0;
         while ( span )
         {
            b++;
            span >>= 1;
         }
         return b;
      }

      struct Extent
      {
         uint64_t lo, hi; // logical
         std::string what;
      };

      struct Validator
      {
         const std::vector<uint8_t> &phys;
         std::vector<uint8_t> lg;
         const ValidateOpts &o;
         std::vector<Extent> ext;
         std::map<std::string, std::string> ns;

         [[noreturn]] void bad( const std::string &m )
         {
            throw m;
         }
         uint64_t logical( uint64_t p, const std::string &what )
         {
            if ( p % 1024 >= 1020 || p >= phys.size() )
            {
               bad( strf( "%s: physical offset %llu is not inside a page", what.c_str(), (unsigned long long)p ) );
            }
            return logOf( p );
         }
         const uint8_t *at( uint64_t l, uint64_t n, const std::string &what )
         {
            if ( l > lg.size() || n > lg.size() - l )
            {
               bad( what + " extends beyond the end of the file" );
            }
            return lg.data() + l;
         }

         static int64_t toInt( const std::string &s )
         {
            std::string t = s;
            while ( !t.empty() && isspace( uint8_t( t.back() ) ) )
            {
               t.pop_back();
            }
            size_t b = 0;
            while ( b < t.size() && isspace( uint8_t( t[b] ) ) )
            {
               b++;
            }
            t = t.substr( b );
            if ( t.empty() )
            {
               return 0;
            }
            char *e = nullptr;
            errno = 0;
            long long v = strtoll( t.c_str(), &e, 10 );
            if ( *e || errno )
            {
               throw "bad integer text '" + t.substr( 0, 60 ) + "'";
            }
            return v;
         }
         static double toDbl( const std::string &s )
         {
            if ( s.find_first_not_of( " \t\r\n" ) == std::string::npos )
            {
               return 0;
            }
            char *e = nullptr;
            double v = strtod( s.c_str(), &e );
            while ( *e && isspace( uint8_t( *e ) ) )
            {
               e++;
            }
            if ( *e )
            {
               throw "bad number text '" + s.substr( 0, 60 ) + "'";
            }
            return v;
         }
         int64_t intAttr( const XElem &e, const char *n, int64_t dflt )
         {
            auto a = e.attr( n );
            return a ? toInt( *a ) : dflt;
         }
         double dblAttr( const XElem &e, const char *n, double dflt )
         {
            auto a = e.attr( n );
            return a ? toDbl( *a ) : dflt;
         }

         void checkName( const std::string &n )
         {
            size_t k = n.find( ':' );
            if ( k != std::string::npos && !ns.count( n.substr( 0, k ) ) )
            {
               bad( "element " + n + " uses an undeclared prefix" );
            }
         }

         void node( const XElem &e, const DNode &n, const std::string &path )
         {
            static const char *kn[] = { "Structure", "Vector", "Integer", "ScaledInteger", "Float", "String", "Blob", "CompressedVector" };
            auto t = e.attr( "type" );
            if ( !t || *t != kn[n.kind] )
            {
               bad( path + ": element type is " + ( t ? *t : "missing" ) + ", expected " + kn[n.kind] );
            }
            checkName( e.name );
            switch ( n.kind )
            {
               case KStruct:
               case KVec:
                  if ( n.kind == KVec && ( intAttr( e, "allowHeterogeneousChildren", 0 ) != 0 ) != n.hetero )
                  {
                     bad( path + ": allowHeterogeneousChildren differs" );
                  }
                  if ( e.ch.size() != n.ch.size() )
                  {
                     bad( strf( "%s: %zu child elements, expected %zu", path.c_str(), e.ch.size(), n.ch.size() ) );
                  }
                  for ( size_t i = 0; i < n.ch.size(); i++ )
                  {
                     if ( n.kind == KStruct && e.ch[i]->name != n.ch[i]->name )
                     {
                        bad( path + ": child named " + e.ch[i]->name + ", expected " + n.ch[i]->name );
                     }
                     node( *e.ch[i], *n.ch[i], path + "/" + e.ch[i]->name );
                  }
                  break;
               case KInt:
               case KScaled:
               {
                  int64_t lo = intAttr( e, "minimum", INT64_MIN ), hi = intAttr( e, "maximum", INT64_MAX ), v = toInt( e.text );
                  if ( lo != n.imin || hi != n.imax || v != n.iv )
                  {
                     bad( strf( "%s: %lld [%lld,%lld] stored, expected %lld [%lld,%lld]", path.c_str(), (long long)v, (long long)lo, (long long)hi,
                                (long long)n.iv, (long long)n.imin, (long long)n.imax ) );
                  }
                  if ( n.kind == KScaled && ( dblAttr( e, "scale", 1 ) != n.scale || dblAttr( e, "offset", 0 ) != n.offset ) )
                  {
                     bad( path + ": scale or offset differs" );
                  }
                  break;
               }
               case KFloat:
               {
                  auto p = e.attr( "precision" );
                  bool single = p && *p == "single";
                  if ( single != n.single )
                  {
                     bad( path + ": precision differs" );
                  }
                  double dl = single ? double( e57::FLOAT_MIN ) : e57::DOUBLE_MIN, dh = single ? double( e57::FLOAT_MAX ) : e57::DOUBLE_MAX;
                  double lo = dblAttr( e, "minimum", dl ), hi = dblAttr( e, "maximum", dh ), v = toDbl( e.text );
                  bool ok = single ? float( lo ) == float( n.fmin ) && float( hi ) == float( n.fmax ) && float( v ) == float( n.fv )
                                   : lo == n.fmin && hi == n.fmax && v == n.fv;
                  if ( !ok )
                  {
                     bad( strf( "%s: float %.17g [%.17g,%.17g] stored, expected %.17g [%.17g,%.17g]", path.c_str(), v, lo, hi, n.fv, n.fmin, n.fmax ) );
                  }
                  break;
               }
               case KString:
                  if ( e.text != n.sv )
                  {
                     bad( path + ": stored text differs" );
                  }
                  break;
               case KBlob:
                  blob( e, n.blob.size(), &n.blob, path );
                  break;
               case KCV:
                  cv( e, n, path );
                  break;
            }
         }

         void blob( const XElem &e, uint64_t size, const std::vector<uint8_t> *want, const std::string &path )
         {
            if ( !e.attr( "fileOffset" ) || !e.attr( "length" ) )
            {
               bad( path + ": blob without fileOffset or length" );
            }
            uint64_t len = uint64_t( intAttr( e, "length", 0 ) );
            if ( want && len != size )
            {
               bad( path + ": blob length differs" );
            }
            uint64_t l = logical( uint64_t( intAttr( e, "fileOffset", 0 ) ), path );
            if ( l % 4 )
            {
               bad( path + ": blob section not aligned" );
            }
            const uint8_t *h = at( l, 16, path + " blob header" );
            if ( h[0] != 0 )
            {
               bad( path + ": blob section id is not 0" );
            }
            uint64_t sl = le( h + 8, 8 );
            if ( sl < 16 + len || sl > 16 + len + 4096 )
            {
               bad( strf( "%s: blob section length %llu for %llu bytes", path.c_str(), (unsigned long long)sl, (unsigned long long)len ) );
            }
            const uint8_t *d = at( l + 16, len, path + " blob data" );
            at( l, sl, path + " blob section" );
            ext.push_back( { l, l + sl, path } );
            if ( want && memcmp( d, want->data(), len ) )
            {
               bad( path + ": blob bytes differ" );
            }
         }

         void cv( const XElem &e, const DNode &n, const std::string &path )
         {
            uint64_t cnt = uint64_t( intAttr( e, "recordCount", 0 ) );
            if ( cnt != n.nrec && !o.skipRecords.count( &n ) )
            {
               bad( strf( "%s: recordCount %llu, expected %llu", path.c_str(), (unsigned long long)cnt, (unsigned long long)n.nrec ) );
            }
            const XElem *pr = nullptr, *co = nullptr;
            for ( auto &x : e.ch )
            {
               if ( x->name == "prototype" )
               {
                  pr = x.get();
               }
               if ( x->name == "codecs" )
               {
                  co = x.get();
               }
            }
            if ( !pr || !co || e.ch.size() != 2 )
            {
               bad( path + ": prototype or codecs missing" );
            }
            node( *pr, *n.proto, path + "/prototype" );
            node( *co, *n.codecs, path + "/codecs" );
            uint64_t l = logical( uint64_t( intAttr( e, "fileOffset", 0 ) ), path );
            if ( l % 4 )
            {
               bad( path + ": section not aligned" );
            }
            const uint8_t *h = at( l, 32, path + " section header" );
            if ( h[0] != 1 )
            {
               bad( path + ": section id is not 1" );
            }
            for ( int i = 1; i < 8; i++ )
            {
               if ( h[i] )
               {
                  bad( path + ": reserved bytes of the section header are not zero" );
               }
            }
            uint64_t sl = le( h + 8, 8 ), dataOff = le( h + 16, 8 ), idxOff = le( h + 24, 8 );
            at( l, sl, path + " section" );
            if ( sl < 32 || sl % 4 )
            {
               bad( strf( "%s: section length %llu", path.c_str(), (unsigned long long)sl ) );
            }
            uint64_t end = l + sl;
            ext.push_back( { l, end, path } );
            // packets tile the section
            uint64_t pos = l + 32;
            std::set<uint64_t> dataPk, idxPk;
            std::vector<std::vector<uint8_t>> streams( n.leaves.size() );
            bool skip = o.skipRecords.count( &n ) != 0;
            while ( pos < end )
            {
               if ( end - pos < 4 )
               {
                  bad( path + ": rest of the section is no packet" );
               }
               const uint8_t *p = at( pos, 4, path + " packet" );
               uint64_t plen = le( p + 2, 2 ) + 1;
               if ( plen % 4 || plen > end - pos )
               {
                  bad( strf( "%s: packet at %llu has length %llu, section has %llu left", path.c_str(), (unsigned long long)pos,
                             (unsigned long long)plen, (unsigned long long)( end - pos ) ) );
               }
               p = at( pos, plen, path + " packet" );
               if ( p[0] == 1 )
               {
                  if ( plen < 6 )
                  {
                     bad( path + ": data packet too short" );
                  }
                  dataPk.insert( pos );
                  uint64_t bc = le( p + 4, 2 );
                  if ( bc != n.leaves.size() )
                  {
                     bad( strf( "%s: data packet with %llu streams, prototype has %zu fields", path.c_str(), (unsigned long long)bc, n.leaves.size() ) );
                  }
                  uint64_t need = 6 + 2 * bc;
                  if ( need > plen )
                  {
                     bad( path + ": stream table exceeds packet" );
                  }
                  uint64_t q = need;
                  for ( uint64_t i = 0; i < bc; i++ )
                  {
                     uint64_t bl = le( p + 6 + 2 * i, 2 );
                     if ( q + bl > plen )
                     {
                        bad( path + ": streams exceed packet" );
                     }
                     streams[i].insert( streams[i].end(), p + q, p + q + bl );
                     q += bl;
                  }
                  if ( plen - q > 3 )
                  {
                     bad( strf( "%s: data packet has %llu unused bytes", path.c_str(), (unsigned long long)( plen - q ) ) );
                  }
                  for ( ; q < plen; q++ )
                  {
                     if ( p[q] )
                     {
                        bad( path + ": packet padding is not zero" );
                     }
                  }
               }
               else if ( p[0] == 0 )
               {
                  if ( plen < 16 )
                  {
                     bad( path + ": index packet too short" );
                  }
                  idxPk.insert( pos );
                  uint64_t ec = le( p + 4, 2 );
                  if ( ec == 0 || ec > 2048 || 16 + 16 * ec > plen )
                  {
                     bad( strf( "%s: index packet with %llu entries", path.c_str(), (unsigned long long)ec ) );
                  }
                  if ( p[6] > 5 )
                  {
                     bad( path + ": index level" );
                  }
                  for ( int i = 7; i < 16; i++ )
                  {
                     if ( p[i] )
                     {
                        bad( path + ": index packet reserved bytes not zero" );
                     }
                  }
                  if ( p[1] & ~1 )
                  {
                     bad( path + ": index packet flags" );
                  }
                  uint64_t prev = 0;
                  for ( uint64_t i = 0; i < ec; i++ )
                  {
                     uint64_t rec = le( p + 16 + 16 * i, 8 ), off = le( p + 24 + 16 * i, 8 );
                     if ( i && rec < prev )
                     {
                        bad( path + ": index entries out of order" );
                     }
                     prev = rec;
                     uint64_t lo = logical( off, path + " index entry" );
                     if ( lo < l || lo >= end )
                     {
                        bad( path + ": index entry points outside the section" );
                     }
                     if ( p[6] == 0 && !dataPk.count( lo ) )
                     {
                        // may point forward; checked against the tiling afterwards
                        pendingIdx.push_back( lo );
                     }
                  }
               }
               else if ( p[0] == 2 )
               {
               }
               else
               {
                  bad( strf( "%s: packet type %u at %llu", path.c_str(), p[0], (unsigned long long)pos ) );
               }
               pos += plen;
            }
            for ( auto x : pendingIdx )
            {
               if ( !dataPk.count( x ) )
               {
                  bad( path + ": index entry does not point to a data packet" );
               }
            }
            pendingIdx.clear();
            if ( n.nrec && !skip )
            {
               uint64_t dl = logical( dataOff, path + " dataPhysicalOffset" );
               if ( !dataPk.count( dl ) || dl != *dataPk.begin() )
               {
                  bad( path + ": dataPhysicalOffset is not the first data packet" );
               }
            }
            if ( idxOff )
            {
               uint64_t il = logical( idxOff, path + " indexPhysicalOffset" );
               if ( !idxPk.count( il ) )
               {
                  bad( path + ": indexPhysicalOffset is not an index packet" );
               }
            }
            if ( !skip )
            {
               for ( size_t i = 0; i < n.leaves.size(); i++ )
               {
                  stream( *n.leaves[i], n.cols[i], streams[i], n.nrec, path + " field " + n.leafPaths[i] );
               }
            }
         }
         std::vector<uint64_t> pendingIdx;

         void stream( const DNode &lf, const Column &c, const std::vector<uint8_t> &s, uint64_t n, const std::string &path )
         {
            switch ( lf.kind )
            {
               case KInt:
               case KScaled:
               {
                  unsigned b = bitsFor( lf.imin, lf.imax );
                  unsigned __int128 need = (unsigned __int128)b * n;
                  uint64_t bytes = uint64_t( ( need + 7 ) / 8 );
                  if ( s.size() < bytes || s.size() > bytes + 7 )
                  {
                     bad( strf( "%s: stream holds %zu bytes, %llu records of %u bits need %llu", path.c_str(), s.size(), (unsigned long long)n, b,
                                (unsigned long long)bytes ) );
                  }
                  uint64_t bit = 0;
                  for ( uint64_t i = 0; i < n; i++ )
                  {
                     uint64_t v = 0;
                     for ( unsigned k = 0; k < b; )
                     {
                        unsigned off = unsigned( bit & 7 );
                        unsigned take = std::min( 8 - off, b - k );
                        v |= uint64_t( ( s[bit >> 3] >> off ) & ( ( 1u << take ) - 1 ) ) << k;
                        k += take;
                        bit += take;
                     }
                     int64_t got = int64_t( uint64_t( lf.imin ) + v );
                     if ( got != int64_t( c.v[i] ) )
                     {
                        bad( strf( "%s: record %llu decodes to %lld, expected %lld", path.c_str(), (unsigned long long)i, (long long)got, (long long)c.v[i] ) );
                     }
                  }
                  for ( ; bit < s.size() * 8; bit++ )
                  {
                     if ( ( s[bit >> 3] >> ( bit & 7 ) ) & 1 )
                     {
                        bad( path + ": bits after the last record are not zero" );
                     }
                  }
                  break;
               }
               case KFloat:
               {
                  unsigned w = lf.single ? 4 : 8;
                  if ( s.size() != n * w )
                  {
                     bad( strf( "%s: stream holds %zu bytes, expected %llu", path.c_str(), s.size(), (unsigned long long)( n * w ) ) );
                  }
                  for ( uint64_t i = 0; i < n; i++ )
                  {
                     if ( le( &s[i * w], int( w ) ) != c.v[i] )
                     {
                        bad( strf( "%s: record %llu has other bits", path.c_str(), (unsigned long long)i ) );
                     }
                  }
                  break;
               }
               default:
               {
                  size_t p = 0;
                  for ( uint64_t i = 0; i < n; i++ )
                  {
                     if ( p >= s.size() )
                     {
                        bad( strf( "%s: stream ends before record %llu", path.c_str(), (unsigned long long)i ) );
                     }
                     uint64_t len;
                     if ( s[p] & 1 )
                     {
                        if ( s.size() - p < 8 )
                        {
                           bad( path + ": truncated length prefix" );
                        }
                        len = le( &s[p], 8 ) >> 1;
                        p += 8;
                     }
                     else
                     {
                        len = s[p] >> 1;
                        p++;
                     }
                     if ( s.size() - p < len || c.s[i].size() != len || memcmp( s.data() + p, c.s[i].data(), len ) )
                     {
                        bad( strf( "%s: record %llu string differs", path.c_str(), (unsigned long long)i ) );
                     }
                     p += len;
                  }
                  if ( p != s.size() )
                  {
                     bad( path + ": bytes after the last string" );
                  }
               }
            }
         }

         // The extents that the section headers claim, before anything is decoded.
         void sections( const XElem &e, const std::string &path )
         {
            auto t = e.attr( "type" );
            if ( t && ( *t == "Blob" || *t == "CompressedVector" ) )
            {
               if ( e.attr( "fileOffset" ) && intAttr( e, "fileOffset", 0 ) == 0 )
               {
                  bad( *t + " with fileOffset 0 :: " + path );
               }
               uint64_t l = logical( uint64_t( intAttr( e, "fileOffset", 0 ) ), path );
               ext.push_back( { l, l + le( at( l, 16, path + " section header" ) + 8, 8 ), path } );
               return;
            }
            for ( auto &x : e.ch )
            {
               sections( *x, path + "/" + x->name );
            }
         }
         void run( const Doc *d )
         {
            if ( phys.empty() || phys.size() % 1024 )
            {
               bad( strf( "file size %zu is not a multiple of the page size", phys.size() ) );
            }
            for ( size_t i = 0; i < phys.size() / 1024; i++ )
            {
               if ( !pageOk( phys, i ) )
               {
                  bad( strf( "checksum of page %zu is wrong", i ) );
               }
            }
            lg = toLogical( phys );
            const uint8_t *h = at( 0, 48, "file header" );
            if ( memcmp( h, "ASTM-E57", 8 ) || le( h + 8, 4 ) != 1 || le( h + 12, 4 ) != 0 )
            {
               bad( "file signature or version" );
            }
            if ( le( h + 16, 8 ) != phys.size() )
            {
               bad( strf( "header says %llu bytes, file has %zu", (unsigned long long)le( h + 16, 8 ), phys.size() ) );
            }
            if ( le( h + 40, 8 ) != 1024 )
            {
               bad( "page size field" );
            }
            uint64_t xo = logical( le( h + 24, 8 ), "xmlPhysicalOffset" ), xl = le( h + 32, 8 );
            const uint8_t *x = at( xo, xl, "XML section" );
            if ( xo % 4 || xl % 4 )
            {
               bad( "XML section not aligned" );
            }
            ext.push_back( { 0, 48, "file header" } );
            ext.push_back( { xo, xo + xl, "XML section" } );
            auto root = parseXml( std::string( reinterpret_cast<const char *>( x ), xl ) );
            if ( root->name != "e57Root" )
            {
               bad( "root element is " + root->name );
            }
            auto dn = root->attr( "xmlns" );
            if ( !dn || *dn != "http://www.astm.org/COMMIT/E57/2010-e57-v1.0" )
            {
               bad( "default namespace missing" );
            }
            for ( auto &a : root->attrs )
            {
               if ( a.first.compare( 0, 6, "xmlns:" ) == 0 )
               {
                  ns[a.first.substr( 6 )] = a.second;
               }
            }
            if ( d )
            {
               for ( auto &e : d->exts )
               {
                  if ( !ns.count( e.prefix ) || ns[e.prefix] != e.uri )
                  {
                     bad( "extension " + e.prefix + " not declared" );
                  }
               }
               auto own = ext;
               sections( *root, "" );
               overlap();
               ext = own;
               node( *root, *d->root, "" );
            }
            overlap();
         }
         void overlap()
         {
            std::sort( ext.begin(), ext.end(), []( const Extent &a, const Extent &b ) { return a.lo < b.lo; } );
            for ( size_t i = 1; i < ext.size(); i++ )
            {
               if ( ext[i].lo < ext[i - 1].hi )
               {
                  bad( "sections overlap :: " + ext[i - 1].what + " and " + ext[i].what );
               }
            }
         }
      };
   }
   std::string validateFile( const std::vector<uint8_t> &bytes, const Doc *d, const ValidateOpts &o )
   {
      Validator v{ bytes, {}, o, {}, {}, {} };
      try
      {
         v.run( d );
      }
      catch ( const std::string &m )
      {
         return m;
      }
      return "";
   }

   // ------------------------------------------------------------------ encoder
   namespace
   {
      struct BitW
      {
         std::vector<uint8_t> out;
         unsigned used = 0;
         void put( uint64_t v, unsigned bits )
         {
            for ( unsigned k = 0; k < bits; )
            {
               if ( used == 0 )
               {
                  out.push_back( 0 );
               }
               unsigned take = std::min( 8 - used, bits - k );
               out.back() |= uint8_t( ( ( v >> k ) & ( ( 1ULL << take ) - 1 ) ) << used );
               used = ( used + take ) & 7;
               k += take;
            }
         }
      };

      struct Encoder
      {
         const Doc &d;
         Choices &c;
         const LayoutOpts &o;
         std::map<const DNode *, uint64_t> at; // logical section start
         uint64_t holeAt = ~0ULL;              // logical

         uint64_t place( uint64_t logical ) const
         {
            return physOf( logical ) + ( logical >= holeAt ? o.hole : 0 );
         }

         std::vector<uint8_t> streamOf( const DNode &lf, const Column &col, uint64_t n, unsigned pad )
         {
            BitW w;
            switch ( lf.kind )
            {
               case KInt:
               case KScaled:
               {
                  unsigned b = bitsFor( lf.imin, lf.imax );
                  for ( uint64_t i = 0; i < n; i++ )
                  {
                     w.put( col.v[i] - uint64_t( lf.imin ), b );
                  }
                  if ( pad && b )
                  {
                     unsigned reg = b <= 8 ? 1 : b <= 16 ? 2 : b <= 32 ? 4 : 8;
                     while ( w.out.size() % reg )
                     {
                        w.out.push_back( 0 );
                     }
                  }
                  break;
               }
               case KFloat:
                  for ( uint64_t i = 0; i < n; i++ )
                  {
                     putLe( w.out, col.v[i], lf.single ? 4 : 8 );
                  }
                  break;
               default:
                  for ( uint64_t i = 0; i < n; i++ )
                  {
                     auto &s = col.s[i];
                     if ( s.size() <= 127 )
                     {
                        w.out.push_back( uint8_t( s.size() << 1 ) );
                     }
                     else
                     {
                        putLe( w.out, ( uint64_t( s.size() ) << 1 ) | 1, 8 );
                     }
                     w.out.insert( w.out.end(), s.begin(), s.end() );
                  }
            }
            return w.out;
         }

         void pad4( std::vector<uint8_t> &v )
         {
            while ( v.size() % 4 )
            {
               v.push_back( 0 );
            }
         }

         // section bytes; offsets inside need the section start
         std::vector<uint8_t> section( const DNode &n, uint64_t start, Rng &r )
         {
            std::vector<uint8_t> s;
            if ( n.kind == KBlob )
            {
               putLe( s, 0, 8 );
               uint64_t len = 16 + n.blob.size();
               putLe( s, ( len + 3 ) / 4 * 4, 8 );
               s.insert( s.end(), n.blob.begin(), n.blob.end() );
               pad4( s );
               return s;
            }
            std::vector<std::vector<uint8_t>> st;
            std::vector<size_t> pos( n.leaves.size(), 0 );
            for ( size_t i = 0; i < n.leaves.size(); i++ )
            {
               st.push_back( streamOf( *n.leaves[i], n.cols[i], n.nrec, o.plain ? 1 : unsigned( r.below( 2 ) ) ) );
            }
            s.assign( 32, 0 );
            s[0] = 1;
            unsigned style = o.plain ? 0 : unsigned( r.below( 6 ) );
            const size_t tab = 6 + 2 * n.leaves.size();
            auto emitIndex = [&]( std::vector<std::pair<uint64_t, uint64_t>> ents, unsigned level ) {
               size_t ec = ents.size();
               const size_t spare = o.plain || r.below( 8 ) ? 0 : 4 * size_t( r.below( 40 ) );
               std::vector<uint8_t> p;
               p.push_back( 0 );
               p.push_back( 0 );
               putLe( p, 16 + 16 * ec + spare - 1, 2 );
               putLe( p, ec, 2 );
               p.push_back( uint8_t( level ) );
               while ( p.size() < 16 )
               {
                  p.push_back( 0 );
               }
               for ( auto &e : ents )
               {
                  putLe( p, e.first, 8 );
                  putLe( p, place( e.second ), 8 );
               }
               p.resize( p.size() + spare );
               uint64_t off = start + s.size();
               s.insert( s.end(), p.begin(), p.end() );
               return off;
            };
            auto emitEmpty = [&]() {
               uint64_t len = 4 * ( 1 + r.below( r.below( 8 ) ? 20 : 4000 ) );
               std::vector<uint8_t> p( len, 0 );
               p[0] = 2;
               setLe( p, 2, len - 1, 2 );
               s.insert( s.end(), p.begin(), p.end() );
            };
            // Chunks: all fields start anew at a record, which the index names
            std::vector<std::pair<uint64_t, uint64_t>> chunks;
            const bool chunked = style && n.nrec >= 16 && n.nrec <= 4000 && r.below( 3 ) == 0;
            uint64_t chunkRec = 0, chunkLen = 0;
            std::vector<size_t> lim;
            for ( auto &b : st )
            {
               lim.push_back( b.size() );
            }
            auto nextChunk = [&]() {
               // whole bytes: only every eighth record is sure to start on one
               chunkLen = 8 * ( 1 + r.below( 1 + n.nrec / 8 / ( 1 + r.below( 60 ) ) ) );
               for ( size_t i = 0; i < st.size(); i++ )
               {
                  lim[i] = chunkRec + chunkLen >= n.nrec ? st[i].size() : streamOf( *n.leaves[i], n.cols[i], chunkRec + chunkLen, 0 ).size();
               }
            };
            // the index over all chunks, in levels of packets of at most 'most' entries
            auto emitTree = [&]( std::vector<std::pair<uint64_t, uint64_t>> ents, size_t most ) {
               unsigned level = 0;
               while ( true )
               {
                  std::vector<std::pair<uint64_t, uint64_t>> up;
                  size_t k = 0;
                  while ( k < ents.size() )
                  {
                     size_t m = std::min( most, ents.size() - k );
                     if ( level && ents.size() - k - m == 1 )
                     {
                        m++; // above the lowest level a packet has two entries or more
                     }
                     std::vector<std::pair<uint64_t, uint64_t>> part( ents.begin() + long( k ), ents.begin() + long( k + m ) );
                     up.push_back( { part[0].first, emitIndex( part, level ) } );
                     k += m;
                  }
                  if ( up.size() == 1 )
                  {
                     return up[0].second;
                  }
                  if ( ++level == 5 )
                  {
                     most = 2048;
                  }
                  ents = up;
               }
            };
            if ( chunked )
            {
               nextChunk();
            }
            bool any = true;
            uint64_t firstData = 0;
            uint64_t idx = 0;
            size_t packets = 0;
            size_t guard = 0;
            if ( style >= 3 && r.below( 3 ) == 0 )
            {
               emitEmpty();
            }
            // an index packet may also come before the data it describes
            bool early = style >= 2 && r.below( 4 ) == 0;
            if ( early )
            {
               idx = emitIndex( { { 0, 0 } }, 0 );
            }
            while ( any || packets == 0 )
            {
               size_t room = o.maxPacket - tab - 4;
               size_t target = room;
               switch ( style )
               {
                  case 0:
                     target = std::min<size_t>( room, 40000 );
                     break;
                  case 1:
                     target = 1 + r.below( 12 );
                     break;
                  case 2:
                     target = 1 + r.below( 300 );
                     break;
                  case 3:
                     target = 1 + r.below( 3000 );
                     break;
                  case 4:
                     target = room;
                     break;
                  default:
                     target = 1 + r.below( room );
               }
               if ( ++guard > 1500 )
               {
                  target = room;
               }
               std::vector<size_t> take( st.size(), 0 );
               size_t sum = 0;
               unsigned mode = style == 0 ? 0 : unsigned( r.below( 4 ) );
               size_t left = 0;
               for ( size_t i = 0; i < st.size(); i++ )
               {
                  left += lim[i] - pos[i];
               }
               for ( size_t k = 0; k < st.size() && sum < target; k++ )
               {
                  size_t i = mode == 3 ? size_t( r.below( st.size() ) ) : k;
                  size_t rem = lim[i] - pos[i] - take[i];
                  size_t q = 0;
                  switch ( mode )
                  {
                     case 0: // proportional
                        q = left ? size_t( double( target ) * double( rem ) / double( left ) ) + 1 : 0;
                        break;
                     case 1: // unsynchronised
                        q = size_t( r.below( target - sum + 1 ) );
                        break;
                     case 2: // one stream after the other
                        q = target - sum;
                        break;
                     default:
                        q = size_t( r.below( target - sum + 1 ) );
                  }
                  if ( guard > 1500 )
                  {
                     q = rem;
                  }
                  q = std::min( { q, rem, room - sum } );
                  take[i] += q;
                  sum += q;
               }
               if ( style == 0 && sum == 0 && left )
               {
                  for ( size_t i = 0; i < st.size() && sum == 0; i++ )
                  {
                     take[i] = std::min( lim[i] - pos[i], room );
                     sum += take[i];
                  }
               }
               std::vector<uint8_t> p;
               p.push_back( 1 );
               p.push_back( 0 );
               putLe( p, 0, 2 );
               putLe( p, st.size(), 2 );
               for ( auto t : take )
               {
                  putLe( p, t, 2 );
               }
               for ( size_t i = 0; i < st.size(); i++ )
               {
                  p.insert( p.end(), st[i].begin() + long( pos[i] ), st[i].begin() + long( pos[i] + take[i] ) );
                  pos[i] += take[i];
               }
               pad4( p );
               setLe( p, 2, p.size() - 1, 2 );
               if ( !packets )
               {
                  firstData = start + s.size();
               }
               if ( chunked && ( chunks.empty() || chunks.back().first < chunkRec ) )
               {
                  chunks.push_back( { chunkRec, start + s.size() } );
               }
               s.insert( s.end(), p.begin(), p.end() );
               packets++;
               if ( style )
               {
                  if ( r.below( 8 ) == 0 )
                  {
                     emitEmpty();
                  }
                  if ( r.below( 10 ) == 0 )
                  {
                     chunks.size() > 1 ? emitTree( chunks, std::max<size_t>( 2, chunks.size() / ( 1 + r.below( 3 ) ) ) ) : emitIndex( { { 0, firstData } }, 0 );
                  }
               }
               any = false;
               bool over = chunked;
               for ( size_t i = 0; i < st.size(); i++ )
               {
                  any = any || pos[i] < st[i].size();
                  over = over && pos[i] >= lim[i];
               }
               if ( over && any )
               {
                  chunkRec += chunkLen;
                  nextChunk();
               }
            }
            if ( early )
            {
               setLe( s, size_t( idx - start ) + 24, place( firstData ), 8 );
            }
            else
            {
               idx = chunks.size() > 1 ? emitTree( chunks, 2 + r.below( r.below( 2 ) ? 6 : 2000 ) ) : emitIndex( { { 0, firstData } }, 0 );
            }
            setLe( s, 8, s.size(), 8 );
            setLe( s, 16, place( firstData ), 8 );
            setLe( s, 24, place( idx ), 8 );
            return s;
         }

         // ---- XML
         Rng *xr = nullptr;
         bool fancy = false;
         std::string sp()
         {
            if ( !fancy )
            {
               return "\n";
            }
            static const char *w[] = { "", "\n", " ", "\r\n", "\t", "\n    ", "<!-- c -->", "\n<?pi x?>\n" };
            return w[xr->below( 8 )];
         }
         std::string attr( const std::string &k, const std::string &v )
         {
            char q = fancy && xr->below( 2 ) ? '\'' : '"';
            std::string e;
            for ( char ch : v )
            {
               switch ( ch )
               {
                  case '&':
                     e += "&amp;";
                     break;
                  case '<':
                     e += "&lt;";
                     break;
                  case '"':
                     e += "&quot;";
                     break;
                  case '\'':
                     e += "&apos;";
                     break;
                  case '\t':
                     e += "&#9;";
                     break;
                  case '\n':
                     e += "&#xA;";
                     break;
                  case '\r':
                     e += "&#xd;";
                     break;
                  default:
                     e += ch;
               }
            }
            return ( fancy && xr->below( 3 ) == 0 ? "\n  " : " " ) + k + ( fancy && xr->below( 4 ) == 0 ? " = " : "=" ) + q + e + q;
         }
         std::string text( const std::string &v )
         {
            std::string e;
            bool cdata = ( !fancy || xr->below( 2 ) ) && v.find( '\r' ) == std::string::npos;
            if ( cdata )
            {
               size_t p = 0;
               e = "<![CDATA[";
               for ( ;; )
               {
                  size_t f = v.find( "]]>", p );
                  if ( f == std::string::npos )
                  {
                     e += v.substr( p );
                     break;
                  }
                  e += v.substr( p, f - p + 2 ) + "]]><![CDATA[";
                  p = f + 2;
               }
               return e + "]]>";
            }
            for ( char ch : v )
            {
               switch ( ch )
               {
                  case '&':
                     e += "&amp;";
                     break;
                  case '<':
                     e += "&lt;";
                     break;
                  case '>':
                     e += "&gt;";
                     break;
                  case '\n':
                     e += xr->below( 2 ) ? ( xr->below( 4 ) ? "\n" : "\r\n" ) : "&#10;";
                     break;
                  case '\r':
                     e += "&#13;";
                     break;
                  case 'a':
                     e += xr->below( 4 ) ? "a" : "&#x61;";
                     break;
                  default:
                     e += ch;
               }
            }
            return e;
         }
         std::string num( double v )
         {
            char b[64];
            snprintf( b, sizeof b, fancy && xr->below( 2 ) ? "%.17e" : "%.17g", v );
            return b;
         }
         bool explicitDefault()
         {
            return fancy && xr->below( 2 );
         }
         std::string elem( const DNode &n, const std::string &name )
         {
            static const char *kn[] = { "Structure", "Vector", "Integer", "ScaledInteger", "Float", "String", "Blob", "CompressedVector" };
            std::vector<std::string> as{ attr( "type", kn[n.kind] ) };
            std::string body;
            bool kids = false;
            switch ( n.kind )
            {
               case KVec:
                  if ( n.hetero || explicitDefault() )
                  {
                     as.push_back( attr( "allowHeterogeneousChildren", n.hetero ? "1" : "0" ) );
                  }
                  // fall through
               case KStruct:
                  for ( size_t i = 0; i < n.ch.size(); i++ )
                  {
                     body += sp() + elem( *n.ch[i], n.kind == KStruct ? n.ch[i]->name : "vectorChild" );
                     kids = true;
                  }
                  if ( kids )
                  {
                     body += sp();
                  }
                  break;
               case KInt:
               case KScaled:
                  if ( n.imin != INT64_MIN || explicitDefault() )
                  {
                     as.push_back( attr( "minimum", std::to_string( n.imin ) ) );
                  }
                  if ( n.imax != INT64_MAX || explicitDefault() )
                  {
                     as.push_back( attr( "maximum", std::to_string( n.imax ) ) );
                  }
                  if ( n.kind == KScaled )
                  {
                     if ( n.scale != 1 || explicitDefault() )
                     {
                        as.push_back( attr( "scale", num( n.scale ) ) );
                     }
                     if ( n.offset != 0 || explicitDefault() )
                     {
                        as.push_back( attr( "offset", num( n.offset ) ) );
                     }
                  }
                  if ( n.iv != 0 || explicitDefault() )
                  {
                     body = std::to_string( n.iv );
                  }
                  break;
               case KFloat:
                  if ( n.single || explicitDefault() )
                  {
                     as.push_back( attr( "precision", n.single ? "single" : "double" ) );
                  }
                  if ( n.fmin != ( n.single ? double( e57::FLOAT_MIN ) : e57::DOUBLE_MIN ) )
                  {
                     as.push_back( attr( "minimum", num( n.fmin ) ) );
                  }
                  if ( n.fmax != ( n.single ? double( e57::FLOAT_MAX ) : e57::DOUBLE_MAX ) )
                  {
                     as.push_back( attr( "maximum", num( n.fmax ) ) );
                  }
                  if ( n.fv != 0 || explicitDefault() )
                  {
                     body = num( n.fv );
                  }
                  break;
               case KString:
                  if ( !n.sv.empty() )
                  {
                     body = text( n.sv );
                  }
                  break;
               case KBlob:
                  as.push_back( attr( "fileOffset", std::to_string( place( at[&n] ) ) ) );
                  as.push_back( attr( "length", std::to_string( n.blob.size() ) ) );
                  break;
               case KCV:
                  as.push_back( attr( "fileOffset", std::to_string( place( at[&n] ) ) ) );
                  as.push_back( attr( "recordCount", std::to_string( n.nrec ) ) );
                  body = sp() + elem( *n.proto, "prototype" ) + sp() + elem( *n.codecs, "codecs" ) + sp();
                  break;
            }
            if ( fancy )
            {
               for ( size_t i = as.size(); i > 1; i-- )
               {
                  std::swap( as[i - 1], as[xr->below( i )] );
               }
            }
            std::string s = "<" + name;
            for ( auto &a : as )
            {
               s += a;
            }
            if ( body.empty() && ( !fancy || xr->below( 2 ) ) )
            {
               return s + "/>";
            }
            return s + ">" + body + "</" + name + ">";
         }
         std::string xml()
         {
            std::string s = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
            if ( fancy && xr->below( 2 ) )
            {
               s += "<!-- made by an independent writer -->\n";
            }
            std::string e = elem( *d.root, "e57Root" );
            std::string nsd = attr( "xmlns", "http://www.astm.org/COMMIT/E57/2010-e57-v1.0" );
            for ( auto &x : d.exts )
            {
               nsd += attr( "xmlns:" + x.prefix, x.uri );
            }
            s += "<e57Root" + nsd + e.substr( 8 );
            s += "\n";
            while ( s.size() % 4 )
            {
               s += ' ';
            }
            return s;
         }

         std::vector<uint8_t> run()
         {
            std::vector<const DNode *> secs;
            for ( auto x : d.cvs )
            {
               secs.push_back( x );
            }
            for ( auto x : d.blobs )
            {
               secs.push_back( x );
            }
            uint64_t ls = o.plain ? 1 : c.sub();
            Rng r( ls );
            if ( !o.plain )
            {
               for ( size_t i = secs.size(); i > 1; i-- )
               {
                  std::swap( secs[i - 1], secs[r.below( i )] );
               }
            }
            bool xmlFirst = !o.plain && r.below( 3 ) == 0;
            bool gaps = !o.plain && r.below( 3 ) == 0;
            uint64_t xmlSeed = r.next();
            std::vector<uint8_t> lg( 48, 0 );
            uint64_t reserve = 0;
            std::string x;
            uint64_t xmlAt = 0;
            for ( int round = 0; round < 8; round++ )
            {
               Rng rr( mix( ls, 99 ) );
               lg.assign( 48, 0 );
               at.clear();
               holeAt = ~0ULL;
               unsigned nth = 0;
               auto leap = [&]() {
                  if ( o.hole && nth++ == o.holeBefore % ( secs.size() + 1 ) )
                  {
                     lg.resize( ( lg.size() + 1019 ) / 1020 * 1020 );
                     holeAt = lg.size();
                  }
               };
               auto gap = [&]() {
                  if ( gaps )
                  {
                     lg.resize( lg.size() + 4 * rr.below( 300 ) );
                  }
               };
               if ( xmlFirst )
               {
                  gap();
                  xmlAt = lg.size();
                  lg.resize( lg.size() + reserve );
               }
               for ( auto n : secs )
               {
                  gap();
                  leap();
                  at[n] = lg.size();
                  Rng sr( mix( ls, n->id ) );
                  auto s = section( *n, lg.size(), sr );
                  lg.insert( lg.end(), s.begin(), s.end() );
                  pad4( lg );
               }
               leap();
               if ( !xmlFirst )
               {
                  gap();
                  xmlAt = lg.size();
               }
               Rng xx( xmlSeed );
               xr = &xx;
               fancy = !o.plain && ( xmlSeed & 1 );
               x = xml();
               if ( !xmlFirst )
               {
                  lg.insert( lg.end(), x.begin(), x.end() );
                  break;
               }
               if ( x.size() <= reserve )
               {
                  std::copy( x.begin(), x.end(), lg.begin() + long( xmlAt ) );
                  break;
               }
               reserve = x.size() + 64;
            }
            memcpy( lg.data(), "ASTM-E57", 8 );
            uint64_t physLen = ( lg.size() + 1019 ) / 1020 * 1024 + o.hole;
            setLe( lg, 8, 1, 4 );
            setLe( lg, 12, 0, 4 );
            setLe( lg, 16, physLen, 8 );
            setLe( lg, 24, place( xmlAt ), 8 );
            setLe( lg, 32, x.size(), 8 );
            setLe( lg, 40, 1024, 8 );
            return toPhysical( lg );
         }
      };
   }
   std::vector<uint8_t> encodeDoc( const Doc &d, Choices &c, const LayoutOpts &o, uint64_t *holeAt )
   {
      Encoder e{ d, c, o };
      auto b = e.run();
      if ( holeAt )
      {
         *holeAt = physOf( e.holeAt );
      }
      return b;
   }

   // ------------------------------------------------------------------ structural fields
   static void xmlSections( const XElem &e, std::vector<std::pair<uint64_t, bool>> &out )
   {
      auto t = e.attr( "type" );
      auto f = e.attr( "fileOffset" );
      if ( t && f )
      {
         out.push_back( { strtoull( f->c_str(), nullptr, 10 ), *t == "CompressedVector" } );
      }
      for ( auto &x : e.ch )
      {
         xmlSections( *x, out );
      }
   }
   std::vector<FieldPos> findFields( const std::vector<uint8_t> &phys )
   {
      std::vector<FieldPos> f = { { 0, 8, "signature" },      { 8, 4, "major" },   { 12, 4, "minor" },     { 16, 8, "fileLength" },
                                  { 24, 8, "xmlOffset" },     { 32, 8, "xmlLength" }, { 40, 8, "pageSize" } };
      auto lg = toLogical( phys );
      if ( lg.size() < 48 )
      {
         return f;
      }
      uint64_t xo = logOf( le( &lg[24], 8 ) ), xl = le( &lg[32], 8 );
      if ( xo > lg.size() || xl > lg.size() - xo )
      {
         return f;
      }
      std::vector<std::pair<uint64_t, bool>> secs;
      try
      {
         auto root = parseXml( std::string( reinterpret_cast<const char *>( &lg[xo] ), xl ) );
         xmlSections( *root, secs );
      }
      catch ( const std::string & )
      {
         return f;
      }
      for ( auto &s : secs )
      {
         uint64_t l = logOf( s.first );
         if ( l + 32 > lg.size() )
         {
            continue;
         }
         f.push_back( { l, 1, "sectionId" } );
         f.push_back( { l + 1, 7, "sectionReserved" } );
         f.push_back( { l + 8, 8, "sectionLength" } );
         if ( !s.second )
         {
            continue;
         }
         f.push_back( { l + 16, 8, "dataOffset" } );
         f.push_back( { l + 24, 8, "indexOffset" } );
         uint64_t end = std::min<uint64_t>( l + le( &lg[l + 8], 8 ), lg.size() ), p = l + 32;
         int n = 0;
         while ( p + 16 <= end && n++ < 200 )
         {
            uint64_t plen = le( &lg[p + 2], 2 ) + 1;
            f.push_back( { p, 1, "packetType" } );
            f.push_back( { p + 1, 1, "packetFlags" } );
            f.push_back( { p + 2, 2, "packetLength" } );
            if ( lg[p] == 1 )
            {
               f.push_back( { p + 4, 2, "streamCount" } );
               uint64_t bc = le( &lg[p + 4], 2 );
               for ( uint64_t i = 0; i < bc && i < 8 && p + 8 + 2 * i <= end; i++ )
               {
                  f.push_back( { p + 6 + 2 * i, 2, "streamLength" } );
               }
               uint64_t q = p + 6 + 2 * bc;
               if ( q + 8 < end )
               {
                  f.push_back( { q, 8, "streamData" } );
               }
            }
            else if ( lg[p] == 0 )
            {
               f.push_back( { p + 4, 2, "indexCount" } );
               f.push_back( { p + 6, 1, "indexLevel" } );
               f.push_back( { p + 24, 8, "indexEntry" } );
            }
            p += plen;
         }
      }
      return f;
   }
}
