// Hostile variants of legal files: structural fields, XML, page order, with page checksums recomputed.
#include "fam.h"
#include <algorithm>
#include <set>

namespace sim
{
   static uint64_t le( const uint8_t *p, unsigned n )
   {
      uint64_t v = 0;
      for ( unsigned i = 0; i < n; i++ )
      {
         v |= uint64_t( p[i] ) << ( 8 * i );
      }
      return v;
   }
   static void setLe( std::vector<uint8_t> &b, size_t at, uint64_t v, unsigned n )
   {
      for ( unsigned i = 0; i < n; i++ )
      {
         b[at + i] = uint8_t( v >> ( 8 * i ) );
      }
   }
   static void padSeal( std::vector<uint8_t> &phys )
   {
      phys.resize( ( phys.size() + 1023 ) / 1024 * 1024 );
      sealPages( phys );
   }
   bool extractXml( const std::vector<uint8_t> &bytes, std::string &xml )
   {
      auto lg = toLogical( bytes );
      if ( lg.size() < 48 )
      {
         return false;
      }
      uint64_t xo = logOf( le( &lg[24], 8 ) ), xl = le( &lg[32], 8 );
      if ( xo > lg.size() || xl > lg.size() - xo )
      {
         return false;
      }
      xml.assign( reinterpret_cast<const char *>( lg.data() ) + xo, xl );
      return true;
   }
   bool replaceXml( std::vector<uint8_t> &bytes, const std::string &xml )
   {
      auto lg = toLogical( bytes );
      if ( lg.size() < 48 )
      {
         return false;
      }
      uint64_t xo = logOf( le( &lg[24], 8 ) ), xl = le( &lg[32], 8 );
      if ( xo <= lg.size() && xl <= lg.size() - xo && lg.size() - ( xo + xl ) < 1020 &&
           std::all_of( lg.begin() + long( xo + xl ), lg.end(), []( uint8_t v ) { return v == 0; } ) )
      {
         lg.resize( xo ); // the XML was last
      }
      uint64_t at = lg.size();
      lg.insert( lg.end(), xml.begin(), xml.end() );
      while ( lg.size() % 4 )
      {
         lg.push_back( ' ' );
      }
      uint64_t len = lg.size() - at;
      while ( lg.size() % 1020 )
      {
         lg.push_back( 0 );
      }
      setLe( lg, 16, lg.size() / 1020 * 1024, 8 );
      setLe( lg, 24, physOf( at ), 8 );
      setLe( lg, 32, len, 8 );
      bytes = toPhysical( lg );
      return true;
   }

   static uint64_t hostile( Choices &c, uint64_t old, uint64_t fileLen )
   {
      static const uint64_t special[] = { 0,           1,          2,          3,          4,           5,          7,           8,
                                          15,          16,         0xFF,       0xFFFF,     0x10000,     0x7FFFFFFF, 0x80000000ULL, 0xFFFFFFFFULL,
                                          1ULL << 40,  1ULL << 62, 1ULL << 63, ~0ULL,      ~0ULL - 3,   ~0ULL - 1023, ( 1ULL << 63 ) - 1, 32,
                                          48,          31,         64,         1020,       1023,        1024,       65535,       65536 };
      switch ( c.draw( 8 ) )
      {
         case 0:
            return special[c.draw( sizeof special / sizeof *special )];
         case 1:
            return old + 1 + c.draw( 8 );
         case 2:
            return old - 1 - c.draw( 8 );
         case 3:
            return old ^ ( 1ULL << c.draw( 64 ) );
         case 4:
            return fileLen - c.draw( 4096 );
         case 5:
            return fileLen + c.draw( 4096 );
         case 6:
            return c.draw( fileLen + 1 );
         default:
            return ( uint64_t( c.draw( 1ULL << 32 ) ) << 32 ) | c.draw( 1ULL << 32 );
      }
   }

   static const char *const kNums[] = { "-1",
                                        "0",
                                        "1",
                                        "9223372036854775807",
                                        "-9223372036854775808",
                                        "9223372036854775808",
                                        "18446744073709551615",
                                        "18446744073709551616",
                                        "99999999999999999999999999",
                                        "1e999",
                                        "-1e999",
                                        "1e-999",
                                        "NaN",
                                        "INF",
                                        "-INF",
                                        "",
                                        " ",
                                        "abc",
                                        "0x10",
                                        "1.5",
                                        "+5",
                                        "--5",
                                        "5 6",
                                        "1000000",
                                        "4611686018427387904",
                                        "4294967296",
                                        "2147483648",
                                        "1024",
                                        "48",
                                        "\xC3\xA9" };
   static const char *const kTypes[] = { "Structure", "Vector", "CompressedVector", "Integer", "ScaledInteger", "Float", "String", "Blob", "Bogus", "" };

   std::vector<Tag> tagsOf( const std::string &x )
   {
      std::vector<Tag> t;
      for ( size_t i = 0; i < x.size(); )
      {
         size_t b = x.find( '<', i );
         if ( b == std::string::npos )
         {
            break;
         }
         size_t e = x.find( '>', b );
         if ( e == std::string::npos )
         {
            break;
         }
         if ( b + 1 < x.size() && x[b + 1] != '!' && x[b + 1] != '?' )
         {
            // not one within quotes
            size_t p = b;
            char q = 0;
            while ( p < x.size() && ( q || x[p] != '>' ) )
            {
               q = q ? ( x[p] == q ? 0 : q ) : ( x[p] == '"' || x[p] == '\'' ) ? x[p] : 0;
               p++;
            }
            e = p < x.size() ? p : e;
         }
         if ( x.compare( b, 9, "<![CDATA[" ) == 0 )
         {
            e = x.find( "]]>", b );
            i = e == std::string::npos ? x.size() : e + 3;
            continue;
         }
         if ( b + 1 < x.size() && x[b + 1] != '?' && x[b + 1] != '!' )
         {
            Tag g{ b, e + 1, x[b + 1] == '/', x[e - 1] == '/', "" };
            size_t s = b + 1 + g.close, q = s;
            while ( q < e && !strchr( " \t\r\n/>", x[q] ) )
            {
               q++;
            }
            g.name = x.substr( s, q - s );
            t.push_back( g );
         }
         i = e + 1;
      }
      return t;
   }
   size_t matching( const std::vector<Tag> &t, size_t i )
   {
      if ( t[i].empty || t[i].close )
      {
         return i;
      }
      int depth = 0;
      for ( size_t k = i; k < t.size(); k++ )
      {
         if ( t[k].empty )
         {
            continue;
         }
         depth += t[k].close ? -1 : 1;
         if ( depth == 0 )
         {
            return k;
         }
      }
      return i;
   }
   std::vector<AttrPos> attrsOf( const std::string &x, const Tag &t )
   {
      std::vector<AttrPos> a;
      size_t i = t.b;
      while ( i < t.e )
      {
         size_t q = x.find_first_of( "\"'", i );
         if ( q == std::string::npos || q >= t.e )
         {
            break;
         }
         size_t z = x.find( x[q], q + 1 );
         if ( z == std::string::npos || z >= t.e )
         {
            break;
         }
         size_t k = x.rfind( '=', q );
         if ( k == std::string::npos || k < t.b )
         {
            break;
         }
         size_t ks = k;
         while ( ks > t.b && !strchr( " \t\r\n<", x[ks - 1] ) )
         {
            ks--;
         }
         a.push_back( { ks, q + 1, z, z + 1, x.substr( ks, k - ks ) } );
         i = z + 1;
      }
      return a;
   }

   static std::string mutateXmlText( Choices &c, std::string &x )
   {
      auto t = tagsOf( x );
      std::vector<size_t> open;
      for ( size_t i = 0; i < t.size(); i++ )
      {
         if ( !t[i].close )
         {
            open.push_back( i );
         }
      }
      if ( open.empty() )
      {
         x = "<a/>";
         return "xml replaced";
      }
      size_t ti = open[c.draw( open.size() )];
      Tag g = t[ti];
      switch ( c.draw( 16 ) )
      {
         case 0:
         case 1:
         case 2: // an attribute value
         {
            auto a = attrsOf( x, g );
            for ( unsigned k = 0; a.empty() && k < 8; k++ )
            {
               g = t[open[c.draw( open.size() )]];
               a = attrsOf( x, g );
            }
            if ( a.empty() )
            {
               return "";
            }
            auto p = a[c.draw( a.size() )];
            std::string v = p.key == "type" ? kTypes[c.draw( 10 )] : kNums[c.draw( 30 )];
            if ( c.chance( 1, 8 ) )
            {
               v = kTypes[c.draw( 10 )];
            }
            std::string w = "xml attribute " + p.key + " of " + g.name + " = '" + v + "'";
            x.replace( p.vb, p.ve - p.vb, v );
            return w;
         }
         case 3: // remove an attribute
         {
            auto a = attrsOf( x, g );
            if ( a.empty() )
            {
               return "";
            }
            auto p = a[c.draw( a.size() )];
            std::string w = "xml attribute " + p.key + " of " + g.name + " removed";
            x.erase( p.b, p.e - p.b );
            return w;
         }
         case 4: // duplicate or add an attribute
         {
            static const char *add[] = { " type=\"Integer\"",     " minimum=\"5\" maximum=\"1\"", " recordCount=\"5\"",  " fileOffset=\"40\"", " length=\"-5\"",
                                         " precision=\"half\"",   " scale=\"0\"",                " allowHeterogeneousChildren=\"2\"", " xmlns=\"\"",
                                         " xmlns:q=\"urn:q\"", " minimum=\"NaN\"",
                                         " xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:schemaLocation=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0 "
                                         "file:///sim/x.xsd\"",
                                         " xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:noNamespaceSchemaLocation=\"http://sim.invalid/x.xsd\"" };
            const char *v = add[c.draw( 13 )];
            x.insert( g.e - ( g.empty ? 2 : 1 ), v );
            return std::string( "xml attribute added to " ) + g.name + v;
         }
         case 5: // text content
         {
            size_t m = matching( t, ti );
            if ( m == ti )
            {
               return "";
            }
            const char *v = kNums[c.draw( 30 )];
            x.replace( g.e, t[m].b - g.e, v );
            return "xml content of " + g.name + " = '" + v + "'";
         }
         case 6: // remove an element
         {
            size_t m = matching( t, ti );
            x.erase( g.b, t[m].e - g.b );
            return "xml element " + g.name + " removed";
         }
         case 7: // duplicate an element
         {
            size_t m = matching( t, ti );
            std::string s = x.substr( g.b, t[m].e - g.b );
            unsigned n = 1 + c.skewed( 6 );
            std::string r;
            for ( unsigned i = 0; i < n && r.size() < 300000; i++ )
            {
               r += s;
            }
            x.insert( t[m].e, r );
            return "xml element " + g.name + strf( " duplicated %u times", n );
         }
         case 8: // copy an element into another
         {
            size_t m = matching( t, ti );
            std::string s = x.substr( g.b, t[m].e - g.b );
            Tag h = t[open[c.draw( open.size() )]];
            if ( h.empty )
            {
               x.replace( h.e - 2, 2, ">" + s + "</" + h.name + ">" );
            }
            else
            {
               x.insert( h.e, s );
            }
            return "xml element " + g.name + " copied into " + h.name;
         }
         case 9: // deep nesting
         {
            static const unsigned depths[] = { 3, 50, 300, 1500, 4000, 20000, 60000 };
            unsigned n = depths[c.weighted( { 4, 4, 4, 2, 2, 1, 1 } )];
            static const char *ty[] = { "Structure", "Vector", "CompressedVector", "Bogus" };
            std::string type = ty[c.weighted( { 6, 3, 1, 1 } )];
            std::string a, b;
            for ( unsigned i = 0; i < n; i++ )
            {
               a += "<n type=\"" + type + "\">";
               b += "</n>";
            }
            Tag h = t[open[0]];
            x.insert( h.e, h.empty ? "" : a + b );
            return strf( "xml nesting %u x ", n ) + type;
         }
         case 10: // rename a tag (start only or both)
         {
            size_t m = matching( t, ti );
            static const char *nm[] = { "prototype", "codecs", "vectorChild", "x:y", "a/b", "1a", "guid", "\xC3\xA9l", "a:b:c", "", "e57Root" };
            std::string v = nm[c.draw( 11 )];
            if ( m != ti && c.chance( 3, 4 ) )
            {
               x.replace( t[m].b + 2, t[m].name.size(), v );
            }
            x.replace( g.b + 1, g.name.size(), v );
            return "xml element " + g.name + " renamed to '" + v + "'";
         }
         case 11: // document type and entities
         {
            size_t r = x.find( "<e57Root" );
            if ( r == std::string::npos )
            {
               r = g.b;
            }
            auto times = []( const char *e, unsigned n ) {
               std::string r;
               for ( unsigned i = 0; i < n; i++ )
               {
                  r += e;
               }
               return r;
            };
            const std::string bomb = "<!DOCTYPE e57Root [<!ENTITY a \"" + times( "a", 40 ) + "\"><!ENTITY b \"" + times( "&a;", 40 ) + "\"><!ENTITY c \"" +
                                     times( "&b;", 40 ) + "\"><!ENTITY d \"" + times( "&c;", 40 ) + "\"><!ENTITY e \"" + times( "&d;", 40 ) +
                                     "\"><!ENTITY f \"" + times( "&e;", 40 ) + "\"><!ENTITY g \"" + times( "&f;", 40 ) + "\">]>";
            const char *dt[] = {
               bomb.c_str(),
               "<!DOCTYPE e57Root SYSTEM \"file:///sim/other.dtd\">",
               "<!DOCTYPE e57Root [<!ENTITY x SYSTEM \"file:///sim/secret\"><!ENTITY g \"&x;\">]>",
               "<!DOCTYPE e57Root [<!ENTITY g \"&g;\">]>",
               "<!DOCTYPE e57Root [<!ATTLIST e57Root type CDATA \"Vector\">]>",
               "<!DOCTYPE e57Root [<!ELEMENT e57Root EMPTY>]>",
               "<!DOCTYPE e57Root [<!ENTITY g SYSTEM \"http://sim.invalid/secret\">]>",
               "<!DOCTYPE e57Root [<!ENTITY g SYSTEM \"file:///sim/secret\">]>",
            };
            unsigned k = c.draw( 8 );
            // use the entity in some element's content
            if ( ( k < 4 && k != 1 ) || k > 5 )
            {
               size_t at = g.empty || g.b < r ? std::string::npos : g.e;
               if ( at != std::string::npos )
               {
                  x.insert( c.chance( 1, 2 ) ? t[open[0]].e : at, "&g;" );
               }
            }
            std::string dtd = dt[k];
            size_t open = dtd.find( "[<!" );
            if ( c.chance( 2, 3 ) && open != std::string::npos )
            {
               // declare everything the document uses, so that validation does not end the matter
               std::map<std::string, std::set<std::string>> decl;
               for ( auto &y : t )
               {
                  if ( !y.close )
                  {
                     for ( auto &a : attrsOf( x, y ) )
                     {
                        decl[y.name].insert( a.key );
                     }
                     decl[y.name];
                  }
               }
               std::string d;
               for ( auto &e : decl )
               {
                  d += "<!ELEMENT " + e.first + " ANY>";
                  for ( auto &a : e.second )
                  {
                     d += "<!ATTLIST " + e.first + " " + a + " CDATA #IMPLIED>";
                  }
               }
               dtd.insert( open + 1, d );
            }
            x.insert( r, dtd );
            return strf( "xml document type %u", k );
         }
         case 12: // raw bytes
         {
            size_t p = c.draw( x.size() );
            static const char *raw[] = { "\xFF", "\xC3", "\xF0\x90", "\x01", "&", "<", ">", "]]>", "&#0;", "&#x1F600;", "<![CDATA[", "-->", "\xEF\xBF\xBE", "<?xml version=\"1.0\"?>" };
            unsigned k = c.draw( 14 );
            x.insert( p, raw[k] );
            return strf( "xml raw insert %u", k );
         }
         case 13: // truncate
         {
            size_t p = c.draw( x.size() );
            x.resize( p );
            return strf( "xml truncated at %zu", p );
         }
         case 14: // declaration
         {
            static const char *decl[] = { "<?xml version=\"1.0\" encoding=\"UTF-16\"?>",    "<?xml version=\"1.1\" encoding=\"UTF-8\"?>",
                                          "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>",  "<?xml version=\"1.0\" encoding=\"bogus\"?>",
                                          "<?xml version=\"1.0\" standalone=\"yes\"?>",     "\xEF\xBB\xBF",
                                          "",                                                "<?xml version=\"9.9\"?>" };
            size_t p = x.find( "?>" );
            unsigned k = c.draw( 8 );
            if ( p != std::string::npos && p < 100 )
            {
               x.replace( 0, p + 2, decl[k] );
            }
            return strf( "xml declaration %u", k );
         }
         default: // bound/limit attributes made inconsistent together
         {
            static const char *keys[] = { "minimum", "maximum", "recordCount", "fileOffset", "length", "scale", "offset", "precision" };
            std::string key = keys[c.draw( 8 )];
            std::string w = "xml all " + key + " =";
            const char *v = kNums[c.draw( 30 )];
            size_t p = 0;
            unsigned n = 0;
            while ( ( p = x.find( key + "=\"", p ) ) != std::string::npos && n++ < 50 )
            {
               size_t vb = p + key.size() + 2, ve = x.find( '"', vb );
               if ( ve == std::string::npos )
               {
                  break;
               }
               x.replace( vb, ve - vb, v );
               p = vb;
            }
            return w + v;
         }
      }
   }

   std::string mutateFile( Choices &c, std::vector<uint8_t> &b )
   {
      std::string what;
      unsigned n = 1 + ( c.chance( 1, 3 ) ? c.draw( 3 ) : 0 );
      for ( unsigned k = 0; k < n; k++ )
      {
         if ( b.size() < 1024 )
         {
            break;
         }
         switch ( c.weighted( { 8, 8, 2, 2, 2, 1, 1 } ) )
         {
            case 0: // structural field
            {
               auto f = findFields( b );
               auto &x = f[c.draw( f.size() )];
               auto lg = toLogical( b );
               if ( x.off + x.len > lg.size() )
               {
                  break;
               }
               uint64_t old = le( &lg[x.off], x.len );
               uint64_t v = hostile( c, old, b.size() );
               setLe( lg, x.off, v, x.len );
               b = toPhysical( lg );
               what += strf( " %s at %llu: %llu -> %llu;", x.what, (unsigned long long)x.off, (unsigned long long)old, (unsigned long long)v );
               break;
            }
            case 1:
            {
               std::string xml;
               if ( !extractXml( b, xml ) )
               {
                  break;
               }
               unsigned m = 1 + ( c.chance( 1, 4 ) ? c.draw( 3 ) : 0 );
               for ( unsigned i = 0; i < m; i++ )
               {
                  std::string w = mutateXmlText( c, xml );
                  if ( !w.empty() )
                  {
                     what += " " + w + ";";
                  }
                  if ( xml.empty() )
                  {
                     break;
                  }
               }
               replaceXml( b, xml );
               break;
            }
            case 2: // random bytes
            {
               unsigned m = 1 + c.draw( 12 );
               Rng r( c.sub() );
               for ( unsigned i = 0; i < m; i++ )
               {
                  b[r.below( b.size() )] = uint8_t( r.next() );
               }
               what += strf( " %u random bytes;", m );
               padSeal( b );
               break;
            }
            case 3: // page order
            {
               size_t pages = b.size() / 1024;
               size_t p = c.draw( pages ), q = c.draw( pages );
               switch ( c.draw( 4 ) )
               {
                  case 0:
                     for ( unsigned i = 0; i < 1024; i++ )
                     {
                        std::swap( b[p * 1024 + i], b[q * 1024 + i] );
                     }
                     what += strf( " pages %zu and %zu swapped;", p, q );
                     break;
                  case 1:
                     b.erase( b.begin() + long( p * 1024 ), b.begin() + long( ( p + 1 ) * 1024 ) );
                     what += strf( " page %zu dropped;", p );
                     break;
                  case 2:
                  {
                     std::vector<uint8_t> pg( b.begin() + long( p * 1024 ), b.begin() + long( ( p + 1 ) * 1024 ) );
                     b.insert( b.begin() + long( q * 1024 ), pg.begin(), pg.end() );
                     what += strf( " page %zu inserted at %zu;", p, q );
                     break;
                  }
                  default:
                     std::copy( b.begin() + long( p * 1024 ), b.begin() + long( ( p + 1 ) * 1024 ), b.begin() + long( q * 1024 ) );
                     what += strf( " page %zu over %zu;", p, q );
               }
               if ( b.size() >= 1024 && c.chance( 2, 3 ) )
               {
                  setLe( b, 16, b.size(), 8 ); // header keeps up
               }
               padSeal( b );
               break;
            }
            case 4: // truncate, header keeps up
            {
               size_t pages = b.size() / 1024;
               b.resize( 1024 * ( 1 + c.draw( pages ) ) );
               if ( c.chance( 3, 4 ) )
               {
                  setLe( b, 16, b.size(), 8 );
               }
               padSeal( b );
               what += strf( " truncated to %zu pages;", b.size() / 1024 );
               break;
            }
            case 5: // zero or ones
            {
               size_t p = c.draw( b.size() ), m = 1 + c.draw( 3000 );
               for ( size_t i = p; i < std::min( b.size(), p + m ); i++ )
               {
                  b[i] = c.draw( 2 ) ? 0xFF : 0;
                  if ( i == p + 64 )
                  {
                     memset( &b[i], b[p], std::min( b.size(), p + m ) - i );
                     break;
                  }
               }
               padSeal( b );
               what += strf( " %zu bytes overwritten at %zu;", m, p );
               break;
            }
            default:
            {
               size_t m = c.chance( 1, 2 ) ? 1024 * c.draw( 4 ) : c.draw( 3000 );
               Rng r( c.sub() );
               b.resize( m );
               for ( auto &x : b )
               {
                  x = uint8_t( r.next() );
               }
               if ( m >= 48 && c.chance( 1, 2 ) )
               {
                  memcpy( b.data(), "ASTM-E57", 8 );
                  setLe( b, 8, 1, 4 );
                  setLe( b, 12, 0, 4 );
                  setLe( b, 16, b.size(), 8 );
                  setLe( b, 40, 1024, 8 );
                  setLe( b, 24, c.draw( m ), 8 );
                  setLe( b, 32, c.draw( m ), 8 );
               }
               if ( m % 1024 == 0 )
               {
                  sealPages( b );
               }
               what += strf( " %zu bytes of noise;", m );
               return what;
            }
         }
      }
      return what;
   }
}
