// C28: files that break a rule of the format, with page checksums in order.
#include "fam.h"
#include <functional>

namespace sim
{
   namespace
   {
      uint64_t le( const uint8_t *p, unsigned n )
      {
         uint64_t v = 0;
         for ( unsigned i = 0; i < n; i++ )
         {
            v |= uint64_t( p[i] ) << ( 8 * i );
         }
         return v;
      }
      void setLe( std::vector<uint8_t> &b, size_t at, uint64_t v, unsigned n )
      {
         for ( unsigned i = 0; i < n; i++ )
         {
            b[at + i] = uint8_t( v >> ( 8 * i ) );
         }
      }

      struct Packet
      {
         uint64_t off;
         unsigned len;
         uint8_t type;
      };
      struct Section
      {
         DNode *n = nullptr;
         std::string path;
         uint64_t phys = 0, off = 0; // of the section header
         uint64_t end = 0;
         size_t first = 0; // packet the section header points to
         std::vector<Packet> packets;
      };
      struct File
      {
         std::shared_ptr<Doc> doc;
         std::map<const DNode *, std::string> paths;
         std::vector<uint8_t> bytes, lg;
         std::string xml;
         std::vector<Section> cvs, blobs;
         uint64_t xmlOff = 0, xmlLen = 0;
      };

      struct Damage
      {
         std::string what;
         std::vector<uint8_t> bytes;
         bool atOpen = true;
         DNode *n = nullptr; // the element that can no longer be read
      };

      const XElem *walk( const XElem *e, const std::string &path )
      {
         size_t i = 1;
         while ( e && i < path.size() )
         {
            size_t j = path.find( '/', i );
            j = j == std::string::npos ? path.size() : j;
            std::string s = path.substr( i, j - i );
            i = j + 1;
            const XElem *x = nullptr;
            auto t = e->attr( "type" );
            if ( t && *t == "Vector" )
            {
               size_t k = strtoull( s.c_str(), nullptr, 10 );
               x = k < e->ch.size() ? e->ch[k].get() : nullptr;
            }
            else
            {
               for ( auto &q : e->ch )
               {
                  if ( q->name == s )
                  {
                     x = q.get();
                  }
               }
            }
            e = x;
         }
         return e;
      }

      // where everything is
      bool survey( File &f )
      {
         f.lg = toLogical( f.bytes );
         if ( !extractXml( f.bytes, f.xml ) )
         {
            return false;
         }
         f.xmlOff = logOf( le( &f.lg[24], 8 ) );
         f.xmlLen = le( &f.lg[32], 8 );
         std::shared_ptr<XElem> root;
         try
         {
            root = parseXml( f.xml );
         }
         catch ( const std::string & )
         {
            return false;
         }
         auto section = [&]( DNode *n, std::vector<Section> &out ) {
            Section s;
            s.n = n;
            s.path = f.paths[n];
            const XElem *e = walk( root.get(), s.path );
            auto o = e ? e->attr( "fileOffset" ) : nullptr;
            if ( !o )
            {
               return;
            }
            s.phys = strtoull( o->c_str(), nullptr, 10 );
            s.off = logOf( s.phys );
            if ( s.phys == 0 || s.off + 32 > f.lg.size() )
            {
               return;
            }
            s.end = s.off + le( &f.lg[s.off + 8], 8 );
            if ( n->kind == KCV )
            {
               uint64_t data = logOf( le( &f.lg[s.off + 16], 8 ) );
               for ( uint64_t p = data; p + 4 <= s.end && p + 4 <= f.lg.size(); )
               {
                  unsigned len = unsigned( le( &f.lg[p + 2], 2 ) ) + 1;
                  s.packets.push_back( { p, len, f.lg[p] } );
                  p += len;
               }
            }
            out.push_back( s );
         };
         for ( auto n : f.doc->cvs )
         {
            section( n, f.cvs );
         }
         for ( auto n : f.doc->blobs )
         {
            section( n, f.blobs );
         }
         return true;
      }

      // ---------------------------------------------------------------- the file header
      bool damageHeader( Choices &c, const File &f, Damage &d )
      {
         auto lg = f.lg;
         auto put = [&]( size_t at, uint64_t v, unsigned n ) {
            if ( le( &lg[at], n ) == v )
            {
               return false;
            }
            setLe( lg, at, v, n );
            d.bytes = toPhysical( lg );
            return true;
         };
         const uint64_t len = f.bytes.size();
         switch ( c.draw( 11 ) )
         {
            case 0:
            {
               unsigned at = c.draw( 8 );
               d.what = strf( "byte %u of the signature changed", at );
               return put( at, lg[at] ^ ( 1u << c.draw( 8 ) ), 1 );
            }
            case 1:
            {
               static const uint32_t v[] = { 2, 3, 256, 0x01000000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu };
               uint32_t x = v[c.draw( 7 )];
               d.what = strf( "major version %u", x );
               return put( 8, x, 4 );
            }
            case 2:
            {
               static const uint32_t v[] = { 1, 2, 256, 0x01000000, 0x80000000u, 0xFFFFFFFFu };
               uint32_t x = v[c.draw( 6 )];
               d.what = strf( "minor version %u", x );
               return put( 12, x, 4 );
            }
            case 3:
            {
               uint64_t v = 0;
               switch ( c.draw( 6 ) )
               {
                  case 0:
                     v = len + 1024 * ( 1 + c.draw( 4 ) );
                     break;
                  case 1:
                     v = len - 1024;
                     break;
                  case 2:
                     v = len ^ ( 1ULL << c.draw( 64 ) );
                     break;
                  case 3:
                     v = 0;
                     break;
                  case 4:
                     v = len + ( 1ULL << 32 );
                     break;
                  default:
                     v = len - 1 - c.draw( 1023 );
               }
               d.what = strf( "recorded length %llu of a file of %llu", (unsigned long long)v, (unsigned long long)len );
               return put( 16, v, 8 );
            }
            case 4:
            {
               static const uint64_t v[] = { 0, 1, 512, 1020, 1023, 1025, 2048, 4096, 65536, 1024 + ( 1ULL << 32 ), 1ULL << 63, ~0ULL };
               uint64_t x = v[c.draw( 12 )];
               d.what = strf( "page size %llu", (unsigned long long)x );
               return put( 40, x, 8 );
            }
            case 5:
            {
               static const uint64_t v[] = { 0, 1024, 5000, 1ULL << 32, 1ULL << 40, 1ULL << 62 };
               uint64_t x = ( len + 1023 ) / 1024 * 1024 + v[c.draw( 6 )];
               d.what = strf( "XML at %llu of a file of %llu", (unsigned long long)x, (unsigned long long)len );
               return put( 24, x, 8 );
            }
            case 6:
            {
               // the end tag of the root is cut
               size_t e = f.xml.rfind( "</" );
               if ( e == std::string::npos )
               {
                  return false;
               }
               uint64_t x = c.chance( 1, 3 ) ? e + c.draw( uint32_t( f.xml.find( '>', e ) - e + 1 ) ) : c.draw( uint32_t( e + 1 ) );
               d.what = strf( "XML length %llu of %zu", (unsigned long long)x, f.xml.size() );
               return put( 32, x, 8 );
            }
            case 7:
            {
               d.bytes = f.bytes;
               std::vector<uint8_t> page( 1024 );
               sealPages( page );
               for ( unsigned i = 1 + c.draw( 3 ); i; i-- )
               {
                  d.bytes.insert( d.bytes.end(), page.begin(), page.end() );
               }
               d.what = "pages added at the end";
               return true;
            }
            case 8:
            {
               d.bytes = f.bytes;
               d.bytes.resize( d.bytes.size() + 1 + c.draw( 1023 ), uint8_t( c.draw( 256 ) ) );
               d.what = "part of a page added at the end";
               return true;
            }
            case 9: // the page the XML ends in is not whole
            {
               const uint64_t cut = c.chance( 1, 2 ) ? 1 + c.draw( 8 ) : 1 + c.draw( 1023 );
               if ( len < 2048 || len % 1024 || ( logOf( le( &lg[24], 8 ) ) + f.xml.size() - 1 ) / 1020 != len / 1024 - 1 || !put( 16, len - cut, 8 ) )
               {
                  return false;
               }
               d.bytes.resize( len - cut );
               d.what = strf( "%llu bytes missing from the last page", (unsigned long long)cut );
               return true;
            }
            default:
            {
               if ( len < 2048 )
               {
                  return false;
               }
               d.bytes = f.bytes;
               d.bytes.resize( c.chance( 1, 2 ) ? len - 1024 : 1024 * ( 1 + c.draw( uint32_t( len / 1024 - 1 ) ) ) );
               d.what = "last pages missing";
               return true;
            }
         }
      }

      // ---------------------------------------------------------------- record sections
      bool consistent( const std::vector<uint8_t> &lg, uint64_t p, unsigned len )
      {
         // as far as the packet alone can tell
         uint64_t bc = le( &lg[p + 4], 2 );
         uint64_t need = 6 + 2 * bc;
         if ( need > len )
         {
            return false;
         }
         for ( uint64_t i = 0; i < bc; i++ )
         {
            need += le( &lg[p + 6 + 2 * i], 2 );
         }
         if ( need > len || need + 3 < len )
         {
            return false;
         }
         for ( uint64_t i = need; i < len; i++ )
         {
            if ( lg[p + i] )
            {
               return false;
            }
         }
         return true;
      }
      bool damageSection( Choices &c, const File &f, Damage &d )
      {
         if ( f.cvs.empty() )
         {
            return false;
         }
         const Section &s = f.cvs[c.draw( f.cvs.size() )];
         d.atOpen = false;
         d.n = s.n;
         auto lg = f.lg;
         const uint64_t len = f.bytes.size();
         auto put = [&]( size_t at, uint64_t v, unsigned n, const std::string &what ) {
            if ( le( &lg[at], n ) == v )
            {
               return false;
            }
            setLe( lg, at, v, n );
            d.bytes = toPhysical( lg );
            d.what = what + " of " + s.path;
            return true;
         };
         auto beyond = [&]() {
            static const uint64_t v[] = { 0, 4, 1024, 4096, 1ULL << 31, 1ULL << 32, 1ULL << 40, 1ULL << 62 };
            return len + v[c.draw( 8 )];
         };
         // last packet a reader of all fields must go past
         size_t last = 0;
         {
            std::vector<uint64_t> sum( s.n->leaves.size() );
            for ( size_t k = s.packets.size(); k-- > 0; )
            {
               auto &p = s.packets[k];
               bool enough = false;
               if ( p.type == 1 )
               {
                  for ( size_t i = 0; i < sum.size(); i++ )
                  {
                     sum[i] += le( &lg[p.off + 6 + 2 * i], 2 );
                     enough = enough || sum[i] > 8;
                  }
               }
               if ( enough )
               {
                  last = k;
                  break;
               }
            }
         }
         auto pick = [&]( uint8_t type, bool firstOnly, Packet &out ) {
            std::vector<size_t> v;
            for ( size_t k = 0; k < s.packets.size() && k <= last; k++ )
            {
               if ( s.packets[k].type == type && ( k == 0 || !firstOnly ) )
               {
                  v.push_back( k );
               }
            }
            if ( v.empty() )
            {
               return false;
            }
            out = s.packets[v[c.draw( v.size() )]];
            return true;
         };
         Packet p;
         switch ( c.draw( 17 ) )
         {
            case 0:
            {
               static const uint8_t v[] = { 0, 2, 3, 0x81, 0xFF };
               uint8_t x = v[c.draw( 5 )];
               return put( s.off, x, 1, strf( "section id %u", x ) );
            }
            case 1:
            {
               unsigned i = 1 + c.draw( 7 );
               return put( s.off + i, 1u << c.draw( 8 ), 1, strf( "reserved byte %u not zero", i ) );
            }
            case 2:
               return put( s.off + 8, s.end - s.off + 1 + c.draw( 3 ), 8, "section length not a multiple of 4" );
            case 3:
               return put( s.off + 8, ( beyond() + 3 ) / 4 * 4, 8, "section length beyond the file" );
            case 4:
               return put( s.off + 16, beyond(), 8, "data offset beyond the file" );
            case 5:
               return put( s.off + 24, beyond(), 8, "index offset beyond the file" );
            case 6: // the data offset leads to a packet of another kind
            {
               std::vector<uint64_t> v;
               for ( auto &q : s.packets )
               {
                  if ( q.type != 1 )
                  {
                     v.push_back( q.off );
                  }
               }
               return !v.empty() && put( s.off + 16, physOf( v[c.draw( v.size() )] ), 8, "data offset to another kind of packet" );
            }
            case 7:
            {
               static const uint8_t v[] = { 3, 4, 0x11, 0x81, 0xFF };
               return pick( uint8_t( c.draw( 3 ) ), false, p ) && put( p.off, v[c.draw( 5 )], 1, strf( "packet type at %llu", (unsigned long long)p.off ) );
            }
            case 8:
               return pick( 1, true, p ) && put( p.off, c.chance( 1, 2 ) ? 0 : 2, 1, "first packet not a data packet" );
            case 9: // length not a multiple of four
               return pick( uint8_t( c.draw( 3 ) ), false, p ) &&
                      put( p.off + 2, ( p.len - 1 ) / 4 * 4 + c.draw( 3 ), 2, strf( "packet length at %llu", (unsigned long long)p.off ) );
            case 10: // length too great or too small for the content
            {
               if ( !pick( 1, false, p ) )
               {
                  return false;
               }
               uint64_t v = c.chance( 1, 2 ) ? p.len + 4 * ( 1 + c.draw( 16 ) ) : p.len - std::min<uint64_t>( p.len, 4 * ( 1 + c.draw( 16 ) ) );
               return v >= 4 && v <= 65536 && put( p.off + 2, v - 1, 2, strf( "packet length at %llu is %llu, not %u:", (unsigned long long)p.off, (unsigned long long)v, p.len ) );
            }
            case 11:
            {
               if ( !pick( 1, false, p ) )
               {
                  return false;
               }
               static const uint16_t v[] = { 0, 1, 2, 0x7FFF, 0x8000, 0xFFFF };
               uint64_t old = le( &lg[p.off + 4], 2 );
               uint64_t x = c.chance( 1, 2 ) ? v[c.draw( 6 )] : c.chance( 1, 2 ) ? old + 1 + c.draw( 4 ) : old - 1;
               if ( !put( p.off + 4, x & 0xFFFF, 2, strf( "stream count %llu, not %llu, in the packet at %llu", (unsigned long long)x, (unsigned long long)old, (unsigned long long)p.off ) ) )
               {
                  return false;
               }
               return !consistent( lg, p.off, p.len );
            }
            case 12:
            {
               if ( !pick( 1, false, p ) )
               {
                  return false;
               }
               uint64_t bc = le( &lg[p.off + 4], 2 );
               if ( bc == 0 )
               {
                  return false;
               }
               uint64_t i = c.draw( uint32_t( bc ) );
               uint64_t old = le( &lg[p.off + 6 + 2 * i], 2 ), x = old;
               switch ( c.draw( 4 ) )
               {
                  case 0:
                     x = old + 1 + c.draw( 8 );
                     break;
                  case 1:
                     x = old - 1 - c.draw( 8 );
                     break;
                  case 2:
                     x = old ^ ( 1u << c.draw( 16 ) );
                     break;
                  default:
                     x = 0xFFFF - c.draw( 8 );
               }
               if ( !put( p.off + 6 + 2 * i, x & 0xFFFF, 2, strf( "length %llu, not %llu, of stream %llu in the packet at %llu", (unsigned long long)( x & 0xFFFF ), (unsigned long long)old, (unsigned long long)i, (unsigned long long)p.off ) ) )
               {
                  return false;
               }
               return !consistent( lg, p.off, p.len );
            }
            case 13: // bytes after the last stream
            {
               if ( !pick( 1, false, p ) )
               {
                  return false;
               }
               uint64_t bc = le( &lg[p.off + 4], 2 ), need = 6 + 2 * bc;
               for ( uint64_t i = 0; i < bc; i++ )
               {
                  need += le( &lg[p.off + 6 + 2 * i], 2 );
               }
               return need < p.len && put( p.off + need + c.draw( uint32_t( p.len - need ) ), 1u << c.draw( 8 ), 1, strf( "padding of the packet at %llu not zero", (unsigned long long)p.off ) );
            }
            case 14:
            case 15: // index packets
            {
               if ( !pick( 0, false, p ) )
               {
                  return false;
               }
               std::string at = strf( " in the index packet at %llu", (unsigned long long)p.off );
               uint64_t ec = le( &lg[p.off + 4], 2 );
               switch ( c.draw( 5 ) )
               {
                  case 0:
                     return put( p.off + 4, 0, 2, "no entries" + at );
                  case 1:
                     return put( p.off + 4, c.chance( 1, 2 ) ? 2049 : 2049 + c.draw( 60000 ), 2, "too many entries" + at );
                  case 2:
                     return put( p.off + 6, c.chance( 1, 2 ) ? 6 : 6 + c.draw( 250 ), 1, "index level too high" + at );
                  case 3:
                     return put( p.off + 7 + c.draw( 9 ), 1u << c.draw( 8 ), 1, "reserved bytes not zero" + at );
                  default: // more entries than fit
                  {
                     uint64_t x = ( p.len - 16 ) / 16 + 1 + c.draw( 3 );
                     return x > ec && x <= 2048 && put( p.off + 4, x, 2, "more entries than fit" + at );
                  }
               }
            }
            default: // the element leads to a section of another kind
            {
               if ( f.blobs.empty() )
               {
                  return false;
               }
               const Section &b = f.blobs[c.draw( f.blobs.size() )];
               std::string x = f.xml, from = strf( "fileOffset=\"%llu\"", (unsigned long long)s.phys );
               size_t q = x.find( from );
               if ( q == std::string::npos )
               {
                  return false;
               }
               x.replace( q, from.size(), strf( "fileOffset=\"%llu\"", (unsigned long long)b.phys ) );
               d.bytes = f.bytes;
               d.what = s.path + " leads to a blob";
               return replaceXml( d.bytes, x );
            }
         }
      }
      bool damageBlob( Choices &c, const File &f, Damage &d )
      {
         if ( f.blobs.empty() )
         {
            return false;
         }
         const Section &s = f.blobs[c.draw( f.blobs.size() )];
         d.atOpen = false;
         d.n = s.n;
         std::string x = f.xml;
         d.bytes = f.bytes;
         const bool start = c.chance( 1, 2 );
         if ( start && s.n->blob.empty() )
         {
            return false;
         }
         for ( auto &t : tagsOf( x ) )
         {
            auto as = attrsOf( x, t );
            bool mine = false;
            for ( auto &a : as )
            {
               mine = mine || ( a.key == "fileOffset" && x.substr( a.vb, a.ve - a.vb ) == strf( "%llu", (unsigned long long)s.phys ) );
            }
            for ( auto &a : as )
            {
               if ( mine && a.key == ( start ? "fileOffset" : "length" ) )
               {
                  static const uint64_t add[] = { 0, 4, 1024, 65536, 1ULL << 32, 1ULL << 40 };
                  const uint64_t v = f.bytes.size() + 65536 + add[c.draw( 6 )]; // beyond the file whatever the XML grows to
                  d.what = strf( "%s %llu of blob ", start ? "file offset" : "length", (unsigned long long)v ) + s.path;
                  x.replace( a.vb, a.ve - a.vb, strf( "%llu", (unsigned long long)v ) );
                  return replaceXml( d.bytes, x );
               }
            }
         }
         return false;
      }

      // ---------------------------------------------------------------- XML
      std::string typeOf( const std::string &x, const Tag &t )
      {
         for ( auto &a : attrsOf( x, t ) )
         {
            if ( a.key == "type" )
            {
               return x.substr( a.vb, a.ve - a.vb );
            }
         }
         return "";
      }
      bool damageXml( Choices &c, const File &f, Damage &d )
      {
         std::string x = f.xml;
         auto tags = tagsOf( x );
         std::vector<size_t> open;
         size_t root = tags.size();
         for ( size_t i = 0; i < tags.size(); i++ )
         {
            if ( !tags[i].close )
            {
               if ( root == tags.size() )
               {
                  root = i;
               }
               open.push_back( i );
            }
         }
         if ( root == tags.size() || tags[root].name != "e57Root" || tags[root].empty || !tags.back().close || tags.back().name != "e57Root" )
         {
            return false;
         }
         const size_t rootEnd = tags.back().b;
         auto done = [&]( const std::string &what ) {
            d.what = what;
            d.bytes = f.bytes;
            return replaceXml( d.bytes, x );
         };
         auto extra = [&]( const std::string &e ) {
            // an element of its own, first or last in the root or in some structure
            std::vector<size_t> at = { tags[root].e, rootEnd };
            for ( auto i : open )
            {
               if ( !tags[i].empty && typeOf( x, tags[i] ) == "Structure" )
               {
                  at.push_back( tags[i].e );
               }
            }
            x.insert( c.chance( 1, 2 ) ? at[c.draw( 2 )] : at[c.draw( at.size() )], e );
            return done( "element " + e );
         };
         auto pick = [&]( std::initializer_list<const char *> types, bool nonEmpty, Tag &out ) {
            std::vector<size_t> v;
            for ( auto i : open )
            {
               std::string ty = typeOf( x, tags[i] );
               for ( auto q : types )
               {
                  if ( ty == q && !( nonEmpty && tags[i].empty ) )
                  {
                     v.push_back( i );
                  }
               }
            }
            if ( v.empty() )
            {
               return false;
            }
            out = tags[v[c.draw( v.size() )]];
            return true;
         };
         auto drop = [&]( const Tag &t, const std::string &key ) {
            for ( auto &a : attrsOf( x, t ) )
            {
               if ( a.key == key )
               {
                  x.erase( a.b, a.e - a.b );
                  return done( "attribute " + key + " of " + t.name + " missing" );
               }
            }
            return false;
         };
         auto set = [&]( const Tag &t, const std::string &key, const std::string &v ) {
            for ( auto &a : attrsOf( x, t ) )
            {
               if ( a.key == key )
               {
                  x.replace( a.vb, a.ve - a.vb, v );
                  return done( "attribute " + key + "=\"" + v + "\" of " + t.name );
               }
            }
            return false;
         };
         Tag t;
         switch ( c.draw( 30 ) )
         {
            case 0:
            {
               static const char *const v[] = { "Bogus", "", "integer", "Integer ", "INTEGER", "struct", "Int", "Structures" };
               t = tags[open[c.draw( open.size() )]];
               return set( t, "type", v[c.draw( 8 )] );
            }
            case 1:
               t = tags[open[c.draw( open.size() )]];
               return drop( t, "type" );
            case 2:
            {
               static const char *const v[] = { "half", "", "Single", "DOUBLE", "singl", "doubles" };
               std::string e = strf( "<simInv type=\"Float\" precision=\"%s\">1</simInv>", v[c.draw( 6 )] );
               return extra( e );
            }
            case 3: // integers outside their bounds
            case 4:
            {
               int64_t a = c.chance( 1, 2 ) ? int64_t( c.draw( 2000 ) ) - 1000 : int64_t( c.sub() >> 2 ) - ( 1LL << 60 );
               int64_t b = a + int64_t( c.chance( 1, 4 ) ? 0 : c.chance( 1, 2 ) ? c.draw( 100 ) : c.draw( 1u << 31 ) );
               bool up = c.chance( 1, 2 );
               int64_t by = c.chance( 1, 2 ) ? 1 : 1 + c.draw( 1000 );
               int64_t v = up ? b + by : a - by;
               std::string lim;
               unsigned which = c.draw( 3 ); // sometimes only the limit that is broken
               if ( which || !up )
               {
                  lim += strf( " minimum=\"%lld\"", (long long)a );
               }
               if ( which || up )
               {
                  lim += strf( " maximum=\"%lld\"", (long long)b );
               }
               if ( c.chance( 1, 2 ) )
               {
                  return extra( strf( "<simInv type=\"Integer\"%s>%lld</simInv>", lim.c_str(), (long long)v ) );
               }
               return extra( strf( "<simInv type=\"ScaledInteger\"%s scale=\"%s\">%lld</simInv>", lim.c_str(), c.chance( 1, 2 ) ? "0.001" : "1000", (long long)v ) );
            }
            case 5: // numbers outside their bounds
            {
               double a = double( c.draw( 2000 ) ) - 1000, b = a + c.draw( 500 );
               bool up = c.chance( 1, 2 );
               double by = c.chance( 1, 2 ) ? 0.0625 : 1 + c.draw( 1000 );
               double v = up ? b + by : a - by;
               std::string lim;
               unsigned which = c.draw( 3 );
               if ( which || !up )
               {
                  lim += strf( " minimum=\"%.17g\"", a );
               }
               if ( which || up )
               {
                  lim += strf( " maximum=\"%.17g\"", b );
               }
               static const char *const pr[] = { "", " precision=\"single\"", " precision=\"double\"" };
               return extra( strf( "<simInv type=\"Float\"%s%s>%.17g</simInv>", pr[c.draw( 3 )], lim.c_str(), v ) );
            }
            case 6: // limits the wrong way round
            {
               static const char *const ty[] = { "Integer", "ScaledInteger", "Float" };
               return extra( strf( "<simInv type=\"%s\" minimum=\"10\" maximum=\"9\">%u</simInv>", ty[c.draw( 3 )], c.draw( 2 ) + 9 ) );
            }
            case 7:
               return pick( { "Blob" }, false, t ) && drop( t, c.chance( 1, 2 ) ? "fileOffset" : "length" );
            case 8:
               return pick( { "CompressedVector" }, false, t ) && drop( t, c.chance( 1, 2 ) ? "fileOffset" : "recordCount" );
            case 9: // text where none belongs
            case 10:
            {
               static const char *const v[] = { "x", "0", " 1 ", "\n.\n", "<![CDATA[x]]>", "&amp;" };
               if ( !pick( { "Structure", "Vector", "CompressedVector" }, true, t ) )
               {
                  return false;
               }
               std::string w = v[c.draw( 6 )];
               x.insert( t.e, w );
               return done( "text \"" + w + "\" in " + t.name );
            }
            case 11:
            {
               static const char *const v[] = { "<simInv type=\"Blob\" fileOffset=\"48\" length=\"0\">x</simInv>", "<simInv type=\"Vector\">0</simInv>",
                                                "<simInv type=\"Structure\"><![CDATA[ y ]]></simInv>" };
               return extra( v[c.draw( 3 )] );
            }
            case 12: // the same name twice
            {
               if ( !pick( { "Structure" }, true, t ) )
               {
                  return false;
               }
               // a child of it
               size_t i = 0;
               while ( tags[i].b != t.b )
               {
                  i++;
               }
               size_t end = matching( tags, i );
               std::vector<size_t> kids;
               for ( size_t k = i + 1; k < end; )
               {
                  kids.push_back( k );
                  k = matching( tags, k ) + 1;
               }
               if ( kids.empty() )
               {
                  return false;
               }
               size_t k = kids[c.draw( kids.size() )];
               std::string e = x.substr( tags[k].b, tags[matching( tags, k )].e - tags[k].b );
               std::string nm = tags[k].name;
               if ( e.size() > 20000 )
               {
                  return false;
               }
               if ( c.chance( 1, 2 ) )
               {
                  e = "<" + nm + " type=\"Integer\">1</" + nm + ">";
               }
               x.insert( c.chance( 1, 2 ) ? tags[end].b : tags[i].e, e );
               return done( "second " + nm + " in " + t.name );
            }
            case 13: // unlike children of a vector that has to be uniform
            {
               static const char *const one[] = { "<vectorChild type=\"Integer\">1</vectorChild>",
                                                  "<vectorChild type=\"Integer\" minimum=\"0\" maximum=\"5\">1</vectorChild>",
                                                  "<vectorChild type=\"Float\">1</vectorChild>",
                                                  "<vectorChild type=\"Float\" precision=\"single\">1</vectorChild>",
                                                  "<vectorChild type=\"String\">1</vectorChild>",
                                                  "<vectorChild type=\"ScaledInteger\" scale=\"2\">1</vectorChild>",
                                                  "<vectorChild type=\"ScaledInteger\" scale=\"3\">1</vectorChild>",
                                                  "<vectorChild type=\"Structure\"/>",
                                                  "<vectorChild type=\"Structure\"><a type=\"Integer\">1</a></vectorChild>",
                                                  "<vectorChild type=\"Structure\"><b type=\"Integer\">1</b></vectorChild>",
                                                  "<vectorChild type=\"Structure\"><a type=\"String\"/></vectorChild>",
                                                  "<vectorChild type=\"Vector\"/>",
                                                  "<vectorChild type=\"Vector\" allowHeterogeneousChildren=\"1\"/>" };
               unsigned a = c.draw( 13 ), b = ( a + 1 + c.draw( 12 ) ) % 13, n = 1 + c.draw( 3 );
               std::string e = std::string( "<simInv type=\"Vector\"" ) + ( c.chance( 1, 2 ) ? " allowHeterogeneousChildren=\"0\"" : "" ) + ">";
               for ( unsigned i = 0; i < n; i++ )
               {
                  e += one[a];
               }
               return extra( e + one[b] + "</simInv>" );
            }
            case 14:
            {
               static const char *const v[] = { "2", "-1", "10", "4294967296", "4294967297" };
               return extra( strf( "<simInv type=\"Vector\" allowHeterogeneousChildren=\"%s\"/>", v[c.draw( 5 )] ) );
            }
            case 15: // what a record set may hold
            case 16:
            {
               static const char *const v[] = { "<other type=\"Integer\">1</other>", "<codecs type=\"Structure\"/>", "<codecs type=\"Vector\"/>",
                                                "<codecs type=\"Integer\">1</codecs>", "<Prototype type=\"Structure\"/>", "<codecs type=\"Vector\" allowHeterogeneousChildren=\"0\"/>",
                                                "<prototype type=\"Structure\"><a type=\"Integer\"/></prototype>",
                                                "<codecs type=\"Vector\" allowHeterogeneousChildren=\"1\"/><codecs type=\"Vector\" allowHeterogeneousChildren=\"1\"/>" };
               return extra( std::string( "<simInv type=\"CompressedVector\" fileOffset=\"48\" recordCount=\"0\"><prototype type=\"Structure\"><a type=\"Integer\"/></prototype>" ) +
                             v[c.draw( 8 )] + "</simInv>" );
            }
            case 17: // children of elements that cannot have any
            {
               static const char *const v[] = { "Integer", "ScaledInteger", "Float", "String", "Blob\" fileOffset=\"48\" length=\"0" };
               static const char *const k[] = { "<a type=\"Integer\">1</a>", "<a type=\"Structure\"/>", "<a type=\"String\"/>" };
               return extra( std::string( "<simInv type=\"" ) + v[c.draw( 5 )] + "\">" + k[c.draw( 3 )] + "</simInv>" );
            }
            case 18: // the root
            {
               static const char *const v[] = { "Vector", "Integer", "String", "Float", "CompressedVector" };
               return set( tags[root], "type", v[c.draw( 5 )] );
            }
            case 19:
               return drop( tags[root], "xmlns" );
            case 20:
               return extra( c.chance( 1, 2 ) ? "<zqx:a type=\"Integer\">1</zqx:a>" : "<simInv type=\"Structure\"><zqx:a type=\"String\"/></simInv>" );
            case 21: // two prefixes for one extension
               x.insert( tags[root].e - 1, " xmlns:sima=\"http://sim/a\" xmlns:simb=\"http://sim/a\"" );
               return done( "two prefixes for one URI" );
            case 22: // tags that do not match
            {
               std::vector<size_t> v;
               for ( size_t i = 0; i < tags.size(); i++ )
               {
                  if ( tags[i].close )
                  {
                     v.push_back( i );
                  }
               }
               t = tags[v[c.draw( v.size() )]];
               if ( c.chance( 1, 2 ) )
               {
                  x.erase( t.b, t.e - t.b );
                  return done( "end of " + t.name + " missing" );
               }
               x.insert( t.e - 1, "Q" );
               return done( "end tag of " + t.name + " misspelt" );
            }
            case 23: // cut short
            {
               size_t at = c.chance( 1, 2 ) ? tags[c.draw( tags.size() )].b : c.draw( uint32_t( rootEnd + 8 ) );
               x.resize( at );
               return done( strf( "XML ends after %zu of %zu", at, f.xml.size() ) );
            }
            case 24: // something after the root
            {
               static const char *const v[] = { "x", "<a type=\"Structure\"/>", "<e57Root type=\"Structure\" xmlns=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\"/>", "&amp;", "</e57Root>" };
               unsigned i = c.draw( 5 );
               x = x.substr( 0, tags.back().e ) + ( c.chance( 1, 2 ) ? "\n" : "" ) + v[i];
               return done( std::string( "after the root: " ) + v[i] );
            }
            case 25: // text that is no XML
            {
               static const char *const v[] = { "<simInv type=\"String\">&nosuch;</simInv>",
                                                "<simInv type=\"String\">\x01</simInv>",
                                                "<simInv type=\"String\">\xFF</simInv>",
                                                "<simInv type=\"String\">\xC0\xAF</simInv>",
                                                "<simInv type=\"String\">\xE2\x82</simInv>",
                                                "<simInv type=\"String\">\xED\xA0\x80</simInv>",
                                                "<simInv type=\"String\"><![CDATA[\x02]]></simInv>",
                                                "<simInv type=\"String\"><![CDATA[\xF8\x88\x80\x80\x80]]></simInv>",
                                                "<simInv type=\"String\">]]></simInv>",
                                                "<simInv type=\"String\">&#0;</simInv>",
                                                "<simInv type=\"String\">&#xFFFF;</simInv>",
                                                "<simInv type=\"String\">&amp</simInv>",
                                                "<simInv type=\"String\"><![CDATA[x</simInv>" };
               return extra( v[c.draw( 13 )] );
            }
            case 26: // markup that is none
            {
               static const char *const v[] = { "<simInv type=\"String\" type=\"String\"/>",  "<simInv type=String/>",  "<simInv type=\"String\"", "<1a type=\"String\"/>",
                                                "<simInv type=\"Str<ing\"/>",                "<!-- a -- b -->",        "<!-- never closed",      "<?xml version=\"1.0\"?>",
                                                "< simInv type=\"String\"/>",                "<simInv type='String\"/>", "<simInv type=\"String\"></siminv>" };
               return extra( v[c.draw( 11 )] );
            }
            case 27:
            {
               static const char *const v[] = { "", "   \n", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<!-- -->", "not XML at all", "<e57Root>", "<e57Root/>" };
               x = v[c.draw( 7 )];
               return done( "XML replaced by \"" + x + "\"" );
            }
            case 28: // an attribute two elements of every file need
               return pick( { "CompressedVector", "Blob", "Vector", "Structure", "Integer" }, false, t ) && drop( t, "type" );
            default:
            {
               x.insert( 0, c.chance( 1, 2 ) ? "x" : "<a/>" );
               return done( "text before the root" );
            }
         }
      }
   }

   static void runInvalid( Choices &c, unsigned profile )
   {
      File f;
      const char *path = "/sim/inv.e57";
      {
         GenOpts o = profile < 6 ? smallOpts( c ) : drawOpts( c, c.draw( 8 ) );
         o.forceCV = int( 1 + c.draw( 3 ) );
         if ( c.chance( 1, 2 ) )
         {
            o.forceBlob = int( 1 + c.draw( 2 ) );
         }
         o.minRecords = c.chance( 3, 4 ) ? 20 : 0;
         o.maxRecords = std::max<uint32_t>( o.maxRecords, 60 + c.draw( 400 ) );
         f.doc = genDoc( c, o );
      }
      f.paths = docPaths( *f.doc );
      const bool own = c.chance( 3, 4 );
      const bool xmlDamage = own ? c.chance( 1, 2 ) : true;
      if ( own )
      {
         LayoutOpts lo;
         static const uint32_t mp[] = { 65536, 2048, 300, 1000, 20000 };
         lo.maxPacket = mp[c.draw( 5 )];
         lo.plain = xmlDamage && c.chance( 2, 3 );
         for ( auto n : f.doc->cvs )
         {
            lo.maxPacket = std::max<uint32_t>( lo.maxPacket, uint32_t( 6 + 2 * n->leaves.size() + 40 ) );
         }
         Choices enc = Choices::quiet( c.sub() );
         f.bytes = encodeDoc( *f.doc, enc, lo );
         PROBE( "invalid: independent encoder" );
      }
      else
      {
         writeClean( *f.doc, path );
         f.bytes = g_disk->bytes( path );
         PROBE( "invalid: library writer" );
      }
      if ( !survey( f ) )
      {
         throw Unsuitable{};
      }
      trace( "%zu bytes, %s", f.bytes.size(), docSummary( *f.doc ).c_str() );

      unsigned rounds = profile < 6 ? 6 : 3;
      for ( unsigned k = 0; k < rounds; k++ )
      {
         Damage d;
         bool have = false;
         for ( unsigned i = 0; i < 12 && !have; i++ )
         {
            d = Damage();
            switch ( c.weighted( { 2, 5, 1, 6 } ) )
            {
               case 0:
                  have = damageHeader( c, f, d );
                  break;
               case 1:
                  have = damageSection( c, f, d );
                  break;
               case 2:
                  have = damageBlob( c, f, d );
                  break;
               default:
                  have = damageXml( c, f, d );
            }
         }
         if ( !have )
         {
            continue;
         }
         nontrivial();
         PROBE( "fault:rule of the format broken" );
         trace( "round %u: %s", k, d.what.c_str() );
         g_disk->clearPlan();
         g_disk->put( path, d.bytes );
         const bool mem = c.chance( 1, 4 );
         const int pol = c.chance( 1, 2 ) ? 100 : int( c.draw( 101 ) );
         const bool faults = !mem && c.chance( 1, 4 );
         if ( faults )
         {
            // the disk adds its own
            g_disk->planPath = path;
            for ( unsigned i = 1 + c.draw( 6 ); i; i-- )
            {
               g_disk->plan.push_back( { g_disk->ops + c.draw( 60 ), c.chance( 1, 2 ) ? FShort : FIntr, c.draw( 1024 ), 1 + c.draw( 3 ), -1 } );
            }
         }
         std::unique_ptr<e57::ImageFile> imf;
         auto open = [&] {
            g_sh->sessions++;
            return lib( [&] {
               if ( mem )
               {
                  imf.reset( new e57::ImageFile( reinterpret_cast<const char *>( d.bytes.data() ), d.bytes.size(), pol ) );
               }
               else
               {
                  imf.reset( new e57::ImageFile( path, "r", pol ) );
               }
            } );
         };
         auto refused = [&]( const Res &r, const char *call ) {
            if ( r.ok )
            {
               fail( strf( "%s accepts a file that breaks a rule of the format :: ", call ) + d.what );
            }
            if ( r.foreign )
            {
               fail( strf( "%s met a file that breaks a rule of the format with ", call ) + r.what + " :: " + d.what );
            }
         };
         if ( d.atOpen )
         {
            for ( unsigned i = 1 + c.draw( 2 ); i; i-- )
            {
               refused( open(), "opening" );
               PROBE( "invalid: refused at open" );
            }
         }
         else
         {
            Res r = open();
            if ( !r.ok && faults )
            {
               refused( r, "opening" );
               continue;
            }
            if ( !r.ok )
            {
               fail( "damage in one element keeps the whole file from opening: " + resStr( r ) + " :: " + d.what );
            }
            unsigned bads = 1 + c.draw( 2 ), acts = 3 + c.draw( 6 );
            for ( unsigned a = 0; a < acts || bads; a++ )
            {
               if ( bads && ( a >= acts || c.chance( 1, 3 ) ) )
               {
                  bads--;
                  std::string bad;
                  if ( d.n->kind == KBlob )
                  {
                     refused( readBlobRange( *imf, f.paths[d.n], *d.n, 0, d.what[0] == 'l' ? f.bytes.size() + 65536 : d.n->blob.size(), bad ), "reading a blob" );
                     PROBE( "invalid: refused blob" );
                     continue;
                  }
                  const bool all = c.chance( 2, 3 );
                  StepReader rd( *imf, *d.n, f.paths[d.n], all ? nullptr : &c );
                  Res x = rd.open();
                  while ( x.ok && !rd.done() && bad.empty() )
                  {
                     x = rd.step( bad );
                  }
                  if ( all || !x.ok )
                  {
                     refused( x, "reading records" );
                     PROBE( "invalid: refused records" );
                  }
                  else if ( !bad.empty() )
                  {
                     fail( "reading records delivers wrong data from a file that breaks a rule of the format :: " + bad + " :: " + d.what );
                  }
                  rd.destroy();
                  continue;
               }
               if ( faults )
               {
                  continue;
               }
               // the rest is as it was
               std::string bad;
               Res x;
               if ( !f.blobs.empty() && c.chance( 1, 3 ) )
               {
                  const Section &s = f.blobs[c.draw( f.blobs.size() )];
                  if ( s.n == d.n )
                  {
                     continue;
                  }
                  x = readBlobRange( *imf, s.path, *s.n, 0, s.n->blob.size(), bad );
               }
               else
               {
                  const Section &s = f.cvs[c.draw( f.cvs.size() )];
                  if ( s.n == d.n )
                  {
                     continue;
                  }
                  StepReader rd( *imf, *s.n, s.path, &c );
                  x = rd.open();
                  while ( x.ok && !rd.done() && bad.empty() )
                  {
                     x = rd.step( bad );
                  }
                  rd.destroy();
               }
               if ( !x.ok )
               {
                  fail( "damage in one element keeps another from being read: " + resStr( x ) + " :: " + d.what );
               }
               if ( !bad.empty() )
               {
                  fail( "damage in one element changes another :: " + bad + " :: " + d.what );
               }
               PROBE( "invalid: other elements read" );
            }
            r = lib( [&] {
               imf->close();
               imf.reset();
            } );
            if ( !r.ok && !faults )
            {
               fail( "closing the file failed: " + resStr( r ) + " :: " + d.what );
            }
         }
         imf.reset();
         g_disk->clearPlan();
         if ( g_disk->openFds() )
         {
            fail( "a refused file stays open :: " + d.what );
         }
         // and the file without the damage is as good as ever
         if ( c.chance( 1, 3 ) && own )
         {
            g_disk->put( path, f.bytes );
            Res e;
            std::string bad = openAndVerify( path, *f.doc, nullptr, e );
            if ( !e.ok || !bad.empty() )
            {
               fail( "a valid file read after an invalid one: " + ( bad.empty() ? resStr( e ) : bad ) );
            }
         }
      }
   }
   static FamilyReg r28( { "invalid", runInvalid, 8 } );
}
