// C23: the element tree a program sees is at every moment exactly the one it built.
#include "fam.h"
#include <cmath>

namespace sim
{
   using namespace e57;
   namespace
   {
      // Appends one code point, also ones that are no characters or not the shortest form.
      void putCode( std::string &s, uint32_t u, unsigned len )
      {
         static const uint8_t lead[] = { 0, 0, 0xC0, 0xE0, 0xF0 };
         if ( len == 1 )
         {
            s += char( u );
            return;
         }
         s += char( lead[len] | ( u >> ( 6 * ( len - 1 ) ) ) );
         for ( unsigned k = len - 1; k--; )
         {
            s += char( 0x80 | ( ( u >> ( 6 * k ) ) & 0x3F ) );
         }
      }
      // Text of any bytes; odd: it cannot be put in XML.
      std::string anyText( Choices &c, bool &odd )
      {
         std::string s = genText( c, 8 );
         odd = false;
         if ( c.chance( 5, 6 ) )
         {
            return s;
         }
         static const uint32_t codes[] = { 0,      1,      8,      9,      0xA,    0xB,    0xD,     0x1F,    0x20,    0x7F,     0x80,     0x9F,    0x7FF,
                                           0x800,  0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE,  0xFFFF,  0x10000, 0x10FFFF, 0x110000, 0x3FFFF };
         for ( unsigned n = 1 + c.draw( 3 ); n; n-- )
         {
            uint32_t u = c.chance( 1, 4 ) ? uint32_t( c.draw( 0x110100 ) ) : codes[c.draw( sizeof codes / sizeof *codes )];
            unsigned least = u < 0x80 ? 1 : u < 0x800 ? 2 : u < 0x10000 ? 3 : 4;
            unsigned len = least;
            bool ok = u == 9 || u == 10 || u == 13 || ( u >= 0x20 && u <= 0xD7FF ) || ( u >= 0xE000 && u <= 0xFFFD ) || ( u >= 0x10000 && u <= 0x10FFFF );
            if ( c.chance( 1, 8 ) && least < 4 )
            {
               len = least + 1;
            }
            putCode( s, u, len );
            bool cut = len > 1 && c.chance( 1, 8 );
            if ( cut )
            {
               s.pop_back();
            }
            odd = odd || !ok || len != least || cut;
         }
         s += c.chance( 1, 2 ) ? genText( c, 4 ) : std::string();
         return s;
      }

      struct T;
      using TP = std::shared_ptr<T>;
      struct T
      {
         int file = 0;
         Kind kind = KStruct;
         bool hetero = true;
         bool fileRoot = false;
         int64_t iv = 0, imin = 0, imax = 0;
         double scale = 1, offset = 0;
         double fv = 0, fmin = 0, fmax = 0;
         bool single = false;
         std::string sv;
         uint64_t size = 0; // blob
         unsigned protoKind = 0;
         T *parent = nullptr;
         std::string name;
         bool nameKnown = true; // lost when a detached parent goes away
         std::vector<TP> kids;
         std::unique_ptr<Node> h;
         bool isContainer() const
         {
            return kind == KStruct || kind == KVec;
         }
      };
      struct TFile
      {
         std::string path;
         std::unique_ptr<ImageFile> imf;
         TP root;
         std::vector<Ext> exts;
         bool spoiled = false;
         bool open = true;
      };

      T *top( T *n )
      {
         while ( n->parent )
         {
            n = n->parent;
         }
         return n;
      }
      bool attached( T *n )
      {
         return top( n )->fileRoot;
      }
      std::string pathOf( const T *n )
      {
         if ( !n->parent )
         {
            return "/";
         }
         return n->parent->parent ? pathOf( n->parent ) + "/" + n->name : "/" + n->name;
      }
      bool sameType( const T &a, const T &b )
      {
         if ( a.kind != b.kind )
         {
            return false;
         }
         switch ( a.kind )
         {
            case KInt:
               return a.imin == b.imin && a.imax == b.imax;
            case KScaled:
               return a.imin == b.imin && a.imax == b.imax && a.scale == b.scale && a.offset == b.offset;
            case KFloat:
               return a.single == b.single && a.fmin == b.fmin && a.fmax == b.fmax;
            case KString:
               return true;
            case KBlob:
               return a.size == b.size;
            case KCV:
               return a.protoKind == b.protoKind;
            case KVec:
               if ( a.hetero != b.hetero || a.kids.size() != b.kids.size() )
               {
                  return false;
               }
               for ( size_t i = 0; i < a.kids.size(); i++ )
               {
                  if ( !sameType( *a.kids[i], *b.kids[i] ) )
                  {
                     return false;
                  }
               }
               return true;
            case KStruct:
               if ( a.kids.size() != b.kids.size() )
               {
                  return false;
               }
               for ( auto &k : a.kids )
               {
                  bool found = false;
                  for ( auto &l : b.kids )
                  {
                     found = found || ( l->name == k->name && sameType( *k, *l ) );
                  }
                  if ( !found )
                  {
                     return false;
                  }
               }
               return true;
         }
         return false;
      }
      // a container below a homogeneous vector with several children cannot change any more
      bool frozen( const T *n )
      {
         for ( const T *p = n->parent; p; p = p->parent )
         {
            if ( p->kind == KVec && !p->hetero && p->kids.size() > 1 )
            {
               return true;
            }
         }
         return false;
      }
      bool numeric( const std::string &s )
      {
         return !s.empty() && s[0] >= '0' && s[0] <= '9';
      }
      std::vector<std::string> split( const std::string &p, bool &absolute )
      {
         std::vector<std::string> v;
         absolute = !p.empty() && p[0] == '/';
         size_t i = absolute;
         while ( i < p.size() )
         {
            size_t e = std::min( p.find( '/', i ), p.size() );
            v.push_back( p.substr( i, e - i ) );
            i = e + 1;
         }
         return v;
      }

      class Forest
      {
      public:
         Forest( Choices &c, unsigned profile ) : c( c ), memFaults( profile % 3 == 1 ), diskFaults( profile % 3 == 2 )
         {
         }
         ~Forest()
         {
            lib( [&] {
               handles.clear();
               files.clear();
            } );
         }
         Choices &c;
         bool memFaults, diskFaults;
         std::vector<std::unique_ptr<TFile>> files;
         std::vector<TP> handles; // elements with a handle
         unsigned extNo = 0;

         // ---- helpers
         void must( const char *what, const Res &r )
         {
            if ( !r )
            {
               fail( strf( "%s failed: ", what ) + resStr( r ) );
            }
         }
         bool arm()
         {
            g_alloc.fired = 0;
            if ( !memFaults || !c.chance( 1, 4 ) )
            {
               return false;
            }
            g_alloc.failAt = c.skewed( 24 );
            g_alloc.count = 0;
            g_alloc.armed = true;
            return true;
         }
         bool disarm()
         {
            g_alloc.armed = false;
            g_alloc.failAt = ~0ULL;
            bool f = g_alloc.fired > 0;
            if ( f )
            {
               PROBE( "allocation failed in a tree operation" );
            }
            return f;
         }
         bool registered( const TFile &f, const std::string &name )
         {
            size_t k = name.find( ':' );
            if ( k == std::string::npos )
            {
               return true;
            }
            for ( auto &e : f.exts )
            {
               if ( e.prefix == name.substr( 0, k ) )
               {
                  return true;
               }
            }
            return false;
         }
         std::string drawName( const TFile &f )
         {
            static const char *const pool[] = { "a", "b", "c", "data", "x1", "long.name-with_all", "\xC3\xA4" };
            if ( c.chance( 1, 6 ) )
            {
               std::string p = f.exts.empty() || c.chance( 1, 4 ) ? "none" : f.exts[c.draw( f.exts.size() )].prefix;
               return p + ":" + pool[c.draw( 3 )];
            }
            if ( c.chance( 1, 12 ) )
            {
               return std::to_string( c.draw( 4 ) );
            }
            return pool[c.draw( 7 )];
         }
         T *child( T *n, const std::string &name )
         {
            if ( n->isContainer() )
            {
               for ( auto &k : n->kids )
               {
                  if ( k->name == name )
                  {
                     return k.get();
                  }
               }
            }
            return nullptr;
         }
         T *lookup( T *from, const std::string &path )
         {
            bool abs;
            auto v = split( path, abs );
            T *cur = abs ? top( from ) : from;
            for ( auto &s : v )
            {
               cur = cur ? child( cur, s ) : nullptr;
            }
            return cur;
         }
         // A path that mostly leads somewhere.
         std::string drawPath( T *from, bool forSet )
         {
            TFile &f = *files[from->file];
            bool abs = c.chance( 1, 3 );
            T *cur = abs ? top( from ) : from;
            std::string p = abs ? "/" : "";
            unsigned depth = c.draw( 4 );
            for ( unsigned i = 0; i < depth && cur->isContainer() && !cur->kids.empty(); i++ )
            {
               T *k = cur->kids[c.draw( cur->kids.size() )].get();
               if ( k->kind == KCV || !k->nameKnown || ( forSet && !k->isContainer() && c.chance( 3, 4 ) ) )
               {
                  break;
               }
               p += ( p.empty() || p == "/" ? "" : "/" ) + k->name;
               cur = k;
            }
            if ( forSet || p.empty() || c.chance( 1, 4 ) )
            {
               std::string n = cur->kind == KVec && c.chance( 3, 4 ) ? std::to_string( cur->kids.size() - ( c.chance( 1, 5 ) && !cur->kids.empty() ) )
                                                                      : drawName( f );
               p += ( p.empty() || p == "/" ? "" : "/" ) + n;
            }
            return p;
         }
         bool legal( const TFile &f, const std::string &path )
         {
            bool abs;
            for ( auto &s : split( path, abs ) )
            {
               if ( !registered( f, s ) )
               {
                  return false;
               }
            }
            return true;
         }
         // The container a set() call would add to, or null if the call is to be refused.
         T *target( T *from, const std::string &path, T *n, std::string &name )
         {
            TFile &f = *files[from->file];
            bool abs;
            auto v = split( path, abs );
            if ( v.empty() || !legal( f, path ) )
            {
               return nullptr;
            }
            T *cur = abs ? top( from ) : from;
            for ( size_t i = 0; i + 1 < v.size(); i++ )
            {
               cur = child( cur, v[i] );
               if ( !cur )
               {
                  return nullptr;
               }
            }
            name = v.back();
            if ( !cur->isContainer() || child( cur, name ) )
            {
               return nullptr;
            }
            if ( cur->kind == KVec ? name != std::to_string( cur->kids.size() ) : numeric( name ) )
            {
               return nullptr;
            }
            return canTake( cur, n ) ? cur : nullptr;
         }
         bool canTake( T *cont, T *n )
         {
            if ( frozen( cont ) || cont->file != n->file || n->parent || n->fileRoot || top( cont ) == n )
            {
               return false;
            }
            if ( cont->kind == KVec && !cont->hetero )
            {
               for ( auto &k : cont->kids )
               {
                  if ( !sameType( *k, *n ) )
                  {
                     return false;
                  }
               }
            }
            return true;
         }

         // ---- actions
         static void construct( T &t, ImageFile &imf, bool scaledCtor )
         {
            switch ( t.kind )
            {
               case KStruct:
                  t.h.reset( new Node( StructureNode( imf ) ) );
                  break;
               case KVec:
                  t.h.reset( new Node( VectorNode( imf, t.hetero ) ) );
                  break;
               case KInt:
                  t.h.reset( new Node( IntegerNode( imf, t.iv, t.imin, t.imax ) ) );
                  break;
               case KScaled:
                  if ( scaledCtor )
                  {
                     t.h.reset( new Node( ScaledIntegerNode( imf, double( t.iv ) * t.scale + t.offset, double( t.imin ) * t.scale + t.offset,
                                                              double( t.imax ) * t.scale + t.offset, t.scale, t.offset ) ) );
                  }
                  else
                  {
                     t.h.reset( new Node( ScaledIntegerNode( imf, t.iv, t.imin, t.imax, t.scale, t.offset ) ) );
                  }
                  break;
               case KFloat:
                  t.h.reset( new Node( FloatNode( imf, t.fv, t.single ? PrecisionSingle : PrecisionDouble, t.fmin, t.fmax ) ) );
                  break;
               case KString:
                  t.h.reset( new Node( StringNode( imf, t.sv ) ) );
                  break;
               case KBlob:
                  t.h.reset( new Node( BlobNode( imf, int64_t( t.size ) ) ) );
                  break;
               case KCV:
               {
                  StructureNode p( imf );
                  p.set( "x", IntegerNode( imf, 0, 0, 5 + int64_t( t.protoKind ) ) );
                  t.h.reset( new Node( CompressedVectorNode( imf, p, VectorNode( imf, true ) ) ) );
                  break;
               }
            }
         }
         void create()
         {
            int fi = int( c.draw( files.size() ) );
            TFile &f = *files[fi];
            if ( !f.open )
            {
               return;
            }
            TP t( new T );
            t->file = fi;
            t->kind = Kind( c.weighted( { 6, 6, 3, 2, 2, 2, 1, 1 } ) );
            ImageFile &imf = *f.imf;
            bool odd = false;
            switch ( t->kind )
            {
               case KVec:
                  t->hetero = c.chance( 1, 3 );
                  break;
               case KInt:
                  t->imin = -int64_t( c.draw( 2 ) );
                  t->imax = 10 + int64_t( c.draw( 2 ) );
                  t->iv = int64_t( c.draw( 10 ) );
                  break;
               case KScaled:
                  t->imin = -5 - int64_t( c.draw( 2 ) );
                  t->imax = 10 + int64_t( c.draw( 2 ) );
                  t->iv = int64_t( c.draw( 10 ) ) - 5;
                  t->scale = c.chance( 1, 2 ) ? 0.5 : 0.25;
                  t->offset = c.chance( 1, 2 ) ? 0 : 3;
                  break;
               case KFloat:
                  t->single = c.chance( 1, 3 );
                  t->fmin = -1 - double( c.draw( 2 ) );
                  t->fmax = 8 + double( c.draw( 2 ) );
                  t->fv = double( c.draw( 32 ) ) / 4;
                  break;
               case KString:
                  t->sv = anyText( c, odd );
                  break;
               case KBlob:
                  t->size = 1 + c.draw( 3 ) * 700;
                  break;
               case KCV:
                  t->protoKind = c.draw( 3 );
                  break;
               default:
                  break;
            }
            if ( odd )
            {
               PROBE( "text with bytes no XML can hold" );
            }
            // what is accepted has to be there when the file is opened again
            bool scaledCtor = t->kind == KScaled && c.chance( 1, 2 );
            bool armed = t->kind == KBlob && diskFaults && c.chance( 1, 3 );
            if ( armed )
            {
               g_disk->clearPlan();
               g_disk->planPath = f.path;
               PlannedFault p{};
               p.at = c.skewed( 8 );
               p.kind = c.chance( 1, 2 ) ? FErr : FShort;
               p.arg = c.draw( 1024 );
               p.span = 1;
               p.onlyKind = -1;
               g_disk->plan.push_back( p );
            }
            bool mem = arm();
            Res r = lib( [&] { construct( *t, imf, scaledCtor ); } );
            bool fired = disarm();
            if ( armed )
            {
               if ( g_disk->firedCount )
               {
                  f.spoiled = true;
                  fired = true;
                  PROBE( "disk fault while an element is made" );
               }
               g_disk->clearPlan();
            }
            trace( "make element kind %d of file %d%s -> %s", int( t->kind ), fi, mem ? " (memory fault)" : "", resStr( r ).c_str() );
            if ( !r )
            {
               if ( odd && !r.foreign )
               {
                  return;
               }
               if ( !fired && !( f.spoiled && t->kind == KBlob && !r.foreign ) )
               {
                  fail( "making an element failed: " + resStr( r ) );
               }
               f.spoiled = f.spoiled || t->kind == KBlob;
               return;
            }
            handles.push_back( t );
         }
         // The outcome of a call that adds n to cont (null: to be refused).
         void settle( const char *what, const Res &r, T *from, T *cont, const std::string &name, const TP &n, bool fired )
         {
            ev( 0x7E, r.ok, fired );
            if ( r.foreign && !( r.badAlloc && fired ) )
            {
               fail( strf( "%s threw ", what ) + resStr( r ) );
            }
            if ( r && !cont )
            {
               fail( strf( "%s was accepted although it must be refused", what ) + " :: " + why( from, n.get() ) );
            }
            if ( !r && cont && !fired )
            {
               fail( strf( "%s was refused: ", what ) + resStr( r ) );
            }
            bool done = r.ok;
            if ( !r && cont && fired )
            {
               // reported out of memory: either nothing or everything has happened
               bool root = true;
               must( "isRoot after an allocation failure", lib( [&] { root = n->h->isRoot(); } ) );
               done = !root;
               PROBE( "tree operation failed for lack of memory" );
            }
            if ( done )
            {
               n->parent = cont;
               n->name = name;
               n->nameKnown = true;
               cont->kids.push_back( n );
               PROBE( "element added" );
            }
            else if ( !cont )
            {
               PROBE( "element refused" );
            }
            if ( memFaults || c.chance( 1, 4 ) )
            {
               checkOne( n.get() );
               if ( cont )
               {
                  checkOne( cont );
               }
               checkOne( from );
            }
         }
         std::string why( T *from, T *n )
         {
            return "container " + pathOf( from ) + ( attached( from ) ? "" : " (detached)" ) + ", element " + pathOf( n );
         }
         TP pickHandle( bool container )
         {
            std::vector<TP> v;
            for ( auto &t : handles )
            {
               if ( files[t->file]->open && ( !container || t->isContainer() ) )
               {
                  v.push_back( t );
               }
            }
            // new ones first
            return v.empty() ? nullptr : v[v.size() - 1 - c.skewed( uint32_t( v.size() - 1 ) )];
         }
         TP pickContainer()
         {
            if ( c.chance( 1, 3 ) )
            {
               TFile &f = *files[c.draw( files.size() )];
               if ( f.open )
               {
                  return f.root;
               }
            }
            return pickHandle( true );
         }
         void set()
         {
            TP from = pickContainer(), n = c.chance( 1, 30 ) ? files[c.draw( files.size() )]->root : pickHandle( false );
            if ( !from || !n || !files[n->file]->open || from->kind != KStruct )
            {
               return;
            }
            std::string path = drawPath( from.get(), true ), name;
            T *cont = target( from.get(), path, n.get(), name );
            bool mem = arm();
            Res r = lib( [&] { StructureNode( *from->h ).set( path, *n->h ); } );
            bool fired = disarm();
            trace( "set '%s' below %s%s -> %s", path.c_str(), pathOf( from.get() ).c_str(), mem ? " (memory fault)" : "", resStr( r ).c_str() );
            settle( "setting an element", r, from.get(), cont, name, n, fired );
         }
         void append()
         {
            TP from = pickContainer(), n = pickHandle( false );
            if ( !from || !n || from->kind != KVec )
            {
               return;
            }
            T *cont = canTake( from.get(), n.get() ) ? from.get() : nullptr;
            std::string name = std::to_string( from->kids.size() );
            bool mem = arm();
            Res r = lib( [&] { VectorNode( *from->h ).append( *n->h ); } );
            bool fired = disarm();
            trace( "append to %s%s -> %s", pathOf( from.get() ).c_str(), mem ? " (memory fault)" : "", resStr( r ).c_str() );
            settle( "appending an element", r, from.get(), cont, name, n, fired );
         }
         void discard( const TP &t )
         {
            must( "dropping a handle", lib( [&] { t->h.reset(); } ) );
            orphan( t.get() );
         }
         // A copy of an element and everything below it, with one difference when odd reaches 0 on the way.
         TP copyOf( const T &o, int file, int &odd )
         {
            TP t( new T );
            t->file = file;
            t->kind = o.kind;
            t->hetero = o.hetero;
            t->imin = o.imin;
            t->imax = o.imax;
            t->iv = o.iv;
            t->scale = o.scale;
            t->offset = o.offset;
            t->single = o.single;
            t->fmin = o.fmin;
            t->fmax = o.fmax;
            t->fv = o.fv;
            t->sv = o.sv;
            t->size = o.size;
            t->protoKind = o.protoKind;
            std::string rename;
            size_t skip = o.kids.size();
            if ( odd-- == 0 )
            {
               switch ( o.kind )
               {
                  case KInt:
                     c.chance( 1, 2 ) ? t->imin-- : t->imax++;
                     break;
                  case KScaled:
                     switch ( c.draw( 4 ) )
                     {
                        case 0:
                           t->imin--;
                           break;
                        case 1:
                           t->imax++;
                           break;
                        case 2:
                           t->scale *= 2;
                           break;
                        default:
                           t->offset += 1;
                     }
                     break;
                  case KFloat:
                     switch ( c.draw( 3 ) )
                     {
                        case 0:
                           t->fmin -= 1;
                           break;
                        case 1:
                           t->fmax += 1;
                           break;
                        default:
                           t->single = !t->single;
                     }
                     break;
                  case KBlob:
                     t->size++;
                     break;
                  case KCV:
                     t->protoKind++;
                     break;
                  case KString:
                     t->kind = KInt;
                     t->imax = 10;
                     break;
                  case KVec:
                     if ( o.kids.empty() || c.chance( 1, 3 ) )
                     {
                        t->hetero = !t->hetero;
                     }
                     else
                     {
                        skip = o.kids.size() - 1;
                     }
                     break;
                  case KStruct:
                     if ( o.kids.empty() )
                     {
                        t->kind = KVec;
                     }
                     else
                     {
                        skip = c.draw( o.kids.size() );
                        rename = c.chance( 1, 2 ) ? "other" : "";
                     }
                     break;
               }
               PROBE( "copy of an element with one difference" );
            }
            Res r = lib( [&] { construct( *t, *files[file]->imf, false ); } );
            if ( !r )
            {
               if ( t->kind == KBlob && files[file]->spoiled && !r.foreign )
               {
                  return nullptr;
               }
               fail( "making an element again failed: " + resStr( r ) );
            }
            for ( size_t i = 0; i < o.kids.size(); i++ )
            {
               std::string name = o.kids[i]->name;
               if ( i == skip )
               {
                  if ( rename.empty() )
                  {
                     continue;
                  }
                  name = rename;
               }
               TP k = copyOf( *o.kids[i], file, odd );
               if ( !k )
               {
                  discard( t );
                  return nullptr;
               }
               if ( t->kind == KVec )
               {
                  name = std::to_string( t->kids.size() );
               }
               if ( child( t.get(), name ) || !canTake( t.get(), k.get() ) )
               {
                  discard( k );
                  continue;
               }
               must( "adding an element to a copy", lib( [&] { t->kind == KVec ? VectorNode( *t->h ).append( *k->h ) : StructureNode( *t->h ).set( name, *k->h ); } ) );
               k->parent = t.get();
               k->name = name;
               k->nameKnown = true;
               t->kids.push_back( k );
               if ( c.chance( 1, 3 ) )
               {
                  handles.push_back( k );
               }
               else
               {
                  lib( [&] { k->h.reset(); } );
               }
            }
            return t;
         }
         static unsigned sizeOf( const T &t )
         {
            unsigned n = 1;
            for ( auto &k : t.kids )
            {
               n += sizeOf( *k );
            }
            return n;
         }
         // Something like what is there already, offered to a vector whose elements must be alike.
         void twin()
         {
            TP o = pickHandle( c.chance( 4, 5 ) ), v = pickHandle( true );
            if ( !o || o->fileRoot || sizeOf( *o ) > 60 )
            {
               return;
            }
            if ( !v || v->kind != KVec || v->hetero || v->file != o->file || c.chance( 1, 2 ) )
            {
               // a vector around the first one, or around a copy
               v.reset( new T );
               v->file = o->file;
               v->kind = KVec;
               v->hetero = false;
               must( "making a vector", lib( [&] { construct( *v, *files[o->file]->imf, false ); } ) );
               handles.push_back( v );
               int none = -1;
               TP first = o->parent ? copyOf( *o, o->file, none ) : o;
               if ( !first || !canTake( v.get(), first.get() ) )
               {
                  return;
               }
               if ( first != o )
               {
                  handles.push_back( first );
               }
               Res r = lib( [&] { VectorNode( *v->h ).append( *first->h ); } );
               settle( "appending an element", r, v.get(), v.get(), "0", first, false );
            }
            else if ( !v->kids.empty() && sizeOf( *v->kids[0] ) <= 60 )
            {
               o = v->kids[0];
            }
            for ( unsigned i = 0, n = 1 + c.draw( 3 ); i < n; i++ )
            {
               int odd = c.chance( 1, 2 ) ? -1 : int( c.draw( sizeOf( *o ) ) );
               TP t = copyOf( *o, v->file, odd );
               if ( !t )
               {
                  return;
               }
               handles.push_back( t );
               T *cont = canTake( v.get(), t.get() ) ? v.get() : nullptr;
               Res r = lib( [&] { VectorNode( *v->h ).append( *t->h ); } );
               trace( "append a copy of %s to %s -> %s", pathOf( o.get() ).c_str(), pathOf( v.get() ).c_str(), resStr( r ).c_str() );
               settle( "appending a copy", r, v.get(), cont, std::to_string( v->kids.size() ), t, false );
            }
         }
         void orphan( T *n )
         {
            // n is gone: its children are on their own
            for ( auto &k : n->kids )
            {
               k->parent = nullptr;
               k->nameKnown = false;
               if ( !k->h )
               {
                  orphan( k.get() );
               }
            }
            n->kids.clear();
         }
         void drop()
         {
            if ( handles.empty() )
            {
               return;
            }
            size_t i = c.draw( handles.size() );
            TP t = handles[i];
            handles.erase( handles.begin() + long( i ) );
            must( "dropping a handle", lib( [&] { t->h.reset(); } ) );
            trace( "drop handle of %s%s", pathOf( t.get() ).c_str(), attached( t.get() ) ? "" : " (detached)" );
            if ( !t->parent && !t->fileRoot )
            {
               orphan( t.get() );
               PROBE( "detached element gone" );
            }
         }
         // A second handle obtained through a query.
         void regain()
         {
            TP from = pickContainer();
            if ( !from || from->kids.empty() )
            {
               return;
            }
            TP k = from->kids[c.draw( from->kids.size() )];
            if ( k->h )
            {
               return;
            }
            std::unique_ptr<Node> h;
            size_t i = 0;
            while ( from->kids[i] != k )
            {
               i++;
            }
            must( "getting an element", lib( [&] {
                     if ( from->kind == KStruct )
                     {
                        h.reset( new Node( StructureNode( *from->h ).get( int64_t( i ) ) ) );
                     }
                     else
                     {
                        h.reset( new Node( VectorNode( *from->h ).get( int64_t( i ) ) ) );
                     }
                  } ) );
            k->h = std::move( h );
            handles.push_back( k );
            checkOne( k.get() );
         }
         void ext()
         {
            TFile &f = *files[c.draw( files.size() )];
            if ( !f.open )
            {
               return;
            }
            Ext e;
            e.prefix = f.exts.empty() || c.chance( 2, 3 ) ? strf( "e%u", extNo++ ) : f.exts[c.draw( f.exts.size() )].prefix;
            e.uri = f.exts.empty() || c.chance( 2, 3 ) ? strf( "http://x/%u", extNo++ ) : f.exts[c.draw( f.exts.size() )].uri;
            bool odd = false;
            if ( c.chance( 1, 6 ) )
            {
               e.uri += anyText( c, odd );
            }
            bool known = false;
            for ( auto &o : f.exts )
            {
               known = known || o.prefix == e.prefix || o.uri == e.uri;
            }
            arm();
            Res r = lib( [&] { f.imf->extensionsAdd( e.prefix, e.uri ); } );
            bool fired = disarm();
            trace( "extension %s=%s -> %s", e.prefix.c_str(), e.uri.c_str(), resStr( r ).c_str() );
            if ( r.foreign && !( r.badAlloc && fired ) )
            {
               fail( "registering an extension threw " + resStr( r ) );
            }
            if ( r && known )
            {
               fail( "an extension prefix or URI was registered twice" );
            }
            if ( !r && !known && !fired && !odd )
            {
               fail( "registering an extension was refused: " + resStr( r ) );
            }
            size_t n = 0;
            must( "extensionsCount", lib( [&] { n = f.imf->extensionsCount(); } ) );
            if ( n == f.exts.size() + 1 && !known && ( r || fired ) )
            {
               f.exts.push_back( e );
            }
            checkExts( *f.imf, f );
         }
         // base: a stored file also declares the default namespace
         void checkExts( ImageFile &imf, TFile &f, bool base = false )
         {
            size_t n = 0;
            must( "extensionsCount", lib( [&] { n = imf.extensionsCount(); } ) );
            std::vector<size_t> at;
            for ( size_t i = 0; i < n; i++ )
            {
               std::string p;
               must( "extensionsPrefix", lib( [&] { p = imf.extensionsPrefix( i ); } ) );
               if ( !base || !p.empty() )
               {
                  at.push_back( i );
               }
            }
            n = at.size();
            if ( n != f.exts.size() )
            {
               fail( "the number of registered extensions is wrong" );
            }
            for ( size_t i = 0; i < n; i++ )
            {
               std::string p, u, p2, u2;
               bool a = false, b = false, d = false;
               must( "querying an extension", lib( [&] {
                        p = imf.extensionsPrefix( at[i] );
                        u = imf.extensionsUri( at[i] );
                        a = imf.extensionsLookupPrefix( f.exts[i].prefix, u2 );
                        b = imf.extensionsLookupUri( f.exts[i].uri, p2 );
                        d = imf.extensionsLookupPrefix( f.exts[i].prefix );
                     } ) );
               if ( p != f.exts[i].prefix || u != f.exts[i].uri || !a || !b || !d || p2 != p || u2 != u )
               {
                  fail( "a registered extension is reported wrongly" );
               }
            }
            bool a = true, b = true, d = true;
            std::string s = "kept";
            must( "looking up an extension", lib( [&] {
                     a = imf.extensionsLookupPrefix( "none", s );
                     b = imf.extensionsLookupUri( "http://none", s );
                     d = imf.extensionsLookupPrefix( "none" );
                  } ) );
            if ( a || b || d )
            {
               fail( "an extension that was never registered is reported" );
            }
         }
         void query()
         {
            TP from = pickContainer();
            if ( !from )
            {
               return;
            }
            queryPath( *from->h, from.get(), drawPath( from.get(), false ) );
         }
         void queryPath( const Node &h, T *from, const std::string &path )
         {
            TFile &f = *files[from->file];
            bool def = false, ok = legal( f, path );
            Res r = lib( [&] { def = from->kind == KStruct ? StructureNode( h ).isDefined( path ) : VectorNode( h ).isDefined( path ); } );
            trace( "isDefined '%s' at %s -> %s %d", path.c_str(), pathOf( from ).c_str(), resStr( r ).c_str(), def );
            if ( r.foreign )
            {
               fail( "isDefined threw " + resStr( r ) );
            }
            if ( ok )
            {
               must( "isDefined", r );
            }
            T *m = ok ? lookup( from, path ) : nullptr;
            if ( def != ( m != nullptr ) )
            {
               fail( m ? "isDefined does not find an existing element" : "isDefined finds an element that does not exist" + ( " :: " + path ) );
            }
            std::unique_ptr<Node> got;
            r = lib( [&] { got.reset( new Node( from->kind == KStruct ? StructureNode( h ).get( path ) : VectorNode( h ).get( path ) ) ); } );
            if ( !m )
            {
               if ( r || r.foreign )
               {
                  fail( "getting an element that does not exist was not refused" );
               }
               return;
            }
            must( "getting an element by its path", r );
            PROBE( "element found by path" );
            std::string pn;
            bool same = true;
            must( "pathName", lib( [&] {
                     pn = got->pathName();
                     if ( m->h )
                     {
                        same = *got == *m->h;
                     }
                     got.reset();
                  } ) );
            if ( pn != pathOf( m ) || !same )
            {
               fail( "getting an element by its path gave another element" );
            }
         }

         // ---- everything observable of one element
         void checkOne( T *n )
         {
            if ( n->h )
            {
               checkNode( *n->h, n, *files[n->file]->imf );
            }
         }
         void checkNode( const Node &h, T *n, ImageFile &imf )
         {
            bool root = false, att = false, own = false, parentOk = false, fileRoot = false;
            std::string pn, en;
            int ty = -1;
            Res r = lib( [&] {
               ty = h.type();
               root = h.isRoot();
               att = h.isAttached();
               pn = h.pathName();
               en = h.elementName();
               own = h.destImageFile() == imf;
               Node p = h.parent();
               parentOk = !n->parent ? p == h : p != h && ( !n->parent->h || p == *n->parent->h ) && p.pathName() == pathOf( n->parent );
               fileRoot = h == Node( imf.root() );
            } );
            must( "querying an element", r );
            static const int types[] = { TypeStructure, TypeVector, TypeInteger, TypeScaledInteger, TypeFloat, TypeString, TypeBlob, TypeCompressedVector };
            std::string at = " :: " + pathOf( n );
            if ( ty != types[n->kind] )
            {
               fail( "an element reports another type" + at );
            }
            if ( root != !n->parent )
            {
               fail( "isRoot is wrong" + at );
            }
            if ( att != attached( n ) )
            {
               fail( att ? "a detached element reports that it is attached" : "an attached element reports that it is not" + at );
            }
            if ( pn != pathOf( n ) )
            {
               fail( "an element reports another path than it has" + at + " reported " + pn );
            }
            if ( n->nameKnown && en != n->name )
            {
               fail( "an element reports another name than it has" + at + " reported " + en );
            }
            if ( !own )
            {
               fail( "an element reports another file than its own" + at );
            }
            if ( !parentOk )
            {
               fail( "an element reports another parent than it has" + at );
            }
            if ( fileRoot != n->fileRoot )
            {
               fail( "another element than the root equals the root" + at );
            }
            checkValue( h, n, at );
         }
         void checkValue( const Node &h, T *n, const std::string &at )
         {
            bool ok = true;
            Res r = lib( [&] {
               switch ( n->kind )
               {
                  case KInt:
                  {
                     IntegerNode x( h );
                     ok = x.value() == n->iv && x.minimum() == n->imin && x.maximum() == n->imax;
                     break;
                  }
                  case KScaled:
                  {
                     ScaledIntegerNode x( h );
                     ok = x.rawValue() == n->iv && x.minimum() == n->imin && x.maximum() == n->imax && x.scale() == n->scale && x.offset() == n->offset &&
                          x.scaledValue() == double( n->iv ) * n->scale + n->offset && x.scaledMinimum() == double( n->imin ) * n->scale + n->offset &&
                          x.scaledMaximum() == double( n->imax ) * n->scale + n->offset;
                     break;
                  }
                  case KFloat:
                  {
                     FloatNode x( h );
                     ok = x.value() == n->fv && x.minimum() == n->fmin && x.maximum() == n->fmax &&
                          x.precision() == ( n->single ? PrecisionSingle : PrecisionDouble );
                     break;
                  }
                  case KString:
                     ok = StringNode( h ).value() == n->sv;
                     break;
                  case KBlob:
                     ok = BlobNode( h ).byteCount() == int64_t( n->size );
                     break;
                  case KCV:
                  {
                     CompressedVectorNode x( h );
                     ok = x.childCount() == 0 && x.prototype().isAttached() == attached( n ) && x.codecs().isAttached() == attached( n ) &&
                          IntegerNode( StructureNode( x.prototype() ).get( "x" ) ).maximum() == 5 + int64_t( n->protoKind );
                     break;
                  }
                  case KVec:
                     ok = VectorNode( h ).allowHeteroChildren() == n->hetero && VectorNode( h ).childCount() == int64_t( n->kids.size() );
                     break;
                  case KStruct:
                     ok = StructureNode( h ).childCount() == int64_t( n->kids.size() );
               }
            } );
            must( "querying the value of an element", r );
            if ( !ok )
            {
               fail( strf( "an element of kind %c reports another value or number of children", char( 'a' + n->kind ) ) + at );
            }
            if ( !n->isContainer() )
            {
               return;
            }
            for ( size_t i = 0; i < n->kids.size(); i++ )
            {
               T *k = n->kids[i].get();
               r = lib( [&] {
                  Node g = n->kind == KStruct ? StructureNode( h ).get( int64_t( i ) ) : VectorNode( h ).get( int64_t( i ) );
                  ok = ok && g.elementName() == k->name && ( !k->h || g == *k->h ) && g.isAttached() == attached( k );
                  Node g2 = n->kind == KStruct ? StructureNode( h ).get( k->name ) : VectorNode( h ).get( k->name );
                  ok = ok && g == g2;
               } );
               must( "getting a child", r );
               if ( !ok )
               {
                  fail( "a child differs from the one that was added" + at );
               }
            }
            for ( int64_t i : { int64_t( -1 ), int64_t( n->kids.size() ), INT64_MAX, INT64_MIN, int64_t( 1 ) << 32 } )
            {
               r = lib( [&] { n->kind == KStruct ? StructureNode( h ).get( i ) : VectorNode( h ).get( i ); } );
               if ( r || r.foreign )
               {
                  fail( "getting a child outside the range was not refused" + at );
               }
            }
         }
         void checkAll()
         {
            for ( auto &t : handles )
            {
               if ( files[t->file]->open )
               {
                  checkOne( t.get() );
               }
            }
            for ( auto &f : files )
            {
               if ( f->open )
               {
                  checkOne( f->root.get() );
                  must( "checkInvariant of the file", lib( [&] { f->imf->checkInvariant( true ); } ) );
                  must( "checkInvariant of the tree", lib( [&] { f->root->h->checkInvariant( true, true ); } ) );
               }
            }
            for ( auto &t : handles )
            {
               if ( files[t->file]->open && t->h && c.chance( 1, 4 ) )
               {
                  must( "checkInvariant of an element", lib( [&] { t->h->checkInvariant( true, true ); } ) );
               }
            }
         }
         void walk( const Node &h, T *n, ImageFile &imf )
         {
            checkNode( h, n, imf );
            if ( !n->isContainer() )
            {
               return;
            }
            for ( size_t i = 0; i < n->kids.size(); i++ )
            {
               std::unique_ptr<Node> k;
               must( "getting a child", lib( [&] {
                        k.reset( new Node( n->kind == KStruct ? StructureNode( h ).get( int64_t( i ) ) : VectorNode( h ).get( int64_t( i ) ) ) );
                     } ) );
               walk( *k, n->kids[i].get(), imf );
               lib( [&] { k.reset(); } );
            }
         }
         // Closes the file and looks at it again through a reading handle.
         void finish( size_t fi )
         {
            TFile &f = *files[fi];
            if ( !f.open )
            {
               return;
            }
            bool keep = c.chance( 1, 2 );
            Res r = lib( [&] { f.imf->close(); } );
            trace( "close file %zu -> %s", fi, resStr( r ).c_str() );
            f.open = false;
            if ( !r && !f.spoiled )
            {
               fail( "closing the file failed: " + resStr( r ) );
            }
            // elements of a closed file answer nothing
            for ( auto &t : handles )
            {
               if ( r && t->file == int( fi ) && c.chance( 1, 3 ) )
               {
                  Res x = lib( [&] { t->h->pathName(); } );
                  if ( x || x.err != ErrorImageFileNotOpen )
                  {
                     fail( "an element of a closed file did not refuse a query as documented" );
                  }
               }
            }
            std::vector<TP> mine;
            for ( auto &t : handles )
            {
               if ( t->file == int( fi ) )
               {
                  mine.push_back( t );
               }
            }
            for ( auto &t : mine )
            {
               lib( [&] { t->h.reset(); } );
            }
            lib( [&] { f.root->h.reset(); } );
            std::vector<TP> rest;
            for ( auto &t : handles )
            {
               if ( t->file != int( fi ) )
               {
                  rest.push_back( t );
               }
            }
            handles = rest;
            if ( !keep )
            {
               lib( [&] { f.imf.reset(); } );
            }
            if ( f.spoiled || !r )
            {
               return;
            }
            std::unique_ptr<ImageFile> in;
            must( "opening the file again", lib( [&] { in.reset( new ImageFile( f.path, "r" ) ); } ) );
            std::unique_ptr<Node> root;
            must( "root", lib( [&] { root.reset( new Node( in->root() ) ); } ) );
            walk( *root, f.root.get(), *in );
            checkExts( *in, f, true );
            for ( unsigned i = 0; i < 4; i++ )
            {
               queryPath( *root, f.root.get(), drawPath( f.root.get(), false ) );
            }
            must( "checkInvariant of a file opened for reading", lib( [&] { in->checkInvariant( true ); } ) );
            must( "checkInvariant of a tree opened for reading", lib( [&] { root->checkInvariant( true, true ); } ) );
            PROBE( "tree compared after reopening" );
            lib( [&] {
               root.reset();
               in.reset();
            } );
         }
      };

      void runTree( Choices &c, unsigned profile )
      {
         Forest w( c, profile );
         unsigned nf = 1 + c.skewed( 2 );
         for ( unsigned i = 0; i < nf; i++ )
         {
            std::unique_ptr<TFile> f( new TFile );
            f->path = strf( "/sim/t%u.e57", i );
            w.must( "opening a file", lib( [&] { f->imf.reset( new ImageFile( f->path, "w" ) ); } ) );
            f->root.reset( new T );
            f->root->file = int( i );
            f->root->fileRoot = true;
            w.must( "root", lib( [&] { f->root->h.reset( new Node( f->imf->root() ) ); } ) );
            w.files.push_back( std::move( f ) );
            g_sh->sessions++;
         }
         unsigned steps = 10 + c.draw( profile < 4 ? 50 : 150 );
         for ( unsigned i = 0; i < steps; i++ )
         {
            switch ( c.weighted( { 8, 8, 6, 2, 2, 1, 3, 1, 1 } ) )
            {
               case 0:
                  w.create();
                  break;
               case 1:
                  w.set();
                  break;
               case 2:
                  w.append();
                  break;
               case 3:
                  w.drop();
                  break;
               case 4:
                  w.regain();
                  break;
               case 5:
                  w.ext();
                  break;
               case 6:
                  w.query();
                  break;
               case 8:
                  w.twin();
                  break;
               default:
                  w.checkAll();
            }
         }
         nontrivial();
         w.checkAll();
         for ( size_t i = 0; i < w.files.size(); i++ )
         {
            w.finish( i );
            w.checkAll();
         }
      }
   }
   static FamilyReg rTree( { "tree", runTree, 6 } );
}
