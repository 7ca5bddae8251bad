// C26: queries, dumps and invariant checks made anywhere in a session change nothing.
#include "alloc.h"
#include "fam.h"
#include <sstream>

namespace sim
{
   using namespace e57;

   namespace
   {
      class Observer
      {
      public:
         Observer( Choices &c, bool memFaults ) : c_( c ), mem_( memFaults )
         {
         }
         uint64_t made = 0;

         // f looks at something and returns what it saw; it must succeed, touch no disk and see the same when repeated.
         template <class F> void look( const char *what, F f )
         {
            made++;
            const uint64_t ops = g_disk->ops;
            std::string a, b;
            g_alloc.fired = 0;
            bool armed = mem_ && c_.chance( 1, 4 );
            if ( armed )
            {
               g_alloc.failAt = c_.skewed( 40 );
               g_alloc.count = 0;
               g_alloc.armed = true;
            }
            Res r = lib( [&] { a = f(); } );
            g_alloc.armed = false;
            g_alloc.failAt = ~0ULL;
            bool fired = g_alloc.fired > 0;
            if ( fired )
            {
               PROBE( "allocation failed while looking" );
            }
            if ( !r && !fired )
            {
               fail( std::string( what ) + " failed :: " + resStr( r ) );
            }
            if ( !r && r.foreign && !r.badAlloc )
            {
               fail( std::string( what ) + " threw " + resStr( r ) );
            }
            Res q = lib( [&] { b = f(); } );
            if ( !q )
            {
               fail( std::string( what ) + " failed when repeated :: " + resStr( q ) );
            }
            if ( r.ok && !fired && a != b )
            {
               fail( std::string( what ) + " differs when repeated" );
            }
            if ( g_disk->ops != ops )
            {
               fail( std::string( what ) + " touched the disk" );
            }
         }
         void node( Node n )
         {
            switch ( c_.draw( 6 ) )
            {
               case 0:
                  look( "dump of an element", [&] {
                     std::ostringstream o;
                     n.dump( int( made % 5 ), o );
                     return o.str();
                  } );
                  PROBE( "element dumped" );
                  break;
               case 1:
                  look( "checkInvariant of an element", [&] {
                     n.checkInvariant( true, true );
                     return std::string();
                  } );
                  break;
               case 2:
                  look( "the place of an element", [&] {
                     return strf( "%d %d %d ", n.isRoot(), n.isAttached(), int( n.type() ) ) + n.pathName() + "|" + n.elementName() + "|" + n.parent().pathName() +
                            "|" + n.destImageFile().fileName();
                  } );
                  break;
               case 3:
                  look( "the value of an element", [&] { return value( n ); } );
                  break;
               case 4:
                  look( "copies of an element handle", [&] {
                     std::vector<Node> v( 3, n );
                     v[0] = v[1];
                     return strf( "%d %d", v[0] == n, n.parent() == v[2].parent() );
                  } );
                  break;
               default:
                  look( "casts of an element handle", [&] { return casts( n ); } );
            }
         }
         static std::string value( const Node &n )
         {
            switch ( n.type() )
            {
               case TypeStructure:
               case TypeVector:
               {
                  std::string s;
                  int64_t k;
                  if ( n.type() == TypeStructure )
                  {
                     StructureNode x( n );
                     k = x.childCount();
                     for ( int64_t i = 0; i < k; i++ )
                     {
                        ustring e = x.get( i ).elementName();
                        s += e + strf( " %d %d;", x.isDefined( e ), x.get( e ) == x.get( i ) );
                     }
                     s += strf( "%d %d", x.isDefined( "nothing" ), x.isDefined( "nothing/at/all" ) );
                  }
                  else
                  {
                     VectorNode x( n );
                     k = x.childCount();
                     for ( int64_t i = 0; i < k; i++ )
                     {
                        s += x.get( i ).elementName() + ";";
                     }
                     s += strf( "%d %d", x.allowHeteroChildren(), x.isDefined( "0" ) );
                  }
                  return s + strf( " %lld", (long long)k );
               }
               case TypeCompressedVector:
               {
                  CompressedVectorNode x( n );
                  return strf( "%lld ", (long long)x.childCount() ) + value( x.prototype() ) + "|" + value( x.codecs() );
               }
               case TypeInteger:
               {
                  IntegerNode x( n );
                  return strf( "%lld %lld %lld", (long long)x.value(), (long long)x.minimum(), (long long)x.maximum() );
               }
               case TypeScaledInteger:
               {
                  ScaledIntegerNode x( n );
                  return strf( "%lld %lld %lld %a %a %a %a %a", (long long)x.rawValue(), (long long)x.minimum(), (long long)x.maximum(), x.scale(), x.offset(),
                               x.scaledValue(), x.scaledMinimum(), x.scaledMaximum() );
               }
               case TypeFloat:
               {
                  FloatNode x( n );
                  return strf( "%a %a %a %d", x.value(), x.minimum(), x.maximum(), int( x.precision() ) );
               }
               case TypeString:
                  return StringNode( n ).value();
               default:
                  return strf( "%lld", (long long)BlobNode( n ).byteCount() );
            }
         }
         static std::string casts( const Node &n )
         {
            std::string s;
            auto is = [&]( NodeType t, auto f ) {
               bool ok = true;
               try
               {
                  f();
               }
               catch ( E57Exception &e )
               {
                  ok = false;
                  s += strf( "%d ", int( e.errorCode() ) );
               }
               if ( ok != ( n.type() == t ) )
               {
                  fail( "an element was cast to another type" );
               }
            };
            is( TypeStructure, [&] { StructureNode x( n ); } );
            is( TypeVector, [&] { VectorNode x( n ); } );
            is( TypeCompressedVector, [&] { CompressedVectorNode x( n ); } );
            is( TypeInteger, [&] { IntegerNode x( n ); } );
            is( TypeScaledInteger, [&] { ScaledIntegerNode x( n ); } );
            is( TypeFloat, [&] { FloatNode x( n ); } );
            is( TypeString, [&] { StringNode x( n ); } );
            is( TypeBlob, [&] { BlobNode x( n ); } );
            return s;
         }
         void file( ImageFile &f )
         {
            switch ( c_.draw( 6 ) )
            {
               case 0:
                  look( "dump of a file", [&] {
                     std::ostringstream o;
                     f.dump( int( made % 3 ), o );
                     return o.str();
                  } );
                  PROBE( "file dumped" );
                  break;
               case 1:
                  look( "checkInvariant of a file", [&] {
                     f.checkInvariant( true );
                     return std::string();
                  } );
                  break;
               case 2:
                  look( "the state of a file", [&] {
                     return strf( "%d %d %d %d ", f.isOpen(), f.isWritable(), f.writerCount(), f.readerCount() ) + f.fileName();
                  } );
                  break;
               case 3:
                  look( "the extensions of a file", [&] {
                     std::string s;
                     for ( size_t i = 0; i < f.extensionsCount(); i++ )
                     {
                        ustring p, u;
                        s += f.extensionsPrefix( i ) + "=" + f.extensionsUri( i ) + strf( " %d %d ", f.extensionsLookupPrefix( f.extensionsPrefix( i ), u ),
                                                                                            f.extensionsLookupUri( f.extensionsUri( i ), p ) ) +
                             p + u + ";";
                     }
                     ustring u;
                     return s + strf( "%d", f.extensionsLookupPrefix( "unknown", u ) );
                  } );
                  break;
               case 4:
                  look( "parsing an element name", [&] {
                     ustring p, l;
                     f.elementNameParse( "name", p, l );
                     return p + "|" + l + strf( "%d", f.isElementNameExtended( "name" ) );
                  } );
                  break;
               default:
                  look( "copies of a file handle", [&] {
                     ImageFile g( f ), h( g );
                     g = h;
                     return strf( "%d ", g == f ) + g.root().pathName();
                  } );
            }
         }
         template <class T> void io( T &w, const char *what )
         {
            std::string name = what;
            switch ( c_.draw( 3 ) )
            {
               case 0:
                  look( ( "dump of a " + name ).c_str(), [&] {
                     std::ostringstream o;
                     w.dump( int( made % 3 ), o );
                     return o.str();
                  } );
                  PROBE( "reader or writer dumped" );
                  break;
               case 1:
                  look( ( "checkInvariant of a " + name ).c_str(), [&] {
                     w.checkInvariant( true );
                     return std::string();
                  } );
                  break;
               default:
                  look( ( "the state of a " + name ).c_str(), [&] {
                     T k( w );
                     return strf( "%d ", k.isOpen() ) + w.compressedVectorNode().pathName() + strf( " %lld", (long long)w.compressedVectorNode().childCount() );
                  } );
            }
         }
         void buffer( ImageFile &f )
         {
            look( "a transfer buffer", [&] {
               std::vector<double> v( 5, 1 );
               std::vector<ustring> s( 3, "abc" );
               SourceDestBuffer a( f, "x", v.data(), v.size(), true, true, sizeof( double ) ), b( f, "y/z", &s );
               std::ostringstream o;
               a.checkInvariant();
               b.checkInvariant();
               a.dump( 2, o );
               b.dump( 0, o );
               const std::string d = o.str();
               if ( d.empty() )
               {
                  return d;
               }
               return a.pathName() + b.pathName() + strf( "%zu %zu %zu %d %d", a.capacity(), b.capacity(), a.stride(), a.doConversion(), int( b.memoryRepresentation() ) );
            } );
         }

      private:
         Choices &c_;
         bool mem_;
      };

      void nodesOf( DNode *n, std::vector<DNode *> &v )
      {
         v.push_back( n );
         for ( auto &x : n->ch )
         {
            nodesOf( x.get(), v );
         }
      }

      void writeObserved( Choices &c, Doc &d, const std::string &path, bool mem )
      {
         WriteSession s( d, path );
         Res r = s.open();
         if ( !r )
         {
            fail( "a second session could not be opened: " + resStr( r ) );
         }
         Observer o( c, mem );
         const unsigned rate = 1 + c.draw( 4 );
         std::vector<DNode *> all;
         nodesOf( d.root.get(), all );
         while ( true )
         {
            while ( c.chance( rate, rate + 1 ) && o.made < 150 )
            {
               switch ( c.weighted( { 6, 3, 4, 1 } ) )
               {
                  case 0:
                  {
                     DNode *n = all[c.draw( all.size() )];
                     if ( n == d.root.get() )
                     {
                        o.node( s.imf()->root() );
                     }
                     else if ( Node *h = s.handle( n ) )
                     {
                        o.node( *h );
                     }
                     break;
                  }
                  case 1:
                     o.file( *s.imf() );
                     break;
                  case 2:
                     if ( s.writer() )
                     {
                        o.io( *s.writer(), "writer" );
                     }
                     break;
                  default:
                     o.buffer( *s.imf() );
               }
            }
            if ( !s.more() )
            {
               break;
            }
            r = s.step();
            if ( !r )
            {
               fail( "a call that succeeds in the same session without looking failed: " + resStr( r ) + " :: " + s.where() );
            }
            if ( !s.readMismatch.empty() )
            {
               fail( "data read within the session differs after looking :: " + s.readMismatch );
            }
         }
         r = s.close();
         if ( !r )
         {
            fail( "close failed after looking: " + resStr( r ) );
         }
         s.destroy();
      }

      // The results of a fixed reading session; o: looked at in between.
      std::vector<std::string> readSession( Doc &d, const std::string &path, uint64_t seed, Choices *lookAt, bool mem )
      {
         std::vector<std::string> t;
         Choices plan = Choices::quiet( seed );
         std::unique_ptr<ImageFile> f;
         Res r = lib( [&] { f.reset( new ImageFile( path, "r", ReadChecksumPolicy( plan.chance( 1, 2 ) ? 100 : plan.draw( 101 ) ) ) ); } );
         t.push_back( "open " + resStr( r ) );
         g_sh->sessions++;
         if ( !r )
         {
            return t;
         }
         auto paths = docPaths( d );
         std::vector<DNode *> all;
         nodesOf( d.root.get(), all );
         std::unique_ptr<Observer> o( lookAt ? new Observer( *lookAt, mem ) : nullptr );
         auto gaze = [&]( CompressedVectorReader *rd ) {
            while ( o && lookAt->chance( 2, 3 ) && o->made < 120 )
            {
               switch ( lookAt->weighted( { 6, 3, 4, 1 } ) )
               {
                  case 0:
                  {
                     DNode *n = all[lookAt->draw( all.size() )];
                     std::unique_ptr<Node> h;
                     Res q = lib( [&] { h.reset( new Node( n == d.root.get() ? Node( f->root() ) : f->root().get( paths[n] ) ) ); } );
                     if ( !q )
                     {
                        fail( "finding an element failed: " + resStr( q ) );
                     }
                     o->node( *h );
                     break;
                  }
                  case 1:
                     o->file( *f );
                     break;
                  case 2:
                     if ( rd )
                     {
                        o->io( *rd, "reader" );
                     }
                     break;
                  default:
                     o->buffer( *f );
               }
            }
         };
         std::vector<DNode *> todo;
         for ( auto n : d.cvs )
         {
            todo.push_back( n );
         }
         for ( auto n : d.blobs )
         {
            todo.push_back( n );
         }
         unsigned calls = 0;
         for ( size_t k = todo.size(); k > 1; k-- )
         {
            std::swap( todo[k - 1], todo[plan.draw( k )] );
         }
         for ( auto n : todo )
         {
            gaze( nullptr );
            if ( n->kind == KBlob )
            {
               if ( n->blob.empty() )
               {
                  continue;
               }
               uint64_t st = plan.draw( n->blob.size() ), len = 1 + plan.draw( n->blob.size() - st );
               std::string bad;
               Res q = readBlobRange( *f, paths[n], *n, st, len, bad );
               t.push_back( "blob " + resStr( q ) + bad );
               continue;
            }
            StepReader rd( *f, *n, paths[n], &plan );
            Res q = rd.open();
            t.push_back( "reader " + resStr( q ) );
            while ( q && !rd.done() && calls++ < 200 )
            {
               gaze( rd.handle() );
               std::string bad;
               q = rd.step( bad );
               t.push_back( strf( "read at %llu ", (unsigned long long)rd.pos() ) + resStr( q ) + bad );
            }
            gaze( rd.handle() );
            if ( rd.handle() )
            {
               t.push_back( "close " + resStr( rd.close() ) );
            }
            rd.destroy();
         }
         gaze( nullptr );
         r = lib( [&] { f->close(); } );
         t.push_back( "close file " + resStr( r ) );
         r = lib( [&] { f.reset(); } );
         return t;
      }

      void runObserve( Choices &c, unsigned profile )
      {
         auto d = genDoc( c, c.chance( 1, 2 ) ? drawOpts( c, profile ) : smallOpts( c ) );
         const bool mem = profile % 3 == 1, disk = profile % 3 == 2;
         writeClean( *d, "/sim/a.e57" );
         const auto ref = g_disk->bytes( "/sim/a.e57" );
         if ( c.chance( 1, 2 ) )
         {
            writeObserved( c, *d, "/sim/b.e57", mem );
            g_sh->sessions++;
            if ( g_disk->bytes( "/sim/b.e57" ) != ref )
            {
               fail( "the file differs from that of the same session without looking" );
            }
            PROBE( "observed writing session equal" );
         }
         uint64_t seed = c.sub();
         std::vector<PlannedFault> plan;
         if ( disk )
         {
            g_disk->logOps = true;
            g_disk->log.clear();
            readSession( *d, "/sim/a.e57", seed, nullptr, false );
            plan = drawPlan( c, g_disk->log, PlanRead );
            g_disk->logOps = false;
            g_disk->log.clear();
            trace( "faults: %s", planStr( plan ).c_str() );
         }
         std::vector<std::string> t[2];
         for ( int k = 0; k < 2; k++ )
         {
            g_disk->clearPlan();
            g_disk->plan = plan;
            t[k] = readSession( *d, "/sim/a.e57", seed, k ? &c : nullptr, mem );
         }
         g_disk->clearPlan();
         for ( size_t i = 0; i < t[0].size() || i < t[1].size(); i++ )
         {
            std::string a = i < t[0].size() ? t[0][i] : "nothing", b = i < t[1].size() ? t[1][i] : "nothing";
            if ( a != b )
            {
               fail( "a reading session goes otherwise when it is looked at :: without: " + a + " with: " + b );
            }
         }
         PROBE( "observed reading session equal" );
         nontrivial();
      }
      FamilyReg reg( { "observe", runObserve, 6 } );
   }
}
