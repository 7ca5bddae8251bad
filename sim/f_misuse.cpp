// C15: a rejected call changes nothing; the session continues as if it had never been made.
#include "fam.h"
#include <cmath>

namespace sim
{
   using namespace e57;

   // Refused calls of every kind, made in the middle of a writing session.
   class Misuse
   {
   public:
      Misuse( WriteSession &s, Doc &d, Choices &c ) : s_( s ), d_( d ), c_( c )
      {
         other_.reset( new ImageFile( "/sim/other.e57", "w" ) );
      }
      ~Misuse()
      {
         lib( [&] { other_->cancel(); } );
      }
      unsigned made = 0;
      bool spoiled = false;

      // One refused call, if one is possible here.
      void one()
      {
         collect();
         switch ( c_.weighted( { 4, 4, 3, 3, 3, 3, 4, 3, 4, 3, 2, 3, 4, 5, 3 } ) )
         {
            case 0:
               badName();
               break;
            case 1:
               setTwice();
               break;
            case 2:
               owned();
               break;
            case 3:
               foreign();
               break;
            case 4:
               vectorRules();
               break;
            case 5:
               badValue();
               break;
            case 6:
               badGet();
               break;
            case 7:
               badCV();
               break;
            case 8:
               badWriter();
               break;
            case 9:
               badBlob();
               break;
            case 10:
               badExt();
               break;
            case 11:
               badBuffer();
               break;
            case 12:
               upcoming();
               break;
            case 13:
               badWrite();
               break;
            default:
               downcast();
         }
      }

      // A record vector of its own whose writing fails on a value.
      void spoil()
      {
         if ( spoiled || s_.writer_ )
         {
            return;
         }
         spoiled = true;
         ImageFile &f = *s_.imf_;
         std::vector<int64_t> a( 20 );
         std::vector<double> b( 20 );
         std::vector<std::string> t( 20 );
         std::vector<double> q( 20 );
         unsigned kind = c_.draw( 7 );
         unsigned good = c_.draw( 4 ), late = c_.draw( 3 );
         std::unique_ptr<CompressedVectorNode> cv;
         std::unique_ptr<CompressedVectorWriter> w;
         auto fill = [&] {
            for ( unsigned i = 0; i < 20; i++ )
            {
               a[i] = int64_t( c_.draw( 100 ) );
               b[i] = double( c_.draw( 100 ) ) / 4;
               t[i] = std::string( c_.draw( 30 ), 'x' );
               q[i] = double( c_.draw( 200 ) ) / 2 - 50;
            }
         };
         Res r = lib( [&] {
            StructureNode p( f );
            p.set( "a", IntegerNode( f, 0, 0, 100 ) );
            p.set( "b", FloatNode( f, 0, PrecisionSingle, 0, 100 ) );
            p.set( "t", StringNode( f ) );
            p.set( "q", ScaledIntegerNode( f, 0, -100, 100, 0.5, 0 ) );
            cv.reset( new CompressedVectorNode( f, p, VectorNode( f, true ) ) );
            f.root().set( "zzSpoiled", *cv );
            std::vector<SourceDestBuffer> sb;
            sb.emplace_back( f, "a", a.data(), 20, true );
            sb.emplace_back( f, "b", b.data(), 20, true );
            sb.emplace_back( f, "t", &t );
            sb.emplace_back( f, "q", q.data(), 20, true, true );
            w.reset( new CompressedVectorWriter( cv->writer( sb ) ) );
         } );
         if ( !r )
         {
            fail( "a record vector beside the document could not be made: " + resStr( r ) );
         }
         for ( unsigned i = 0; i < good; i++ )
         {
            fill();
            r = lib( [&] { w->write( 20 ); } );
            if ( !r )
            {
               fail( "a good record write failed: " + resStr( r ) );
            }
         }
         fill();
         unsigned at = c_.draw( 20 );
         std::vector<std::string> wrong( 20, "text" );
         Res x = lib( [&] {
            switch ( kind )
            {
               case 0:
                  a[at] = 101;
                  w->write( 20 );
                  break;
               case 1:
                  a[at] = -1;
                  w->write( 20 );
                  break;
               case 2:
                  b[at] = 1e300;
                  w->write( 20 );
                  break;
               case 3:
                  q[at] = 1000;
                  w->write( 20 );
                  break;
               case 4:
                  q[at] = -50.5;
                  w->write( 20 );
                  break;
               case 5: // text where a number is expected
               {
                  std::vector<SourceDestBuffer> sb;
                  sb.emplace_back( f, "a", &wrong );
                  sb.emplace_back( f, "b", b.data(), 20, true );
                  sb.emplace_back( f, "t", &t );
                  sb.emplace_back( f, "q", q.data(), 20, true, true );
                  w->write( sb, 20 );
                  break;
               }
               default: // fractional numbers for an integer field without conversion
               {
                  std::vector<SourceDestBuffer> sb;
                  sb.emplace_back( f, "a", b.data(), 20, false );
                  sb.emplace_back( f, "b", b.data(), 20, true );
                  sb.emplace_back( f, "t", &t );
                  sb.emplace_back( f, "q", q.data(), 20, true, true );
                  w->write( sb, 20 );
               }
            }
         } );
         trace( "failing record write, kind %u at %u -> %s", kind, at, resStr( x ).c_str() );
         if ( x.foreign )
         {
            fail( "a record write with a bad value threw " + resStr( x ) );
         }
         if ( x )
         {
            fail( strf( "a record write with a value its field cannot hold was accepted (kind %u)", kind ) );
         }
         PROBE( "record write failed on a value" );
         for ( unsigned i = 0; i < late; i++ )
         {
            fill();
            r = lib( [&] { w->write( 20 ); } );
            if ( r.foreign )
            {
               fail( "a record write after a failed one threw " + resStr( r ) );
            }
         }
         r = lib( [&] {
            if ( c_.chance( 2, 3 ) )
            {
               w->close();
            }
         } );
         if ( r.foreign )
         {
            fail( "closing a record writer after a failed write threw " + resStr( r ) );
         }
         lib( [&] {
            w.reset();
            cv.reset();
         } );
      }

      // Misuse of a reading handle and a record reader.
      static void reading( ImageFile &f, Doc &d, Choices &c )
      {
         auto paths = docPaths( d );
         for ( DNode *n : d.cvs )
         {
            StepReader sr( f, *n, paths[n], &c );
            Res r = sr.open();
            if ( !r )
            {
               if ( n->nrec == 0 )
               {
                  continue;
               }
               fail( "a record reader could not be made: " + resStr( r ) );
            }
            unsigned guard = 0;
            while ( !sr.done() )
            {
               if ( c.chance( 1, 3 ) && sr.handle() )
               {
                  unsigned k = c.draw( 4 );
                  int64_t v[4] = {};
                  std::vector<std::string> st( 4 );
                  Res x = lib( [&] {
                     std::vector<SourceDestBuffer> sb;
                     switch ( k )
                     {
                        case 0: // no buffers
                           break;
                        case 1: // unknown field
                           sb.emplace_back( f, "noSuchField", v, 4, true );
                           break;
                        case 2: // different sizes
                           sb.emplace_back( f, "noSuchField", v, 4, true );
                           sb.emplace_back( f, "another", v, 3, true );
                           break;
                        default:
                           f.root().get( paths[n] + "/noSuchThing" );
                     }
                     sr.handle()->read( sb );
                  } );
                  refused( "reading into unusable buffers", x );
               }
               std::string bad;
               r = sr.step( bad );
               if ( !r )
               {
                  fail( "reading records after a refused read failed: " + resStr( r ) );
               }
               if ( !bad.empty() )
               {
                  fail( "records differ after a refused read :: " + bad );
               }
               if ( ++guard > 100000 )
               {
                  fail( "reading does not end" );
               }
            }
         }
         for ( DNode *n : d.blobs )
         {
            uint8_t b[8];
            refused( "reading outside a blob", lib( [&] {
                        BlobNode bn( f.root().get( paths[n] ) );
                        bn.read( b, int64_t( n->blob.size() ) - int64_t( c.draw( 3 ) ), 8 );
                     } ) );
            refused( "writing a blob of a file opened for reading", lib( [&] {
                        BlobNode bn( f.root().get( paths[n] ) );
                        bn.write( b, 0, std::min<size_t>( 8, n->blob.size() + 1 ) );
                     } ) );
         }
      }

      static void refused( const std::string &what, const Res &r )
      {
         trace( "refused? %s -> %s", what.c_str(), resStr( r ).c_str() );
         if ( r.foreign )
         {
            fail( what + " threw " + resStr( r ) );
         }
         if ( r )
         {
            fail( what + " was not refused" );
         }
         PROBE( "call refused" );
         nontrivial();
      }

   private:
      WriteSession &s_;
      Doc &d_;
      Choices &c_;
      std::unique_ptr<ImageFile> other_;
      std::vector<DNode *> created_;
      std::map<DNode *, DNode *> parent_; // attach steps done
      std::map<const DNode *, std::string> paths_;
      bool has( DNode *n )
      {
         return s_.h_.count( n ) && s_.h_[n];
      }

      void collect()
      {
         created_.clear();
         parent_.clear();
         for ( size_t i = 0; i < s_.pos_; i++ )
         {
            const Step &st = d_.steps[i];
            if ( st.op == SCreate && has( st.n ) )
            {
               created_.push_back( st.n );
            }
            if ( st.op == SAttach )
            {
               parent_[st.n] = st.parent;
            }
         }
         paths_ = docPaths( d_ );
      }
      // empty handle list: nullptr
      DNode *pick( bool attached, int kind = -1 )
      {
         std::vector<DNode *> v;
         for ( DNode *n : created_ )
         {
            if ( ( kind < 0 || n->kind == kind ) && ( parent_.count( n ) > 0 ) == attached )
            {
               v.push_back( n );
            }
         }
         return v.empty() ? nullptr : v[c_.draw( v.size() )];
      }
      Node temp( ImageFile &f )
      {
         switch ( c_.draw( 5 ) )
         {
            case 0:
               return IntegerNode( f, 5, 0, 10 );
            case 1:
               return StringNode( f, "temp" );
            case 2:
               return FloatNode( f, 1.5 );
            case 3:
               return StructureNode( f );
            default:
               return VectorNode( f, true );
         }
      }
      void attempt( const std::string &what, const std::function<void()> &f )
      {
         made++;
         refused( what, lib( f ) );
      }
      // the node handed to a refused call must be as before
      void free( Node &n )
      {
         bool at = true, root = false;
         std::string pn;
         Res r = lib( [&] {
            at = n.isAttached();
            root = n.isRoot();
            pn = n.pathName();
         } );
         if ( !r )
         {
            fail( "querying the element of a refused call threw " + resStr( r ) );
         }
         if ( at || !root || pn != "/" )
         {
            fail( "a refused call changed the element it was given" );
         }
      }
      StructureNode structure( DNode *n )
      {
         return n ? StructureNode( *s_.h_[n] ) : s_.imf_->root();
      }
      void badName()
      {
         static const char *const names[] = { "",     "1a",  "a b",  "a:b:c", "nosuch:x", "//",  "a//b", "a/",     "-x",  ".x",     "a\tb",
                                              ":x",   "x:",  "/",    "5",     "no/such",  "a&b", "<x>",  "/no/such/way", "a\nb", "\"", "x=1" };
         unsigned k = c_.draw( sizeof( names ) / sizeof( *names ) );
         DNode *p = c_.chance( 1, 2 ) ? pick( c_.chance( 1, 2 ), KStruct ) : nullptr;
         Node t = temp( *s_.imf_ );
         trace( "name '%s'", names[k] );
         attempt( strf( "setting an element under the name '%s'", names[k] ), [&] { structure( p ).set( names[k], t ); } );
         free( t );
      }
      void setTwice()
      {
         std::vector<DNode *> v;
         for ( DNode *n : created_ )
         {
            auto it = parent_.find( n );
            if ( it != parent_.end() && it->second->kind == KStruct )
            {
               v.push_back( n );
            }
         }
         if ( v.empty() )
         {
            return;
         }
         DNode *n = v[c_.draw( v.size() )];
         DNode *p = parent_[n];
         Node t = temp( *s_.imf_ );
         attempt( "setting an element that is already set", [&] { structure( p == d_.root.get() ? nullptr : p ).set( n->name, t ); } );
         free( t );
      }
      void owned()
      {
         DNode *n = pick( true );
         if ( !n )
         {
            return;
         }
         unsigned k = c_.draw( 5 );
         DNode *v = pick( c_.chance( 1, 2 ), KVec );
         attempt( strf( "attaching an element that has a parent (%c)", char( 'a' + k ) ), [&] {
            if ( k == 0 )
            {
               s_.imf_->root().set( "zzAgain", s_.imf_->root() );
            }
            else if ( k == 1 && v )
            {
               VectorNode( *s_.h_[v] ).append( *s_.h_[n] );
            }
            else if ( k == 2 )
            {
               StructureNode st( *s_.imf_ );
               st.set( "child", IntegerNode( *s_.imf_, 1, 0, 2 ) );
               s_.imf_->root().set( "zzAgain", st.get( "child" ) );
            }
            else if ( k == 3 )
            {
               StructureNode st( *s_.imf_ );
               StructureNode in( *s_.imf_ );
               st.set( "in", in );
               in.set( "loop", st );
            }
            else
            {
               s_.imf_->root().set( "zzAgain", *s_.h_[n] );
            }
         } );
      }
      void foreign()
      {
         Node t = temp( *other_ );
         DNode *v = pick( c_.chance( 1, 2 ), KVec );
         DNode *p = pick( c_.chance( 1, 2 ), KStruct );
         unsigned k = c_.draw( 4 );
         attempt( strf( "attaching an element of another file (%c)", char( 'a' + k ) ), [&] {
            if ( k == 0 && v )
            {
               VectorNode( *s_.h_[v] ).append( t );
            }
            else if ( k == 1 )
            {
               StructureNode proto( *other_ );
               proto.set( "x", IntegerNode( *other_, 0, 0, 100 ) );
               CompressedVectorNode( *s_.imf_, proto, VectorNode( *s_.imf_, true ) );
            }
            else if ( k == 2 )
            {
               StructureNode st( *s_.imf_ );
               other_->root().set( "y", st );
            }
            else
            {
               structure( p ).set( "zzForeign", t );
            }
         } );
         free( t );
      }
      void vectorRules()
      {
         DNode *v = nullptr;
         for ( DNode *n : created_ )
         {
            if ( n->kind == KVec && parent_.count( n ) && c_.chance( 1, 2 ) )
            {
               v = n;
            }
         }
         VectorNode own( *s_.imf_, false );
         own.append( IntegerNode( *s_.imf_, 1, 0, 5 ) );
         unsigned k = c_.draw( 6 );
         StringNode t( *s_.imf_, "t" );
         Node tn = t;
         attempt( strf( "breaking the rules of a vector (%c)", char( 'a' + k ) ), [&] {
            switch ( k )
            {
               case 0:
                  own.append( t );
                  break;
               case 1:
                  own.append( IntegerNode( *s_.imf_, 1, 0, 6 ) );
                  break;
               case 2:
                  if ( v )
                  {
                     VectorNode( *s_.h_[v] ).get( VectorNode( *s_.h_[v] ).childCount() );
                  }
                  else
                  {
                     own.get( 1 );
                  }
                  break;
               case 3:
                  own.get( -1 );
                  break;
               case 4:
                  if ( v && paths_.count( v ) )
                  {
                     s_.imf_->root().set( paths_[v] + "/99", t );
                  }
                  else
                  {
                     own.get( "3" );
                  }
                  break;
               default:
                  if ( v && paths_.count( v ) )
                  {
                     s_.imf_->root().set( paths_[v] + "/name", t );
                  }
                  else
                  {
                     own.get( "x" );
                  }
            }
         } );
         free( tn );
         if ( own.childCount() != 1 )
         {
            fail( "a refused append changed the vector" );
         }
      }
      void badValue()
      {
         ImageFile &f = *s_.imf_;
         unsigned k = c_.draw( 11 );
         attempt( strf( "making an element with a value outside its bounds (%c)", char( 'a' + k ) ), [&] {
            switch ( k )
            {
               case 0:
                  IntegerNode( f, 11, 0, 10 );
                  break;
               case 1:
                  IntegerNode( f, -1, 0, 10 );
                  break;
               case 2:
                  ScaledIntegerNode( f, 11, 0, 10, 1, 0 );
                  break;
               case 3:
                  ScaledIntegerNode( f, 6.0, 0.0, 5.0, 0.5, 0 );
                  break;
               case 4:
                  FloatNode( f, 2.0, PrecisionDouble, 0, 1 );
                  break;
               case 5:
                  FloatNode( f, -2.0, PrecisionSingle, 0, 1 );
                  break;
               case 6:
                  IntegerNode( f, 5, 10, 0 );
                  break;
               case 7:
                  FloatNode( f, NAN );
                  break;
               case 8:
                  FloatNode( f, INFINITY );
                  break;
               case 9:
                  FloatNode( f, -INFINITY, PrecisionSingle, -INFINITY, INFINITY );
                  break;
               default:
                  FloatNode( f, 1e300, PrecisionSingle );
            }
         } );
      }
      void badGet()
      {
         DNode *n = pick( true );
         unsigned k = c_.draw( 8 );
         StructureNode root = s_.imf_->root();
         attempt( strf( "getting what is not there (%c)", char( 'a' + k ) ), [&] {
            switch ( k )
            {
               case 0:
                  root.get( "noSuchElement" );
                  break;
               case 1:
                  root.get( root.childCount() );
                  break;
               case 2:
                  root.get( -1 );
                  break;
               case 3:
                  root.get( "" );
                  break;
               case 4:
                  root.get( "/noSuch/element" );
                  break;
               case 5:
                  root.isDefined( "a b" );
                  break;
               case 6:
                  root.get( "nosuch:thing" );
                  break;
               default:
                  if ( n && paths_.count( n ) )
                  {
                     root.get( paths_[n] + "/noSuchElement/x" );
                  }
                  else
                  {
                     root.get( "bad name" );
                  }
            }
         } );
      }
      void badCV()
      {
         ImageFile &f = *s_.imf_;
         unsigned k = c_.draw( 4 );
         StructureNode proto( f );
         proto.set( "x", IntegerNode( f, 0, 0, 100 ) );
         StructureNode holder( f );
         attempt( strf( "making a record vector of unusable parts (%c)", char( 'a' + k ) ), [&] {
            switch ( k )
            {
               case 0:
                  holder.set( "p", proto );
                  CompressedVectorNode( f, proto, VectorNode( f, true ) );
                  break;
               case 1:
                  CompressedVectorNode( f, proto, VectorNode( *other_, true ) );
                  break;
               case 2:
               {
                  VectorNode cod( f, true );
                  holder.set( "c", cod );
                  CompressedVectorNode( f, proto, cod );
                  break;
               }
               default:
                  CompressedVectorNode( f, f.root(), VectorNode( f, true ) );
            }
         } );
      }
      void badWriter()
      {
         ImageFile &f = *s_.imf_;
         DNode *n = pick( true, KCV );
         DNode *u = pick( false, KCV );
         bool written = false, waiting = false;
         for ( size_t i = 0; n && i < d_.steps.size(); i++ )
         {
            const Step &st = d_.steps[i];
            if ( st.n == n && st.op == SOpenWriter )
            {
               ( i < s_.pos_ ? written : waiting ) = true;
            }
         }
         int64_t v[8] = {};
         std::vector<std::string> str( 8 );
         unsigned k = c_.draw( 8 );
         if ( u && k >= 6 )
         {
            attempt( strf( "making a record writer for an unattached vector (%c)", char( 'a' + k ) ), [&] {
               std::vector<SourceDestBuffer> sb;
               buffers( *u, sb, v, str );
               if ( k == 6 )
               {
                  CompressedVectorNode( *s_.h_[u] ).writer( sb );
               }
               else
               {
                  CompressedVectorNode( *s_.h_[u] ).reader( sb );
               }
            } );
            return;
         }
         if ( !n )
         {
            return;
         }
         CompressedVectorNode cv( *s_.h_[n] );
         if ( s_.writer_ )
         {
            attempt( strf( "making a record reader or writer beside an open writer (%c)", char( 'a' + k ) ), [&] {
               std::vector<SourceDestBuffer> sb;
               buffers( *n, sb, v, str );
               if ( k & 1 )
               {
                  cv.writer( sb );
               }
               else
               {
                  cv.reader( sb );
               }
            } );
            return;
         }
         attempt( strf( "making a record writer with unusable buffers (%c)", char( 'a' + k ) ), [&] {
            std::vector<SourceDestBuffer> sb;
            switch ( k )
            {
               case 0:
                  break;
               case 1:
                  sb.emplace_back( f, "noSuchField", v, 8, true );
                  break;
               case 2: // one too many
                  buffers( *n, sb, v, str );
                  sb.emplace_back( f, "noSuchField", v, 8, true );
                  break;
               case 3: // the same field twice
                  buffers( *n, sb, v, str );
                  buffers( *n, sb, v, str, 1 );
                  break;
               case 4: // different capacities
                  buffers( *n, sb, v, str );
                  sb.emplace_back( f, n->leafPaths[0], v, 7, true );
                  break;
               default: // one field missing
                  if ( n->leaves.size() > 1 )
                  {
                     buffers( *n, sb, v, str, unsigned( n->leaves.size() ) - 1 );
                  }
            }
            cv.writer( sb );
         } );
      }
      void buffers( DNode &n, std::vector<SourceDestBuffer> &sb, int64_t *v, std::vector<std::string> &str, unsigned count = ~0u )
      {
         for ( unsigned i = 0; i < n.leaves.size() && i < count; i++ )
         {
            if ( n.leaves[i]->kind == KString )
            {
               sb.emplace_back( *s_.imf_, n.leafPaths[i], &str );
            }
            else
            {
               sb.emplace_back( *s_.imf_, n.leafPaths[i], v, 8, true, true );
            }
         }
      }
      void badBlob()
      {
         ImageFile &f = *s_.imf_;
         DNode *n = pick( true, KBlob );
         uint8_t b[16] = {};
         unsigned k = c_.draw( 7 );
         attempt( strf( "an impossible blob access (%c)", char( 'a' + k ) ), [&] {
            if ( !n || k == 0 )
            {
               BlobNode( f, -1 - int64_t( c_.draw( 1000 ) ) );
               return;
            }
            BlobNode bn( *s_.h_[n] );
            int64_t size = int64_t( n->blob.size() );
            switch ( k )
            {
               case 1:
                  bn.write( b, size, 1 );
                  break;
               case 2:
                  bn.write( b, -1, 1 );
                  break;
               case 3:
                  bn.write( b, size - int64_t( c_.draw( uint64_t( std::min<int64_t>( size, 10 ) ) + 1 ) ), 11 );
                  break;
               case 4:
                  bn.read( b, size, 1 );
                  break;
               case 5:
                  bn.read( b, -1, 1 );
                  break;
               default:
                  bn.read( b, INT64_MAX, 16 );
            }
         } );
      }
      void badExt()
      {
         ImageFile &f = *s_.imf_;
         size_t n = f.extensionsCount();
         unsigned k = c_.draw( 9 );
         if ( !n && k < 3 )
         {
            k += 3;
         }
         attempt( strf( "an impossible extension request (%c)", char( 'a' + k ) ), [&] {
            switch ( k )
            {
               case 0:
                  f.extensionsAdd( f.extensionsPrefix( c_.draw( n ) ), "http://other.example/uri" );
                  break;
               case 1:
                  f.extensionsAdd( "zzother", f.extensionsUri( c_.draw( n ) ) );
                  break;
               case 2:
               {
                  static const char *const locals[] = { ":5", ":-a", ":", ":a:b", ":.", ":a b" };
                  f.root().set( f.extensionsPrefix( c_.draw( n ) ) + locals[c_.draw( 6 )], temp( f ) );
                  break;
               }
               case 3:
                  f.extensionsPrefix( n );
                  break;
               case 4:
                  f.extensionsUri( n + c_.draw( 5 ) );
                  break;
               case 5:
                  f.extensionsAdd( "a b", "http://other.example/uri" );
                  break;
               case 6:
                  f.extensionsAdd( "a:b", "http://other.example/uri" );
                  break;
               case 7:
                  f.extensionsAdd( "zzother", "" );
                  break;
               default:
               {
                  ustring p, l;
                  f.elementNameParse( "a b", p, l );
               }
            }
         } );
         if ( f.extensionsCount() != n )
         {
            fail( "a refused extension request changed the number of extensions" );
         }
      }
      void badBuffer()
      {
         ImageFile &f = *s_.imf_;
         int32_t v[4] = {};
         unsigned k = c_.draw( 4 );
         attempt( strf( "making an unusable buffer (%c)", char( 'a' + k ) ), [&] {
            switch ( k )
            {
               case 0:
                  SourceDestBuffer( f, "x", static_cast<int32_t *>( nullptr ), 4, true );
                  break;
               case 1:
                  SourceDestBuffer( f, "", v, 4, true );
                  break;
               case 2:
                  SourceDestBuffer( f, "a b", v, 4, true );
                  break;
               default:
                  SourceDestBuffer( f, "x", static_cast<std::vector<ustring> *>( nullptr ) );
            }
         } );
      }
      // The element about to be attached is first attached wrongly.
      void upcoming()
      {
         if ( !s_.more() )
         {
            return;
         }
         const Step &st = d_.steps[s_.pos_];
         if ( st.op == SAttach && has( st.n ) )
         {
            Node &n = *s_.h_[st.n];
            unsigned k = c_.draw( 5 );
            attempt( strf( "attaching the next element wrongly (%c)", char( 'a' + k ) ), [&] {
               switch ( k )
               {
                  case 0:
                     s_.imf_->root().set( "a b", n );
                     break;
                  case 1:
                     s_.imf_->root().set( "no/such/way", n );
                     break;
                  case 2:
                     other_->root().set( "x", n );
                     break;
                  case 3:
                     s_.imf_->root().set( "", n );
                     break;
                  default:
                     VectorNode v( *other_, true );
                     v.append( n );
               }
            } );
            free( n );
            PROBE( "element refused before its proper use" );
         }
         else if ( st.op == SExt )
         {
            const Ext &e = d_.exts[st.k];
            if ( s_.imf_->extensionsCount() )
            {
               attempt( "declaring the next extension wrongly", [&] {
                  if ( c_.chance( 1, 2 ) )
                  {
                     s_.imf_->extensionsAdd( e.prefix, s_.imf_->extensionsUri( 0 ) );
                  }
                  else
                  {
                     s_.imf_->extensionsAdd( s_.imf_->extensionsPrefix( 0 ), e.uri );
                  }
               } );
            }
            attempt( "using an extension before it is declared", [&] { s_.imf_->root().set( e.prefix + ":x", temp( *s_.imf_ ) ); } );
         }
         else if ( st.op == SBlobOp && has( st.n ) )
         {
            const BlobOp &op = st.n->blobOps[st.k];
            std::vector<uint8_t> b( op.len + 64, 0xAB );
            attempt( "a blob access outside the blob", [&] {
               BlobNode bn( *s_.h_[st.n] );
               uint64_t size = st.n->blob.size();
               uint64_t len = size - op.start + 1 + c_.draw( 32 );
               b.resize( len );
               if ( op.isWrite )
               {
                  bn.write( b.data(), int64_t( op.start ), len );
               }
               else
               {
                  bn.read( b.data(), int64_t( op.start ), len );
               }
            } );
         }
      }
      // Calls on the open record writer.
      void badWrite()
      {
         if ( !s_.writer_ )
         {
            return;
         }
         ImageFile &f = *s_.imf_;
         DNode &n = *s_.wnode;
         CompressedVectorWriter &w = *s_.writer_;
         std::vector<int64_t> v( n.wcap + 2 );
         std::vector<std::string> str( n.wcap );
         unsigned k = c_.draw( 6 );
         attempt( strf( "an impossible record write (%c)", char( 'a' + k ) ), [&] {
            std::vector<SourceDestBuffer> sb;
            switch ( k )
            {
               case 0: // more than the buffers hold
                  w.write( n.wcap + 1 + c_.draw( 100 ) );
                  break;
               case 1: // no buffers
                  w.write( sb, 1 );
                  break;
               case 2: // unknown field
                  sb.emplace_back( f, "noSuchField", v.data(), n.wcap, true );
                  w.write( sb, 1 );
                  break;
               case 3: // right fields, other capacity
                  for ( auto &b : s_.wbufs )
                  {
                     if ( b.leaf->kind == KString )
                     {
                        str.resize( n.wcap + 1 );
                        sb.emplace_back( f, b.path, &str );
                     }
                     else
                     {
                        sb.emplace_back( f, b.path, v.data(), n.wcap, true, true );
                     }
                  }
                  sb.emplace_back( f, "noSuchField", v.data(), n.wcap + 2, true );
                  w.write( sb, 1 );
                  break;
               case 4: // the fields in the same number, one of them unknown
                  for ( size_t i = 0; i < s_.wbufs.size(); i++ )
                  {
                     auto &b = s_.wbufs[i];
                     if ( i + 1 == s_.wbufs.size() )
                     {
                        sb.emplace_back( f, "noSuchField", v.data(), n.wcap, true );
                     }
                     else
                     {
                        b.add( f, sb );
                     }
                  }
                  w.write( sb, n.wcap );
                  break;
               default: // good buffers, too many records
                  for ( auto &b : s_.wbufs )
                  {
                     b.add( f, sb );
                  }
                  w.write( sb, n.wcap + 1 );
            }
         } );
         PROBE( "record write refused in the middle of a record set" );
      }
      void downcast()
      {
         DNode *n = created_.empty() ? nullptr : created_[c_.draw( created_.size() )];
         if ( !n )
         {
            return;
         }
         Node &h = *s_.h_[n];
         attempt( "downcasting an element to another type", [&] {
            switch ( ( unsigned( n->kind ) + 1 + c_.draw( 7 ) ) % 8 )
            {
               case KStruct:
                  StructureNode{ h };
                  break;
               case KVec:
                  VectorNode{ h };
                  break;
               case KInt:
                  IntegerNode{ h };
                  break;
               case KScaled:
                  ScaledIntegerNode{ h };
                  break;
               case KFloat:
                  FloatNode{ h };
                  break;
               case KString:
                  StringNode{ h };
                  break;
               case KBlob:
                  BlobNode{ h };
                  break;
               default:
                  CompressedVectorNode{ h };
            }
         } );
      }
   };

   static void runMisuse( Choices &c, unsigned profile )
   {
      auto d = genDoc( c, c.chance( 1, 2 ) ? drawOpts( c, profile ) : smallOpts( c ) );
      writeClean( *d, "/sim/a.e57" );
      const auto ref = g_disk->bytes( "/sim/a.e57" );
      const bool withSpoil = c.chance( 1, 4 );
      {
         WriteSession s( *d, "/sim/b.e57" );
         Res r = s.open();
         if ( !r )
         {
            fail( "a second session could not be opened: " + resStr( r ) );
         }
         Misuse m( s, *d, c );
         const unsigned rate = 1 + c.draw( 6 );
         const size_t spoilAt = withSpoil ? c.draw( d->steps.size() + 1 ) : ~size_t( 0 );
         while ( true )
         {
            unsigned burst = 0;
            while ( c.chance( 1, rate + 1 ) && m.made < 120 && burst++ < 6 )
            {
               m.one();
            }
            if ( s.pos() >= spoilAt )
            {
               m.spoil();
            }
            if ( !s.more() )
            {
               break;
            }
            r = s.step();
            if ( !r )
            {
               fail( "a call that succeeds in the same session without refused calls failed: " + resStr( r ) + " :: " + s.where() );
            }
            if ( !s.readMismatch.empty() )
            {
               fail( "data read within the session differs after refused calls :: " + s.readMismatch );
            }
         }
         if ( withSpoil && !m.spoiled )
         {
            m.spoil();
         }
         r = s.close();
         if ( !r )
         {
            fail( std::string( "close failed after " ) + ( withSpoil ? "a failed record write: " : "refused calls: " ) + resStr( r ) );
         }
         s.destroy();
      }
      g_sh->sessions += 2;
      auto now = g_disk->bytes( "/sim/b.e57" );
      if ( !withSpoil )
      {
         if ( now != ref )
         {
            size_t at = 0;
            while ( at < now.size() && at < ref.size() && now[at] == ref[at] )
            {
               at++;
            }
            fail( "the file differs from that of the same session without the refused calls" +
                  strf( " :: first difference at byte %zu (sizes %zu, %zu)", at, now.size(), ref.size() ) );
         }
      }
      Res er;
      std::unique_ptr<ImageFile> f;
      er = lib( [&] { f.reset( new ImageFile( "/sim/b.e57", "r" ) ); } );
      if ( !er )
      {
         fail( "the file cannot be opened: " + resStr( er ) );
      }
      if ( withSpoil )
      {
         // documented: the file stays consistent
         std::string inv = validateFile( now, nullptr );
         if ( !inv.empty() )
         {
            fail( "a file closed after a failed record write is not valid :: " + inv );
         }
         auto paths = docPaths( *d );
         VerifyOpts vo;
         for ( auto &n : d->root->ch )
         {
            std::string bad;
            Res x;
            Res g = lib( [&] {
               Node ln = f->root().get( paths[n.get()] );
               bad = verifyNode( *f, ln, *n, paths[n.get()], &c, vo, x );
            } );
            if ( !g || !x )
            {
               fail( "an element beside a failed record write cannot be read: " + resStr( !g ? g : x ) );
            }
            if ( !bad.empty() )
            {
               fail( "an element beside a failed record write changed :: " + bad );
            }
         }
         // the spoiled records: any data or any exception of the library, in bounded time
         int64_t a[7];
         Res x = lib( [&] {
            CompressedVectorNode cv( f->root().get( "zzSpoiled" ) );
            std::vector<SourceDestBuffer> sb;
            sb.emplace_back( *f, "a", a, 7, true );
            auto rd = cv.reader( sb );
            for ( unsigned i = 0; i < 100 && rd.read(); i++ )
            {
            }
         } );
         if ( x.foreign )
         {
            fail( "reading records after a failed record write threw " + resStr( x ) );
         }
      }
      else if ( c.chance( 1, 2 ) )
      {
         Misuse::reading( *f, *d, c );
      }
      lib( [&] { f.reset(); } );
      if ( g_disk->openFds() )
      {
         fail( "a descriptor stayed open" );
      }
   }
   static FamilyReg r15( { "misuse", runMisuse, 8 } );
}
