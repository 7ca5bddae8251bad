// Record buffers, writing sessions, verification and generic dumps through the public API.
#include "doc.h"
#include <algorithm>
#include <cfloat>
#include <climits>
#include <cmath>

namespace sim
{
   // a double in a form no locale changes
   static std::string bits( double v )
   {
      uint64_t b;
      memcpy( &b, &v, 8 );
      return strf( "%016llx", (unsigned long long)b );
   }

   using namespace e57;

   std::string resStr( const Res &r )
   {
      if ( r.ok )
      {
         return "ok";
      }
      if ( r.foreign )
      {
         return "foreign exception (" + r.what + ")";
      }
      return strf( "E57Exception %d (%s)", r.err, r.what.substr( 0, 200 ).c_str() );
   }

   // ------------------------------------------------------------------ representations
   static bool intFits( int64_t v, MemRep r )
   {
      switch ( r )
      {
         case RI8:
            return v >= INT8_MIN && v <= INT8_MAX;
         case RU8:
            return v >= 0 && v <= UINT8_MAX;
         case RI16:
            return v >= INT16_MIN && v <= INT16_MAX;
         case RU16:
            return v >= 0 && v <= UINT16_MAX;
         case RI32:
            return v >= INT32_MIN && v <= INT32_MAX;
         case RU32:
            return v >= 0 && v <= int64_t( UINT32_MAX );
         case RI64:
            return true;
         case RBool:
            return v == 0 || v == 1;
         case RR32:
            return v >= -( 1 << 24 ) && v <= ( 1 << 24 );
         case RR64:
            return v >= -( 1LL << 53 ) && v <= ( 1LL << 53 );
         default:
            return false;
      }
   }
   static double fval( const DNode &leaf, uint64_t bits )
   {
      if ( leaf.single )
      {
         uint32_t b = uint32_t( bits );
         float f;
         memcpy( &f, &b, 4 );
         return f;
      }
      double d;
      memcpy( &d, &bits, 8 );
      return d;
   }
   static long double scaledOf( const DNode &leaf, int64_t raw )
   {
      return (long double)raw * (long double)leaf.scale + (long double)leaf.offset;
   }
   static double storedScaled( const DNode &leaf, int64_t raw, MemRep r )
   {
      double x = double( raw ) * leaf.scale + leaf.offset;
      if ( r == RR64 )
      {
         return x;
      }
      if ( r == RR32 )
      {
         return double( float( x ) );
      }
      return double( std::llround( x ) );
   }

   bool repUsable( const DNode &leaf, const Column &c, const FieldRep &fr, bool reading )
   {
      if ( leaf.kind == KString )
      {
         return fr.rep == RStr;
      }
      if ( fr.rep == RStr )
      {
         return false;
      }
      const bool intRep = fr.rep <= RI64;
      if ( leaf.kind == KInt || ( leaf.kind == KScaled && !fr.scal ) )
      {
         if ( !intRep && !fr.conv )
         {
            return false;
         }
         for ( auto v : c.v )
         {
            if ( !intFits( int64_t( v ), fr.rep ) )
            {
               return false;
            }
         }
         return true;
      }
      if ( leaf.kind == KScaled )
      {
         if ( fr.rep == RBool || !fr.conv )
         {
            return false;
         }
         const long double lim = 35184372088832.0L; // 2^45
         if ( fabsl( (long double)leaf.offset / leaf.scale ) > lim || fabs( leaf.scale ) < 1e-12 )
         {
            return false;
         }
         for ( auto v : c.v )
         {
            int64_t raw = int64_t( v );
            if ( fabsl( (long double)raw ) > lim )
            {
               return false;
            }
            long double x = scaledOf( leaf, raw );
            if ( intRep )
            {
               if ( fabsl( x ) > lim || !intFits( std::llround( double( x ) ), fr.rep ) )
               {
                  return false;
               }
            }
            else if ( fr.rep == RR32 && fabsl( x ) > 1e30L )
            {
               return false;
            }
            if ( !reading )
            {
               long double back = ( (long double)storedScaled( leaf, raw, fr.rep ) - leaf.offset ) / leaf.scale;
               if ( fabsl( back - raw ) > 0.4L )
               {
                  return false;
               }
            }
            else if ( intRep )
            {
               long double fr2 = x - floorl( x );
               if ( fabsl( fr2 - 0.5L ) < 0.01L )
               {
                  return false;
               }
            }
         }
         return true;
      }
      // floats
      if ( ( leaf.single && fr.rep == RR32 ) || ( !leaf.single && fr.rep == RR64 ) )
      {
         return true;
      }
      if ( fr.rep != RR32 && fr.rep != RR64 && !fr.conv )
      {
         return false;
      }
      for ( auto v : c.v )
      {
         double x = fval( leaf, v );
         if ( !std::isfinite( x ) )
         {
            return false;
         }
         if ( fr.rep == RR64 )
         {
            continue;
         }
         if ( fr.rep == RR32 )
         {
            if ( fabs( x ) > double( FLT_MAX ) || double( float( x ) ) != x || ( x != 0 && fabs( x ) < double( FLT_MIN ) ) )
            {
               return false;
            }
            continue;
         }
         if ( fabs( x ) > 1e15 || x != std::floor( x ) || !intFits( int64_t( x ), fr.rep ) || ( x == 0 && std::signbit( x ) ) )
         {
            return false;
         }
      }
      return true;
   }

   static FieldRep nativeRep( const DNode &leaf )
   {
      FieldRep f;
      switch ( leaf.kind )
      {
         case KFloat:
            f.rep = leaf.single ? RR32 : RR64;
            break;
         case KString:
            f.rep = RStr;
            break;
         default:
            f.rep = RI64;
      }
      return f;
   }

   FieldRep drawRep( Choices &c, const DNode &leaf, const Column &col, bool reading, bool plain )
   {
      FieldRep f = nativeRep( leaf );
      if ( plain )
      {
         return f;
      }
      uint32_t stride = 0;
      if ( leaf.kind != KString && c.chance( 1, 3 ) )
      {
         stride = 1 + c.draw( 40 );
      }
      if ( leaf.kind == KString )
      {
         return f;
      }
      if ( c.chance( 1, 2 ) )
      {
         FieldRep g;
         g.rep = MemRep( c.draw( 10 ) );
         g.scal = leaf.kind == KScaled && c.chance( 1, 2 );
         const bool intRep = g.rep <= RI64;
         bool need = leaf.kind == KFloat ? ( intRep || g.rep == RBool ) : ( !intRep || g.scal );
         g.conv = c.chance( 1, 2 ) || need;
         if ( repUsable( leaf, col, g, reading ) )
         {
            f = g;
         }
      }
      f.extraStride = stride;
      return f;
   }

   // ------------------------------------------------------------------ buffers
   void RBuf::alloc( size_t capacity )
   {
      cap = capacity;
      if ( fr.rep == RStr )
      {
         strs.assign( cap, std::string() );
         return;
      }
      stride = repSize( fr.rep ) + fr.extraStride;
      memSize = cap ? ( cap - 1 ) * stride + repSize( fr.rep ) : 0;
      mem.reset( new uint8_t[memSize + 16] );
      memset( mem.get(), 0, memSize );
   }
   void RBuf::fillPattern( uint8_t b )
   {
      if ( fr.rep == RStr )
      {
         for ( auto &s : strs )
         {
            s.assign( 3, char( b ) );
         }
         return;
      }
      memset( mem.get(), b, memSize );
      if ( fr.rep == RBool )
      {
         for ( size_t i = 0; i < cap; i++ )
         {
            mem[i * stride] = b & 1;
         }
      }
   }
   template <class T> static void put( uint8_t *p, T v )
   {
      memcpy( p, &v, sizeof v );
   }
   template <class T> static T get( const uint8_t *p )
   {
      T v;
      memcpy( &v, p, sizeof v );
      return v;
   }
   static void putInt( uint8_t *p, MemRep r, int64_t v )
   {
      switch ( r )
      {
         case RI8:
            put<int8_t>( p, int8_t( v ) );
            break;
         case RU8:
            put<uint8_t>( p, uint8_t( v ) );
            break;
         case RI16:
            put<int16_t>( p, int16_t( v ) );
            break;
         case RU16:
            put<uint16_t>( p, uint16_t( v ) );
            break;
         case RI32:
            put<int32_t>( p, int32_t( v ) );
            break;
         case RU32:
            put<uint32_t>( p, uint32_t( v ) );
            break;
         case RI64:
            put<int64_t>( p, v );
            break;
         case RBool:
            put<bool>( p, v != 0 );
            break;
         case RR32:
            put<float>( p, float( v ) );
            break;
         case RR64:
            put<double>( p, double( v ) );
            break;
         default:
            break;
      }
   }
   static int64_t getInt( const uint8_t *p, MemRep r )
   {
      switch ( r )
      {
         case RI8:
            return get<int8_t>( p );
         case RU8:
            return get<uint8_t>( p );
         case RI16:
            return get<int16_t>( p );
         case RU16:
            return get<uint16_t>( p );
         case RI32:
            return get<int32_t>( p );
         case RU32:
            return get<uint32_t>( p );
         case RI64:
            return get<int64_t>( p );
         case RBool:
            return get<uint8_t>( p );
         default:
            return 0;
      }
   }
   void RBuf::store( size_t i, const DNode &lf, const Column &c, uint64_t rec )
   {
      if ( fr.rep == RStr )
      {
         strs[i] = c.s[rec];
         return;
      }
      uint8_t *p = mem.get() + i * stride;
      uint64_t bits = c.v[rec];
      if ( lf.kind == KFloat )
      {
         if ( lf.single && fr.rep == RR32 )
         {
            put<uint32_t>( p, uint32_t( bits ) );
         }
         else if ( !lf.single && fr.rep == RR64 )
         {
            put<uint64_t>( p, bits );
         }
         else if ( fr.rep == RR32 )
         {
            put<float>( p, float( fval( lf, bits ) ) );
         }
         else if ( fr.rep == RR64 )
         {
            put<double>( p, fval( lf, bits ) );
         }
         else
         {
            putInt( p, fr.rep, int64_t( fval( lf, bits ) ) );
         }
         return;
      }
      if ( lf.kind == KScaled && fr.scal )
      {
         double x = storedScaled( lf, int64_t( bits ), fr.rep );
         if ( fr.rep == RR64 )
         {
            put<double>( p, x );
         }
         else if ( fr.rep == RR32 )
         {
            put<float>( p, float( x ) );
         }
         else
         {
            putInt( p, fr.rep, int64_t( x ) );
         }
         return;
      }
      putInt( p, fr.rep, int64_t( bits ) );
   }
   std::string RBuf::show( size_t i ) const
   {
      if ( fr.rep == RStr )
      {
         return strf( "string len %zu hash %llx", strs[i].size(), (unsigned long long)hashBytes( strs[i].data(), strs[i].size() ) );
      }
      const uint8_t *p = mem.get() + i * stride;
      if ( fr.rep == RR32 )
      {
         return strf( "%.9g (bits %08x)", double( get<float>( p ) ), get<uint32_t>( p ) );
      }
      if ( fr.rep == RR64 )
      {
         return strf( "%.17g (bits %016llx)", get<double>( p ), (unsigned long long)get<uint64_t>( p ) );
      }
      return strf( "%lld", (long long)getInt( p, fr.rep ) );
   }
   uint64_t RBuf::hashValue( size_t i ) const
   {
      if ( fr.rep == RStr )
      {
         return hashBytes( strs[i].data(), strs[i].size() );
      }
      return hashBytes( mem.get() + i * stride, repSize( fr.rep ) );
   }
   std::string RBuf::check( size_t i, const DNode &lf, const Column &c, uint64_t rec ) const
   {
      std::string want;
      bool ok = true;
      if ( fr.rep == RStr )
      {
         ok = strs[i] == c.s[rec];
         if ( !ok )
         {
            want = strf( "string len %zu", c.s[rec].size() );
         }
      }
      else
      {
         const uint8_t *p = mem.get() + i * stride;
         uint64_t bits = c.v[rec];
         if ( lf.kind == KFloat )
         {
            double x = fval( lf, bits );
            if ( lf.single && fr.rep == RR32 )
            {
               ok = get<uint32_t>( p ) == uint32_t( bits );
            }
            else if ( !lf.single && fr.rep == RR64 )
            {
               ok = get<uint64_t>( p ) == bits;
            }
            else if ( fr.rep == RR32 )
            {
               ok = double( get<float>( p ) ) == x;
            }
            else if ( fr.rep == RR64 )
            {
               ok = get<double>( p ) == x;
            }
            else
            {
               ok = double( getInt( p, fr.rep ) ) == x;
            }
            if ( !ok )
            {
               want = strf( "%.17g (bits %llx)", x, (unsigned long long)bits );
            }
         }
         else if ( lf.kind == KScaled && fr.scal )
         {
            long double x = scaledOf( lf, int64_t( bits ) );
            long double mag = fabsl( (long double)int64_t( bits ) * lf.scale ) + fabsl( lf.offset ) + 1e-300L;
            if ( fr.rep == RR64 )
            {
               ok = fabsl( get<double>( p ) - x ) <= mag * 1e-15L;
            }
            else if ( fr.rep == RR32 )
            {
               ok = fabsl( get<float>( p ) - x ) <= mag * 1e-6L;
            }
            else
            {
               ok = (long double)getInt( p, fr.rep ) == floorl( x + 0.5L );
            }
            if ( !ok )
            {
               want = strf( "%.17Lg (raw %lld)", x, (long long)bits );
            }
         }
         else
         {
            int64_t v = int64_t( bits );
            if ( fr.rep == RR32 )
            {
               ok = get<float>( p ) == float( v );
            }
            else if ( fr.rep == RR64 )
            {
               ok = get<double>( p ) == double( v );
            }
            else
            {
               ok = getInt( p, fr.rep ) == v;
            }
            if ( !ok )
            {
               want = strf( "%lld", (long long)v );
            }
         }
      }
      if ( ok )
      {
         return "";
      }
      return strf( "record %llu field %s (memory %s%s%s): got %s, expected %s", (unsigned long long)rec, path.c_str(),
                   repName( fr.rep ), fr.conv ? " conv" : "", fr.scal ? " scaled" : "", show( i ).c_str(), want.c_str() );
   }
   std::string RBuf::checkGaps( uint8_t pattern ) const
   {
      if ( fr.rep == RStr || !fr.extraStride || !cap )
      {
         return "";
      }
      size_t es = repSize( fr.rep );
      for ( size_t i = 0; i + 1 < cap; i++ )
      {
         for ( size_t k = es; k < stride; k++ )
         {
            if ( mem[i * stride + k] != pattern )
            {
               return strf( "memory between elements of field %s was overwritten", path.c_str() );
            }
         }
      }
      return "";
   }
   void RBuf::add( ImageFile &imf, std::vector<SourceDestBuffer> &out )
   {
      void *p = mem.get();
      switch ( fr.rep )
      {
#define ADD( R, T )                                                                                                  \
   case R:                                                                                                           \
      out.emplace_back( imf, path, static_cast<T *>( p ), cap, fr.conv, fr.scal, stride );                           \
      break;
         ADD( RI8, int8_t )
         ADD( RU8, uint8_t )
         ADD( RI16, int16_t )
         ADD( RU16, uint16_t )
         ADD( RI32, int32_t )
         ADD( RU32, uint32_t )
         ADD( RI64, int64_t )
         ADD( RBool, bool )
         ADD( RR32, float )
         ADD( RR64, double )
#undef ADD
         case RStr:
            out.emplace_back( imf, path, &strs );
            break;
      }
   }

   // ------------------------------------------------------------------ nodes
   e57::Node makeLibNode( ImageFile &imf, const DNode &n )
   {
      switch ( n.kind )
      {
         case KStruct:
         {
            StructureNode s( imf );
            for ( auto &x : n.ch )
            {
               s.set( x->name, makeLibNode( imf, *x ) );
            }
            return s;
         }
         case KVec:
         {
            VectorNode v( imf, n.hetero );
            for ( auto &x : n.ch )
            {
               v.append( makeLibNode( imf, *x ) );
            }
            return v;
         }
         case KInt:
            if ( n.ctorStyle == 1 && n.imin == INT64_MIN && n.imax == INT64_MAX )
            {
               return IntegerNode( imf, n.iv );
            }
            return IntegerNode( imf, n.iv, n.imin, n.imax );
         case KScaled:
            return ScaledIntegerNode( imf, n.iv, n.imin, n.imax, n.scale, n.offset );
         case KFloat:
            return FloatNode( imf, n.fv, n.single ? PrecisionSingle : PrecisionDouble, n.fmin, n.fmax );
         case KString:
            return StringNode( imf, n.sv );
         case KBlob:
            return BlobNode( imf, int64_t( n.blob.size() ) );
         case KCV:
            return CompressedVectorNode( imf, makeLibNode( imf, *n.proto ), static_cast<VectorNode>( makeLibNode( imf, *n.codecs ) ) );
      }
      throw HarnessError{ "node kind" };
   }

   // ------------------------------------------------------------------ writing
   WriteSession::WriteSession( Doc &d, std::string path ) : doc_( d ), path_( std::move( path ) )
   {
   }
   WriteSession::~WriteSession()
   {
      destroy();
   }
   void WriteSession::destroy( unsigned order )
   {
      Res r = lib( [&] {
         if ( order == 1 )
         {
            imf_.reset(); // the file handle goes first; node and writer handles do not keep it
         }
         else if ( order == 2 )
         {
            h_.clear();
            imf_.reset();
         }
         writer_.reset();
         h_.clear();
         imf_.reset();
      } );
      wbufs.clear();
      oldBufs_.clear();
      wnode = nullptr;
      if ( !r.ok )
      {
         fail( "destroying handles threw " + resStr( r ) );
      }
   }
   Res WriteSession::open()
   {
      trace( "open %s for writing", path_.c_str() );
      return lib( [&] { imf_.reset( new ImageFile( path_, "w" ) ); } );
   }
   e57::Node *WriteSession::handle( DNode *n )
   {
      auto it = h_.find( n );
      return it == h_.end() ? nullptr : it->second.get();
   }
   std::string WriteSession::where() const
   {
      if ( pos_ >= doc_.steps.size() )
      {
         return "at the end of the session";
      }
      static const char *n[] = { "extensionsAdd", "create element", "attach element", "blob access", "open record writer",
                                 "write records", "close record writer", "read back records" };
      return strf( "at step %zu (%s)", pos_, n[doc_.steps[pos_].op] );
   }
   Res WriteSession::step()
   {
      const Step &s = doc_.steps[pos_];
      Res r;
      switch ( s.op )
      {
         case SExt:
            r = lib( [&] { imf_->extensionsAdd( doc_.exts[s.k].prefix, doc_.exts[s.k].uri ); } );
            break;
         case SCreate:
         {
            std::unique_ptr<Node> nn;
            r = lib( [&] {
               if ( s.n->kind == KStruct )
               {
                  nn.reset( new Node( StructureNode( *imf_ ) ) );
               }
               else if ( s.n->kind == KVec )
               {
                  nn.reset( new Node( VectorNode( *imf_, s.n->hetero ) ) );
               }
               else
               {
                  nn.reset( new Node( makeLibNode( *imf_, *s.n ) ) );
               }
            } );
            if ( r.ok )
            {
               h_[s.n] = std::move( nn );
               if ( s.n->kind == KBlob )
               {
                  blobNow_[s.n].assign( s.n->blob.size(), 0 );
               }
            }
            break;
         }
         case SAttach:
            r = lib( [&] {
               Node &me = *h_.at( s.n );
               if ( s.parent == doc_.root.get() )
               {
                  imf_->root().set( s.n->name, me );
               }
               else if ( s.parent->kind == KStruct )
               {
                  StructureNode( *h_.at( s.parent ) ).set( s.n->name, me );
               }
               else
               {
                  VectorNode( *h_.at( s.parent ) ).append( me );
               }
            } );
            break;
         case SBlobOp:
         {
            const BlobOp &op = s.n->blobOps[s.k];
            auto &now = blobNow_[s.n];
            std::unique_ptr<uint8_t[]> b( new uint8_t[op.len] );
            if ( op.isWrite )
            {
               Rng rg( op.seed );
               for ( uint64_t i = 0; i < op.len; i++ )
               {
                  b[i] = uint8_t( rg.next() );
               }
               r = lib( [&] { BlobNode( *h_.at( s.n ) ).write( b.get(), int64_t( op.start ), size_t( op.len ) ); } );
               if ( r.ok )
               {
                  memcpy( now.data() + op.start, b.get(), op.len );
               }
            }
            else
            {
               memset( b.get(), 0xEE, op.len );
               r = lib( [&] { BlobNode( *h_.at( s.n ) ).read( b.get(), int64_t( op.start ), size_t( op.len ) ); } );
               if ( r.ok && memcmp( b.get(), now.data() + op.start, op.len ) && readMismatch.empty() )
               {
                  readMismatch = strf( "blob read [%llu,+%llu) within the writing session returned other bytes than last written",
                                       (unsigned long long)op.start, (unsigned long long)op.len );
               }
            }
            break;
         }
         case SOpenWriter:
         {
            wnode = s.n;
            wpos = 0;
            if ( writer_ )
            {
               oldBufs_.push_back( std::move( wbufs ) ); // its close failed, so it may still use them
            }
            wbufs.clear();
            for ( auto k : s.n->worder )
            {
               RBuf b;
               b.path = s.n->leafPaths[k];
               b.leaf = s.n->leaves[k];
               b.col = k;
               b.fr = s.n->wreps[k];
               b.alloc( s.n->wcap );
               wbufs.push_back( std::move( b ) );
            }
            r = lib( [&] {
               std::vector<SourceDestBuffer> sb;
               for ( auto &b : wbufs )
               {
                  b.add( *imf_, sb );
               }
               writer_.reset( new CompressedVectorWriter( CompressedVectorNode( *h_.at( s.n ) ).writer( sb ) ) );
            } );
            break;
         }
         case SWriteBatch:
         {
            uint32_t n = s.n->batches[s.k];
            bool fresh = ( s.n->batchStyle & 1 ) && s.k > 0;
            if ( fresh )
            {
               std::vector<RBuf> nb;
               for ( auto &o : wbufs )
               {
                  RBuf b;
                  b.path = o.path;
                  b.leaf = o.leaf;
                  b.col = o.col;
                  b.fr = o.fr;
                  b.alloc( o.cap );
                  nb.push_back( std::move( b ) );
               }
               oldBufs_.push_back( std::move( wbufs ) );
               wbufs = std::move( nb );
            }
            for ( auto &b : wbufs )
            {
               for ( uint32_t i = 0; i < n; i++ )
               {
                  b.store( i, *b.leaf, s.n->cols[b.col], wpos + i );
               }
            }
            r = lib( [&] {
               if ( !writer_ )
               {
                  throw std::out_of_range( "no writer" );
               }
               if ( fresh )
               {
                  std::vector<SourceDestBuffer> sb;
                  for ( auto &b : wbufs )
                  {
                     b.add( *imf_, sb );
                  }
                  writer_->write( sb, n );
               }
               else
               {
                  writer_->write( n );
               }
            } );
            // the data must have been taken over by the call
            for ( auto &b : wbufs )
            {
               b.fillPattern( 0 );
            }
            if ( r.ok )
            {
               wpos += n;
            }
            break;
         }
         case SCloseWriter:
            r = lib( [&] {
               if ( !writer_ )
               {
                  throw std::out_of_range( "no writer" );
               }
               writer_->close();
               writer_.reset();
            } );
            if ( r.ok )
            {
               wbufs.clear();
               oldBufs_.clear();
               wnode = nullptr;
            }
            break;
         case SReadBack:
         {
            Choices q = Choices::quiet( s.n->writeSeed );
            Res e;
            std::unique_ptr<CompressedVectorNode> cv;
            r = lib( [&] { cv.reset( new CompressedVectorNode( *h_.at( s.n ) ) ); } );
            if ( r.ok )
            {
               std::string m = verifyCV( *imf_, *cv, *s.n, &q, e );
               r = e;
               if ( r.ok && !m.empty() && readMismatch.empty() )
               {
                  readMismatch = "reading back within the writing session: " + m;
               }
            }
            lib( [&] { cv.reset(); } );
            break;
         }
      }
      if ( g_traceOn )
      {
         static const char *nm[] = { "extensionsAdd", "create", "attach", "blobOp", "openWriter", "writeBatch", "closeWriter", "readBack" };
         trace( "  step %zu %s %s k=%u -> %s", pos_, nm[s.op], s.n ? s.n->name.c_str() : "", s.k, resStr( r ).c_str() );
      }
      if ( r.ok )
      {
         ++pos_;
      }
      return r;
   }
   Res WriteSession::close()
   {
      Res r = lib( [&] { imf_->close(); } );
      trace( "close -> %s", resStr( r ).c_str() );
      return r;
   }
   Res WriteSession::cancel()
   {
      Res r = lib( [&] { imf_->cancel(); } );
      trace( "cancel -> %s", resStr( r ).c_str() );
      return r;
   }
   Res WriteSession::runAll()
   {
      Res r = open();
      while ( r.ok && more() )
      {
         r = step();
      }
      if ( r.ok )
      {
         r = close();
      }
      return r;
   }

   // ------------------------------------------------------------------ verification
#define LIBQ( EXPR )                                                                                                 \
   do                                                                                                                \
   {                                                                                                                 \
      err = lib( [&] { EXPR; } );                                                                                    \
      if ( !err.ok )                                                                                                 \
      {                                                                                                              \
         return "";                                                                                                  \
      }                                                                                                              \
   } while ( 0 )

   std::string verifyCV( ImageFile &imf, CompressedVectorNode cv, DNode &n, Choices *c, Res &err )
   {
      int64_t cnt = 0;
      LIBQ( cnt = cv.childCount() );
      if ( cnt != int64_t( n.nrec ) )
      {
         return strf( "record count %lld, expected %llu", (long long)cnt, (unsigned long long)n.nrec );
      }
      Choices plain = Choices::quiet( 7 );
      unsigned passes = c ? 1 + c->draw( 2 ) : 1;
      for ( unsigned pass = 0; pass < passes; pass++ )
      {
         std::vector<unsigned> fields;
         for ( unsigned i = 0; i < n.leaves.size(); i++ )
         {
            fields.push_back( i );
         }
         if ( c && c->chance( 1, 2 ) )
         {
            Rng r( c->sub() );
            for ( size_t i = fields.size(); i > 1; i-- )
            {
               std::swap( fields[i - 1], fields[r.below( i )] );
            }
            if ( c->chance( 1, 2 ) )
            {
               fields.resize( 1 + c->draw( fields.size() ) );
            }
         }
         std::vector<FieldRep> reps;
         for ( auto f : fields )
         {
            reps.push_back( c ? drawRep( *c, *n.leaves[f], n.cols[f], true, false ) : drawRep( plain, *n.leaves[f], n.cols[f], true, true ) );
         }
         uint64_t cap = n.nrec + 1;
         if ( c )
         {
            switch ( c->draw( 5 ) )
            {
               case 0:
                  cap = std::max<uint64_t>( 1, n.nrec );
                  break;
               case 1:
                  cap = 1 + c->draw( 8 );
                  break;
               case 2:
                  cap = 1 + c->draw( n.nrec + 3 );
                  break;
               case 3:
                  cap = 1 + c->draw( 130 );
                  break;
               default:
                  break;
            }
         }
         cap = std::max<uint64_t>( cap, n.nrec / 500 + 1 );
         unsigned style = c ? c->draw( 3 ) : 0; // 0: same buffers, 1: new buffers every call, 2: mixed
         auto make = [&]( std::vector<RBuf> &v ) {
            v.clear();
            for ( size_t i = 0; i < fields.size(); i++ )
            {
               RBuf b;
               b.path = n.leafPaths[fields[i]];
               b.leaf = n.leaves[fields[i]];
               b.col = fields[i];
               b.fr = reps[i];
               b.alloc( cap );
               v.push_back( std::move( b ) );
            }
         };
         std::vector<RBuf> bufs;
         std::vector<std::vector<RBuf>> old;
         make( bufs );
         std::unique_ptr<CompressedVectorReader> rd;
         err = lib( [&] {
            std::vector<SourceDestBuffer> sb;
            for ( auto &b : bufs )
            {
               b.add( imf, sb );
            }
            rd.reset( new CompressedVectorReader( cv.reader( sb ) ) );
         } );
         if ( !err.ok )
         {
            return "";
         }
         std::string bad;
         uint64_t pos = 0;
         unsigned call = 0;
         for ( ;; )
         {
            bool fresh = call > 0 && ( style == 1 || ( style == 2 && ( call & 1 ) ) );
            if ( fresh )
            {
               old.push_back( std::move( bufs ) );
               make( bufs );
               if ( old.size() > 2 )
               {
                  old.erase( old.begin() );
               }
            }
            for ( auto &b : bufs )
            {
               b.fillPattern( 0xA5 );
            }
            unsigned got = 0;
            err = lib( [&] {
               if ( fresh )
               {
                  std::vector<SourceDestBuffer> sb;
                  for ( auto &b : bufs )
                  {
                     b.add( imf, sb );
                  }
                  got = rd->read( sb );
               }
               else
               {
                  got = rd->read();
               }
            } );
            if ( !err.ok )
            {
               break;
            }
            ev( 0xCEAD, got, pos );
            uint64_t want = std::min<uint64_t>( cap, n.nrec - pos );
            if ( got != want )
            {
               bad = strf( "read call %u at record %llu of %llu returned %u records, expected %llu (capacity %llu)", call,
                           (unsigned long long)pos, (unsigned long long)n.nrec, got, (unsigned long long)want, (unsigned long long)cap );
               break;
            }
            for ( auto &b : bufs )
            {
               for ( unsigned i = 0; i < got && bad.empty(); i++ )
               {
                  bad = b.check( i, *b.leaf, n.cols[b.col], pos + i );
               }
               if ( bad.empty() )
               {
                  bad = b.checkGaps( 0xA5 );
               }
            }
            if ( !bad.empty() )
            {
               bad += strf( " [read call %u, capacity %llu]", call, (unsigned long long)cap );
               break;
            }
            pos += got;
            call++;
            if ( got == 0 )
            {
               break;
            }
         }
         bool closeIt = !c || c->chance( 1, 2 );
         Res e2 = lib( [&] {
            if ( closeIt && err.ok )
            {
               rd->close();
            }
            rd.reset();
         } );
         if ( !bad.empty() )
         {
            return bad;
         }
         if ( !err.ok )
         {
            return "";
         }
         if ( !e2.ok )
         {
            err = e2;
            return "";
         }
      }
      return "";
   }

   static std::string cmpFloat( const char *what, double got, double want, bool single )
   {
      bool ok = single ? float( got ) == float( want ) : got == want;
      return ok ? "" : strf( "%s %.17g, expected %.17g", what, got, want );
   }

   std::string verifyNode( ImageFile &imf, const Node &ln, DNode &n, const std::string &path, Choices *c, const VerifyOpts &o, Res &err )
   {
      NodeType t = TypeStructure;
      std::string lp;
      bool att = false;
      LIBQ( t = ln.type(); lp = ln.pathName(); att = ln.isAttached() );
      static const NodeType kt[] = { TypeStructure, TypeVector, TypeInteger, TypeScaledInteger, TypeFloat, TypeString, TypeBlob, TypeCompressedVector };
      if ( t != kt[n.kind] )
      {
         return strf( "%s: element type %d, expected %d", path.c_str(), int( t ), int( kt[n.kind] ) );
      }
      if ( o.paths && lp != path )
      {
         return "path name " + lp + ", expected " + path;
      }
      if ( o.paths && !att )
      {
         return path + ": not attached";
      }
      std::string m;
      switch ( n.kind )
      {
         case KStruct:
         {
            int64_t cc = 0;
            LIBQ( cc = StructureNode( ln ).childCount() );
            if ( cc != int64_t( n.ch.size() ) )
            {
               return strf( "%s: %lld children, expected %zu", path.c_str(), (long long)cc, n.ch.size() );
            }
            for ( size_t i = 0; i < n.ch.size(); i++ )
            {
               std::string en, viaName;
               std::unique_ptr<Node> x;
               LIBQ( x.reset( new Node( StructureNode( ln ).get( int64_t( i ) ) ) ); en = x->elementName();
                     viaName = StructureNode( ln ).isDefined( n.ch[i]->name ) ? StructureNode( ln ).get( n.ch[i]->name ).elementName() : "(undefined)" );
               if ( en != n.ch[i]->name || viaName != n.ch[i]->name )
               {
                  return strf( "%s: child %zu is named %s / %s, expected %s", path.c_str(), i, en.c_str(), viaName.c_str(), n.ch[i]->name.c_str() );
               }
               m = verifyNode( imf, *x, *n.ch[i], path == "/" ? "/" + n.ch[i]->name : path + "/" + n.ch[i]->name, c, o, err );
               lib( [&] { x.reset(); } );
               if ( !m.empty() || !err.ok )
               {
                  return m;
               }
            }
            return "";
         }
         case KVec:
         {
            int64_t cc = 0;
            bool het = false;
            LIBQ( cc = VectorNode( ln ).childCount(); het = VectorNode( ln ).allowHeteroChildren() );
            if ( cc != int64_t( n.ch.size() ) || het != n.hetero )
            {
               return strf( "%s: %lld children, heterogeneous %d, expected %zu, %d", path.c_str(), (long long)cc, het, n.ch.size(), n.hetero );
            }
            for ( size_t i = 0; i < n.ch.size(); i++ )
            {
               std::unique_ptr<Node> x;
               std::string en;
               LIBQ( x.reset( new Node( VectorNode( ln ).get( int64_t( i ) ) ) ); en = x->elementName() );
               if ( en != std::to_string( i ) )
               {
                  return strf( "%s: vector child %zu named %s", path.c_str(), i, en.c_str() );
               }
               m = verifyNode( imf, *x, *n.ch[i], path + "/" + std::to_string( i ), c, o, err );
               lib( [&] { x.reset(); } );
               if ( !m.empty() || !err.ok )
               {
                  return m;
               }
            }
            return "";
         }
         case KInt:
         {
            int64_t v = 0, lo = 0, hi = 0;
            LIBQ( IntegerNode i( ln ); v = i.value(); lo = i.minimum(); hi = i.maximum() );
            if ( v != n.iv || lo != n.imin || hi != n.imax )
            {
               return strf( "%s: integer %lld [%lld,%lld], expected %lld [%lld,%lld]", path.c_str(), (long long)v, (long long)lo,
                            (long long)hi, (long long)n.iv, (long long)n.imin, (long long)n.imax );
            }
            return "";
         }
         case KScaled:
         {
            int64_t v = 0, lo = 0, hi = 0;
            double sc = 0, of = 0, sv = 0;
            LIBQ( ScaledIntegerNode i( ln ); v = i.rawValue(); lo = i.minimum(); hi = i.maximum(); sc = i.scale(); of = i.offset(); sv = i.scaledValue() );
            if ( v != n.iv || lo != n.imin || hi != n.imax || sc != n.scale || of != n.offset )
            {
               return strf( "%s: scaled integer %lld [%lld,%lld] scale %.17g offset %.17g, expected %lld [%lld,%lld] %.17g %.17g", path.c_str(),
                            (long long)v, (long long)lo, (long long)hi, sc, of, (long long)n.iv, (long long)n.imin, (long long)n.imax, n.scale, n.offset );
            }
            long double x = (long double)n.iv * n.scale + n.offset;
            long double mag = fabsl( (long double)n.iv * n.scale ) + fabsl( n.offset ) + 1e-300L;
            if ( fabsl( sv - x ) > mag * 1e-14L )
            {
               return strf( "%s: scaled value %.17g, expected %.17Lg", path.c_str(), sv, x );
            }
            return "";
         }
         case KFloat:
         {
            double v = 0, lo = 0, hi = 0;
            FloatPrecision p = PrecisionDouble;
            LIBQ( FloatNode f( ln ); v = f.value(); lo = f.minimum(); hi = f.maximum(); p = f.precision() );
            if ( ( p == PrecisionSingle ) != n.single )
            {
               return path + ": wrong float precision";
            }
            m = cmpFloat( "float value", v, n.fv, n.single );
            if ( m.empty() )
            {
               m = cmpFloat( "float minimum", lo, n.fmin, n.single );
            }
            if ( m.empty() )
            {
               m = cmpFloat( "float maximum", hi, n.fmax, n.single );
            }
            return m.empty() ? "" : path + ": " + m;
         }
         case KString:
         {
            bool eq = false;
            size_t len = 0;
            LIBQ( std::string s = StringNode( ln ).value(); eq = s == n.sv; len = s.size() );
            return eq ? "" : strf( "%s: string of length %zu differs from the one written (length %zu)", path.c_str(), len, n.sv.size() );
         }
         case KBlob:
         {
            int64_t bc = 0;
            LIBQ( bc = BlobNode( ln ).byteCount() );
            if ( bc != int64_t( n.blob.size() ) )
            {
               return strf( "%s: blob of %lld bytes, expected %zu", path.c_str(), (long long)bc, n.blob.size() );
            }
            uint64_t pos = 0;
            uint64_t chunk = c && c->chance( 1, 2 ) ? 1 + c->draw( n.blob.size() + 1 ) : n.blob.size();
            chunk = std::max<uint64_t>( chunk, n.blob.size() / 50 + 1 );
            while ( pos < n.blob.size() )
            {
               uint64_t k = std::min<uint64_t>( chunk, n.blob.size() - pos );
               std::unique_ptr<uint8_t[]> b( new uint8_t[k] );
               memset( b.get(), 0xEE, k );
               LIBQ( BlobNode( ln ).read( b.get(), int64_t( pos ), size_t( k ) ) );
               if ( memcmp( b.get(), n.blob.data() + pos, k ) )
               {
                  return strf( "%s: blob bytes [%llu,+%llu) differ", path.c_str(), (unsigned long long)pos, (unsigned long long)k );
               }
               pos += k;
            }
            return "";
         }
         case KCV:
         {
            std::unique_ptr<Node> pr, co;
            LIBQ( pr.reset( new Node( CompressedVectorNode( ln ).prototype() ) ); co.reset( new Node( CompressedVectorNode( ln ).codecs() ) ) );
            VerifyOpts vo = o;
            vo.paths = false;
            // default-valued prototype fields keep type and bounds
            m = verifyNode( imf, *pr, *n.proto, path + "<prototype>", c, vo, err );
            if ( m.empty() && err.ok )
            {
               m = verifyNode( imf, *co, *n.codecs, path + "<codecs>", c, vo, err );
            }
            lib( [&] {
               pr.reset();
               co.reset();
            } );
            if ( !m.empty() || !err.ok )
            {
               return m;
            }
            m = verifyCV( imf, CompressedVectorNode( ln ), n, c, err );
            return m.empty() ? "" : path + ": " + m;
         }
      }
      return "";
   }

   std::string verifyFile( ImageFile &imf, Doc &d, Choices *c, const VerifyOpts &o, Res &err )
   {
      size_t cnt = 0;
      LIBQ( cnt = imf.extensionsCount() );
      bool dflt = false;
      size_t seen = 0;
      for ( size_t i = 0; i < cnt; i++ )
      {
         std::string p, u, lu, lp;
         bool f1 = false, f2 = false;
         LIBQ( p = imf.extensionsPrefix( i ); u = imf.extensionsUri( i ); f1 = imf.extensionsLookupPrefix( p, lu ); f2 = imf.extensionsLookupUri( u, lp ) );
         if ( !f1 || !f2 || lu != u || lp != p )
         {
            return "extension lookup of " + p + " inconsistent";
         }
         if ( p.empty() )
         {
            dflt = true;
            continue;
         }
         bool found = false;
         for ( auto &e : d.exts )
         {
            found = found || ( e.prefix == p && e.uri == u );
         }
         if ( !found )
         {
            return "unexpected extension " + p + "=" + u;
         }
         seen++;
      }
      (void)dflt;
      if ( seen != d.exts.size() )
      {
         return strf( "%zu extensions, expected %zu", seen, d.exts.size() );
      }
      std::unique_ptr<Node> root;
      LIBQ( root.reset( new Node( imf.root() ) ) );
      std::string m = verifyNode( imf, *root, *d.root, "/", c, o, err );
      lib( [&] { root.reset(); } );
      return m;
   }

   std::string openAndVerify( const std::string &path, Doc &d, Choices *c, Res &err, int policy )
   {
      std::unique_ptr<ImageFile> imf;
      trace( "open %s for reading and verify", path.c_str() );
      err = lib( [&] { imf.reset( new ImageFile( path, "r", policy ) ); } );
      if ( !err.ok )
      {
         return "";
      }
      std::string m = verifyFile( *imf, d, c, VerifyOpts(), err );
      Res e2 = lib( [&] {
         if ( !c || c->chance( 1, 2 ) )
         {
            imf->close();
         }
         imf.reset();
      } );
      if ( m.empty() && err.ok && !e2.ok )
      {
         err = e2;
      }
      return m;
   }

   // ------------------------------------------------------------------ generic dump
   namespace
   {
      struct Dumper
      {
         ImageFile &imf;
         const DumpOpts &o;
         Dump &d;
         uint32_t nodes = 0;
         bool stop = false;

         template <class F> bool q( const std::string &what, F &&f )
         {
            if ( stop )
            {
               return false;
            }
            Obs ob;
            ob.what = what;
            Res r = lib( [&] { f( ob.val ); } );
            ob.ok = r.ok;
            ob.err = r.err;
            ob.foreign = r.foreign;
            ob.detail = r.what;
            if ( !r.ok )
            {
               ob.val.clear();
               if ( o.stopAtError )
               {
                  stop = true;
               }
            }
            ob.val = std::string( ob.val.data(), ob.val.size() ); // harness-owned copy
            evs( ob.val );
            trace( "    %s -> %s", what.c_str(), ob.ok ? ob.val.substr( 0, 100 ).c_str() : resStr( r ).c_str() );
            d.obs.push_back( std::move( ob ) );
            return r.ok;
         }

         struct Leaf
         {
            std::string path;
            NodeType t;
            bool single;
         };
         void leaves( const Node &n, const std::string &path, std::vector<Leaf> &out, int depth )
         {
            if ( depth > 200 || out.size() > 2000 )
            {
               return;
            }
            NodeType t = TypeStructure;
            int64_t cc = 0;
            Res r = lib( [&] {
               t = n.type();
               if ( t == TypeStructure )
               {
                  cc = StructureNode( n ).childCount();
               }
               else if ( t == TypeVector )
               {
                  cc = VectorNode( n ).childCount();
               }
            } );
            if ( !r.ok )
            {
               return;
            }
            if ( t == TypeStructure || t == TypeVector )
            {
               for ( int64_t i = 0; i < cc; i++ )
               {
                  std::unique_ptr<Node> x;
                  std::string en;
                  r = lib( [&] {
                     x.reset( new Node( t == TypeStructure ? StructureNode( n ).get( i ) : VectorNode( n ).get( i ) ) );
                     en = x->elementName();
                  } );
                  if ( r.ok )
                  {
                     leaves( *x, path.empty() ? en : path + "/" + en, out, depth + 1 );
                  }
                  lib( [&] { x.reset(); } );
               }
               return;
            }
            bool single = false;
            if ( t == TypeFloat )
            {
               lib( [&] { single = FloatNode( n ).precision() == PrecisionSingle; } );
            }
            out.push_back( { path, t, single } );
         }

         void cv( const CompressedVectorNode &cvn, const std::string &path )
         {
            int64_t cnt = 0;
            if ( !q( path + ".count", [&]( std::string &v ) {
                    cnt = cvn.childCount();
                    v = std::to_string( cnt );
                 } ) )
            {
               return;
            }
            std::unique_ptr<Node> pr, co;
            if ( q( path + ".prototype", [&]( std::string & ) { pr.reset( new Node( cvn.prototype() ) ); } ) )
            {
               node( *pr, path + ".proto" );
            }
            if ( q( path + ".codecs", [&]( std::string & ) { co.reset( new Node( cvn.codecs() ) ); } ) )
            {
               node( *co, path + ".codec" );
            }
            std::vector<Leaf> ls;
            if ( pr )
            {
               leaves( *pr, "", ls, 0 );
            }
            std::vector<RBuf> bufs;
            for ( auto &l : ls )
            {
               RBuf b;
               b.path = l.path;
               switch ( l.t )
               {
                  case TypeFloat:
                     b.fr.rep = l.single ? RR32 : RR64;
                     break;
                  case TypeString:
                     b.fr.rep = RStr;
                     break;
                  case TypeInteger:
                  case TypeScaledInteger:
                     b.fr.rep = RI64;
                     break;
                  default:
                     continue;
               }
               b.alloc( o.chunk );
               bufs.push_back( std::move( b ) );
            }
            if ( !bufs.empty() )
            {
               std::unique_ptr<CompressedVectorReader> rd;
               if ( q( path + ".reader", [&]( std::string & ) {
                       std::vector<SourceDestBuffer> sb;
                       for ( auto &b : bufs )
                       {
                          b.add( imf, sb );
                       }
                       CompressedVectorNode c2( cvn );
                       rd.reset( new CompressedVectorReader( c2.reader( sb ) ) );
                    } ) )
               {
                  uint64_t pos = 0;
                  for ( ;; )
                  {
                     for ( auto &b : bufs )
                     {
                        b.fillPattern( 0 );
                     }
                     unsigned got = 0;
                     bool ok = q( path + strf( ".rec@%llu", (unsigned long long)pos ), [&]( std::string &v ) {
                        got = rd->read();
                        uint64_t h = 0;
                        for ( auto &b : bufs )
                        {
                           for ( unsigned i = 0; i < got && i < b.cap; i++ )
                           {
                              h = mix( h, b.hashValue( i ) );
                           }
                        }
                        v = strf( "%u:%016llx", got, (unsigned long long)h );
                     } );
                     if ( !ok || got == 0 )
                     {
                        break;
                     }
                     if ( got > o.chunk )
                     {
                        fail( strf( "reader claims %u records for a buffer of %u", got, o.chunk ) );
                     }
                     pos += got;
                     if ( pos > o.maxRecords )
                     {
                        break;
                     }
                  }
                  q( path + ".rclose", [&]( std::string & ) { rd->close(); } );
                  Res r = lib( [&] { rd.reset(); } );
                  (void)r;
               }
            }
            lib( [&] {
               pr.reset();
               co.reset();
            } );
         }

         unsigned depth = 0;
         void node( const Node &n, const std::string &path )
         {
            if ( stop || depth > 60 || ++nodes > o.maxNodes )
            {
               return;
            }
            struct Deeper
            {
               unsigned &d;
               ~Deeper()
               {
                  d--;
               }
            } deeper{ ++depth };
            NodeType t = TypeStructure;
            if ( !q( path + ".type", [&]( std::string &v ) {
                    t = n.type();
                    v = std::to_string( int( t ) ) + n.elementName();
                 } ) )
            {
               return;
            }
            switch ( t )
            {
               case TypeStructure:
               case TypeVector:
               {
                  int64_t cc = 0;
                  if ( !q( path + ".children", [&]( std::string &v ) {
                          cc = t == TypeStructure ? StructureNode( n ).childCount() : VectorNode( n ).childCount();
                          v = std::to_string( cc );
                          if ( t == TypeVector )
                          {
                             v += VectorNode( n ).allowHeteroChildren() ? "h" : "o";
                          }
                       } ) )
                  {
                     return;
                  }
                  for ( int64_t i = 0; i < cc && !stop; i++ )
                  {
                     std::unique_ptr<Node> x;
                     if ( q( path + strf( ".%lld", (long long)i ), [&]( std::string & ) {
                             x.reset( new Node( t == TypeStructure ? StructureNode( n ).get( i ) : VectorNode( n ).get( i ) ) );
                          } ) )
                     {
                        node( *x, path + strf( "/%lld", (long long)i ) );
                     }
                     lib( [&] { x.reset(); } );
                  }
                  break;
               }
               case TypeInteger:
                  q( path + ".value", [&]( std::string &v ) {
                     IntegerNode i( n );
                     v = strf( "%lld %lld %lld", (long long)i.value(), (long long)i.minimum(), (long long)i.maximum() );
                  } );
                  break;
               case TypeScaledInteger:
                  q( path + ".value", [&]( std::string &v ) {
                     ScaledIntegerNode i( n );
                     v = strf( "%lld %lld %lld %s %s", (long long)i.rawValue(), (long long)i.minimum(), (long long)i.maximum(), bits( i.scale() ).c_str(),
                               bits( i.offset() ).c_str() );
                  } );
                  break;
               case TypeFloat:
                  q( path + ".value", [&]( std::string &v ) {
                     FloatNode i( n );
                     v = strf( "%s %s %s %d", bits( i.value() ).c_str(), bits( i.minimum() ).c_str(), bits( i.maximum() ).c_str(), int( i.precision() ) );
                  } );
                  break;
               case TypeString:
                  q( path + ".value", [&]( std::string &v ) { v = StringNode( n ).value(); } );
                  break;
               case TypeBlob:
               {
                  int64_t bc = 0;
                  if ( !q( path + ".bytes", [&]( std::string &v ) {
                          bc = BlobNode( n ).byteCount();
                          v = std::to_string( bc );
                       } ) )
                  {
                     return;
                  }
                  std::unique_ptr<uint8_t[]> buf( new uint8_t[4096] );
                  int64_t pos = 0;
                  while ( pos < bc && uint64_t( pos ) < o.maxBlob && !stop )
                  {
                     size_t k = size_t( std::min<int64_t>( 4096, bc - pos ) );
                     if ( !q( path + strf( ".blob@%lld", (long long)pos ), [&]( std::string &v ) {
                             BlobNode( n ).read( buf.get(), pos, k );
                             v = strf( "%016llx", (unsigned long long)hashBytes( buf.get(), k ) );
                          } ) )
                     {
                        break;
                     }
                     pos += int64_t( k );
                  }
                  break;
               }
               case TypeCompressedVector:
                  cv( CompressedVectorNode( n ), path );
                  break;
            }
         }
      };
   }

   void dumpOpen( ImageFile &imf, const DumpOpts &o, Dump &d )
   {
      Dumper du{ imf, o, d };
      du.q( "extensions", [&]( std::string &v ) {
         size_t n = imf.extensionsCount();
         for ( size_t i = 0; i < n; i++ )
         {
            v += imf.extensionsPrefix( i ) + "=" + imf.extensionsUri( i ) + ";";
         }
      } );
      std::unique_ptr<Node> root;
      if ( du.q( "root", [&]( std::string & ) { root.reset( new Node( imf.root() ) ); } ) )
      {
         du.node( *root, "" );
      }
      lib( [&] { root.reset(); } );
   }
   static Dump dumpWith( const std::function<ImageFile *()> &mk, const DumpOpts &o )
   {
      Dump d;
      std::unique_ptr<ImageFile> imf;
      d.openRes = lib( [&] { imf.reset( mk() ); } );
      trace( "  open -> %s", resStr( d.openRes ).c_str() );
      if ( !d.openRes.ok )
      {
         return d;
      }
      d.opened = true;
      dumpOpen( *imf, o, d );
      Res r = lib( [&] { imf->close(); } );
      Obs ob{ "close", r.ok, r.err, r.foreign, "", r.what };
      d.obs.push_back( ob );
      r = lib( [&] { imf.reset(); } );
      if ( !r.ok )
      {
         fail( "destroying a file handle threw " + resStr( r ) );
      }
      return d;
   }
   Dump dumpFile( const std::string &path, const DumpOpts &o )
   {
      return dumpWith( [&] { return new ImageFile( path, "r", o.policy ); }, o );
   }
   Dump dumpBuffer( const char *buf, uint64_t size, const DumpOpts &o )
   {
      return dumpWith( [&] { return new ImageFile( buf, size, o.policy ); }, o );
   }
   std::string compareDump( const Dump &ref, const Dump &got, bool requireAll )
   {
      if ( !got.opened )
      {
         return requireAll ? "open failed: " + resStr( got.openRes ) : "";
      }
      std::map<std::string, const Obs *> m;
      for ( auto &o : ref.obs )
      {
         m[o.what] = &o;
      }
      size_t okCount = 0;
      for ( auto &o : got.obs )
      {
         if ( !o.ok )
         {
            if ( requireAll )
            {
               return o.what + " failed: " + strf( "%d %s", o.err, o.detail.substr( 0, 100 ).c_str() );
            }
            continue;
         }
         okCount++;
         auto it = m.find( o.what );
         if ( it == m.end() )
         {
            return "delivered " + o.what + " which does not exist in the original";
         }
         if ( it->second->val != o.val )
         {
            return o.what + " delivered " + o.val.substr( 0, 80 ) + ", original " + it->second->val.substr( 0, 80 );
         }
      }
      if ( requireAll && okCount != ref.obs.size() )
      {
         return strf( "only %zu of %zu observations", okCount, ref.obs.size() );
      }
      return "";
   }
}
