// Generator of document specifications and of the order of API calls that writes them.
#include "doc.h"
#include <algorithm>
#include <cfloat>
#include <climits>
#include <cmath>

namespace sim
{
   const char *repName( MemRep r )
   {
      static const char *n[] = { "int8", "uint8", "int16", "uint16", "int32", "uint32",
                                 "int64", "bool", "float", "double", "string" };
      return n[r];
   }
   size_t repSize( MemRep r )
   {
      static const size_t s[] = { 1, 1, 2, 2, 4, 4, 8, sizeof( bool ), 4, 8, sizeof( std::string ) };
      return s[r];
   }

   std::string seededText( Rng &r, uint32_t len )
   {
      static const char *pieces[] = { "<",    ">",  "&",       "]]>",     "]]",      "\"", "'",  " ",
                                      "\n",   "\t", "\xC3\xA9", "\xE6\xBC\xA2", "&amp;", "]", "<![CDATA[", "-->",
                                      "\xF0\x9F\x98\x80", "%", "  ",  "\\", "\r", "\r\n" };
      std::string s;
      unsigned style = unsigned( r.below( 4 ) );
      while ( s.size() < len )
      {
         if ( style == 0 || ( style == 1 && r.below( 4 ) ) )
         {
            s += char( 'a' + r.below( 26 ) );
         }
         else if ( style == 2 )
         {
            s += char( 0x20 + r.below( 0x5F ) );
         }
         else
         {
            s += pieces[r.below( sizeof pieces / sizeof *pieces )];
         }
      }
      // never cut a multi-byte character
      while ( s.size() > len )
      {
         size_t k = s.size() - 1;
         while ( k > 0 && ( uint8_t( s[k] ) & 0xC0 ) == 0x80 )
         {
            k--;
         }
         s.resize( k );
      }
      while ( s.size() < len )
      {
         s += 'z';
      }
      return s;
   }
   std::string genText( Choices &c, uint32_t maxLen )
   {
      uint32_t len = c.skewed( maxLen );
      if ( !len )
      {
         return "";
      }
      Rng r( c.sub() );
      return seededText( r, len );
   }

   static int64_t inRange( Rng &r, int64_t lo, int64_t hi )
   {
      uint64_t span = uint64_t( hi ) - uint64_t( lo );
      uint64_t d = span == ~0ULL ? r.next() : r.below( span + 1 );
      return int64_t( uint64_t( lo ) + d );
   }

   static void drawBounds( Choices &c, const GenOpts &o, int64_t &lo, int64_t &hi )
   {
      unsigned bits = 0;
      if ( o.wideInts == 1 )
      {
         bits = c.range( 25, 64 );
      }
      else if ( o.wideInts == 2 )
      {
         bits = c.draw( 9 );
      }
      else
      {
         switch ( c.draw( 5 ) )
         {
            case 0:
               bits = c.range( 1, 8 );
               break;
            case 1:
               bits = c.draw( 65 );
               break;
            case 2:
               bits = c.range( 9, 32 );
               break;
            case 3:
            {
               static const unsigned edge[] = { 0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64 };
               bits = edge[c.draw( 13 )];
               break;
            }
            default:
               bits = c.range( 33, 64 );
         }
      }
      uint64_t span = bits == 64 ? ~0ULL : ( 1ULL << bits ) - 1;
      if ( bits && bits < 64 && c.chance( 1, 2 ) )
      {
         // any span that needs exactly this many bits
         Rng r( c.sub() );
         uint64_t low = 1ULL << ( bits - 1 );
         span = low + r.below( span - low + 1 );
      }
      switch ( c.draw( 5 ) )
      {
         case 0:
            lo = span <= uint64_t( INT64_MAX ) ? 0 : INT64_MIN;
            break;
         case 1:
            lo = span <= uint64_t( INT64_MAX ) ? -int64_t( span / 2 ) : INT64_MIN;
            break;
         case 2:
            lo = INT64_MIN;
            break;
         case 3:
            lo = int64_t( uint64_t( INT64_MAX ) - span ); // top of the range
            break;
         default:
         {
            Rng r( c.sub() );
            uint64_t room = ~0ULL - span; // lo may be INT64_MIN .. INT64_MIN+room
            lo = int64_t( uint64_t( INT64_MIN ) + ( room == ~0ULL ? r.next() : r.below( room + 1 ) ) );
         }
      }
      hi = int64_t( uint64_t( lo ) + span );
   }

   static double finiteDouble( Rng &r )
   {
      for ( ;; )
      {
         double d = 0;
         switch ( r.below( 6 ) )
         {
            case 0:
               d = double( int64_t( r.below( 2001 ) ) - 1000 );
               break;
            case 1:
               d = double( int64_t( r.next() ) ) / 1e12;
               break;
            case 2:
            {
               static const double e[] = { 0,       1,        -1,        DBL_MAX, -DBL_MAX,  DBL_MIN,
                                           5e-324,  1e-310,   0.1,       1.0 / 3, 1e100,     -1e-100,
                                           FLT_MAX, -FLT_MAX, 1e22,      1e23,    123456789, 9007199254740993.0 };
               d = e[r.below( sizeof e / sizeof *e )];
               break;
            }
            default:
            {
               uint64_t b = r.next();
               memcpy( &d, &b, 8 );
            }
         }
         if ( std::isfinite( d ) )
         {
            return d;
         }
      }
   }
   static float finiteFloat( Rng &r )
   {
      for ( ;; )
      {
         float f = 0;
         switch ( r.below( 5 ) )
         {
            case 0:
               f = float( int64_t( r.below( 2001 ) ) - 1000 );
               break;
            case 1:
            {
               static const float e[] = { 0, 1, -1, FLT_MAX, -FLT_MAX, FLT_MIN, 1e-45f, 0.1f, 1.0f / 3, 16777217.0f };
               f = e[r.below( sizeof e / sizeof *e )];
               break;
            }
            default:
            {
               uint32_t b = uint32_t( r.next() );
               memcpy( &f, &b, 4 );
            }
         }
         if ( std::isfinite( f ) )
         {
            return f;
         }
      }
   }

   struct Gen
   {
      Choices &c;
      const GenOpts &o;
      Doc &d;
      uint32_t nodes = 0;
      uint64_t nameSeq = 0;

      std::string name( bool inProto )
      {
         static const char *base[] = { "a",   "data3D", "x",  "Z",    "_p",   "guid", "images2D", "n.1",
                                       "e-f", "pose",   "B_", "name", "\xC3\xA9t", "v0",   "cartesianX" };
         std::string s = base[c.draw( sizeof base / sizeof *base )];
         s += std::to_string( nameSeq++ );
         if ( !d.exts.empty() && c.chance( 1, 8 ) )
         {
            s = d.exts[c.draw( d.exts.size() )].prefix + ":" + s;
         }
         (void)inProto;
         return s;
      }

      DPtr leaf( bool inProto )
      {
         auto n = std::make_shared<DNode>();
         n->id = ++nodes;
         size_t k;
         if ( inProto && o.strings == 1 )
         {
            k = c.weighted( { 1, 1, 1, 3 } );
         }
         else if ( inProto && o.strings == -1 )
         {
            k = c.weighted( { 3, 2, 2 } );
         }
         else
         {
            k = c.weighted( { 4, 2, 3, 2 } );
         }
         switch ( k )
         {
            case 0:
            case 1:
            {
               n->kind = k == 0 ? KInt : KScaled;
               drawBounds( c, o, n->imin, n->imax );
               if ( !inProto && c.chance( 1, 4 ) )
               {
                  n->imin = INT64_MIN;
                  n->imax = INT64_MAX;
               }
               Rng r( c.sub() );
               switch ( c.draw( 4 ) )
               {
                  case 0:
                     n->iv = ( n->imin <= 0 && n->imax >= 0 ) ? 0 : n->imin;
                     break;
                  case 1:
                     n->iv = n->imin;
                     break;
                  case 2:
                     n->iv = n->imax;
                     break;
                  default:
                     n->iv = inRange( r, n->imin, n->imax );
               }
               n->ctorStyle = int( c.draw( 2 ) );
               if ( n->kind == KScaled )
               {
                  static const double sc[] = { 1, 0.001, 0.5, 1e-6, 1000, 0.1, -0.25, 3.0, 1e-9, 2.2250738585072014e-308 };
                  static const double of[] = { 0, 1, -1000.5, 1e6, 0.3, 123456.789, -7 };
                  n->scale = sc[c.draw( sizeof sc / sizeof *sc )];
                  n->offset = of[c.draw( sizeof of / sizeof *of )];
               }
               break;
            }
            case 2:
            {
               n->kind = KFloat;
               n->single = c.chance( 1, 2 );
               Rng r( c.sub() );
               auto val = [&]() { return n->single ? double( finiteFloat( r ) ) : finiteDouble( r ); };
               if ( c.chance( 1, 3 ) )
               {
                  double a[3] = { val(), val(), val() };
                  std::sort( a, a + 3 );
                  n->fmin = a[0];
                  n->fv = a[1];
                  n->fmax = a[2];
                  if ( inProto )
                  {
                     n->ctorStyle = 2; // bounded records
                  }
               }
               else
               {
                  n->fmin = n->single ? double( e57::FLOAT_MIN ) : e57::DOUBLE_MIN;
                  n->fmax = n->single ? double( e57::FLOAT_MAX ) : e57::DOUBLE_MAX;
                  n->fv = val();
               }
               break;
            }
            default:
               n->kind = KString;
               n->sv = genText( c, o.maxStr );
         }
         return n;
      }

      // copy of the shape of n with other values
      DPtr sibling( const DNode &n )
      {
         auto m = std::make_shared<DNode>( n );
         m->id = ++nodes;
         m->ch.clear();
         switch ( n.kind )
         {
            case KInt:
            case KScaled:
            {
               Rng r( c.sub() );
               m->iv = inRange( r, n.imin, n.imax );
               break;
            }
            case KString:
               m->sv = genText( c, o.maxStr );
               break;
            default:
               break;
         }
         for ( auto &x : n.ch )
         {
            m->ch.push_back( sibling( *x ) );
         }
         return m;
      }

      void setLate( DNode &n )
      {
         n.attachEarly = false;
         for ( auto &x : n.ch )
         {
            setLate( *x );
         }
      }

      void leavesOf( const DPtr &n, const std::string &path, DNode &cv )
      {
         if ( n->kind == KStruct || n->kind == KVec )
         {
            for ( size_t i = 0; i < n->ch.size(); i++ )
            {
               std::string e = n->kind == KStruct ? n->ch[i]->name : std::to_string( i );
               leavesOf( n->ch[i], path.empty() ? e : path + "/" + e, cv );
            }
         }
         else
         {
            cv.leaves.push_back( n.get() );
            cv.leafPaths.push_back( path );
         }
      }

      void columnData( DNode &leaf, Column &col, uint64_t n )
      {
         Rng r( c.sub() );
         unsigned pat = c.draw( 4 );
         switch ( leaf.kind )
         {
            case KInt:
            case KScaled:
               for ( uint64_t i = 0; i < n; i++ )
               {
                  int64_t v = 0;
                  switch ( pat )
                  {
                     case 0:
                        v = inRange( r, leaf.imin, leaf.imax );
                        break;
                     case 1:
                        v = r.below( 2 ) ? leaf.imin : leaf.imax;
                        break;
                     case 2:
                     {
                        uint64_t span = uint64_t( leaf.imax ) - uint64_t( leaf.imin );
                        v = int64_t( uint64_t( leaf.imin ) + ( span == ~0ULL ? i : i % ( span + 1 ) ) );
                        break;
                     }
                     default:
                        v = r.below( 8 ) ? std::min( leaf.imax, std::max( leaf.imin, int64_t( r.below( 3 ) ) ) )
                                         : inRange( r, leaf.imin, leaf.imax );
                  }
                  col.v.push_back( uint64_t( v ) );
               }
               break;
            case KFloat:
            {
               bool bounded = leaf.ctorStyle == 2;
               unsigned mode = c.draw( 4 ); // 0 small integers, 1 finite, 2 any bits, 3 floats
               if ( mode == 2 && ( bounded || !o.specialFloats ) )
               {
                  mode = 1;
               }
               for ( uint64_t i = 0; i < n; i++ )
               {
                  uint64_t bits = 0;
                  if ( leaf.single )
                  {
                     float f = mode == 0 ? float( int( r.below( 201 ) ) - 100 ) : finiteFloat( r );
                     if ( bounded )
                     {
                        f = std::max( float( leaf.fmin ), std::min( float( leaf.fmax ), f ) );
                     }
                     uint32_t b = 0;
                     memcpy( &b, &f, 4 );
                     if ( mode == 2 )
                     {
                        b = uint32_t( r.next() );
                     }
                     bits = b;
                  }
                  else
                  {
                     double f = mode == 0   ? double( int( r.below( 201 ) ) - 100 )
                                : mode == 3 ? double( finiteFloat( r ) )
                                            : finiteDouble( r );
                     if ( bounded )
                     {
                        f = std::max( leaf.fmin, std::min( leaf.fmax, f ) );
                     }
                     memcpy( &bits, &f, 8 );
                     if ( mode == 2 )
                     {
                        bits = r.next();
                        if ( r.below( 8 ) == 0 )
                        {
                           bits = 0x7FF0000000000000ULL | ( r.next() & 0x800FFFFFFFFFFFFFULL );
                        }
                     }
                  }
                  col.v.push_back( bits );
               }
               break;
            }
            default:
            {
               unsigned style = c.draw( 5 );
               uint64_t budget = 400000;
               for ( uint64_t i = 0; i < n; i++ )
               {
                  uint32_t len = 0;
                  switch ( style )
                  {
                     case 0:
                        len = uint32_t( r.below( 12 ) );
                        break;
                     case 1:
                     {
                        static const uint32_t e[] = { 0, 1, 126, 127, 128, 129, 255, 256 };
                        len = e[r.below( 8 )];
                        break;
                     }
                     case 2:
                        len = uint32_t( r.below( 300 ) );
                        break;
                     case 3:
                        len = r.below( 10 ) ? uint32_t( r.below( 4 ) ) : uint32_t( r.below( 3000 ) );
                        break;
                     default:
                        len = o.bigStrings && r.below( 6 ) == 0 ? uint32_t( 40000 + r.below( 120000 ) )
                                                                : uint32_t( r.below( 30 ) );
                  }
                  if ( len > budget )
                  {
                     len = uint32_t( budget );
                  }
                  budget -= len;
                  // records hold arbitrary bytes, not only text
                  std::string s;
                  if ( r.below( 2 ) )
                  {
                     s = seededText( r, len );
                  }
                  else
                  {
                     s.resize( len );
                     for ( auto &ch : s )
                     {
                        ch = char( r.next() );
                     }
                  }
                  col.s.push_back( s );
               }
            }
         }
      }

      DPtr protoNode( uint32_t fields )
      {
         auto p = std::make_shared<DNode>();
         p->kind = KStruct;
         p->id = ++nodes;
         std::vector<DPtr> open{ p };
         for ( uint32_t i = 0; i < fields; i++ )
         {
            DPtr parent = open[c.draw( open.size() )];
            if ( parent->kind == KStruct && c.chance( 1, 6 ) )
            {
               auto s = std::make_shared<DNode>();
               s->kind = c.chance( 1, 2 ) ? KVec : KStruct;
               s->hetero = true;
               s->id = ++nodes;
               s->name = name( true );
               parent->ch.push_back( s );
               open.push_back( s );
               parent = s;
            }
            auto l = leaf( true );
            l->name = parent->kind == KStruct ? name( true ) : "";
            parent->ch.push_back( l );
         }
         return p;
      }

      DPtr cv()
      {
         auto n = std::make_shared<DNode>();
         n->kind = KCV;
         n->id = ++nodes;
         n->proto = protoNode( c.range( 1, o.maxFields ) );
         leavesOf( n->proto, "", *n );
         n->codecs = std::make_shared<DNode>();
         n->codecs->kind = KVec;
         n->codecs->hetero = true;
         if ( c.chance( 1, 6 ) )
         {
            auto st = std::make_shared<DNode>();
            st->kind = KStruct;
            auto in = std::make_shared<DNode>();
            in->kind = KVec;
            in->name = "inputs";
            auto s = std::make_shared<DNode>();
            s->kind = KString;
            s->sv = n->leafPaths[0];
            in->ch.push_back( s );
            auto bp = std::make_shared<DNode>();
            bp->kind = KStruct;
            bp->name = "bitPackCodec";
            st->ch = { in, bp };
            n->codecs->ch.push_back( st );
         }
         n->nrec = o.minRecords + c.skewed( o.maxRecords > o.minRecords ? o.maxRecords - o.minRecords : 0 );
         n->cols.resize( n->leaves.size() );
         for ( size_t i = 0; i < n->leaves.size(); i++ )
         {
            columnData( *n->leaves[i], n->cols[i], n->nrec );
         }
         // split into write calls
         uint64_t left = n->nrec;
         unsigned style = o.oneBatch ? 0 : o.smallBatches ? 1 : c.draw( 4 );
         uint32_t fixed = c.range( 1, 64 );
         while ( left && n->batches.size() < 400 )
         {
            uint64_t k = 0;
            switch ( style )
            {
               case 0:
                  k = left;
                  break;
               case 1:
                  k = 1 + c.draw( 8 );
                  break;
               case 2:
                  k = fixed;
                  break;
               default:
                  k = 1 + c.draw( left );
            }
            if ( n->batches.size() >= 60 )
            {
               k = left;
            }
            k = std::min( k, left );
            n->batches.push_back( uint32_t( k ) );
            left -= k;
         }
         uint32_t mx = 1;
         for ( auto b : n->batches )
         {
            mx = std::max( mx, b );
         }
         n->wcap = mx + c.draw( 4 );
         n->batchStyle = c.draw( 2 );
         n->writeSeed = c.sub();
         for ( size_t i = 0; i < n->leaves.size(); i++ )
         {
            n->wreps.push_back( drawRep( c, *n->leaves[i], n->cols[i], false, o.plainReps ) );
            n->worder.push_back( uint32_t( i ) );
         }
         if ( c.chance( 1, 2 ) )
         {
            Rng r( c.sub() );
            for ( size_t i = n->worder.size(); i > 1; i-- )
            {
               std::swap( n->worder[i - 1], n->worder[r.below( i )] );
            }
         }
         if ( o.readBacks && c.chance( 1, 4 ) )
         {
            n->readBacks = 1;
         }
         d.cvs.push_back( n.get() );
         d.totalRecords += n->nrec;
         return n;
      }

      DPtr blob()
      {
         auto n = std::make_shared<DNode>();
         n->kind = KBlob;
         n->id = ++nodes;
         uint32_t size;
         switch ( c.draw( 5 ) )
         {
            case 0:
               size = c.draw( 40 );
               break;
            case 1:
               size = c.draw( o.maxBlobSize + 1 );
               break;
            case 2:
               size = 1000 + c.draw( 50 );
               break;
            case 3:
               size = 2030 + c.draw( 30 );
               break;
            default:
               size = c.skewed( o.maxBlobSize );
         }
         size = std::min( size, o.maxBlobSize );
         n->blob.assign( size, 0 );
         uint32_t ops = o.blobIo ? c.skewed( 8 ) : 1;
         for ( uint32_t i = 0; i < ops && size; i++ )
         {
            BlobOp b;
            b.isWrite = i == 0 || !c.chance( 1, 3 );
            if ( c.chance( 1, 3 ) )
            {
               b.start = 0;
               b.len = size;
            }
            else
            {
               b.start = c.draw( size );
               b.len = c.chance( 1, 2 ) ? 1 + c.draw( size - b.start ) : 1 + c.draw( std::min<uint64_t>( 20, size - b.start ) );
            }
            b.seed = c.sub();
            n->blobOps.push_back( b );
         }
         d.blobs.push_back( n.get() );
         return n;
      }

      uint32_t cvLeft = 0, blobLeft = 0;

      DPtr homoVec()
      {
         auto v = std::make_shared<DNode>();
         v->kind = KVec;
         v->hetero = false;
         v->id = ++nodes;
         uint32_t n = c.draw( 5 );
         if ( n )
         {
            DPtr first;
            if ( c.chance( 1, 2 ) )
            {
               first = leaf( false );
            }
            else
            {
               first = std::make_shared<DNode>();
               first->kind = KStruct;
               first->id = ++nodes;
               uint32_t k = 1 + c.draw( 3 );
               for ( uint32_t i = 0; i < k; i++ )
               {
                  auto l = leaf( false );
                  l->name = name( false );
                  first->ch.push_back( l );
               }
            }
            v->ch.push_back( first );
            for ( uint32_t i = 1; i < n; i++ )
            {
               v->ch.push_back( sibling( *first ) );
            }
            for ( auto &x : v->ch )
            {
               setLate( *x );
            }
         }
         return v;
      }

      void fill( DNode &s, uint32_t depth )
      {
         uint32_t n = depth == 0 ? 1 + c.skewed( 9 ) : c.skewed( 5 );
         for ( uint32_t i = 0; i < n && nodes < o.maxNodes; i++ )
         {
            DPtr x;
            size_t k = c.weighted( { 6, 3, 2, 1, uint32_t( cvLeft ? 3 : 0 ), uint32_t( blobLeft ? 2 : 0 ) } );
            if ( depth >= 5 && ( k == 1 || k == 2 ) )
            {
               k = 0;
            }
            switch ( k )
            {
               case 0:
                  x = leaf( false );
                  break;
               case 1:
               case 2:
                  x = std::make_shared<DNode>();
                  x->kind = k == 1 ? KStruct : KVec;
                  x->hetero = true;
                  x->id = ++nodes;
                  x->attachEarly = c.chance( 1, 2 );
                  fill( *x, depth + 1 );
                  break;
               case 3:
                  x = homoVec();
                  break;
               case 4:
                  cvLeft--;
                  x = cv();
                  break;
               default:
                  blobLeft--;
                  x = blob();
            }
            x->name = s.kind == KStruct ? name( false ) : "";
            s.ch.push_back( x );
         }
      }
   };

   std::shared_ptr<Doc> genDoc( Choices &c, const GenOpts &o )
   {
      auto d = std::make_shared<Doc>();
      uint32_t ne = o.exts >= 0 ? uint32_t( o.exts ) : ( c.chance( 1, 3 ) ? 1 + c.draw( 3 ) : 0 );
      for ( uint32_t i = 0; i < ne; i++ )
      {
         static const char *uris[] = { "http://www.example.com/ext", "urn:x-e57:ext", "http://ex.org/a?b=1;c=2#f", "ftp://h/%7Euser/e", "http://e/?a=1&b=<\"q\">'", "urn:tab\tand\nline" };
         d->exts.push_back( { "ext" + std::to_string( i ), uris[c.draw( 6 )] + std::to_string( i ) } );
      }
      Gen g{ c, o, *d };
      d->root = std::make_shared<DNode>();
      d->root->kind = KStruct;
      g.cvLeft = o.forceCV >= 0 ? uint32_t( o.forceCV ) : c.draw( o.maxCV + 1 );
      g.blobLeft = o.forceBlob >= 0 ? uint32_t( o.forceBlob ) : c.draw( o.maxBlob + 1 );
      g.fill( *d->root, 0 );
      // whatever was not placed goes below the root
      while ( o.forceCV > 0 && g.cvLeft )
      {
         g.cvLeft--;
         auto x = g.cv();
         x->name = g.name( false );
         d->root->ch.push_back( x );
      }
      while ( o.forceBlob > 0 && g.blobLeft )
      {
         g.blobLeft--;
         auto x = g.blob();
         x->name = g.name( false );
         d->root->ch.push_back( x );
      }
      // final blob contents
      for ( auto b : d->blobs )
      {
         for ( auto &op : b->blobOps )
         {
            if ( op.isWrite )
            {
               Rng r( op.seed );
               for ( uint64_t i = 0; i < op.len; i++ )
               {
                  b->blob[op.start + i] = uint8_t( r.next() );
               }
            }
         }
      }
      buildSteps( *d, c );
      return d;
   }

   // ---- order of calls
   namespace
   {
      struct Builder
      {
         Doc &d;
         Choices &c;
         std::vector<Step> main;
         void emit( DNode *n, DNode *parent )
         {
            main.push_back( { SCreate, n, parent, 0 } );
            bool container = n->kind == KStruct || n->kind == KVec;
            if ( !container || n->attachEarly )
            {
               main.push_back( { SAttach, n, parent, 0 } );
            }
            if ( container )
            {
               for ( auto &x : n->ch )
               {
                  emit( x.get(), n );
               }
               if ( !n->attachEarly )
               {
                  main.push_back( { SAttach, n, parent, 0 } );
               }
            }
         }
      };
      void collect( DNode *n, std::vector<DNode *> &out )
      {
         if ( n->kind == KBlob || n->kind == KCV )
         {
            out.push_back( n );
         }
         for ( auto &x : n->ch )
         {
            collect( x.get(), out );
         }
      }
   }

   void buildSteps( Doc &d, Choices &c )
   {
      Builder b{ d, c, {} };
      for ( size_t i = 0; i < d.exts.size(); i++ )
      {
         d.steps.push_back( { SExt, nullptr, nullptr, uint32_t( i ) } );
      }
      for ( auto &x : d.root->ch )
      {
         b.emit( x.get(), d.root.get() );
      }
      std::set<DNode *> attached{ d.root.get() };
      std::map<DNode *, bool> created;
      struct Task
      {
         DNode *n;
         std::vector<Step> st;
         size_t pos;
      };
      std::vector<Task> tasks;
      int writerTask = -1;
      size_t mpos = 0;
      auto addTask = [&]( DNode *n ) {
         Task t{ n, {}, 0 };
         if ( n->kind == KBlob )
         {
            for ( uint32_t k = 0; k < n->blobOps.size(); k++ )
            {
               t.st.push_back( { SBlobOp, n, nullptr, k } );
            }
         }
         else
         {
            t.st.push_back( { SOpenWriter, n, nullptr, 0 } );
            for ( uint32_t k = 0; k < n->batches.size(); k++ )
            {
               t.st.push_back( { SWriteBatch, n, nullptr, k } );
            }
            t.st.push_back( { SCloseWriter, n, nullptr, 0 } );
            for ( uint32_t k = 0; k < n->readBacks; k++ )
            {
               t.st.push_back( { SReadBack, n, nullptr, k } );
            }
         }
         if ( !t.st.empty() )
         {
            tasks.push_back( std::move( t ) );
         }
      };
      std::function<void( DNode * )> markAttached = [&]( DNode *n ) {
         attached.insert( n );
         if ( n->kind == KBlob || n->kind == KCV )
         {
            addTask( n );
         }
         for ( auto &x : n->ch )
         {
            if ( created.count( x.get() ) )
            {
               markAttached( x.get() );
            }
         }
      };
      // 0: finish each record set and blob before going on; otherwise interleave
      const bool interleave = c.chance( 1, 2 );
      for ( ;; )
      {
         bool mainLeft = mpos < b.main.size();
         std::vector<int> ready;
         for ( size_t i = 0; i < tasks.size(); i++ )
         {
            auto &t = tasks[i];
            if ( t.pos >= t.st.size() )
            {
               continue;
            }
            StepOp op = t.st[t.pos].op;
            if ( writerTask >= 0 && int( i ) != writerTask && ( op == SOpenWriter || op == SReadBack ) )
            {
               continue;
            }
            ready.push_back( int( i ) );
         }
         bool mainOk = mainLeft;
         if ( mainLeft && writerTask >= 0 && b.main[mpos].op == SCreate && b.main[mpos].n->kind == KBlob )
         {
            mainOk = false; // binary sections cannot be nested
         }
         if ( !mainOk && ready.empty() )
         {
            break;
         }
         bool doMain = mainOk;
         if ( !ready.empty() )
         {
            doMain = mainOk && interleave && c.chance( 1, 3 );
         }
         if ( doMain )
         {
            Step s = b.main[mpos++];
            d.steps.push_back( s );
            created[s.n] = true;
            if ( s.op == SAttach && attached.count( s.parent ) )
            {
               markAttached( s.n );
            }
         }
         else
         {
            int i = interleave ? ready[c.draw( ready.size() )] : ready[0];
            auto &t = tasks[size_t( i )];
            Step s = t.st[t.pos++];
            d.steps.push_back( s );
            if ( s.op == SOpenWriter )
            {
               writerTask = i;
            }
            if ( s.op == SCloseWriter )
            {
               writerTask = -1;
            }
         }
      }
   }

   static void summarise( const DNode &n, std::string &out, int depth )
   {
      static const char *k[] = { "Structure", "Vector", "Integer", "ScaledInteger", "Float", "String", "Blob", "CompressedVector" };
      out += std::string( size_t( depth ) * 2, ' ' ) + ( n.name.empty() ? "-" : n.name ) + " " + k[n.kind];
      switch ( n.kind )
      {
         case KInt:
         case KScaled:
            out += strf( " %lld [%lld,%lld] scale %g offset %g", (long long)n.iv, (long long)n.imin, (long long)n.imax, n.scale, n.offset );
            break;
         case KFloat:
            out += strf( " %s %.17g [%g,%g]", n.single ? "single" : "double", n.fv, n.fmin, n.fmax );
            break;
         case KString:
            out += strf( " len %zu", n.sv.size() );
            break;
         case KBlob:
            out += strf( " %zu bytes, %zu accesses", n.blob.size(), n.blobOps.size() );
            break;
         case KCV:
         {
            out += strf( " %llu records, batches", (unsigned long long)n.nrec );
            for ( size_t i = 0; i < n.batches.size() && i < 12; i++ )
            {
               out += strf( " %u", n.batches[i] );
            }
            out += "\n";
            for ( size_t i = 0; i < n.leaves.size(); i++ )
            {
               auto &l = *n.leaves[i];
               out += std::string( size_t( depth ) * 2 + 4, ' ' ) +
                      strf( "field %s %s [%lld,%lld] memory %s%s%s stride+%u\n", n.leafPaths[i].c_str(), k[l.kind], (long long)l.imin,
                            (long long)l.imax, repName( n.wreps[i].rep ), n.wreps[i].conv ? " conv" : "",
                            n.wreps[i].scal ? " scaled" : "", n.wreps[i].extraStride );
            }
            break;
         }
         default:
            break;
      }
      out += "\n";
      for ( auto &x : n.ch )
      {
         summarise( *x, out, depth + 1 );
      }
   }
   std::string docSummary( const Doc &d )
   {
      std::string s;
      for ( auto &e : d.exts )
      {
         s += "extension " + e.prefix + " = " + e.uri + "\n";
      }
      summarise( *d.root, s, 0 );
      return s;
   }
}
