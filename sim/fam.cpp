#include "fam.h"

namespace sim
{
   GenOpts smallOpts( Choices &c )
   {
      GenOpts o;
      o.maxNodes = 6;
      o.maxCV = 2;
      o.maxBlob = 2;
      o.maxRecords = 120;
      o.maxFields = 4;
      o.maxBlobSize = 2500;
      switch ( c.draw( 6 ) )
      {
         case 1:
            o.forceCV = 1;
            o.maxRecords = 1500;
            break;
         case 2:
            o.strings = 1;
            o.forceCV = 1;
            break;
         case 3:
            o.forceBlob = 1;
            o.maxBlobSize = 6000;
            break;
         case 4:
            o.maxNodes = 25;
            o.maxStr = 900;
            break;
         case 5:
            o.forceCV = 2;
            o.maxCV = 2;
            o.wideInts = 1;
            break;
         default:
            break;
      }
      return o;
   }
   void writeClean( Doc &d, const std::string &path )
   {
      WriteSession w( d, path );
      Res r = w.runAll();
      w.destroy();
      if ( !r )
      {
         trace( "fault-free writing failed: %s", resStr( r ).c_str() );
         PROBE( "unsuitable: fault-free write failed" );
         throw Unsuitable{};
      }
      g_sh->sessions++;
   }

   std::vector<PlannedFault> drawPlan( Choices &c, const std::vector<OpRec> &log, PlanMode m )
   {
      std::vector<PlannedFault> plan;
      if ( log.empty() )
      {
         return plan;
      }
      std::vector<std::vector<uint32_t>> byKind( OpKinds );
      for ( size_t i = 0; i < log.size(); i++ )
      {
         byKind[log[i].kind].push_back( uint32_t( i ) );
      }
      unsigned n = 1;
      if ( c.chance( 1, 4 ) )
      {
         n = 2 + c.draw( 2 );
      }
      for ( unsigned k = 0; k < n; k++ )
      {
         PlannedFault f{};
         f.onlyKind = -1;
         f.span = 1;
         // where: any operation, an operation of a chosen kind, near the end, near the start
         switch ( c.draw( 5 ) )
         {
            case 0:
            case 1:
            {
               static const OpKind wk[] = { OpWrite, OpWrite, OpRead, OpSeek, OpClose, OpOpen, OpWrite };
               static const OpKind rk[] = { OpRead, OpRead, OpRead, OpSeek, OpSeek, OpClose, OpOpen };
               OpKind kind = m == PlanWrite ? wk[c.draw( 7 )] : rk[c.draw( 7 )];
               auto &v = byKind[kind];
               f.at = v.empty() ? c.draw( log.size() ) : v[c.draw( v.size() )];
               break;
            }
            case 2:
               f.at = log.size() - 1 - c.draw( std::min<size_t>( log.size(), 60 ) );
               break;
            case 3:
               f.at = c.draw( std::min<size_t>( log.size(), 40 ) );
               break;
            default:
               f.at = c.draw( log.size() );
         }
         OpKind op = log[f.at].kind;
         static const FaultKind fw[] = { FErr, FShort, FNoSpc, FTorn, FIntr, FEof };
         static const FaultKind fr[] = { FErr, FShort, FEof, FIntr };
         if ( op == OpWrite )
         {
            f.kind = fw[c.draw( 6 )];
         }
         else if ( op == OpRead )
         {
            f.kind = fr[c.draw( 4 )];
         }
         else
         {
            f.kind = c.chance( 1, 4 ) ? FIntr : FErr;
         }
         f.arg = c.draw( 4096 );
         switch ( c.draw( 8 ) )
         {
            case 6:
               f.span = ~0u; // from here on
               break;
            case 7:
               f.span = 2 + c.draw( 30 );
               if ( c.chance( 1, 2 ) )
               {
                  f.onlyKind = op;
               }
               break;
            default:
               break;
         }
         plan.push_back( f );
      }
      return plan;
   }
   std::string planStr( const std::vector<PlannedFault> &p )
   {
      std::string s;
      for ( auto &f : p )
      {
         s += strf( "%s%s at operation %llu%s", s.empty() ? "" : ", ", faultName( f.kind ), (unsigned long long)f.at,
                    f.span == 1 ? "" : f.span == ~0u ? " and all later ones" : strf( " for %u operations", f.span ).c_str() );
      }
      return s;
   }
   std::string firedStr()
   {
      if ( !g_disk->firedCount )
      {
         return "no fault fired";
      }
      return strf( "%s on %s #%llu", faultName( g_disk->firstFiredKind ), opName( g_disk->firstFiredOp ), (unsigned long long)g_disk->firstFiredAt );
   }
}

namespace sim
{
   static void paths( const DNode &n, const std::string &p, std::map<const DNode *, std::string> &out )
   {
      out[&n] = p.empty() ? "/" : p;
      if ( n.kind == KStruct || n.kind == KVec )
      {
         for ( size_t i = 0; i < n.ch.size(); i++ )
         {
            paths( *n.ch[i], p + "/" + ( n.kind == KStruct ? n.ch[i]->name : std::to_string( i ) ), out );
         }
      }
   }
   std::map<const DNode *, std::string> docPaths( const Doc &d )
   {
      std::map<const DNode *, std::string> m;
      paths( *d.root, "", m );
      return m;
   }

   StepReader::StepReader( e57::ImageFile &imf, DNode &n, std::string path, Choices *c ) :
      imf_( imf ), n_( n ), path_( std::move( path ) ), c_( c )
   {
      for ( unsigned i = 0; i < n.leaves.size(); i++ )
      {
         fields_.push_back( i );
      }
      if ( c && c->chance( 1, 2 ) )
      {
         Rng r( c->sub() );
         for ( size_t i = fields_.size(); i > 1; i-- )
         {
            std::swap( fields_[i - 1], fields_[r.below( i )] );
         }
         if ( c->chance( 1, 2 ) )
         {
            fields_.resize( 1 + c->draw( fields_.size() ) );
         }
      }
      Choices plain = Choices::quiet( 7 );
      for ( auto f : fields_ )
      {
         reps_.push_back( c ? drawRep( *c, *n.leaves[f], n.cols[f], true, false ) : drawRep( plain, *n.leaves[f], n.cols[f], true, true ) );
      }
      cap_ = n.nrec + 1;
      if ( c )
      {
         switch ( c->draw( 5 ) )
         {
            case 0:
               cap_ = std::max<uint64_t>( 1, n.nrec );
               break;
            case 1:
               cap_ = 1 + c->draw( 8 );
               break;
            case 2:
               cap_ = 1 + c->draw( n.nrec + 3 );
               break;
            case 3:
               cap_ = 1 + c->draw( 130 );
               break;
            default:
               break;
         }
         style_ = c->draw( 3 );
      }
      cap_ = std::max<uint64_t>( cap_, n.nrec / 400 + 1 );
   }
   StepReader::~StepReader()
   {
      destroy();
   }
   void StepReader::make( std::vector<RBuf> &v )
   {
      v.clear();
      for ( size_t i = 0; i < fields_.size(); i++ )
      {
         RBuf b;
         b.path = n_.leafPaths[fields_[i]];
         b.leaf = n_.leaves[fields_[i]];
         b.col = fields_[i];
         b.fr = reps_[i];
         b.alloc( cap_ );
         v.push_back( std::move( b ) );
      }
   }
   Res StepReader::open()
   {
      make( bufs_ );
      Res r = lib( [&] {
         std::vector<e57::SourceDestBuffer> sb;
         for ( auto &b : bufs_ )
         {
            b.add( imf_, sb );
         }
         e57::CompressedVectorNode cv( imf_.root().get( path_ ) );
         rd_.reset( new e57::CompressedVectorReader( cv.reader( sb ) ) );
      } );
      trace( "  reader on %s, %zu fields, capacity %llu -> %s", path_.c_str(), fields_.size(), (unsigned long long)cap_, resStr( r ).c_str() );
      failed = !r;
      return r;
   }
   Res StepReader::step( std::string &bad )
   {
      bool fresh = call_ > 0 && ( style_ == 1 || ( style_ == 2 && ( call_ & 1 ) ) );
      if ( fresh )
      {
         old_.push_back( std::move( bufs_ ) );
         make( bufs_ );
         if ( old_.size() > 2 )
         {
            old_.erase( old_.begin() );
         }
      }
      for ( auto &b : bufs_ )
      {
         b.fillPattern( 0xA5 );
      }
      unsigned got = 0;
      Res r = lib( [&] {
         if ( fresh )
         {
            std::vector<e57::SourceDestBuffer> sb;
            for ( auto &b : bufs_ )
            {
               b.add( imf_, sb );
            }
            got = rd_->read( sb );
         }
         else
         {
            got = rd_->read();
         }
      } );
      trace( "  read %s at %llu -> %s %u", path_.c_str(), (unsigned long long)pos_, resStr( r ).c_str(), got );
      if ( !r.ok )
      {
         failed = true;
         return r;
      }
      if ( failed )
      {
         return r;
      }
      ev( 0xCEAD, got, pos_ );
      uint64_t want = std::min<uint64_t>( cap_, n_.nrec - pos_ );
      if ( got != want )
      {
         bad = strf( "read call %u on %s at record %llu of %llu returned %u records, expected %llu (capacity %llu)", call_, path_.c_str(),
                     (unsigned long long)pos_, (unsigned long long)n_.nrec, got, (unsigned long long)want, (unsigned long long)cap_ );
         return r;
      }
      for ( auto &b : bufs_ )
      {
         for ( unsigned i = 0; i < got && bad.empty(); i++ )
         {
            bad = b.check( i, *b.leaf, n_.cols[b.col], pos_ + i );
         }
         if ( bad.empty() )
         {
            bad = b.checkGaps( 0xA5 );
         }
      }
      if ( !bad.empty() )
      {
         bad += strf( " [%s, read call %u, capacity %llu]", path_.c_str(), call_, (unsigned long long)cap_ );
         return r;
      }
      pos_ += got;
      call_++;
      done_ = got == 0;
      return r;
   }
   Res StepReader::close()
   {
      return lib( [&] { rd_->close(); } );
   }
   void StepReader::destroy()
   {
      if ( rd_ )
      {
         Res r = lib( [&] { rd_.reset(); } );
         if ( !r )
         {
            fail( "destroying a record reader threw " + resStr( r ) );
         }
      }
   }
   Res readBlobRange( e57::ImageFile &imf, const std::string &path, const DNode &n, uint64_t start, uint64_t count, std::string &bad )
   {
      std::vector<uint8_t> out( count + 8, 0xA5 );
      Res r = lib( [&] {
         e57::BlobNode b( imf.root().get( path ) );
         b.read( out.data(), int64_t( start ), count );
      } );
      trace( "  blob %s read [%llu,+%llu) -> %s", path.c_str(), (unsigned long long)start, (unsigned long long)count, resStr( r ).c_str() );
      if ( !r )
      {
         return r;
      }
      for ( uint64_t i = 0; i < count; i++ )
      {
         if ( out[i] != n.blob[start + i] )
         {
            bad = strf( "blob %s byte %llu is %02x, expected %02x", path.c_str(), (unsigned long long)( start + i ), out[i], n.blob[start + i] );
            return r;
         }
      }
      for ( unsigned i = 0; i < 8; i++ )
      {
         if ( out[count + i] != 0xA5 )
         {
            bad = "a blob read wrote beyond the requested count";
         }
      }
      return r;
   }
}
