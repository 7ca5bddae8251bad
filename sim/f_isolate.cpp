// C12: sessions on different files never influence each other.
#include "simple.h"

namespace sim
{
   using namespace e57;
   namespace
   {
      // One session, advanced call by call; everything it observes goes into its log.
      class Sess
      {
      public:
         explicit Sess( std::string path, uint64_t seed ) : path_( std::move( path ) ), q_( Choices::quiet( seed ) )
         {
         }
         virtual ~Sess() = default;
         virtual bool step() = 0; // false: finished
         std::vector<std::string> log;
         const std::string &path() const
         {
            return path_;
         }

      protected:
         void note( const char *what, const Res &r )
         {
            log.push_back( std::string( what ) + " " + resStr( r ) );
         }
         std::string path_;
         Choices q_; // the same draws however the session is interleaved
      };

      class Writing : public Sess
      {
      public:
         Writing( std::string path, uint64_t seed, Doc &d, unsigned how ) : Sess( path, seed ), d_( d ), s_( d, path ), how_( how )
         {
            stop_ = how_ ? q_.draw( d.steps.size() + 1 ) : ~size_t( 0 );
         }
         bool step() override
         {
            if ( stage_ == 0 )
            {
               Res r = s_.open();
               note( "open", r );
               stage_ = r ? 1 : 3;
               return true;
            }
            if ( stage_ == 1 )
            {
               if ( !s_.more() || s_.pos() >= stop_ )
               {
                  stage_ = 2;
                  return true;
               }
               Res r = s_.step();
               note( "call", r );
               if ( !r )
               {
                  stage_ = 2;
               }
               return true;
            }
            if ( stage_ == 2 )
            {
               if ( how_ == 0 )
               {
                  note( "close", s_.close() );
               }
               else if ( how_ == 1 )
               {
                  note( "cancel", s_.cancel() );
               }
               stage_ = 3;
               return true;
            }
            if ( stage_ == 3 )
            {
               s_.destroy( q_.draw( 3 ) );
               log.push_back( "read " + s_.readMismatch );
               stage_ = 4;
               return true;
            }
            return false;
         }

      private:
         Doc &d_;
         WriteSession s_;
         unsigned how_;
         size_t stop_;
         int stage_ = 0;
      };

      class Reading : public Sess
      {
      public:
         Reading( std::string path, uint64_t seed, Doc &d ) : Sess( path, seed ), d_( d ), paths_( docPaths( d ) )
         {
         }
         bool step() override
         {
            if ( !f_ && stage_ == 0 )
            {
               Res r = lib( [&] { f_.reset( new ImageFile( path_, "r" ) ); } );
               note( "open", r );
               stage_ = r ? 1 : 9;
               return true;
            }
            if ( stage_ == 1 )
            {
               if ( rd_ )
               {
                  std::string bad;
                  Res r = rd_->step( bad );
                  note( "read", r );
                  if ( !bad.empty() )
                  {
                     log.push_back( bad );
                  }
                  if ( !r || rd_->done() )
                  {
                     rd_->destroy();
                     rd_.reset();
                  }
                  return true;
               }
               if ( cv_ < d_.cvs.size() )
               {
                  DNode *n = d_.cvs[cv_++];
                  rd_.reset( new StepReader( *f_, *n, paths_[n], &q_ ) );
                  Res r = rd_->open();
                  note( "reader", r );
                  if ( !r )
                  {
                     rd_.reset();
                  }
                  return true;
               }
               if ( blob_ < d_.blobs.size() )
               {
                  DNode *n = d_.blobs[blob_++];
                  uint64_t start = q_.draw( n->blob.size() + 1 );
                  uint64_t len = q_.draw( n->blob.size() - start + 1 );
                  std::string bad;
                  Res r = readBlobRange( *f_, paths_[n], *n, start, len, bad );
                  note( "blob", r );
                  if ( !bad.empty() )
                  {
                     log.push_back( bad );
                  }
                  return true;
               }
               Res er;
               std::string m = verifyFile( *f_, d_, &q_, VerifyOpts(), er );
               note( "verify", er );
               log.push_back( m );
               stage_ = 2;
               return true;
            }
            if ( stage_ == 2 )
            {
               note( "close", lib( [&] { f_->close(); } ) );
               stage_ = 9;
               return true;
            }
            if ( stage_ == 9 )
            {
               lib( [&] {
                  rd_.reset();
                  f_.reset();
               } );
               stage_ = 10;
               return true;
            }
            return false;
         }

      private:
         Doc &d_;
         std::map<const DNode *, std::string> paths_;
         std::unique_ptr<ImageFile> f_;
         std::unique_ptr<StepReader> rd_;
         size_t cv_ = 0, blob_ = 0;
         int stage_ = 0;
      };

      // Reads whatever is in a file (possibly hostile), several times.
      class Dumping : public Sess
      {
      public:
         Dumping( std::string path, uint64_t seed ) : Sess( path, seed )
         {
            left_ = 1 + q_.draw( 3 );
         }
         bool step() override
         {
            if ( !left_ )
            {
               return false;
            }
            left_--;
            DumpOpts o;
            o.maxRecords = 3000;
            Dump d = dumpFile( path_, o );
            note( "dump", d.openRes );
            for ( auto &x : d.obs )
            {
               log.push_back( x.what + strf( " %d %d %d ", x.ok, x.err, x.foreign ) + x.val );
            }
            return true;
         }

      private:
         unsigned left_;
      };

      // Writing through the high-level interface, then reading back what was written.
      class HighLevel : public Sess
      {
      public:
         HighLevel( std::string path, uint64_t seed, SDoc &d, bool drop ) : Sess( path, seed ), d_( d ), w_( d, path )
         {
            stop_ = drop ? q_.draw( d.steps.size() + 1 ) : ~size_t( 0 );
         }
         bool step() override
         {
            switch ( stage_ )
            {
               case 0:
               {
                  Res r = w_.open();
                  note( "open", r );
                  stage_ = r ? 1 : 3;
                  return true;
               }
               case 1:
                  if ( w_.more() && w_.pos() < stop_ )
                  {
                     Res r = w_.step();
                     note( "call", r );
                     if ( r )
                     {
                        return true;
                     }
                  }
                  stage_ = w_.more() ? 3 : 2;
                  return true;
               case 2:
                  note( "close", w_.close() );
                  stage_ = 3;
                  return true;
               case 3:
                  w_.destroy( q_.draw( 2 ) );
                  log.push_back( "result " + w_.bad );
                  stage_ = 4;
                  return true;
               case 4:
               {
                  Res err;
                  std::string m = verifySimple( path_, d_, nullptr, &q_, false, err );
                  note( "read back", err );
                  log.push_back( m );
                  stage_ = 5;
                  return true;
               }
               default:
                  return false;
            }
         }

      private:
         SDoc &d_;
         SWriting w_;
         size_t stop_;
         int stage_ = 0;
      };

      struct Spec
      {
         unsigned kind; // 0 writing, 1 reading, 2 dumping, 3 high-level
         unsigned how = 0;
         std::string path;
         uint64_t seed;
         std::shared_ptr<Doc> doc;
         std::shared_ptr<SDoc> sdoc;
         std::vector<uint8_t> bytes; // initial content
         bool hasBytes = false;
      };
      std::unique_ptr<Sess> make( Spec &s )
      {
         switch ( s.kind )
         {
            case 0:
               return std::unique_ptr<Sess>( new Writing( s.path, s.seed, *s.doc, s.how ) );
            case 1:
               return std::unique_ptr<Sess>( new Reading( s.path, s.seed, *s.doc ) );
            case 2:
               return std::unique_ptr<Sess>( new Dumping( s.path, s.seed ) );
            default:
               return std::unique_ptr<Sess>( new HighLevel( s.path, s.seed, *s.sdoc, s.how != 0 ) );
         }
      }
   }

   static void runIsolate( Choices &c, unsigned profile )
   {
      const unsigned n = 2 + c.draw( 3 );
      std::vector<Spec> sp( n );
      for ( unsigned i = 0; i < n; i++ )
      {
         Spec &s = sp[i];
         s.kind = unsigned( c.weighted( { 5, 4, 2, 3 } ) );
         s.path = strf( "/sim/t%u.e57", i );
         s.seed = c.sub();
         if ( s.kind == 3 )
         {
            SOpts o;
            o.fixedGuids = true;
            o.maxPoints = 40;
            o.maxImage = 300;
            o.maxScans = 2;
            o.maxImages = 1;
            s.sdoc = genSimple( c, o );
            s.how = c.chance( 1, 4 );
            continue;
         }
         s.doc = genDoc( c, profile < 2 && c.chance( 1, 4 ) ? drawOpts( c, profile ) : smallOpts( c ) );
         if ( s.kind == 0 )
         {
            s.how = c.chance( 1, 4 ) ? 1 + c.draw( 2 ) : 0;
         }
         else
         {
            if ( c.chance( 1, 2 ) )
            {
               writeClean( *s.doc, s.path );
               s.bytes = g_disk->bytes( s.path );
            }
            else
            {
               s.bytes = encodeDoc( *s.doc, c, LayoutOpts() );
            }
            if ( s.kind == 2 )
            {
               mutateFile( c, s.bytes );
            }
            else if ( c.chance( 1, 5 ) && !s.bytes.empty() )
            {
               s.bytes[c.draw( s.bytes.size() )] ^= 1;
            }
            s.hasBytes = true;
         }
      }
      auto reset = [&] {
         for ( auto &s : sp )
         {
            g_disk->files.erase( s.path );
            if ( s.hasBytes )
            {
               g_disk->put( s.path, s.bytes );
            }
         }
      };
      // one of the sessions may meet disk faults
      std::vector<PlannedFault> plan;
      std::string planPath;
      if ( profile >= 4 && c.chance( 2, 3 ) )
      {
         Spec &s = sp[c.draw( n )];
         planPath = s.path;
         unsigned k = 1 + c.draw( 2 );
         for ( unsigned i = 0; i < k; i++ )
         {
            PlannedFault p{};
            p.at = c.skewed( 60 );
            p.kind = c.chance( 1, 2 ) ? FErr : FShort;
            p.arg = c.draw( 1024 );
            p.span = c.chance( 1, 2 ) ? 1 : 1 + c.draw( 30 );
            p.onlyKind = -1;
            plan.push_back( p );
         }
      }
      auto arm = [&] {
         g_disk->clearPlan();
         g_disk->plan = plan;
         g_disk->planPath = planPath;
      };
      // alone
      reset();
      std::vector<std::vector<std::string>> aloneLog( n );
      std::vector<std::vector<uint8_t>> aloneBytes( n );
      std::vector<bool> aloneThere( n );
      for ( unsigned i = 0; i < n; i++ )
      {
         arm();
         auto s = make( sp[i] );
         while ( s->step() )
         {
         }
         aloneLog[i] = s->log;
         s.reset();
         aloneThere[i] = g_disk->exists( sp[i].path );
         if ( aloneThere[i] )
         {
            aloneBytes[i] = g_disk->bytes( sp[i].path );
         }
         if ( g_disk->firedCount )
         {
            PROBE( "faulty session among others" );
         }
      }
      // together
      reset();
      arm();
      std::vector<std::unique_ptr<Sess>> ss;
      for ( auto &s : sp )
      {
         ss.push_back( make( s ) );
      }
      const bool threads = c.chance( 3, 4 );
      if ( threads )
      {
         std::vector<std::function<void()>> tasks;
         for ( unsigned i = 0; i < n; i++ )
         {
            tasks.push_back( [&, i] {
               while ( ss[i]->step() )
               {
                  schedYieldPoint();
               }
            } );
         }
         runTasks( c, tasks, true );
         ev( 0x5D, schedHash() );
         if ( schedSwitches() )
         {
            PROBE( "threads switched" );
            nontrivial();
         }
      }
      else
      {
         std::vector<unsigned> live;
         for ( unsigned i = 0; i < n; i++ )
         {
            live.push_back( i );
         }
         while ( !live.empty() )
         {
            size_t k = c.draw( live.size() );
            for ( unsigned burst = 1 + c.skewed( 20 ); burst; burst-- )
            {
               if ( !ss[live[k]]->step() )
               {
                  live.erase( live.begin() + long( k ) );
                  break;
               }
            }
         }
         PROBE( "interleaved in one thread" );
         nontrivial();
      }
      for ( unsigned i = 0; i < n; i++ )
      {
         static const char *const kinds[] = { "writing", "reading", "dumping", "high-level" };
         auto &log = ss[i]->log;
         for ( size_t k = 0; k < std::max( log.size(), aloneLog[i].size() ); k++ )
         {
            std::string a = k < aloneLog[i].size() ? aloneLog[i][k] : "(ended)", b = k < log.size() ? log[k] : "(ended)";
            if ( a != b )
            {
               fail( strf( "a %s session behaves differently beside others", kinds[sp[i].kind] ) + strf( " :: session %u step %zu alone: ", i, k ) + a + " together: " + b );
            }
         }
      }
      ss.clear();
      for ( unsigned i = 0; i < n; i++ )
      {
         bool there = g_disk->exists( sp[i].path );
         if ( there != aloneThere[i] )
         {
            fail( there ? "a file remains only beside other sessions" : "a file is missing beside other sessions" );
         }
         if ( there && g_disk->bytes( sp[i].path ) != aloneBytes[i] )
         {
            fail( "a file has other bytes when written beside other sessions" + strf( " :: session %u", i ) );
         }
      }
      g_disk->clearPlan();
      g_sh->sessions += 2 * n;
      if ( g_disk->openFds() )
      {
         fail( "a descriptor stayed open" );
      }
   }
   static FamilyReg r12( { "isolate", runIsolate, 8 } );

   // Identifiers generated by sessions running side by side.
   static void runGuids( Choices &c, unsigned )
   {
      const unsigned n = 2 + c.draw( 3 );
      std::vector<std::vector<std::string>> got( n );
      std::vector<std::function<void()>> tasks;
      for ( unsigned i = 0; i < n; i++ )
      {
         const unsigned scans = 1 + c.draw( 4 );
         tasks.push_back( [&, i, scans] {
            lib( [&] {
               Writer w( strf( "/sim/g%u.e57", i ), WriterOptions() );
               schedYieldPoint();
               for ( unsigned k = 0; k < scans; k++ )
               {
                  Data3D h;
                  h.pointFields.cartesianXField = true;
                  w.NewData3D( h );
                  got[i].push_back( h.guid );
                  schedYieldPoint();
                  Image2D im;
                  w.NewImage2D( im );
                  got[i].push_back( im.guid );
                  schedYieldPoint();
               }
               got[i].push_back( StringNode( w.GetRawE57Root().get( "guid" ) ).value() );
            } );
         } );
      }
      runTasks( c, tasks, true );
      ev( 0x5D, schedHash() );
      if ( schedSwitches() )
      {
         nontrivial();
      }
      std::set<std::string> all;
      for ( unsigned i = 0; i < n; i++ )
      {
         if ( got[i].empty() )
         {
            fail( "a session generating identifiers failed" );
         }
         for ( auto &g : got[i] )
         {
            static const char *const shape = "{xxxxxxxx-xxxx-4xxx-xxxx-xxxxxxxxxxxx}";
            bool ok = g.size() == 38;
            for ( size_t k = 0; ok && k < 38; k++ )
            {
               ok = shape[k] == 'x' ? bool( isxdigit( (unsigned char)g[k] ) ) : shape[k] == g[k];
            }
            if ( !ok )
            {
               fail( "a generated identifier is malformed :: " + g );
            }
            if ( !all.insert( g ).second )
            {
               fail( "an identifier was generated twice :: " + g );
            }
         }
      }
      g_sh->sessions += n;
   }
   static FamilyReg r12g( { "guids", runGuids, 1 } );
}
