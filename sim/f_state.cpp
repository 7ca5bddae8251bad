// C11: handle states and open reader/writer counts stay truthful in every call order.
#include "fam.h"

namespace sim
{
   using namespace e57;
   namespace
   {
      struct MFile
      {
         std::vector<std::unique_ptr<ImageFile>> hs; // copies of one handle; empty: gone
         std::string path;
         bool writable = false;
         bool open = true;
         bool spoiled = false; // a write fault hit it: only counts and states are specified
         bool faulted = false;
         bool closedOk = false;
         bool cancelled = false;
         unsigned names = 0;
         bool usable() const
         {
            return open && !hs.empty();
         }
      };
      struct MCV
      {
         int file;
         std::unique_ptr<CompressedVectorNode> h;
         bool attached = false;
         bool section = false;   // readable
         bool unknown = false;   // content not specified
         uint64_t records = 0;
         uint64_t seed = 0;
         std::string path;
      };
      struct MIter
      {
         int cv;
         int file;
         bool isReader;
         std::unique_ptr<CompressedVectorReader> r;
         std::unique_ptr<CompressedVectorWriter> w;
         bool open = true;
         bool spoiled = false;
         uint64_t pos = 0;
         std::vector<int64_t> buf;
         std::vector<std::vector<int64_t>> old;
      };

      int64_t value( const MCV &v, uint64_t i )
      {
         return int64_t( mix( v.seed, i ) );
      }

      class World
      {
      public:
         explicit World( Choices &c ) : c( c )
         {
         }
         Choices &c;
         std::vector<std::unique_ptr<MFile>> files;
         std::vector<std::unique_ptr<MCV>> cvs;
         std::vector<std::unique_ptr<MIter>> its;
         struct Stored
         {
            std::string path;
            uint64_t seed, records;
            bool section;
         };
         std::map<std::string, std::vector<Stored>> stored; // what the finished files hold
         bool faults = false;
         unsigned fileNo = 0;

         // ok: the set of errors is empty, or success is also allowed
         void expect( const char *what, const Res &r, std::vector<int> errs, bool okToo = false )
         {
            trace( "%s -> %s", what, resStr( r ).c_str() );
            if ( r.foreign )
            {
               fail( strf( "%s threw ", what ) + resStr( r ) );
            }
            if ( r.ok )
            {
               if ( !errs.empty() && !okToo )
               {
                  fail( strf( "%s was not refused; documented: error %d", what, errs[0] ) );
               }
               return;
            }
            if ( errs.empty() )
            {
               fail( strf( "%s was refused in a state that allows it: ", what ) + resStr( r ) );
            }
            for ( int e : errs )
            {
               if ( e == r.err )
               {
                  PROBE( "call refused as documented" );
                  return;
               }
            }
            fail( strf( "%s threw another exception than documented (%d): ", what, errs[0] ) + resStr( r ) );
         }
         // while a disk fault is armed or the file is spoiled, any library exception goes
         void expectF( MFile &f, bool armed, const char *what, const Res &r, std::vector<int> errs, bool okToo = false )
         {
            if ( armed && g_disk->firedCount )
            {
               PROBE( "fault during a state change" );
               f.faulted = true;
               if ( f.writable )
               {
                  f.spoiled = true;
               }
            }
            if ( f.spoiled || ( armed && g_disk->firedCount ) )
            {
               trace( "%s (fault) -> %s", what, resStr( r ).c_str() );
               if ( r.foreign )
               {
                  fail( strf( "%s threw ", what ) + resStr( r ) );
               }
               return;
            }
            expect( what, r, errs, okToo );
         }
         bool arm( MFile &f )
         {
            g_disk->clearPlan();
            if ( !faults || !c.chance( 1, 5 ) )
            {
               return false;
            }
            g_disk->planPath = f.path;
            PlannedFault p{};
            p.at = c.skewed( 12 );
            p.kind = c.chance( 1, 2 ) ? FErr : FShort;
            p.arg = c.draw( 1024 );
            p.span = 1 + c.skewed( 4 );
            p.onlyKind = -1;
            g_disk->plan.push_back( p );
            return true;
         }
         void disarm()
         {
            g_disk->clearPlan();
         }

         int count( int file, bool readers )
         {
            int n = 0;
            for ( auto &i : its )
            {
               n += i->file == file && i->open && i->isReader == readers;
            }
            return n;
         }

         // Every observable state against the model.
         void checkAll()
         {
            for ( size_t i = 0; i < files.size(); i++ )
            {
               MFile &f = *files[i];
               for ( auto &h : f.hs )
               {
                  bool op = false, wr = false;
                  std::string name;
                  int rc = -1, wc = -1;
                  Res r = lib( [&] {
                     op = h->isOpen();
                     wr = h->isWritable();
                     name = h->fileName();
                  } );
                  if ( !r )
                  {
                     fail( "querying the state of a file threw " + resStr( r ) );
                  }
                  if ( op != f.open )
                  {
                     fail( f.open ? "an open file reports that it is closed" : "a closed file reports that it is open" );
                  }
                  if ( wr != f.writable )
                  {
                     fail( "isWritable differs from the mode the file was opened in" );
                  }
                  if ( name != f.path )
                  {
                     fail( "fileName differs from the name the file was opened with" );
                  }
                  if ( f.open )
                  {
                     r = lib( [&] {
                        rc = h->readerCount();
                        wc = h->writerCount();
                     } );
                     if ( !r )
                     {
                        fail( "querying the counts of an open file threw " + resStr( r ) );
                     }
                     int er = count( int( i ), true ), ew = count( int( i ), false );
                     if ( rc != er || wc != ew )
                     {
                        fail( "the reported reader or writer count is wrong" + strf( " :: readers %d (open: %d), writers %d (open: %d)", rc, er, wc, ew ) );
                     }
                  }
               }
            }
            for ( auto &i : its )
            {
               MFile &f = *files[i->file];
               bool op = false;
               Res r = lib( [&] { op = i->isReader ? i->r->isOpen() : i->w->isOpen(); } );
               if ( r.foreign )
               {
                  fail( "isOpen threw " + resStr( r ) );
               }
               if ( f.usable() )
               {
                  if ( !r )
                  {
                     fail( "isOpen was refused although the file is open: " + resStr( r ) );
                  }
                  if ( op != i->open )
                  {
                     fail( i->open ? "an open record reader or writer reports that it is closed" : "a closed record reader or writer reports that it is open" );
                  }
               }
            }
         }

         // ---- actions
         void openFile()
         {
            std::unique_ptr<MFile> f( new MFile );
            f->writable = c.chance( 1, 2 ) || stored.empty();
            if ( f->writable )
            {
               f->path = strf( "/sim/s%u.e57", fileNo++ );
            }
            else
            {
               auto it = stored.begin();
               std::advance( it, c.draw( stored.size() ) );
               f->path = it->first;
            }
            bool armed = arm( *f );
            std::unique_ptr<ImageFile> h;
            Res r = lib( [&] { h.reset( new ImageFile( f->path, f->writable ? "w" : "r" ) ); } );
            bool fired = armed && g_disk->firedCount;
            disarm();
            if ( fired )
            {
               if ( r.foreign )
               {
                  fail( "opening a file threw " + resStr( r ) );
               }
               if ( r && f->writable )
               {
                  f->spoiled = true;
               }
            }
            else
            {
               expect( f->writable ? "open for writing" : "open for reading", r, {} );
            }
            if ( !r )
            {
               return;
            }
            f->hs.push_back( std::move( h ) );
            trace( "file %zu: %s", files.size(), f->path.c_str() );
            int fi = int( files.size() );
            files.push_back( std::move( f ) );
            if ( !files.back()->writable )
            {
               for ( auto &e : stored[files.back()->path] )
               {
                  std::unique_ptr<MCV> v( new MCV );
                  v->file = fi;
                  v->attached = true;
                  v->section = e.section;
                  v->records = e.records;
                  v->seed = e.seed;
                  v->path = e.path;
                  Res x = lib( [&] { v->h.reset( new CompressedVectorNode( files.back()->hs[0]->root().get( v->path ) ) ); } );
                  expect( "get a record vector", x, {} );
                  cvs.push_back( std::move( v ) );
               }
            }
         }
         void badOpen()
         {
            unsigned k = c.draw( 3 );
            Res r = lib( [&] {
               switch ( k )
               {
                  case 0:
                     ImageFile( "/sim/none.e57", "r" );
                     break;
                  case 1:
                     ImageFile( "/sim/x.e57", "a" );
                     break;
                  default:
                     ImageFile( "/sim/x.e57", "" );
               }
            } );
            expect( k == 0 ? "open of a missing file" : "open with an unknown mode", r, { k == 0 ? ErrorOpenFailed : ErrorBadAPIArgument } );
            if ( g_disk->exists( "/sim/none.e57" ) || g_disk->exists( "/sim/x.e57" ) )
            {
               fail( "a refused open created a file" );
            }
         }
         void newCV( int fi )
         {
            MFile &f = *files[fi];
            if ( f.hs.empty() || f.spoiled )
            {
               return;
            }
            std::unique_ptr<MCV> v( new MCV );
            v->file = fi;
            v->seed = c.sub();
            v->path = strf( "/v%u", f.names++ );
            bool attach = c.chance( 3, 4 );
            if ( f.open && !f.writable )
            {
               // elements may be made, but not attached
               v->path = strf( "/w%u", f.names );
               Res r = lib( [&] {
                  f.hs[0]->root().set( v->path, IntegerNode( *f.hs[0], 1, 0, 10 ) );
               } );
               expect( "attaching an element in a file opened for reading", r, { ErrorFileReadOnly } );
               bool def = true;
               expect( "isDefined", lib( [&] { def = f.hs[0]->root().isDefined( v->path ); } ), {} );
               if ( def )
               {
                  fail( "an element was added to a file opened for reading" );
               }
               return;
            }
            Res r = lib( [&] {
               StructureNode proto( *f.hs[0] );
               proto.set( "x", IntegerNode( *f.hs[0], 0, INT64_MIN, INT64_MAX ) );
               v->h.reset( new CompressedVectorNode( *f.hs[0], proto, VectorNode( *f.hs[0], true ) ) );
               if ( attach )
               {
                  f.hs[0]->root().set( v->path, *v->h );
               }
            } );
            expect( "making a record vector", r, f.open ? std::vector<int>{} : std::vector<int>{ ErrorImageFileNotOpen } );
            if ( r )
            {
               v->attached = attach;
               cvs.push_back( std::move( v ) );
            }
         }
         std::vector<int> iterErrors( MCV &v, bool reader, bool emptyBufs )
         {
            MFile &f = *files[v.file];
            if ( !f.usable() )
            {
               return { ErrorImageFileNotOpen };
            }
            std::vector<int> e;
            if ( count( v.file, false ) )
            {
               e.push_back( ErrorTooManyWriters );
            }
            if ( count( v.file, true ) )
            {
               e.push_back( ErrorTooManyReaders );
            }
            if ( emptyBufs )
            {
               e.push_back( ErrorBadAPIArgument );
            }
            if ( !v.attached )
            {
               e.push_back( ErrorNodeUnattached );
            }
            if ( !reader )
            {
               if ( !f.writable )
               {
                  e.push_back( ErrorFileReadOnly );
               }
               if ( v.records > 0 )
               {
                  e.push_back( ErrorSetTwice );
               }
            }
            else if ( !v.section )
            {
               e.push_back( ErrorData3DReadInvalidZeroRecords );
            }
            return e;
         }
         void openIter( int vi, bool reader )
         {
            MCV &v = *cvs[vi];
            MFile &f = *files[v.file];
            if ( !v.h )
            {
               return;
            }
            std::unique_ptr<MIter> it( new MIter );
            it->cv = vi;
            it->file = v.file;
            it->isReader = reader;
            it->buf.resize( 1 + c.draw( 40 ) );
            bool empty = c.chance( 1, 12 );
            auto errs = iterErrors( v, reader, empty );
            bool armed = arm( f );
            Res r = lib( [&] {
               std::vector<SourceDestBuffer> sb;
               if ( !empty )
               {
                  // buffers belong to some live file; use this one if it is still there
                  if ( f.hs.empty() || !f.open )
                  {
                     throw E57Exception( ErrorImageFileNotOpen, "harness", "", 0, "" );
                  }
                  sb.emplace_back( *f.hs[0], "x", it->buf.data(), it->buf.size(), true );
               }
               if ( reader )
               {
                  it->r.reset( new CompressedVectorReader( v.h->reader( sb ) ) );
               }
               else
               {
                  it->w.reset( new CompressedVectorWriter( v.h->writer( sb ) ) );
               }
            } );
            if ( v.unknown )
            {
               trace( "record reader or writer on a spoiled vector -> %s", resStr( r ).c_str() );
               if ( r.foreign )
               {
                  fail( "making a record reader or writer threw " + resStr( r ) );
               }
            }
            else
            {
               expectF( f, armed, reader ? "making a record reader" : "making a record writer", r, errs );
            }
            disarm();
            if ( r )
            {
               it->spoiled = f.spoiled;
               its.push_back( std::move( it ) );
               PROBE( "record reader or writer opened" );
               nontrivial();
            }
         }
         void useIter( MIter &it )
         {
            MCV &v = *cvs[it.cv];
            MFile &f = *files[it.file];
            std::vector<int> errs;
            if ( !f.usable() )
            {
               errs.push_back( ErrorImageFileNotOpen );
            }
            if ( !it.open )
            {
               errs.push_back( it.isReader ? ErrorReaderNotOpen : ErrorWriterNotOpen );
            }
            bool fresh = f.usable() && c.chance( 1, 3 );
            bool armed = arm( f );
            if ( it.isReader )
            {
               unsigned got = 0;
               std::vector<int64_t> nb( it.buf.size(), -1 );
               Res r = lib( [&] {
                  if ( fresh )
                  {
                     std::vector<SourceDestBuffer> sb;
                     sb.emplace_back( *f.hs[0], "x", nb.data(), nb.size(), true );
                     got = it.r->read( sb );
                  }
                  else
                  {
                     got = it.r->read();
                  }
               } );
               if ( it.spoiled || v.unknown )
               {
                  trace( "use of a failed reader -> %s", resStr( r ).c_str() );
                  if ( r.foreign )
                  {
                     fail( "reading threw " + resStr( r ) );
                  }
               }
               else
               {
                  expectF( f, armed, "reading records", r, errs );
               }
               disarm();
               if ( fresh )
               {
                  it.old.push_back( std::move( it.buf ) );
                  it.buf = std::move( nb );
               }
               if ( !r )
               {
                  it.spoiled = it.spoiled || errs.empty();
                  return;
               }
               if ( it.spoiled || v.unknown || f.spoiled )
               {
                  return;
               }
               uint64_t want = std::min<uint64_t>( it.buf.size(), v.records - it.pos );
               if ( got != want )
               {
                  fail( strf( "a read returned %u records instead of %llu", got, (unsigned long long)want ) );
               }
               for ( unsigned i = 0; i < got; i++ )
               {
                  if ( it.buf[i] != value( v, it.pos + i ) )
                  {
                     fail( "a read returned other records than written" );
                  }
               }
               it.pos += got;
            }
            else
            {
               size_t n = c.draw( it.buf.size() + 1 );
               std::vector<int64_t> nb( it.buf.size(), 0 );
               auto &src = fresh ? nb : it.buf;
               for ( size_t i = 0; i < n; i++ )
               {
                  src[i] = value( v, it.pos + i );
               }
               Res r = lib( [&] {
                  if ( fresh )
                  {
                     std::vector<SourceDestBuffer> sb;
                     sb.emplace_back( *f.hs[0], "x", nb.data(), nb.size(), true );
                     it.w->write( sb, n );
                  }
                  else
                  {
                     it.w->write( n );
                  }
               } );
               expectF( f, armed, "writing records", r, errs );
               disarm();
               if ( fresh )
               {
                  it.old.push_back( std::move( it.buf ) );
                  it.buf = std::move( nb );
               }
               if ( r && errs.empty() )
               {
                  it.pos += n;
               }
            }
         }
         void closeIter( MIter &it, bool drop )
         {
            MCV &v = *cvs[it.cv];
            MFile &f = *files[it.file];
            bool was = it.open;
            bool armed = arm( f );
            Res r = lib( [&] {
               if ( drop )
               {
                  it.r.reset();
                  it.w.reset();
               }
               else if ( it.isReader )
               {
                  it.r->close();
               }
               else
               {
                  it.w->close();
               }
            } );
            if ( drop )
            {
               if ( armed && g_disk->firedCount && f.writable )
               {
                  f.spoiled = true;
               }
               if ( !r )
               {
                  fail( "destroying a record reader or writer threw " + resStr( r ) );
               }
            }
            else
            {
               expectF( f, armed, it.isReader ? "closing a record reader" : "closing a record writer", r,
                        f.usable() ? std::vector<int>{} : std::vector<int>{ ErrorImageFileNotOpen }, !f.usable() );
               if ( !was )
               {
                  PROBE( "closed twice" );
               }
            }
            disarm();
            if ( was && f.usable() && !it.isReader )
            {
               if ( f.spoiled )
               {
                  v.unknown = true;
               }
               else if ( drop )
               {
                  // documented: the records are lost; what the handle says then is what counts
                  int64_t n = -1;
                  expect( "childCount", lib( [&] { n = v.h->childCount(); } ), {} );
                  if ( n != 0 && n != int64_t( it.pos ) )
                  {
                     fail( "a dropped record writer left a count that is neither zero nor what was written" );
                  }
                  v.records = uint64_t( n );
                  v.section = n > 0;
                  v.unknown = n == 0; // whether an empty section exists is not specified
                  PROBE( "writer dropped without close" );
               }
               else
               {
                  v.records = it.pos;
                  v.section = true;
                  int64_t n = -1;
                  expect( "childCount", lib( [&] { n = v.h->childCount(); } ), {} );
                  if ( n != int64_t( v.records ) )
                  {
                     fail( "childCount after closing the writer is not the number of records written" );
                  }
               }
            }
            if ( f.usable() || drop )
            {
               it.open = false;
            }
            else if ( r )
            {
               it.open = false;
            }
         }
         void endFile( int fi, bool cancel )
         {
            MFile &f = *files[fi];
            if ( f.hs.empty() )
            {
               return;
            }
            bool was = f.open;
            bool armed = was && arm( f );
            auto &h = *f.hs[c.draw( f.hs.size() )];
            bool openIt = count( fi, true ) || count( fi, false );
            bool writing = count( fi, false ) > 0;
            Res r = lib( [&] { cancel ? h.cancel() : h.close(); } );
            expectF( f, armed, cancel ? "cancel" : "close", r, {} );
            bool fired = armed && g_disk->firedCount;
            disarm();
            if ( openIt && was )
            {
               PROBE( "file ended under an open reader or writer" );
            }
            if ( !was )
            {
               PROBE( "file closed twice" );
               return;
            }
            bool op = true;
            lib( [&] { op = h.isOpen(); } );
            if ( r && op )
            {
               fail( cancel ? "the file is still open after cancel" : "the file is still open after close" );
            }
            f.open = op;
            if ( !op && cancel )
            {
               f.cancelled = true;
            }
            if ( !op && r && !cancel && f.writable && !f.spoiled && !fired )
            {
               f.closedOk = true;
               // what a later open must find
               auto &st = stored[f.path];
               for ( auto &v : cvs )
               {
                  if ( v->file == fi && v->attached && !v->unknown )
                  {
                     st.push_back( { v->path, v->seed, v->records, v->section } );
                  }
               }
               if ( writing )
               {
                  PROBE( "file closed while a writer is open" );
               }
            }
         }
         void dropHandle( int fi )
         {
            MFile &f = *files[fi];
            if ( f.hs.empty() )
            {
               return;
            }
            size_t k = c.draw( f.hs.size() );
            Res r = lib( [&] { f.hs.erase( f.hs.begin() + long( k ) ); } );
            trace( "drop a handle of file %d (%zu left)", fi, f.hs.size() );
            if ( !r )
            {
               fail( "destroying a file handle threw " + resStr( r ) );
            }
            if ( f.hs.empty() )
            {
               PROBE( "file gone while objects remain" );
               if ( f.writable && f.open && g_disk->exists( f.path ) )
               {
                  fail( "a file that was never closed is still there after its handle went away" );
               }
               if ( !f.writable || f.closedOk )
               {
                  if ( !g_disk->exists( f.path ) )
                  {
                     fail( "destroying a handle removed a finished file" );
                  }
               }
            }
         }
         // queries documented to need an open file
         void query( int fi )
         {
            MFile &f = *files[fi];
            if ( f.hs.empty() )
            {
               return;
            }
            auto &h = *f.hs[0];
            std::vector<int> e;
            if ( !f.open )
            {
               e.push_back( ErrorImageFileNotOpen );
            }
            switch ( c.draw( 7 ) )
            {
               case 0:
                  expect( "root", lib( [&] { h.root(); } ), e );
                  break;
               case 1:
                  expect( "extensionsCount", lib( [&] { h.extensionsCount(); } ), e );
                  break;
               case 2:
                  if ( f.open && !f.writable )
                  {
                     e.push_back( ErrorFileReadOnly );
                  }
                  expect( "extensionsAdd", lib( [&] { h.extensionsAdd( strf( "p%u", f.names ), strf( "http://x/%u", f.names ) ); } ), e );
                  f.names++;
                  break;
               case 3:
                  expect( "making an element", lib( [&] { IntegerNode( h, 1, 0, 2 ); } ), e, !f.writable );
                  break;
               case 4:
               {
                  uint8_t d[4] = {};
                  expect( "making a buffer", lib( [&] { SourceDestBuffer( h, "x", d, 4, true ); } ), e );
                  break;
               }
               case 5:
                  if ( f.open && !f.spoiled )
                  {
                     expect( "checkInvariant of a file", lib( [&] { h.checkInvariant( true ); } ), {} );
                     PROBE( "invariants checked" );
                  }
                  break;
               default:
                  expect( "extensionsLookupPrefix", lib( [&] { h.extensionsLookupPrefix( "qq" ); } ), e );
            }
         }
         void queryCV( int vi )
         {
            MCV &v = *cvs[vi];
            MFile &f = *files[v.file];
            if ( !v.h )
            {
               return;
            }
            std::vector<int> e;
            if ( !f.usable() )
            {
               e.push_back( ErrorImageFileNotOpen );
            }
            switch ( c.draw( 6 ) )
            {
               case 0:
               {
                  int64_t n = 0;
                  Res r = lib( [&] { n = v.h->childCount(); } );
                  expect( "childCount", r, e );
                  bool writing = false;
                  for ( auto &i : its )
                  {
                     writing = writing || ( i->cv == vi && i->open && !i->isReader );
                  }
                  if ( r && !writing && !v.unknown && !f.spoiled && n != int64_t( v.records ) )
                  {
                     fail( "childCount is not the number of records written" );
                  }
                  break;
               }
               case 1:
                  expect( "pathName", lib( [&] { v.h->pathName(); } ), e );
                  break;
               case 2:
               {
                  bool a = false;
                  Res r = lib( [&] { a = v.h->isAttached(); } );
                  expect( "isAttached", r, e );
                  if ( r && a != v.attached )
                  {
                     fail( "isAttached is wrong" );
                  }
                  break;
               }
               case 3:
                  expect( "prototype", lib( [&] { v.h->prototype(); } ), e );
                  break;
               case 4:
                  // works on a closed file, cannot on a file that is gone
                  expect( "destImageFile", lib( [&] { v.h->destImageFile(); } ), f.hs.empty() ? e : std::vector<int>{} );
                  break;
               default:
                  if ( f.usable() && !v.attached )
                  {
                     Res r = lib( [&] { f.hs[0]->root().set( v.path, *v.h ); } );
                     expect( "attaching a record vector", r, f.writable ? std::vector<int>{} : std::vector<int>{ ErrorFileReadOnly } );
                     v.attached = r.ok;
                  }
            }
         }
         void queryIter( MIter &it )
         {
            MFile &f = *files[it.file];
            std::vector<int> e;
            if ( !f.usable() )
            {
               e.push_back( ErrorImageFileNotOpen );
            }
            switch ( c.draw( 3 ) )
            {
               case 0:
                  expect( "compressedVectorNode", lib( [&] {
                             if ( it.isReader )
                             {
                                it.r->compressedVectorNode();
                             }
                             else
                             {
                                it.w->compressedVectorNode();
                             }
                          } ),
                          e, true );
                  break;
               case 1:
                  if ( f.usable() && !f.spoiled )
                  {
                     expect( "checkInvariant of a reader or writer", lib( [&] {
                                if ( it.isReader )
                                {
                                   it.r->checkInvariant();
                                }
                                else
                                {
                                   it.w->checkInvariant();
                                }
                             } ),
                             {} );
                  }
                  break;
               default:
                  if ( it.isReader )
                  {
                     std::vector<int> x = e;
                     x.push_back( ErrorNotImplemented );
                     x.push_back( ErrorReaderNotOpen );
                     expect( "seek", lib( [&] { it.r->seek( 0 ); } ), x, true );
                  }
            }
         }
      };
   }

   static void runState( Choices &c, unsigned profile )
   {
      World w( c );
      w.faults = profile >= 5;
      // one finished file to read
      {
         std::unique_ptr<MFile> f( new MFile );
         f->path = "/sim/base.e57";
         f->writable = true;
         f->hs.emplace_back( new ImageFile( f->path, "w" ) );
         w.files.push_back( std::move( f ) );
         bool fl = w.faults;
         w.faults = false;
         unsigned n = 1 + c.draw( 2 );
         for ( unsigned i = 0; i < n; i++ )
         {
            w.newCV( 0 );
            int vi = int( w.cvs.size() ) - 1;
            if ( !w.cvs[vi]->attached )
            {
               continue;
            }
            std::unique_ptr<MIter> it( new MIter );
            it->cv = vi;
            it->file = 0;
            it->isReader = false;
            it->buf.resize( 50 );
            Res r = lib( [&] {
               std::vector<SourceDestBuffer> sb;
               sb.emplace_back( *w.files[0]->hs[0], "x", it->buf.data(), it->buf.size(), true );
               it->w.reset( new CompressedVectorWriter( w.cvs[vi]->h->writer( sb ) ) );
            } );
            if ( !r )
            {
               throw Unsuitable{};
            }
            for ( unsigned k = 1 + c.draw( 4 ); k; k-- )
            {
               w.useIter( *it );
            }
            w.closeIter( *it, false );
            w.its.push_back( std::move( it ) );
         }
         w.endFile( 0, false );
         w.faults = fl;
      }
      w.openFile();
      w.openFile();
      unsigned acts = 40 + c.draw( 100 );
      const int tries = c.chance( 1, 2 ) ? 6 : 2;
      for ( unsigned a = 0; a < acts; a++ )
      {
         int fi = int( c.draw( w.files.size() ) );
         // prefer live objects, but not only
         for ( int t = 0; t < tries && !w.files[fi]->usable(); t++ )
         {
            fi = int( c.draw( w.files.size() ) );
         }
         int vi = w.cvs.empty() ? -1 : int( c.draw( w.cvs.size() ) );
         for ( int t = 0; t < tries && vi >= 0 && !w.files[w.cvs[vi]->file]->usable(); t++ )
         {
            vi = int( c.draw( w.cvs.size() ) );
         }
         int ii = w.its.empty() ? -1 : int( c.draw( w.its.size() ) );
         for ( int t = 0; t < tries && ii >= 0 && !w.its[ii]->open; t++ )
         {
            ii = int( c.draw( w.its.size() ) );
         }
         switch ( c.weighted( { 3, 1, 6, 8, 8, 16, 6, 3, 1, 1, 2, 1, 3, 4, 3, 1 } ) )
         {
            case 0:
               if ( w.files.size() < 7 )
               {
                  w.openFile();
               }
               break;
            case 1:
               w.badOpen();
               break;
            case 2:
               w.newCV( fi );
               break;
            case 3:
               if ( vi >= 0 )
               {
                  w.openIter( vi, true );
               }
               break;
            case 4:
               if ( vi >= 0 )
               {
                  w.openIter( vi, false );
               }
               break;
            case 5:
               if ( ii >= 0 )
               {
                  w.useIter( *w.its[ii] );
               }
               break;
            case 6:
               if ( ii >= 0 )
               {
                  w.closeIter( *w.its[ii], false );
               }
               break;
            case 7:
               if ( ii >= 0 )
               {
                  w.closeIter( *w.its[ii], true );
                  w.its.erase( w.its.begin() + ii );
               }
               break;
            case 8:
               w.endFile( fi, false );
               break;
            case 9:
               w.endFile( fi, true );
               break;
            case 10:
               if ( !w.files[fi]->hs.empty() && w.files[fi]->hs.size() < 3 )
               {
                  lib( [&] { w.files[fi]->hs.emplace_back( new ImageFile( *w.files[fi]->hs[0] ) ); } );
               }
               break;
            case 11:
               w.dropHandle( fi );
               break;
            case 12:
               w.query( fi );
               break;
            case 13:
               if ( vi >= 0 )
               {
                  w.queryCV( vi );
               }
               break;
            case 14:
               if ( ii >= 0 )
               {
                  w.queryIter( *w.its[ii] );
               }
               break;
            default: // a copy of a reader or writer handle is the same reader or writer
               if ( ii >= 0 )
               {
                  MIter &it = *w.its[ii];
                  Res r = lib( [&] {
                     if ( it.isReader )
                     {
                        CompressedVectorReader copy( *it.r );
                     }
                     else
                     {
                        CompressedVectorWriter copy( *it.w );
                     }
                  } );
                  if ( !r )
                  {
                     fail( "copying a handle threw " + resStr( r ) );
                  }
               }
         }
         w.checkAll();
      }
      // everything goes away in a drawn order
      unsigned order = c.draw( 3 );
      auto dropIts = [&] {
         while ( !w.its.empty() )
         {
            w.closeIter( *w.its.back(), true );
            w.its.pop_back();
         }
      };
      auto dropCVs = [&] {
         Res r = lib( [&] { w.cvs.clear(); } );
         if ( !r )
         {
            fail( "destroying handles threw " + resStr( r ) );
         }
      };
      auto dropFiles = [&] {
         for ( size_t i = 0; i < w.files.size(); i++ )
         {
            while ( !w.files[i]->hs.empty() )
            {
               w.dropHandle( int( i ) );
            }
         }
      };
      w.faults = false;
      switch ( order )
      {
         case 0:
            dropIts();
            w.checkAll();
            dropCVs();
            dropFiles();
            break;
         case 1:
            dropFiles();
            w.checkAll();
            dropIts();
            dropCVs();
            break;
         default:
            dropFiles();
            dropIts();
            dropCVs();
      }
      g_sh->sessions += w.files.size();
      if ( g_disk->openFds() )
      {
         fail( "a descriptor stayed open after every handle was destroyed" );
      }
      if ( !g_disk->misuse.empty() )
      {
         fail( "descriptor misuse: " + g_disk->misuse[0] );
      }
   }
   static FamilyReg r11( { "state", runState, 8 } );
}
