#include "disk.h"
#include "refcodec.h"
#include "alloc.h"
#include <dlfcn.h>
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim
{
   Disk *g_disk = nullptr;
   void resetDisk()
   {
      delete g_disk;
      g_disk = new Disk;
   }
   const char *faultName( FaultKind k )
   {
      static const char *n[] = { "io-error", "short-transfer", "zero-transfer", "interrupted",
                                 "torn-write-error", "disk-full", "bit-flip-in-transit" };
      return n[k];
   }
   const char *opName( OpKind k )
   {
      static const char *n[] = { "open", "read", "write", "seek", "close", "unlink", "other", "none" };
      return n[k];
   }

   static bool simPath( const char *p )
   {
      return p && strncmp( p, "/sim/", 5 ) == 0;
   }
   static Fd *fdOf( int fd )
   {
      if ( fd < 1000 || !g_disk || size_t( fd - 1000 ) >= g_disk->fds.size() )
      {
         return nullptr;
      }
      return &g_disk->fds[fd - 1000];
   }

   struct FaultProbes
   {
      unsigned idx[OpKinds + 1][FaultKinds];
      FaultProbes()
      {
         for ( int o = 0; o < OpKinds; o++ )
         {
            for ( int f = 0; f < FaultKinds; f++ )
            {
               idx[o][f] = registerProbe( ( new std::string( std::string( "fault:" ) + faultName( FaultKind( f ) ) + " on " + opName( OpKind( o ) ) ) )->c_str() );
            }
         }
      }
   };
   static FaultProbes g_faultProbes;

   // Latency model: simulated time advances per operation, independent of the real clock.
   static void tick( OpKind k, size_t bytes )
   {
      static const uint32_t ns[] = { 80000, 60000, 90000, 400, 20000, 90000, 5000, 0 };
      g_sh->simNs += ns[k] + bytes * 4;
      g_sh->ops++;
      g_disk->ops++;
      if ( g_disk->ops > g_disk->opCap )
      {
         failNow( strf( "unbounded disk activity: more than %llu operations", (unsigned long long)g_disk->opCap ) );
      }
   }

   // Returns true and the fault if this operation is to be hit.
   static bool pick( OpKind k, const std::string &path, PlannedFault &out )
   {
      Disk &d = *g_disk;
      if ( !d.planPath.empty() && path != d.planPath )
      {
         return false;
      }
      uint64_t idx = d.planOps++;
      for ( auto &f : d.plan )
      {
         if ( idx >= f.at && ( f.span == ~0u || idx < f.at + f.span ) && ( f.onlyKind < 0 || f.onlyKind == k ) )
         {
            out = f;
            if ( !d.firedCount++ )
            {
               d.firstFiredAt = idx;
               d.firstFiredOp = k;
               d.firstFiredKind = f.kind;
            }
            d.fired[f.kind]++;
            hit( g_faultProbes.idx[k][f.kind] );
            ev( 0xFA, idx, f.kind );
            trace( "  fault %s on %s #%llu", faultName( f.kind ), opName( k ), (unsigned long long)idx );
            return true;
         }
      }
      return false;
   }

   static int doOpen( const char *path, int flags )
   {
      OutOfLib out;
      schedPoint( OpOpen );
      Disk &d = *g_disk;
      tick( OpOpen, 0 );
      if ( d.logOps )
      {
         d.log.push_back( { OpOpen, 0, 0 } );
      }
      ev( OpOpen, hashStr( path ), flags );
      PlannedFault f;
      if ( pick( OpOpen, path, f ) )
      {
         static const int errs[] = { EIO, EMFILE, EACCES, ENOENT, ENOSPC };
         errno = f.kind == FIntr ? EINTR : errs[f.arg % 5];
         return -1;
      }
      auto it = d.files.find( path );
      if ( it == d.files.end() )
      {
         if ( !( flags & O_CREAT ) )
         {
            errno = ENOENT;
            return -1;
         }
         it = d.files.emplace( path, std::make_shared<SimFile>() ).first;
         if ( d.journalOn )
         {
            d.journal.push_back( { JournalEntry::Create, path, 0, {} } );
         }
      }
      else if ( ( flags & O_CREAT ) && ( flags & O_EXCL ) )
      {
         errno = EEXIST;
         return -1;
      }
      else if ( flags & O_TRUNC )
      {
         it->second->resize( 0 );
         if ( d.journalOn )
         {
            d.journal.push_back( { JournalEntry::Create, path, 0, {} } );
         }
      }
      d.fds.push_back( { it->second, path, 0, flags, true, schedSelf() } );
      return 1000 + int( d.fds.size() ) - 1;
   }

   static const uint8_t *blankPage()
   {
      static const std::vector<uint8_t> page = toPhysical( std::vector<uint8_t>( 1020 ) );
      return page.data();
   }
   void SimFile::read( uint64_t pos, void *buf, size_t n ) const
   {
      auto b = static_cast<uint8_t *>( buf );
      while ( n )
      {
         size_t k = n;
         if ( pos < holeAt || !holeLen )
         {
            k = holeLen ? size_t( std::min<uint64_t>( n, holeAt - pos ) ) : n;
            memcpy( b, data.data() + pos, k );
         }
         else if ( pos >= holeAt + holeLen )
         {
            memcpy( b, data.data() + ( pos - holeLen ), k );
         }
         else
         {
            size_t o = size_t( pos % 1024 );
            k = std::min<size_t>( n, 1024 - o );
            auto it = island.find( pos / 1024 );
            memcpy( b, ( it == island.end() ? blankPage() : it->second.data() ) + o, k );
         }
         b += k;
         pos += k;
         n -= k;
      }
   }
   void SimFile::write( uint64_t pos, const void *buf, size_t n )
   {
      auto b = static_cast<const uint8_t *>( buf );
      if ( g_disk->sparse && n == 1024 && pos == size() && pos % 1024 == 0 && !memcmp( b, blankPage(), 1024 ) &&
           ( !holeLen || pos == holeAt + holeLen || holeLen < ( 1u << 20 ) ) )
      {
         if ( holeLen && pos != holeAt + holeLen )
         {
            // a few blank pages some way back become ordinary ones
            std::vector<uint8_t> old( holeLen );
            read( holeAt, old.data(), old.size() );
            data.insert( data.begin() + ptrdiff_t( holeAt ), old.begin(), old.end() );
            island.clear();
            holeLen = 0;
         }
         holeAt = holeLen ? holeAt : pos;
         holeLen += 1024;
         return;
      }
      if ( size() < pos + n )
      {
         resize( pos + n );
      }
      while ( n )
      {
         size_t k = n;
         if ( pos < holeAt || !holeLen )
         {
            k = holeLen ? size_t( std::min<uint64_t>( n, holeAt - pos ) ) : n;
            memcpy( data.data() + pos, b, k );
         }
         else if ( pos >= holeAt + holeLen )
         {
            memcpy( data.data() + ( pos - holeLen ), b, k );
         }
         else
         {
            size_t o = size_t( pos % 1024 );
            k = std::min<size_t>( n, 1024 - o );
            auto &pg = island[pos / 1024];
            if ( pg.empty() )
            {
               pg.assign( blankPage(), blankPage() + 1024 );
            }
            memcpy( pg.data() + o, b, k );
         }
         b += k;
         pos += k;
         n -= k;
      }
   }
   void SimFile::resize( uint64_t n )
   {
      if ( holeLen && n < holeAt + holeLen )
      {
         if ( n > holeAt )
         {
            throw HarnessError{ "a file is cut inside its blank pages" };
         }
         island.clear();
         holeLen = 0;
      }
      if ( n - holeLen > ( 1ULL << 30 ) )
      {
         failNow( "file grows beyond 1 GiB" );
      }
      data.resize( size_t( n - holeLen ) );
   }

   static bool usable( Fd *f, const char *what )
   {
      if ( !f->open )
      {
         g_disk->misuse.push_back( strf( "%s on closed descriptor of %s", what, f->path.c_str() ) );
         errno = EBADF;
         return false;
      }
      return true;
   }

   static ssize_t doRead( int fd, void *buf, size_t n, int64_t at )
   {
      OutOfLib out;
      schedPoint( OpRead );
      Disk &d = *g_disk;
      Fd *f = fdOf( fd );
      uint64_t pos = at >= 0 ? uint64_t( at ) : f->pos;
      tick( OpRead, n );
      if ( d.logOps )
      {
         d.log.push_back( { OpRead, pos, uint32_t( n ) } );
      }
      if ( !usable( f, "read" ) )
      {
         return -1;
      }
      d.bytesMoved += n;
      if ( d.bytesMoved > d.byteCap )
      {
         failNow( strf( "unbounded disk activity: more than %llu bytes", (unsigned long long)d.byteCap ) );
      }
      uint64_t avail = pos < f->file->size() ? f->file->size() - pos : 0;
      size_t m = size_t( std::min<uint64_t>( n, avail ) );
      PlannedFault pf;
      bool flip = false;
      if ( pick( OpRead, f->path, pf ) )
      {
         switch ( pf.kind )
         {
            case FIntr:
               errno = EINTR;
               return -1;
            case FShort:
               m = m ? pf.arg % m : 0;
               break;
            case FEof:
               m = 0;
               break;
            case FFlip:
               flip = true;
               break;
            default:
               errno = EIO;
               return -1;
         }
      }
      if ( m )
      {
         f->file->read( pos, buf, m );
         if ( flip )
         {
            static_cast<uint8_t *>( buf )[( pf.arg >> 3 ) % m] ^= uint8_t( 1u << ( pf.arg & 7 ) );
         }
      }
      if ( at < 0 )
      {
         f->pos += m;
      }
      ev( OpRead, pos, m );
      return ssize_t( m );
   }

   static ssize_t doWrite( int fd, const void *buf, size_t n, int64_t at )
   {
      OutOfLib out;
      schedPoint( OpWrite );
      Disk &d = *g_disk;
      Fd *f = fdOf( fd );
      uint64_t pos = at >= 0 ? uint64_t( at ) : f->pos;
      if ( f->flags & O_APPEND )
      {
         pos = f->file->size();
      }
      tick( OpWrite, n );
      if ( d.logOps )
      {
         d.log.push_back( { OpWrite, pos, uint32_t( n ) } );
      }
      if ( !usable( f, "write" ) )
      {
         return -1;
      }
      if ( ( f->flags & O_ACCMODE ) == O_RDONLY )
      {
         d.wroteReadOnly = true;
         errno = EBADF;
         return -1;
      }
      size_t m = n;
      int err = 0;
      PlannedFault pf;
      if ( pick( OpWrite, f->path, pf ) )
      {
         switch ( pf.kind )
         {
            case FIntr:
               errno = EINTR;
               return -1;
            case FShort:
               m = n ? pf.arg % n : 0;
               break;
            case FEof:
               m = 0;
               break;
            case FTorn:
               m = n ? pf.arg % n : 0;
               err = EIO;
               break;
            case FNoSpc:
               errno = ENOSPC;
               return -1;
            case FFlip:
               break;
            default:
               errno = EIO;
               return -1;
         }
      }
      if ( pos + m > d.capacity )
      {
         uint64_t room = pos < d.capacity ? d.capacity - pos : 0;
         if ( !d.firedCount++ )
         {
            d.firstFiredAt = d.planOps;
            d.firstFiredOp = OpWrite;
            d.firstFiredKind = FNoSpc;
         }
         d.fired[FNoSpc]++;
         hit( g_faultProbes.idx[OpWrite][FNoSpc] );
         trace( "  disk full at offset %llu", (unsigned long long)pos );
         if ( !room )
         {
            errno = ENOSPC;
            return -1;
         }
         m = size_t( room );
      }
      if ( m )
      {
         if ( !d.plan.empty() && !f->file->holeLen )
         {
            auto &old = f->file->data;
            auto &rec = f->file->recent;
            if ( rec.size() == 6 )
            {
               rec.erase( rec.begin() );
            }
            rec.push_back( { pos, old.size(), {} } );
            if ( pos < old.size() )
            {
               rec.back().old.assign( old.begin() + ptrdiff_t( pos ), old.begin() + ptrdiff_t( std::min<uint64_t>( pos + m, old.size() ) ) );
            }
         }
         f->file->write( pos, buf, m );
         if ( d.journalOn )
         {
            auto b = static_cast<const uint8_t *>( buf );
            d.journal.push_back( { JournalEntry::Write, f->path, pos, std::vector<uint8_t>( b, b + m ) } );
         }
      }
      if ( at < 0 )
      {
         f->pos = pos + m;
      }
      ev( OpWrite, pos, hashBytes( buf, m ) );
      if ( err )
      {
         errno = err;
         return -1;
      }
      return ssize_t( m );
   }

   static int64_t doSeek( int fd, int64_t off, int whence )
   {
      OutOfLib out;
      schedPoint( OpSeek );
      Disk &d = *g_disk;
      Fd *f = fdOf( fd );
      tick( OpSeek, 0 );
      if ( d.logOps )
      {
         d.log.push_back( { OpSeek, uint64_t( off ), uint32_t( whence ) } );
      }
      if ( !usable( f, "lseek" ) )
      {
         return -1;
      }
      PlannedFault pf;
      if ( pick( OpSeek, f->path, pf ) )
      {
         errno = pf.kind == FIntr ? EINTR : EIO;
         return -1;
      }
      int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? int64_t( f->pos ) : int64_t( f->file->size() );
      int64_t r = 0;
      if ( __builtin_add_overflow( base, off, &r ) || r < 0 )
      {
         errno = EINVAL;
         return -1;
      }
      f->pos = uint64_t( r );
      ev( OpSeek, f->pos );
      return r;
   }

   static int doClose( int fd )
   {
      OutOfLib out;
      schedPoint( OpClose );
      Disk &d = *g_disk;
      Fd *f = fdOf( fd );
      tick( OpClose, 0 );
      if ( d.logOps )
      {
         d.log.push_back( { OpClose, 0, 0 } );
      }
      if ( !usable( f, "close" ) )
      {
         return -1;
      }
      ev( OpClose, fd );
      f->open = false;
      bool lost = false;
      PlannedFault pf;
      if ( pick( OpClose, f->path, pf ) )
      {
         // What the system had accepted but not yet written is lost.
         auto &rec = f->file->recent;
         auto &data = f->file->data;
         for ( size_t k = pf.kind == FIntr || rec.empty() ? 0 : 1 + pf.arg % 6; k && !rec.empty(); k-- )
         {
            Undo &u = rec.back();
            if ( u.off + u.old.size() <= data.size() )
            {
               std::copy( u.old.begin(), u.old.end(), data.begin() + ptrdiff_t( u.off ) );
            }
            data.resize( std::min<size_t>( data.size(), u.size ) );
            rec.pop_back();
            lost = true;
         }
         if ( lost )
         {
            PROBE( "accepted writes lost when closing" );
         }
         errno = pf.kind == FIntr ? EINTR : pf.kind == FNoSpc ? ENOSPC : EIO;
         return -1;
      }
      f->file->recent.clear();
      return 0;
   }

   static int doUnlink( const char *path )
   {
      OutOfLib out;
      schedPoint( OpUnlink );
      Disk &d = *g_disk;
      tick( OpUnlink, 0 );
      if ( d.logOps )
      {
         d.log.push_back( { OpUnlink, 0, 0 } );
      }
      ev( OpUnlink, hashStr( path ) );
      d.unlinks++;
      PlannedFault pf;
      if ( d.removeFails || pick( OpUnlink, path, pf ) )
      {
         d.unlinkFaults++;
         errno = EACCES;
         return -1;
      }
      auto it = d.files.find( path );
      if ( it == d.files.end() )
      {
         errno = ENOENT;
         return -1;
      }
      d.files.erase( it );
      if ( d.journalOn )
      {
         d.journal.push_back( { JournalEntry::Unlink, path, 0, {} } );
      }
      return 0;
   }

   static int doTruncate( int fd, uint64_t len )
   {
      OutOfLib out;
      Disk &d = *g_disk;
      Fd *f = fdOf( fd );
      schedPoint( OpOther );
      tick( OpOther, 0 );
      if ( !usable( f, "ftruncate" ) )
      {
         return -1;
      }
      PlannedFault pf;
      if ( pick( OpOther, f->path, pf ) )
      {
         errno = EIO;
         return -1;
      }
      f->file->resize( len );
      if ( d.journalOn )
      {
         d.journal.push_back( { JournalEntry::Truncate, f->path, len, {} } );
      }
      return 0;
   }
   static void fillStat( const FilePtr &f, struct stat *st )
   {
      memset( st, 0, sizeof *st );
      st->st_mode = S_IFREG | 0644;
      st->st_size = off_t( f->size() );
      st->st_nlink = 1;
      st->st_blksize = 4096;
      st->st_blocks = off_t( ( f->size() + 511 ) / 512 );
   }

   std::map<std::string, std::vector<uint8_t>> crashImage( const std::vector<JournalEntry> &j, size_t n, size_t torn )
   {
      std::map<std::string, std::vector<uint8_t>> fs;
      auto apply = [&]( const JournalEntry &e, size_t len ) {
         auto &f = fs[e.path];
         switch ( e.type )
         {
            case JournalEntry::Create:
               f.clear();
               break;
            case JournalEntry::Write:
               if ( len )
               {
                  if ( f.size() < e.off + len )
                  {
                     f.resize( e.off + len );
                  }
                  memcpy( f.data() + e.off, e.data.data(), len );
               }
               break;
            case JournalEntry::Truncate:
               f.resize( e.off );
               break;
            case JournalEntry::Unlink:
               fs.erase( e.path );
               break;
         }
      };
      for ( size_t i = 0; i < n && i < j.size(); i++ )
      {
         apply( j[i], j[i].data.size() );
      }
      if ( torn && n < j.size() && j[n].type == JournalEntry::Write )
      {
         apply( j[n], std::min( torn, j[n].data.size() ) );
      }
      return fs;
   }
}

using namespace sim;

extern "C"
{
   int __real_open( const char *, int, ... );
   int __real_open64( const char *, int, ... );
   int __real_openat( int, const char *, int, ... );
   int __real_creat( const char *, mode_t );
   ssize_t __real_read( int, void *, size_t );
   ssize_t __real_pread( int, void *, size_t, off_t );
   ssize_t __real_write( int, const void *, size_t );
   ssize_t __real_pwrite( int, const void *, size_t, off_t );
   off_t __real_lseek( int, off_t, int );
   int __real_close( int );
   int __real_ftruncate( int, off_t );
   int __real_stat( const char *, struct stat * );
   int __real_fstat( int, struct stat * );
   int __real_fsync( int );
   int __real_fdatasync( int );
   int __real_remove( const char * );
   int __real_unlink( const char * );
   int __real_rename( const char *, const char * );
   int __real_access( const char *, int );

   int __wrap_open( const char *p, int fl, ... )
   {
      if ( simPath( p ) )
      {
         return doOpen( p, fl );
      }
      va_list ap;
      va_start( ap, fl );
      int m = va_arg( ap, int );
      va_end( ap );
      return __real_open( p, fl, m );
   }
   int __wrap_open64( const char *p, int fl, ... )
   {
      if ( simPath( p ) )
      {
         return doOpen( p, fl );
      }
      va_list ap;
      va_start( ap, fl );
      int m = va_arg( ap, int );
      va_end( ap );
      return __real_open( p, fl, m );
   }
   int __wrap_openat( int dir, const char *p, int fl, ... )
   {
      if ( simPath( p ) )
      {
         return doOpen( p, fl );
      }
      va_list ap;
      va_start( ap, fl );
      int m = va_arg( ap, int );
      va_end( ap );
      return __real_openat( dir, p, fl, m );
   }
   int __wrap_creat( const char *p, mode_t m )
   {
      return simPath( p ) ? doOpen( p, O_CREAT | O_WRONLY | O_TRUNC ) : __real_creat( p, m );
   }
   ssize_t __wrap_read( int fd, void *b, size_t n )
   {
      return fdOf( fd ) ? doRead( fd, b, n, -1 ) : __real_read( fd, b, n );
   }
   ssize_t __wrap_pread( int fd, void *b, size_t n, off_t o )
   {
      return fdOf( fd ) ? doRead( fd, b, n, o ) : __real_pread( fd, b, n, o );
   }
   ssize_t __wrap_pread64( int fd, void *b, size_t n, off_t o )
   {
      return fdOf( fd ) ? doRead( fd, b, n, o ) : __real_pread( fd, b, n, o );
   }
   ssize_t __wrap_write( int fd, const void *b, size_t n )
   {
      return fdOf( fd ) ? doWrite( fd, b, n, -1 ) : __real_write( fd, b, n );
   }
   ssize_t __wrap_pwrite( int fd, const void *b, size_t n, off_t o )
   {
      return fdOf( fd ) ? doWrite( fd, b, n, o ) : __real_pwrite( fd, b, n, o );
   }
   ssize_t __wrap_pwrite64( int fd, const void *b, size_t n, off_t o )
   {
      return fdOf( fd ) ? doWrite( fd, b, n, o ) : __real_pwrite( fd, b, n, o );
   }
   ssize_t __wrap_readv( int fd, const struct iovec *v, int n )
   {
      ssize_t total = 0;
      for ( int i = 0; i < n; i++ )
      {
         ssize_t r = __wrap_read( fd, v[i].iov_base, v[i].iov_len );
         if ( r < 0 )
         {
            return total ? total : r;
         }
         total += r;
         if ( size_t( r ) < v[i].iov_len )
         {
            break;
         }
      }
      return total;
   }
   ssize_t __wrap_writev( int fd, const struct iovec *v, int n )
   {
      ssize_t total = 0;
      for ( int i = 0; i < n; i++ )
      {
         ssize_t r = __wrap_write( fd, v[i].iov_base, v[i].iov_len );
         if ( r < 0 )
         {
            return total ? total : r;
         }
         total += r;
         if ( size_t( r ) < v[i].iov_len )
         {
            break;
         }
      }
      return total;
   }
   off_t __wrap_lseek( int fd, off_t o, int w )
   {
      return fdOf( fd ) ? doSeek( fd, o, w ) : __real_lseek( fd, o, w );
   }
   off_t __wrap_lseek64( int fd, off_t o, int w )
   {
      return fdOf( fd ) ? doSeek( fd, o, w ) : __real_lseek( fd, o, w );
   }
   int __wrap_close( int fd )
   {
      return fdOf( fd ) ? doClose( fd ) : __real_close( fd );
   }
   int __wrap_ftruncate( int fd, off_t n )
   {
      return fdOf( fd ) ? doTruncate( fd, n ) : __real_ftruncate( fd, n );
   }
   int __wrap_ftruncate64( int fd, off_t n )
   {
      return fdOf( fd ) ? doTruncate( fd, n ) : __real_ftruncate( fd, n );
   }
   int __wrap_stat( const char *p, struct stat *st )
   {
      if ( simPath( p ) )
      {
         auto it = g_disk->files.find( p );
         if ( it == g_disk->files.end() )
         {
            errno = ENOENT;
            return -1;
         }
         fillStat( it->second, st );
         return 0;
      }
      return __real_stat( p, st );
   }
   int __wrap_stat64( const char *p, struct stat *st )
   {
      return __wrap_stat( p, st );
   }
   int __wrap_fstat( int fd, struct stat *st )
   {
      if ( Fd *f = fdOf( fd ) )
      {
         if ( !usable( f, "fstat" ) )
         {
            return -1;
         }
         fillStat( f->file, st );
         return 0;
      }
      return __real_fstat( fd, st );
   }
   int __wrap_fstat64( int fd, struct stat *st )
   {
      return __wrap_fstat( fd, st );
   }
   static int doSync( int fd )
   {
      OutOfLib out;
      Fd *f = fdOf( fd );
      tick( OpOther, 0 );
      if ( !usable( f, "fsync" ) )
      {
         return -1;
      }
      PlannedFault pf;
      if ( pick( OpOther, f->path, pf ) )
      {
         errno = EIO;
         return -1;
      }
      return 0;
   }
   int __wrap_fsync( int fd )
   {
      return fdOf( fd ) ? doSync( fd ) : __real_fsync( fd );
   }
   int __wrap_fdatasync( int fd )
   {
      return fdOf( fd ) ? doSync( fd ) : __real_fdatasync( fd );
   }
   int __wrap_remove( const char *p )
   {
      return simPath( p ) ? doUnlink( p ) : __real_remove( p );
   }
   int __wrap_unlink( const char *p )
   {
      return simPath( p ) ? doUnlink( p ) : __real_unlink( p );
   }
   int __wrap_unlinkat( int, const char *p, int )
   {
      return simPath( p ) ? doUnlink( p ) : __real_unlink( p );
   }
   int __wrap_rename( const char *a, const char *b )
   {
      if ( simPath( a ) && simPath( b ) )
      {
         auto it = g_disk->files.find( a );
         if ( it == g_disk->files.end() )
         {
            errno = ENOENT;
            return -1;
         }
         g_disk->files[b] = it->second;
         g_disk->files.erase( a );
         return 0;
      }
      return __real_rename( a, b );
   }
   int __wrap_access( const char *p, int m )
   {
      if ( simPath( p ) )
      {
         if ( g_disk->exists( p ) )
         {
            return 0;
         }
         errno = ENOENT;
         return -1;
      }
      return __real_access( p, m );
   }

   // Seen by the shared libraries (Xerces): files and network a parsed document makes it reach for.
   FILE *fopen( const char *p, const char *m )
   {
      if ( g_disk && g_libDepth > 0 )
      {
         OutOfLib out;
         g_disk->outside.push_back( std::string( "file " ) + p );
         errno = ENOENT;
         return nullptr;
      }
      static auto real = reinterpret_cast<FILE *(*)( const char *, const char * )>( dlsym( RTLD_NEXT, "fopen" ) );
      return real( p, m );
   }
   void *curl_easy_init()
   {
      if ( g_disk )
      {
         OutOfLib out;
         g_disk->outside.push_back( "network" );
      }
      return nullptr;
   }
}
