// Simulated disk behind the library's system calls.
#pragma once
#include "core.h"
#include <map>
#include <memory>

namespace sim
{
   enum OpKind : uint8_t
   {
      OpOpen,
      OpRead,
      OpWrite,
      OpSeek,
      OpClose,
      OpUnlink,
      OpOther,
      OpKinds
   };
   enum FaultKind : uint8_t
   {
      FErr,   // error, no effect
      FShort, // fewer bytes than asked
      FEof,   // read: nothing there; write: zero bytes accepted
      FIntr,  // EINTR, no effect
      FTorn,  // write: part of the data reaches the disk, then an error
      FNoSpc, // write: ENOSPC
      FFlip,  // read: a bit flips in transit
      FaultKinds
   };
   const char *faultName( FaultKind k );
   const char *opName( OpKind k );

   struct PlannedFault
   {
      uint64_t at;   // index of the disk operation
      FaultKind kind;
      uint32_t arg;
      uint32_t span; // number of consecutive operations hit; ~0u: from there on
      int onlyKind;  // -1, or only operations of this kind are hit (within the span)
   };

   struct Undo
   {
      uint64_t off;
      uint64_t size; // of the file before the write
      std::vector<uint8_t> old;
   };
   // Bytes of a file. A file may hold one run of blank pages (zeros and their checksum) that takes no memory;
   // pages written into it are kept apart.
   struct SimFile
   {
      std::vector<uint8_t> data;
      uint64_t holeAt = 0, holeLen = 0;
      std::map<uint64_t, std::vector<uint8_t>> island; // by page
      uint64_t size() const
      {
         return data.size() + holeLen;
      }
      void read( uint64_t pos, void *buf, size_t n ) const;
      void write( uint64_t pos, const void *buf, size_t n );
      void resize( uint64_t n );
      std::vector<Undo> recent; // latest writes, which a failing close may lose
   };
   using FilePtr = std::shared_ptr<SimFile>;

   struct JournalEntry
   {
      enum Type : uint8_t
      {
         Create,   // open with truncation
         Write,
         Truncate,
         Unlink
      } type;
      std::string path;
      uint64_t off;
      std::vector<uint8_t> data;
   };

   struct OpRec
   {
      OpKind kind;
      uint64_t off;
      uint32_t len;
   };

   struct Fd
   {
      FilePtr file;
      std::string path;
      uint64_t pos;
      int flags;
      bool open;
      int owner;
   };

   struct Disk
   {
      std::map<std::string, FilePtr> files;
      std::vector<Fd> fds; // descriptor 1000+i; numbers are never reused
      uint64_t ops = 0;
      uint64_t opCap = ~0ULL;
      uint64_t bytesMoved = 0;
      uint64_t byteCap = ~0ULL;
      bool logOps = false;
      std::vector<OpRec> log;
      bool journalOn = false;
      std::vector<JournalEntry> journal;
      std::vector<PlannedFault> plan;
      std::string planPath; // empty: any file
      uint64_t planOps = 0; // operations counted for the plan
      uint64_t capacity = ~0ULL;
      bool sparse = false; // blank pages at the end of a growing file take no memory
      bool removeFails = false;
      uint64_t firedCount = 0;
      uint64_t fired[FaultKinds] = {};
      uint64_t firstFiredAt = 0;
      OpKind firstFiredOp = OpKinds;
      FaultKind firstFiredKind = FErr;
      std::vector<std::string> misuse; // double close, use after close
      uint64_t unlinks = 0;
      uint64_t unlinkFaults = 0;
      bool wroteReadOnly = false;
      std::vector<std::string> outside; // files or network reached for through other libraries

      void clearPlan()
      {
         plan.clear();
         planPath.clear();
         planOps = 0;
         firedCount = 0;
         memset( fired, 0, sizeof fired );
         capacity = ~0ULL;
         removeFails = false;
         unlinkFaults = 0;
      }
      void put( const std::string &path, const std::vector<uint8_t> &bytes )
      {
         auto f = std::make_shared<SimFile>();
         f->data = bytes;
         files[path] = f;
      }
      void put( const std::string &path, const std::vector<uint8_t> &bytes, uint64_t holeAt, uint64_t holeLen )
      {
         put( path, bytes );
         files[path]->holeAt = holeAt;
         files[path]->holeLen = holeLen;
      }
      bool exists( const std::string &path ) const
      {
         return files.count( path ) != 0;
      }
      const std::vector<uint8_t> &bytes( const std::string &path ) const
      {
         return files.at( path )->data;
      }
      size_t openFds() const
      {
         size_t n = 0;
         for ( auto &f : fds )
         {
            n += f.open;
         }
         return n;
      }
   };
   extern Disk *g_disk;
   void resetDisk();

   // Rebuilds the file system after the first n journal entries; the next one,
   // if a write, contributes only its first `torn` bytes.
   std::map<std::string, std::vector<uint8_t>> crashImage( const std::vector<JournalEntry> &j, size_t n, size_t torn );

   // Current simulated session (thread) for attributing descriptors and switch points.
   void schedPoint( int kind );
   int schedSelf();
}
