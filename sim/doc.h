// Reference model of an E57 document, its generator, and sessions that write or read it through the library.
#pragma once
#include "E57Format.h"
#include "alloc.h"
#include "core.h"
#include "disk.h"
#include <map>
#include <memory>
#include <set>

namespace sim
{
   enum Kind : uint8_t
   {
      KStruct,
      KVec,
      KInt,
      KScaled,
      KFloat,
      KString,
      KBlob,
      KCV
   };

   enum MemRep : uint8_t
   {
      RI8,
      RU8,
      RI16,
      RU16,
      RI32,
      RU32,
      RI64,
      RBool,
      RR32,
      RR64,
      RStr
   };
   const char *repName( MemRep r );

   struct DNode;
   using DPtr = std::shared_ptr<DNode>;

   struct Column
   {
      std::vector<uint64_t> v; // integers: two's complement; floats: bit pattern
      std::vector<std::string> s;
   };

   struct FieldRep
   {
      MemRep rep = RI64;
      bool conv = false;
      bool scal = false;
      uint32_t extraStride = 0;
   };

   struct BlobOp
   {
      bool isWrite;
      uint64_t start;
      uint64_t len;
      uint64_t seed;
   };

   struct DNode
   {
      Kind kind = KStruct;
      std::string name; // within a structure
      // integers
      int64_t iv = 0, imin = 0, imax = 0;
      double scale = 1, offset = 0;
      // floats
      double fv = 0, fmin = 0, fmax = 0;
      bool single = false;
      std::string sv;
      // containers
      bool hetero = true;
      std::vector<DPtr> ch;
      bool attachEarly = true;
      int ctorStyle = 0;
      // blob
      std::vector<uint8_t> blob; // final content
      std::vector<BlobOp> blobOps;
      // compressed vector
      DPtr proto, codecs;
      std::vector<DNode *> leaves;
      std::vector<std::string> leafPaths;
      std::vector<Column> cols;
      uint64_t nrec = 0;
      std::vector<uint32_t> batches;
      std::vector<FieldRep> wreps;
      std::vector<uint32_t> worder;
      uint32_t wcap = 1;
      uint32_t batchStyle = 0; // bit 0: new buffers for every call; bit 1: drop the handle instead of close
      uint64_t writeSeed = 0;
      uint32_t readBacks = 0;
      uint64_t id = 0;
   };

   struct Ext
   {
      std::string prefix, uri;
   };

   enum StepOp : uint8_t
   {
      SExt,
      SCreate,
      SAttach,
      SBlobOp,
      SOpenWriter,
      SWriteBatch,
      SCloseWriter,
      SReadBack
   };
   struct Step
   {
      StepOp op;
      DNode *n;
      DNode *parent;
      uint32_t k;
   };

   struct Doc
   {
      std::vector<Ext> exts;
      DPtr root;
      std::vector<Step> steps;
      std::vector<DNode *> cvs, blobs;
      uint64_t totalRecords = 0;
   };

   struct GenOpts
   {
      uint32_t maxNodes = 20;
      uint32_t maxCV = 3;
      uint32_t maxBlob = 3;
      uint32_t maxRecords = 400;
      uint32_t maxFields = 6;
      uint32_t maxBlobSize = 3000;
      uint32_t maxStr = 60;
      bool bigStrings = false; // record strings beyond 64 KiB
      int forceCV = -1;        // -1: drawn
      int forceBlob = -1;
      uint32_t minRecords = 0;
      bool readBacks = true;
      bool specialFloats = true;
      int wideInts = 0; // 1: force wide, 2: force narrow (0..8 bits)
      int strings = 0;  // 1: force strings in every prototype, -1: none
      bool smallBatches = false;
      bool oneBatch = false;
      bool blobIo = true;
      bool plainReps = false; // only native memory types
      int exts = -1;
   };
   std::shared_ptr<Doc> genDoc( Choices &c, const GenOpts &o );
   void buildSteps( Doc &d, Choices &c );

   std::string genText( Choices &c, uint32_t maxLen );
   std::string seededText( Rng &r, uint32_t len );

   // ---- outcome of a library call
   struct Res
   {
      bool ok = true;
      int err = 0;          // e57::ErrorCode
      bool foreign = false; // not the library's exception
      bool badAlloc = false;
      std::string what;
      explicit operator bool() const
      {
         return ok;
      }
   };
   std::string resStr( const Res &r );
   // Runs f as a library call; any exception becomes a result.
   template <class F> Res lib( F &&f )
   {
      Res r;
      try
      {
         InLib in;
         f();
      }
      catch ( const e57::E57Exception &e )
      {
         r.ok = false;
         r.err = e.errorCode();
         r.what = e.context();
      }
      catch ( const std::bad_alloc & )
      {
         r.ok = false;
         r.foreign = true;
         r.badAlloc = true;
         r.what = "std::bad_alloc";
      }
      catch ( const std::exception &e )
      {
         r.ok = false;
         r.foreign = true;
         r.what = std::string( "std::exception " ) + e.what();
      }
      catch ( const Violation & )
      {
         throw;
      }
      catch ( const HarnessError & )
      {
         throw;
      }
      catch ( ... )
      {
         r.ok = false;
         r.foreign = true;
         r.what = "unknown exception type";
      }
      ev( 0x11B, r.ok, uint64_t( r.err ) );
      return r;
   }

   // ---- buffers for record transfer
   struct RBuf
   {
      std::string path;
      DNode *leaf = nullptr;
      unsigned col = 0;
      FieldRep fr;
      size_t cap = 0;
      size_t stride = 0;
      std::unique_ptr<uint8_t[]> mem;
      size_t memSize = 0;
      std::vector<std::string> strs;
      void alloc( size_t capacity );
      void fillPattern( uint8_t b );
      void store( size_t i, const DNode &leaf, const Column &c, uint64_t rec );
      // empty: equal to the model's record
      std::string check( size_t i, const DNode &leaf, const Column &c, uint64_t rec ) const;
      std::string checkGaps( uint8_t pattern ) const;
      std::string show( size_t i ) const;
      uint64_t hashValue( size_t i ) const;
      void add( e57::ImageFile &imf, std::vector<e57::SourceDestBuffer> &out );
   };
   size_t repSize( MemRep r );
   bool repUsable( const DNode &leaf, const Column &c, const FieldRep &fr, bool reading );
   FieldRep drawRep( Choices &c, const DNode &leaf, const Column &col, bool reading, bool plain );

   // ---- writing session, one API call per step
   class WriteSession
   {
   public:
      WriteSession( Doc &d, std::string path );
      ~WriteSession();
      Res open();
      // returns false when all steps are done
      bool more() const
      {
         return pos_ < doc_.steps.size();
      }
      void skip()
      {
         ++pos_;
      }
      size_t pos() const
      {
         return pos_;
      }
      Res step();
      Res close();
      Res cancel();
      void destroy( unsigned order = 0 ); // all handles
      Res runAll();   // open .. close
      e57::ImageFile *imf()
      {
         return imf_.get();
      }
      const std::string &path() const
      {
         return path_;
      }
      e57::Node *handle( DNode *n );
      e57::CompressedVectorWriter *writer()
      {
         return writer_.get();
      }
      std::string where() const;
      std::string readMismatch; // set when a read-back during the session delivered wrong data
      uint64_t variant = 0;     // changes nothing observable; kept for paired runs

      std::vector<RBuf> wbufs; // buffers of the open writer
      DNode *wnode = nullptr;
      uint64_t wpos = 0;

   private:
      friend class Misuse;
      Doc &doc_;
      std::string path_;
      size_t pos_ = 0;
      std::unique_ptr<e57::ImageFile> imf_;
      std::map<DNode *, std::unique_ptr<e57::Node>> h_;
      std::unique_ptr<e57::CompressedVectorWriter> writer_;
      std::map<DNode *, std::vector<uint8_t>> blobNow_;
      std::vector<std::string> kept_;
      std::vector<std::vector<RBuf>> oldBufs_;
      e57::Node makeNode( DNode &n );
      void fillBatch( uint32_t n );
   };

   // Builds a detached library node for a (blob- and CV-free) subtree.
   e57::Node makeLibNode( e57::ImageFile &imf, const DNode &n );

   // ---- verification of an open file against the model; returns a description of the first difference
   struct VerifyOpts
   {
      bool plain = false; // fixed simple reading plan
      bool paths = true;
   };
   std::string verifyFile( e57::ImageFile &imf, Doc &d, Choices *c, const VerifyOpts &o, Res &err );
   std::string verifyCV( e57::ImageFile &imf, e57::CompressedVectorNode cv, DNode &n, Choices *c, Res &err );
   std::string verifyNode( e57::ImageFile &imf, const e57::Node &ln, DNode &n, const std::string &path, Choices *c,
                           const VerifyOpts &o, Res &err );
   // Opens path and verifies; exceptions end up in err.
   std::string openAndVerify( const std::string &path, Doc &d, Choices *c, Res &err, int policy = 100 );

   // ---- generic reading of any file: list of observations, exceptions included
   struct Obs
   {
      std::string what;  // which query
      bool ok;
      int err;
      bool foreign;
      std::string val;   // value, or hash of data
      std::string detail;
   };
   struct DumpOpts
   {
      uint64_t maxRecords = 200000;
      uint32_t chunk = 64;
      uint32_t maxNodes = 5000;
      uint64_t maxBlob = 1 << 22;
      bool stopAtError = false;
      int policy = 100;
      bool strConv = false;
   };
   struct Dump
   {
      std::vector<Obs> obs;
      bool opened = false;
      Res openRes;
   };
   Dump dumpFile( const std::string &path, const DumpOpts &o );
   Dump dumpBuffer( const char *buf, uint64_t size, const DumpOpts &o );
   void dumpOpen( e57::ImageFile &imf, const DumpOpts &o, Dump &d );
   // First place where `got` claims success with a value different from `ref` (ref: no errors). Empty if none.
   std::string compareDump( const Dump &ref, const Dump &got, bool requireAll );

   std::string docSummary( const Doc &d );
}
