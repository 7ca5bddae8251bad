// Pieces shared by the families.
#pragma once
#include "doc.h"
#include "refcodec.h"
#include "sched.h"

namespace sim
{
   GenOpts drawOpts( Choices &c, unsigned profile ); // documents of moderate size, 8 profiles
   GenOpts smallOpts( Choices &c );                  // small documents for many repetitions

   // Fault-free write of a document; a failure of the library is not this family's business and ends the run quietly.
   void writeClean( Doc &d, const std::string &path );

   enum PlanMode
   {
      PlanWrite,
      PlanRead
   };
   // Draws faults for a session whose fault-free operations are in `log`.
   std::vector<PlannedFault> drawPlan( Choices &c, const std::vector<OpRec> &log, PlanMode m );
   std::string planStr( const std::vector<PlannedFault> &p );
   std::string firedStr();
}

namespace sim
{
   // element paths as the API names them
   std::map<const DNode *, std::string> docPaths( const Doc &d );

   // One record reader driven call by call and compared with the model.
   class StepReader
   {
   public:
      // c == nullptr: fixed plain plan
      StepReader( e57::ImageFile &imf, DNode &n, std::string path, Choices *c );
      ~StepReader();
      Res open();
      // One read call. bad: description of a difference to the model.
      Res step( std::string &bad );
      Res close();
      void destroy();
      bool done() const
      {
         return done_;
      }
      bool failed = false; // a call threw; its data is no longer specified
      DNode &node()
      {
         return n_;
      }
      uint64_t pos() const
      {
         return pos_;
      }
      e57::CompressedVectorReader *handle()
      {
         return rd_.get();
      }

   private:
      void make( std::vector<RBuf> &v );
      e57::ImageFile &imf_;
      DNode &n_;
      std::string path_;
      Choices *c_;
      std::vector<unsigned> fields_;
      std::vector<FieldRep> reps_;
      uint64_t cap_ = 1;
      unsigned style_ = 0;
      unsigned call_ = 0;
      uint64_t pos_ = 0;
      bool done_ = false;
      std::vector<RBuf> bufs_;
      std::vector<std::vector<RBuf>> old_;
      std::unique_ptr<e57::CompressedVectorReader> rd_;
   };
   // Reads [start,start+count) of a blob element and compares it.
   Res readBlobRange( e57::ImageFile &imf, const std::string &path, const DNode &n, uint64_t start, uint64_t count, std::string &bad );
}

namespace sim
{
   // Turns a legal file into a hostile one with consistent page checksums (mostly). Returns what was done.
   std::string mutateFile( Choices &c, std::vector<uint8_t> &bytes );
   // Replaces the XML section (appended at the end, header adjusted, pages sealed).
   bool replaceXml( std::vector<uint8_t> &bytes, const std::string &xml );
   bool extractXml( const std::vector<uint8_t> &bytes, std::string &xml );

   // crude lexical positions inside XML text
   struct Tag
   {
      size_t b, e; // [b,e) including <>
      bool close, empty;
      std::string name;
   };
   std::vector<Tag> tagsOf( const std::string &x );
   size_t matching( const std::vector<Tag> &t, size_t i ); // index of the closing tag
   struct AttrPos
   {
      size_t b, vb, ve, e;
      std::string key;
   };
   std::vector<AttrPos> attrsOf( const std::string &x, const Tag &t );
}
