// Independent E57 codec: shares no code with the library. Decodes and validates finished files against the
// document model, and encodes documents in arbitrary legal layouts.
#pragma once
#include "doc.h"

namespace sim
{
   uint32_t crc32c( const uint8_t *p, size_t n );
   // recomputes the checksum of every page
   void sealPages( std::vector<uint8_t> &bytes );
   bool pageOk( const std::vector<uint8_t> &bytes, size_t page );
   // inserts / removes the page checksums
   std::vector<uint8_t> toPhysical( std::vector<uint8_t> logical );
   std::vector<uint8_t> toLogical( const std::vector<uint8_t> &phys );
   inline uint64_t physOf( uint64_t logical )
   {
      return logical / 1020 * 1024 + logical % 1020;
   }
   inline uint64_t logOf( uint64_t phys )
   {
      return phys / 1024 * 1020 + std::min<uint64_t>( phys % 1024, 1020 );
   }

   struct XElem
   {
      std::string name;
      std::vector<std::pair<std::string, std::string>> attrs;
      std::string text;
      std::vector<std::shared_ptr<XElem>> ch;
      const std::string *attr( const std::string &n ) const
      {
         for ( auto &a : attrs )
         {
            if ( a.first == n )
            {
               return &a.second;
            }
         }
         return nullptr;
      }
   };
   // Returns the root element or throws std::string with the problem.
   std::shared_ptr<XElem> parseXml( const std::string &s );

   struct ValidateOpts
   {
      std::set<const DNode *> skipRecords; // record sets whose content is unspecified
   };
   // Empty when the file is valid and holds exactly the document (doc may be null: structure only).
   std::string validateFile( const std::vector<uint8_t> &bytes, const Doc *d, const ValidateOpts &o = ValidateOpts() );

   struct LayoutOpts
   {
      bool plain = false;
      uint32_t maxPacket = 65536;
      bool bigIndex = false;
      uint64_t hole = 0;        // bytes of blank pages left out of the result
      unsigned holeBefore = 0;  // section they precede
   };
   std::vector<uint8_t> encodeDoc( const Doc &d, Choices &c, const LayoutOpts &o, uint64_t *holeAt = nullptr );

   // places of structural fields in a file, for targeted damage (logical offsets)
   struct FieldPos
   {
      uint64_t off;
      unsigned len;
      const char *what;
   };
   std::vector<FieldPos> findFields( const std::vector<uint8_t> &phys );
}
