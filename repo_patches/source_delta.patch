From 189b96254811592acdaff1cd09dd45944a5d868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:31 +0000
Subject: [PATCH 01/66] fix: deliver records into the buffers given to
 CompressedVectorReader::read(dbufs)

The decoders kept writing into the buffers the reader was constructed with, so
read() with a new set of buffers returned a record count but left the new
buffers untouched.
---
 src/CompressedVectorReaderImpl.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 21eed23..e865f6a 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -220,6 +220,15 @@ namespace e57
       }
 
       dbufs_ = dbufs;
+
+      // If decoders already exist, they must deliver into the new buffers from now on
+      for ( size_t i = 0; i < channels_.size(); i++ )
+      {
+         std::vector<SourceDestBuffer> theDbuf( 1, dbufs_.at( i ) );
+
+         channels_.at( i ).dbuf = dbufs_.at( i );
+         channels_.at( i ).decoder->destBufferSetNew( theDbuf );
+      }
    }
 
    unsigned CompressedVectorReaderImpl::read( std::vector<SourceDestBuffer> &dbufs )
-- 
2.43.0


From b6908cc41d28288d0d29b996cf00aad5565c466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:33 +0000
Subject: [PATCH 02/66] fix: take records from the buffers given to
 CompressedVectorWriter::write(sbufs)

The encoders kept reading from the buffers the writer was constructed with, so
write() with a new set of buffers silently stored the old contents.
---
 src/CompressedVectorWriterImpl.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 7099adf..8e33e92 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -270,6 +270,24 @@ namespace e57
       proto_->checkBuffers( sbufs, false );
 
       sbufs_ = sbufs;
+
+      // If encoders already exist, they must take their input from the new buffers from now on
+      if ( !bytestreams_.empty() )
+      {
+         for ( auto &sbuf : sbufs_ )
+         {
+            std::vector<SourceDestBuffer> vTemp( 1, sbuf );
+
+            NodeImplSharedPtr writeNode = proto_->get( sbuf.pathName() );
+            uint64_t bytestreamNumber = 0;
+            if ( !proto_->findTerminalPosition( writeNode, bytestreamNumber ) )
+            {
+               throw E57_EXCEPTION2( ErrorInternal, "sbufPathName=" + sbuf.pathName() );
+            }
+
+            bytestreams_.at( bytestreamNumber )->sourceBufferSetNew( vTemp );
+         }
+      }
    }
 
    void CompressedVectorWriterImpl::write( std::vector<SourceDestBuffer> &sbufs,
-- 
2.43.0


From 63a8929e43f52d98e0ff100809e263d94f032824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:48 +0000
Subject: [PATCH 03/66] fix: stop decoding strings when the destination buffer
 is full

Reading a string field through a buffer smaller than the number of records
threw ErrorInternal, because the string decoder ignored the capacity of the
destination buffer.
---
 src/Decoder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Decoder.cpp b/src/Decoder.cpp
index 2024cfe..b79296b 100644
--- a/src/Decoder.cpp
+++ b/src/Decoder.cpp
@@ -512,9 +512,10 @@ size_t BitpackStringDecoder::inputProcessAligned( const char *inbuf, const size_
    size_t nBytesAvailable = ( endBit - firstBit ) >> 3;
    size_t nBytesRead = 0;
 
-   // Loop until we've finished all the records, or ran out of input currently
-   // available
-   while ( currentRecordIndex_ < maxRecordCount_ && nBytesRead < nBytesAvailable )
+   // Loop until we've finished all the records, filled the destBuffer, or ran out of input
+   // currently available
+   while ( currentRecordIndex_ < maxRecordCount_ &&
+           destBuffer_->nextIndex() < destBuffer_->capacity() && nBytesRead < nBytesAvailable )
    {
 #ifdef E57_VERBOSE
       std::cout << "read string loop1: readingPrefix=" << readingPrefix_
-- 
2.43.0


From ab03fd1fa987eba5219d531b7e3da640d1f43733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:50 +0000
Subject: [PATCH 04/66] fix: allow zero padding in the last byte of a maximum
 length data packet

A data packet whose unpadded length is 65533 to 65535 bytes is legal, but
padding it to 65536 bytes threw ErrorInternal.
---
 src/CompressedVectorWriterImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 8e33e92..b87cb2e 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -583,7 +583,7 @@ namespace e57
       {
          // Double check we aren't accidentally going to write off end of
          // vector<char>
-         if ( p >= &packet[DATA_PACKET_MAX - 1] )
+         if ( p >= &packet[DATA_PACKET_MAX] )
          {
             throw E57_EXCEPTION1( ErrorInternal );
          }
-- 
2.43.0


From b6579039a386791b15b943b50dd175093af3e948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:16 +0000
Subject: [PATCH 05/66] fix: write exactly one empty data packet when a vector
 produces no output

Closing a CompressedVectorWriter without output (no write() call, or only
constant fields) left the data offset of the section at zero, so the vector
could not be read back. A write() of zero records in the middle of a vector
stored a packet without bytestreams, which readers reject.
---
 src/CompressedVectorWriterImpl.cpp | 25 ++++++++++++++++++++-----
 src/CompressedVectorWriterImpl.h   |  2 +-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index b87cb2e..829e930 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -183,6 +183,13 @@ namespace e57
          flush();
       }
 
+      // If no bytestream produced any output, write one packet with empty bytestreams so that the
+      // section has the data packet that a reader expects to find.
+      if ( dataPacketsCount_ == 0 )
+      {
+         packetWriteEmptyBytestreams();
+      }
+
       // Write one index packet (required by standard).
       packetWriteIndex();
 
@@ -310,7 +317,6 @@ namespace e57
 
       if ( requestedRecordCount == 0 )
       {
-         packetWriteZeroRecords();
          return;
       }
 
@@ -634,9 +640,9 @@ namespace e57
       return ( packetPhysicalOffset ); //??? needed
    }
 
-   // If we don't have any records, write a packet which is only the header + zero padding.
-   // Code is a simplified version of packetWrite().
-   void CompressedVectorWriterImpl::packetWriteZeroRecords()
+   // If we don't have any bytestream data, write a packet which is only the header + zero-length
+   // bytestreams + zero padding. Code is a simplified version of packetWrite().
+   void CompressedVectorWriterImpl::packetWriteEmptyBytestreams()
    {
       ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
 
@@ -646,9 +652,17 @@ namespace e57
       char *packet = reinterpret_cast<char *>( &dataPacket_ );
 
       auto packetLength = static_cast<unsigned int>( sizeof( DataPacketHeader ) );
+      auto data = reinterpret_cast<char *>( &packet[sizeof( DataPacketHeader )] );
+
+      // Write a length of zero for each bytestream
+      for ( size_t i = 0; i < bytestreams_.size() * sizeof( uint16_t ); ++i )
+      {
+         *data++ = 0;
+
+         packetLength++;
+      }
 
       // packetLength must be multiple of 4, add zero padding
-      auto data = reinterpret_cast<char *>( &packet[sizeof( DataPacketHeader )] );
       while ( packetLength % 4 )
       {
          *data++ = 0;
@@ -658,6 +672,7 @@ namespace e57
 
       // Prepare header in dataPacket_, now that we are sure of packetLength
       dataPacket_.header.packetLogicalLengthMinus1 = static_cast<uint16_t>( packetLength - 1 );
+      dataPacket_.header.bytestreamCount = static_cast<uint16_t>( bytestreams_.size() );
 
       // Double check that data packet is well formed
       dataPacket_.verify( packetLength );
diff --git a/src/CompressedVectorWriterImpl.h b/src/CompressedVectorWriterImpl.h
index 5596267..a9f0d75 100644
--- a/src/CompressedVectorWriterImpl.h
+++ b/src/CompressedVectorWriterImpl.h
@@ -57,7 +57,7 @@ namespace e57
       size_t totalOutputAvailable() const;
       size_t currentPacketSize() const;
       uint64_t packetWrite();
-      void packetWriteZeroRecords();
+      void packetWriteEmptyBytestreams();
       void packetWriteIndex();
 
       void flush();
-- 
2.43.0


From acc904a59c9740289149c9bf2cbd4495e0290452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:17 +0000
Subject: [PATCH 06/66] fix: do not invert values read into a bool buffer

A stored 1 was delivered as false and a stored 0 as true, although writing
from a bool buffer stores true as 1.
---
 src/SourceDestBufferImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index 9da1777..ee779e2 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -238,7 +238,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         *reinterpret_cast<bool *>( p ) = ( inValue ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( inValue ? true : false );
          break;
       case Real32:
          if ( std::is_same<T, double>::value )
@@ -781,7 +781,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value )
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( value );
          break;
       case Bool:
-         *reinterpret_cast<bool *>( p ) = ( value ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( value ? true : false );
          break;
       case Real32:
          if ( !doConversion_ )
@@ -908,7 +908,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( scaledValue );
          break;
       case Bool:
-         *reinterpret_cast<bool *>( p ) = ( scaledValue ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( scaledValue ? true : false );
          break;
       case Real32:
          if ( !doConversion_ )
-- 
2.43.0


From a2b4e48943931686f06334d2f7010040f917f150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:49 +0000
Subject: [PATCH 07/66] fix: apply scale and offset when writing a constant
 scaled integer field

A ScaledInteger field with equal minimum and maximum compared the unscaled
user value with the raw minimum, so writing the correct scaled value threw
ErrorValueOutOfBounds.
---
 src/Encoder.cpp | 15 +++++++++------
 src/Encoder.h   |  7 ++++++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/Encoder.cpp b/src/Encoder.cpp
index e0c403f..f5d07e8 100644
--- a/src/Encoder.cpp
+++ b/src/Encoder.cpp
@@ -83,7 +83,7 @@ std::shared_ptr<Encoder> Encoder::EncoderFactory( unsigned bytestreamNumber,
          if ( bitsPerRecord == 0 )
          {
             std::shared_ptr<Encoder> encoder(
-               new ConstantIntegerEncoder( bytestreamNumber, sbuf, ini->minimum() ) );
+               new ConstantIntegerEncoder( false, bytestreamNumber, sbuf, ini->minimum(), 1.0, 0.0 ) );
 
             return encoder;
          }
@@ -138,7 +138,8 @@ std::shared_ptr<Encoder> Encoder::EncoderFactory( unsigned bytestreamNumber,
          if ( bitsPerRecord == 0 )
          {
             std::shared_ptr<Encoder> encoder(
-               new ConstantIntegerEncoder( bytestreamNumber, sbuf, sini->minimum() ) );
+               new ConstantIntegerEncoder( true, bytestreamNumber, sbuf, sini->minimum(),
+                                           sini->scale(), sini->offset() ) );
 
             return encoder;
          }
@@ -893,10 +894,11 @@ void BitpackIntegerEncoder<RegisterT>::dump( int indent, std::ostream &os ) cons
 
 //================================================================
 
-ConstantIntegerEncoder::ConstantIntegerEncoder( unsigned bytestreamNumber, SourceDestBuffer &sbuf,
-                                                int64_t minimum ) :
+ConstantIntegerEncoder::ConstantIntegerEncoder( bool isScaledInteger, unsigned bytestreamNumber,
+                                                SourceDestBuffer &sbuf, int64_t minimum,
+                                                double scale, double offset ) :
    Encoder( bytestreamNumber ), sourceBuffer_( sbuf.impl() ), currentRecordIndex_( 0 ),
-   minimum_( minimum )
+   isScaledInteger_( isScaledInteger ), minimum_( minimum ), scale_( scale ), offset_( offset )
 {
 }
 
@@ -911,7 +913,8 @@ uint64_t ConstantIntegerEncoder::processRecords( size_t recordCount )
    // Check that all source values are == minimum_
    for ( unsigned i = 0; i < recordCount; i++ )
    {
-      int64_t nextInt64 = sourceBuffer_->getNextInt64();
+      int64_t nextInt64 = isScaledInteger_ ? sourceBuffer_->getNextInt64( scale_, offset_ )
+                                           : sourceBuffer_->getNextInt64();
       if ( nextInt64 != minimum_ )
       {
          throw E57_EXCEPTION2( ErrorValueOutOfBounds, "nextInt64=" + toString( nextInt64 ) +
diff --git a/src/Encoder.h b/src/Encoder.h
index 5806f6a..9f2ece6 100644
--- a/src/Encoder.h
+++ b/src/Encoder.h
@@ -176,7 +176,9 @@ namespace e57
    class ConstantIntegerEncoder : public Encoder
    {
    public:
-      ConstantIntegerEncoder( unsigned bytestreamNumber, SourceDestBuffer &sbuf, int64_t minimum );
+      ConstantIntegerEncoder( bool isScaledInteger, unsigned bytestreamNumber,
+                              SourceDestBuffer &sbuf, int64_t minimum, double scale,
+                              double offset );
       uint64_t processRecords( size_t recordCount ) override;
       unsigned sourceBufferNextIndex() override;
       uint64_t currentRecordIndex() override;
@@ -198,6 +200,9 @@ namespace e57
    protected:
       std::shared_ptr<SourceDestBufferImpl> sourceBuffer_;
       uint64_t currentRecordIndex_;
+      bool isScaledInteger_;
       int64_t minimum_;
+      double scale_;
+      double offset_;
    };
 }
-- 
2.43.0


From e776881e68fd527d5bf18d3c95849fb8c832016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:00 +0000
Subject: [PATCH 08/66] fix: store single precision Float elements without loss

Single precision values and bounds were written with 8 significant digits,
which does not identify every float, and were not rounded to float when read.
The largest float could not be read back at all because its text exceeds the
default maximum.
---
 src/CheckedFile.cpp  |  4 ++--
 src/E57XmlParser.cpp | 14 +++++++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 84222fc..8668c29 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -478,8 +478,8 @@ CheckedFile &CheckedFile::operator<<( uint64_t i )
 
 CheckedFile &CheckedFile::operator<<( float f )
 {
-   //??? is 7 digits right number?
-   return writeFloatingPoint( f, 7 );
+   // 8 digits after the decimal point (9 significant digits) identify every float uniquely
+   return writeFloatingPoint( f, 8 );
 }
 
 CheckedFile &CheckedFile::operator<<( double d )
diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 101f470..6b84916 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -119,6 +119,14 @@ namespace
       XMLSize_t attr_index;
       return ( attributes.getIndex( attribute_name, attr_index ) );
    }
+
+   /// Parse a floating point number and round it to the precision it is stored in.
+   inline double parseFloat( const std::string &inStr, e57::FloatPrecision precision )
+   {
+      const double value = e57::strToDouble( inStr );
+
+      return ( precision == e57::PrecisionSingle ) ? static_cast<float>( value ) : value;
+   }
 }
 
 //=============================================================================
@@ -474,7 +482,7 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
       if ( isAttributeDefined( attributes, att_minimum ) )
       {
          ustring minimum_str = lookupAttribute( attributes, att_minimum );
-         pi.floatMinimum = strToDouble( minimum_str ); //??? use exact rounding library
+         pi.floatMinimum = parseFloat( minimum_str, pi.precision );
       }
       else
       {
@@ -492,7 +500,7 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
       if ( isAttributeDefined( attributes, att_maximum ) )
       {
          ustring maximum_str = lookupAttribute( attributes, att_maximum );
-         pi.floatMaximum = strToDouble( maximum_str ); //??? use exact rounding library
+         pi.floatMaximum = parseFloat( maximum_str, pi.precision );
       }
       else
       {
@@ -765,7 +773,7 @@ void E57XmlParser::endElement( const XMLCh *const uri, const XMLCh *const localN
 
          if ( pi.childText.length() > 0 )
          {
-            floatValue = strToDouble( pi.childText );
+            floatValue = parseFloat( pi.childText, pi.precision );
             foundValue = true;
          }
 
-- 
2.43.0


From 840b0497fb5a7b0bebc4bd7998b99d3d5c6ac2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:10 +0000
Subject: [PATCH 09/66] fix: report short writes instead of ignoring them

write() may transfer fewer bytes than asked, for example on a full disk.
Only a negative result was treated as an error, so a page could be cut
short and the session still ended as if the file was complete.
---
 src/CheckedFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 8668c29..d737b72 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -821,7 +821,7 @@ void CheckedFile::writePhysicalPage( char *page_buffer, uint64_t page )
 #error "no supported compiler defined"
 #endif
 
-   if ( result < 0 )
+   if ( result < 0 || static_cast<size_t>( result ) != physicalPageSize )
    {
       throw E57_EXCEPTION2( ErrorWriteFailed,
                             "fileName=" + fileName_ + " result=" + toString( result ) );
-- 
2.43.0


From c77343cc02f23e9e48c73c0034c9fafb2bc6444c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:12 +0000
Subject: [PATCH 10/66] fix: do not close a file descriptor twice when close
 reports an error

After a failed close() the descriptor was kept, and the destructor closed
the same number again.  By then it may belong to another file.
---
 src/CheckedFile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index d737b72..8d339dd 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -695,13 +695,14 @@ void CheckedFile::close()
 #else
 #error "no supported compiler defined"
 #endif
+      // The descriptor is gone even if closing it reported an error, so never close it again.
+      fd_ = -1;
+
       if ( result < 0 )
       {
          throw E57_EXCEPTION2( ErrorCloseFailed,
                                "fileName=" + fileName_ + " result=" + toString( result ) );
       }
-
-      fd_ = -1;
    }
 
    if ( bufView_ != nullptr )
-- 
2.43.0


From 9178817432ce24c5956c209e95757b8c7e06f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:13 +0000
Subject: [PATCH 11/66] fix: remove a cancelled file even if closing it fails

CheckedFile::unlink() gave up before removing the file when close()
reported an error, so cancelling a writer left a partial file behind.
---
 src/CheckedFile.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 8d339dd..7c235ef 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -717,7 +717,14 @@ void CheckedFile::close()
 
 void CheckedFile::unlink()
 {
-   close();
+   try
+   {
+      close();
+   }
+   catch ( E57Exception & )
+   {
+      // The file is about to be removed, so what close() could not write does not matter
+   }
 
    // Try to remove the file, don't report a failure
    int result = std::remove( fileName_.c_str() ); //??? unicode support here
-- 
2.43.0


From e860d1e25a3784bcd4bcacc3cdcd74e892acb45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:03 +0000
Subject: [PATCH 12/66] fix: check that the image file is open when using a
 record reader or writer

CompressedVectorReader and CompressedVectorWriter documented
ErrorImageFileNotOpen, but the check behind it was empty.  Reading, writing
or just dropping the handle after ImageFile::close() or cancel() used the
deleted file object.
---
 src/CompressedVectorReaderImpl.cpp | 7 ++-----
 src/CompressedVectorWriterImpl.cpp | 5 +----
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index e865f6a..5dee703 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -578,7 +578,7 @@ namespace e57
       ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
       imf->decrReaderCount();
 
-      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
+      // don't checkImageFileOpen
 
       // No error if reader not open
       if ( !isOpen_ )
@@ -598,10 +598,7 @@ namespace e57
    void CompressedVectorReaderImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                                         const char *srcFunctionName ) const
    {
-      // unimplemented...
-      E57_UNUSED( srcFileName );
-      E57_UNUSED( srcLineNumber );
-      E57_UNUSED( srcFunctionName );
+      cVector_->checkImageFileOpen( srcFileName, srcLineNumber, srcFunctionName );
    }
 
    void CompressedVectorReaderImpl::checkReaderOpen( const char *srcFileName, int srcLineNumber,
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 829e930..d656374 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -730,10 +730,7 @@ namespace e57
    void CompressedVectorWriterImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                                         const char *srcFunctionName ) const
    {
-      // unimplemented...
-      E57_UNUSED( srcFileName );
-      E57_UNUSED( srcLineNumber );
-      E57_UNUSED( srcFunctionName );
+      cVector_->checkImageFileOpen( srcFileName, srcLineNumber, srcFunctionName );
    }
 
    void CompressedVectorWriterImpl::checkWriterOpen( const char *srcFileName, int srcLineNumber,
-- 
2.43.0


From 815e12c6c517c484d1b6315615bc7055d761f2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:05 +0000
Subject: [PATCH 13/66] fix: count a reader or writer as closed only once

Closing a record reader or writer again is documented as harmless, but each
call lowered the image file's reader or writer count.  With a count below
zero the one-writer rule was no longer enforced.
---
 src/CompressedVectorReaderImpl.cpp |  8 ++++----
 src/CompressedVectorWriterImpl.cpp | 17 +++++++++++------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 5dee703..9dcffd1 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -574,10 +574,6 @@ namespace e57
 
    void CompressedVectorReaderImpl::close()
    {
-      // Before anything that can throw, decrement reader count
-      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
-      imf->decrReaderCount();
-
       // don't checkImageFileOpen
 
       // No error if reader not open
@@ -586,6 +582,10 @@ namespace e57
          return;
       }
 
+      // Before anything that can throw, decrement reader count
+      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
+      imf->decrReaderCount();
+
       // Destroy decoders
       channels_.clear();
 
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index d656374..c106902 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -157,21 +157,26 @@ namespace e57
 #endif
       ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
 
+      const bool wasOpen = isOpen_;
+
+      // Set closed before do anything, so if get fault and start unwinding, don't
+      // try to close again.
+      isOpen_ = false;
+
       // Before anything that can throw, decrement writer count
-      imf->decrWriterCount();
+      if ( wasOpen )
+      {
+         imf->decrWriterCount();
+      }
 
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
       // don't call checkWriterOpen();
 
-      if ( !isOpen_ )
+      if ( !wasOpen )
       {
          return;
       }
 
-      // Set closed before do anything, so if get fault and start unwinding, don't
-      // try to close again.
-      isOpen_ = false;
-
       // If have any data, write packet
       // Write all remaining ioBuffers and internal encoder register cache into
       // file. Know we are done when totalOutputAvailable() returns 0 after a
-- 
2.43.0


From b59c66db973c5141791c6d4dfba730887f471b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:18 +0000
Subject: [PATCH 14/66] fix: throw ErrorImageFileNotOpen when the image file is
 already gone

Node, reader and writer handles do not keep their ImageFile alive.  Using
one after the last ImageFile handle was destroyed threw std::bad_weak_ptr
instead of the documented exception.  A record reader dropped that late also
leaked its packet cache.
---
 src/CompressedVectorReaderImpl.cpp | 7 +++++--
 src/CompressedVectorWriterImpl.cpp | 4 ++--
 src/NodeImpl.cpp                   | 7 ++++++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 9dcffd1..55b108f 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -583,8 +583,11 @@ namespace e57
       }
 
       // Before anything that can throw, decrement reader count
-      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
-      imf->decrReaderCount();
+      ImageFileImplSharedPtr imf( cVector_->destImageFile_.lock() );
+      if ( imf )
+      {
+         imf->decrReaderCount();
+      }
 
       // Destroy decoders
       channels_.clear();
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index c106902..fb77e94 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -155,7 +155,7 @@ namespace e57
 #ifdef E57_VERBOSE
       std::cout << "CompressedVectorWriterImpl::close() called" << std::endl; //???
 #endif
-      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
+      ImageFileImplSharedPtr imf( cVector_->destImageFile_.lock() );
 
       const bool wasOpen = isOpen_;
 
@@ -164,7 +164,7 @@ namespace e57
       isOpen_ = false;
 
       // Before anything that can throw, decrement writer count
-      if ( wasOpen )
+      if ( wasOpen && imf )
       {
          imf->decrWriterCount();
       }
diff --git a/src/NodeImpl.cpp b/src/NodeImpl.cpp
index 12c69c4..4f716db 100644
--- a/src/NodeImpl.cpp
+++ b/src/NodeImpl.cpp
@@ -45,7 +45,12 @@ void NodeImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                    const char *srcFunctionName ) const
 {
    // Throw an exception if destImageFile (destImageFile_) isn't open
-   ImageFileImplSharedPtr destImageFile( destImageFile_ );
+   ImageFileImplSharedPtr destImageFile( destImageFile_.lock() );
+   if ( !destImageFile )
+   {
+      throw E57Exception( ErrorImageFileNotOpen, "the image file no longer exists", srcFileName,
+                          srcLineNumber, srcFunctionName );
+   }
    if ( !destImageFile->isOpen() )
    {
       throw E57Exception( ErrorImageFileNotOpen, "fileName=" + destImageFile->fileName(),
-- 
2.43.0


From 2a033035e99c0432dbce55517603a6c636614c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:57 +0000
Subject: [PATCH 15/66] fix: do not open files or connections named by a file's
 XML section

---
 src/E57XmlParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 6b84916..c65430f 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -319,6 +319,10 @@ void E57XmlParser::init()
    xmlReader->setFeature( XMLUni::fgXercesSchemaFullChecking, true );
    xmlReader->setFeature( XMLUni::fgSAX2CoreNameSpacePrefixes, true );
 
+   // Everything we need is in the E57 file: don't let it make us open other files or connections.
+   xmlReader->setFeature( XMLUni::fgXercesLoadExternalDTD, false );
+   xmlReader->setFeature( XMLUni::fgXercesDisableDefaultEntityResolution, true );
+
    xmlReader->setContentHandler( this );
    xmlReader->setErrorHandler( this );
 }
-- 
2.43.0


From a09b5cf8673a1e79d7283ecd1299fbeda4999ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:13 +0000
Subject: [PATCH 16/66] fix: limit the expansion of XML entities

---
 src/E57XmlParser.cpp | 5 +++++
 src/E57XmlParser.h   | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index c65430f..1d02657 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -323,6 +323,11 @@ void E57XmlParser::init()
    xmlReader->setFeature( XMLUni::fgXercesLoadExternalDTD, false );
    xmlReader->setFeature( XMLUni::fgXercesDisableDefaultEntityResolution, true );
 
+   // E57 files have no use for entities of their own: stop those which multiply before they exhaust
+   // time and memory.
+   securityManager_.setEntityExpansionLimit( 1000 );
+   xmlReader->setProperty( XMLUni::fgXercesSecurityManager, &securityManager_ );
+
    xmlReader->setContentHandler( this );
    xmlReader->setErrorHandler( this );
 }
diff --git a/src/E57XmlParser.h b/src/E57XmlParser.h
index e1a5f86..2b599e1 100644
--- a/src/E57XmlParser.h
+++ b/src/E57XmlParser.h
@@ -31,6 +31,7 @@
 
 #include <xercesc/sax/InputSource.hpp>
 #include <xercesc/sax2/DefaultHandler.hpp>
+#include <xercesc/util/SecurityManager.hpp>
 
 #include "Common.h"
 
@@ -100,6 +101,7 @@ namespace e57
       std::stack<ParseInfo> stack_; /// Stores the current path in tree we are reading
 
       SAX2XMLReader *xmlReader;
+      SecurityManager securityManager_; /// Limits on what the XML may make the parser do
    };
 
    class E57XmlFileInputSource : public InputSource
-- 
2.43.0


From 38884277dd9cc6e3fffe1603f212e9f4003a344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:01 +0000
Subject: [PATCH 17/66] fix: refuse XML elements nested without end

---
 src/E57XmlParser.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 1d02657..f94c560 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -77,6 +77,9 @@ static const XMLCh att_recordCount[] = { chLatin_r, chLatin_e, chLatin_c, chLati
                                          chLatin_r, chLatin_d, chLatin_C, chLatin_o,
                                          chLatin_u, chLatin_n, chLatin_t, chNull };
 
+// deepest nesting of elements we accept
+static constexpr size_t MAX_NESTING = 4096;
+
 static_assert( std::is_same<size_t, XMLSize_t>::value,
                "size_t and XMLSize_t should be the same type" );
 
@@ -358,6 +361,15 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
                 << std::endl;
    }
 #endif
+   // Elements nested without end would exhaust the (recursive) stack later on.
+   if ( stack_.size() >= MAX_NESTING )
+   {
+      throw E57_EXCEPTION2( ErrorBadXMLFormat, "elements nested too deeply fileName=" +
+                                                  imf_->fileName() + " uri=" + toUString( uri ) +
+                                                  " localName=" + toUString( localName ) +
+                                                  " qName=" + toUString( qName ) );
+   }
+
    // Get Type attribute
    ustring node_type = lookupAttribute( attributes, att_type );
 
-- 
2.43.0


From 9cb59719c6e87ae5d0b516fdd1dffbe0d068ef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:48 +0000
Subject: [PATCH 18/66] fix: close the file when opening it for reading fails
 half way

---
 src/CheckedFile.cpp | 9 +++++++--
 src/CheckedFile.h   | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 7c235ef..d653076 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -195,8 +195,13 @@ private:
    const char *stream_;
 };
 
-CheckedFile::CheckedFile( const ustring &fileName, Mode mode, ReadChecksumPolicy policy ) :
+CheckedFile::CheckedFile( const ustring &fileName, ReadChecksumPolicy policy ) :
    fileName_( fileName ), checkSumPolicy_( policy )
+{
+}
+
+CheckedFile::CheckedFile( const ustring &fileName, Mode mode, ReadChecksumPolicy policy ) :
+   CheckedFile( fileName, policy )
 {
    switch ( mode )
    {
@@ -240,7 +245,7 @@ CheckedFile::CheckedFile( const ustring &fileName, Mode mode, ReadChecksumPolicy
 }
 
 CheckedFile::CheckedFile( const char *input, uint64_t size, ReadChecksumPolicy policy ) :
-   fileName_( "<StreamBuffer>" ), checkSumPolicy_( policy )
+   CheckedFile( "<StreamBuffer>", policy )
 {
    if ( size % 1024 != 0 )
    {
diff --git a/src/CheckedFile.h b/src/CheckedFile.h
index 8ff4372..e6a18ad 100644
--- a/src/CheckedFile.h
+++ b/src/CheckedFile.h
@@ -89,6 +89,9 @@ namespace e57
       static inline uint64_t physicalToLogical( uint64_t physicalOffset );
 
    private:
+      /// Delegated to by the others, so that the file is closed if they throw
+      CheckedFile( const ustring &fileName, ReadChecksumPolicy policy );
+
       void verifyChecksum( char *page_buffer, uint64_t page );
 
       template <class FTYPE> CheckedFile &writeFloatingPoint( FTYPE value, int precision );
-- 
2.43.0


From 063b556000edf3139ccf524cd7e31e3dae4bd3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:57 +0000
Subject: [PATCH 19/66] fix: release the packet cache when making a record
 reader fails

---
 src/CompressedVectorReaderImpl.cpp | 6 ++----
 src/CompressedVectorReaderImpl.h   | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 55b108f..b040c09 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -132,8 +132,7 @@ namespace e57
       uint64_t dataLogicalOffset =
          imf->file_->physicalToLogical( sectionHeader.dataPhysicalOffset );
 
-      //??? what if fault in this constructor?
-      cache_ = new PacketReadCache( imf->file_, 32 );
+      cache_.reset( new PacketReadCache( imf->file_, 32 ) );
 
       // Verify that packet given by dataPhysicalOffset is actually a data packet,
       // init channels
@@ -592,8 +591,7 @@ namespace e57
       // Destroy decoders
       channels_.clear();
 
-      delete cache_;
-      cache_ = nullptr;
+      cache_.reset();
 
       isOpen_ = false;
    }
diff --git a/src/CompressedVectorReaderImpl.h b/src/CompressedVectorReaderImpl.h
index 3064bc1..65aa8b8 100644
--- a/src/CompressedVectorReaderImpl.h
+++ b/src/CompressedVectorReaderImpl.h
@@ -70,7 +70,7 @@ namespace e57
       std::shared_ptr<CompressedVectorNodeImpl> cVector_;
       NodeImplSharedPtr proto_;
       std::vector<DecodeChannel> channels_;
-      PacketReadCache *cache_;
+      std::unique_ptr<PacketReadCache> cache_;
 
       uint64_t recordCount_; /// number of records written so far
       uint64_t maxRecordCount_;
-- 
2.43.0


From 74641dc65fb57b5e92be2dd60eeab24cc2f9a405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:17 +0000
Subject: [PATCH 20/66] fix: free transcoded strings when the XML parser
 reports an error

---
 src/E57XmlParser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index f94c560..d0d4150 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -972,28 +972,28 @@ void E57XmlParser::characters( const XMLCh *const chars, const XMLSize_t length
 void E57XmlParser::error( const SAXParseException &ex )
 {
    throw E57_EXCEPTION2(
-      ErrorXMLParser, "systemId=" + ustring( XMLString::transcode( ex.getSystemId() ) ) +
+      ErrorXMLParser, "systemId=" + toUString( ex.getSystemId() ) +
                          " xmlLine=" + toString( ex.getLineNumber() ) +
                          " xmlColumn=" + toString( ex.getColumnNumber() ) +
-                         " parserMessage=" + ustring( XMLString::transcode( ex.getMessage() ) ) );
+                         " parserMessage=" + toUString( ex.getMessage() ) );
 }
 
 void E57XmlParser::fatalError( const SAXParseException &ex )
 {
    throw E57_EXCEPTION2(
-      ErrorXMLParser, "systemId=" + ustring( XMLString::transcode( ex.getSystemId() ) ) +
+      ErrorXMLParser, "systemId=" + toUString( ex.getSystemId() ) +
                          " xmlLine=" + toString( ex.getLineNumber() ) +
                          " xmlColumn=" + toString( ex.getColumnNumber() ) +
-                         " parserMessage=" + ustring( XMLString::transcode( ex.getMessage() ) ) );
+                         " parserMessage=" + toUString( ex.getMessage() ) );
 }
 
 void E57XmlParser::warning( const SAXParseException &ex )
 {
    // Don't take any action on warning from parser, just report
-   std::cerr << "**** XML parser warning: " << ustring( XMLString::transcode( ex.getMessage() ) )
+   std::cerr << "**** XML parser warning: " << toUString( ex.getMessage() )
              << std::endl;
    std::cerr << "  Debug info:" << std::endl;
-   std::cerr << "    systemId=" << XMLString::transcode( ex.getSystemId() ) << std::endl;
+   std::cerr << "    systemId=" << toUString( ex.getSystemId() ) << std::endl;
    std::cerr << ",   xmlLine=" << ex.getLineNumber() << std::endl;
    std::cerr << ",   xmlColumn=" << ex.getColumnNumber() << std::endl;
 }
-- 
2.43.0


From c5f6f110a386ad5e1188b106735b58fbbfe95bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:04 +0000
Subject: [PATCH 21/66] fix: do not throw read errors through the XML parser's
 constructors

---
 src/E57XmlParser.cpp | 46 ++++++++++++++++++++++++++++++++++++--------
 src/E57XmlParser.h   |  8 +++++++-
 2 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index d0d4150..6cf004e 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -138,7 +138,8 @@ namespace
 class E57FileInputStream : public BinInputStream
 {
 public:
-   E57FileInputStream( CheckedFile *cf, uint64_t logicalStart, uint64_t logicalLength );
+   E57FileInputStream( CheckedFile *cf, uint64_t logicalStart, uint64_t logicalLength,
+                       std::exception_ptr &readError );
    ~E57FileInputStream() override = default;
 
    E57FileInputStream( const E57FileInputStream & ) = delete;
@@ -162,12 +163,13 @@ private:
    uint64_t logicalStart_;
    uint64_t logicalLength_;
    uint64_t logicalPosition_;
+   std::exception_ptr &readError_; /// Set when reading fails
 };
 
 E57FileInputStream::E57FileInputStream( CheckedFile *cf, uint64_t logicalStart,
-                                        uint64_t logicalLength ) :
+                                        uint64_t logicalLength, std::exception_ptr &readError ) :
    cf_( cf ), logicalStart_( logicalStart ), logicalLength_( logicalLength ),
-   logicalPosition_( logicalStart )
+   logicalPosition_( logicalStart ), readError_( readError )
 {
 }
 
@@ -216,8 +218,18 @@ XMLSize_t E57FileInputStream::readBytes( XMLByte *const toFill, const XMLSize_t
 
    size_t readCount = std::min( maxToRead_size, available_size );
 
-   cf_->seek( logicalPosition_ );
-   cf_->read( reinterpret_cast<char *>( toFill ), readCount ); //??? cast ok?
+   // Xerces leaks memory if we throw through it here, so end the stream and keep the error for
+   // rethrowReadError().
+   try
+   {
+      cf_->seek( logicalPosition_ );
+      cf_->read( reinterpret_cast<char *>( toFill ), readCount ); //??? cast ok?
+   }
+   catch ( ... )
+   {
+      readError_ = std::current_exception();
+      return ( 0 );
+   }
    logicalPosition_ += readCount;
    return ( readCount );
 }
@@ -236,7 +248,15 @@ E57XmlFileInputSource::E57XmlFileInputSource( CheckedFile *cf, uint64_t logicalS
 
 BinInputStream *E57XmlFileInputSource::makeStream() const
 {
-   return new E57FileInputStream( cf_, logicalStart_, logicalLength_ );
+   return new E57FileInputStream( cf_, logicalStart_, logicalLength_, readError_ );
+}
+
+void E57XmlFileInputSource::rethrowReadError() const
+{
+   if ( readError_ )
+   {
+      std::rethrow_exception( readError_ );
+   }
 }
 
 //=============================================================================
@@ -335,9 +355,19 @@ void E57XmlParser::init()
    xmlReader->setErrorHandler( this );
 }
 
-void E57XmlParser::parse( InputSource &inputSource )
+void E57XmlParser::parse( E57XmlFileInputSource &inputSource )
 {
-   xmlReader->parse( inputSource );
+   try
+   {
+      xmlReader->parse( inputSource );
+   }
+   catch ( ... )
+   {
+      inputSource.rethrowReadError();
+      throw;
+   }
+
+   inputSource.rethrowReadError();
 }
 
 void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const localName,
diff --git a/src/E57XmlParser.h b/src/E57XmlParser.h
index 2b599e1..6dc48a4 100644
--- a/src/E57XmlParser.h
+++ b/src/E57XmlParser.h
@@ -27,6 +27,7 @@
 
 #pragma once
 
+#include <exception>
 #include <stack>
 
 #include <xercesc/sax/InputSource.hpp>
@@ -45,6 +46,7 @@ namespace XERCES_CPP_NAMESPACE
 namespace e57
 {
    class CheckedFile;
+   class E57XmlFileInputSource;
 
    class E57XmlParser : public DefaultHandler
    {
@@ -54,7 +56,7 @@ namespace e57
 
       void init();
 
-      void parse( InputSource &inputSource );
+      void parse( E57XmlFileInputSource &inputSource );
 
    private:
       /// SAX interface
@@ -115,10 +117,14 @@ namespace e57
 
       BinInputStream *makeStream() const override;
 
+      /// Throws what reading the stream ended with, if it failed
+      void rethrowReadError() const;
+
    private:
       //??? lifetime of cf_ must be longer than this object!
       CheckedFile *cf_;
       uint64_t logicalStart_;
       uint64_t logicalLength_;
+      mutable std::exception_ptr readError_;
    };
 }
-- 
2.43.0


From 0912f0cea41f4138b59109a822a32cce775d95af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:57 +0000
Subject: [PATCH 22/66] fix: format integers without depending on the locale or
 on stream memory

---
 src/CheckedFile.cpp       | 10 ++++------
 src/StructureNodeImpl.cpp |  5 ++---
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index d653076..8b33e14 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -469,16 +469,14 @@ CheckedFile &CheckedFile::operator<<( const ustring &s )
 
 CheckedFile &CheckedFile::operator<<( int64_t i )
 {
-   std::stringstream ss;
-   ss << i;
-   return ( *this << ss.str() );
+   // Unlike a stream, this neither depends on the locale nor drops digits when out of memory
+   return ( *this << std::to_string( i ) );
 }
 
 CheckedFile &CheckedFile::operator<<( uint64_t i )
 {
-   std::stringstream ss;
-   ss << i;
-   return ( *this << ss.str() );
+   // Unlike a stream, this neither depends on the locale nor drops digits when out of memory
+   return ( *this << std::to_string( i ) );
 }
 
 CheckedFile &CheckedFile::operator<<( float f )
diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index e64f7e9..5c42c98 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -236,8 +236,7 @@ void StructureNodeImpl::set( int64_t index64, NodeImplSharedPtr ni )
    }
 
    // Field name is string version of index value, e.g. "14"
-   std::stringstream elementName;
-   elementName << index;
+   const ustring elementName = std::to_string( index );
 
    // If this struct is type constrained, can't add new child
    if ( isTypeConstrained() )
@@ -245,7 +244,7 @@ void StructureNodeImpl::set( int64_t index64, NodeImplSharedPtr ni )
       throw E57_EXCEPTION2( ErrorHomogeneousViolation, "this->pathName=" + this->pathName() );
    }
 
-   ni->setParent( shared_from_this(), elementName.str() );
+   ni->setParent( shared_from_this(), elementName );
    children_.push_back( ni );
 }
 
-- 
2.43.0


From 399fe131fa6f01919f18e372ec5bd5d7c1dc7a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:06 +0000
Subject: [PATCH 23/66] fix: report running out of memory while converting
 floating point text

---
 src/StringFunctions.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StringFunctions.cpp b/src/StringFunctions.cpp
index 056a4aa..43e92b5 100644
--- a/src/StringFunctions.cpp
+++ b/src/StringFunctions.cpp
@@ -11,6 +11,7 @@ namespace e57
 
       std::stringstream ss;
       ss.imbue( std::locale::classic() );
+      ss.exceptions( std::ios::badbit ); // report running out of memory
 
       ss << std::scientific << std::setprecision( precision ) << value;
 
@@ -65,6 +66,7 @@ namespace e57
    {
       std::istringstream iss{ inStr };
       iss.imbue( std::locale::classic() );
+      iss.exceptions( std::ios::badbit ); // report running out of memory
       double res = 0.;
       iss >> res;
       return res;
-- 
2.43.0


From 1a32eb51da3bca64878de943e8dcd995ec6f20b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:45 +0000
Subject: [PATCH 24/66] fix: refuse blob accesses with a negative or
 overflowing range

---
 src/BlobNodeImpl.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/BlobNodeImpl.cpp b/src/BlobNodeImpl.cpp
index 12ba879..301370f 100644
--- a/src/BlobNodeImpl.cpp
+++ b/src/BlobNodeImpl.cpp
@@ -123,10 +123,9 @@ namespace e57
 
    void BlobNodeImpl::read( uint8_t *buf, int64_t start, size_t count )
    {
-      //??? check start not negative
-
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
-      if ( static_cast<uint64_t>( start ) + count > blobLogicalLength_ )
+      if ( start < 0 || static_cast<uint64_t>( start ) > blobLogicalLength_ ||
+           count > blobLogicalLength_ - static_cast<uint64_t>( start ) )
       {
          throw E57_EXCEPTION2( ErrorBadAPIArgument,
                                "this->pathName=" + this->pathName() +
@@ -142,7 +141,6 @@ namespace e57
 
    void BlobNodeImpl::write( uint8_t *buf, int64_t start, size_t count )
    {
-      //??? check start not negative
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
       ImageFileImplSharedPtr destImageFile( destImageFile_ );
@@ -156,7 +154,8 @@ namespace e57
          throw E57_EXCEPTION2( ErrorNodeUnattached, "fileName=" + destImageFile->fileName() );
       }
 
-      if ( static_cast<uint64_t>( start ) + count > blobLogicalLength_ )
+      if ( start < 0 || static_cast<uint64_t>( start ) > blobLogicalLength_ ||
+           count > blobLogicalLength_ - static_cast<uint64_t>( start ) )
       {
          throw E57_EXCEPTION2( ErrorBadAPIArgument,
                                "this->pathName=" + this->pathName() +
-- 
2.43.0


From 665a7db6980973dec65cfce75cd5cf6307dacc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:47 +0000
Subject: [PATCH 25/66] fix: refuse to create a blob with a negative size or in
 a read-only file

---
 src/BlobNodeImpl.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/BlobNodeImpl.cpp b/src/BlobNodeImpl.cpp
index 301370f..e0a6c8e 100644
--- a/src/BlobNodeImpl.cpp
+++ b/src/BlobNodeImpl.cpp
@@ -40,6 +40,15 @@ namespace e57
 
       ImageFileImplSharedPtr imf( destImageFile );
 
+      if ( !imf->isWriter() )
+      {
+         throw E57_EXCEPTION2( ErrorFileReadOnly, "fileName=" + imf->fileName() );
+      }
+      if ( byteCount < 0 )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "byteCount=" + toString( byteCount ) );
+      }
+
       // This what caller thinks blob length is
       blobLogicalLength_ = byteCount;
 
-- 
2.43.0


From 43bbacf6c8b4ede4bf1489648e92fc7a19a65465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:20 +0000
Subject: [PATCH 26/66] fix: refuse a second record writer on a compressed
 vector that already has records

---
 src/CompressedVectorNodeImpl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CompressedVectorNodeImpl.cpp b/src/CompressedVectorNodeImpl.cpp
index 63ae31c..350ad6b 100644
--- a/src/CompressedVectorNodeImpl.cpp
+++ b/src/CompressedVectorNodeImpl.cpp
@@ -304,6 +304,13 @@ namespace e57
          throw E57_EXCEPTION2( ErrorNodeUnattached, "fileName=" + destImageFile->fileName() );
       }
 
+      // Records can only be written once
+      if ( recordCount_ > 0 )
+      {
+         throw E57_EXCEPTION2( ErrorSetTwice, "fileName=" + destImageFile->fileName() +
+                                                 " this->pathName=" + this->pathName() );
+      }
+
       // Get pointer to me (really shared_ptr<CompressedVectorNodeImpl>)
       NodeImplSharedPtr ni( shared_from_this() );
 
-- 
2.43.0


From 4c5674733ec8ea2064d546a12842fb5019b36e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:42 +0000
Subject: [PATCH 27/66] fix: report ErrorImageFileNotOpen when a node outlives
 its image file

---
 src/NodeImpl.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/NodeImpl.cpp b/src/NodeImpl.cpp
index 4f716db..09f4237 100644
--- a/src/NodeImpl.cpp
+++ b/src/NodeImpl.cpp
@@ -135,7 +135,14 @@ ustring NodeImpl::elementName() const
 ImageFileImplSharedPtr NodeImpl::destImageFile()
 {
    // don't checkImageFileOpen
-   return ImageFileImplSharedPtr( destImageFile_ );
+   ImageFileImplSharedPtr imf( destImageFile_.lock() );
+
+   if ( !imf )
+   {
+      throw E57_EXCEPTION2( ErrorImageFileNotOpen, "the image file no longer exists" );
+   }
+
+   return imf;
 }
 
 bool NodeImpl::isAttached() const
@@ -155,7 +162,12 @@ void NodeImpl::setAttachedRecursive()
 ustring NodeImpl::imageFileName() const
 {
    // don't checkImageFileOpen
-   ImageFileImplSharedPtr imf( destImageFile_ );
+   ImageFileImplSharedPtr imf( destImageFile_.lock() );
+
+   if ( !imf )
+   {
+      throw E57_EXCEPTION2( ErrorImageFileNotOpen, "the image file no longer exists" );
+   }
 
    return imf->fileName();
 }
-- 
2.43.0


From da209a7e3613693b9a5c9589aca4e342a6e25a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:45 +0000
Subject: [PATCH 28/66] fix: refuse an extension index out of range instead of
 reading past the list

---
 src/ImageFileImpl.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 0187868..f57751e 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -467,14 +467,26 @@ namespace e57
    {
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
-      return nameSpaces_[index].prefix; //??? throw e57 exception here if out of bounds?
+      if ( index >= nameSpaces_.size() )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "index=" + toString( index ) + " count=" +
+                                                       toString( nameSpaces_.size() ) );
+      }
+
+      return nameSpaces_[index].prefix;
    }
 
    ustring ImageFileImpl::extensionsUri( const size_t index ) const
    {
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
-      return nameSpaces_[index].uri; //??? throw e57 exception here if out of bounds?
+      if ( index >= nameSpaces_.size() )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "index=" + toString( index ) + " count=" +
+                                                       toString( nameSpaces_.size() ) );
+      }
+
+      return nameSpaces_[index].uri;
    }
 
    bool ImageFileImpl::isElementNameExtended( const ustring &elementName )
-- 
2.43.0


From 3def67e84507259412b3b38f7d8817b739eecc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:46 +0000
Subject: [PATCH 29/66] fix: refuse to declare an extension in a file opened
 for reading

---
 src/ImageFile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ImageFile.cpp b/src/ImageFile.cpp
index 1947a44..3886dd1 100644
--- a/src/ImageFile.cpp
+++ b/src/ImageFile.cpp
@@ -507,6 +507,11 @@ See the class discussion at bottom of ImageFile page for more details about name
 */
 void ImageFile::extensionsAdd( const ustring &prefix, const ustring &uri )
 {
+   if ( impl_->isOpen() && !impl_->isWriter() )
+   {
+      throw E57_EXCEPTION2( ErrorFileReadOnly, "fileName=" + impl_->fileName() );
+   }
+
    impl_->extensionsAdd( prefix, uri );
 }
 
-- 
2.43.0


From 0993ab0004dace77f3396ecd0ec156cc5bc7fb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:06 +0000
Subject: [PATCH 30/66] fix: setting a child of a vector by path follows the
 rules of append

---
 src/StructureNodeImpl.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index 5c42c98..498c6ad 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -330,6 +330,19 @@ void StructureNodeImpl::set( const std::vector<ustring> &fields, unsigned level,
    // Check if we are at bottom level
    if ( level == fields.size() - 1 )
    {
+      // The element names of a vector's children are their positions, so can only append
+      if ( type() == TypeVector )
+      {
+         if ( fields.at( level ) != std::to_string( children_.size() ) )
+         {
+            throw E57_EXCEPTION2( ErrorPathUndefined, "this->pathName=" + this->pathName() +
+                                                         " field=" + fields.at( level ) );
+         }
+
+         append( ni );
+         return;
+      }
+
       // At bottom, so append node at end of children
       ni->setParent( shared_from_this(), fields.at( level ) );
       children_.push_back( ni );
-- 
2.43.0


From c1476720ab0afa56f59553aefe4650bdc27f4137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:08 +0000
Subject: [PATCH 31/66] fix: refuse to attach an element made for another image
 file by path

---
 src/StructureNodeImpl.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index 498c6ad..7c57890 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -343,6 +343,16 @@ void StructureNodeImpl::set( const std::vector<ustring> &fields, unsigned level,
          return;
       }
 
+      // Verify that child is destined for same ImageFile as this is
+      ImageFileImplSharedPtr thisDest( destImageFile() );
+      ImageFileImplSharedPtr niDest( ni->destImageFile() );
+      if ( thisDest != niDest )
+      {
+         throw E57_EXCEPTION2( ErrorDifferentDestImageFile,
+                               "this->destImageFile" + thisDest->fileName() +
+                                  " ni->destImageFile" + niDest->fileName() );
+      }
+
       // At bottom, so append node at end of children
       ni->setParent( shared_from_this(), fields.at( level ) );
       children_.push_back( ni );
-- 
2.43.0


From 62297af2272d48aed997bd4f5c2e9f6d339e2793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:10 +0000
Subject: [PATCH 32/66] fix: refuse to attach a node below itself

---
 src/NodeImpl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/NodeImpl.cpp b/src/NodeImpl.cpp
index 09f4237..3cb994f 100644
--- a/src/NodeImpl.cpp
+++ b/src/NodeImpl.cpp
@@ -192,6 +192,14 @@ void NodeImpl::setParent( NodeImplSharedPtr parent, const ustring &elementName )
                                " newParent->pathName=" + parent->pathName() );
    }
 
+   // A node can't become a child of itself or of one of its descendants
+   if ( parent->getRoot() == shared_from_this() )
+   {
+      throw E57_EXCEPTION2( ErrorAlreadyHasParent,
+                            "this->pathName=" + this->pathName() +
+                               " newParent->pathName=" + parent->pathName() );
+   }
+
    parent_ = parent;
    elementName_ = elementName;
 
-- 
2.43.0


From a383d031dd3ae472b80d22377bb3bb2b1f38b25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:20 +0000
Subject: [PATCH 33/66] fix: refuse to add elements to a file opened for
 reading

---
 src/StructureNode.cpp | 8 ++++++++
 src/VectorNode.cpp    | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/StructureNode.cpp b/src/StructureNode.cpp
index c01a9ef..dcf1038 100644
--- a/src/StructureNode.cpp
+++ b/src/StructureNode.cpp
@@ -29,6 +29,7 @@
 
 /// @file StructureNode.cpp
 
+#include "ImageFileImpl.h"
 #include "StringFunctions.h"
 #include "StructureNodeImpl.h"
 
@@ -352,6 +353,13 @@ destImageFile() == n.destImageFile()).
 */
 void StructureNode::set( const ustring &pathName, const Node &n )
 {
+   impl_->checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
+
+   if ( !impl_->destImageFile()->isWriter() )
+   {
+      throw E57_EXCEPTION2( ErrorFileReadOnly, "this->pathName=" + impl_->pathName() );
+   }
+
    impl_->set( pathName, n.impl(), false );
 }
 
diff --git a/src/VectorNode.cpp b/src/VectorNode.cpp
index 8ba5ab5..c884e32 100644
--- a/src/VectorNode.cpp
+++ b/src/VectorNode.cpp
@@ -29,6 +29,7 @@
 
 /// @file VectorNode.cpp
 
+#include "ImageFileImpl.h"
 #include "StringFunctions.h"
 #include "VectorNodeImpl.h"
 
@@ -380,6 +381,13 @@ destImageFile().isWritable()).
 */
 void VectorNode::append( const Node &n )
 {
+   impl_->checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
+
+   if ( !impl_->destImageFile()->isWriter() )
+   {
+      throw E57_EXCEPTION2( ErrorFileReadOnly, "this->pathName=" + impl_->pathName() );
+   }
+
    impl_->append( n.impl() );
 }
 
-- 
2.43.0


From 5b7e61967762b06f58c82c45b2d2e7a030df1df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:23 +0000
Subject: [PATCH 34/66] fix: do not throw from ImageFile::cancel when closing a
 file opened for reading fails

---
 src/ImageFileImpl.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index f57751e..32ebf27 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -319,10 +319,6 @@ namespace e57
       {
          file_->unlink();
       }
-      else
-      {
-         file_->close();
-      }
 
       delete file_;
       file_ = nullptr;
-- 
2.43.0


From 00ebbbae82e5250737a57b615b7cacb5164f7ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:54 +0000
Subject: [PATCH 35/66] fix: refuse a number as the name of a child of a
 structure

---
 src/StructureNodeImpl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index 7c57890..edf4a61 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -343,6 +343,13 @@ void StructureNodeImpl::set( const std::vector<ustring> &fields, unsigned level,
          return;
       }
 
+      // A number can't be the name of an XML element, so is only good for the child of a vector
+      if ( '0' <= fields.at( level )[0] && fields.at( level )[0] <= '9' )
+      {
+         throw E57_EXCEPTION2( ErrorPathNameMalformed, "this->pathName=" + this->pathName() +
+                                                          " field=" + fields.at( level ) );
+      }
+
       // Verify that child is destined for same ImageFile as this is
       ImageFileImplSharedPtr thisDest( destImageFile() );
       ImageFileImplSharedPtr niDest( ni->destImageFile() );
-- 
2.43.0


From 5e7d634ebf340360a00da4245f384b8ac6ed8b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:57 +0000
Subject: [PATCH 36/66] fix: refuse an extended element name whose local part
 is not a legal XML name

---
 src/ImageFileImpl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 32ebf27..7b3bc9e 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -751,7 +751,12 @@ namespace e57
          prefix = elementName.substr( 0, found );
          localPart = elementName.substr( found + 1 );
 
-         if ( prefix.length() == 0 || localPart.length() == 0 )
+         // The local part must be good as the start of a name too, otherwise the XML isn't legal
+         c = localPart.empty() ? 0 : localPart[0];
+
+         if ( prefix.length() == 0 || localPart.length() == 0 ||
+              ( c < 128 &&
+                !( ( 'a' <= c && c <= 'z' ) || ( 'A' <= c && c <= 'Z' ) || c == '_' ) ) )
          {
             throw E57_EXCEPTION2( ErrorPathNameMalformed, "elementName=" + elementName +
                                                              " prefix=" + prefix +
-- 
2.43.0


From 26a33c157ce197da63c6ad3946000b3dc70aa215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:59 +0000
Subject: [PATCH 37/66] fix: refuse a NaN float element and treat infinite
 bounds as no bounds

---
 src/FloatNodeImpl.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/FloatNodeImpl.cpp b/src/FloatNodeImpl.cpp
index 0486354..8904638 100644
--- a/src/FloatNodeImpl.cpp
+++ b/src/FloatNodeImpl.cpp
@@ -49,12 +49,25 @@ namespace e57
             maximum_ = FLOAT_MAX;
          }
       }
+      else
+      {
+         // Infinity can't be stored, so means no bound
+         if ( minimum_ < DOUBLE_MIN )
+         {
+            minimum_ = DOUBLE_MIN;
+         }
+         if ( maximum_ > DOUBLE_MAX )
+         {
+            maximum_ = DOUBLE_MAX;
+         }
+      }
    }
 
    // Throw an exception if the value is not within bounds.
    void FloatNodeImpl::validateValue() const
    {
-      if ( value_ < minimum_ || value_ > maximum_ )
+      // Written so that NaN, which can't be stored, is never within bounds
+      if ( !( value_ >= minimum_ && value_ <= maximum_ ) )
       {
          throw E57_EXCEPTION2( ErrorValueOutOfBounds, "this->pathName=" + this->pathName() +
                                                          " value=" + toString( value_ ) +
-- 
2.43.0


From 3f1855ac17cfa5d1c489f550775529c816701faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:02 +0000
Subject: [PATCH 38/66] fix: report a double that does not fit in a float
 instead of storing infinity

---
 src/SourceDestBufferImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index ee779e2..99861e0 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -246,7 +246,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
             /// Does this count as conversion?  It loses information.
             /// Check for really large exponents that can't fit in a single
             /// precision
-            if ( inValue < DOUBLE_MIN || DOUBLE_MAX < inValue )
+            if ( inValue < FLOAT_MIN || FLOAT_MAX < inValue )
             {
                throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                      "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -588,7 +588,7 @@ float SourceDestBufferImpl::getNextFloat()
          double d = *reinterpret_cast<double *>( p );
 
          ///??? silently limit here?
-         if ( d < DOUBLE_MIN || DOUBLE_MAX < d )
+         if ( d < FLOAT_MIN || FLOAT_MAX < d )
          {
             throw E57_EXCEPTION2( ErrorReal64TooLarge,
                                   "pathName=" + pathName_ + " value=" + toString( d ) );
@@ -917,7 +917,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          }
          /// Check that exponent of result is not too big for single precision
          /// float
-         if ( scaledValue < DOUBLE_MIN || DOUBLE_MAX < scaledValue )
+         if ( scaledValue < FLOAT_MIN || FLOAT_MAX < scaledValue )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
-- 
2.43.0


From ccda7688cb9ca76f906c3bcdd008113d6594adef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:05 +0000
Subject: [PATCH 39/66] fix: refuse the root of an image file as the prototype
 of a compressed vector

---
 src/CompressedVectorNodeImpl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CompressedVectorNodeImpl.cpp b/src/CompressedVectorNodeImpl.cpp
index 350ad6b..e0381f7 100644
--- a/src/CompressedVectorNodeImpl.cpp
+++ b/src/CompressedVectorNodeImpl.cpp
@@ -54,8 +54,9 @@ namespace e57
          throw E57_EXCEPTION2( ErrorSetTwice, "this->pathName=" + this->pathName() );
       }
 
-      // prototype can't have a parent (must be a root node)
-      if ( !prototype->isRoot() )
+      // prototype can't have a parent (must be a root node), and can't be the tree of the file
+      if ( !prototype->isRoot() ||
+           prototype == ImageFileImplSharedPtr( destImageFile_ )->root() )
       {
          throw E57_EXCEPTION2( ErrorAlreadyHasParent,
                                "this->pathName=" + this->pathName() +
-- 
2.43.0


From 9ca81f1f39d87d688d2b0e3e3a382502722b1482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:25 +0000
Subject: [PATCH 40/66] fix: keep carriage returns in string elements

---
 src/StringNodeImpl.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/StringNodeImpl.cpp b/src/StringNodeImpl.cpp
index 8a2fd29..4c63476 100644
--- a/src/StringNodeImpl.cpp
+++ b/src/StringNodeImpl.cpp
@@ -108,10 +108,21 @@ namespace e57
          size_t len = value_.length();
 
          // Loop, searching for occurrences of "]]>", which will be split across two CDATA
-         // directives
+         // directives, and of carriage returns, which a parser would turn into line feeds unless
+         // they are given as character references outside of CDATA
          while ( currentPosition < len )
          {
             size_t found = value_.find( "]]>", currentPosition );
+            const size_t foundCR = value_.find( '\r', currentPosition );
+
+            if ( foundCR < found )
+            {
+               cf << value_.substr( currentPosition, foundCR - currentPosition );
+               cf << "]]>&#xD;<![CDATA[";
+
+               currentPosition = foundCR + 1;
+               continue;
+            }
 
             if ( found == std::string::npos )
             {
-- 
2.43.0


From 99edb37f734e93d2d6fe259405c2c1ef4c73667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:46 +0000
Subject: [PATCH 41/66] fix: refuse an extension with an illegal prefix or an
 empty URI

---
 src/ImageFileImpl.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 7b3bc9e..6581242 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -393,8 +393,20 @@ namespace e57
    void ImageFileImpl::extensionsAdd( const ustring &prefix, const ustring &uri )
    {
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
-      //??? check if prefix characters ok, check if uri has a double quote char
-      //(others?)
+
+      // The prefix must be usable as the start of an element name, and the uri can't be empty
+      ustring prefixPart;
+      ustring localPart;
+
+      if ( !prefix.empty() )
+      {
+         elementNameParse( prefix, prefixPart, localPart ); // throws if bad
+      }
+
+      if ( !prefixPart.empty() || uri.empty() )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "prefix=" + prefix + " uri=" + uri );
+      }
 
       // Check to make sure that neither prefix or uri is already defined.
       ustring dummy;
-- 
2.43.0


From eff0de99a76dbf419ca93fef0e0964b64f5290cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:49 +0000
Subject: [PATCH 42/66] fix: escape extension URIs in the XML section

---
 src/StructureNodeImpl.cpp | 40 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index edf4a61..a764fb6 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -34,6 +34,44 @@
 
 using namespace e57;
 
+namespace
+{
+   // Form of a text that is safe between the quotes of an XML attribute
+   ustring attributeText( const ustring &text )
+   {
+      ustring result;
+
+      for ( char c : text )
+      {
+         switch ( c )
+         {
+            case '&':
+               result += "&amp;";
+               break;
+            case '<':
+               result += "&lt;";
+               break;
+            case '"':
+               result += "&quot;";
+               break;
+            case '\t':
+               result += "&#x9;";
+               break;
+            case '\n':
+               result += "&#xA;";
+               break;
+            case '\r':
+               result += "&#xD;";
+               break;
+            default:
+               result += c;
+         }
+      }
+
+      return result;
+   }
+}
+
 StructureNodeImpl::StructureNodeImpl( ImageFileImplWeakPtr destImageFile ) :
    NodeImpl( destImageFile )
 {
@@ -449,7 +487,7 @@ void StructureNodeImpl::writeXml( ImageFileImplSharedPtr imf, CheckedFile &cf, i
 
          cf << "\n"
             << space( numSpaces ) << xmlnsExtension << imf->extensionsPrefix( index ) << "=\""
-            << imf->extensionsUri( index ) << "\"";
+            << attributeText( imf->extensionsUri( index ) ) << "\"";
       }
 
       // If user didn't explicitly declare a default namespace, use the current E57 standard one.
-- 
2.43.0


From 0be3ebebf4fe4a2b76a45045324a923e6393e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:34 +0000
Subject: [PATCH 43/66] fix: store color limits when only green or blue ones
 are set

---
 src/WriterImpl.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index e6f4914..a1b0c32 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -699,8 +699,7 @@ namespace e57
          scan.set( "intensityLimits", intbox );
       }
 
-      if ( ( data3DHeader.colorLimits.colorRedMaximum != 0.0 ) ||
-           ( data3DHeader.colorLimits.colorRedMinimum != 0.0 ) )
+      if ( data3DHeader.colorLimits != ColorLimits{} )
       {
          StructureNode colorbox( imf_ );
 
-- 
2.43.0


From 44ebd9fc833793869e4d150e977b5e35c1a0e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:41 +0000
Subject: [PATCH 44/66] fix: store bounds of a scan when any of them is set

---
 src/WriterImpl.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index a1b0c32..f4b160b 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -727,8 +727,7 @@ namespace e57
 
       // Add Cartesian bounding box to scan.
       // Path names: "/data3D/0/cartesianBounds/xMinimum", etc...
-      if ( ( data3DHeader.cartesianBounds.xMinimum != -DOUBLE_MAX ) ||
-           ( data3DHeader.cartesianBounds.xMaximum != DOUBLE_MAX ) )
+      if ( data3DHeader.cartesianBounds != CartesianBounds{} )
       {
          StructureNode bbox( imf_ );
 
@@ -742,8 +741,7 @@ namespace e57
          scan.set( "cartesianBounds", bbox );
       }
 
-      if ( ( data3DHeader.sphericalBounds.rangeMinimum != 0.0 ) ||
-           ( data3DHeader.sphericalBounds.rangeMaximum != DOUBLE_MAX ) )
+      if ( data3DHeader.sphericalBounds != SphericalBounds{} )
       {
          StructureNode sbox( imf_ );
 
-- 
2.43.0


From 701c342fdfc0ecf67b6f903133a5cda35c05cc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:48 +0000
Subject: [PATCH 45/66] fix: store acquisition times before the GPS epoch

---
 src/WriterImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index f4b160b..0e1716f 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -241,7 +241,7 @@ namespace e57
                     StringNode( imf_, image2DHeader.associatedData3DGuid ) );
       }
 
-      if ( image2DHeader.acquisitionDateTime.dateTimeValue > 0.0 )
+      if ( image2DHeader.acquisitionDateTime != DateTime{} )
       {
          StructureNode acquisitionDateTime( imf_ );
 
@@ -783,7 +783,7 @@ namespace e57
       // Add start/stop acquisition times to scan.
       // Path names: "/data3D/0/acquisitionStart/dateTimeValue",
       //             "/data3D/0/acquisitionEnd/dateTimeValue"
-      if ( data3DHeader.acquisitionStart.dateTimeValue > 0.0 )
+      if ( data3DHeader.acquisitionStart != DateTime{} )
       {
          StructureNode acquisitionStart( imf_ );
 
@@ -795,7 +795,7 @@ namespace e57
 
          scan.set( "acquisitionStart", acquisitionStart );
       }
-      if ( data3DHeader.acquisitionEnd.dateTimeValue > 0.0 )
+      if ( data3DHeader.acquisitionEnd != DateTime{} )
       {
          StructureNode acquisitionEnd( imf_ );
 
-- 
2.43.0


From 9b1d93f97e6b57946ab9997989d52f8c2822e000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:55 +0000
Subject: [PATCH 46/66] fix: store the projection of an image that also has a
 visual reference

---
 src/WriterImpl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 0e1716f..f6e9138 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -305,8 +305,10 @@ namespace e57
             "imageWidth",
             IntegerNode( imf_, image2DHeader.visualReferenceRepresentation.imageWidth ) );
       }
-      else if ( image2DHeader.pinholeRepresentation.jpegImageSize > 0 ||
-                image2DHeader.pinholeRepresentation.pngImageSize > 0 )
+
+      // The visual reference may come in addition to one of the projections
+      if ( image2DHeader.pinholeRepresentation.jpegImageSize > 0 ||
+           image2DHeader.pinholeRepresentation.pngImageSize > 0 )
       {
          StructureNode pinholeRepresentation( imf_ );
          image.set( "pinholeRepresentation", pinholeRepresentation );
-- 
2.43.0


From 18364b763b1a86297238f3d030a07b2ff68187a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:02 +0000
Subject: [PATCH 47/66] fix: allow limits of point fields that exclude 0

---
 src/WriterImpl.cpp | 99 ++++++++++++++++++++++++++++++----------------
 1 file changed, 65 insertions(+), 34 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index f6e9138..832086e 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -28,6 +28,8 @@
 
 #include <cmath>
 
+#include <algorithm>
+
 #include "WriterImpl.h"
 
 #include "Common.h"
@@ -71,6 +73,19 @@ namespace
                .append( std::to_string( static_cast<int>( inNodeType ) ) );
       }
    }
+
+   /*!
+   @brief Get a value for a node in a prototype. It isn't used, but must be within the node's limits.
+
+   @param inMinimum minimum of the node
+   @param inMaximum maximum of the node
+
+   @return the value closest to 0
+   */
+   template <typename T> T _prototypeValue( T inMinimum, T inMaximum )
+   {
+      return std::max( inMinimum, std::min( inMaximum, T( 0 ) ) );
+   }
 }
 
 namespace e57
@@ -901,18 +916,21 @@ namespace e57
                const auto pointRangeMaximum = static_cast<int64_t>(
                   std::floor( ( pointRangeMax - pointRangeOffset ) / pointRangeScale + .5 ) );
 
-               return ScaledIntegerNode( imf_, 0, pointRangeMinimum, pointRangeMaximum,
-                                         pointRangeScale, pointRangeOffset );
+               return ScaledIntegerNode(
+                  imf_, _prototypeValue( pointRangeMinimum, pointRangeMaximum ), pointRangeMinimum,
+                  pointRangeMaximum, pointRangeScale, pointRangeOffset );
             }
 
             case NumericalNodeType::Float:
             {
-               return FloatNode( imf_, 0.0, PrecisionSingle, pointRangeMin, pointRangeMax );
+               return FloatNode( imf_, _prototypeValue( pointRangeMin, pointRangeMax ), PrecisionSingle, pointRangeMin,
+                                 pointRangeMax );
             }
 
             case NumericalNodeType::Double:
             {
-               return FloatNode( imf_, 0.0, PrecisionDouble, pointRangeMin, pointRangeMax );
+               return FloatNode( imf_, _prototypeValue( pointRangeMin, pointRangeMax ), PrecisionDouble, pointRangeMin,
+                                 pointRangeMax );
             }
          }
 
@@ -968,18 +986,20 @@ namespace e57
                const auto angleMaximum = static_cast<int64_t>(
                   std::floor( ( angleMax - angleOffset ) / angleScale + .5 ) );
 
-               return ScaledIntegerNode( imf_, 0, angleMinimum, angleMaximum, angleScale,
-                                         angleOffset );
+               return ScaledIntegerNode( imf_, _prototypeValue( angleMinimum, angleMaximum ),
+                                         angleMinimum, angleMaximum, angleScale, angleOffset );
             }
 
             case NumericalNodeType::Float:
             {
-               return FloatNode( imf_, 0.0, PrecisionSingle, angleMin, angleMax );
+               return FloatNode( imf_, _prototypeValue( angleMin, angleMax ), PrecisionSingle, angleMin,
+                                 angleMax );
             }
 
             case NumericalNodeType::Double:
             {
-               return FloatNode( imf_, 0.0, PrecisionDouble, angleMin, angleMax );
+               return FloatNode( imf_, _prototypeValue( angleMin, angleMax ), PrecisionDouble, angleMin,
+                                 angleMax );
             }
          }
 
@@ -1008,8 +1028,11 @@ namespace e57
          {
             case NumericalNodeType::Integer:
             {
-               proto.set( "intensity", IntegerNode( imf_, 0, static_cast<int64_t>( intensityMin ),
-                                                    static_cast<int64_t>( intensityMax ) ) );
+               const auto minimum = static_cast<int64_t>( intensityMin );
+               const auto maximum = static_cast<int64_t>( intensityMax );
+
+               proto.set( "intensity", IntegerNode( imf_, _prototypeValue( minimum, maximum ),
+                                                    minimum, maximum ) );
 
                break;
             }
@@ -1024,52 +1047,55 @@ namespace e57
                const auto rawIntegerMinimum =
                   static_cast<int64_t>( std::floor( ( intensityMin - offset ) / scale + .5 ) );
 
-               proto.set( "intensity", ScaledIntegerNode( imf_, 0, rawIntegerMinimum,
-                                                          rawIntegerMaximum, scale, offset ) );
+               proto.set( "intensity",
+                          ScaledIntegerNode(
+                             imf_, _prototypeValue( rawIntegerMinimum, rawIntegerMaximum ),
+                             rawIntegerMinimum, rawIntegerMaximum, scale, offset ) );
 
                break;
             }
 
             case NumericalNodeType::Float:
             {
-               proto.set( "intensity", FloatNode( imf_, 0.0, PrecisionSingle,
-                                                  data3DHeader.intensityLimits.intensityMinimum,
-                                                  data3DHeader.intensityLimits.intensityMaximum ) );
+               proto.set( "intensity",
+                          FloatNode( imf_, _prototypeValue( intensityMin, intensityMax ),
+                                     PrecisionSingle, intensityMin, intensityMax ) );
 
                break;
             }
 
             case NumericalNodeType::Double:
             {
-               proto.set( "intensity", FloatNode( imf_, 0.0, PrecisionDouble,
-                                                  data3DHeader.intensityLimits.intensityMinimum,
-                                                  data3DHeader.intensityLimits.intensityMaximum ) );
+               proto.set( "intensity",
+                          FloatNode( imf_, _prototypeValue( intensityMin, intensityMax ),
+                                     PrecisionDouble, intensityMin, intensityMax ) );
 
                break;
             }
          }
       }
 
+      const auto getColorProto = [=]( double colorMin, double colorMax ) -> Node {
+         const auto minimum = static_cast<int64_t>( colorMin );
+         const auto maximum = static_cast<int64_t>( colorMax );
+
+         return IntegerNode( imf_, _prototypeValue( minimum, maximum ), minimum, maximum );
+      };
+
       if ( data3DHeader.pointFields.colorRedField )
       {
-         proto.set(
-            "colorRed",
-            IntegerNode( imf_, 0, static_cast<int64_t>( data3DHeader.colorLimits.colorRedMinimum ),
-                         static_cast<int64_t>( data3DHeader.colorLimits.colorRedMaximum ) ) );
+         proto.set( "colorRed", getColorProto( data3DHeader.colorLimits.colorRedMinimum,
+                                              data3DHeader.colorLimits.colorRedMaximum ) );
       }
       if ( data3DHeader.pointFields.colorGreenField )
       {
-         proto.set( "colorGreen",
-                    IntegerNode(
-                       imf_, 0, static_cast<int64_t>( data3DHeader.colorLimits.colorGreenMinimum ),
-                       static_cast<int64_t>( data3DHeader.colorLimits.colorGreenMaximum ) ) );
+         proto.set( "colorGreen", getColorProto( data3DHeader.colorLimits.colorGreenMinimum,
+                                              data3DHeader.colorLimits.colorGreenMaximum ) );
       }
       if ( data3DHeader.pointFields.colorBlueField )
       {
-         proto.set(
-            "colorBlue",
-            IntegerNode( imf_, 0, static_cast<int64_t>( data3DHeader.colorLimits.colorBlueMinimum ),
-                         static_cast<int64_t>( data3DHeader.colorLimits.colorBlueMaximum ) ) );
+         proto.set( "colorBlue", getColorProto( data3DHeader.colorLimits.colorBlueMinimum,
+                                              data3DHeader.colorLimits.colorBlueMaximum ) );
       }
 
       if ( data3DHeader.pointFields.returnIndexField )
@@ -1103,8 +1129,11 @@ namespace e57
          {
             case NumericalNodeType::Integer:
             {
-               proto.set( "timeStamp", IntegerNode( imf_, 0, static_cast<int64_t>( timeMinimum ),
-                                                    static_cast<int64_t>( timeMaximum ) ) );
+               const auto minimum = static_cast<int64_t>( timeMinimum );
+               const auto maximum = static_cast<int64_t>( timeMaximum );
+
+               proto.set( "timeStamp", IntegerNode( imf_, _prototypeValue( minimum, maximum ),
+                                                    minimum, maximum ) );
                break;
             }
 
@@ -1118,8 +1147,10 @@ namespace e57
                const auto rawIntegerMaximum =
                   static_cast<int64_t>( std::floor( ( timeMaximum - offset ) / scale + .5 ) );
 
-               proto.set( "timeStamp", ScaledIntegerNode( imf_, 0, rawIntegerMinimum,
-                                                          rawIntegerMaximum, scale, offset ) );
+               proto.set( "timeStamp",
+                          ScaledIntegerNode(
+                             imf_, _prototypeValue( rawIntegerMinimum, rawIntegerMaximum ),
+                             rawIntegerMinimum, rawIntegerMaximum, scale, offset ) );
                break;
             }
 
-- 
2.43.0


From b4c5ac56bd1ea69e5404abd8af8debb4f0956f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:09 +0000
Subject: [PATCH 48/66] fix: apply the time limits to floating point time
 stamps

---
 src/WriterImpl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 832086e..f6ad657 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -1157,14 +1157,16 @@ namespace e57
             case NumericalNodeType::Float:
             {
                proto.set( "timeStamp",
-                          FloatNode( imf_, 0.0, PrecisionSingle, FLOAT_MIN, FLOAT_MAX ) );
+                          FloatNode( imf_, _prototypeValue( timeMinimum, timeMaximum ),
+                                     PrecisionSingle, timeMinimum, timeMaximum ) );
                break;
             }
 
             case NumericalNodeType::Double:
             {
                proto.set( "timeStamp",
-                          FloatNode( imf_, 0.0, PrecisionDouble, DOUBLE_MIN, DOUBLE_MAX ) );
+                          FloatNode( imf_, _prototypeValue( timeMinimum, timeMaximum ),
+                                     PrecisionDouble, timeMinimum, timeMaximum ) );
                break;
             }
          }
-- 
2.43.0


From 239aab79582fce078ba09586f526aced895e6a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:15 +0000
Subject: [PATCH 49/66] fix: derive scaled integer limits only from the point
 fields in use

---
 src/E57SimpleWriter.cpp | 91 +++++++++++++++++++++++++----------------
 1 file changed, 56 insertions(+), 35 deletions(-)

diff --git a/src/E57SimpleWriter.cpp b/src/E57SimpleWriter.cpp
index d11d81e..b39c53d 100644
--- a/src/E57SimpleWriter.cpp
+++ b/src/E57SimpleWriter.cpp
@@ -34,6 +34,32 @@
 
 namespace
 {
+   /// Extend a range by the values of a field (if it is in use)
+   template <typename T>
+   void _extendRange( bool inUse, const T *inBuffer, size_t inCount, T &ioMinimum, T &ioMaximum )
+   {
+      if ( !inUse || ( inBuffer == nullptr ) )
+      {
+         return;
+      }
+
+      for ( size_t i = 0; i < inCount; ++i )
+      {
+         ioMinimum = std::min( inBuffer[i], ioMinimum );
+         ioMaximum = std::max( inBuffer[i], ioMaximum );
+      }
+   }
+
+   /// Make sure that a range calculated from no values at all is a valid one
+   template <typename T> void _emptyRange( T &ioMinimum, T &ioMaximum )
+   {
+      if ( ioMinimum > ioMaximum )
+      {
+         ioMinimum = 0;
+         ioMaximum = 0;
+      }
+   }
+
    /// Fill in missing min/max data in the Data3D header for the following:
    ///   - cartesian points
    ///   - spherical points
@@ -81,42 +107,37 @@ namespace
          ( pointFields.timeMinimum == cMin ) && ( pointFields.timeMaximum == cMax );
 
       // Now run through the points and set the things we need to
-      for ( size_t i = 0; i < ioData3DHeader.pointCount; ++i )
+      const size_t count = ioData3DHeader.pointCount;
+
+      if ( writePointRange )
+      {
+         // Note that the writer code uses pointRangeMinimum/pointRangeMaximum
+         // (see WriterImpl::NewData3D()) for the spherical range instead of using the
+         // sphericalBounds which has rangeMinimum and rangeMaximum.
+         _extendRange( pointFields.cartesianXField, inBuffers.cartesianX, count, pointRangeMinimum,
+                       pointRangeMaximum );
+         _extendRange( pointFields.cartesianYField, inBuffers.cartesianY, count, pointRangeMinimum,
+                       pointRangeMaximum );
+         _extendRange( pointFields.cartesianZField, inBuffers.cartesianZ, count, pointRangeMinimum,
+                       pointRangeMaximum );
+         _extendRange( pointFields.sphericalRangeField, inBuffers.sphericalRange, count,
+                       pointRangeMinimum, pointRangeMaximum );
+         _emptyRange( pointRangeMinimum, pointRangeMaximum );
+      }
+
+      if ( writeAngle )
+      {
+         _extendRange( pointFields.sphericalAzimuthField, inBuffers.sphericalAzimuth, count,
+                       angleMinimum, angleMaximum );
+         _extendRange( pointFields.sphericalElevationField, inBuffers.sphericalElevation, count,
+                       angleMinimum, angleMaximum );
+         _emptyRange( angleMinimum, angleMaximum );
+      }
+
+      if ( writeTimeStamp )
       {
-         if ( writePointRange && pointFields.cartesianXField )
-         {
-            pointRangeMinimum = std::min( inBuffers.cartesianX[i], pointRangeMinimum );
-            pointRangeMinimum = std::min( inBuffers.cartesianY[i], pointRangeMinimum );
-            pointRangeMinimum = std::min( inBuffers.cartesianZ[i], pointRangeMinimum );
-
-            pointRangeMaximum = std::max( inBuffers.cartesianX[i], pointRangeMaximum );
-            pointRangeMaximum = std::max( inBuffers.cartesianY[i], pointRangeMaximum );
-            pointRangeMaximum = std::max( inBuffers.cartesianZ[i], pointRangeMaximum );
-         }
-
-         if ( writePointRange && pointFields.sphericalRangeField )
-         {
-            // Note that the writer code uses pointRangeMinimum/pointRangeMaximum
-            // (see WriterImpl::NewData3D()) instead of using the sphericalBounds which has
-            // rangeMinimum and rangeMaximum.
-            pointRangeMinimum = std::min( inBuffers.sphericalRange[i], pointRangeMinimum );
-            pointRangeMaximum = std::max( inBuffers.sphericalRange[i], pointRangeMaximum );
-         }
-
-         if ( writeAngle )
-         {
-            angleMinimum = std::min( inBuffers.sphericalAzimuth[i], angleMinimum );
-            angleMinimum = std::min( inBuffers.sphericalElevation[i], angleMinimum );
-
-            angleMaximum = std::max( inBuffers.sphericalAzimuth[i], angleMaximum );
-            angleMaximum = std::max( inBuffers.sphericalElevation[i], angleMaximum );
-         }
-
-         if ( writeTimeStamp )
-         {
-            timeMinimum = std::min( inBuffers.timeStamp[i], timeMinimum );
-            timeMaximum = std::max( inBuffers.timeStamp[i], timeMaximum );
-         }
+         _extendRange( true, inBuffers.timeStamp, count, timeMinimum, timeMaximum );
+         _emptyRange( timeMinimum, timeMaximum );
       }
 
       if ( writePointRange )
-- 
2.43.0


From c99f5805e326a68dc397076b507a71529e9a26d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:22 +0000
Subject: [PATCH 50/66] fix: derive scaled integer limits from float buffers
 when left at their defaults

---
 src/E57SimpleWriter.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/E57SimpleWriter.cpp b/src/E57SimpleWriter.cpp
index b39c53d..174d7ff 100644
--- a/src/E57SimpleWriter.cpp
+++ b/src/E57SimpleWriter.cpp
@@ -75,6 +75,12 @@ namespace
       constexpr COORDTYPE cMin = std::numeric_limits<COORDTYPE>::lowest();
       constexpr COORDTYPE cMax = std::numeric_limits<COORDTYPE>::max();
 
+      // The limits may have been left at the defaults of the header, or those of COORDTYPE
+      const auto unset = []( double minimum, double maximum ) {
+         return ( ( minimum == cMin ) && ( maximum == cMax ) ) ||
+                ( ( minimum == e57::DOUBLE_MIN ) && ( maximum == e57::DOUBLE_MAX ) );
+      };
+
       // IF we are using scaled ints for cartesian points
       // AND we haven't set either min or max
       // THEN calculate them from the points
@@ -83,7 +89,7 @@ namespace
 
       const bool writePointRange =
          ( pointFields.pointRangeNodeType == e57::NumericalNodeType::ScaledInteger ) &&
-         ( pointFields.pointRangeMinimum == cMin ) && ( pointFields.pointRangeMaximum == cMax );
+         unset( pointFields.pointRangeMinimum, pointFields.pointRangeMaximum );
 
       // IF we are using scaled ints for spherical angles
       // AND we haven't set either min or max
@@ -93,7 +99,7 @@ namespace
 
       const bool writeAngle =
          ( pointFields.angleNodeType == e57::NumericalNodeType::ScaledInteger ) &&
-         ( pointFields.angleMinimum == cMin ) && ( pointFields.angleMaximum == cMax );
+         unset( pointFields.angleMinimum, pointFields.angleMaximum );
 
       // IF we are using scaled ints for timestamps
       // AND we haven't set either min or max
@@ -104,7 +110,7 @@ namespace
       const bool writeTimeStamp =
          pointFields.timeStampField &&
          ( pointFields.timeNodeType == e57::NumericalNodeType::ScaledInteger ) &&
-         ( pointFields.timeMinimum == cMin ) && ( pointFields.timeMaximum == cMax );
+         unset( pointFields.timeMinimum, pointFields.timeMaximum );
 
       // Now run through the points and set the things we need to
       const size_t count = ioData3DHeader.pointCount;
-- 
2.43.0


From 9dabf3ecbae0c35feaf015f8b8851f9fa5a83fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:28 +0000
Subject: [PATCH 51/66] fix: do not let exceptions leave the destructors of
 Reader and Writer

---
 src/ReaderImpl.cpp | 11 +++++++++--
 src/WriterImpl.cpp | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/ReaderImpl.cpp b/src/ReaderImpl.cpp
index 37bfbe8..88dbd0d 100644
--- a/src/ReaderImpl.cpp
+++ b/src/ReaderImpl.cpp
@@ -200,9 +200,16 @@ namespace e57
 
    ReaderImpl::~ReaderImpl()
    {
-      if ( IsOpen() )
+      try
       {
-         Close();
+         if ( IsOpen() )
+         {
+            Close();
+         }
+      }
+      catch ( ... )
+      {
+         // An exception must not leave the destructor. Call Close() to learn about errors.
       }
    }
 
diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index f6ad657..6bf8597 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -190,9 +190,16 @@ namespace e57
 
    WriterImpl::~WriterImpl()
    {
-      if ( IsOpen() )
+      try
       {
-         Close();
+         if ( IsOpen() )
+         {
+            Close();
+         }
+      }
+      catch ( ... )
+      {
+         // An exception must not leave the destructor. Call Close() to learn about errors.
       }
    }
 
-- 
2.43.0


From ca6f1660a229ea2ad8c5ad1b98dbef438dd95eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:34 +0000
Subject: [PATCH 52/66] fix: make generating GUIDs thread safe

---
 src/Common.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Common.cpp b/src/Common.cpp
index 868c71a..53a3c01 100644
--- a/src/Common.cpp
+++ b/src/Common.cpp
@@ -11,9 +11,11 @@ namespace e57
    std::string generateRandomGUID()
    {
       static constexpr const char UUID_CHARS[] = "0123456789ABCDEF";
-      static std::random_device rd;
-      static std::mt19937 gen( rd() );
-      static std::uniform_int_distribution<> dis( 0, 15 /* number of chars in UUID_CHARS */ );
+      // Files may be written by several threads at once, so each has its own generator
+      static thread_local std::random_device rd;
+      static thread_local std::mt19937 gen( rd() );
+      static thread_local std::uniform_int_distribution<> dis(
+         0, 15 /* number of chars in UUID_CHARS */ );
 
       std::string uuid( 38, ' ' );
 
-- 
2.43.0


From 6f0900fb13aa60c541a5f4286a8c88e49f3d48b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:41 +0000
Subject: [PATCH 53/66] fix: guard the initialization of the XML platform

---
 src/E57XmlParser.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 6cf004e..5bf33f1 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -27,6 +27,7 @@
 
 #include <limits>
 #include <locale>
+#include <mutex>
 #include <sstream>
 
 #include <xercesc/sax2/Attributes.hpp>
@@ -50,6 +51,9 @@
 using namespace e57;
 using namespace XERCES_CPP_NAMESPACE;
 
+// guards the initialization of the XML platform, which is shared by all parsers
+static std::mutex platformMutex;
+
 // define convenient constants for the attribute names
 static const XMLCh att_minimum[] = { chLatin_m, chLatin_i, chLatin_n, chLatin_i,
                                      chLatin_m, chLatin_u, chLatin_m, chNull };
@@ -308,6 +312,8 @@ E57XmlParser::~E57XmlParser()
 
    xmlReader = nullptr;
 
+   std::lock_guard<std::mutex> lock( platformMutex );
+
    XMLPlatformUtils::Terminate();
 }
 
@@ -316,8 +322,10 @@ void E57XmlParser::init()
    // Initialize the XML4C2 system
    try
    {
-      // NOTE: This is not thread safe for multiple simultaneous E57 readers.
-      //       Ideally we'd do this once, not once per reader.
+      // Initialize() and Terminate() are not thread safe, so guard against multiple simultaneous
+      // E57 readers. Ideally we'd do this once, not once per reader.
+      std::lock_guard<std::mutex> lock( platformMutex );
+
       XMLPlatformUtils::Initialize();
    }
    catch ( const XMLException &ex )
-- 
2.43.0


From 104645257eefc823acd328bf472891d723b3e856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:40 +0000
Subject: [PATCH 54/66] fix: leave the tree unchanged when adding a child runs
 out of memory

---
 src/NodeImpl.cpp          |  2 +-
 src/StructureNodeImpl.cpp | 19 ++++++++++++++++---
 src/StructureNodeImpl.h   |  2 ++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/NodeImpl.cpp b/src/NodeImpl.cpp
index 3cb994f..663bfeb 100644
--- a/src/NodeImpl.cpp
+++ b/src/NodeImpl.cpp
@@ -200,8 +200,8 @@ void NodeImpl::setParent( NodeImplSharedPtr parent, const ustring &elementName )
                                " newParent->pathName=" + parent->pathName() );
    }
 
-   parent_ = parent;
    elementName_ = elementName;
+   parent_ = parent;
 
    // If parent is attached then we are attached (and all of our children)
    if ( parent->isAttached() )
diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index a764fb6..3a64aea 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -282,8 +282,22 @@ void StructureNodeImpl::set( int64_t index64, NodeImplSharedPtr ni )
       throw E57_EXCEPTION2( ErrorHomogeneousViolation, "this->pathName=" + this->pathName() );
    }
 
-   ni->setParent( shared_from_this(), elementName );
+   addChild( ni, elementName );
+}
+
+void StructureNodeImpl::addChild( const NodeImplSharedPtr &ni, const ustring &elementName )
+{
    children_.push_back( ni );
+
+   try
+   {
+      ni->setParent( shared_from_this(), elementName );
+   }
+   catch ( ... )
+   {
+      children_.pop_back();
+      throw;
+   }
 }
 
 void StructureNodeImpl::set( const ustring &pathName, NodeImplSharedPtr ni, bool autoPathCreate )
@@ -399,8 +413,7 @@ void StructureNodeImpl::set( const std::vector<ustring> &fields, unsigned level,
       }
 
       // At bottom, so append node at end of children
-      ni->setParent( shared_from_this(), fields.at( level ) );
-      children_.push_back( ni );
+      addChild( ni, fields.at( level ) );
    }
    else
    {
diff --git a/src/StructureNodeImpl.h b/src/StructureNodeImpl.h
index 3dbb09a..8889496 100644
--- a/src/StructureNodeImpl.h
+++ b/src/StructureNodeImpl.h
@@ -69,6 +69,8 @@ namespace e57
 
       NodeImplSharedPtr lookup( const ustring &pathName ) override;
 
+      void addChild( const NodeImplSharedPtr &ni, const ustring &elementName );
+
       std::vector<NodeImplSharedPtr> children_;
    };
 }
-- 
2.43.0


From 5e89892a82c9b79018d398b6c82869bf6c7d2e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:49 +0000
Subject: [PATCH 55/66] fix: report NaN and values one past the maximum when
 reading floats into integers

Converting a float record to an integer buffer checked the range with
comparisons that NaN passes, and against the maximum of the integer type
rounded up to floating point. NaN, 2^31, 2^32 and 2^63 were then cast to
an integer type that cannot hold them, which is undefined and delivered
arbitrary numbers. They are now reported as not representable.
---
 src/SourceDestBufferImpl.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index 99861e0..abb7926 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -26,6 +26,7 @@
  */
 
 #include <cmath>
+#include <limits>
 
 #include "ImageFileImpl.h"
 #include "SourceDestBufferImpl.h"
@@ -33,6 +34,20 @@
 
 using namespace e57;
 
+namespace
+{
+   /// Whether a floating point value is within the range of an integer type. The maximum may have been
+   /// rounded up to max+1 in floating point, which does not fit. NaN never fits.
+   template <typename I, typename T> bool fitsInteger( T value )
+   {
+      const T minimum = static_cast<T>( std::numeric_limits<I>::min() );
+      const T maximum = static_cast<T>( std::numeric_limits<I>::max() );
+      const T pastMaximum = static_cast<T>( std::numeric_limits<I>::max() / 2 + 1 ) * 2;
+
+      return ( value >= minimum ) && ( value <= maximum ) && ( value < pastMaximum );
+   }
+}
+
 SourceDestBufferImpl::SourceDestBufferImpl( ImageFileImplWeakPtr destImageFile,
                                             const ustring &pathName, const size_t capacity,
                                             bool doConversion, bool doScaling ) :
@@ -152,9 +167,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...  (all other ints below
-         // too)
-         if ( inValue < INT8_MIN || INT8_MAX < inValue )
+         if ( !fitsInteger<int8_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -166,7 +179,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT8_MIN || UINT8_MAX < inValue )
+         if ( !fitsInteger<uint8_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -178,7 +191,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT16_MIN || INT16_MAX < inValue )
+         if ( !fitsInteger<int16_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -190,7 +203,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT16_MIN || UINT16_MAX < inValue )
+         if ( !fitsInteger<uint16_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -202,7 +215,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT32_MIN || ( inValue > static_cast<T>( INT32_MAX ) ) )
+         if ( !fitsInteger<int32_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -214,7 +227,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT32_MIN || ( inValue > ( static_cast<T>( UINT32_MAX ) ) ) )
+         if ( !fitsInteger<uint32_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -226,7 +239,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT64_MIN || ( inValue > ( static_cast<T>( INT64_MAX ) ) ) )
+         if ( !fitsInteger<int64_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
-- 
2.43.0


From be6ec3f18758a1487b25fde9494674c7a9d86fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:59 +0000
Subject: [PATCH 56/66] fix: report scaled values that do not fit a 64-bit
 integer buffer

Reading a scaled integer field with scaling into an int64_t buffer was
the only integer case without a range check. Values beyond 64 bits were
cast anyway, which is undefined and delivered arbitrary numbers.
---
 src/SourceDestBufferImpl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index abb7926..8670d62 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -918,6 +918,12 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<uint32_t *>( p ) = static_cast<uint32_t>( scaledValue );
          break;
       case Int64:
+         if ( !fitsInteger<int64_t>( scaledValue ) )
+         {
+            throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
+                                  "pathName=" + pathName_ +
+                                     " scaledValue=" + toString( scaledValue ) );
+         }
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( scaledValue );
          break;
       case Bool:
-- 
2.43.0


From df149af47edb04a215643346656243394562df36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:08 +0000
Subject: [PATCH 57/66] fix: report NaN and out-of-range values when writing
 floats to integer fields

Writing from a float buffer to an integer or scaled integer field cast
the value to int64_t without a range check, or with one that NaN and
2^63 pass. The result is undefined and could be stored as an ordinary
value of the field. Such values are now reported as not representable.
---
 src/SourceDestBufferImpl.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index 8670d62..8bea495 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -377,7 +377,12 @@ int64_t SourceDestBufferImpl::getNextInt64()
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...
+         if ( !fitsInteger<int64_t>( *reinterpret_cast<float *>( p ) ) )
+         {
+            throw E57_EXCEPTION2( ErrorValueNotRepresentable,
+                                  "pathName=" + pathName_ + " value=" +
+                                     toString( *reinterpret_cast<float *>( p ) ) );
+         }
          value = static_cast<int64_t>( *reinterpret_cast<float *>( p ) );
          break;
       case Real64:
@@ -385,7 +390,12 @@ int64_t SourceDestBufferImpl::getNextInt64()
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...
+         if ( !fitsInteger<int64_t>( *reinterpret_cast<double *>( p ) ) )
+         {
+            throw E57_EXCEPTION2( ErrorValueNotRepresentable,
+                                  "pathName=" + pathName_ + " value=" +
+                                     toString( *reinterpret_cast<double *>( p ) ) );
+         }
          value = static_cast<int64_t>( *reinterpret_cast<double *>( p ) );
          break;
       case UString:
@@ -481,8 +491,6 @@ int64_t SourceDestBufferImpl::getNextInt64( double scale, double offset )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...
-
          /// Calc (x-offset)/scale rounded to nearest integer, but keep in
          /// floating point until sure is in bounds
          doubleRawValue = floor( ( *reinterpret_cast<float *>( p ) - offset ) / scale + 0.5 );
@@ -492,8 +500,6 @@ int64_t SourceDestBufferImpl::getNextInt64( double scale, double offset )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...
-
          /// Calc (x-offset)/scale rounded to nearest integer, but keep in
          /// floating point until sure is in bounds
          doubleRawValue = floor( ( *reinterpret_cast<double *>( p ) - offset ) / scale + 0.5 );
@@ -505,7 +511,7 @@ int64_t SourceDestBufferImpl::getNextInt64( double scale, double offset )
    }
 
    /// Make sure that value is representable in an int64_t
-   if ( doubleRawValue < INT64_MIN || ( doubleRawValue > ( static_cast<double>( INT64_MAX ) ) ) )
+   if ( !fitsInteger<int64_t>( doubleRawValue ) )
    {
       throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                             "pathName=" + pathName_ + " value=" + toString( doubleRawValue ) );
-- 
2.43.0


From ba0ec06ca4ca82452b0d43bb65291d2cc9d41e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:57 +0000
Subject: [PATCH 58/66] fix: keep the intensity limits a scan gives

---
 src/ReaderImpl.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ReaderImpl.cpp b/src/ReaderImpl.cpp
index 88dbd0d..d4c51d8 100644
--- a/src/ReaderImpl.cpp
+++ b/src/ReaderImpl.cpp
@@ -1320,13 +1320,17 @@ namespace e57
       {
          const auto intensityProto = proto.get( "intensity" );
 
+         // The bounds of the field only stand in for limits the scan does not give.
+         const bool haveIntensityLimits = ( data3DHeader.intensityLimits.intensityMinimum != 0.0 ) ||
+                                          ( data3DHeader.intensityLimits.intensityMaximum != 0.0 );
+
          switch ( intensityProto.type() )
          {
             case TypeInteger:
             {
                const IntegerNode integerIntensity( intensityProto );
 
-               if ( data3DHeader.intensityLimits.intensityMaximum == 0.0 )
+               if ( !haveIntensityLimits )
                {
                   data3DHeader.intensityLimits.intensityMinimum =
                      static_cast<double>( integerIntensity.minimum() );
@@ -1345,7 +1349,7 @@ namespace e57
                double scale = scaledIntensity.scale();
                double offset = scaledIntensity.offset();
 
-               if ( data3DHeader.intensityLimits.intensityMaximum == 0.0 )
+               if ( !haveIntensityLimits )
                {
                   const int64_t minimum = scaledIntensity.minimum();
                   const int64_t maximum = scaledIntensity.maximum();
@@ -1366,8 +1370,11 @@ namespace e57
             {
                const FloatNode floatIntensity( intensityProto );
 
-               data3DHeader.intensityLimits.intensityMinimum = floatIntensity.minimum();
-               data3DHeader.intensityLimits.intensityMaximum = floatIntensity.maximum();
+               if ( !haveIntensityLimits )
+               {
+                  data3DHeader.intensityLimits.intensityMinimum = floatIntensity.minimum();
+                  data3DHeader.intensityLimits.intensityMaximum = floatIntensity.maximum();
+               }
 
                if ( floatIntensity.precision() == PrecisionSingle )
                {
-- 
2.43.0


From 5554a1499508787c87269b3622fe1b5846724714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:07 +0000
Subject: [PATCH 59/66] fix: keep the colour limits a scan gives and do not
 truncate field bounds

---
 src/ReaderImpl.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ReaderImpl.cpp b/src/ReaderImpl.cpp
index d4c51d8..2909529 100644
--- a/src/ReaderImpl.cpp
+++ b/src/ReaderImpl.cpp
@@ -159,7 +159,7 @@ namespace e57
       // IF the colorLimits are not set
       // AND our colour node is
       // THEN get our min/max from the colour node itself.
-      if ( ( colourMax == 0.0 ) && proto.isDefined( protoName ) )
+      if ( ( colourMin == 0.0 ) && ( colourMax == 0.0 ) && proto.isDefined( protoName ) )
       {
          const auto colourProto = proto.get( protoName );
 
@@ -167,8 +167,8 @@ namespace e57
          {
             const IntegerNode integerColour( colourProto );
 
-            colourMin = static_cast<uint16_t>( integerColour.minimum() );
-            colourMax = static_cast<uint16_t>( integerColour.maximum() );
+            colourMin = static_cast<double>( integerColour.minimum() );
+            colourMax = static_cast<double>( integerColour.maximum() );
          }
          else if ( colourProto.type() == TypeScaledInteger )
          {
@@ -178,15 +178,15 @@ namespace e57
             const int64_t minimum = scaledColour.minimum();
             const int64_t maximum = scaledColour.maximum();
 
-            colourMin = static_cast<uint16_t>( minimum ) * scale + offset;
-            colourMax = static_cast<uint16_t>( maximum ) * scale + offset;
+            colourMin = static_cast<double>( minimum ) * scale + offset;
+            colourMax = static_cast<double>( maximum ) * scale + offset;
          }
          else if ( colourProto.type() == TypeFloat )
          {
             const FloatNode floatColour( colourProto );
 
-            colourMin = static_cast<uint16_t>( floatColour.minimum() );
-            colourMax = static_cast<uint16_t>( floatColour.maximum() );
+            colourMin = floatColour.minimum();
+            colourMax = floatColour.maximum();
          }
       }
    }
-- 
2.43.0


From abd1782b7d33c0bb2f0a33b1ed5b842e98ed331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:29 +0000
Subject: [PATCH 60/66] fix: refuse text that XML cannot represent instead of
 writing an unreadable file

---
 src/ImageFileImpl.cpp   |  2 +-
 src/StringFunctions.cpp | 56 +++++++++++++++++++++++++++++++++++++++++
 src/StringFunctions.h   |  3 +++
 src/StringNodeImpl.cpp  |  6 +++++
 4 files changed, 66 insertions(+), 1 deletion(-)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 6581242..c8fe809 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -403,7 +403,7 @@ namespace e57
          elementNameParse( prefix, prefixPart, localPart ); // throws if bad
       }
 
-      if ( !prefixPart.empty() || uri.empty() )
+      if ( !prefixPart.empty() || uri.empty() || !isXmlText( uri ) )
       {
          throw E57_EXCEPTION2( ErrorBadAPIArgument, "prefix=" + prefix + " uri=" + uri );
       }
diff --git a/src/StringFunctions.cpp b/src/StringFunctions.cpp
index 43e92b5..118bff0 100644
--- a/src/StringFunctions.cpp
+++ b/src/StringFunctions.cpp
@@ -5,6 +5,62 @@
 
 namespace e57
 {
+   bool isXmlText( const std::string &text )
+   {
+      for ( size_t i = 0; i < text.size(); ++i )
+      {
+         uint32_t c = static_cast<uint8_t>( text[i] );
+         uint32_t least = 0;
+         int following = 0;
+
+         if ( c >= 0xF0 && c <= 0xF4 )
+         {
+            c &= 0x07;
+            least = 0x10000;
+            following = 3;
+         }
+         else if ( c >= 0xE0 && c <= 0xEF )
+         {
+            c &= 0x0F;
+            least = 0x800;
+            following = 2;
+         }
+         else if ( c >= 0xC2 && c <= 0xDF )
+         {
+            c &= 0x1F;
+            least = 0x80;
+            following = 1;
+         }
+         else if ( c >= 0x80 )
+         {
+            return false;
+         }
+
+         for ( ; following > 0; --following )
+         {
+            ++i;
+
+            if ( i >= text.size() || ( static_cast<uint8_t>( text[i] ) & 0xC0 ) != 0x80 )
+            {
+               return false;
+            }
+
+            c = ( c << 6 ) | ( static_cast<uint8_t>( text[i] ) & 0x3F );
+         }
+
+         const bool isWhitespace = ( c == '\t' || c == '\n' || c == '\r' );
+         const bool isCharacter = ( c >= 0x20 && c <= 0xD7FF ) || ( c >= 0xE000 && c <= 0xFFFD ) ||
+                                  ( c >= 0x10000 && c <= 0x10FFFF );
+
+         if ( c < least || !( isWhitespace || isCharacter ) )
+         {
+            return false;
+         }
+      }
+
+      return true;
+   }
+
    template <class FTYPE> std::string floatingPointToStr( FTYPE value, int precision )
    {
       static_assert( std::is_floating_point<FTYPE>::value, "Floating point type required." );
diff --git a/src/StringFunctions.h b/src/StringFunctions.h
index b40b119..a5f3134 100644
--- a/src/StringFunctions.h
+++ b/src/StringFunctions.h
@@ -41,6 +41,9 @@ namespace e57
       return std::string( n, ' ' );
    }
 
+   /// @brief Check that text is valid UTF-8 made only of characters that XML can represent
+   bool isXmlText( const std::string &text );
+
    /// @brief Convert number to decimal string
    template <class T> std::string toString( T x )
    {
diff --git a/src/StringNodeImpl.cpp b/src/StringNodeImpl.cpp
index 4c63476..add8077 100644
--- a/src/StringNodeImpl.cpp
+++ b/src/StringNodeImpl.cpp
@@ -35,6 +35,12 @@ namespace e57
       NodeImpl( destImageFile ), value_( value )
    {
       // don't checkImageFileOpen, NodeImpl() will do it
+
+      // A file with such a value could not be read again
+      if ( !isXmlText( value ) )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "this->pathName=" + this->pathName() );
+      }
    }
 
    bool StringNodeImpl::isTypeEquivalent( NodeImplSharedPtr ni )
-- 
2.43.0


From b38ce5281655c26db4efc29c110b1484652365e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:29 +0000
Subject: [PATCH 61/66] fix: give string buffers the stride their own invariant
 check demands

---
 src/SourceDestBufferImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index 8bea495..b383020 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -135,6 +135,7 @@ SourceDestBufferImpl::SourceDestBufferImpl( ImageFileImplWeakPtr destImageFile,
    }
 
    capacity_ = b->size();
+   stride_ = sizeof( ustring );
 
    checkState_();
 
-- 
2.43.0


From 8a57aec65023db856f47c775c095fd2bfcd7f050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:52 +0000
Subject: [PATCH 62/66] fix: do not leave half a scan or image behind when its
 header is refused

---
 src/WriterImpl.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 6bf8597..b83e638 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -221,12 +221,9 @@ namespace e57
 
    int64_t WriterImpl::NewImage2D( Image2D &image2DHeader )
    {
+      // Attached only when complete, so that a header which is refused leaves no image behind
       StructureNode image( imf_ );
 
-      images2D_.append( image );
-
-      int64_t pos = images2D_.childCount() - 1;
-
       if ( image2DHeader.guid.empty() )
       {
          image2DHeader.guid = generateRandomGUID();
@@ -484,7 +481,9 @@ namespace e57
                          IntegerNode( imf_, static_cast<int64_t>( pcd->CV_WIDTH ) ) );
       }
 
-      return pos;
+      images2D_.append( image );
+
+      return images2D_.childCount() - 1;
    }
 
    size_t WriterImpl::WriteImage2DData( int64_t imageIndex, Image2DType imageType,
@@ -545,10 +544,8 @@ namespace e57
 
    int64_t WriterImpl::NewData3D( Data3D &data3DHeader )
    {
+      // Attached only when complete, so that a header which is refused leaves no scan behind
       StructureNode scan( imf_ );
-      data3D_.append( scan );
-
-      int64_t pos = data3D_.childCount() - 1;
 
       if ( data3DHeader.guid.empty() )
       {
@@ -1237,7 +1234,9 @@ namespace e57
 
       scan.set( "points", points );
 
-      return pos;
+      data3D_.append( scan );
+
+      return data3D_.childCount() - 1;
    }
 
    template <typename COORDTYPE>
-- 
2.43.0


From 4e345059d714c0117361ee19889181fd9ca7f8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:59 +0000
Subject: [PATCH 63/66] fix: do not loop forever writing records when packet
 headers alone reach the target size

With so many bytestreams that an empty packet already reaches the target
packet size, write() kept asking packetWrite() to send nothing and never
encoded a record.
---
 src/CompressedVectorWriterImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index fb77e94..a704de3 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -380,8 +380,8 @@ namespace e57
 #else
          constexpr size_t E57_TARGET_PACKET_SIZE = ( DATA_PACKET_MAX * 3 / 4 );
 #endif
-         // If have more than target fraction of packet, send it now
-         if ( currentPacketSize() >= E57_TARGET_PACKET_SIZE )
+         // If have more than target fraction of packet, send it now (unless it is all header)
+         if ( currentPacketSize() >= E57_TARGET_PACKET_SIZE && totalOutputAvailable() > 0 )
          { //???
             packetWrite();
             continue; // restart loop so recalc statistics (packet size may not be
-- 
2.43.0


From 085ddc0b9147939fbe9226dde11ab3afc918e115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:49:06 +0000
Subject: [PATCH 64/66] fix: do not write empty packets without end when there
 are very many bytestreams

When every bytestream's share of a packet is less than one byte, no data
was put in the packet and close() or write() never finished.
---
 src/CompressedVectorWriterImpl.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index a704de3..d7aa8f0 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -25,6 +25,7 @@
  * DEALINGS IN THE SOFTWARE.
  */
 
+#include <algorithm>
 #include <cmath>
 #include <numeric>
 
@@ -499,6 +500,17 @@ namespace e57
             count.at( i ) = static_cast<unsigned>(
                std::floor( cFractionToSend * cStreams.at( i )->outputAvailable() ) );
          }
+
+         // With very many bytestreams none may be due a whole byte, then fill the packet in order.
+         if ( std::all_of( count.begin(), count.end(), []( size_t n ) { return n == 0; } ) )
+         {
+            size_t remaining = cPacketMaxPayloadBytes;
+            for ( unsigned i = 0; i < cNumByteStreams; ++i )
+            {
+               count.at( i ) = std::min( cStreams.at( i )->outputAvailable(), remaining );
+               remaining -= count.at( i );
+            }
+         }
       }
 
 #ifdef E57_VERBOSE
-- 
2.43.0


From 4dbb0dd4b4e17035685676be7cf1580ce4b7225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:49:13 +0000
Subject: [PATCH 65/66] fix: refuse to write more bytestreams than a data
 packet can hold

The lengths of more than 32764 bytestreams do not fit in a packet, and
were written past the end of the packet buffer.
---
 src/CompressedVectorWriterImpl.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index d7aa8f0..bd136ab 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -68,6 +68,15 @@ namespace e57
       // Check sbufs well formed (matches proto exactly)
       setBuffers( sbufs ); //??? copy code here?
 
+      // The length of every bytestream and at least one byte of data must fit in a data packet
+      if ( sizeof( DataPacketHeader ) + sbufs_.size() * sizeof( uint16_t ) >= DATA_PACKET_MAX )
+      {
+         throw E57_EXCEPTION2( ErrorBadPrototype,
+                               "bytestreamCount=" + toString( sbufs_.size() ) +
+                                  " imageFileName=" + cVector_->imageFileName() +
+                                  " cvPathName=" + cVector_->pathName() );
+      }
+
       // For each individual sbuf, create an appropriate Encoder based on the
       // cVector_ attributes
       for ( unsigned i = 0; i < sbufs_.size(); i++ )
-- 
2.43.0


From 1d68f3f224950bc22a79feec9ca3f6d8ead72bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:46 +0000
Subject: [PATCH 66/66] fix: refuse to add records after a write of records
 failed

A write which fails part way leaves the encoders at different records. The next
write then mixed records of different calls, or never returned when it asked for
fewer records than the failed one had already encoded.
---
 src/CompressedVectorWriterImpl.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index bd136ab..b49d59c 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -345,6 +345,18 @@ namespace e57
                                   " cvPathName=" + cVector_->pathName() );
       }
 
+      // A write which failed part way leaves the bytestreams at different records, nothing can follow
+      for ( auto &bytestream : bytestreams_ )
+      {
+         if ( bytestream->currentRecordIndex() != recordCount_ )
+         {
+            throw E57_EXCEPTION2( ErrorWriteFailed,
+                                  "an earlier write failed, imageFileName=" +
+                                     cVector_->imageFileName() +
+                                     " cvPathName=" + cVector_->pathName() );
+         }
+      }
+
       // Rewind all sbufs so start reading from beginning
       for ( auto &sbuf : sbufs_ )
       {
-- 
2.43.0

