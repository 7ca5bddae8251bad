// Model of a file written through the high-level interface, and sessions over it.
#pragma once
#include <tuple>
#include "E57SimpleReader.h"
#include "E57SimpleWriter.h"
#include "fam.h"

namespace sim
{
   enum SField
   {
      CX,
      CY,
      CZ,
      CInv,
      Intens,
      IntInv,
      Red,
      Green,
      Blue,
      ColInv,
      Range,
      Azim,
      Elev,
      SphInv,
      Row,
      Col,
      RetI,
      RetC,
      Time,
      TimeInv,
      NX,
      NY,
      NZ,
      NSF
   };
   const char *sfieldName( int f );
   bool &sfieldFlag( e57::PointStandardizedFieldsAvailable &p, int f );

   template <class P, class F> auto sfieldVisit( P &p, int f, F fn )
   {
      switch ( f )
      {
         case CX:
            return fn( p.cartesianX );
         case CY:
            return fn( p.cartesianY );
         case CZ:
            return fn( p.cartesianZ );
         case CInv:
            return fn( p.cartesianInvalidState );
         case Intens:
            return fn( p.intensity );
         case IntInv:
            return fn( p.isIntensityInvalid );
         case Red:
            return fn( p.colorRed );
         case Green:
            return fn( p.colorGreen );
         case Blue:
            return fn( p.colorBlue );
         case ColInv:
            return fn( p.isColorInvalid );
         case Range:
            return fn( p.sphericalRange );
         case Azim:
            return fn( p.sphericalAzimuth );
         case Elev:
            return fn( p.sphericalElevation );
         case SphInv:
            return fn( p.sphericalInvalidState );
         case Row:
            return fn( p.rowIndex );
         case Col:
            return fn( p.columnIndex );
         case RetI:
            return fn( p.returnIndex );
         case RetC:
            return fn( p.returnCount );
         case Time:
            return fn( p.timeStamp );
         case TimeInv:
            return fn( p.isTimeStampInvalid );
         case NX:
            return fn( p.normalX );
         case NY:
            return fn( p.normalY );
         default:
            return fn( p.normalZ );
      }
   }

   // Point buffers of exactly the given capacity, owned here.
   template <class T> struct SPoints
   {
      e57::Data3DPointsData_t<T> p;
      std::vector<std::unique_ptr<char[]>> mem;
      void bind( const std::vector<bool> &use, size_t cap )
      {
         for ( int f = 0; f < NSF; f++ )
         {
            if ( use[size_t( f )] )
            {
               sfieldVisit( p, f, [&]( auto *&q ) {
                  using E = std::remove_reference_t<decltype( *q )>;
                  mem.emplace_back( new char[cap * sizeof( E ) + ( cap == 0 )] );
                  memset( mem.back().get(), 0x5A, cap * sizeof( E ) );
                  q = reinterpret_cast<E *>( mem.back().get() );
               } );
            }
         }
      }
   };
   template <class P> void spStore( P &p, int f, size_t i, double v )
   {
      sfieldVisit( p, f, [&]( auto *&q ) {
         using E = std::remove_reference_t<decltype( *q )>;
         q[i] = E( v );
      } );
   }
   template <class P> double spLoad( P &p, int f, size_t i )
   {
      return sfieldVisit( p, f, [&]( auto *&q ) { return double( q[i] ); } );
   }

   struct SScan
   {
      e57::Data3D h; // as the caller fills it in
      bool wide = false;    // double coordinates in memory
      bool ctor = false;    // buffers allocated by the library
      bool oneShot = false; // WriteData3DData
      bool autoRange = false, autoAngle = false, autoTime = false;
      uint64_t n = 0;
      uint64_t cap = 1;
      std::vector<uint64_t> batches;
      std::vector<std::vector<double>> v; // per field
      std::vector<int64_t> gid, gstart, gcount;
      int groupsWhen = 0; // 0 no groups, 1 before the points, 2 after
      bool wideDefaults = false;
   };
   struct SRep
   {
      int proj = 1;
      bool png = false;
      std::vector<uint8_t> main, mask;
   };
   struct SImage
   {
      e57::Image2D h;
      std::vector<SRep> reps;
      bool oneShot = false; // WriteImage2DData with a header
      std::string wantGuid;
   };
   struct SStep
   {
      enum Type : uint8_t
      {
         NewScan,
         OpenPoints,
         Batch,
         ClosePoints,
         Groups,
         OneShot,
         NewImage,
         Chunk
      } type;
      unsigned item = 0;
      unsigned rep = 0;
      bool mask = false;
      uint64_t start = 0, len = 0;
   };
   struct SDoc
   {
      e57::WriterOptions opt;
      std::vector<SScan> scans;
      std::vector<SImage> images;
      std::vector<SStep> steps;
      std::vector<unsigned> scanOrder, imageOrder; // by index in the file
      bool allWritten = true;
   };
   struct SOpts
   {
      uint64_t maxPoints = 300;
      unsigned maxScans = 3, maxImages = 2;
      uint64_t maxImage = 3000;
      bool fixedGuids = false;
   };
   std::shared_ptr<SDoc> genSimple( Choices &c, const SOpts &o );

   class SWriting
   {
   public:
      SWriting( SDoc &d, std::string path );
      ~SWriting();
      Res open();
      bool more() const
      {
         return pos_ < d_.steps.size();
      }
      size_t pos() const
      {
         return pos_;
      }
      Res step();
      Res retry(); // the step that has just failed once more
      const SStep &next() const
      {
         return d_.steps[pos_];
      }
      Res close();
      Res destroy( unsigned order = 0 ); // the exception, if one leaves a destructor's neighbourhood
      e57::Writer *writer()
      {
         return w_.get();
      }
      bool pointsOpen() const
      {
         return bool( cw_ );
      }
      int64_t scanIndex( size_t item ) const // -1: not made yet
      {
         return scanIdx_[item];
      }
      int64_t imageIndex( size_t item ) const
      {
         return imageIdx_[item];
      }
      std::vector<e57::Data3D> written; // headers as the library left them, by scan
      std::vector<std::string> imageGuids;
      std::string bad; // a wrong return value

   private:
      template <class T> Res openPoints( SScan &s, unsigned item );
      SDoc &d_;
      std::string path_;
      size_t pos_ = 0;
      std::unique_ptr<e57::Writer> w_;
      std::unique_ptr<e57::CompressedVectorWriter> cw_;
      std::shared_ptr<void> bufs_;
      std::function<void( uint64_t, uint64_t )> fill_;
      uint64_t done_ = 0;
      size_t batch_ = 0;
      int64_t nextScan_ = 0, nextImage_ = 0;
      std::vector<int64_t> scanIdx_, imageIdx_;
   };

   // The checks' own comparison, member by member: the library's operators are part of what is tested.
   template <class A, class B> bool memberwise( const A &a, const B &b )
   {
      return a == b;
   }
   inline bool memberwise( const e57::Translation &a, const e57::Translation &b )
   {
      return std::tie( a.x, a.y, a.z ) ==
             std::tie( b.x, b.y, b.z );
   }
   inline bool memberwise( const e57::Quaternion &a, const e57::Quaternion &b )
   {
      return std::tie( a.w, a.x, a.y, a.z ) ==
             std::tie( b.w, b.x, b.y, b.z );
   }
   inline bool memberwise( const e57::CartesianBounds &a, const e57::CartesianBounds &b )
   {
      return std::tie( a.xMinimum, a.xMaximum, a.yMinimum, a.yMaximum, a.zMinimum, a.zMaximum ) ==
             std::tie( b.xMinimum, b.xMaximum, b.yMinimum, b.yMaximum, b.zMinimum, b.zMaximum );
   }
   inline bool memberwise( const e57::SphericalBounds &a, const e57::SphericalBounds &b )
   {
      return std::tie( a.rangeMinimum, a.rangeMaximum, a.elevationMinimum, a.elevationMaximum, a.azimuthStart, a.azimuthEnd ) ==
             std::tie( b.rangeMinimum, b.rangeMaximum, b.elevationMinimum, b.elevationMaximum, b.azimuthStart, b.azimuthEnd );
   }
   inline bool memberwise( const e57::IndexBounds &a, const e57::IndexBounds &b )
   {
      return std::tie( a.rowMinimum, a.rowMaximum, a.columnMinimum, a.columnMaximum, a.returnMinimum, a.returnMaximum ) ==
             std::tie( b.rowMinimum, b.rowMaximum, b.columnMinimum, b.columnMaximum, b.returnMinimum, b.returnMaximum );
   }
   inline bool memberwise( const e57::ColorLimits &a, const e57::ColorLimits &b )
   {
      return std::tie( a.colorRedMinimum, a.colorRedMaximum, a.colorGreenMinimum, a.colorGreenMaximum, a.colorBlueMinimum, a.colorBlueMaximum ) ==
             std::tie( b.colorRedMinimum, b.colorRedMaximum, b.colorGreenMinimum, b.colorGreenMaximum, b.colorBlueMinimum, b.colorBlueMaximum );
   }
   inline bool memberwise( const e57::DateTime &a, const e57::DateTime &b )
   {
      return std::tie( a.dateTimeValue, a.isAtomicClockReferenced ) ==
             std::tie( b.dateTimeValue, b.isAtomicClockReferenced );
   }
   inline bool memberwise( const e57::VisualReferenceRepresentation &a, const e57::VisualReferenceRepresentation &b )
   {
      return std::tie( a.jpegImageSize, a.pngImageSize, a.imageMaskSize, a.imageWidth, a.imageHeight ) ==
             std::tie( b.jpegImageSize, b.pngImageSize, b.imageMaskSize, b.imageWidth, b.imageHeight );
   }
   inline bool memberwise( const e57::PinholeRepresentation &a, const e57::PinholeRepresentation &b )
   {
      return std::tie( a.jpegImageSize, a.pngImageSize, a.imageMaskSize, a.imageWidth, a.imageHeight, a.focalLength, a.pixelWidth, a.pixelHeight, a.principalPointX, a.principalPointY ) ==
             std::tie( b.jpegImageSize, b.pngImageSize, b.imageMaskSize, b.imageWidth, b.imageHeight, b.focalLength, b.pixelWidth, b.pixelHeight, b.principalPointX, b.principalPointY );
   }
   inline bool memberwise( const e57::SphericalRepresentation &a, const e57::SphericalRepresentation &b )
   {
      return std::tie( a.jpegImageSize, a.pngImageSize, a.imageMaskSize, a.imageWidth, a.imageHeight, a.pixelWidth, a.pixelHeight ) ==
             std::tie( b.jpegImageSize, b.pngImageSize, b.imageMaskSize, b.imageWidth, b.imageHeight, b.pixelWidth, b.pixelHeight );
   }
   inline bool memberwise( const e57::CylindricalRepresentation &a, const e57::CylindricalRepresentation &b )
   {
      return std::tie( a.jpegImageSize, a.pngImageSize, a.imageMaskSize, a.imageWidth, a.imageHeight, a.pixelWidth, a.pixelHeight, a.radius, a.principalPointY ) ==
             std::tie( b.jpegImageSize, b.pngImageSize, b.imageMaskSize, b.imageWidth, b.imageHeight, b.pixelWidth, b.pixelHeight, b.radius, b.principalPointY );
   }
   inline bool memberwise( const e57::RigidBodyTransform &a, const e57::RigidBodyTransform &b )
   {
      return memberwise( a.rotation, b.rotation ) && memberwise( a.translation, b.translation );
   }

   // Reads a file back. c chooses types, batch sizes and ranges (nullptr: plain). goOn: keep calling after an exception.
   // Returns the first difference; err is the first exception.
   std::string verifySimple( const std::string &path, SDoc &d, const SWriting *w, Choices *c, bool goOn, Res &err );
}
