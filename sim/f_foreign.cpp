// C25: the high-level reader on valid files that some other program wrote: optional elements missing, other numeric types,
// fields in any order, unknown extra elements.
#include "simple.h"
#include <cfloat>
#include <climits>
#include <cmath>

namespace sim
{
   using namespace e57;

   namespace
   {
      using NT = NumericalNodeType;

      struct FField
      {
         int f = 0; // SField
         NT type = NT::Float;
         double scale = 1, offset = 0;
         int64_t lo = 0, hi = 0;
         double flo = 0, fhi = 0;
         std::vector<double> v; // value as stored, before it is put into memory
         std::vector<int64_t> raw;
         double low() const
         {
            return type == NT::Integer ? double( lo ) : type == NT::ScaledInteger ? double( lo ) * scale + offset : flo;
         }
         double high() const
         {
            return type == NT::Integer ? double( hi ) : type == NT::ScaledInteger ? double( hi ) * scale + offset : fhi;
         }
      };
      struct FScan
      {
         Data3D h;
         std::vector<FField> fields;
         uint64_t n = 0;
         bool haveInt = false, haveCol = false;
         bool groups = false;
         bool gIdx = false, gStart = false, gCount = false;
         std::vector<int64_t> gid, gstart, gcount;
         int64_t idLo = 0, idHi = 0, cntHi = 0;
         bool rowB = false, colB = false;
      };
      struct FRep
      {
         Image2DProjection proj = ProjectionVisual;
         bool hasMain = false, png = false, hasMask = false;
         std::vector<uint8_t> main, mask;
         int64_t w = 0, hgt = 0;
      };
      struct FImage
      {
         Image2D h;
         std::vector<FRep> reps;
         bool dist = false;
         Extension::PinholeCameraDistortion d;
      };
      struct FDoc
      {
         E57Root root;
         bool data3D = true, images = true;
         std::vector<FScan> scans;
         std::vector<std::unique_ptr<FImage>> imgs;
         bool ext = false;
      };

      const char *repElement( Image2DProjection p )
      {
         switch ( p )
         {
            case ProjectionVisual:
               return "visualReferenceRepresentation";
            case ProjectionPinhole:
               return "pinholeRepresentation";
            case ProjectionSpherical:
               return "sphericalRepresentation";
            default:
               return "cylindricalRepresentation";
         }
      }

      class Build
      {
      public:
         Build( Choices &c, FDoc &d, ImageFile imf ) : c_( c ), d_( d ), imf_( imf ), root_( imf.root() )
         {
         }
         void run();

      private:
         // Everything a program may add that a reader does not know.
         void extra( StructureNode s )
         {
            if ( d_.ext && c_.chance( 1, 3 ) )
            {
               switch ( c_.draw( 3 ) )
               {
                  case 0:
                     s.set( "own:note", StringNode( imf_, "name" ) );
                     break;
                  case 1:
                     s.set( "own:number", IntegerNode( imf_, 7 ) );
                     break;
                  default:
                  {
                     StructureNode t( imf_ );
                     t.set( "guid", StringNode( imf_, "not this one" ) );
                     t.set( "name", StringNode( imf_, "nor this one" ) );
                     s.set( "own:more", t );
                  }
               }
               PROBE( "unknown extra element" );
            }
         }
         ustring text( StructureNode s, const char *name )
         {
            if ( c_.chance( 1, 3 ) )
            {
               return ustring();
            }
            ustring t = genText( c_, 20 );
            s.set( name, StringNode( imf_, t ) );
            return t;
         }
         double real()
         {
            static const double e[] = { 0, 1, -1, 0.1, 1e-3, -273.25, 1e12, 123456.789, -1e-9 };
            return c_.chance( 1, 3 ) ? double( int64_t( c_.draw( 20001 ) ) - 10000 ) / 16 : e[c_.draw( sizeof e / sizeof *e )];
         }
         void setFloat( StructureNode s, const char *name, double v )
         {
            if ( c_.chance( 1, 3 ) )
            {
               s.set( name, FloatNode( imf_, v, PrecisionDouble, std::min( v, -1e13 ), std::max( v, 1e13 ) ) );
            }
            else
            {
               s.set( name, FloatNode( imf_, v ) );
            }
         }
         // A limit in one of the allowed numeric types; returns its value. All limits of one group share the type.
         double limit( StructureNode s, const char *name, unsigned type, double v )
         {
            if ( type == 1 )
            {
               static const double sc[] = { 0.001, 0.5, 2, 0.01 };
               double scale = sc[c_.draw( 4 )], off = c_.chance( 1, 3 ) ? 100.5 : 0;
               int64_t raw = int64_t( std::floor( ( v - off ) / scale ) );
               s.set( name, ScaledIntegerNode( imf_, raw, INT64_MIN, INT64_MAX, scale, off ) );
               return double( raw ) * scale + off;
            }
            if ( type == 2 )
            {
               s.set( name, IntegerNode( imf_, int64_t( v ) ) );
               return double( int64_t( v ) );
            }
            setFloat( s, name, v );
            return v;
         }
         bool dateTime( StructureNode s, const char *name, DateTime &t )
         {
            if ( c_.chance( 1, 3 ) )
            {
               return false;
            }
            StructureNode x( imf_ );
            t.dateTimeValue = real();
            setFloat( x, "dateTimeValue", t.dateTimeValue );
            if ( c_.chance( 2, 3 ) )
            {
               t.isAtomicClockReferenced = int32_t( c_.draw( 2 ) );
               x.set( "isAtomicClockReferenced", IntegerNode( imf_, t.isAtomicClockReferenced ) );
            }
            s.set( name, x );
            return true;
         }
         void pose( StructureNode s, RigidBodyTransform &p )
         {
            if ( c_.chance( 1, 3 ) )
            {
               return;
            }
            StructureNode x( imf_ );
            if ( c_.chance( 2, 3 ) )
            {
               StructureNode r( imf_ );
               p.rotation = { real(), real(), real(), real() };
               setFloat( r, "w", p.rotation.w );
               setFloat( r, "x", p.rotation.x );
               setFloat( r, "y", p.rotation.y );
               setFloat( r, "z", p.rotation.z );
               x.set( "rotation", r );
            }
            if ( c_.chance( 2, 3 ) )
            {
               StructureNode t( imf_ );
               p.translation = { real(), real(), real() };
               setFloat( t, "x", p.translation.x );
               setFloat( t, "y", p.translation.y );
               setFloat( t, "z", p.translation.z );
               x.set( "translation", t );
            }
            s.set( "pose", x );
         }
         void scan( VectorNode v );
         void image( VectorNode v );
         void points( StructureNode s, FScan &f );
         FField field( int f );
         Node fieldNode( const FField &f );

         Choices &c_;
         FDoc &d_;
         ImageFile imf_;
         StructureNode root_;
      };

      const char *elementOf( int f )
      {
         static const char *n[] = { "cartesianX",      "cartesianY",       "cartesianZ",         "cartesianInvalidState", "intensity", "isIntensityInvalid",
                                    "colorRed",        "colorGreen",       "colorBlue",          "isColorInvalid",        "sphericalRange",
                                    "sphericalAzimuth", "sphericalElevation", "sphericalInvalidState", "rowIndex",        "columnIndex", "returnIndex",
                                    "returnCount",     "timeStamp",        "isTimeStampInvalid", "nor:normalX",           "nor:normalY", "nor:normalZ" };
         static_assert( sizeof n / sizeof *n == NSF, "names" );
         return n[f];
      }

      FField Build::field( int f )
      {
         FField x;
         x.f = f;
         const bool state = f == CInv || f == SphInv || f == IntInv || f == ColInv || f == TimeInv;
         const bool index = f == Row || f == Col || f == RetI || f == RetC;
         if ( state || index )
         {
            x.type = NT::Integer;
            x.hi = state ? ( f == CInv || f == SphInv ? 2 : 1 ) : f == RetI || f == RetC ? 1 + int64_t( c_.draw( 100 ) ) : int64_t( c_.draw( 100000 ) );
         }
         else if ( f == NX || f == NY || f == NZ )
         {
            x.type = c_.chance( 1, 2 ) ? NT::Float : NT::ScaledInteger;
            x.lo = -1000;
            x.hi = 1000;
            x.scale = 0.001;
         }
         else if ( f == Red || f == Green || f == Blue )
         {
            x.type = NT( c_.draw( 4 ) );
            x.lo = 0;
            x.hi = c_.chance( 1, 2 ) ? 255 : 65535;
            x.scale = c_.chance( 1, 2 ) ? 1 : 0.5;
            x.offset = c_.chance( 1, 3 ) ? 10 : 0;
            if ( x.type == NT::ScaledInteger && x.hi > 1000 )
            {
               x.hi -= 10;
            }
            if ( x.type == NT::ScaledInteger && c_.chance( 1, 3 ) )
            {
               x.lo = -20;
               x.offset = 10;
               x.hi = 400;
               x.scale = 0.5;
            }
            x.flo = 0;
            x.fhi = double( x.hi );
         }
         else
         {
            x.type = NT( c_.draw( 4 ) );
            if ( ( f == Azim || f == Elev ) && x.type == NT::Integer )
            {
               x.type = NT::Double; // the reader documents that it does not take integers here
            }
            x.lo = -int64_t( c_.draw( 100000 ) );
            x.hi = int64_t( c_.draw( 100000 ) );
            static const double sc[] = { 0.001, 0.0001, 0.25, 1, 3 };
            x.scale = sc[c_.draw( 5 )];
            x.offset = c_.chance( 1, 3 ) ? 12.5 : 0;
         }
         if ( x.type == NT::Float || x.type == NT::Double )
         {
            if ( !( f == Red || f == Green || f == Blue ) )
            {
               bool bounded = c_.chance( 1, 2 );
               x.flo = bounded ? -1000 : x.type == NT::Float ? double( FLOAT_MIN ) : DOUBLE_MIN;
               x.fhi = bounded ? 1000 : x.type == NT::Float ? double( FLOAT_MAX ) : DOUBLE_MAX;
            }
         }
         return x;
      }
      Node Build::fieldNode( const FField &f )
      {
         if ( f.type == NT::Integer )
         {
            return IntegerNode( imf_, f.lo, f.lo, f.hi );
         }
         if ( f.type == NT::ScaledInteger )
         {
            return ScaledIntegerNode( imf_, f.lo, f.lo, f.hi, f.scale, f.offset );
         }
         return FloatNode( imf_, f.flo > 0 ? f.flo : 0, f.type == NT::Float ? PrecisionSingle : PrecisionDouble, f.flo, f.fhi );
      }

      void Build::points( StructureNode s, FScan &sc )
      {
         std::vector<int> which;
         for ( int f = 0; f < NSF; f++ )
         {
            if ( c_.chance( 1, 3 ) )
            {
               which.push_back( f );
            }
         }
         if ( which.empty() )
         {
            which.push_back( int( c_.draw( NSF ) ) );
         }
         for ( size_t k = which.size(); k > 1; k-- )
         {
            std::swap( which[k - 1], which[c_.draw( k )] );
         }
         StructureNode proto( imf_ );
         std::vector<std::vector<int64_t>> ibuf;
         std::vector<std::vector<double>> dbuf;
         bool own = d_.ext && c_.chance( 1, 2 );
         std::vector<int64_t> ownBuf;
         for ( int f : which )
         {
            FField x = field( f );
            proto.set( elementOf( f ), fieldNode( x ) );
            sc.fields.push_back( x );
            sfieldFlag( sc.h.pointFields, f ) = true;
            if ( own && proto.childCount() == 1 )
            {
               proto.set( "own:quality", IntegerNode( imf_, 0, 0, 255 ) );
            }
         }
         CompressedVectorNode cv( imf_, proto, VectorNode( imf_, true ) );
         s.set( "points", cv );
         sc.n = c_.chance( 1, 8 ) ? 0 : 1 + c_.draw( c_.chance( 1, 6 ) ? 5000 : 60 );
         uint64_t cap = sc.n + 1;
         std::vector<SourceDestBuffer> b;
         ibuf.resize( sc.fields.size() );
         dbuf.resize( sc.fields.size() );
         for ( size_t k = 0; k < sc.fields.size(); k++ )
         {
            FField &x = sc.fields[k];
            Rng r( c_.sub() );
            if ( x.type == NT::Float || x.type == NT::Double )
            {
               dbuf[k].resize( cap );
               for ( uint64_t i = 0; i < sc.n; i++ )
               {
                  double v = x.f == Red || x.f == Green || x.f == Blue ? double( r.below( uint64_t( x.fhi ) + 1 ) ) : ( double( r.below( 200001 ) ) - 100000 ) / 128;
                  if ( x.f == NX || x.f == NY || x.f == NZ )
                  {
                     v /= 1000;
                  }
                  if ( x.type == NT::Float )
                  {
                     v = double( float( v ) );
                  }
                  dbuf[k][i] = v;
                  x.v.push_back( v );
               }
               b.emplace_back( imf_, elementOf( x.f ), dbuf[k].data(), cap, true );
            }
            else
            {
               ibuf[k].resize( cap );
               for ( uint64_t i = 0; i < sc.n; i++ )
               {
                  int64_t v = x.lo + int64_t( r.below( uint64_t( x.hi - x.lo ) + 1 ) );
                  ibuf[k][i] = v;
                  x.raw.push_back( v );
                  x.v.push_back( x.type == NT::Integer ? double( v ) : double( v ) * x.scale + x.offset );
               }
               b.emplace_back( imf_, elementOf( x.f ), ibuf[k].data(), cap );
            }
         }
         if ( own )
         {
            ownBuf.assign( cap, 42 );
            b.emplace_back( imf_, "own:quality", ownBuf.data(), cap );
         }
         CompressedVectorWriter w = cv.writer( b );
         if ( sc.n )
         {
            w.write( sc.n );
         }
         w.close();
      }

      void Build::scan( VectorNode v )
      {
         d_.scans.emplace_back();
         FScan &f = d_.scans.back();
         Data3D &h = f.h;
         StructureNode s( imf_ );
         v.append( s );
         h.guid = "{" + genText( c_, 12 ) + "}";
         s.set( "guid", StringNode( imf_, h.guid ) );
         extra( s );
         h.name = text( s, "name" );
         h.description = text( s, "description" );
         h.sensorVendor = text( s, "sensorVendor" );
         h.sensorModel = text( s, "sensorModel" );
         h.sensorSerialNumber = text( s, "sensorSerialNumber" );
         h.sensorHardwareVersion = text( s, "sensorHardwareVersion" );
         h.sensorSoftwareVersion = text( s, "sensorSoftwareVersion" );
         h.sensorFirmwareVersion = text( s, "sensorFirmwareVersion" );
         if ( c_.chance( 1, 2 ) )
         {
            VectorNode g( imf_, c_.chance( 1, 2 ) );
            unsigned n = c_.draw( 4 );
            for ( unsigned i = 0; i < n; i++ )
            {
               h.originalGuids.push_back( genText( c_, 10 ) );
               g.append( StringNode( imf_, h.originalGuids.back() ) );
            }
            s.set( "originalGuids", g );
         }
         auto single = [&]( const char *name, float &x ) {
            if ( c_.chance( 2, 3 ) )
            {
               x = float( real() );
               if ( c_.chance( 1, 2 ) )
               {
                  s.set( name, FloatNode( imf_, double( x ), PrecisionSingle ) );
               }
               else
               {
                  s.set( name, FloatNode( imf_, double( x ) ) );
               }
            }
         };
         single( "temperature", h.temperature );
         single( "relativeHumidity", h.relativeHumidity );
         single( "atmosphericPressure", h.atmosphericPressure );
         dateTime( s, "acquisitionStart", h.acquisitionStart );
         dateTime( s, "acquisitionEnd", h.acquisitionEnd );
         pose( s, h.pose );
         if ( c_.chance( 1, 2 ) )
         {
            StructureNode b( imf_ );
            auto pair = [&]( const char *lo, const char *hi, int64_t &l, int64_t &m ) {
               if ( c_.chance( 1, 4 ) )
               {
                  return false;
               }
               l = int64_t( c_.draw( 100 ) ) - 20;
               m = l + int64_t( c_.draw( 5000 ) );
               b.set( lo, IntegerNode( imf_, l ) );
               b.set( hi, IntegerNode( imf_, m ) );
               return true;
            };
            auto &ib = h.indexBounds;
            f.rowB = pair( "rowMinimum", "rowMaximum", ib.rowMinimum, ib.rowMaximum );
            f.colB = pair( "columnMinimum", "columnMaximum", ib.columnMinimum, ib.columnMaximum );
            pair( "returnMinimum", "returnMaximum", ib.returnMinimum, ib.returnMaximum );
            s.set( "indexBounds", b );
         }
         if ( c_.chance( 1, 2 ) )
         {
            StructureNode b( imf_ );
            unsigned t = c_.draw( 2 );
            auto &cb = h.cartesianBounds;
            cb.xMinimum = limit( b, "xMinimum", t, real() );
            cb.xMaximum = limit( b, "xMaximum", t, real() );
            cb.yMinimum = limit( b, "yMinimum", t, real() );
            cb.yMaximum = limit( b, "yMaximum", t, real() );
            cb.zMinimum = limit( b, "zMinimum", t, real() );
            cb.zMaximum = limit( b, "zMaximum", t, real() );
            extra( b );
            s.set( "cartesianBounds", b );
         }
         if ( c_.chance( 1, 2 ) )
         {
            StructureNode b( imf_ );
            unsigned t = c_.draw( 2 ), u = c_.draw( 2 ), w = c_.draw( 2 );
            auto &sb = h.sphericalBounds;
            sb.rangeMinimum = limit( b, "rangeMinimum", t, real() );
            sb.rangeMaximum = limit( b, "rangeMaximum", t, real() );
            sb.elevationMinimum = limit( b, "elevationMinimum", u, real() );
            sb.elevationMaximum = limit( b, "elevationMaximum", u, real() );
            sb.azimuthStart = limit( b, "azimuthStart", w, real() );
            sb.azimuthEnd = limit( b, "azimuthEnd", w, real() );
            s.set( "sphericalBounds", b );
         }
         if ( c_.chance( 1, 2 ) )
         {
            StructureNode b( imf_ );
            unsigned t = c_.draw( 3 );
            f.haveInt = true;
            h.intensityLimits.intensityMinimum = limit( b, "intensityMinimum", t, real() );
            h.intensityLimits.intensityMaximum = limit( b, "intensityMaximum", t, real() );
            s.set( "intensityLimits", b );
         }
         if ( c_.chance( 1, 2 ) )
         {
            StructureNode b( imf_ );
            unsigned t = c_.draw( 3 );
            f.haveCol = true;
            auto &l = h.colorLimits;
            l.colorRedMinimum = limit( b, "colorRedMinimum", t, real() );
            l.colorRedMaximum = limit( b, "colorRedMaximum", t, real() );
            l.colorGreenMinimum = limit( b, "colorGreenMinimum", t, real() );
            l.colorGreenMaximum = limit( b, "colorGreenMaximum", t, real() );
            l.colorBlueMinimum = limit( b, "colorBlueMinimum", t, real() );
            l.colorBlueMaximum = limit( b, "colorBlueMaximum", t, real() );
            s.set( "colorLimits", b );
         }
         points( s, f );
         if ( c_.chance( 1, 2 ) )
         {
            StructureNode pgs( imf_ );
            s.set( "pointGroupingSchemes", pgs );
            if ( c_.chance( 4, 5 ) )
            {
               f.groups = true;
               StructureNode line( imf_ );
               pgs.set( "groupingByLine", line );
               h.pointGroupingSchemes.groupingByLine.idElementName = c_.chance( 1, 2 ) ? "columnIndex" : "rowIndex";
               line.set( "idElementName", StringNode( imf_, h.pointGroupingSchemes.groupingByLine.idElementName ) );
               f.gIdx = c_.chance( 3, 4 );
               f.gStart = c_.chance( 3, 4 );
               f.gCount = c_.chance( 3, 4 ) || ( !f.gIdx && !f.gStart );
               size_t n = 1 + c_.draw( 8 );
               f.idLo = int64_t( c_.draw( 5 ) );
               f.idHi = f.idLo + int64_t( c_.draw( 200 ) );
               f.cntHi = int64_t( c_.draw( 1000 ) );
               StructureNode p( imf_ );
               std::vector<SourceDestBuffer> b;
               for ( size_t i = 0; i < n; i++ )
               {
                  f.gid.push_back( f.idLo + int64_t( c_.draw( uint64_t( f.idHi - f.idLo + 1 ) ) ) );
                  f.gstart.push_back( int64_t( c_.draw( 1000 ) ) );
                  f.gcount.push_back( int64_t( c_.draw( uint64_t( f.cntHi + 1 ) ) ) );
               }
               auto add = [&]( const char *nm, int64_t lo, int64_t hi, std::vector<int64_t> &val ) {
                  p.set( nm, IntegerNode( imf_, lo, lo, hi ) );
                  b.emplace_back( imf_, nm, val.data(), n );
               };
               if ( f.gCount && c_.chance( 1, 2 ) )
               {
                  add( "pointCount", 0, f.cntHi, f.gcount );
               }
               if ( f.gStart )
               {
                  add( "startPointIndex", 0, 1000, f.gstart );
               }
               if ( f.gIdx )
               {
                  add( "idElementValue", f.idLo, f.idHi, f.gid );
               }
               if ( f.gCount && !p.isDefined( "pointCount" ) )
               {
                  add( "pointCount", 0, f.cntHi, f.gcount );
               }
               CompressedVectorNode cv( imf_, p, VectorNode( imf_, true ) );
               line.set( "groups", cv );
               CompressedVectorWriter w = cv.writer( b );
               w.write( n );
               w.close();
               h.pointGroupingSchemes.groupingByLine.groupsSize = int64_t( n );
               h.pointGroupingSchemes.groupingByLine.pointCountSize = f.gCount ? f.cntHi : 0;
            }
         }
      }

      void Build::image( VectorNode v )
      {
         d_.imgs.push_back( std::make_unique<FImage>() );
         FImage &f = *d_.imgs.back();
         Image2D &h = f.h;
         StructureNode s( imf_ );
         v.append( s );
         h.guid = "{" + genText( c_, 12 ) + "}";
         s.set( "guid", StringNode( imf_, h.guid ) );
         extra( s );
         h.name = text( s, "name" );
         h.description = text( s, "description" );
         h.sensorVendor = text( s, "sensorVendor" );
         h.sensorModel = text( s, "sensorModel" );
         h.sensorSerialNumber = text( s, "sensorSerialNumber" );
         h.associatedData3DGuid = text( s, "associatedData3DGuid" );
         dateTime( s, "acquisitionDateTime", h.acquisitionDateTime );
         pose( s, h.pose );
         auto rep = [&]( Image2DProjection p ) {
            f.reps.emplace_back();
            FRep &r = f.reps.back();
            r.proj = p;
            StructureNode x( imf_ );
            s.set( repElement( p ), x );
            r.w = int64_t( c_.draw( 5000 ) );
            r.hgt = int64_t( c_.draw( 5000 ) );
            auto blob = [&]( const char *name, std::vector<uint8_t> &data ) {
               Rng g( c_.sub() );
               data.resize( c_.chance( 1, 8 ) ? 0 : 1 + c_.draw( 3000 ) );
               for ( auto &y : data )
               {
                  y = uint8_t( g.next() );
               }
               BlobNode b( imf_, int64_t( data.size() ) );
               x.set( name, b );
               if ( !data.empty() )
               {
                  b.write( data.data(), 0, data.size() );
               }
            };
            r.hasMain = c_.chance( 5, 6 );
            r.hasMask = c_.chance( 1, 2 );
            if ( r.hasMask && c_.chance( 1, 2 ) )
            {
               blob( "imageMask", r.mask );
            }
            if ( r.hasMain )
            {
               r.png = c_.chance( 1, 2 );
               blob( r.png ? "pngImage" : "jpegImage", r.main );
            }
            if ( r.hasMask && !x.isDefined( "imageMask" ) )
            {
               blob( "imageMask", r.mask );
            }
            x.set( "imageHeight", IntegerNode( imf_, r.hgt ) );
            x.set( "imageWidth", IntegerNode( imf_, r.w ) );
            auto fill = [&]( auto &y ) {
               y.imageWidth = int32_t( r.w );
               y.imageHeight = int32_t( r.hgt );
               y.jpegImageSize = r.hasMain && !r.png ? int64_t( r.main.size() ) : 0;
               y.pngImageSize = r.hasMain && r.png ? int64_t( r.main.size() ) : 0;
               y.imageMaskSize = r.hasMask ? int64_t( r.mask.size() ) : 0;
            };
            auto num = [&]( const char *name, double &y ) {
               y = real();
               setFloat( x, name, y );
            };
            switch ( p )
            {
               case ProjectionVisual:
                  fill( h.visualReferenceRepresentation );
                  break;
               case ProjectionPinhole:
               {
                  auto &y = h.pinholeRepresentation;
                  fill( y );
                  num( "principalPointY", y.principalPointY );
                  num( "focalLength", y.focalLength );
                  num( "pixelHeight", y.pixelHeight );
                  num( "pixelWidth", y.pixelWidth );
                  num( "principalPointX", y.principalPointX );
                  break;
               }
               case ProjectionSpherical:
               {
                  auto &y = h.sphericalRepresentation;
                  fill( y );
                  num( "pixelWidth", y.pixelWidth );
                  num( "pixelHeight", y.pixelHeight );
                  break;
               }
               default:
               {
                  auto &y = h.cylindricalRepresentation;
                  fill( y );
                  num( "radius", y.radius );
                  num( "pixelWidth", y.pixelWidth );
                  num( "pixelHeight", y.pixelHeight );
                  num( "principalPointY", y.principalPointY );
               }
            }
            extra( x );
         };
         unsigned vis = c_.draw( 3 );
         if ( vis )
         {
            rep( ProjectionVisual );
         }
         if ( vis != 1 && c_.chance( 5, 6 ) )
         {
            rep( Image2DProjection( 2 + c_.draw( 3 ) ) );
         }
         ustring uri;
         if ( imf_.extensionsLookupPrefix( "dist", uri ) && c_.chance( 1, 2 ) )
         {
            f.dist = true;
            StructureNode x( imf_ );
            auto &d = f.d;
            auto num = [&]( const char *name, double &y ) {
               if ( c_.chance( 2, 3 ) )
               {
                  y = real();
                  setFloat( x, name, y );
               }
            };
            if ( c_.chance( 2, 3 ) )
            {
               d.cameraNumber = int64_t( c_.draw( 10 ) );
               x.set( "dist:CameraNumber", IntegerNode( imf_, d.cameraNumber ) );
            }
            if ( c_.chance( 2, 3 ) )
            {
               d.type = genText( c_, 10 );
               x.set( "dist:Type", StringNode( imf_, d.type ) );
            }
            num( "dist:CV_K1", d.CV_K1 );
            num( "dist:CV_K2", d.CV_K2 );
            num( "dist:CV_K3", d.CV_K3 );
            num( "dist:CV_K4", d.CV_K4 );
            num( "dist:CV_K5", d.CV_K5 );
            num( "dist:CV_K6", d.CV_K6 );
            num( "dist:CV_P1", d.CV_P1 );
            num( "dist:CV_P2", d.CV_P2 );
            num( "dist:CV_CX", d.CV_CX );
            num( "dist:CV_CY", d.CV_CY );
            num( "dist:CV_FX", d.CV_FX );
            num( "dist:CV_FY", d.CV_FY );
            auto whole = [&]( const char *name, auto &y ) {
               if ( c_.chance( 2, 3 ) )
               {
                  y = int32_t( c_.draw( 4000 ) );
                  x.set( name, IntegerNode( imf_, int64_t( y ) ) );
               }
            };
            whole( "dist:CV_HEIGHT", d.CV_HEIGHT );
            whole( "dist:CV_WIDTH", d.CV_WIDTH );
            s.set( "dist:distortion", x );
         }
      }

      void Build::run()
      {
         d_.ext = c_.chance( 1, 2 );
         if ( d_.ext )
         {
            imf_.extensionsAdd( "own", "http://example.org/own" );
         }
         imf_.extensionsAdd( "nor", "http://www.libe57.org/E57_EXT_surface_normals.txt" );
         if ( c_.chance( 1, 2 ) )
         {
            imf_.extensionsAdd( "dist", "http://www.libe57.org/E57_LEICA_Camera_Distortion.txt" );
         }
         auto &r = d_.root;
         r.formatName = "ASTM E57 3D Imaging Data File";
         root_.set( "formatName", StringNode( imf_, r.formatName ) );
         r.guid = genText( c_, 10 );
         root_.set( "guid", StringNode( imf_, r.guid ) );
         r.versionMajor = 1;
         r.versionMinor = c_.draw( 3 );
         root_.set( "versionMajor", IntegerNode( imf_, r.versionMajor ) );
         root_.set( "versionMinor", IntegerNode( imf_, r.versionMinor ) );
         r.e57LibraryVersion = text( root_, "e57LibraryVersion" );
         r.coordinateMetadata = text( root_, "coordinateMetadata" );
         dateTime( root_, "creationDateTime", r.creationDateTime );
         extra( root_ );
         bool imagesFirst = c_.chance( 1, 3 );
         for ( unsigned k = 0; k < 2; k++ )
         {
            if ( ( k == 0 ) == imagesFirst )
            {
               if ( c_.chance( 3, 4 ) )
               {
                  VectorNode v( imf_, true );
                  root_.set( "images2D", v );
                  for ( unsigned n = c_.draw( 3 ); n; n-- )
                  {
                     image( v );
                  }
               }
            }
            else if ( c_.chance( 7, 8 ) )
            {
               VectorNode v( imf_, true );
               root_.set( "data3D", v );
               for ( unsigned n = c_.draw( 4 ); n; n-- )
               {
                  scan( v );
               }
            }
         }
         r.data3DSize = int64_t( d_.scans.size() );
         r.images2DSize = int64_t( d_.imgs.size() );
      }

      class Check
      {
      public:
         Check( Choices &c, FDoc &d, Reader &r, bool faults ) : c_( c ), d_( d ), r_( r ), faults_( faults )
         {
         }
         void step();
         void rootHeader();
         void scanHeader( size_t k );
         void sizes( size_t k );
         void groups( size_t k );
         template <class T> void points( size_t k );
         void imageHeader( size_t k );
         void imageData( size_t k );
         void wrongIndex();

      private:
         template <class F> bool call( const char *what, F f )
         {
            Res r = lib( f );
            if ( !r.ok )
            {
               if ( !faults_ || !g_disk->firedCount || r.foreign )
               {
                  fail( std::string( what ) + " failed on a valid file :: " + resStr( r ) );
               }
               PROBE( "read fault reported" );
            }
            return r.ok;
         }
         template <class A, class B> void eq( const A &got, const B &want, const char *what )
         {
            if ( !memberwise( got, want ) )
            {
               fail( std::string( what ) + " differs" );
            }
         }
         void eqD( double got, double want, const char *what )
         {
            if ( !( got == want ) )
            {
               fail( std::string( what ) + strf( " differs :: read %.17g expected %.17g", got, want ) );
            }
         }
         Choices &c_;
         FDoc &d_;
         Reader &r_;
         bool faults_;
      };

      void Check::rootHeader()
      {
         E57Root g;
         g.e57LibraryVersion = "left over";
         bool ok = false;
         if ( !call( "GetE57Root", [&] { ok = r_.GetE57Root( g ); } ) )
         {
            return;
         }
         auto &r = d_.root;
         eq( ok, true, "result of GetE57Root" );
         eq( g.formatName, r.formatName, "formatName" );
         eq( g.guid, r.guid, "file guid" );
         eq( g.versionMajor, r.versionMajor, "versionMajor" );
         eq( g.versionMinor, r.versionMinor, "versionMinor" );
         eq( g.e57LibraryVersion, r.e57LibraryVersion, "e57LibraryVersion" );
         eq( g.coordinateMetadata, r.coordinateMetadata, "coordinateMetadata" );
         eq( g.creationDateTime, r.creationDateTime, "creationDateTime" );
         eq( g.data3DSize, r.data3DSize, "data3DSize" );
         eq( g.images2DSize, r.images2DSize, "images2DSize" );
         int64_t a = -1, b = -1;
         if ( call( "GetData3DCount", [&] {
                 a = r_.GetData3DCount();
                 b = r_.GetImage2DCount();
              } ) )
         {
            eq( a, r.data3DSize, "GetData3DCount" );
            eq( b, r.images2DSize, "GetImage2DCount" );
         }
      }

      void Check::scanHeader( size_t k )
      {
         FScan &s = d_.scans[k];
         const Data3D &h = s.h;
         Data3D g;
         g.name = "left over";
         g.temperature = 7;
         bool ok = false;
         if ( !call( "ReadData3D", [&] { ok = r_.ReadData3D( int64_t( k ), g ); } ) )
         {
            return;
         }
         eq( ok, true, "result of ReadData3D" );
         eq( g.guid, h.guid, "scan guid" );
         eq( g.name, h.name, "scan name" );
         eq( g.description, h.description, "scan description" );
         eq( g.originalGuids, h.originalGuids, "originalGuids" );
         eq( g.sensorVendor, h.sensorVendor, "sensorVendor" );
         eq( g.sensorModel, h.sensorModel, "sensorModel" );
         eq( g.sensorSerialNumber, h.sensorSerialNumber, "sensorSerialNumber" );
         eq( g.sensorHardwareVersion, h.sensorHardwareVersion, "sensorHardwareVersion" );
         eq( g.sensorSoftwareVersion, h.sensorSoftwareVersion, "sensorSoftwareVersion" );
         eq( g.sensorFirmwareVersion, h.sensorFirmwareVersion, "sensorFirmwareVersion" );
         eqD( g.temperature, h.temperature, "temperature" );
         eqD( g.relativeHumidity, h.relativeHumidity, "relativeHumidity" );
         eqD( g.atmosphericPressure, h.atmosphericPressure, "atmosphericPressure" );
         eq( g.acquisitionStart, h.acquisitionStart, "acquisitionStart" );
         eq( g.acquisitionEnd, h.acquisitionEnd, "acquisitionEnd" );
         eq( g.pose, h.pose, "scan pose" );
         eq( g.indexBounds, h.indexBounds, "indexBounds" );
         eq( g.cartesianBounds, h.cartesianBounds, "cartesianBounds" );
         eq( g.sphericalBounds, h.sphericalBounds, "sphericalBounds" );
         eq( uint64_t( g.pointCount ), s.n, "pointCount" );
         eq( g.pointGroupingSchemes.groupingByLine.idElementName, h.pointGroupingSchemes.groupingByLine.idElementName, "idElementName" );
         eq( g.pointGroupingSchemes.groupingByLine.groupsSize, h.pointGroupingSchemes.groupingByLine.groupsSize, "groupsSize" );
         eq( g.pointGroupingSchemes.groupingByLine.pointCountSize, h.pointGroupingSchemes.groupingByLine.pointCountSize, "pointCountSize" );
         auto a = h.pointFields;
         for ( int f = 0; f < NSF; f++ )
         {
            eq( sfieldFlag( g.pointFields, f ), sfieldFlag( a, f ), ( std::string( "presence of " ) + sfieldName( f ) ).c_str() );
         }
         auto find = [&]( int f ) -> const FField * {
            for ( auto &x : s.fields )
            {
               if ( x.f == f )
               {
                  return &x;
               }
            }
            return nullptr;
         };
         auto &gf = g.pointFields;
         const FField *x = find( CX ) ? find( CX ) : find( Range );
         if ( x && x->type != NT::Integer )
         {
            eq( gf.pointRangeNodeType, x->type, "pointRangeNodeType" );
            eqD( gf.pointRangeMinimum, x->low(), "pointRangeMinimum" );
            eqD( gf.pointRangeMaximum, x->high(), "pointRangeMaximum" );
            if ( x->type == NT::ScaledInteger )
            {
               eqD( gf.pointRangeScale, x->scale, "pointRangeScale" );
            }
         }
         if ( ( x = find( Azim ) ) )
         {
            eq( gf.angleNodeType, x->type, "angleNodeType" );
            eqD( gf.angleMinimum, x->low(), "angleMinimum" );
            eqD( gf.angleMaximum, x->high(), "angleMaximum" );
            if ( x->type == NT::ScaledInteger )
            {
               eqD( gf.angleScale, x->scale, "angleScale" );
            }
         }
         if ( ( x = find( Time ) ) )
         {
            eq( gf.timeNodeType, x->type, "timeNodeType" );
            eqD( gf.timeMinimum, x->low(), "timeMinimum" );
            eqD( gf.timeMaximum, x->high(), "timeMaximum" );
            if ( x->type == NT::ScaledInteger )
            {
               eqD( gf.timeScale, x->scale, "timeScale" );
            }
         }
         if ( ( x = find( Row ) ) )
         {
            eq( int64_t( gf.rowIndexMaximum ), x->hi, "rowIndexMaximum" );
         }
         if ( ( x = find( Col ) ) )
         {
            eq( int64_t( gf.columnIndexMaximum ), x->hi, "columnIndexMaximum" );
         }
         if ( ( x = find( RetI ) ) )
         {
            eq( int64_t( gf.returnMaximum ), x->hi, "returnMaximum" );
         }
         x = find( Intens );
         if ( x )
         {
            eq( gf.intensityNodeType, x->type, "intensityNodeType" );
         }
         // limits of 0..0 may stand for "not given"
         if ( s.haveInt && h.intensityLimits.intensityMinimum == 0 && h.intensityLimits.intensityMaximum == 0 )
         {
         }
         else if ( s.haveInt || x )
         {
            eqD( g.intensityLimits.intensityMinimum, s.haveInt ? h.intensityLimits.intensityMinimum : x->low(), "intensityMinimum" );
            eqD( g.intensityLimits.intensityMaximum, s.haveInt ? h.intensityLimits.intensityMaximum : x->high(), "intensityMaximum" );
         }
         auto colour = [&]( int f, double lo, double hi, double wlo, double whi, const char *a1, const char *a2 ) {
            const FField *y = find( f );
            if ( s.haveCol && wlo == 0 && whi == 0 )
            {
               return;
            }
            if ( s.haveCol || y )
            {
               eqD( lo, s.haveCol ? wlo : y->low(), a1 );
               eqD( hi, s.haveCol ? whi : y->high(), a2 );
            }
         };
         auto &gl = g.colorLimits;
         auto &hl = h.colorLimits;
         colour( Red, gl.colorRedMinimum, gl.colorRedMaximum, hl.colorRedMinimum, hl.colorRedMaximum, "colorRedMinimum", "colorRedMaximum" );
         colour( Green, gl.colorGreenMinimum, gl.colorGreenMaximum, hl.colorGreenMinimum, hl.colorGreenMaximum, "colorGreenMinimum", "colorGreenMaximum" );
         colour( Blue, gl.colorBlueMinimum, gl.colorBlueMaximum, hl.colorBlueMinimum, hl.colorBlueMaximum, "colorBlueMinimum", "colorBlueMaximum" );
         PROBE( "foreign scan header compared" );
      }

      void Check::sizes( size_t k )
      {
         FScan &s = d_.scans[k];
         int64_t row = -1, col = -1, np = -1, ng = -1, nc = -1;
         bool byCol = true, ok = false;
         if ( !call( "GetData3DSizes", [&] { ok = r_.GetData3DSizes( int64_t( k ), row, col, np, ng, nc, byCol ); } ) )
         {
            return;
         }
         eq( ok, true, "result of GetData3DSizes" );
         eq( np, int64_t( s.n ), "pointsSize" );
         eq( ng, int64_t( s.gid.size() ), "groupsSize of GetData3DSizes" );
         eq( byCol, s.h.pointGroupingSchemes.groupingByLine.idElementName == "columnIndex", "columnIndex of GetData3DSizes" );
         auto &b = s.h.indexBounds;
         if ( s.rowB )
         {
            eq( row, b.rowMaximum - b.rowMinimum + 1, "rows of GetData3DSizes" );
         }
         if ( s.colB )
         {
            eq( col, b.columnMaximum - b.columnMinimum + 1, "columns of GetData3DSizes" );
         }
         if ( s.groups && s.gCount )
         {
            eq( nc, s.cntHi, "countSize of GetData3DSizes" );
         }
      }

      void Check::groups( size_t k )
      {
         FScan &s = d_.scans[k];
         size_t cap = s.gid.size() + c_.draw( 3 );
         if ( s.groups && c_.chance( 1, 4 ) )
         {
            cap = 1 + c_.draw( s.gid.size() );
         }
         if ( !cap )
         {
            cap = 1;
         }
         std::vector<int64_t> a( cap, -5 ), b( cap, -5 ), p( cap, -5 );
         bool ua = c_.chance( 3, 4 ), ub = c_.chance( 3, 4 ), up = c_.chance( 3, 4 );
         if ( s.groups && !( ( ua && s.gIdx ) || ( ub && s.gStart ) || ( up && s.gCount ) ) )
         {
            ua = ub = up = true;
         }
         bool ok = false;
         if ( !call( "ReadData3DGroupsData", [&] {
                 ok = r_.ReadData3DGroupsData( int64_t( k ), cap, ua ? a.data() : nullptr, ub ? b.data() : nullptr, up ? p.data() : nullptr );
              } ) )
         {
            return;
         }
         eq( ok, s.groups, "result of ReadData3DGroupsData" );
         for ( size_t i = 0; i < cap; i++ )
         {
            bool in = ok && i < s.gid.size();
            eq( a[i], in && ua && s.gIdx ? s.gid[i] : -5, "idElementValue" );
            eq( b[i], in && ub && s.gStart ? s.gstart[i] : -5, "startPointIndex" );
            eq( p[i], in && up && s.gCount ? s.gcount[i] : -5, "pointCount of a group" );
         }
      }

      template <class T> void Check::points( size_t k )
      {
         FScan &s = d_.scans[k];
         size_t cap = 1 + ( c_.chance( 1, 2 ) ? c_.draw( 20 ) : c_.draw( s.n + 3 ) );
         std::vector<bool> use( NSF, false );
         bool some = false;
         for ( auto &x : s.fields )
         {
            // colours are read into 16 bit integers; fractions have no defined counterpart
            if ( c_.chance( 3, 4 ) )
            {
               use[size_t( x.f )] = true;
               some = true;
            }
         }
         if ( !some )
         {
            use[size_t( s.fields[0].f )] = true;
         }
         if ( c_.chance( 1, 3 ) )
         {
            use[c_.draw( NSF )] = true; // a buffer for a field the file may not have
         }
         SPoints<T> b;
         b.bind( use, cap );
         std::unique_ptr<CompressedVectorReader> rd;
         if ( !call( "SetUpData3DPointsData",
                     [&] { rd.reset( new CompressedVectorReader( r_.SetUpData3DPointsData( int64_t( k ), cap, b.p ) ) ); } ) )
         {
            return;
         }
         uint64_t pos = 0;
         for ( ;; )
         {
            unsigned got = 0;
            if ( !call( "reading points", [&] { got = rd->read(); } ) )
            {
               break;
            }
            eq( uint64_t( got ), std::min<uint64_t>( cap, s.n - pos ), "number of points read" );
            for ( auto &x : s.fields )
            {
               if ( !use[size_t( x.f )] )
               {
                  continue;
               }
               for ( unsigned i = 0; i < got; i++ )
               {
                  double v = spLoad( b.p, x.f, i ), w = x.v[pos + i];
                  bool ok;
                  if ( x.f == Red || x.f == Green || x.f == Blue )
                  {
                     ok = v == std::floor( w ) || v == std::ceil( w );
                  }
                  else if ( x.f == NX || x.f == NY || x.f == NZ )
                  {
                     ok = v == double( float( w ) );
                  }
                  else if ( x.f <= CZ || ( x.f >= Range && x.f <= Elev ) )
                  {
                     ok = v == double( T( w ) );
                  }
                  else
                  {
                     ok = v == w;
                  }
                  if ( !ok )
                  {
                     fail( strf( "a point's %s differs :: point %llu read %.17g expected %.17g", sfieldName( x.f ), (unsigned long long)( pos + i ), v, w ) );
                  }
               }
            }
            pos += got;
            if ( !got )
            {
               PROBE( "all foreign points compared" );
               break;
            }
            if ( c_.chance( 1, 20 ) )
            {
               break;
            }
         }
         call( "closing the points", [&] {
            rd->close();
            rd.reset();
         } );
      }

      void Check::imageHeader( size_t k )
      {
         FImage &m = *d_.imgs[k];
         auto &h = m.h;
         Image2D g;
         g.name = "left over";
         bool ok = false;
         if ( !call( "ReadImage2D", [&] { ok = r_.ReadImage2D( int64_t( k ), g ); } ) )
         {
            return;
         }
         eq( ok, true, "result of ReadImage2D" );
         eq( g.guid, h.guid, "image guid" );
         eq( g.name, h.name, "image name" );
         eq( g.description, h.description, "image description" );
         eq( g.sensorVendor, h.sensorVendor, "image sensorVendor" );
         eq( g.sensorModel, h.sensorModel, "image sensorModel" );
         eq( g.sensorSerialNumber, h.sensorSerialNumber, "image sensorSerialNumber" );
         eq( g.associatedData3DGuid, h.associatedData3DGuid, "associatedData3DGuid" );
         eq( g.acquisitionDateTime, h.acquisitionDateTime, "acquisitionDateTime" );
         eq( g.pose, h.pose, "image pose" );
         eq( g.visualReferenceRepresentation, h.visualReferenceRepresentation, "visualReferenceRepresentation" );
         eq( g.pinholeRepresentation, h.pinholeRepresentation, "pinholeRepresentation" );
         eq( g.sphericalRepresentation, h.sphericalRepresentation, "sphericalRepresentation" );
         eq( g.cylindricalRepresentation, h.cylindricalRepresentation, "cylindricalRepresentation" );
         eq( bool( g.pinholeCameraDistortionExt ), m.dist, "presence of the distortion" );
         if ( m.dist )
         {
            auto &a = *g.pinholeCameraDistortionExt;
            auto &b = m.d;
            eq( a.cameraNumber, b.cameraNumber, "cameraNumber" );
            eq( a.type, b.type, "distortion type" );
            eqD( a.CV_K1, b.CV_K1, "CV_K1" );
            eqD( a.CV_K2, b.CV_K2, "CV_K2" );
            eqD( a.CV_K3, b.CV_K3, "CV_K3" );
            eqD( a.CV_K4, b.CV_K4, "CV_K4" );
            eqD( a.CV_K5, b.CV_K5, "CV_K5" );
            eqD( a.CV_K6, b.CV_K6, "CV_K6" );
            eqD( a.CV_P1, b.CV_P1, "CV_P1" );
            eqD( a.CV_P2, b.CV_P2, "CV_P2" );
            eqD( a.CV_CX, b.CV_CX, "CV_CX" );
            eqD( a.CV_CY, b.CV_CY, "CV_CY" );
            eqD( a.CV_FX, b.CV_FX, "CV_FX" );
            eqD( a.CV_FY, b.CV_FY, "CV_FY" );
            eq( a.CV_HEIGHT, b.CV_HEIGHT, "CV_HEIGHT" );
            eq( a.CV_WIDTH, b.CV_WIDTH, "CV_WIDTH" );
         }
         PROBE( "foreign image header compared" );
         Image2DProjection pr = ProjectionNone;
         Image2DType ty = ImageNone, mt = ImageNone, vt = ImageNone;
         int64_t wi = -1, he = -1, sz = -1;
         if ( !call( "GetImage2DSizes", [&] { ok = r_.GetImage2DSizes( int64_t( k ), pr, ty, wi, he, sz, mt, vt ); } ) )
         {
            return;
         }
         eq( ok, !m.reps.empty(), "result of GetImage2DSizes" );
         if ( ok )
         {
            FRep &r = m.reps[0];
            eq( pr, r.proj, "projection" );
            eq( wi, r.w, "image width" );
            eq( he, r.hgt, "image height" );
            eq( ty, r.hasMain ? ( r.png ? ImagePNG : ImageJPEG ) : r.hasMask ? ImageMaskPNG : ImageNone, "image type" );
            eq( mt, r.hasMask ? ImageMaskPNG : ImageNone, "mask type" );
            eq( sz, r.hasMain ? int64_t( r.main.size() ) : r.hasMask ? int64_t( r.mask.size() ) : 0, "image size" );
         }
      }

      void Check::imageData( size_t k )
      {
         FImage &m = *d_.imgs[k];
         Image2DProjection p = Image2DProjection( c_.draw( 5 ) );
         Image2DType t = Image2DType( c_.draw( 4 ) );
         const std::vector<uint8_t> *data = nullptr;
         if ( !m.reps.empty() && c_.chance( 3, 4 ) )
         {
            FRep &r = m.reps[c_.draw( m.reps.size() )];
            p = r.proj;
            t = r.hasMask && c_.chance( 1, 2 ) ? ImageMaskPNG : r.hasMain ? ( r.png ? ImagePNG : ImageJPEG ) : t;
         }
         for ( auto &r : m.reps )
         {
            if ( r.proj == p )
            {
               if ( t == ImageMaskPNG && r.hasMask )
               {
                  data = &r.mask;
               }
               else if ( r.hasMain && t == ( r.png ? ImagePNG : ImageJPEG ) )
               {
                  data = &r.main;
               }
            }
         }
         uint64_t st = 0, n = 1;
         if ( data )
         {
            st = c_.draw( data->size() + 1 );
            n = c_.draw( data->size() - st + 1 );
         }
         std::unique_ptr<uint8_t[]> buf( new uint8_t[n + 1] );
         memset( buf.get(), 0x77, n + 1 );
         int64_t got = -1;
         if ( !call( "ReadImage2DData", [&] { got = r_.ReadImage2DData( int64_t( k ), p, t, buf.get(), int64_t( st ), int64_t( n ) ); } ) )
         {
            return;
         }
         eq( got, data ? int64_t( n ) : 0, "result of ReadImage2DData" );
         if ( data && n && memcmp( buf.get(), data->data() + st, n ) )
         {
            fail( "image bytes differ" );
         }
         if ( buf[data ? n : 0] != 0x77 )
         {
            fail( "ReadImage2DData wrote past the requested bytes" );
         }
      }

      void Check::wrongIndex()
      {
         int64_t n3 = int64_t( d_.scans.size() ), n2 = int64_t( d_.imgs.size() );
         auto wrong = [&]( int64_t n ) {
            switch ( c_.draw( 5 ) )
            {
               case 0:
                  return n;
               case 1:
                  return int64_t( -1 );
               case 2:
                  return n + 1 + int64_t( c_.draw( 10 ) );
               case 3:
                  return INT64_MAX;
               default:
                  return INT64_MIN;
            }
         };
         int64_t i3 = wrong( n3 ), i2 = wrong( n2 );
         Data3D h;
         h.name = "untouched";
         Image2D m;
         m.name = "untouched";
         bool a = true, b = true, c = true, d = true, e = true;
         int64_t x[6];
         bool f = false;
         Image2DProjection pr = ProjectionNone;
         Image2DType t1 = ImageNone, t2 = ImageNone, t3 = ImageNone;
         uint8_t byte = 0x77;
         int64_t got = -1;
         if ( !call( "a call with an index out of range", [&] {
                 a = r_.ReadData3D( i3, h );
                 b = r_.ReadImage2D( i2, m );
                 c = r_.GetData3DSizes( i3, x[0], x[1], x[2], x[3], x[4], f );
                 d = r_.GetImage2DSizes( i2, pr, t1, x[0], x[1], x[2], t2, t3 );
                 e = r_.ReadData3DGroupsData( i3, 1, x, x + 1, x + 2 );
                 got = r_.ReadImage2DData( i2, ProjectionVisual, ImageJPEG, &byte, 0, 1 );
              } ) )
         {
            return;
         }
         if ( a || b || c || d || e || got != 0 || byte != 0x77 || h.name != "untouched" || m.name != "untouched" )
         {
            fail( "an index out of range was not refused" );
         }
         Data3DPointsFloat p;
         float v = 0;
         p.cartesianX = &v;
         Res r = lib( [&] { r_.SetUpData3DPointsData( i3, 1, p ); } );
         if ( r.ok || r.foreign )
         {
            fail( "points of a scan that does not exist: " + resStr( r ) );
         }
         PROBE( "index out of range refused" );
      }

      void Check::step()
      {
         size_t n3 = d_.scans.size(), n2 = d_.imgs.size();
         switch ( c_.weighted( { 2, 5, 2, 2, 6, 4, 4, 2 } ) )
         {
            case 0:
               rootHeader();
               break;
            case 1:
               if ( n3 )
               {
                  scanHeader( c_.draw( n3 ) );
               }
               break;
            case 2:
               if ( n3 )
               {
                  sizes( c_.draw( n3 ) );
               }
               break;
            case 3:
               if ( n3 )
               {
                  groups( c_.draw( n3 ) );
               }
               break;
            case 4:
               if ( n3 )
               {
                  c_.chance( 1, 2 ) ? points<float>( c_.draw( n3 ) ) : points<double>( c_.draw( n3 ) );
               }
               break;
            case 5:
               if ( n2 )
               {
                  imageHeader( c_.draw( n2 ) );
               }
               break;
            case 6:
               if ( n2 )
               {
                  imageData( c_.draw( n2 ) );
               }
               break;
            default:
               wrongIndex();
         }
      }

      void all( Check &k, FDoc &d )
      {
         k.rootHeader();
         for ( size_t i = 0; i < d.scans.size(); i++ )
         {
            k.scanHeader( i );
            k.sizes( i );
            k.groups( i );
            k.points<double>( i );
         }
         for ( size_t i = 0; i < d.imgs.size(); i++ )
         {
            k.imageHeader( i );
            k.imageData( i );
         }
      }

      void runForeign( Choices &c, unsigned profile )
      {
         const char *path = "/sim/f.e57";
         FDoc d;
         Res r = lib( [&] {
            ImageFile imf( path, "w" );
            Build( c, d, imf ).run();
            imf.close();
         } );
         g_sh->sessions++;
         if ( !r.ok )
         {
            fail( "a foreign file could not be made: " + resStr( r ) );
         }
         trace( "file with %zu scans and %zu images", d.scans.size(), d.imgs.size() );
         const bool faults = profile == 2;
         if ( faults )
         {
            g_disk->logOps = true;
            g_disk->log.clear();
            std::unique_ptr<Reader> rd;
            r = lib( [&] { rd.reset( new Reader( path, {} ) ); } );
            if ( !r.ok )
            {
               fail( "a valid file could not be opened: " + resStr( r ) );
            }
            Check k( c, d, *rd, false );
            all( k, d );
            lib( [&] { rd.reset(); } );
            std::vector<OpRec> log;
            log.swap( g_disk->log );
            g_disk->logOps = false;
            g_disk->clearPlan();
            g_disk->planPath = path;
            g_disk->plan = drawPlan( c, log, PlanRead );
            trace( "faults: %s", planStr( g_disk->plan ).c_str() );
         }
         std::unique_ptr<Reader> rd;
         ReaderOptions ro;
         if ( c.chance( 1, 3 ) )
         {
            ro.checksumPolicy = ReadChecksumPolicy( c.draw( 101 ) );
         }
         r = lib( [&] { rd.reset( new Reader( path, ro ) ); } );
         g_sh->sessions++;
         if ( !r.ok )
         {
            if ( faults && g_disk->firedCount && !r.foreign )
            {
               nontrivial();
               return;
            }
            fail( "a valid file could not be opened: " + resStr( r ) );
         }
         Check k( c, d, *rd, faults );
         unsigned n = 4 + c.draw( 20 );
         for ( unsigned i = 0; i < n; i++ )
         {
            k.step();
         }
         if ( faults )
         {
            g_disk->clearPlan();
         }
         all( k, d );
         r = lib( [&] {
            rd->Close();
            rd.reset();
         } );
         if ( !r.ok )
         {
            fail( "closing the reader: " + resStr( r ) );
         }
         nontrivial();
      }
      FamilyReg reg( { "foreign", runForeign, 3 } );
   }
}
