#include "simple.h"
#include <cfloat>
#include <cmath>

namespace sim
{
   using namespace e57;

   const char *sfieldName( int f )
   {
      static const char *const n[] = { "cartesianX",         "cartesianY",     "cartesianZ",       "cartesianInvalidState", "intensity",  "isIntensityInvalid",
                                       "colorRed",           "colorGreen",     "colorBlue",        "isColorInvalid",        "sphericalRange",
                                       "sphericalAzimuth",   "sphericalElevation", "sphericalInvalidState", "rowIndex", "columnIndex", "returnIndex",
                                       "returnCount",        "timeStamp",      "isTimeStampInvalid", "normalX",             "normalY",    "normalZ" };
      return n[f];
   }
   bool &sfieldFlag( PointStandardizedFieldsAvailable &p, int f )
   {
      switch ( f )
      {
         case CX:
            return p.cartesianXField;
         case CY:
            return p.cartesianYField;
         case CZ:
            return p.cartesianZField;
         case CInv:
            return p.cartesianInvalidStateField;
         case Intens:
            return p.intensityField;
         case IntInv:
            return p.isIntensityInvalidField;
         case Red:
            return p.colorRedField;
         case Green:
            return p.colorGreenField;
         case Blue:
            return p.colorBlueField;
         case ColInv:
            return p.isColorInvalidField;
         case Range:
            return p.sphericalRangeField;
         case Azim:
            return p.sphericalAzimuthField;
         case Elev:
            return p.sphericalElevationField;
         case SphInv:
            return p.sphericalInvalidStateField;
         case Row:
            return p.rowIndexField;
         case Col:
            return p.columnIndexField;
         case RetI:
            return p.returnIndexField;
         case RetC:
            return p.returnCountField;
         case Time:
            return p.timeStampField;
         case TimeInv:
            return p.isTimeStampInvalidField;
         case NX:
            return p.normalXField;
         case NY:
            return p.normalYField;
         default:
            return p.normalZField;
      }
   }

   namespace
   {
      using NT = NumericalNodeType;
      double rawOf( double x, double scale )
      {
         return std::floor( x / scale + 0.5 );
      }
      bool isPoint( int f )
      {
         return f == CX || f == CY || f == CZ || f == Range;
      }
      bool isAngle( int f )
      {
         return f == Azim || f == Elev;
      }
      double drawNum( Choices &c )
      {
         static const double special[] = { 1, -1, 0.1, -0.5, 1e10, -1e-10, 123456.789, 1.0 / 3, -2.5e100, 1e-300, 4.9e-324, DBL_MAX, -DBL_MAX, 0.3, 1e5, 0 };
         switch ( c.draw( 3 ) )
         {
            case 0:
               return special[c.draw( sizeof special / sizeof *special )];
            case 1:
               return double( int32_t( c.draw( 1ULL << 32 ) ) ) / 1000.0;
            default:
            {
               Rng r( c.sub() );
               return ( double( int64_t( r.next() ) ) / 9.3e18 ) * std::pow( 10.0, double( c.draw( 12 ) ) - 4 );
            }
         }
      }
      float drawFloat( Choices &c )
      {
         double x = drawNum( c );
         return float( std::max( -1e30, std::min( 1e30, x ) ) );
      }
      void drawDate( Choices &c, DateTime &d )
      {
         switch ( c.draw( 4 ) )
         {
            case 0:
               return;
            case 1:
               d.dateTimeValue = double( c.draw( 1ULL << 31 ) ) + double( c.draw( 1000 ) ) / 1000;
               break;
            case 2:
               d.dateTimeValue = -double( c.draw( 1ULL << 31 ) ) / 7;
               break;
            default:
               d.dateTimeValue = std::fabs( drawNum( c ) );
         }
         d.isAtomicClockReferenced = int32_t( c.draw( 2 ) );
         if ( c.chance( 1, 8 ) )
         {
            d.dateTimeValue = 0;
         }
      }
      void drawPose( Choices &c, RigidBodyTransform &p )
      {
         double *d[] = { &p.rotation.w, &p.rotation.x, &p.rotation.y, &p.rotation.z, &p.translation.x, &p.translation.y, &p.translation.z };
         if ( c.chance( 1, 2 ) )
         {
            unsigned only = c.draw( 8 );
            for ( unsigned i = 0; i < 7; i++ )
            {
               if ( only == 7 || only == i )
               {
                  *d[i] = drawNum( c );
               }
            }
         }
      }
      void drawStr( Choices &c, ustring &s, unsigned num = 1, unsigned den = 2 )
      {
         if ( c.chance( num, den ) )
         {
            s = genText( c, 30 );
         }
      }
      std::vector<uint8_t> drawBytes( Choices &c, uint64_t max )
      {
         std::vector<uint8_t> b( 1 + c.skewed( uint32_t( max ) ) );
         Rng r( c.sub() );
         for ( auto &x : b )
         {
            x = uint8_t( r.next() );
         }
         return b;
      }

      // Limits and values of a numeric field group.
      struct Num
      {
         NT type;
         double scale = 0, lo = 0, hi = 0;
         int64_t rlo = 0, rhi = 0;
      };
      Num drawGroup( Choices &c, bool integer, bool single )
      {
         Num g;
         static const NT t4[] = { NT::Float, NT::Double, NT::ScaledInteger, NT::Integer };
         g.type = t4[c.draw( integer ? 4 : 3 )];
         if ( g.type == NT::ScaledInteger )
         {
            static const double sc[] = { 0.001, 1, 0.5, 0.0001, 1.0 / 3, 1e-7, 10, 1e3 };
            g.scale = sc[c.draw( 8 )];
         }
         if ( g.type == NT::ScaledInteger || g.type == NT::Integer )
         {
            int64_t span = int64_t( c.chance( 1, 3 ) ? c.draw( 1ULL << 31 ) : c.skewed( 1000000 ) );
            switch ( c.draw( 4 ) )
            {
               case 0:
                  g.rlo = 0;
                  break;
               case 1:
                  g.rlo = -int64_t( c.draw( uint64_t( span ) + 1 ) );
                  break;
               case 2:
                  g.rlo = 1 + int64_t( c.draw( 1000000 ) );
                  break;
               default:
                  g.rlo = -span - 1 - int64_t( c.draw( 1000 ) );
            }
            g.rhi = g.rlo + span;
            g.lo = g.type == NT::Integer ? double( g.rlo ) : double( g.rlo ) * g.scale;
            g.hi = g.type == NT::Integer ? double( g.rhi ) : double( g.rhi ) * g.scale;
         }
         else if ( c.chance( 1, 2 ) )
         {
            g.lo = c.chance( 1, 3 ) ? double( 1 + c.draw( 100 ) ) : -double( c.draw( 100000 ) ) / 8;
            g.hi = g.lo + double( c.draw( 1000000 ) ) / 4;
         }
         else
         {
            g.lo = -DBL_MAX;
            g.hi = DBL_MAX;
         }
         (void)single;
         return g;
      }
      // 0 .. n, the ends more often than the rest
      uint64_t edged( Rng &r, uint64_t n )
      {
         uint64_t x = r.below( n + 1 );
         switch ( r.below( 8 ) )
         {
            case 0:
               return 0;
            case 1:
               return n;
            default:
               return x;
         }
      }
      // values as the caller's memory holds them
      template <class T> double drawValue( Rng &r, const Num &g )
      {
         if ( g.type == NT::Integer )
         {
            return double( g.rlo + int64_t( edged( r, uint64_t( g.rhi - g.rlo ) ) ) );
         }
         if ( g.type == NT::ScaledInteger )
         {
            for ( int k = 0; k < 8; k++ )
            {
               double raw = double( g.rlo + int64_t( edged( r, uint64_t( g.rhi - g.rlo ) ) ) );
               double x = double( T( ( raw + ( double( r.below( 900 ) ) - 450 ) / 1000 ) * g.scale ) );
               double q = rawOf( x, g.scale );
               if ( q >= double( g.rlo ) && q <= double( g.rhi ) )
               {
                  return x;
               }
            }
            double x = double( T( double( g.rlo ) * g.scale ) );
            double q = rawOf( x, g.scale );
            return q >= double( g.rlo ) && q <= double( g.rhi ) ? x : NAN;
         }
         double lo = std::max( g.lo, -1e30 ), hi = std::min( g.hi, 1e30 );
         if ( lo == -1e30 && r.below( 2 ) )
         {
            lo = -1000, hi = 1000;
         }
         double x = lo + ( hi - lo ) * ( double( edged( r, 1u << 30 ) ) / double( 1u << 30 ) );
         return g.type == NT::Float ? double( float( x ) ) : double( T( x ) );
      }

      void genScan( Choices &c, SScan &s, const SOpts &o )
      {
         auto &h = s.h;
         auto &pf = h.pointFields;
         drawStr( c, h.name );
         drawStr( c, h.description );
         drawStr( c, h.sensorVendor, 1, 3 );
         drawStr( c, h.sensorModel, 1, 3 );
         drawStr( c, h.sensorSerialNumber, 1, 3 );
         drawStr( c, h.sensorHardwareVersion, 1, 3 );
         drawStr( c, h.sensorSoftwareVersion, 1, 3 );
         drawStr( c, h.sensorFirmwareVersion, 1, 3 );
         drawStr( c, h.guid );
         if ( h.guid.empty() && o.fixedGuids )
         {
            h.guid = strf( "{scan %u}", unsigned( c.draw( 1000 ) ) );
         }
         if ( c.chance( 1, 3 ) )
         {
            for ( unsigned k = 1 + c.draw( 4 ); k; k-- )
            {
               h.originalGuids.push_back( genText( c, 40 ) );
            }
         }
         if ( c.chance( 1, 3 ) )
         {
            h.temperature = drawFloat( c );
         }
         if ( c.chance( 1, 3 ) )
         {
            h.relativeHumidity = c.chance( 1, 8 ) ? -FLT_MAX : float( c.draw( 1001 ) ) / 10;
         }
         if ( c.chance( 1, 3 ) )
         {
            h.atmosphericPressure = std::fabs( drawFloat( c ) );
         }
         drawDate( c, h.acquisitionStart );
         drawDate( c, h.acquisitionEnd );
         drawPose( c, h.pose );
         if ( c.chance( 1, 2 ) )
         {
            int64_t *b[] = { &h.indexBounds.rowMinimum,    &h.indexBounds.rowMaximum,    &h.indexBounds.columnMinimum,
                             &h.indexBounds.columnMaximum, &h.indexBounds.returnMinimum, &h.indexBounds.returnMaximum };
            for ( unsigned i = 0; i < 6; i += 2 )
            {
               if ( c.chance( 1, 2 ) )
               {
                  switch ( c.draw( 6 ) )
                  {
                     case 0:
                        *b[i] = -int64_t( c.draw( 1000 ) );
                        break;
                     case 1:
                        *b[i] = *b[i + 1] = int64_t( c.draw( 1000 ) ) - 500;
                        break;
                     case 2:
                        *b[i + 1] = int64_t( c.draw( 1ULL << 40 ) );
                        break;
                     default:
                        *b[i] = int64_t( c.draw( 1000 ) ) - ( c.chance( 1, 5 ) ? 500 : 0 );
                        *b[i + 1] = *b[i] + int64_t( c.draw( 100000 ) );
                  }
               }
            }
         }
         if ( c.chance( 1, 2 ) )
         {
            double *b[] = { &h.cartesianBounds.xMinimum, &h.cartesianBounds.xMaximum, &h.cartesianBounds.yMinimum,
                            &h.cartesianBounds.yMaximum, &h.cartesianBounds.zMinimum, &h.cartesianBounds.zMaximum };
            unsigned only = c.draw( 8 );
            for ( unsigned i = 0; i < 6; i++ )
            {
               if ( only >= 6 || only == i )
               {
                  *b[i] = drawNum( c );
               }
            }
         }
         if ( c.chance( 1, 2 ) )
         {
            double *b[] = { &h.sphericalBounds.rangeMinimum,     &h.sphericalBounds.rangeMaximum, &h.sphericalBounds.elevationMinimum,
                            &h.sphericalBounds.elevationMaximum, &h.sphericalBounds.azimuthStart, &h.sphericalBounds.azimuthEnd };
            unsigned only = c.draw( 8 );
            for ( unsigned i = 0; i < 6; i++ )
            {
               if ( only >= 6 || only == i )
               {
                  *b[i] = drawNum( c );
               }
            }
         }
         // fields
         bool cart = c.chance( 3, 4 ), sph = !cart || c.chance( 1, 4 );
         if ( cart )
         {
            pf.cartesianXField = pf.cartesianYField = pf.cartesianZField = true;
            pf.cartesianInvalidStateField = c.chance( 1, 3 );
         }
         if ( sph )
         {
            pf.sphericalRangeField = pf.sphericalAzimuthField = pf.sphericalElevationField = true;
            pf.sphericalInvalidStateField = c.chance( 1, 3 );
         }
         if ( c.chance( 1, 8 ) )
         {
            // unusual combinations
            static const int odd[] = { CX, CY, CZ, Range, Azim, Elev };
            for ( unsigned k = 1 + c.draw( 3 ); k; k-- )
            {
               sfieldFlag( pf, odd[c.draw( 6 )] ) = false;
            }
         }
         if ( c.chance( 1, 2 ) )
         {
            pf.intensityField = true;
            pf.isIntensityInvalidField = c.chance( 1, 3 );
         }
         if ( c.chance( 1, 2 ) )
         {
            bool all = c.chance( 3, 4 );
            pf.colorRedField = all || c.chance( 1, 2 );
            pf.colorGreenField = all || c.chance( 1, 2 );
            pf.colorBlueField = all || c.chance( 1, 2 );
            pf.isColorInvalidField = c.chance( 1, 3 );
         }
         if ( c.chance( 1, 3 ) )
         {
            pf.rowIndexField = c.chance( 3, 4 );
            pf.columnIndexField = c.chance( 3, 4 );
            pf.rowIndexMaximum = c.chance( 1, 3 ) ? UINT32_MAX : c.skewed( 100000 );
            pf.columnIndexMaximum = c.chance( 1, 3 ) ? uint32_t( INT32_MAX ) : c.skewed( 100000 );
         }
         if ( c.chance( 1, 3 ) )
         {
            pf.returnIndexField = c.chance( 3, 4 );
            pf.returnCountField = c.chance( 3, 4 );
            pf.returnMaximum = uint8_t( c.chance( 1, 3 ) ? 255 : c.draw( 128 ) );
         }
         if ( c.chance( 1, 3 ) )
         {
            pf.timeStampField = true;
            pf.isTimeStampInvalidField = c.chance( 1, 3 );
         }
         if ( c.chance( 1, 4 ) )
         {
            bool all = c.chance( 3, 4 );
            pf.normalXField = all || c.chance( 1, 2 );
            pf.normalYField = all || c.chance( 1, 2 );
            pf.normalZField = all || c.chance( 1, 2 );
         }
         bool any = false;
         for ( int f = 0; f < NSF; f++ )
         {
            any = any || sfieldFlag( pf, f );
         }
         if ( !any )
         {
            pf.cartesianXField = true;
         }
         s.wide = c.chance( 1, 2 );
         s.oneShot = c.chance( 1, 2 );
         s.ctor = c.chance( 1, 2 );
         switch ( c.draw( 6 ) )
         {
            case 0:
               s.n = 1 + c.draw( 3 );
               break;
            case 1:
               s.n = c.draw( 2 ) ? 0 : 1;
               break;
            case 2:
               s.n = 1 + c.draw( o.maxPoints * 10 );
               break;
            default:
               s.n = 1 + c.draw( o.maxPoints );
         }
         h.pointCount = s.n;
         s.cap = s.oneShot ? s.n : std::max<uint64_t>( 1, c.chance( 1, 2 ) ? s.n : 1 + c.draw( s.n + 3 ) );
         if ( !s.oneShot )
         {
            uint64_t left = s.n;
            while ( left || ( s.batches.size() < 40 && c.chance( 1, 6 ) ) )
            {
               uint64_t k = s.batches.size() > 60 ? std::min( left, s.cap ) : c.chance( 1, 2 ) ? std::min( left, s.cap ) : c.draw( std::min( left, s.cap ) + 1 );
               s.batches.push_back( k );
               left -= k;
            }
         }
         // numeric groups
         Num pt = drawGroup( c, false, !s.wide ), an = drawGroup( c, false, !s.wide ), ti = drawGroup( c, true, false ), in = drawGroup( c, true, false );
         pf.pointRangeNodeType = pt.type;
         pf.pointRangeScale = pt.scale;
         pf.pointRangeMinimum = pt.lo;
         pf.pointRangeMaximum = pt.hi;
         pf.angleNodeType = an.type;
         pf.angleScale = an.scale;
         pf.angleMinimum = an.lo;
         pf.angleMaximum = an.hi;
         pf.timeNodeType = ti.type;
         pf.timeScale = ti.scale;
         pf.timeMinimum = ti.lo;
         pf.timeMaximum = ti.hi;
         pf.intensityNodeType = in.type;
         pf.intensityScale = in.scale;
         if ( in.type != NT::Integer && in.type != NT::ScaledInteger )
         {
            in.lo = std::max( in.lo, -1e9 );
            in.hi = std::min( in.hi, 1e9 );
         }
         const bool noLimits = !pf.intensityField && c.chance( 1, 2 );
         h.intensityLimits.intensityMinimum = noLimits ? 0 : in.lo;
         h.intensityLimits.intensityMaximum = noLimits ? 0 : in.hi;
         double lim[6] = {};
         for ( unsigned i = 0; i < 6; i += 2 )
         {
            if ( c.chance( 2, 3 ) )
            {
               lim[i] = c.chance( 1, 3 ) ? c.draw( 65536 ) : 0;
               lim[i + 1] = c.chance( 1, 2 ) ? std::max( lim[i], 255.0 ) : lim[i] + c.draw( 65536 - uint64_t( lim[i] ) );
            }
         }
         h.colorLimits = { lim[0], lim[1], lim[2], lim[3], lim[4], lim[5] };
         // grouping
         if ( s.n && c.chance( 1, 3 ) )
         {
            auto &g = h.pointGroupingSchemes.groupingByLine;
            g.idElementName = c.chance( 1, 2 ) ? "rowIndex" : "columnIndex";
            s.groupsWhen = 1 + int( c.draw( 2 ) );
            if ( s.oneShot )
            {
               s.groupsWhen = 2;
            }
            unsigned k = 1 + c.skewed( 60 );
            g.groupsSize = int64_t( k );
            g.pointCountSize = int64_t( c.draw( 10000 ) );
            Rng r( c.sub() );
            for ( unsigned i = 0; i < k; i++ )
            {
               s.gid.push_back( int64_t( edged( r, k - 1 ) ) );
               s.gstart.push_back( int64_t( edged( r, s.n - 1 ) ) );
               s.gcount.push_back( int64_t( edged( r, uint64_t( g.pointCountSize ) ) ) );
            }
         }
         // values
         s.v.resize( NSF );
         for ( int f = 0; f < NSF; f++ )
         {
            if ( !sfieldFlag( pf, f ) )
            {
               continue;
            }
            Rng r( c.sub() );
            s.v[f].resize( s.n );
            for ( auto &x : s.v[f] )
            {
               if ( isPoint( f ) )
               {
                  x = s.wide ? drawValue<double>( r, pt ) : drawValue<float>( r, pt );
               }
               else if ( isAngle( f ) )
               {
                  x = s.wide ? drawValue<double>( r, an ) : drawValue<float>( r, an );
               }
               else if ( f == Time )
               {
                  x = drawValue<double>( r, ti );
               }
               else if ( f == Intens )
               {
                  x = drawValue<double>( r, in );
               }
               else if ( f == Red || f == Green || f == Blue )
               {
                  unsigned i = unsigned( f - Red ) * 2;
                  x = lim[i] + double( edged( r, uint64_t( lim[i + 1] - lim[i] ) ) );
               }
               else if ( f == Row )
               {
                  x = double( edged( r, std::min<uint64_t>( pf.rowIndexMaximum, INT32_MAX ) ) );
               }
               else if ( f == Col )
               {
                  x = double( edged( r, std::min<uint64_t>( pf.columnIndexMaximum, INT32_MAX ) ) );
               }
               else if ( f == RetI || f == RetC )
               {
                  x = double( edged( r, std::min<uint64_t>( pf.returnMaximum, 127 ) ) );
               }
               else if ( f == CInv || f == SphInv )
               {
                  x = double( r.below( 3 ) );
               }
               else if ( f >= NX )
               {
                  x = double( float( double( r.below( 2001 ) ) / 1000 - 1 ) );
               }
               else
               {
                  x = double( r.below( 2 ) );
               }
               if ( std::isnan( x ) )
               {
                  throw Unsuitable{};
               }
            }
         }
         // limits the library works out itself
         if ( s.oneShot && c.chance( 1, 2 ) )
         {
            s.autoRange = pt.type == NT::ScaledInteger;
            s.autoAngle = an.type == NT::ScaledInteger;
            s.autoTime = ti.type == NT::ScaledInteger && pf.timeStampField;
            s.wideDefaults = c.chance( 1, 2 );
         }
      }

      void genImage( Choices &c, SImage &im, const SOpts &o )
      {
         auto &h = im.h;
         drawStr( c, h.name );
         drawStr( c, h.description );
         drawStr( c, h.guid );
         if ( h.guid.empty() && o.fixedGuids )
         {
            h.guid = strf( "{image %u}", unsigned( c.draw( 1000 ) ) );
         }
         drawStr( c, h.associatedData3DGuid, 1, 3 );
         drawStr( c, h.sensorVendor, 1, 3 );
         drawStr( c, h.sensorModel, 1, 3 );
         drawStr( c, h.sensorSerialNumber, 1, 3 );
         drawDate( c, h.acquisitionDateTime );
         drawPose( c, h.pose );
         auto rep = [&]( int proj ) {
            SRep r;
            r.proj = proj;
            r.png = c.chance( 1, 2 );
            r.main = drawBytes( c, o.maxImage );
            if ( c.chance( 1, 2 ) )
            {
               r.mask = drawBytes( c, o.maxImage );
            }
            auto common = [&]( auto &x ) {
               ( r.png ? x.pngImageSize : x.jpegImageSize ) = int64_t( r.main.size() );
               x.imageMaskSize = int64_t( r.mask.size() );
               x.imageWidth = int32_t( c.draw( 1ULL << 31 ) );
               x.imageHeight = int32_t( c.draw( 10000 ) );
            };
            if ( proj == 1 )
            {
               common( h.visualReferenceRepresentation );
            }
            else if ( proj == 2 )
            {
               auto &x = h.pinholeRepresentation;
               common( x );
               x.focalLength = drawNum( c );
               x.pixelWidth = drawNum( c );
               x.pixelHeight = drawNum( c );
               x.principalPointX = drawNum( c );
               x.principalPointY = drawNum( c );
            }
            else if ( proj == 3 )
            {
               auto &x = h.sphericalRepresentation;
               common( x );
               x.pixelWidth = drawNum( c );
               x.pixelHeight = drawNum( c );
            }
            else
            {
               auto &x = h.cylindricalRepresentation;
               common( x );
               x.pixelWidth = drawNum( c );
               x.pixelHeight = drawNum( c );
               x.radius = drawNum( c );
               x.principalPointY = drawNum( c );
            }
            im.reps.push_back( r );
         };
         if ( c.chance( 1, 4 ) )
         {
            rep( 1 );
            rep( 2 + int( c.draw( 3 ) ) );
         }
         else if ( c.chance( 9, 10 ) )
         {
            rep( 1 + int( c.draw( 4 ) ) );
         }
         if ( c.chance( 1, 3 ) )
         {
            h.pinholeCameraDistortionExt = std::make_unique<Extension::PinholeCameraDistortion>();
            auto &p = *h.pinholeCameraDistortionExt;
            p.cameraNumber = int64_t( c.draw( 10 ) );
            p.type = genText( c, 12 );
            double *v[] = { &p.CV_K1, &p.CV_K2, &p.CV_K3, &p.CV_K4, &p.CV_K5, &p.CV_K6, &p.CV_P1, &p.CV_P2, &p.CV_CX, &p.CV_CY, &p.CV_FX, &p.CV_FY };
            for ( auto *x : v )
            {
               *x = drawNum( c );
            }
            p.CV_HEIGHT = int32_t( c.draw( 100000 ) );
            p.CV_WIDTH = int32_t( c.draw( 1ULL << 31 ) );
         }
         im.oneShot = im.reps.size() == 1 && c.chance( 1, 2 );
      }
   }

   std::shared_ptr<SDoc> genSimple( Choices &c, const SOpts &o )
   {
      auto d = std::make_shared<SDoc>();
      drawStr( c, d->opt.guid );
      if ( d->opt.guid.empty() && o.fixedGuids )
      {
         d->opt.guid = "{file}";
      }
      drawStr( c, d->opt.coordinateMetadata );
      d->scans.resize( c.draw( o.maxScans + 1 ) );
      d->images.resize( c.draw( o.maxImages + 1 ) );
      if ( d->scans.empty() && d->images.empty() && !c.chance( 1, 8 ) )
      {
         d->scans.resize( 1 );
      }
      std::vector<std::vector<SStep>> threads;
      for ( unsigned i = 0; i < d->scans.size(); i++ )
      {
         SScan &s = d->scans[i];
         genScan( c, s, o );
         std::vector<SStep> t;
         auto add = [&]( SStep::Type k ) {
            SStep x{};
            x.type = k;
            x.item = i;
            t.push_back( x );
         };
         if ( s.oneShot )
         {
            add( SStep::OneShot );
         }
         else
         {
            add( SStep::NewScan );
            if ( s.groupsWhen == 1 )
            {
               add( SStep::Groups );
            }
            add( SStep::OpenPoints );
            for ( size_t k = 0; k < s.batches.size(); k++ )
            {
               add( SStep::Batch );
            }
            add( SStep::ClosePoints );
         }
         if ( s.groupsWhen == 2 )
         {
            add( SStep::Groups );
         }
         threads.push_back( t );
      }
      for ( unsigned i = 0; i < d->images.size(); i++ )
      {
         SImage &im = d->images[i];
         genImage( c, im, o );
         std::vector<SStep> t;
         SStep n{};
         n.type = SStep::NewImage;
         n.item = i;
         t.push_back( n );
         std::vector<SStep> ch;
         for ( unsigned r = 0; r < im.reps.size(); r++ )
         {
            for ( int m = 0; m < 2; m++ )
            {
               uint64_t len = m ? im.reps[r].mask.size() : im.reps[r].main.size();
               if ( !len || ( !m && im.oneShot ) )
               {
                  continue;
               }
               uint64_t at = 0;
               while ( at < len )
               {
                  SStep x{};
                  x.type = SStep::Chunk;
                  x.item = i;
                  x.rep = r;
                  x.mask = m != 0;
                  x.start = at;
                  x.len = c.chance( 1, 2 ) || ch.size() > 20 ? len - at : 1 + c.draw( len - at );
                  at += x.len;
                  ch.push_back( x );
               }
            }
         }
         while ( !ch.empty() )
         {
            size_t k = c.draw( ch.size() );
            t.push_back( ch[k] );
            ch.erase( ch.begin() + long( k ) );
         }
         threads.push_back( t );
      }
      // interleave; nothing that needs file space while points are being written
      std::vector<size_t> at( threads.size() );
      int open = -1;
      while ( true )
      {
         std::vector<unsigned> can;
         for ( unsigned i = 0; i < threads.size(); i++ )
         {
            if ( at[i] >= threads[i].size() )
            {
               continue;
            }
            auto ty = threads[i][at[i]].type;
            if ( open < 0 || open == int( i ) || ty == SStep::NewScan || ty == SStep::Chunk )
            {
               can.push_back( i );
            }
         }
         if ( can.empty() )
         {
            break;
         }
         unsigned i = can[c.draw( can.size() )];
         SStep s = threads[i][at[i]++];
         if ( s.type == SStep::OpenPoints )
         {
            open = int( i );
         }
         if ( s.type == SStep::ClosePoints )
         {
            open = -1;
         }
         if ( s.type == SStep::NewScan || s.type == SStep::OneShot )
         {
            d->scanOrder.push_back( s.item );
         }
         if ( s.type == SStep::NewImage )
         {
            d->imageOrder.push_back( s.item );
         }
         d->steps.push_back( s );
      }
      return d;
   }

   // ------------------------------------------------------------------ writing
   namespace
   {
      Image2D copyImage( const Image2D &a )
      {
         Image2D b;
         b.name = a.name;
         b.guid = a.guid;
         b.description = a.description;
         b.acquisitionDateTime = a.acquisitionDateTime;
         b.associatedData3DGuid = a.associatedData3DGuid;
         b.sensorVendor = a.sensorVendor;
         b.sensorModel = a.sensorModel;
         b.sensorSerialNumber = a.sensorSerialNumber;
         b.pose = a.pose;
         b.visualReferenceRepresentation = a.visualReferenceRepresentation;
         b.pinholeRepresentation = a.pinholeRepresentation;
         b.sphericalRepresentation = a.sphericalRepresentation;
         b.cylindricalRepresentation = a.cylindricalRepresentation;
         if ( a.pinholeCameraDistortionExt )
         {
            b.pinholeCameraDistortionExt = std::make_unique<Extension::PinholeCameraDistortion>( *a.pinholeCameraDistortionExt );
         }
         return b;
      }
      std::vector<bool> useOf( const SScan &s )
      {
         std::vector<bool> u( NSF );
         auto pf = s.h.pointFields;
         for ( int f = 0; f < NSF; f++ )
         {
            u[size_t( f )] = sfieldFlag( pf, f );
         }
         return u;
      }
      template <class P> void fillFrom( P &p, const SScan &s, const std::vector<bool> &use, uint64_t from, uint64_t n )
      {
         for ( int f = 0; f < NSF; f++ )
         {
            if ( use[size_t( f )] )
            {
               for ( uint64_t i = 0; i < n; i++ )
               {
                  spStore( p, f, i, s.v[size_t( f )][from + i] );
               }
            }
         }
      }
      // the caller's limits, set where the library expects them
      template <class T> void setLimits( const SScan &s, Data3D &h )
      {
         // limits left at the defaults, those of the buffers or those of the header
         const double lo = s.wideDefaults ? -DBL_MAX : double( std::numeric_limits<T>::lowest() ), hi = -lo;
         auto &pf = h.pointFields;
         auto &q = s.h.pointFields;
         pf.pointRangeMinimum = s.autoRange ? lo : q.pointRangeMinimum;
         pf.pointRangeMaximum = s.autoRange ? hi : q.pointRangeMaximum;
         pf.angleMinimum = s.autoAngle ? lo : q.angleMinimum;
         pf.angleMaximum = s.autoAngle ? hi : q.angleMaximum;
         pf.timeMinimum = s.autoTime ? lo : q.timeMinimum;
         pf.timeMaximum = s.autoTime ? hi : q.timeMaximum;
      }
   }

   SWriting::SWriting( SDoc &d, std::string path ) : d_( d ), path_( std::move( path ) )
   {
      written.resize( d.scans.size() );
      imageGuids.resize( d.images.size() );
      scanIdx_.assign( d.scans.size(), -1 );
      imageIdx_.assign( d.images.size(), -1 );
   }
   SWriting::~SWriting()
   {
      destroy();
   }
   Res SWriting::open()
   {
      return lib( [&] { w_.reset( new Writer( path_, d_.opt ) ); } );
   }

   template <class T> Res SWriting::openPoints( SScan &s, unsigned item )
   {
      using P = Data3DPointsData_t<T>;
      auto use = useOf( s );
      P *p = nullptr;
      Data3D h = s.h;
      if ( s.ctor )
      {
         h.pointCount = s.cap;
         Res r = lib( [&] {
            auto q = std::make_shared<P>( h );
            p = q.get();
            bufs_ = q;
         } );
         if ( !r )
         {
            return r;
         }
      }
      else
      {
         auto q = std::make_shared<SPoints<T>>();
         q->bind( use, s.cap );
         p = &q->p;
         bufs_ = q;
      }
      SScan *sp = &s;
      fill_ = [p, sp, use]( uint64_t from, uint64_t n ) { fillFrom( *p, *sp, use, from, n ); };
      return lib( [&] { cw_.reset( new CompressedVectorWriter( w_->SetUpData3DPointsData( scanIdx_[item], s.cap, *p ) ) ); } );
   }

   Res SWriting::step()
   {
      SStep &st = d_.steps[pos_++];
      switch ( st.type )
      {
         case SStep::NewScan:
         case SStep::OneShot:
         {
            SScan &s = d_.scans[st.item];
            Data3D &h = written[st.item];
            h = s.h;
            int64_t idx = -2;
            Res r;
            auto go = [&]( auto tag ) {
               using T = decltype( tag );
               using P = Data3DPointsData_t<T>;
               auto use = useOf( s );
               std::unique_ptr<P> own;
               SPoints<T> mine;
               P *p = nullptr;
               if ( s.ctor )
               {
                  r = lib( [&] { own.reset( new P( h ) ); } ); // also adjusts the header
                  if ( !r )
                  {
                     return;
                  }
                  p = own.get();
               }
               setLimits<T>( s, h );
               if ( st.type == SStep::NewScan )
               {
                  r = lib( [&] { idx = w_->NewData3D( h ); } );
                  return;
               }
               if ( !s.ctor )
               {
                  mine.bind( use, s.n );
                  p = &mine.p;
               }
               fillFrom( *p, s, use, 0, s.n );
               r = lib( [&] { idx = w_->WriteData3DData( h, *p ); } );
            };
            if ( s.wide )
            {
               go( double() );
            }
            else
            {
               go( float() );
            }
            if ( r && idx != nextScan_ && bad.empty() )
            {
               bad = strf( "scan number %lld was given index %lld", (long long)nextScan_, (long long)idx );
            }
            scanIdx_[st.item] = idx;
            nextScan_++;
            return r;
         }
         case SStep::OpenPoints:
            done_ = 0;
            batch_ = 0;
            return d_.scans[st.item].wide ? openPoints<double>( d_.scans[st.item], st.item ) : openPoints<float>( d_.scans[st.item], st.item );
         case SStep::Batch:
         {
            SScan &s = d_.scans[st.item];
            if ( !cw_ )
            {
               return Res(); // setting up failed before
            }
            uint64_t k = s.batches[batch_++];
            fill_( done_, k );
            done_ += k;
            return lib( [&] { cw_->write( size_t( k ) ); } );
         }
         case SStep::ClosePoints:
         {
            Res r = lib( [&] {
               if ( cw_ )
               {
                  cw_->close();
               }
            } );
            if ( r )
            {
               lib( [&] { cw_.reset(); } );
               bufs_.reset();
            }
            return r;
         }
         case SStep::Groups:
         {
            SScan &s = d_.scans[st.item];
            bool ok = false;
            Res r = lib( [&] { ok = w_->WriteData3DGroupsData( scanIdx_[st.item], s.gid.size(), s.gid.data(), s.gstart.data(), s.gcount.data() ); } );
            if ( r && !ok && bad.empty() )
            {
               bad = "WriteData3DGroupsData returned false";
            }
            return r;
         }
         case SStep::NewImage:
         {
            SImage &im = d_.images[st.item];
            Image2D h = copyImage( im.h );
            int64_t idx = -2;
            Res r;
            if ( im.oneShot )
            {
               SRep &rp = im.reps[0];
               int64_t n = -1;
               r = lib( [&] {
                  n = w_->WriteImage2DData( h, rp.png ? ImagePNG : ImageJPEG, Image2DProjection( rp.proj ), 0, rp.main.data(), int64_t( rp.main.size() ) );
               } );
               if ( r && n != int64_t( rp.main.size() ) && bad.empty() )
               {
                  bad = strf( "writing an image of %zu bytes returned %lld", rp.main.size(), (long long)n );
               }
               idx = nextImage_;
            }
            else
            {
               r = lib( [&] { idx = w_->NewImage2D( h ); } );
               if ( r && idx != nextImage_ && bad.empty() )
               {
                  bad = strf( "image number %lld was given index %lld", (long long)nextImage_, (long long)idx );
               }
            }
            nextImage_++;
            imageIdx_[st.item] = idx;
            imageGuids[st.item] = h.guid;
            return r;
         }
         case SStep::Chunk:
         {
            SImage &im = d_.images[st.item];
            SRep &rp = im.reps[st.rep];
            auto &b = st.mask ? rp.mask : rp.main;
            int64_t n = -1;
            Res r = lib( [&] {
               n = w_->WriteImage2DData( imageIdx_[st.item], st.mask ? ImageMaskPNG : rp.png ? ImagePNG : ImageJPEG, Image2DProjection( rp.proj ),
                                         b.data() + st.start, int64_t( st.start ), int64_t( st.len ) );
            } );
            if ( r && n != int64_t( st.len ) && bad.empty() )
            {
               bad = strf( "writing %llu bytes of an image returned %lld", (unsigned long long)st.len, (long long)n );
            }
            return r;
         }
      }
      return Res();
   }
   Res SWriting::retry()
   {
      const SStep &st = d_.steps[--pos_];
      switch ( st.type )
      {
         case SStep::NewScan:
         case SStep::OneShot:
            nextScan_--;
            break;
         case SStep::NewImage:
            nextImage_--;
            break;
         default:
            break;
      }
      return step();
   }
   Res SWriting::close()
   {
      bool ok = false;
      Res r = lib( [&] { ok = w_->Close(); } );
      if ( r && !ok && bad.empty() )
      {
         bad = "Close of an open writer returned false";
      }
      return r;
   }
   Res SWriting::destroy( unsigned order )
   {
      Res r = lib( [&] {
         if ( order )
         {
            w_.reset();
         }
         cw_.reset();
         w_.reset();
      } );
      bufs_.reset();
      return r;
   }

   // ------------------------------------------------------------------ reading
   namespace
   {
      struct Lim
      {
         double lo, hi;
      };
      // limits as they come back from a field of the given encoding
      Lim stored( NT t, double scale, Lim l )
      {
         switch ( t )
         {
            case NT::ScaledInteger:
               return { rawOf( l.lo, scale ) * scale, rawOf( l.hi, scale ) * scale };
            case NT::Integer:
               return { std::trunc( l.lo ), std::trunc( l.hi ) };
            case NT::Float:
               return { std::max( l.lo, -double( FLT_MAX ) ), std::min( l.hi, double( FLT_MAX ) ) };
            default:
               return l;
         }
      }
      bool same( NT t, double a, double b )
      {
         return t == NT::Float ? float( a ) == float( b ) : a == b;
      }
      // the limits the library has to derive
      template <class F> Lim autoLim( const SScan &s, F in )
      {
         Lim l{ DBL_MAX, -DBL_MAX };
         auto pf = s.h.pointFields;
         for ( int f = 0; f < NSF; f++ )
         {
            if ( in( f ) && sfieldFlag( pf, f ) )
            {
               for ( double x : s.v[size_t( f )] )
               {
                  l.lo = std::min( l.lo, x );
                  l.hi = std::max( l.hi, x );
               }
            }
         }
         return l;
      }

      // A value as it comes back into memory of type R.
      double expectValue( const SScan &s, int f, double v, bool wideRead )
      {
         auto &pf = s.h.pointFields;
         NT t = NT::Double;
         double sc = 0;
         bool coord = false;
         if ( isPoint( f ) )
         {
            t = pf.pointRangeNodeType;
            sc = pf.pointRangeScale;
            coord = true;
         }
         else if ( isAngle( f ) )
         {
            t = pf.angleNodeType;
            sc = pf.angleScale;
            coord = true;
         }
         else if ( f == Time )
         {
            t = pf.timeNodeType;
            sc = pf.timeScale;
         }
         else if ( f == Intens )
         {
            t = pf.intensityNodeType;
            sc = pf.intensityScale;
         }
         if ( s.ctor && coord && t != NT::ScaledInteger )
         {
            t = s.wide ? NT::Double : NT::Float;
         }
         double x = v;
         if ( t == NT::ScaledInteger )
         {
            x = rawOf( v, sc ) * sc;
         }
         else if ( t == NT::Float )
         {
            x = double( float( v ) );
         }
         return coord && !wideRead ? double( float( x ) ) : x;
      }
   }

   namespace
   {
      class Verify
      {
      public:
         Verify( SDoc &d, const SWriting *w, Choices *c, bool goOn ) : d_( d ), w_( w ), c_( c ), goOn_( goOn )
         {
         }
         std::string diff;
         Res err;
         void run( const std::string &path );

      private:
         bool stop() const
         {
            return !diff.empty() || ( !err && !goOn_ );
         }
         // a call that may throw; true if it returned
         template <class F> bool call( F f )
         {
            Res r = lib( f );
            if ( !r && err )
            {
               err = r;
            }
            return r.ok;
         }
         template <class A, class B> void eq( const A &got, const B &want, const char *what )
         {
            if ( diff.empty() && !memberwise( got, want ) )
            {
               diff = std::string( what ) + " differs";
            }
         }
         void eqD( double got, double want, const char *what )
         {
            if ( diff.empty() && !( got == want ) )
            {
               diff = std::string( what ) + strf( " differs :: read %.17g expected %.17g", got, want );
            }
         }
         void eqT( NT t, double got, double want, const char *what )
         {
            if ( diff.empty() && !same( t, got, want ) )
            {
               diff = std::string( what ) + strf( " differs :: read %.17g expected %.17g", got, want );
            }
         }
         void scanHeader( unsigned item, int64_t idx );
         template <class T> void points( SScan &s, int64_t idx );
         void groups( SScan &s, int64_t idx );
         void image( unsigned item, int64_t idx );
         uint64_t draw( uint64_t n, uint64_t plain )
         {
            return c_ ? c_->draw( n ) : plain;
         }
         SDoc &d_;
         const SWriting *w_;
         Choices *c_;
         bool goOn_;
         std::unique_ptr<Reader> r_;
      };

      void Verify::scanHeader( unsigned item, int64_t idx )
      {
         SScan &s = d_.scans[item];
         Data3D g;
         g.name = "left over";
         g.temperature = 7;
         bool ok = false;
         if ( !call( [&] { ok = r_->ReadData3D( idx, g ); } ) )
         {
            return;
         }
         auto &h = s.h;
         eq( ok, true, "result of ReadData3D" );
         eq( g.name, h.name, "scan name" );
         eq( g.description, h.description, "scan description" );
         eq( g.guid, h.guid.empty() && w_ ? w_->written[item].guid : h.guid, "scan guid" );
         eq( g.originalGuids, h.originalGuids, "originalGuids" );
         eq( g.sensorVendor, h.sensorVendor, "sensorVendor" );
         eq( g.sensorModel, h.sensorModel, "sensorModel" );
         eq( g.sensorSerialNumber, h.sensorSerialNumber, "sensorSerialNumber" );
         eq( g.sensorHardwareVersion, h.sensorHardwareVersion, "sensorHardwareVersion" );
         eq( g.sensorSoftwareVersion, h.sensorSoftwareVersion, "sensorSoftwareVersion" );
         eq( g.sensorFirmwareVersion, h.sensorFirmwareVersion, "sensorFirmwareVersion" );
         eqD( g.temperature, h.temperature, "temperature" );
         eqD( g.relativeHumidity, h.relativeHumidity, "relativeHumidity" );
         eqD( g.atmosphericPressure, h.atmosphericPressure, "atmosphericPressure" );
         eq( g.acquisitionStart, h.acquisitionStart, "acquisitionStart" );
         eq( g.acquisitionEnd, h.acquisitionEnd, "acquisitionEnd" );
         eq( g.pose, h.pose, "scan pose" );
         eq( g.indexBounds, h.indexBounds, "indexBounds" );
         eq( g.cartesianBounds, h.cartesianBounds, "cartesianBounds" );
         eq( g.sphericalBounds, h.sphericalBounds, "sphericalBounds" );
         eq( g.colorLimits, h.colorLimits, "colorLimits" );
         eq( uint64_t( g.pointCount ), s.n, "pointCount" );
         auto &pf = h.pointFields;
         auto &gf = g.pointFields;
         {
            auto a = pf;
            for ( int f = 0; f < NSF; f++ )
            {
               eq( sfieldFlag( gf, f ), sfieldFlag( a, f ), ( std::string( "presence of " ) + sfieldName( f ) ).c_str() );
            }
         }
         auto &gl = g.pointGroupingSchemes.groupingByLine;
         auto &hl = h.pointGroupingSchemes.groupingByLine;
         eq( gl.idElementName, hl.idElementName, "idElementName" );
         eq( gl.groupsSize, int64_t( s.gid.size() ), "groupsSize" );
         eq( gl.pointCountSize, hl.pointCountSize, "pointCountSize" );

         auto coordType = [&]( NT t ) { return s.ctor && !s.oneShot ? t : s.ctor && t != NT::ScaledInteger ? ( s.wide ? NT::Double : NT::Float ) : t; };
         if ( pf.cartesianXField || pf.sphericalRangeField )
         {
            NT t = coordType( pf.pointRangeNodeType );
            if ( s.ctor && t != NT::ScaledInteger )
            {
               t = s.wide ? NT::Double : NT::Float;
            }
            Lim l = s.autoRange ? autoLim( s, isPoint ) : Lim{ pf.pointRangeMinimum, pf.pointRangeMaximum };
            if ( !( s.autoRange && !s.n ) )
            {
               l = stored( t, pf.pointRangeScale, l );
               eq( gf.pointRangeNodeType, t, "pointRangeNodeType" );
               eqT( t, gf.pointRangeMinimum, l.lo, "pointRangeMinimum" );
               eqT( t, gf.pointRangeMaximum, l.hi, "pointRangeMaximum" );
               if ( t == NT::ScaledInteger )
               {
                  eqD( gf.pointRangeScale, pf.pointRangeScale, "pointRangeScale" );
               }
            }
         }
         if ( pf.sphericalAzimuthField )
         {
            NT t = pf.angleNodeType;
            if ( s.ctor && t != NT::ScaledInteger )
            {
               t = s.wide ? NT::Double : NT::Float;
            }
            Lim l = s.autoAngle ? autoLim( s, isAngle ) : Lim{ pf.angleMinimum, pf.angleMaximum };
            if ( !( s.autoAngle && !s.n ) )
            {
               l = stored( t, pf.angleScale, l );
               eq( gf.angleNodeType, t, "angleNodeType" );
               eqT( t, gf.angleMinimum, l.lo, "angleMinimum" );
               eqT( t, gf.angleMaximum, l.hi, "angleMaximum" );
               if ( t == NT::ScaledInteger )
               {
                  eqD( gf.angleScale, pf.angleScale, "angleScale" );
               }
            }
         }
         if ( pf.timeStampField && !( s.autoTime && !s.n ) )
         {
            NT t = pf.timeNodeType;
            Lim l = s.autoTime ? autoLim( s, []( int f ) { return f == Time; } ) : Lim{ pf.timeMinimum, pf.timeMaximum };
            l = stored( t, pf.timeScale, l );
            eq( gf.timeNodeType, t, "timeNodeType" );
            eqT( t, gf.timeMinimum, l.lo, "timeMinimum" );
            eqT( t, gf.timeMaximum, l.hi, "timeMaximum" );
            if ( t == NT::ScaledInteger )
            {
               eqD( gf.timeScale, pf.timeScale, "timeScale" );
            }
         }
         {
            NT t = pf.intensityNodeType;
            Lim l = stored( t, pf.intensityScale, { h.intensityLimits.intensityMinimum, h.intensityLimits.intensityMaximum } );
            eqT( t, g.intensityLimits.intensityMinimum, l.lo, "intensityMinimum" );
            eqT( t, g.intensityLimits.intensityMaximum, l.hi, "intensityMaximum" );
            if ( pf.intensityField )
            {
               eq( gf.intensityNodeType, t, "intensityNodeType" );
               if ( t == NT::ScaledInteger )
               {
                  eqD( gf.intensityScale, pf.intensityScale, "intensityScale" );
               }
            }
         }
         if ( pf.rowIndexField )
         {
            eq( gf.rowIndexMaximum, pf.rowIndexMaximum, "rowIndexMaximum" );
         }
         if ( pf.columnIndexField )
         {
            eq( gf.columnIndexMaximum, pf.columnIndexMaximum, "columnIndexMaximum" );
         }
         if ( pf.returnIndexField )
         {
            eq( gf.returnMaximum, pf.returnMaximum, "returnMaximum" );
         }
         // sizes
         int64_t row = -1, col = -1, np = -1, ng = -1, nc = -1;
         bool byCol = true;
         if ( !call( [&] { ok = r_->GetData3DSizes( idx, row, col, np, ng, nc, byCol ); } ) )
         {
            return;
         }
         eq( ok, true, "result of GetData3DSizes" );
         const bool grp = !hl.idElementName.empty();
         const bool wantCol = grp && hl.idElementName == "columnIndex";
         auto &ib = h.indexBounds;
         int64_t wr = ib.rowMinimum || ib.rowMaximum ? ib.rowMaximum - ib.rowMinimum + 1 : 0;
         int64_t wc = ib.columnMinimum || ib.columnMaximum ? ib.columnMaximum - ib.columnMinimum + 1 : 0;
         int64_t el = grp ? hl.groupsSize : 0, cn = grp ? hl.pointCountSize : 0;
         if ( !wr )
         {
            wr = wantCol ? cn : el;
         }
         if ( !wc )
         {
            wc = wantCol ? el : cn;
         }
         eq( row, wr, "row size" );
         eq( col, wc, "column size" );
         eq( np, int64_t( s.n ), "points size" );
         eq( ng, int64_t( s.gid.size() ), "groups size" );
         eq( nc, cn, "count size" );
         eq( byCol, wantCol, "grouping direction" );
      }

      template <class T> void Verify::points( SScan &s, int64_t idx )
      {
         const bool wide = sizeof( T ) == 8;
         auto use = useOf( s );
         if ( c_ && c_->chance( 1, 3 ) )
         {
            // a selection of the fields
            auto all = use;
            bool any = false;
            for ( int f = 0; f < NSF; f++ )
            {
               use[size_t( f )] = all[size_t( f )] && c_->chance( 1, 2 );
               any = any || use[size_t( f )];
            }
            if ( !any )
            {
               use = all;
            }
         }
         uint64_t cap = s.n + 2;
         if ( c_ )
         {
            switch ( c_->draw( 4 ) )
            {
               case 0:
                  cap = s.n ? s.n : 1;
                  break;
               case 1:
                  cap = s.n / 30 + 1 + c_->draw( 5 );
                  break;
               default:
                  cap = s.n / 30 + 1 + c_->draw( s.n + 10 );
            }
         }
         SPoints<T> b;
         b.bind( use, cap );
         std::unique_ptr<CompressedVectorReader> rd;
         if ( !call( [&] { rd.reset( new CompressedVectorReader( r_->SetUpData3DPointsData( idx, cap, b.p ) ) ); } ) )
         {
            return;
         }
         uint64_t got = 0;
         unsigned zero = 0;
         while ( diff.empty() )
         {
            unsigned k = 0;
            if ( !call( [&] { k = rd->read(); } ) )
            {
               break;
            }
            if ( !k )
            {
               if ( got != s.n )
               {
                  diff = strf( "points end early :: after %llu of %llu", (unsigned long long)got, (unsigned long long)s.n );
               }
               if ( zero++ )
               {
                  break;
               }
               continue;
            }
            if ( zero || k > cap || got + k > s.n )
            {
               diff = "more points than were written";
               break;
            }
            for ( int f = 0; f < NSF && diff.empty(); f++ )
            {
               if ( !use[size_t( f )] )
               {
                  continue;
               }
               for ( uint64_t i = 0; i < k; i++ )
               {
                  double w = expectValue( s, f, s.v[size_t( f )][got + i], wide ), x = spLoad( b.p, f, i );
                  if ( !( x == w ) )
                  {
                     diff = std::string( "values of " ) + sfieldName( f ) +
                            strf( " differ :: point %llu of %llu read %.17g expected %.17g", (unsigned long long)( got + i ), (unsigned long long)s.n, x, w );
                     break;
                  }
               }
            }
            got += k;
         }
         if ( !c_ || !c_->chance( 1, 4 ) )
         {
            call( [&] { rd->close(); } );
         }
         lib( [&] { rd.reset(); } );
      }

      void Verify::groups( SScan &s, int64_t idx )
      {
         bool ok = false;
         if ( s.gid.empty() )
         {
            int64_t x[1];
            if ( call( [&] { ok = r_->ReadData3DGroupsData( idx, 1, x, x, x ); } ) )
            {
               eq( ok, false, "result of ReadData3DGroupsData without groups" );
            }
            return;
         }
         size_t n = s.gid.size();
         size_t cap = c_ && c_->chance( 1, 3 ) ? 1 + c_->draw( n + 3 ) : n;
         std::unique_ptr<int64_t[]> a( new int64_t[cap] ), b( new int64_t[cap] ), p( new int64_t[cap] );
         if ( !call( [&] { ok = r_->ReadData3DGroupsData( idx, cap, a.get(), b.get(), p.get() ); } ) )
         {
            return;
         }
         eq( ok, true, "result of ReadData3DGroupsData" );
         for ( size_t i = 0; i < std::min( n, cap ); i++ )
         {
            eq( a[i], s.gid[i], "idElementValue of a group" );
            eq( b[i], s.gstart[i], "startPointIndex of a group" );
            eq( p[i], s.gcount[i], "pointCount of a group" );
         }
      }

      void Verify::image( unsigned item, int64_t idx )
      {
         SImage &im = d_.images[item];
         auto &h = im.h;
         Image2D g;
         g.name = "left over";
         bool ok = false;
         if ( call( [&] { ok = r_->ReadImage2D( idx, g ); } ) )
         {
            eq( ok, true, "result of ReadImage2D" );
            eq( g.name, h.name, "image name" );
            eq( g.guid, h.guid.empty() && w_ ? w_->imageGuids[item] : h.guid, "image guid" );
            eq( g.description, h.description, "image description" );
            eq( g.associatedData3DGuid, h.associatedData3DGuid, "associatedData3DGuid" );
            eq( g.sensorVendor, h.sensorVendor, "image sensorVendor" );
            eq( g.sensorModel, h.sensorModel, "image sensorModel" );
            eq( g.sensorSerialNumber, h.sensorSerialNumber, "image sensorSerialNumber" );
            eq( g.acquisitionDateTime, h.acquisitionDateTime, "acquisitionDateTime" );
            eq( g.pose, h.pose, "image pose" );
            eq( g.visualReferenceRepresentation, h.visualReferenceRepresentation, "visualReferenceRepresentation" );
            eq( g.pinholeRepresentation, h.pinholeRepresentation, "pinholeRepresentation" );
            eq( g.sphericalRepresentation, h.sphericalRepresentation, "sphericalRepresentation" );
            eq( g.cylindricalRepresentation, h.cylindricalRepresentation, "cylindricalRepresentation" );
            eq( bool( g.pinholeCameraDistortionExt ), bool( h.pinholeCameraDistortionExt ), "presence of camera distortion" );
            if ( diff.empty() && g.pinholeCameraDistortionExt )
            {
               auto &a = *g.pinholeCameraDistortionExt;
               auto &b = *h.pinholeCameraDistortionExt;
               eq( a.cameraNumber, b.cameraNumber, "cameraNumber" );
               eq( a.type, b.type, "distortion type" );
               eqD( a.CV_K1, b.CV_K1, "CV_K1" );
               eqD( a.CV_K2, b.CV_K2, "CV_K2" );
               eqD( a.CV_K3, b.CV_K3, "CV_K3" );
               eqD( a.CV_K4, b.CV_K4, "CV_K4" );
               eqD( a.CV_K5, b.CV_K5, "CV_K5" );
               eqD( a.CV_K6, b.CV_K6, "CV_K6" );
               eqD( a.CV_P1, b.CV_P1, "CV_P1" );
               eqD( a.CV_P2, b.CV_P2, "CV_P2" );
               eqD( a.CV_CX, b.CV_CX, "CV_CX" );
               eqD( a.CV_CY, b.CV_CY, "CV_CY" );
               eqD( a.CV_FX, b.CV_FX, "CV_FX" );
               eqD( a.CV_FY, b.CV_FY, "CV_FY" );
               eq( a.CV_HEIGHT, b.CV_HEIGHT, "CV_HEIGHT" );
               eq( a.CV_WIDTH, b.CV_WIDTH, "CV_WIDTH" );
            }
         }
         if ( stop() )
         {
            return;
         }
         Image2DProjection pr = ProjectionNone;
         Image2DType ty = ImageNone, mt = ImageNone, vt = ImageNone;
         int64_t wi = -1, he = -1, sz = -1;
         if ( call( [&] { ok = r_->GetImage2DSizes( idx, pr, ty, wi, he, sz, mt, vt ); } ) )
         {
            eq( ok, !im.reps.empty(), "result of GetImage2DSizes" );
            if ( !im.reps.empty() )
            {
               auto &r = im.reps[0]; // in the order the reader prefers
               int32_t w = 0, hh = 0;
               switch ( r.proj )
               {
                  case 1:
                     w = h.visualReferenceRepresentation.imageWidth;
                     hh = h.visualReferenceRepresentation.imageHeight;
                     break;
                  case 2:
                     w = h.pinholeRepresentation.imageWidth;
                     hh = h.pinholeRepresentation.imageHeight;
                     break;
                  case 3:
                     w = h.sphericalRepresentation.imageWidth;
                     hh = h.sphericalRepresentation.imageHeight;
                     break;
                  default:
                     w = h.cylindricalRepresentation.imageWidth;
                     hh = h.cylindricalRepresentation.imageHeight;
               }
               if ( im.reps.size() == 1 )
               {
                  eq( int( pr ), r.proj, "image projection" );
                  eq( int( ty ), int( r.png ? ImagePNG : ImageJPEG ), "image type" );
                  eq( wi, int64_t( w ), "image width" );
                  eq( he, int64_t( hh ), "image height" );
                  eq( sz, int64_t( r.main.size() ), "image size" );
                  eq( int( mt ), int( r.mask.empty() ? ImageNone : ImageMaskPNG ), "image mask type" );
               }
               eq( int( vt ), int( r.proj != 1 ? ImageNone : r.png ? ImagePNG : ImageJPEG ), "visual image type" );
            }
         }
         for ( auto &r : im.reps )
         {
            for ( int m = 0; m < 2 && !stop(); m++ )
            {
               auto &b = m ? r.mask : r.main;
               for ( unsigned k = 0; k < 3 && !stop(); k++ )
               {
                  if ( k && !c_ )
                  {
                     break;
                  }
                  uint64_t st = k ? draw( b.size() + 1, 0 ) : 0, n = k ? draw( b.size() - st + 1, b.size() ) : b.size();
                  std::unique_ptr<uint8_t[]> buf( new uint8_t[n + ( n == 0 )] );
                  int64_t t = -1;
                  bool there = !b.empty();
                  if ( there && !n )
                  {
                     continue;
                  }
                  Image2DType type = m ? ImageMaskPNG : r.png ? ImagePNG : ImageJPEG;
                  if ( !call( [&] {
                          t = r_->ReadImage2DData( idx, Image2DProjection( r.proj ), type, buf.get(), int64_t( st ), int64_t( n ) );
                       } ) )
                  {
                     continue;
                  }
                  eq( t, int64_t( n ), "number of image bytes read" );
                  if ( diff.empty() && n && memcmp( buf.get(), b.data() + st, n ) )
                  {
                     diff = m ? "image mask bytes differ" : "image bytes differ";
                  }
               }
            }
            if ( !stop() )
            {
               uint8_t x[1] = { 0 };
               int64_t t = -1;
               if ( call( [&] { t = r_->ReadImage2DData( idx, Image2DProjection( r.proj ), r.png ? ImageJPEG : ImagePNG, x, 0, 1 ); } ) )
               {
                  eq( t, int64_t( 0 ), "bytes of an image that is not there" );
               }
            }
         }
      }

      void Verify::run( const std::string &path )
      {
         ReaderOptions ro;
         if ( c_ && c_->chance( 1, 3 ) )
         {
            ro.checksumPolicy = ReadChecksumPolicy( c_->draw( 101 ) );
         }
         if ( goOn_ )
         {
            ro.checksumPolicy = ChecksumAll;
         }
         if ( !call( [&] { r_.reset( new Reader( path, ro ) ); } ) )
         {
            return;
         }
         auto body = [&] {
            E57Root root;
            root.formatName = root.guid = root.coordinateMetadata = "left over"; // to be replaced whatever the file has
            root.creationDateTime.dateTimeValue = 1;
            root.data3DSize = root.images2DSize = 77;
            bool ok = false;
            if ( call( [&] { ok = r_->GetE57Root( root ); } ) )
            {
               eq( ok, true, "result of GetE57Root" );
               eq( root.formatName, std::string( "ASTM E57 3D Imaging Data File" ), "formatName" );
               if ( !d_.opt.guid.empty() )
               {
                  eq( root.guid, d_.opt.guid, "file guid" );
               }
               eq( root.guid.empty(), false, "emptiness of the file guid" );
               eq( root.versionMajor, 1u, "versionMajor" );
               eq( root.versionMinor, 0u, "versionMinor" );
               eq( root.coordinateMetadata, d_.opt.coordinateMetadata, "coordinateMetadata" );
               eq( root.data3DSize, int64_t( d_.scans.size() ), "data3DSize" );
               eq( root.images2DSize, int64_t( d_.images.size() ), "images2DSize" );
            }
            int64_t n3 = -1, n2 = -1;
            if ( call( [&] {
                    n3 = r_->GetData3DCount();
                    n2 = r_->GetImage2DCount();
                 } ) )
            {
               eq( n3, int64_t( d_.scans.size() ), "GetData3DCount" );
               eq( n2, int64_t( d_.images.size() ), "GetImage2DCount" );
            }
            if ( stop() )
            {
               return;
            }
            // items in any order
            std::vector<std::pair<int, unsigned>> todo;
            for ( unsigned i = 0; i < d_.scanOrder.size(); i++ )
            {
               todo.push_back( { 0, i } );
               todo.push_back( { 1, i } );
               todo.push_back( { 2, i } );
            }
            for ( unsigned i = 0; i < d_.imageOrder.size(); i++ )
            {
               todo.push_back( { 3, i } );
            }
            while ( !todo.empty() && !stop() )
            {
               size_t k = draw( todo.size(), 0 );
               auto t = todo[k];
               todo.erase( todo.begin() + long( k ) );
               const int64_t idx = int64_t( t.second );
               switch ( t.first )
               {
                  case 0:
                     scanHeader( d_.scanOrder[t.second], idx );
                     break;
                  case 1:
                  {
                     SScan &s = d_.scans[d_.scanOrder[t.second]];
                     bool wide = c_ ? c_->chance( 1, 2 ) : s.wide;
                     if ( wide )
                     {
                        points<double>( s, idx );
                     }
                     else
                     {
                        points<float>( s, idx );
                     }
                     break;
                  }
                  case 2:
                     groups( d_.scans[d_.scanOrder[t.second]], idx );
                     break;
                  default:
                     image( d_.imageOrder[t.second], idx );
               }
            }
         };
         body();
         if ( !c_ || c_->chance( 3, 4 ) )
         {
            bool ok = false;
            if ( call( [&] { ok = r_->Close(); } ) )
            {
               eq( ok, true, "result of Close" );
            }
         }
         lib( [&] { r_.reset(); } );
      }
   }
   std::string verifySimple( const std::string &path, SDoc &d, const SWriting *w, Choices *c, bool goOn, Res &err )
   {
      Verify v( d, w, c, goOn );
      v.run( path );
      err = v.err;
      return v.diff;
   }
}
