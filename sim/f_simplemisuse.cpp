// C27: calls of the high-level interface that cannot be carried out fail and leave no trace in the file.
#include "simple.h"

using namespace e57;

namespace sim
{
   namespace
   {
      const char *const kPath = "/sim/a.e57";

      // How a call ended: refused by an exception, by its return value, or carried out.
      struct Refused
      {
         std::string what;
         bool accepted = false;
         bool foreign = false;
         bool space = false; // the file may have grown
      };

      std::string badText( Choices &c )
      {
         static const char *const k[] = { "\x01", "a\x0b", "\x1f!", "x\xef\xbf\xbe", "\xc3", "tail\x0c" };
         return k[c.draw( 6 )];
      }

      ustring *textOf( Choices &c, Data3D &h )
      {
         switch ( c.draw( 9 ) )
         {
            case 0:
               return &h.guid;
            case 1:
               return &h.name;
            case 2:
               return &h.description;
            case 3:
               return &h.sensorVendor;
            case 4:
               return &h.sensorModel;
            case 5:
               return &h.sensorSerialNumber;
            case 6:
               return &h.sensorHardwareVersion;
            case 7:
               return &h.sensorFirmwareVersion;
            default:
               h.originalGuids.emplace_back( "{g}" );
               return &h.originalGuids.back();
         }
      }

      // A header that cannot be stored.
      std::string spoil( Choices &c, Data3D &h )
      {
         if ( h.guid.empty() )
         {
            h.guid = "{refused}";
         }
         auto &f = h.pointFields;
         switch ( c.draw( 7 ) )
         {
            case 0:
               f.cartesianXField = true;
               f.pointRangeNodeType = NumericalNodeType::Integer;
               return "integer coordinates";
            case 1:
               f.sphericalRangeField = true;
               f.pointRangeNodeType = NumericalNodeType::ScaledInteger;
               f.pointRangeScale = 0;
               return "coordinates of scale 0";
            case 2:
               f.sphericalAzimuthField = true;
               f.angleNodeType = NumericalNodeType::Integer;
               return "integer angles";
            case 3:
               f.sphericalElevationField = true;
               f.angleNodeType = NumericalNodeType::ScaledInteger;
               f.angleScale = 0;
               return "angles of scale 0";
            case 4:
               f.cartesianZField = true;
               f.pointRangeNodeType = NumericalNodeType::Double;
               f.pointRangeMinimum = 5;
               f.pointRangeMaximum = -5;
               return "coordinate limits reversed";
            default:
               *textOf( c, h ) = badText( c );
               return "text that cannot be stored";
         }
      }
      std::string spoil( Choices &c, Image2D &h, bool late )
      {
         if ( h.guid.empty() )
         {
            h.guid = "{refused}";
         }
         if ( late )
         {
            // met only after the space of the image has been taken
            h.pinholeRepresentation.jpegImageSize = int64_t( 1 + c.draw( 3000 ) );
            h.pinholeRepresentation.imageHeight = 1;
            h.pinholeRepresentation.imageWidth = 1;
            h.pinholeRepresentation.focalLength = 1;
            h.pinholeRepresentation.pixelHeight = 1;
            h.pinholeRepresentation.pixelWidth = 1;
            h.pinholeCameraDistortionExt.reset( new Extension::PinholeCameraDistortion );
            h.pinholeCameraDistortionExt->type = badText( c );
            return "camera type that cannot be stored";
         }
         const std::string t = badText( c );
         switch ( c.draw( 7 ) )
         {
            case 0:
               h.guid = t;
               break;
            case 1:
               h.name = t;
               break;
            case 2:
               h.description = t;
               break;
            case 3:
               h.sensorVendor = t;
               break;
            case 4:
               h.sensorModel = t;
               break;
            case 5:
               h.sensorSerialNumber = t;
               break;
            default:
               h.associatedData3DGuid = t;
         }
         return "text that cannot be stored";
      }

      int64_t wildIndex( Choices &c, int64_t count )
      {
         switch ( c.draw( 5 ) )
         {
            case 0:
               return -1;
            case 1:
               return INT64_MIN;
            case 2:
               return INT64_MAX;
            case 3:
               return count + int64_t( c.draw( 5 ) );
            default:
               return int64_t( 1 ) << 32;
         }
      }

      const Image2DType kTypes[] = { ImageNone, ImageJPEG, ImagePNG, ImageMaskPNG };

      // One call that must be refused; an empty text when none of the drawn kind exists now. closed: the writer has been closed, and
      // everything must be refused.
      Refused refusedCall( Choices &c, SDoc &d, SWriting &w, bool closed )
      {
         Refused x;
         Writer &wr = *w.writer();
         std::vector<unsigned> scans, images;
         for ( unsigned i = 0; i < d.scans.size(); i++ )
         {
            if ( w.scanIndex( i ) >= 0 )
            {
               scans.push_back( i );
            }
         }
         for ( unsigned i = 0; i < d.images.size(); i++ )
         {
            if ( w.imageIndex( i ) >= 0 )
            {
               images.push_back( i );
            }
         }
         Res r;
         bool said = true;
         uint8_t bytes[40] = {};
         switch ( c.draw( 10 ) )
         {
            case 0:
            case 1:
            {
               Data3D h;
               if ( !d.scans.empty() )
               {
                  h = d.scans[c.draw( d.scans.size() )].h;
               }
               std::string how = closed && c.chance( 1, 2 ) ? "a good header" : spoil( c, h );
               if ( c.chance( 1, 3 ) )
               {
                  h.pointCount = 0;
                  x.what = "WriteData3DData with " + how;
                  Data3DPointsDouble p;
                  r = lib( [&] { wr.WriteData3DData( h, p ); } );
               }
               else
               {
                  x.what = "NewData3D with " + how;
                  r = lib( [&] { wr.NewData3D( h ); } );
               }
               PROBE( "refused scan" );
               break;
            }
            case 2:
            case 3:
            {
               Image2D h;
               if ( !d.images.empty() )
               {
                  const Image2D &like = d.images[c.draw( d.images.size() )].h;
                  h.name = like.name;
                  h.pose = like.pose;
                  h.sphericalRepresentation = like.sphericalRepresentation;
                  h.visualReferenceRepresentation = like.visualReferenceRepresentation;
               }
               const bool late = !w.pointsOpen() && c.chance( 1, 2 );
               std::string how = closed && c.chance( 1, 2 ) ? "a good header" : spoil( c, h, late );
               x.space = true;
               if ( c.chance( 1, 3 ) )
               {
                  x.what = "WriteImage2DData with " + how;
                  r = lib( [&] { wr.WriteImage2DData( h, ImageJPEG, ProjectionPinhole, 0, bytes, 1 ); } );
               }
               else
               {
                  x.what = "NewImage2D with " + how;
                  r = lib( [&] { wr.NewImage2D( h ); } );
               }
               PROBE( "refused image" );
               break;
            }
            case 4:
            {
               const int64_t idx = wildIndex( c, int64_t( images.size() ) );
               const Image2DType t = kTypes[c.draw( 4 )];
               const auto p = Image2DProjection( c.draw( 5 ) );
               x.what = strf( "WriteImage2DData to image %lld of %zu", (long long)idx, images.size() );
               r = lib( [&] { said = wr.WriteImage2DData( idx, t, p, bytes, 0, 1 ) != 0; } );
               break;
            }
            case 5:
            case 6:
            {
               if ( images.empty() )
               {
                  return x;
               }
               const unsigned i = images[c.draw( images.size() )];
               const int64_t idx = w.imageIndex( i );
               const SImage &im = d.images[i];
               Image2DType t = kTypes[c.draw( 4 )];
               auto p = Image2DProjection( c.draw( 5 ) );
               uint64_t len = 0;
               for ( const SRep &rp : im.reps )
               {
                  if ( rp.proj == int( p ) )
                  {
                     len = t == ImageNone ? 0 : t == ImageMaskPNG ? rp.mask.size() : rp.png == ( t == ImagePNG ) ? rp.main.size() : 0;
                  }
               }
               int64_t start = 0, count = 1;
               if ( len )
               {
                  switch ( c.draw( 4 ) )
                  {
                     case 0:
                        start = int64_t( len );
                        break;
                     case 1:
                        start = int64_t( len ) - int64_t( c.draw( std::min<uint64_t>( len, 20 ) ) );
                        count = int64_t( len ) - start + 1 + int64_t( c.draw( 10 ) );
                        break;
                     case 2:
                        start = -1 - int64_t( c.draw( 3 ) );
                        break;
                     default:
                        start = INT64_MAX - int64_t( c.draw( 2 ) );
                        count = 2;
                  }
               }
               x.what = strf( "WriteImage2DData to image %lld type %d projection %d [%lld,+%lld) of %llu bytes", (long long)idx, int( t ), int( p ),
                              (long long)start, (long long)count, (unsigned long long)len );
               r = lib( [&] { said = wr.WriteImage2DData( idx, t, p, bytes, start, count ) != 0; } );
               PROBE( "refused image data" );
               break;
            }
            case 7:
            {
               int64_t idx = wildIndex( c, int64_t( scans.size() ) );
               std::string how = "no such scan";
               if ( !scans.empty() && c.chance( 1, 2 ) )
               {
                  const unsigned i = scans[c.draw( scans.size() )];
                  if ( !d.scans[i].h.pointGroupingSchemes.groupingByLine.idElementName.empty() || d.scans[i].groupsWhen )
                  {
                     if ( !w.pointsOpen() && !closed )
                     {
                        return x;
                     }
                     how = "a record writer is open";
                  }
                  else
                  {
                     how = "no groups";
                  }
                  idx = w.scanIndex( i );
               }
               int64_t a[1] = { 0 }, b[1] = { 0 }, n[1] = { 0 };
               x.what = strf( "WriteData3DGroupsData to scan %lld of %zu: ", (long long)idx, scans.size() ) + how;
               r = lib( [&] { said = wr.WriteData3DGroupsData( idx, 1, a, b, n ); } );
               PROBE( "refused groups" );
               break;
            }
            default:
            {
               int64_t idx = wildIndex( c, int64_t( scans.size() ) );
               std::string how = "no such scan";
               if ( !scans.empty() && c.chance( 2, 3 ) )
               {
                  idx = w.scanIndex( scans[c.draw( scans.size() )] );
                  how = "no buffers";
               }
               x.what = strf( "SetUpData3DPointsData for scan %lld of %zu: ", (long long)idx, scans.size() ) + how;
               if ( c.chance( 1, 2 ) )
               {
                  Data3DPointsFloat p;
                  r = lib( [&] { wr.SetUpData3DPointsData( idx, 5, p ); } );
               }
               else
               {
                  Data3DPointsDouble p;
                  r = lib( [&] { wr.SetUpData3DPointsData( idx, 5, p ); } );
               }
               PROBE( "refused points" );
            }
         }
         if ( closed )
         {
            x.what += " after Close";
         }
         x.accepted = r.ok && said;
         x.foreign = !r.ok && !r.err;
         trace( "%s: %s", x.what.c_str(), r.ok ? said ? "accepted" : "refused by its result" : resStr( r ).c_str() );
         return x;
      }

      void judge( const Refused &x )
      {
         if ( x.accepted )
         {
            fail( "a call that cannot be carried out claims success :: " + x.what );
         }
         if ( x.foreign )
         {
            fail( "a call that cannot be carried out fails with something else than a library exception :: " + x.what );
         }
      }

      // Calls of a reader that was closed.
      void closedReader( Choices &c )
      {
         std::unique_ptr<Reader> rd;
         bool done = false;
         Res r = lib( [&] {
            rd.reset( new Reader( kPath, {} ) );
            done = rd->Close();
         } );
         if ( !r || !done )
         {
            fail( "a good file cannot be opened and closed: " + resStr( r ) );
         }
         for ( unsigned k = 0; k < 6; k++ )
         {
            bool said = false;
            std::string what;
            switch ( c.draw( 10 ) )
            {
               case 0:
               {
                  E57Root root;
                  what = "GetE57Root";
                  r = lib( [&] { said = rd->GetE57Root( root ); } );
                  break;
               }
               case 1:
               {
                  Image2D h;
                  what = "ReadImage2D";
                  r = lib( [&] { said = rd->ReadImage2D( 0, h ); } );
                  break;
               }
               case 2:
               {
                  Data3D h;
                  what = "ReadData3D";
                  r = lib( [&] { said = rd->ReadData3D( 0, h ); } );
                  break;
               }
               case 3:
               {
                  Image2DProjection p;
                  Image2DType t, mt, vt;
                  int64_t w, h, s;
                  what = "GetImage2DSizes";
                  r = lib( [&] { said = rd->GetImage2DSizes( 0, p, t, w, h, s, mt, vt ); } );
                  break;
               }
               case 4:
               {
                  uint8_t b[4];
                  what = "ReadImage2DData";
                  r = lib( [&] { said = rd->ReadImage2DData( 0, ProjectionPinhole, ImageJPEG, b, 0, 4 ) != 0; } );
                  break;
               }
               case 5:
               {
                  int64_t a, b, n, g, q;
                  bool ci;
                  what = "GetData3DSizes";
                  r = lib( [&] { said = rd->GetData3DSizes( 0, a, b, n, g, q, ci ); } );
                  break;
               }
               case 6:
               {
                  int64_t a[2], b[2], n[2];
                  what = "ReadData3DGroupsData";
                  r = lib( [&] { said = rd->ReadData3DGroupsData( 0, 2, a, b, n ); } );
                  break;
               }
               case 7:
               {
                  Data3DPointsDouble p;
                  double v[3];
                  p.cartesianX = v;
                  what = "SetUpData3DPointsData";
                  r = lib( [&] {
                     rd->SetUpData3DPointsData( 0, 3, p );
                     said = true;
                  } );
                  break;
               }
               case 8:
                  what = "IsOpen";
                  r = lib( [&] { said = rd->IsOpen(); } );
                  break;
               default:
                  what = "Close";
                  r = lib( [&] { said = rd->Close(); } );
            }
            trace( "closed reader: %s %s", what.c_str(), r.ok ? said ? "accepted" : "refused" : resStr( r ).c_str() );
            if ( r.ok && said )
            {
               fail( "a closed reader claims success :: " + what );
            }
            if ( !r.ok && !r.err )
            {
               fail( "a closed reader fails with something else than a library exception :: " + what );
            }
         }
         lib( [&] { rd.reset(); } );
         PROBE( "calls of a closed reader" );
      }
   }

   static void runSimpleMisuse( Choices &c, unsigned profile )
   {
      SOpts o;
      o.fixedGuids = true;
      o.maxPoints = profile < 4 ? 20 : 300;
      o.maxScans = 1 + c.draw( 3 );
      o.maxImages = c.draw( 3 );
      o.maxImage = profile < 4 ? 100 : 3000;
      auto d = genSimple( c, o );
      Res err;
      {
         SWriting w( *d, kPath );
         err = w.open();
         while ( err && w.more() )
         {
            err = w.step();
         }
         if ( err )
         {
            err = w.close();
         }
         if ( !err || !w.bad.empty() )
         {
            throw Unsuitable{}; // C17's business
         }
         w.destroy();
         if ( !verifySimple( kPath, *d, nullptr, nullptr, false, err ).empty() || !err )
         {
            throw Unsuitable{};
         }
      }
      const std::vector<uint8_t> clean = g_disk->bytes( kPath );
      g_disk->files.clear();
      SWriting w( *d, kPath );
      bool grown = false;
      unsigned made = 0;
      const unsigned den = 1 + c.draw( 4 );
      Res r = w.open();
      while ( r )
      {
         while ( c.chance( 1, 1 + den ) && made < 40 )
         {
            Refused x = refusedCall( c, *d, w, false );
            if ( !x.what.empty() )
            {
               made++;
               grown = grown || x.space;
               judge( x );
            }
         }
         if ( !w.more() )
         {
            break;
         }
         const SStep &st = w.next();
         const bool whole = st.type == SStep::NewScan || st.type == SStep::OpenPoints || ( st.type == SStep::NewImage && !d->images[st.item].oneShot );
         if ( !whole || !c.chance( 1, 1 + den ) )
         {
            r = w.step();
            continue;
         }
         // A call that fails for want of memory can be made again.
         g_alloc.failAt = c.chance( 1, 2 ) ? c.skewed( 3000 ) : c.draw( 1500 );
         g_alloc.count = 0;
         g_alloc.fired = 0;
         g_alloc.armed = true;
         r = w.step();
         g_alloc.armed = false;
         g_alloc.failAt = ~0ULL;
         if ( !r )
         {
            trace( "step %zu fails for want of memory: %s; made again", w.pos() - 1, resStr( r ).c_str() );
            PROBE( "fault:allocation failed" );
            PROBE( "made again after a failing allocation" );
            if ( r.foreign && !r.badAlloc )
            {
               fail( "a call that runs out of memory fails with a foreign exception: " + resStr( r ) );
            }
            made++;
            grown = true;
            r = w.retry();
         }
      }
      if ( r )
      {
         r = w.close();
      }
      if ( !r || !w.bad.empty() )
      {
         fail( "a session fails because of calls that were refused: " + ( r ? w.bad : resStr( r ) ) + strf( " :: step %zu %s", w.pos(), r.what.c_str() ) );
      }
      const std::vector<uint8_t> got = g_disk->bytes( kPath );
      for ( unsigned k = c.draw( 6 ); k; k-- )
      {
         Refused x = refusedCall( c, *d, w, true );
         if ( !x.what.empty() )
         {
            made++;
            judge( x );
            PROBE( "refused after Close" );
         }
      }
      w.destroy( c.draw( 2 ) );
      if ( !g_disk->exists( kPath ) || g_disk->bytes( kPath ) != got )
      {
         fail( "calls after Close change the file" );
      }
      if ( g_disk->openFds() )
      {
         fail( "a descriptor stayed open" );
      }
      if ( made )
      {
         nontrivial();
      }
      g_sh->sessions += 3;
      if ( !grown && got != clean )
      {
         std::string m = verifySimple( kPath, *d, nullptr, nullptr, false, err );
         fail( "refused calls leave a trace in the file :: " + ( m.empty() ? std::string( "same content as far as known" ) : m ) );
      }
      std::string m = verifySimple( kPath, *d, nullptr, nullptr, false, err );
      if ( !m.empty() || !err )
      {
         fail( "refused calls leave a trace in the file :: " + ( m.empty() ? resStr( err ) : m ) );
      }
      m = validateFile( got, nullptr );
      if ( !m.empty() )
      {
         fail( "refused calls leave an invalid file: " + m );
      }
      closedReader( c );
   }
   static FamilyReg r27( { "simplemisuse", runSimpleMisuse, 8 } );
}
