// C01: whatever is written and closed successfully is read back exactly.
#include "fam.h"

namespace sim
{
   GenOpts drawOpts( Choices &c, unsigned profile )
   {
      GenOpts o;
      switch ( profile % 11 )
      {
         case 0: // small, everything
            break;
         case 1: // many records
            o.maxRecords = 6000;
            o.maxNodes = 8;
            o.forceCV = 1;
            o.minRecords = 500;
            break;
         case 2: // large tree
            o.maxNodes = 80;
            o.maxStr = 3000;
            break;
         case 3: // strings in records
            o.strings = 1;
            o.forceCV = 1;
            o.maxNodes = 6;
            break;
         case 4: // blobs
            o.forceBlob = 3;
            o.maxBlob = 5;
            o.maxBlobSize = 9000;
            o.maxCV = 1;
            break;
         case 5: // narrow integers, tiny batches
            o.wideInts = 2;
            o.forceCV = 1;
            o.smallBatches = true;
            o.maxRecords = 1500;
            break;
         case 6: // wide integers
            o.wideInts = 1;
            o.forceCV = 1;
            o.maxRecords = 2000;
            break;
         case 7: // records strings beyond a packet
            o.strings = 1;
            o.forceCV = 1;
            o.maxCV = 1;
            o.bigStrings = c.chance( 1, 2 );
            o.maxRecords = 120;
            break;
         case 8: // very many records
            o.forceCV = 1;
            o.maxCV = 1;
            o.maxFields = 2;
            o.maxNodes = 4;
            o.strings = -1;
            o.maxRecords = 150000;
            o.minRecords = c.chance( 1, 2 ) ? 60000 : 0;
            o.readBacks = false;
            break;
         case 9: // many fields
            o.forceCV = 1;
            o.maxCV = 1;
            o.maxNodes = 4;
            o.maxFields = 300;
            o.maxRecords = 60;
            break;
         case 10: // large blobs and texts
            o.forceBlob = 1;
            o.maxBlobSize = 400000;
            o.maxCV = 1;
            o.maxNodes = 8;
            o.maxStr = 150000;
            break;
      }
      return o;
   }

   static void runRoundTrip( Choices &c, unsigned profile )
   {
      GenOpts o = drawOpts( c, profile );
      auto d = genDoc( c, o );
      trace( "document: %s", docSummary( *d ).c_str() );
      {
         WriteSession w( *d, "/sim/a.e57" );
         Res r = w.runAll();
         if ( !r )
         {
            fail( "fault-free writing failed: " + resStr( r ) + " :: at " + w.where() );
         }
         if ( !w.readMismatch.empty() )
         {
            fail( "read-back during the write session: " + w.readMismatch );
         }
         w.destroy();
      }
      g_sh->sessions++;
      unsigned reads = 1 + c.draw( 2 );
      for ( unsigned k = 0; k < reads; k++ )
      {
         Res err;
         static const int pol[] = { 100, 0, 25, 50, 37 };
         std::string m = openAndVerify( "/sim/a.e57", *d, &c, err, pol[c.draw( 5 )] );
         if ( !err )
         {
            fail( "fault-free reading failed: " + resStr( err ) + " :: " + m );
         }
         if ( !m.empty() )
         {
            fail( "read back differs: " + m );
         }
         g_sh->sessions++;
      }
      if ( d->totalRecords || !d->blobs.empty() )
      {
         nontrivial();
      }
   }
   static FamilyReg r1( { "roundtrip", runRoundTrip, 11 } );
}
