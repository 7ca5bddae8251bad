// C09: records read exactly whatever the legal layout and the way of reading.
#include "fam.h"

namespace sim
{
   namespace
   {
      struct Source
      {
         std::shared_ptr<Doc> doc;
         std::map<const DNode *, std::string> paths;
         std::vector<uint8_t> bytes;
         std::string path;
         bool far = false; // with a long run of blank pages that are not part of bytes
      };
      struct Handle
      {
         Source *src = nullptr;
         bool mem = false;
         std::unique_ptr<e57::ImageFile> imf;
         std::unique_ptr<StepReader> rd;
         unsigned zeros = 0;
      };
   }

   static void runLayout( Choices &c, unsigned profile )
   {
      std::vector<std::unique_ptr<Source>> srcs;
      unsigned ns = 1 + c.draw( 2 );
      for ( unsigned i = 0; i < ns; i++ )
      {
         std::unique_ptr<Source> s( new Source );
         GenOpts o = profile < 4 ? smallOpts( c ) : drawOpts( c, c.draw( 8 ) );
         o.forceCV = int( 1 + c.draw( 3 ) );
         o.maxCV = 3;
         o.minRecords = c.chance( 3, 4 ) ? 20 : 0;
         if ( profile < 4 )
         {
            o.maxRecords = 60 + c.draw( 500 );
         }
         s->doc = genDoc( c, o );
         s->paths = docPaths( *s->doc );
         s->path = strf( "/sim/l%u.e57", i );
         if ( c.chance( 1, 8 ) )
         {
            writeClean( *s->doc, s->path );
            s->bytes = g_disk->bytes( s->path );
            PROBE( "layout: library writer" );
         }
         else
         {
            LayoutOpts lo;
            static const uint32_t mp[] = { 65536, 65536, 2048, 300, 20000 };
            lo.maxPacket = mp[c.draw( 5 )];
            for ( auto n : s->doc->cvs )
            {
               lo.maxPacket = std::max<uint32_t>( lo.maxPacket, uint32_t( 6 + 2 * n->leaves.size() + 40 ) );
            }
            const uint64_t seed = c.sub();
            Choices enc = Choices::quiet( seed );
            s->bytes = encodeDoc( *s->doc, enc, lo );
            std::string v = validateFile( s->bytes, s->doc.get() );
            if ( !v.empty() )
            {
               throw HarnessError{ "the encoder produced a file its validator refuses: " + v };
            }
            PROBE( "layout: independent encoder" );
            if ( c.chance( 1, 8 ) )
            {
               // the same, with sections around or beyond a power of two
               static const unsigned bits[] = { 31, 32, 33, 40, 42, 52 };
               s->far = true;
               lo.hole = ( 1ULL << bits[c.draw( 6 )] ) - 1024 * ( c.chance( 1, 2 ) ? c.draw( 6 ) : c.draw( uint32_t( s->bytes.size() / 1024 + 1 ) ) );
               lo.holeBefore = c.draw( 8 );
               enc = Choices::quiet( seed );
               uint64_t at = 0;
               s->bytes = encodeDoc( *s->doc, enc, lo, &at );
               g_disk->put( s->path, s->bytes, at, lo.hole );
               PROBE( "layout: far offsets" );
            }
         }
         if ( !s->far )
         {
            g_disk->put( s->path, s->bytes );
         }
         trace( "source %u: %zu bytes, %s", i, s->bytes.size(), docSummary( *s->doc ).c_str() );
         srcs.push_back( std::move( s ) );
      }
      std::vector<Handle> hs( 1 + c.draw( 3 ) );
      auto bad2 = [&]( const char *what, const Res &x, const std::string &bad ) {
         if ( !x )
         {
            fail( strf( "%s failed on a legal file: ", what ) + resStr( x ) );
         }
         if ( !bad.empty() )
         {
            fail( strf( "%s delivered other data than the file holds :: ", what ) + bad );
         }
      };
      auto openHandle = [&]( Handle &h ) {
         h.src = srcs[c.draw( srcs.size() )].get();
         h.mem = !h.src->far && c.chance( 1, 4 );
         int pol = c.chance( 1, 2 ) ? 100 : int( c.draw( 101 ) );
         bad2( "open", lib( [&] {
                  if ( h.mem )
                  {
                     h.imf.reset( new e57::ImageFile( reinterpret_cast<const char *>( h.src->bytes.data() ), h.src->bytes.size(), pol ) );
                  }
                  else
                  {
                     h.imf.reset( new e57::ImageFile( h.src->path, "r", pol ) );
                  }
               } ),
               "" );
         g_sh->sessions++;
      };
      auto openReader = [&]( Handle &h ) {
         auto &cvs = h.src->doc->cvs;
         DNode *n = cvs[c.draw( cvs.size() )];
         h.rd.reset( new StepReader( *h.imf, *n, h.src->paths[n], &c ) );
         h.zeros = 0;
         bad2( "opening a record reader", h.rd->open(), "" );
      };
      auto step = [&]( Handle &h ) {
         std::string bad;
         bool was = h.rd->done();
         Res x = h.rd->step( bad );
         bad2( "reading records", x, bad );
         PROBE( "record read" );
         nontrivial();
         if ( was )
         {
            PROBE( "read again after the end" );
            h.zeros++;
         }
      };
      for ( auto &h : hs )
      {
         openHandle( h );
      }
      unsigned acts = profile < 4 ? 40 : 25;
      for ( unsigned a = 0; a < acts; a++ )
      {
         Handle &h = hs[c.draw( hs.size() )];
         std::string bad;
         switch ( c.weighted( { 16, 5, 3, 3, 2, 1, 1 } ) )
         {
            case 0:
               if ( !h.rd )
               {
                  openReader( h );
               }
               for ( unsigned i = 1 + c.draw( 4 ); i; i-- )
               {
                  step( h );
                  if ( h.rd->done() && h.zeros >= 2 )
                  {
                     break;
                  }
               }
               break;
            case 1: // finish or drop the reader
               if ( h.rd )
               {
                  if ( c.chance( 2, 3 ) )
                  {
                     while ( !h.rd->done() )
                     {
                        step( h );
                     }
                     PROBE( "record set read to the end" );
                  }
                  if ( c.chance( 1, 2 ) )
                  {
                     bad2( "closing a record reader", h.rd->close(), "" );
                  }
                  h.rd->destroy();
                  h.rd.reset();
               }
               break;
            case 2: // a blob between the records
               if ( !h.src->doc->blobs.empty() )
               {
                  auto &bs = h.src->doc->blobs;
                  DNode *n = bs[c.draw( bs.size() )];
                  uint64_t s = c.draw( n->blob.size() + 1 ), cnt = c.draw( n->blob.size() - s + 1 );
                  Res x = readBlobRange( *h.imf, h.src->paths[n], *n, s, cnt, bad );
                  bad2( "reading a blob", x, bad );
                  PROBE( "blob read between record reads" );
               }
               break;
            case 3: // element queries
            {
               auto it = h.src->paths.begin();
               std::advance( it, c.draw( h.src->paths.size() ) );
               const DNode *n = it->first;
               if ( n->kind == KCV || n->kind == KBlob || n->kind == KStruct || n->kind == KVec )
               {
                  int64_t cnt = -1;
                  Res x = lib( [&] {
                     e57::Node q = h.imf->root().get( it->second );
                     switch ( n->kind )
                     {
                        case KCV:
                           cnt = e57::CompressedVectorNode( q ).childCount();
                           break;
                        case KBlob:
                           cnt = e57::BlobNode( q ).byteCount();
                           break;
                        case KStruct:
                           cnt = e57::StructureNode( q ).childCount();
                           break;
                        default:
                           cnt = e57::VectorNode( q ).childCount();
                     }
                  } );
                  uint64_t want = n->kind == KCV ? n->nrec : n->kind == KBlob ? n->blob.size() : n->ch.size();
                  bad2( "an element query", x, uint64_t( cnt ) == want ? "" : strf( "%lld instead of %llu", (long long)cnt, (unsigned long long)want ) );
               }
               else
               {
                  Res e;
                  Res x = lib( [&] {
                     e57::Node q = h.imf->root().get( it->second );
                     bad = verifyNode( *h.imf, q, *const_cast<DNode *>( n ), it->second, nullptr, VerifyOpts(), e );
                  } );
                  bad2( "an element query", x, "" );
                  bad2( "an element query", e, bad );
               }
               break;
            }
            case 4: // everything, on a handle without a reader
               if ( !h.rd )
               {
                  Res e;
                  bad = verifyFile( *h.imf, *h.src->doc, &c, VerifyOpts(), e );
                  bad2( "reading the file", e, bad );
               }
               break;
            case 5: // the handle itself comes and goes
               h.rd.reset();
               bad2( "closing a file", lib( [&] {
                        if ( c.chance( 1, 2 ) )
                        {
                           h.imf->close();
                        }
                        h.imf.reset();
                     } ),
                     "" );
               openHandle( h );
               break;
            default: // another handle only for a moment
            {
               Res e;
               Source &s = *srcs[c.draw( srcs.size() )];
               bad = openAndVerify( s.path, *s.doc, &c, e );
               bad2( "reading the file", e, bad );
            }
         }
      }
      for ( auto &h : hs )
      {
         if ( h.rd )
         {
            while ( !h.rd->done() )
            {
               step( h );
            }
            h.rd.reset();
         }
         bad2( "closing a file", lib( [&] { h.imf.reset(); } ), "" );
      }
      for ( auto &s : srcs )
      {
         if ( g_disk->bytes( s->path ) != s->bytes )
         {
            fail( "reading changed the file" );
         }
      }
   }
   static FamilyReg r9( { "layout", runLayout, 8 } );
}
