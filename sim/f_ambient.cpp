// C19: output bytes and read data depend only on the session, not on ambient process state.
#include "clock.h"
#include "simple.h"
#include <cerrno>
#include <clocale>
#include <cstdlib>
#include <locale>
#include <thread>

namespace sim
{
   using namespace e57;
   namespace
   {
      template <class C> struct Punct : std::numpunct<C>
      {
         C dec, sep;
         std::string grp;
         Punct( C d, C s, std::string g ) : dec( d ), sep( s ), grp( std::move( g ) )
         {
         }
         C do_decimal_point() const override
         {
            return dec;
         }
         C do_thousands_sep() const override
         {
            return sep;
         }
         std::string do_grouping() const override
         {
            return grp;
         }
         std::basic_string<C> do_truename() const override
         {
            return std::basic_string<C>( 1, C( 'J' ) );
         }
         std::basic_string<C> do_falsename() const override
         {
            return std::basic_string<C>( 1, C( 'N' ) );
         }
      };

      // What surrounds a session.
      struct Ambient
      {
         Choices &c;
         std::locale savedCxx;
         std::string savedC;
         int savedFill;
         std::string what;
         std::string path = "/sim/plain.e57";
         bool otherThread = false;

         explicit Ambient( Choices &c ) : c( c ), savedCxx(), savedC( setlocale( LC_ALL, nullptr ) ), savedFill( g_alloc.fill )
         {
         }
         ~Ambient()
         {
            restore();
         }
         void restore()
         {
            std::locale::global( savedCxx );
            setlocale( LC_ALL, savedC.c_str() );
            g_alloc.fill = savedFill;
         }
         void draw()
         {
            switch ( c.draw( 6 ) )
            {
               case 1:
                  std::locale::global( std::locale( std::locale::classic(), new Punct<char>( ',', '.', "\3" ) ) );
                  what += " decimal comma with grouping;";
                  PROBE( "C++ locale with decimal comma" );
                  break;
               case 2:
                  std::locale::global( std::locale( std::locale::classic(), new Punct<char>( '.', ',', "\1" ) ) );
                  what += " groups of one digit;";
                  break;
               case 3:
                  std::locale::global( std::locale( std::locale( std::locale::classic(), new Punct<char>( '\'', ' ', "\3\2" ) ),
                                                    new Punct<wchar_t>( L',', L'.', "\3" ) ) );
                  what += " odd punctuation;";
                  break;
               case 4:
                  try
                  {
                     std::locale::global( std::locale( "fr_FR" ) );
                     what += " fr_FR;";
                     PROBE( "named locale" );
                  }
                  catch ( const std::runtime_error & )
                  {
                  }
                  break;
               default:
                  break;
            }
            if ( c.chance( 1, 3 ) && setlocale( LC_ALL, "fr_FR" ) )
            {
               what += " C locale fr_FR;";
               PROBE( "C locale with decimal comma" );
            }
            static const int fills[] = { -1, 0x00, 0xFF, 0xA5, 0x01, 0x7F };
            g_alloc.fill = fills[c.draw( 6 )];
            what += strf( " memory %d;", g_alloc.fill );
            static const char *const names[] = { "/sim/plain.e57", "/sim/with space.e57", "/sim/\xC3\xA9t\xC3\xA9.e57", "/sim/%s%n%d.e57", "/sim/no_extension",
                                                 "/sim/<&\">.e57" };
            path = names[c.draw( 6 )];
            if ( c.chance( 1, 8 ) )
            {
               path = "/sim/" + std::string( 200, 'n' ) + ".e57";
            }
            what += " path " + path + ";";
            switch ( c.draw( 5 ) )
            {
               case 1:
                  g_disk->put( path, std::vector<uint8_t>( 1 + c.draw( 9000 ), uint8_t( c.draw( 256 ) ) ) );
                  what += " garbage at path;";
                  PROBE( "path held other bytes" );
                  break;
               case 2:
                  history( path );
                  what += " other file at path;";
                  PROBE( "path held another file" );
                  break;
               case 3:
                  g_disk->put( path, {} );
                  break;
               default:
                  break;
            }
            for ( unsigned k = c.skewed( 3 ); k; k-- )
            {
               history( strf( "/sim/h%u.e57", k ) );
               what += " earlier session;";
            }
            g_clock.now = ( c.chance( 1, 3 ) ? c.draw( 1ULL << 33 ) : 1500000000ULL + c.draw( 100000 ) ) * 1000000000ULL + c.draw( 1000000000 );
            g_clock.pid = pid_t( 2 + c.draw( 60000 ) );
            errno = c.chance( 1, 2 ) ? 0 : int( 1 + c.draw( 40 ) );
            otherThread = c.chance( 1, 6 );
         }
         // some session that came before, in whatever way it ended
         void history( const std::string &p )
         {
            auto d = genDoc( c, smallOpts( c ) );
            WriteSession s( *d, p );
            unsigned how = c.draw( 4 );
            if ( s.open() )
            {
               size_t stop = how == 1 ? c.draw( d->steps.size() + 1 ) : ~size_t( 0 );
               while ( s.more() && s.pos() < stop && s.step() )
               {
               }
               if ( how == 1 )
               {
                  s.cancel();
                  PROBE( "earlier session abandoned" );
               }
               else
               {
                  s.close();
               }
            }
            s.destroy();
            if ( how == 2 )
            {
               dumpFile( p, DumpOpts() );
            }
            if ( how == 3 && g_disk->exists( p ) )
            {
               auto b = g_disk->bytes( p );
               if ( !b.empty() )
               {
                  b[c.draw( b.size() )] ^= uint8_t( 1 + c.draw( 255 ) );
               }
               g_disk->put( "/sim/damaged.e57", b );
               dumpFile( "/sim/damaged.e57", DumpOpts() );
               PROBE( "earlier session failed on a damaged file" );
            }
         }
      };
      std::string sameDump( const Dump &a, const Dump &b )
      {
         if ( a.opened != b.opened || ( !a.opened && a.openRes.err != b.openRes.err ) )
         {
            return "open: " + resStr( a.openRes ) + " / " + resStr( b.openRes );
         }
         for ( size_t i = 0; i < std::min( a.obs.size(), b.obs.size() ); i++ )
         {
            const Obs &x = a.obs[i], &y = b.obs[i];
            if ( x.what != y.what || x.ok != y.ok || x.err != y.err || x.foreign != y.foreign || x.val != y.val )
            {
               return x.what + strf( ": %s %d ", x.ok ? "ok" : "error", x.err ) + x.val + " / " + y.what + strf( ": %s %d ", y.ok ? "ok" : "error", y.err ) + y.val;
            }
         }
         return a.obs.size() == b.obs.size() ? "" : "number of queries";
      }
      void inThread( bool other, const std::function<void()> &f )
      {
         if ( !other )
         {
            f();
            return;
         }
         PROBE( "session on another thread" );
         std::exception_ptr ex;
         std::thread t( [&] {
            try
            {
               f();
            }
            catch ( ... )
            {
               ex = std::current_exception();
            }
         } );
         t.join();
         if ( ex )
         {
            std::rethrow_exception( ex );
         }
      }
   }

   static void runAmbient( Choices &c, unsigned profile )
   {
      auto d = genDoc( c, c.chance( 1, 2 ) ? drawOpts( c, profile ) : smallOpts( c ) );
      writeClean( *d, "/sim/ref.e57" );
      const auto ref = g_disk->bytes( "/sim/ref.e57" );
      // a file of another writer to read
      std::vector<uint8_t> alien = ref;
      if ( c.chance( 1, 2 ) )
      {
         alien = encodeDoc( *d, c, LayoutOpts() );
      }
      if ( c.chance( 1, 4 ) )
      {
         mutateFile( c, alien );
      }
      g_disk->put( "/sim/alien.e57", alien );
      const auto plain = dumpFile( "/sim/alien.e57", DumpOpts() );
      unsigned rounds = 2 + c.draw( 3 );
      for ( unsigned k = 0; k < rounds; k++ )
      {
         Ambient a( c );
         a.draw();
         trace( "surroundings:%s", a.what.c_str() );
         Res r;
         std::string mism;
         inThread( a.otherThread, [&] {
            WriteSession s( *d, a.path );
            r = s.runAll();
            mism = s.readMismatch;
            s.destroy();
         } );
         if ( !r )
         {
            fail( "a session fails in other surroundings: " + resStr( r ) + " ::" + a.what );
         }
         if ( !mism.empty() )
         {
            fail( "a session reads other data in other surroundings :: " + mism + a.what );
         }
         auto now = g_disk->bytes( a.path );
         if ( now != ref )
         {
            size_t at = 0;
            while ( at < now.size() && at < ref.size() && now[at] == ref[at] )
            {
               at++;
            }
            fail( "the same session produced other bytes in other surroundings" + strf( " :: first difference at %zu (sizes %zu, %zu);", at, now.size(), ref.size() ) +
                  a.what );
         }
         Dump got;
         inThread( a.otherThread, [&] { got = dumpFile( "/sim/alien.e57", DumpOpts() ); } );
         std::string diff = sameDump( plain, got );
         if ( !diff.empty() )
         {
            fail( "the same file reads differently in other surroundings :: " + diff + ";" + a.what );
         }
         a.restore();
         nontrivial();
         g_sh->sessions += 2;
      }
   }
   static FamilyReg r19( { "ambient", runAmbient, 8 } );

   // The same over the high-level interface, with all identifiers given.
   static void runAmbientSimple( Choices &c, unsigned )
   {
      SOpts o;
      o.fixedGuids = true;
      o.maxPoints = 60;
      o.maxImage = 500;
      auto d = genSimple( c, o );
      auto write = [&]( const std::string &p ) {
         SWriting w( *d, p );
         Res r = w.open();
         while ( r && w.more() )
         {
            r = w.step();
         }
         if ( r )
         {
            r = w.close();
         }
         w.destroy();
         return r;
      };
      if ( !write( "/sim/ref.e57" ) )
      {
         throw Unsuitable{}; // C17's business
      }
      const auto ref = g_disk->bytes( "/sim/ref.e57" );
      Res err;
      if ( !verifySimple( "/sim/ref.e57", *d, nullptr, nullptr, false, err ).empty() || !err )
      {
         throw Unsuitable{};
      }
      for ( unsigned k = 0; k < 3; k++ )
      {
         Ambient a( c );
         a.draw();
         trace( "surroundings:%s", a.what.c_str() );
         Res r;
         std::string m;
         inThread( a.otherThread, [&] {
            r = write( a.path );
            if ( r )
            {
               m = verifySimple( "/sim/ref.e57", *d, nullptr, &c, false, err );
            }
         } );
         if ( !r )
         {
            fail( "a high-level session fails in other surroundings: " + resStr( r ) + " ::" + a.what );
         }
         if ( g_disk->bytes( a.path ) != ref )
         {
            fail( "the same high-level session produced other bytes in other surroundings ::" + a.what );
         }
         if ( !m.empty() || !err )
         {
            fail( "the same file reads differently in other surroundings :: " + m + resStr( err ) + a.what );
         }
         a.restore();
         nontrivial();
         g_sh->sessions += 2;
      }
   }
   static FamilyReg r19s( { "ambientsimple", runAmbientSimple, 1 } );
}
