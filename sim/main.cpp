// Driver: forks one process per simulated run; run, replay and minimise.
#include "clock.h"
#include "alloc.h"
#include "core.h"
#include "disk.h"
#include <regex>
#include <fstream>
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

extern "C" const char *__asan_default_options();

static int g_errFd = -1;
static bool g_keepErr = false;
static int g_cpuLimit = 12;

static double nowS()
{
   timespec t;
   clock_gettime( CLOCK_MONOTONIC, &t );
   return double( t.tv_sec ) + 1e-9 * double( t.tv_nsec );
}

struct Outcome
{
   int status = 3; // 1 held, 2 violation, 3 harness error
   std::string msg;
   uint64_t hash = 0;
   std::vector<uint32_t> choices;
};

static std::string slurpErr()
{
   std::string s;
   char buf[65536];
   ssize_t n = pread( g_errFd, buf, sizeof buf, 0 );
   if ( n > 0 )
   {
      s.assign( buf, size_t( n ) );
   }
   return s;
}
// One line naming the kind of memory error and where in the library it happened; no addresses.
static std::string digest( const std::string &err )
{
   std::string kind, frame, first;
   size_t p = err.find( "ERROR: AddressSanitizer: " );
   if ( p != std::string::npos )
   {
      size_t b = p + 25;
      kind = "AddressSanitizer " + err.substr( b, err.find_first_of( " \n", b ) - b );
   }
   else if ( ( p = err.find( "runtime error: " ) ) != std::string::npos )
   {
      size_t e = err.find( '\n', p );
      kind = "UndefinedBehavior " + err.substr( p + 15, std::min<size_t>( e - p - 15, 100 ) );
      // drop numbers that depend on data placement
      size_t x = kind.find( "0x" );
      if ( x != std::string::npos )
      {
         kind.resize( x );
      }
   }
   else if ( ( p = err.find( "terminate called" ) ) != std::string::npos )
   {
      kind = "std::terminate";
   }
   size_t q = p == std::string::npos ? 0 : p;
   for ( int i = 0; i < 40; i++ )
   {
      q = err.find( "\n    #", q );
      if ( q == std::string::npos )
      {
         break;
      }
      size_t e = err.find( '\n', q + 1 );
      std::string line = err.substr( q + 1, e - q - 1 );
      size_t in = line.find( " in " );
      size_t src = line.find( "/repo/src/" );
      if ( src == std::string::npos )
      {
         src = line.find( "/repo/include/" );
      }
      if ( in != std::string::npos && src != std::string::npos )
      {
         std::string fn = line.substr( in + 4, src - in - 5 );
         size_t sl = line.rfind( '/' );
         size_t col = line.find( ':', sl );
         frame = fn.substr( 0, 160 ) + " (" + line.substr( sl + 1, col - sl - 1 ) + ")";
         break;
      }
      q = e == std::string::npos ? err.size() : e - 0;
      if ( q >= err.size() )
      {
         break;
      }
   }
   if ( kind.empty() )
   {
      return "";
   }
   return frame.empty() ? kind : kind + " in " + frame;
}

static Outcome runOne( const Family &f, unsigned profile, uint64_t seed, const std::vector<uint32_t> *replay, bool traceOn )
{
   Shared *s = g_sh;
   s->status = 0;
   s->nchoices = 0;
   s->nontrivial = 0;
   s->traceLen = 0;
   s->hash = 0x1234567;
   s->ops = 0;
   s->simNs = 0;
   s->sessions = 0;
   memset( s->probes, 0, sizeof s->probes );
   s->msg[0] = 0;
   if ( ftruncate( g_errFd, 0 ) != 0 )
   {
      abort();
   }
   lseek( g_errFd, 0, SEEK_SET );
   fflush( nullptr );
   pid_t pid = fork();
   if ( pid < 0 )
   {
      Outcome o;
      o.msg = "fork failed";
      return o;
   }
   if ( pid == 0 )
   {
      if ( !g_keepErr )
      {
         dup2( g_errFd, 2 );
         dup2( g_errFd, 1 );
      }
      const int cpu = std::max( g_cpuLimit, f.cpuSeconds );
      rlimit rl{ rlim_t( cpu ), rlim_t( cpu + 2 ) };
      setrlimit( RLIMIT_CPU, &rl );
      rlimit rc{ 0, 0 };
      setrlimit( RLIMIT_CORE, &rc );
      g_traceOn = traceOn;
      resetDisk();
      allocInit();
      g_clock.on = true;
      Choices c;
      if ( replay )
      {
         c.replay( *replay );
      }
      else
      {
         c.seed( seed );
      }
      try
      {
         f.run( c, profile );
         s->status = 1;
      }
      catch ( Violation &v )
      {
         snprintf( s->msg, sizeof s->msg, "%s", v.msg.c_str() );
         s->status = 2;
      }
      catch ( Unsuitable & )
      {
         s->nontrivial = 0;
         s->status = 1;
      }
      catch ( HarnessError &v )
      {
         snprintf( s->msg, sizeof s->msg, "harness: %s", v.msg.c_str() );
         s->status = 3;
      }
      catch ( std::exception &e )
      {
         snprintf( s->msg, sizeof s->msg, "harness: exception %s", e.what() );
         s->status = 3;
      }
      catch ( ... )
      {
         snprintf( s->msg, sizeof s->msg, "harness: unknown exception" );
         s->status = 3;
      }
      _exit( 0 );
   }
   int st = 0;
   double t0 = nowS();
   bool killed = false;
   // blocking wait with a generous wall limit (deadlocked run)
   for ( unsigned spin = 0;; spin++ )
   {
      pid_t r = waitpid( pid, &st, spin < 1 ? WNOHANG : 0 );
      if ( r == pid )
      {
         break;
      }
      if ( r < 0 && errno == EINTR )
      {
         if ( nowS() - t0 > std::max( 100, 5 * f.cpuSeconds ) )
         {
            kill( pid, SIGKILL );
            killed = true;
         }
         continue;
      }
      if ( spin == 0 )
      {
         alarm( 50 );
      }
   }
   alarm( 0 );
   Outcome o;
   o.status = int( s->status );
   o.hash = s->hash;
   o.msg = s->msg;
   o.choices.assign( s->choices, s->choices + std::min( s->nchoices, kMaxChoices ) );
   if ( o.status == 0 )
   {
      std::string d = digest( slurpErr() );
      o.status = 2;
      if ( killed || ( WIFSIGNALED( st ) && ( WTERMSIG( st ) == SIGXCPU || WTERMSIG( st ) == SIGKILL ) ) )
      {
         o.msg = "hang: the run did not finish";
         o.hash = 0; // where it was stopped depends on the clock
      }
      else if ( !d.empty() )
      {
         o.msg = "crash: " + d;
      }
      else if ( WIFSIGNALED( st ) )
      {
         o.msg = strf( "crash: signal %d", WTERMSIG( st ) );
      }
      else
      {
         o.msg = strf( "crash: process exit %d", WEXITSTATUS( st ) );
      }
   }
   return o;
}

static std::string jsonStr( const std::string &s )
{
   std::string o = "\"";
   for ( unsigned char ch : s )
   {
      if ( ch == '"' || ch == '\\' )
      {
         o += '\\';
         o += char( ch );
      }
      else if ( ch == '\n' )
      {
         o += "\\n";
      }
      else if ( ch < 0x20 || ch >= 0x7F )
      {
         char b[8];
         snprintf( b, sizeof b, "\\u%04x", ch );
         o += b;
      }
      else
      {
         o += char( ch );
      }
   }
   return o + "\"";
}
static std::string jsonList( const std::vector<uint32_t> &v )
{
   std::string o = "[";
   for ( size_t i = 0; i < v.size(); i++ )
   {
      o += ( i ? "," : "" ) + std::to_string( v[i] );
   }
   return o + "]";
}

// violation class: message without digits
static std::string klass( const std::string &m )
{
   std::string o;
   for ( char ch : m.substr( 0, 400 ) )
   {
      if ( isdigit( uint8_t( ch ) ) )
      {
         if ( o.empty() || o.back() != '#' )
         {
            o += '#';
         }
      }
      else
      {
         o += ch;
      }
   }
   size_t p = o.find( " :: " );
   return p == std::string::npos ? o : o.substr( 0, p );
}

static std::vector<uint32_t> readChoices( const char *file )
{
   std::vector<uint32_t> v;
   FILE *f = fopen( file, "r" );
   unsigned long x;
   while ( f && fscanf( f, "%lu", &x ) == 1 )
   {
      v.push_back( uint32_t( x ) );
   }
   if ( f )
   {
      fclose( f );
   }
   return v;
}

static std::map<std::string, std::string> args( int argc, char **argv )
{
   std::map<std::string, std::string> m;
   for ( int i = 2; i + 1 < argc; i += 2 )
   {
      m[argv[i]] = argv[i + 1];
   }
   return m;
}

int main( int argc, char **argv )
{
   if ( !getenv( "SIM_NO_REEXEC" ) )
   {
      int p = personality( 0xffffffff );
      setenv( "SIM_NO_REEXEC", "1", 1 );
      if ( p >= 0 && !( p & ADDR_NO_RANDOMIZE ) && personality( unsigned( p ) | ADDR_NO_RANDOMIZE ) >= 0 )
      {
         execv( "/proc/self/exe", argv );
      }
   }
   if ( argc < 2 )
   {
      return 2;
   }
   auto a = args( argc, argv );
   std::string mode = argv[1];
   g_sh = static_cast<Shared *>( mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
   g_errFd = memfd_create( "err", 0 );
   g_keepErr = getenv( "SIM_STDERR" ) != nullptr;
   if ( a.count( "--cpu" ) )
   {
      g_cpuLimit = atoi( a["--cpu"].c_str() );
   }
   struct sigaction sa;
   memset( &sa, 0, sizeof sa );
   sa.sa_handler = []( int ) {};
   sigaction( SIGALRM, &sa, nullptr );
   const Family *f = findFamily( a["--family"] );
   if ( !f )
   {
      fprintf( stderr, "unknown family %s\n", a["--family"].c_str() );
      return 2;
   }
   uint64_t base = mix( strtoull( a["--seed"].c_str(), nullptr, 10 ), hashStr( a["--prop"].c_str() ) );
   if ( mode == "run" )
   {
      uint64_t first = strtoull( a["--first"].c_str(), nullptr, 10 );
      uint64_t step = strtoull( a["--step"].c_str(), nullptr, 10 );
      uint64_t count = strtoull( a["--count"].c_str(), nullptr, 10 ); // upper bound of the run index
      double deadline = nowS() + atof( a["--deadline"].c_str() );
      int maxViol = a.count( "--max-viol" ) ? atoi( a["--max-viol"].c_str() ) : 1;
      int onlyProfile = a.count( "--profile" ) ? atoi( a["--profile"].c_str() ) : -1;
      FILE *hf = a.count( "--hashes" ) ? fopen( a["--hashes"].c_str(), "wb" ) : nullptr;
      std::vector<uint64_t> probes( probeNames().size() );
      uint64_t runs = 0, nontriv = 0, ops = 0, simNs = 0, sess = 0, choiceSum = 0;
      std::string viols, errs;
      std::set<std::string> seen;
      std::vector<uint64_t> perProfile( f->profiles );
      int nv = 0;
      bool cut = false;
      double slow = 0;
      uint64_t slowI = 0;
      std::vector<std::regex> known;
      if ( a.count( "--known" ) )
      {
         std::ifstream kf( a["--known"] );
         for ( std::string line; std::getline( kf, line ); )
         {
            known.emplace_back( line );
         }
      }
      const std::string stop = a["--stop"];
      bool stopping = false;
      for ( uint64_t i = first; i < count; i += step )
      {
         double t0 = nowS();
         if ( !stopping && !stop.empty() && access( stop.c_str(), F_OK ) == 0 )
         {
            // a violation was found: look a little longer, there may be a clearer one
            stopping = true;
            deadline = std::min( deadline, t0 + 5 );
         }
         if ( t0 > deadline )
         {
            cut = true;
            break;
         }
         uint64_t seed = mix( base, i );
         unsigned profile = onlyProfile >= 0 ? unsigned( onlyProfile ) : unsigned( i % f->profiles );
         Outcome o = runOne( *f, profile, seed, nullptr, false );
         double dt = nowS() - t0;
         if ( dt > slow )
         {
            slow = dt;
            slowI = i;
         }
         runs++;
         perProfile[profile]++;
         nontriv += g_sh->nontrivial != 0;
         ops += g_sh->ops;
         simNs += g_sh->simNs;
         sess += g_sh->sessions;
         choiceSum += o.choices.size();
         for ( size_t k = 0; k < probes.size(); k++ )
         {
            probes[k] += g_sh->probes[k];
         }
         if ( hf )
         {
            uint64_t rec[3] = { i, o.hash, g_sh->nontrivial };
            fwrite( rec, 8, 3, hf );
         }
         if ( o.status == 2 )
         {
            const std::string cls = klass( o.msg );
            const bool isKnown = std::any_of( known.begin(), known.end(), [&]( const std::regex &r ) { return std::regex_search( cls, r ); } );
            if ( !isKnown && !stop.empty() )
            {
               std::ofstream( stop.c_str() ).put( '1' );
            }
            if ( seen.insert( klass( o.msg ) ).second )
            {
               viols += ( viols.empty() ? "" : ",\n" ) + strf( "{\"i\":%llu,\"seed\":\"%llu\",\"profile\":%u,\"hash\":\"%016llx\",", (unsigned long long)i,
                                                              (unsigned long long)seed, profile, (unsigned long long)o.hash ) +
                        "\"msg\":" + jsonStr( o.msg ) + ",\"class\":" + jsonStr( klass( o.msg ) ) + ",\"choices\":" + jsonList( o.choices ) + "}";
               if ( !isKnown && ++nv >= maxViol )
               {
                  break;
               }
            }
         }
         else if ( o.status != 1 )
         {
            if ( errs.size() < 20000 )
            {
               errs += ( errs.empty() ? "" : ",\n" ) + strf( "{\"i\":%llu,\"msg\":", (unsigned long long)i ) + jsonStr( o.msg ) + "}";
            }
         }
      }
      if ( hf )
      {
         fclose( hf );
      }
      printf( "{\"runs\":%llu,\"nontrivial\":%llu,\"ops\":%llu,\"sim_ns\":%llu,\"sessions\":%llu,\"choices\":%llu,\"cut\":%s,\"slowest\":%.2f,\"slowest_i\":%llu,\n",
              (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)ops, (unsigned long long)simNs, (unsigned long long)sess,
              (unsigned long long)choiceSum, cut ? "true" : "false", slow, (unsigned long long)slowI );
      printf( "\"profiles\":[" );
      for ( size_t k = 0; k < perProfile.size(); k++ )
      {
         printf( "%s%llu", k ? "," : "", (unsigned long long)perProfile[k] );
      }
      printf( "],\n\"probes\":{" );
      for ( size_t k = 0; k < probes.size(); k++ )
      {
         printf( "%s%s:%llu", k ? "," : "", jsonStr( probeNames()[k] ).c_str(), (unsigned long long)probes[k] );
      }
      printf( "},\n\"violations\":[%s],\n\"errors\":[%s]}\n", viols.c_str(), errs.c_str() );
      return 0;
   }
   bool haveProfile = a.count( "--profile" ) != 0;
   unsigned profile = unsigned( atoi( a["--profile"].c_str() ) );
   if ( mode == "one" )
   {
      uint64_t i = strtoull( a["--index"].c_str(), nullptr, 10 );
      Outcome o = runOne( *f, haveProfile ? profile : unsigned( i % f->profiles ), mix( base, i ), nullptr, true );
      printf( "status %d hash %016llx choices %zu nontrivial %u\n%s\n%.*s\n", o.status, (unsigned long long)o.hash, o.choices.size(), g_sh->nontrivial,
              o.msg.c_str(), int( g_sh->traceLen ), g_sh->trace );
      if ( getenv( "SIM_SHOWERR" ) )
      {
         printf( "%s\n", slurpErr().c_str() );
      }
      for ( size_t k = 0; k < probeNames().size(); k++ )
      {
         if ( g_sh->probes[k] )
         {
            printf( "probe %s %u\n", probeNames()[k].c_str(), g_sh->probes[k] );
         }
      }
      return 0;
   }
   if ( mode == "replay" )
   {
      auto ch = readChoices( a["--choices"].c_str() );
      Outcome o = runOne( *f, profile, 0, &ch, true );
      printf( "{\"status\":%d,\"hash\":\"%016llx\",\"msg\":%s,\"class\":%s,\"trace\":%s,\"stderr\":%s,\"choices\":%s}\n", o.status,
              (unsigned long long)o.hash, jsonStr( o.msg ).c_str(), jsonStr( klass( o.msg ) ).c_str(),
              jsonStr( std::string( g_sh->trace, g_sh->traceLen ) ).c_str(), jsonStr( slurpErr().substr( 0, 6000 ) ).c_str(),
              jsonList( o.choices ).c_str() );
      return 0;
   }
   if ( mode == "minimise" )
   {
      auto best = readChoices( a["--choices"].c_str() );
      double deadline = nowS() + atof( a["--deadline"].c_str() );
      Outcome o = runOne( *f, profile, 0, &best, false );
      if ( o.status != 2 )
      {
         printf( "{\"reproduced\":false,\"status\":%d,\"msg\":%s}\n", o.status, jsonStr( o.msg ).c_str() );
         return 0;
      }
      std::string want = klass( o.msg );
      // keep the first words of the class: numbers and names vary with the input
      std::string key = want.substr( 0, std::min<size_t>( want.size(), 40 ) );
      uint64_t tries = 0;
      auto test = [&]( std::vector<uint32_t> &cand ) {
         tries++;
         Outcome r = runOne( *f, profile, 0, &cand, false );
         if ( r.status == 2 && klass( r.msg ).compare( 0, key.size(), key ) == 0 )
         {
            // the recorded list is canonical (clamped, trimmed)
            best = r.choices;
            while ( !best.empty() && best.back() == 0 )
            {
               best.pop_back();
            }
            return true;
         }
         return false;
      };
      size_t orig = best.size();
      test( best );
      bool progress = true;
      while ( progress && nowS() < deadline )
      {
         progress = false;
         for ( size_t block = std::max<size_t>( 1, best.size() / 2 ); block >= 1 && nowS() < deadline; block /= 2 )
         {
            for ( size_t at = 0; at < best.size() && nowS() < deadline; )
            {
               auto cand = best;
               cand.erase( cand.begin() + long( at ), cand.begin() + long( std::min( at + block, cand.size() ) ) );
               if ( cand.size() < best.size() && test( cand ) )
               {
                  progress = true;
                  continue;
               }
               cand = best;
               bool any = false;
               for ( size_t k = at; k < std::min( at + block, cand.size() ); k++ )
               {
                  any = any || cand[k];
                  cand[k] = 0;
               }
               if ( any && test( cand ) )
               {
                  progress = true;
               }
               at += block;
            }
         }
         for ( size_t k = 0; k < best.size() && nowS() < deadline; k++ )
         {
            while ( k < best.size() && best[k] > 1 )
            {
               auto cand = best;
               cand[k] /= 2;
               if ( !test( cand ) )
               {
                  cand = best;
                  cand[k]--;
                  if ( cand[k] > 64 || !test( cand ) )
                  {
                     break;
                  }
               }
               progress = true;
            }
         }
         if ( tries > 6000 )
         {
            break;
         }
      }
      Outcome fin = runOne( *f, profile, 0, &best, true );
      printf( "{\"reproduced\":%s,\"tries\":%llu,\"from\":%zu,\"hash\":\"%016llx\",\"msg\":%s,\"class\":%s,\"choices\":%s,\"trace\":%s}\n",
              fin.status == 2 ? "true" : "false", (unsigned long long)tries, orig, (unsigned long long)fin.hash, jsonStr( fin.msg ).c_str(),
              jsonStr( klass( fin.msg ) ).c_str(), jsonList( best ).c_str(), jsonStr( std::string( g_sh->trace, g_sh->traceLen ) ).c_str() );
      return 0;
   }
   return 2;
}

extern "C" const char *__asan_default_options()
{
   return "exitcode=99:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:"
          "new_delete_type_mismatch=0:alloc_dealloc_mismatch=0:abort_on_error=0:max_allocation_size_mb=3000:quarantine_size_mb=16:malloc_context_size=8";
}
extern "C" const char *__ubsan_default_options()
{
   return "print_stacktrace=1";
}
