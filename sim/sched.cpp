#include "sched.h"
#include "alloc.h"
#include "disk.h"
#include <cerrno>
#include <pthread.h>
#include <random>
#include <set>

extern "C"
{
   int __real_pthread_mutex_lock( pthread_mutex_t * );
   int __real_pthread_once( pthread_once_t *, void ( * )() );
   int __real_pthread_rwlock_rdlock( pthread_rwlock_t * );
   int __real_pthread_rwlock_wrlock( pthread_rwlock_t * );
   int __real___cxa_guard_acquire( void * );
   void __real___cxa_guard_release( void * );
   void __real___cxa_guard_abort( void * );
}

namespace sim
{
   struct Task
   {
      pthread_t th;
      pthread_cond_t cv;
      std::function<void()> fn;
      bool done = false;
      bool violated = false;
      bool harness = false;
      std::string msg;
      int id = 0;
   };
   static bool g_active = false;
   static bool g_fine = false;
   static Choices *g_c = nullptr;
   static std::vector<Task *> g_tasks;
   static pthread_mutex_t g_mu = PTHREAD_MUTEX_INITIALIZER;
   static pthread_cond_t g_mainCv = PTHREAD_COND_INITIALIZER;
   static int g_cur = -1; // running task, -1: main
   static int64_t g_quantum = 0;
   static uint64_t g_switches = 0;
   static uint64_t g_shash = 0;
   static uint64_t g_futile = 0;
   static thread_local int t_self = -1;
   static thread_local int t_noSwitch = 0;
   static std::set<void *> *g_guards = nullptr;

   int schedSelf()
   {
      return t_self;
   }
   uint64_t schedSwitches()
   {
      return g_switches;
   }
   uint64_t schedHash()
   {
      return g_shash;
   }

   static unsigned g_style = 0; // drawn per run: how often sessions are switched
   // A run that has made nearly all the choices it may make is finished without further switching.
   static bool spent()
   {
      return g_sh->nchoices + 20000 > kMaxChoices;
   }
   static int64_t drawQuantum()
   {
      if ( spent() )
      {
         return INT64_MAX / 2;
      }
      if ( g_style == 1 )
      {
         return 1 + g_c->draw( g_fine ? 300 : 8 );
      }
      if ( g_style == 2 )
      {
         return 1 + g_c->draw( g_fine ? 3000 : 60 );
      }
      switch ( g_c->draw( 12 ) )
      {
         case 0:
            return 20000000;
         case 1:
         case 2:
            return 1 + g_c->draw( 3 );
         case 3:
         case 4:
            return 1 + g_c->draw( 20 );
         case 5:
         case 6:
         case 7:
            return 1 + g_c->draw( g_fine ? 400 : 60 );
         case 8:
         case 9:
            return 1 + g_c->draw( g_fine ? 4000 : 200 );
         default:
            return 1 + g_c->draw( g_fine ? 40000 : 1000 );
      }
   }

   // Called by the running task (or main) with g_mu held; passes the baton.
   static int chooseNext( bool excludeSelf )
   {
      std::vector<int> run;
      for ( auto t : g_tasks )
      {
         if ( !t->done && !( excludeSelf && t->id == g_cur ) )
         {
            run.push_back( t->id );
         }
      }
      if ( run.empty() )
      {
         return -1;
      }
      if ( spent() )
      {
         for ( int id : run ) // in turn, so that whoever holds a lock gets to release it
         {
            if ( id > g_cur )
            {
               return id;
            }
         }
         return run[0];
      }
      return run[g_c->draw( run.size() )];
   }

   static void switchAway( bool mustLeave )
   {
      OutOfLib out; // choices and bookkeeping are harness allocations
      ++t_noSwitch;
      int self = t_self;
      int next = chooseNext( mustLeave );
      g_quantum = drawQuantum();
      if ( next < 0 || next == self )
      {
         --t_noSwitch;
         return;
      }
      g_switches++;
      g_shash = mix( g_shash, uint64_t( next ) * 1000003 + g_sh->ops );
      ev( 0x5C, uint64_t( next ), g_sh->ops );
      __real_pthread_mutex_lock( &g_mu );
      g_cur = next;
      pthread_cond_signal( &g_tasks[next]->cv );
      while ( g_cur != self )
      {
         pthread_cond_wait( &g_tasks[self]->cv, &g_mu );
      }
      pthread_mutex_unlock( &g_mu );
      --t_noSwitch;
   }

   void schedPoint( int kind )
   {
      if ( !g_active || t_self < 0 || t_noSwitch )
      {
         return;
      }
      g_futile = 0;
      // process-wide start-up and shut-down are worth a closer look
      if ( kind == 102 && !spent() && g_c->draw( 3 ) == 2 )
      {
         switchAway( false );
         return;
      }
      if ( --g_quantum > 0 )
      {
         return;
      }
      switchAway( false );
   }
   void schedYieldPoint()
   {
      schedPoint( 101 );
   }
   static void yieldBlocked()
   {
      if ( ++g_futile > 200000 )
      {
         failNow( "deadlock: no session can make progress" );
      }
      switchAway( true );
   }

   static void *threadMain( void *p )
   {
      auto t = static_cast<Task *>( p );
      t_self = t->id;
      __real_pthread_mutex_lock( &g_mu );
      while ( g_cur != t->id )
      {
         pthread_cond_wait( &t->cv, &g_mu );
      }
      pthread_mutex_unlock( &g_mu );
      try
      {
         t->fn();
      }
      catch ( Violation &v )
      {
         t->violated = true;
         t->msg = v.msg;
      }
      catch ( HarnessError &v )
      {
         t->harness = true;
         t->msg = v.msg;
      }
      g_libDepth = 0;
      ++t_noSwitch;
      t->done = true;
      int next = chooseNext( true );
      g_quantum = drawQuantum();
      __real_pthread_mutex_lock( &g_mu );
      g_cur = next;
      if ( next >= 0 )
      {
         pthread_cond_signal( &g_tasks[next]->cv );
      }
      else
      {
         pthread_cond_signal( &g_mainCv );
      }
      pthread_mutex_unlock( &g_mu );
      return nullptr;
   }

   void runTasks( Choices &c, const std::vector<std::function<void()>> &fns, bool fineGrain )
   {
      g_c = &c;
#ifdef SIM_EDGE_SWITCH
      g_fine = fineGrain;
#else
      (void)fineGrain;
      g_fine = false;
#endif
      g_style = c.draw( 4 );
      g_switches = 0;
      g_shash = 0;
      g_futile = 0;
      if ( !g_guards )
      {
         g_guards = new std::set<void *>;
      }
      g_tasks.clear();
      for ( auto &f : fns )
      {
         auto t = new Task;
         t->fn = f;
         t->id = int( g_tasks.size() );
         pthread_cond_init( &t->cv, nullptr );
         g_tasks.push_back( t );
      }
      g_cur = -1;
      for ( auto t : g_tasks )
      {
         pthread_create( &t->th, nullptr, threadMain, t );
      }
      g_active = true;
      g_quantum = drawQuantum();
      int first = chooseNext( false );
      __real_pthread_mutex_lock( &g_mu );
      g_cur = first;
      pthread_cond_signal( &g_tasks[first]->cv );
      // main waits until every task is done
      for ( ;; )
      {
         bool all = true;
         for ( auto t : g_tasks )
         {
            all = all && t->done;
         }
         if ( all && g_cur == -1 )
         {
            break;
         }
         pthread_cond_wait( &g_mainCv, &g_mu );
      }
      pthread_mutex_unlock( &g_mu );
      g_active = false;
      std::string msg;
      bool viol = false, harn = false;
      for ( auto t : g_tasks )
      {
         pthread_join( t->th, nullptr );
         if ( t->violated && !viol )
         {
            viol = true;
            msg = strf( "session %d: %s", t->id, t->msg.c_str() );
         }
         harn = harn || t->harness;
         if ( t->harness && msg.empty() )
         {
            msg = t->msg;
         }
      }
      for ( auto t : g_tasks )
      {
         delete t;
      }
      g_tasks.clear();
      if ( viol )
      {
         fail( msg );
      }
      if ( harn )
      {
         throw HarnessError{ msg };
      }
   }

   // XML platform start-up and shut-down are process-wide and must not overlap (Xerces contract).
   static int g_xmlBusy = -1;
   struct XmlPlatformSection
   {
      bool on;
      XmlPlatformSection()
      {
         on = g_active && t_self >= 0;
         if ( on )
         {
            schedPoint( 102 );
            if ( g_xmlBusy >= 0 )
            {
               failNow( "two sessions are inside XML platform initialisation/termination at the same time" );
            }
            g_xmlBusy = t_self;
            schedPoint( 102 );
         }
      }
      ~XmlPlatformSection()
      {
         if ( on )
         {
            schedPoint( 102 );
            g_xmlBusy = -1;
         }
      }
   };
}

using namespace sim;

namespace xercesc_3_2
{
   class PanicHandler;
   class MemoryManager;
}

extern "C"
{
   int __wrap_pthread_mutex_lock( pthread_mutex_t *m )
   {
      if ( !g_active || t_self < 0 )
      {
         return __real_pthread_mutex_lock( m );
      }
      schedPoint( 103 );
      for ( ;; )
      {
         int r = pthread_mutex_trylock( m );
         if ( r != EBUSY )
         {
            return r;
         }
         yieldBlocked();
      }
   }
   int __wrap_pthread_rwlock_rdlock( pthread_rwlock_t *m )
   {
      if ( !g_active || t_self < 0 )
      {
         return __real_pthread_rwlock_rdlock( m );
      }
      schedPoint( 103 );
      for ( ;; )
      {
         int r = pthread_rwlock_tryrdlock( m );
         if ( r != EBUSY )
         {
            return r;
         }
         yieldBlocked();
      }
   }
   int __wrap_pthread_rwlock_wrlock( pthread_rwlock_t *m )
   {
      if ( !g_active || t_self < 0 )
      {
         return __real_pthread_rwlock_wrlock( m );
      }
      schedPoint( 103 );
      for ( ;; )
      {
         int r = pthread_rwlock_trywrlock( m );
         if ( r != EBUSY )
         {
            return r;
         }
         yieldBlocked();
      }
   }
   int __wrap_pthread_once( pthread_once_t *o, void ( *f )() )
   {
      if ( !g_active || t_self < 0 )
      {
         return __real_pthread_once( o, f );
      }
      {
         OutOfLib out;
         while ( g_guards->count( o ) )
         {
            yieldBlocked();
         }
         g_guards->insert( o );
      }
      struct Done
      {
         void *o;
         ~Done()
         {
            OutOfLib out;
            g_guards->erase( o );
         }
      } done{ o };
      return __real_pthread_once( o, f );
   }
   int __wrap___cxa_guard_acquire( void *g )
   {
      if ( !g_active || t_self < 0 )
      {
         return __real___cxa_guard_acquire( g );
      }
      OutOfLib out;
      while ( g_guards->count( g ) )
      {
         yieldBlocked();
      }
      int r = __real___cxa_guard_acquire( g );
      if ( r )
      {
         g_guards->insert( g );
      }
      return r;
   }
   void __wrap___cxa_guard_release( void *g )
   {
      if ( g_guards )
      {
         OutOfLib out;
         g_guards->erase( g );
      }
      __real___cxa_guard_release( g );
   }
   void __wrap___cxa_guard_abort( void *g )
   {
      if ( g_guards )
      {
         OutOfLib out;
         g_guards->erase( g );
      }
      __real___cxa_guard_abort( g );
   }
   void __real__ZN11xercesc_3_216XMLPlatformUtils10InitializeEPKcS2_PNS_12PanicHandlerEPNS_13MemoryManagerE(
      const char *, const char *, void *, void * );
   void __real__ZN11xercesc_3_216XMLPlatformUtils9TerminateEv();
   void __wrap__ZN11xercesc_3_216XMLPlatformUtils10InitializeEPKcS2_PNS_12PanicHandlerEPNS_13MemoryManagerE(
      const char *a, const char *b, void *c, void *d )
   {
      XmlPlatformSection s;
      __real__ZN11xercesc_3_216XMLPlatformUtils10InitializeEPKcS2_PNS_12PanicHandlerEPNS_13MemoryManagerE( a, b, c,
                                                                                                           d );
   }
   void __wrap__ZN11xercesc_3_216XMLPlatformUtils9TerminateEv()
   {
      XmlPlatformSection s;
      __real__ZN11xercesc_3_216XMLPlatformUtils9TerminateEv();
   }
   // random numbers of the library are deterministic
   unsigned __wrap__ZNSt13random_device9_M_getvalEv( void * )
   {
      static uint64_t s = 42;
      return unsigned( splitmix( s ) );
   }

#ifdef SIM_EDGE_SWITCH
   void __sanitizer_cov_trace_pc_guard_init( uint32_t *start, uint32_t *stop )
   {
      for ( uint32_t *x = start; x < stop; x++ )
      {
         *x = 1;
      }
   }
   void __sanitizer_cov_trace_pc_guard( uint32_t * )
   {
      if ( g_active && g_fine && t_self >= 0 && !t_noSwitch )
      {
         g_futile = 0;
         if ( --g_quantum <= 0 )
         {
            switchAway( false );
         }
      }
   }
#endif
}
