// Runs pseudo random scripts on a real fifo_scheduler<> with processors and asynchronous machines and compares with a reference model.
#include <boost/statechart/asynchronous_state_machine.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/ref.hpp>
#include <boost/mpl/list.hpp>
#include <cstdio>
#ifdef BOOST_HAS_THREADS
#include <atomic>
#include <chrono>
#include <thread>
#endif
#include <cstdlib>
#include <deque>
#include <vector>
#include <string>
namespace sc = boost::statechart;
typedef sc::fifo_scheduler<> S;
typedef S::processor_handle H;
static unsigned long rs;
static unsigned rnd( unsigned n ) { rs = rs * 6364136223846793005ul + 1442695040888963407ul; return ( unsigned )( ( rs >> 33 ) % n ); }
static std::string trace;
static bool live;
static void say( const std::string & s ) { trace += "  " + s + "\n"; if ( live ) { puts( s.c_str() ); fflush( stdout ); } }
static std::string num( long v ) { return std::to_string( v ); }
[[noreturn]] static void fail( const std::string & s )
{
  say( "WRONG: " + s ); printf( "== FAIL\n%s", live ? "" : trace.c_str() ); fflush( stdout ); _Exit( 1 );
}
static void check( bool ok, const std::string & s ) { if ( !ok ) fail( s ); }
static int events, objects;
struct Ev : sc::event< Ev >
{
  int id;
  Ev( int i ) : id( i ) { ++events; } Ev( const Ev & o ) : sc::event< Ev >( o ), id( o.id ) { ++events; } ~Ev() { --events; }
};
typedef boost::intrusive_ptr< const sc::event_base > EP;
struct op { int kind, proc, id; const sc::event_base * ev; };   // 0 create 1 initiate 2 terminate 3 event 4 destroy 5 end 6 item
struct proc { bool machine, lives, active; H h; std::vector< long > args; bool counted; };
static S * s; static bool ended, inend;
static std::deque< op > q; static std::vector< proc > ps; static std::deque< std::string > want;
static long popped; static int serial; static int budget; struct AM; static AM * machines[ 64 ]; static void stop( int );
static std::string args_of( const proc & p ) { std::string r = "("; for ( long a : p.args ) r += " " + num( a ); return r + " )"; }
// the effects of the oldest operation
static void step()
{
  op o = q.front(); q.pop_front(); ++popped;
  std::string n = num( o.proc );
  if ( o.kind == 5 ) { ended = true; return; }
  if ( o.kind == 6 ) { want.push_back( "item " + num( o.id ) ); return; }
  if ( o.proc < 0 ) return;
  proc & p = ps[ o.proc ];
  if ( o.kind == 0 ) { p.lives = true; want.push_back( "construct " + n + args_of( p ) ); return; }
  if ( !p.lives ) return;
  if ( !p.machine )
  {
    want.push_back( ( o.kind == 1 ? "initiate " : o.kind == 2 ? "terminate " : o.kind == 3 ? "event " : "destroy " ) + n + ( o.kind == 3 ? " " + num( o.id ) : "" ) );
    if ( o.kind == 4 ) p.lives = false;
    return;
  }
  bool was = p.active;
  if ( o.kind == 4 ) { want.push_back( "destroy " + n ); if ( was ) want.push_back( "leave " + n ); p.lives = p.active = false; return; }
  if ( o.kind == 3 ) { if ( was ) want.push_back( "event " + n + " " + num( o.id ) ); return; }
  if ( was ) { want.push_back( "exit " + n ); want.push_back( "leave " + n ); }
  if ( o.kind == 1 ) want.push_back( "enter " + n );
  p.active = o.kind == 1;
}
static void happens( const std::string & w )
{
  say( "  " + w );
  while ( want.empty() && !ended && !q.empty() && !inend ) step();
  if ( want.empty() ) fail( inend || ended ? "nothing may be executed any more" : "no operation is waiting" );
  check( want.front() == w, "the oldest operation demands: " + want.front() );
  want.pop_front();
}
static void some_op( int self );
static void user( int self )                     // code of a processor
{
  if ( rnd( 4 ) == 0 && budget > 0 ) { --budget; some_op( self ); }
}
static void may_throw( int self ) { if ( rnd( 12 ) == 0 ) { say( "  " + num( self ) + " throws" ); throw self; } }
struct X { long v; };
static std::vector< X * > refs;
static long val( X & x )
{
  bool same = false; for ( X * r : refs ) same = same || r == &x;
  check( same, "an argument passed by reference arrives as another object" );
  return x.v;
}
static long val( long x ) { return x; }
template< class B > struct common
{
  static void built( int id, std::initializer_list< long > a, B & b, S & sch, const H & h )
  {
    std::string t = "construct " + num( id ) + "("; for ( long x : a ) t += " " + num( x );
    happens( t + " )" );
    check( &sch == s, "my_scheduler() is another scheduler" );
    check( !( h < ps[ id ].h ) && !( ps[ id ].h < h ), "my_handle() is not the handle that was returned" );
    user( id );
    if ( rnd( 9 ) == 0 ) { say( "  the constructor throws" ); ps[ id ].lives = false; throw id; }
    ++objects; enlist( b );
  }
  static void enlist( AM & m ) { extern void enlist_machine( AM & ); enlist_machine( m ); }
  template< class T > static void enlist( T & ) {}
};
#define CTORS( T, BASE ) \
  T( my_context c, int i ) : BASE( c ), id( i ) { common< T >::built( id, {}, *this, my_scheduler(), my_handle() ); } \
  template< class A > T( my_context c, int i, A & a ) : BASE( c ), id( i ) { common< T >::built( id, { val( a ) }, *this, my_scheduler(), my_handle() ); } \
  template< class A, class B > T( my_context x, int i, A & a, B & b ) : BASE( x ), id( i ) { common< T >::built( id, { val( a ), val( b ) }, *this, my_scheduler(), my_handle() ); } \
  template< class A, class B, class C > T( my_context x, int i, A & a, B & b, C & c ) : BASE( x ), id( i ) { common< T >::built( id, { val( a ), val( b ), val( c ) }, *this, my_scheduler(), my_handle() ); } \
  template< class A, class B, class C, class D > T( my_context x, int i, A & a, B & b, C & c, D & d ) : BASE( x ), id( i ) { common< T >::built( id, { val( a ), val( b ), val( c ), val( d ) }, *this, my_scheduler(), my_handle() ); } \
  template< class A, class B, class C, class D, class E > T( my_context x, int i, A & a, B & b, C & c, D & d, E & e ) : BASE( x ), id( i ) { common< T >::built( id, { val( a ), val( b ), val( c ), val( d ), val( e ) }, *this, my_scheduler(), my_handle() ); }
struct P0 : sc::event_processor< S >
{
  int id;
  P0( my_context c ) : sc::event_processor< S >( c ), id( -1 )
  {
    for ( size_t i = 0; i < ps.size(); ++i ) if ( !( my_handle() < ps[ i ].h ) && !( ps[ i ].h < my_handle() ) ) id = ( int )i;
    check( id >= 0, "my_handle() is not a handle that was returned" );
    common< P0 >::built( id, {}, *this, my_scheduler(), my_handle() );
  }
  CTORS( P0, sc::event_processor< S > )
  ~P0() { --objects; if ( id >= 0 && ps[ id ].counted ) happens( "destroy " + num( id ) ); }
  void initiate_impl() { happens( "initiate " + num( id ) ); user( id ); may_throw( id ); }
  void terminate_impl() { happens( "terminate " + num( id ) ); user( id ); may_throw( id ); }
  void process_event_impl( const sc::event_base & e )
  {
    happens( "event " + num( id ) + " " + num( static_cast< const Ev & >( e ).id ) ); user( id );
    if ( rnd( 3 ) == 0 && budget > 0 ) { --budget; some_op( -2 - id ); }
    may_throw( id );
  }
};
struct A;
struct AM : sc::asynchronous_state_machine< AM, A, S >
{
  typedef sc::asynchronous_state_machine< AM, A, S > base;
  int id;
  CTORS( AM, base )
  ~AM() { --objects; machines[ id ] = 0; if ( ps[ id ].counted ) happens( "destroy " + num( id ) ); }
};
struct A : sc::state< A, AM >
{
  typedef sc::custom_reaction< Ev > reactions;
  int id;
  A( my_context c ) : sc::state< A, AM >( c ), id( outermost_context().id ) { happens( "enter " + num( id ) ); user( id ); }
  ~A() { if ( !inend ) happens( "leave " + num( id ) ); }
  void exit() { happens( "exit " + num( id ) ); user( id ); }
  sc::result react( const Ev & e )
  {
    happens( "event " + num( id ) + " " + num( e.id ) ); user( id );
    AM & m = outermost_context();
    check( &m.my_scheduler() == s, "my_scheduler() of the machine" );
    if ( rnd( 3 ) == 0 && budget > 0 )
    {
      --budget; int n = ++serial; EP p( new Ev( n ) ); say( "  queues event " + num( n ) + " to itself" );
      q.push_back( op{ 3, id, n, p.get() } ); m.my_scheduler().queue_event( m.my_handle(), p );
    }
    if ( rnd( 12 ) == 0 )
    {
      say( "  " + num( id ) + " throws" );       // the machine is terminated without exit actions
      ps[ id ].active = false; want.push_back( "leave " + num( id ) ); throw id;
    }
    return discard_event();
  }
};
void enlist_machine( AM & m ) { machines[ m.id ] = &m; }
static void stop( int id ) { if ( machines[ id ] ) machines[ id ]->terminate(); }
template< class T > static H create( int id, int n, bool byref, bool number )
{
  std::vector< long > & a = ps[ id ].args;
  for ( int i = 0; i < n; ++i ) a.push_back( 100 + rnd( 1000 ) );
  if ( byref )
  {
    std::vector< X * > r; for ( long v : a ) { refs.push_back( new X{ v } ); r.push_back( refs.back() ); }
    using boost::ref;
    switch ( n )
    {
      case 1: return s->create_processor< T >( id, ref( *r[ 0 ] ) );
      case 2: return s->create_processor< T >( id, ref( *r[ 0 ] ), ref( *r[ 1 ] ) );
      case 3: return s->create_processor< T >( id, ref( *r[ 0 ] ), ref( *r[ 1 ] ), ref( *r[ 2 ] ) );
      case 4: return s->create_processor< T >( id, ref( *r[ 0 ] ), ref( *r[ 1 ] ), ref( *r[ 2 ] ), ref( *r[ 3 ] ) );
      case 5: return s->create_processor< T >( id, ref( *r[ 0 ] ), ref( *r[ 1 ] ), ref( *r[ 2 ] ), ref( *r[ 3 ] ), ref( *r[ 4 ] ) );
    }
  }
  switch ( n )
  {
    case 1: return s->create_processor< T >( id, a[ 0 ] );
    case 2: return s->create_processor< T >( id, a[ 0 ], a[ 1 ] );
    case 3: return s->create_processor< T >( id, a[ 0 ], a[ 1 ], a[ 2 ] );
    case 4: return s->create_processor< T >( id, a[ 0 ], a[ 1 ], a[ 2 ], a[ 3 ] );
    case 5: return s->create_processor< T >( id, a[ 0 ], a[ 1 ], a[ 2 ], a[ 3 ], a[ 4 ] );
  }
  return s->create_processor< T >( id );
}
static void some_op( int self )
{
  if ( inend ) return;
  unsigned r = rnd( 20 );
  if ( self <= -2 ) { self = -2 - self; r = 8; }
  std::string in = self >= 0 ? "  " : "";
  if ( r < 4 && ps.size() < 40 )
  {
    int id = ( int )ps.size(), n = rnd( 6 ); bool m = rnd( 2 ), byref = rnd( 2 ), plain = !m && rnd( 4 ) == 0;
    proc p; p.machine = m; p.lives = p.active = false; p.counted = true; ps.push_back( p );
    say( in + "create " + ( m ? "machine " : "processor " ) + num( id ) + " with " + num( plain ? 0 : n ) + " arguments" + ( byref ? " by reference" : "" ) );
    q.push_back( op{ 0, id, 0, 0 } );
    H h = plain ? s->create_processor< P0 >() : m ? create< AM >( id, n, byref, true ) : create< P0 >( id, n, byref, true );
    check( !h.expired(), "the handle of a processor to be created is expired" );
    ps[ id ].h = h;
    for ( int i = 0; i < id; ++i ) check( ( h < ps[ i ].h ) || ( ps[ i ].h < h ), "the same handle as that of " + num( i ) );
    return;
  }
  if ( r == 4 && rnd( 8 ) == 0 ) { say( in + "terminate()" ); q.push_back( op{ 5, -1, 0, 0 } ); s->terminate(); return; }
  if ( r == 6 && !ps.empty() && rnd( 2 ) )
  {
    int t = ( int )rnd( ( unsigned )ps.size() );
    if ( ps[ t ].machine )
    {
      say( in + "queue an item that calls terminate() of machine " + num( t ) ); q.push_back( op{ 2, t, 0, 0 } );
      S::work_item i = [ t ] { stop( t ); };
      s->queue_work_item( i ); return;
    }
  }
  if ( r == 5 && rnd( 2 ) )
  {
    int n = ++serial; say( in + "queue item " + num( n ) ); q.push_back( op{ 6, -1, n, 0 } );
    S::work_item i = [ n ] { happens( "item " + num( n ) ); user( -1 ); };
    if ( rnd( 2 ) ) s->queue_work_item( i ); else { const S::work_item & c = i; s->queue_work_item( c ); }
    return;
  }
  int t = ps.empty() || rnd( 15 ) == 0 ? -1 : ( int )rnd( ( unsigned )ps.size() );
  if ( self >= 0 && rnd( 2 ) ) t = self;
  H h; if ( t >= 0 ) h = ps[ t ].h;
  if ( t >= 0 && !ps[ t ].lives && !h.expired() )
  {
    bool waits = false; for ( const op & o : q ) waits = waits || ( o.kind == 0 && o.proc == t );
    if ( !waits && self < 0 ) fail( "the handle of " + num( t ) + ", which does not exist any more, is not expired" );
  }
  int k = r < 9 ? 3 : r < 14 ? 1 : r < 17 ? 2 : 4;
  int n = 0; EP e;
  if ( k == 3 ) { n = ++serial; e = new Ev( n ); }
  say( in + ( k == 1 ? "initiate " : k == 2 ? "terminate " : k == 3 ? "queue event " + num( n ) + " to " : "destroy " ) + num( t ) );
  q.push_back( op{ k, t, n, e.get() } );
  if ( k == 1 ) s->initiate_processor( h ); else if ( k == 2 ) s->terminate_processor( h );
  else if ( k == 3 ) s->queue_event( h, e ); else s->destroy_processor( h );
}
static void script( unsigned long seed )
{
  rs = seed * 7919 + 17; rnd( 7 ); trace.clear(); ps.clear(); q.clear(); want.clear(); ended = inend = false; serial = 0; budget = 30; events = objects = 0; for ( AM *& m : machines ) m = 0;
  for ( X * x : refs ) delete x;
  refs.clear();
  {
    S sch; s = &sch;
    for ( int n = 3 + rnd( 40 ); n--; )
    {
      if ( rnd( 5 ) ) { some_op( -1 ); continue; }
      unsigned long limit = rnd( 4 ) ? rnd( 5 ) : 0;
      say( "operator()( " + num( limit ) + " )" );
      popped = 0; bool over = ended;
      try
      {
        long got = ( long )sch( limit ); say( "returns " + num( got ) );
        check( want.empty(), want.empty() ? "" : "it returns although there remains: " + want.front() );
        check( popped <= got, num( popped ) + " operations were executed" );
        while ( popped < got && !ended && !q.empty() ) { step(); check( want.empty(), want.empty() ? "" : "not executed: " + want.front() ); }
        check( popped == got, num( popped ) + " operations were executed" );
        check( !limit || got <= ( long )limit, "the limit was " + num( limit ) );
        check( got == ( long )limit || ended || q.empty(), "it returns although an operation is waiting" );
      }
      catch ( int )
      {
        check( want.empty(), want.empty() ? "" : "it throws although there remains: " + want.front() );
      }
      check( !over || popped == 0, "operations executed after termination" );
      check( sch.terminated() == ended, "terminated()" );
      for ( size_t i = 0; i < ps.size(); ++i )
      {
        bool waits = false; for ( const op & o : q ) waits = waits || ( o.kind == 0 && o.proc == ( int )i );
        check( ps[ i ].h.expired() == !( waits || ps[ i ].lives ), "the handle of " + num( ( long )i ) + ( ps[ i ].h.expired() ? " is expired" : " is not expired" ) );
      }
      int n2 = 0; for ( const op & o : q ) n2 += o.kind == 3;
      check( events == n2, num( events ) + " event objects exist, " + num( n2 ) + " are waiting" );
    }
    say( "the scheduler is destroyed" );
    inend = true;
    for ( proc & p : ps ) p.counted = false;
  }
  check( objects == 0, num( objects ) + " processors are never destroyed" );
  check( events == 0, num( events ) + " event objects remain" );
}
#ifdef BOOST_HAS_THREADS
static std::atomic< int > progress;
static void threads( unsigned long seed )
{
  trace.clear();
  std::thread watchdog( [] {
    int last = progress;
    for ( int idle = 0; ; ) { std::this_thread::sleep_for( std::chrono::milliseconds( 20 ) );
      int p = progress; if ( p < 0 ) return; idle = p == last ? idle + 1 : 0; last = p;
      if ( idle > 250 ) fail( "the threads make no progress any more" ); } } );
  watchdog.detach();
  for ( int round = 0; round < 20; ++round )
  {
    say( "a scheduler that does not wait is run" );
    S one, two( false );
    check( one( 0 ) == 0 && two( 0 ) == 0 && one( 2 ) == 0 && two( 2 ) == 0, "items are executed though there are none" );
    ++progress;
    say( "round " + num( round ) + ": a scheduler that waits, a thread that runs it, a thread that queues 5 items, then terminates it" );
    S sch( true ); int seen = 0, early = 0; unsigned long total = 0;
    std::thread consumer( [ & ] {
      while ( !sch.terminated() ) { unsigned long limit = round % 3, got = sch( limit ); total += got; ++progress; early += !( got == limit || sch.terminated() ); } } );
    for ( int i = 0; i < 5; ++i )
    {
      if ( ( seed + round + i ) % 2 ) std::this_thread::sleep_for( std::chrono::microseconds( 500 ) );
      S::work_item it = [ & ] { ++seen; ++progress; };
      sch.queue_work_item( it );
    }
    sch.terminate(); consumer.join();
    check( seen == 5, "of 5 items " + num( seen ) + " were executed" );
    check( total == 6, "operator() reports " + num( ( long )total ) + " items" );
    check( !early, "a waiting run returns although it may execute more and the scheduler is not terminated" );
  }
  progress = -1;
  std::this_thread::sleep_for( std::chrono::milliseconds( 50 ) );
}
#endif
int main( int argc, char ** argv )
{
  unsigned long first = strtoul( argv[ 1 ], 0, 10 ), n = strtoul( argv[ 2 ], 0, 10 );
  live = argc > 3;
  for ( unsigned long x = first; x < first + n; ++x ) { printf( "== %lu\n", x ); fflush( stdout ); script( x );
#ifdef BOOST_HAS_THREADS
    if ( n == 1 || x == first ) threads( x );
#endif
  }
}
