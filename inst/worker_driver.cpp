// Runs pseudo random scripts on a real fifo_worker<> and compares with a reference model.
#include <boost/statechart/asynchronous_state_machine.hpp>
#include <boost/statechart/fifo_worker.hpp>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <vector>
#include <string>
#ifdef BOOST_HAS_THREADS
#include <thread>
#include <atomic>
#include <chrono>
#endif
namespace sc = boost::statechart;
typedef sc::fifo_worker<> W;
static unsigned long rs;
static unsigned rnd( unsigned n ) { rs = rs * 6364136223846793005ul + 1442695040888963407ul; return ( unsigned )( ( rs >> 33 ) % n ); }
static std::string trace;
static bool live;
static void say( const std::string & s ) { trace += "  " + s + "\n"; if ( live ) { puts( s.c_str() ); fflush( stdout ); } }
static std::string num( long v ) { return std::to_string( v ); }
[[noreturn]] static void fail( const std::string & s )
{
  say( "WRONG: " + s ); printf( "== FAIL\n%s", live ? "" : trace.c_str() ); fflush( stdout ); _Exit( 1 );
}
static void check( bool ok, const std::string & s ) { if ( !ok ) fail( s ); }

struct model { std::deque< int > q; bool term = false; };     // -1: termination, otherwise item number
struct item { int kind, more; };                              // 0 plain, 1 throws, 2 queues more, 3 terminates, 4 queries
static std::vector< item > items;
static W * w; static model * m; static std::vector< int > ran;
static void queue( int id );
static void terminate_both() { say( "terminate()" ); m->q.push_back( -1 ); w->terminate(); }
static void run_one( int id )
{
  while ( !m->q.empty() && m->q.front() == -1 ) { m->q.pop_front(); m->term = true; }
  say( "item " + num( id ) + " runs" );
  check( !m->term, "an item runs although the termination item has been executed" );
  check( !m->q.empty() && m->q.front() == id, m->q.empty() ? "no item is waiting" : "item " + num( m->q.front() ) + " is the oldest one" );
  check( !w->terminated(), "terminated() is true although the termination item was not executed" );
  m->q.pop_front(); ran.push_back( id );
  item it = items[ id ];
  for ( int i = 0; i < it.more; ++i ) { items.push_back( item{ ( int )rnd( 5 ) % 4, 0 } ); queue( ( int )items.size() - 1 ); }
  if ( it.kind == 3 ) terminate_both();
  if ( it.kind == 1 ) { say( "item " + num( id ) + " throws" ); throw id; }
}
static int copies;
struct probe
{
  int id; bool on;
  probe( int i ) : id( i ), on( true ) {} probe( const probe & o ) : id( o.id ), on( o.on ) {}
  void operator()() const { run_one( id ); }
};
static void queue( int id )
{
  W::work_item i = probe( id );
  if ( rnd( 2 ) )
  {
    say( "queue_work_item( item " + num( id ) + " )" ); m->q.push_back( id ); w->queue_work_item( i );
    check( i.empty(), "the item was not moved" );
    if ( rnd( 3 ) == 0 ) { say( "queue the moved-from item" ); w->queue_work_item( i ); }
  }
  else
  {
    say( "queue_work_item( const item " + num( id ) + " )" ); m->q.push_back( id );
    const W::work_item & c = i; w->queue_work_item( c );
    check( !i.empty(), "the item was not copied" );
  }
}
static void script( unsigned long seed )
{
  rs = seed * 7919 + 13; rnd( 7 ); trace.clear(); items.clear();
  W ww; model mm; w = &ww; m = &mm;
  check( !ww.terminated(), "a new worker is terminated" );
  for ( int n = 2 + rnd( 9 ); n--; )
  {
    unsigned r = rnd( 8 );
    if ( r < 4 ) { items.push_back( item{ ( int )rnd( 6 ), ( int )( rnd( 3 ) ? 0 : rnd( 3 ) ) } ); queue( ( int )items.size() - 1 ); }
    else if ( r == 4 && rnd( 3 ) == 0 ) terminate_both();
    else if ( r == 5 && rnd( 3 ) == 0 ) { say( "queue an empty item" ); W::work_item e; ww.queue_work_item( e ); }
    else
    {
      unsigned long limit = rnd( 4 ) ? rnd( 4 ) : 0;
      say( "operator()( " + num( limit ) + " )" );
      ran.clear();
      bool threw = false; unsigned long got = 0;
      std::deque< int > before = mm.q; bool tb = mm.term;
      size_t stops = 0;
      try { got = ww( limit ); } catch ( int ) { threw = true; }
      // termination items executed after the last ordinary one
      unsigned long left = limit ? limit : ~0ul;
      if ( !threw )
      {
        unsigned long executed = ran.size();
        for ( int x : before ) { if ( x == -1 ) { ++stops; } }
        unsigned long termrun = ( !tb && mm.term ) ? 1 : 0;
        while ( !mm.term && !mm.q.empty() && mm.q.front() == -1 && executed + termrun < left ) { mm.q.pop_front(); mm.term = true; ++termrun; }
        executed += termrun;
        say( "returns " + num( ( long )got ) );
        check( got == executed, num( ( long )executed ) + " items were executed" );
        check( executed <= left, "the limit is " + num( ( long )limit ) );
        check( executed == left || mm.term || mm.q.empty(), "it returns although an item is waiting" );
      }
      check( ww.terminated() == mm.term, std::string( "terminated() is " ) + ( mm.term ? "false" : "true" ) );
    }
  }
}
#ifdef BOOST_HAS_THREADS
static std::atomic< int > progress;
// spurious wake-ups, which condition variables are allowed to have (compiled without access control)
template< class X > auto wake( X & x, int ) -> decltype( x.queueNotEmpty_.notify_all(), void() ) { x.queueNotEmpty_.notify_all(); }
template< class X > void wake( X &, long ) {}
static void threads( unsigned long seed )
{
  rs = seed * 104729 + 7; rnd( 3 ); trace.clear();
  std::thread watchdog( [] {
    int last = progress;
    for ( int idle = 0; ; ) { std::this_thread::sleep_for( std::chrono::milliseconds( 20 ) );
      int p = progress; if ( p < 0 ) return; idle = p == last ? idle + 1 : 0; last = p;
      if ( idle > 250 ) fail( "the threads make no progress any more (an item waits in the queue, a thread waits for the lock or for an item)" ); } } );
  watchdog.detach();
  {
    say( "one producer queues the next item whenever the blocking consumer has run out of them" );
    W ww( true ); std::atomic< int > done( 0 );
    std::thread consumer( [ & ] { ww(); } );
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds( 5 );
    for ( int i = 0; i < 100000 && std::chrono::steady_clock::now() < end; ++i )
    {
      W::work_item it = [ & ] { ++done; ++progress; };
      ww.queue_work_item( it );
      while ( done <= i ) {}
      for ( volatile int k = i % 400; k > 0; ) k = k - 1;
    }
    ww.terminate(); consumer.join();
  }
  for ( int round = 0; round < 40; ++round )
  {
    W ww( true ); std::vector< int > seen[ 3 ]; int per = 1 + rnd( 30 ), pause = rnd( 3 ); bool thrower = rnd( 2 );
    say( "round " + num( round ) + ": 3 producers with " + num( per ) + " items each, one blocking consumer" + ( thrower ? ", items may throw" : "" ) );
    std::atomic< unsigned long > total( 0 );
    std::thread consumer( [ & ] { while ( !ww.terminated() ) { try {
      unsigned long limit = rnd( 3 ) ? 0 : 3, got = ww( limit ); total += got;
      check( got == limit || ww.terminated(), "a blocking run returns although it may execute more and the worker is not terminated" ); } catch ( int ) { ++total; } ++progress; } } );
    std::vector< std::thread > ps;
    for ( int p = 0; p < 3; ++p )
      ps.push_back( std::thread( [ &, p ] {
        for ( int i = 0; i < per; ++i )
        {
          if ( pause == 2 && i % 4 == 0 ) std::this_thread::sleep_for( std::chrono::microseconds( 300 ) );
          W::work_item it = [ &, p, i ] {
            seen[ p ].push_back( i ); ++progress;
            if ( i % 7 == 3 ) { std::thread t( [ & ] { W::work_item e; ww.queue_work_item( e ); W::work_item x = [] {}; ww.queue_work_item( x ); } ); t.join(); }
            if ( thrower && i % 5 == 2 ) throw i;
          };
          ww.queue_work_item( it ); ++progress;
        } } ) );
    if ( round % 2 ) for ( int i = 0; i < 20; ++i ) { wake( ww, 0 ); std::this_thread::sleep_for( std::chrono::microseconds( 100 ) ); }
    for ( auto & t : ps ) t.join();
    if ( round % 2 ) for ( int i = 0; i < 5; ++i ) { wake( ww, 0 ); std::this_thread::sleep_for( std::chrono::microseconds( 100 ) ); }
    std::this_thread::sleep_for( std::chrono::microseconds( pause ? 500 : 0 ) );
    say( "terminate()" );
    ww.terminate();
    consumer.join();
    for ( int p = 0; p < 3; ++p )
    {
      check( ( int )seen[ p ].size() == per, "of " + num( per ) + " items of a producer " + num( ( long )seen[ p ].size() ) + " were executed" );
      for ( int i = 0; i < per; ++i ) check( seen[ p ][ i ] == i, "items of one producer run out of order" );
    }
  }
  progress = -1;
  std::this_thread::sleep_for( std::chrono::milliseconds( 50 ) );
}
#endif
int main( int argc, char ** argv )
{
  unsigned long first = strtoul( argv[ 1 ], 0, 10 ), n = strtoul( argv[ 2 ], 0, 10 );
  live = argc > 3;
  for ( unsigned long s = first; s < first + n; ++s )
  {
    printf( "== %lu\n", s ); fflush( stdout );
    script( s );
#ifdef BOOST_HAS_THREADS
    if ( n == 1 || s == first ) threads( s );
#endif
  }
}
