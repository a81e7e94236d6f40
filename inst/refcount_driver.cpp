// Several threads share one event; every script runs under the thread sanitizer and counts destructions.
#include <boost/statechart/event.hpp>
#include <boost/intrusive_ptr.hpp>
#include <cstdio>
#include <cstdlib>
#include <atomic>
#include <thread>
#include <vector>
namespace sc = boost::statechart;
typedef boost::intrusive_ptr< const sc::event_base > ptr;
static unsigned long rs;
static unsigned rnd( unsigned n ) { rs = rs * 6364136223846793005ul + 1442695040888963407ul; return ( unsigned )( ( rs >> 33 ) % n ); }
static bool live;
static std::atomic< int > deleted, made;
struct E : sc::event< E >
{
  long v;
  E() : v( 42 ) { ++made; }
  E( const E & o ) : sc::event< E >( o ), v( o.v ) { ++made; }
  ~E() { v = 0; ++deleted; }
};
static void fail( const char * s, long a, long b ) { printf( "== FAIL\nWRONG: %s: %ld instead of %ld\n", s, a, b ); fflush( stdout ); _Exit( 1 ); }
static std::atomic< int > go;
static void work( ptr p, unsigned n )
{
  ++go; while ( go.load() > 0 && go.load() < 1000 ) {}
  std::vector< ptr > held;
  for ( unsigned i = 0; i < n; ++i )
  {
    held.push_back( i % 3 == 0 ? p->intrusive_from_this() : p );
    if ( held.back().get() != p.get() ) fail( "a shared event is copied, not shared; copies", 1, 0 );
    if ( i % 4 == 3 ) held.erase( held.begin(), held.begin() + 2 );
  }
  if ( static_cast< const E & >( *p ).v != 42 ) fail( "contents of a shared event", static_cast< const E & >( *p ).v, 42 );
  p.reset();                                        // held references (or other threads) keep it alive
}
static void script()
{
  deleted = 0; made = 0; go = 0;
  const unsigned threads = 2 + rnd( 2 ), n = rnd( 12 );
  if ( live ) { printf( "%u threads, each adds and drops %u references of one event\n", threads, n ); fflush( stdout ); }
  {
    ptr q;
    if ( rnd( 2 ) ) q = new E;
    else { E onstack; q = onstack.intrusive_from_this(); if ( made != 2 ) fail( "events made", made, 2 ); }
    const int before = deleted;
    std::vector< std::thread > ts;
    for ( unsigned i = 0; i < threads; ++i ) ts.emplace_back( work, q, n );
    if ( rnd( 2 ) ) q.reset();
    while ( go.load() < ( int )threads ) {}
    go = 1000;
    for ( auto & t : ts ) t.join();
    if ( q && deleted != before ) fail( "events deleted although a reference is held", deleted, before );
    if ( q && q->ref_count() != 1 ) fail( "reference count", q->ref_count(), 1 );
  }
  if ( deleted != made ) fail( "events deleted", deleted, made );
}
int main( int argc, char ** argv )
{
  long first = atol( argv[ 1 ] ), n = atol( argv[ 2 ] ); live = argc > 3;
  for ( long s = first; s < first + n; ++s )
  {
    printf( "== %ld\n", s ); fflush( stdout );
    rs = s * 2654435761ul + 12345; rnd( 2 ); script();
  }
}
