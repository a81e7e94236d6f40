// Concrete user code for the replay drivers: every callback traces itself and takes its decisions
// (post, throw, which result) from a pseudo random stream that the oracle reproduces.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <boost/intrusive_ptr.hpp>
namespace sc = boost::statechart;
namespace mpl = boost::mpl;
#include "alloc.hpp"
#ifdef VC_ALLOC
#define EVENT_PAD char pad[ 9000 ];
static const bool VC_ALLOC_ON = true;
#else
#define EVENT_PAD
static const bool VC_ALLOC_ON = false;
#endif
struct M;
typedef unsigned long long u64;
static u64 rngState;
inline unsigned rnd() { rngState = rngState * 6364136223846793005ULL + 1442695040888963407ULL; return unsigned( rngState >> 33 ); }
static char tr[ 1 << 18 ];
static unsigned trLen;
static bool live;                       // unbuffered
inline void flush() { std::fwrite( tr, 1, trLen, stdout ); std::fflush( stdout ); trLen = 0; }
inline void say( const std::string & s )
{
  if ( trLen + s.size() + 2 > sizeof( tr ) ) { flush(); std::printf( "ENDLESS\n" ); std::fflush( stdout ); std::_Exit( 4 ); }
  std::memcpy( tr + trLen, s.data(), s.size() );
  trLen += s.size();
  tr[ trLen++ ] = '\n';
  if ( live ) flush();
}
inline std::string num( long n ) { char b[ 32 ]; std::sprintf( b, "%ld", n ); return b; }
struct Fault { int n; };
static int faults, serials, postsLeft, throwsLeft, pPost, pThrow, pAlloc, stateBytes;
static bool armed, queued, entered;
struct Tracked
{
  Tracked() : serial( ++serials ), heap( true ) {}
  Tracked( const Tracked & o ) : serial( ++serials ), heap( true ) { say( "clone " + num( o.serial ) ); }
  ~Tracked() { if ( heap ) say( "delete " + num( serial ) ); }
  int serial; bool heap;
};
template< class T > const char * nm();
inline std::string evn( const sc::event_base * e )
{
  if ( e == 0 ) return "none";
  const Tracked * t = dynamic_cast< const Tracked * >( e );
  return t ? num( t->serial ) : "exception";
}
M * machine();
std::string trig();
void postRandom();
inline void maybePost() { if ( postsLeft > 0 && int( rnd() % 100 ) < pPost ) { --postsLeft; postRandom(); } }
inline void maybeThrow() { if ( throwsLeft > 0 && int( rnd() % 100 ) < pThrow ) { --throwsLeft; say( "  throws " + num( ++faults ) ); throw Fault{ faults }; } }
inline void act( const std::string & s ) { say( s + " during " + trig() ); maybePost(); maybeThrow(); }
template< class T > int ix();
static void * obj[ objCount ];          // the live object of every state class
template< class T > void cb_ctor( const T * p ) { act( std::string( "enter " ) + nm< T >() ); obj[ ix< T >() ] = const_cast< T * >( p ); }
template< class T > void cb_dtor( const T * ) { say( std::string( "destroy " ) + nm< T >() ); obj[ ix< T >() ] = 0; }
extern M * pMachine;
inline std::string who( const void * p )
{
  if ( p == 0 ) return "null";
  if ( p == pMachine ) return "M";
  for ( int i = 0; i < objCount; ++i ) if ( obj[ i ] == p ) return objName[ i ];
  return "?";
}
template< class T > void cb_look( const T * p, const void * q ) { say( std::string( "look from " ) + nm< T >() + ": " + ( q == p ? nm< T >() : who( q ) ) ); }
static std::string visited;
inline void cb_visit( const void * p ) { visited += " " + who( p ); }
inline void tell( const char * what, const std::string & s ) { say( std::string( "  " ) + what + " = " + s ); }
#define FACE( p ) most_derived( p )
template< class T > inline const void * most_derived( const T * p ) { return p ? dynamic_cast< const void * >( p ) : 0; }
inline void tell( const char * what, const void * p ) { tell( what, who( p ) ); }
inline void tell( const char * what, bool b ) { tell( what, std::string( b ? "yes" : "no" ) ); }
template< class T > void cb_exit( const T * ) { act( std::string( "exit " ) + nm< T >() ); }
template< class T > void cb_action( const T *, const sc::event_base * e ) { act( std::string( "action " ) + nm< T >() + " " + evn( e ) ); }
template< class T > int cb_react( const T *, const sc::event_base * e )
{
  act( std::string( "react " ) + nm< T >() + " " + evn( e ) );
  return int( rnd() % 6 );
}
template< class T > void cb_unconsumed_event( const T *, const sc::event_base * e ) { act( "unconsumed " + evn( e ) ); }
namespace boost
{
  void assertion_failed( char const * e, char const *, char const *, long ) { say( std::string( "ASSERTION " ) + e ); flush(); std::_Exit( 3 ); }
  void assertion_failed_msg( char const * e, char const *, char const * f, char const * g, long l ) { assertion_failed( e, f, g, l ); }
}
static long blocks;
// every block remembers its size and, when it comes from the user's allocator, the type it was allocated for
inline void * get( std::size_t n, const char * tag = 0 )
{
  if ( n > 3000 && n < 6000 && armed )
  {
    say( VC_ALLOC_ON && !tag ? "memory of a state from elsewhere" : "allocate" );
    if ( throwsLeft > 0 && int( rnd() % 100 ) < pAlloc ) { --throwsLeft; say( "  fails" ); throw std::bad_alloc(); }
    stateBytes += 1;
  }
  if ( VC_ALLOC_ON && n > 8000 && n < 12000 && armed && !tag ) say( "memory of an event from elsewhere" );
  ++blocks;
  void * p = std::malloc( n + 16 );
  if ( !p ) throw std::bad_alloc();
  static_cast< std::size_t * >( p )[ 0 ] = n;
  static_cast< const char ** >( p )[ 1 ] = tag;
  return static_cast< char * >( p ) + 16;
}
inline void put( void * p, const char * tag = 0, std::size_t count = 0 )
{
  if ( !p ) return;
  --blocks;
  char * q = static_cast< char * >( p ) - 16;
  std::size_t n = *reinterpret_cast< std::size_t * >( q );
  const char * from = reinterpret_cast< const char ** >( q )[ 1 ];
  if ( armed && ( tag != from && ( !tag || !from || std::strcmp( tag, from ) != 0 ) || tag && count != n ) )
  {
    const bool was = armed;
    armed = false;
    say( std::string( "memory for " ) + ( from ? from : "anything" ) + " (" + num( n ) + " bytes) is returned as memory for " + ( tag ? tag : "anything" ) + " (" + num( count ) + " bytes)" );
    armed = was;
  }
  if ( n > 3000 && n < 6000 && armed ) { stateBytes -= 1; say( "deallocate" ); }
  std::memset( q + 16, 0xdb, n );
  std::free( q );
}
static bool internalMemory[ 2 ];        // the allocator was asked for memory for queued events, for leaf states
#ifdef VC_ALLOC
#include <typeinfo>
namespace vca
{
  template< class T > T * alloc< T >::allocate( std::size_t n )
  {
    const char * const tag = typeid( T ).name();
    if ( std::strstr( tag, "event_base" ) ) internalMemory[ 0 ] = true;
    if ( std::strstr( tag, "leaf_state" ) ) internalMemory[ 1 ] = true;
    return static_cast< T * >( get( n * sizeof( T ), tag ) );
  }
  template< class T > void alloc< T >::deallocate( T * p, std::size_t n ) noexcept { put( p, typeid( T ).name(), n * sizeof( T ) ); }
}
#endif
void * operator new( std::size_t n ) { return get( n ); }
void operator delete( void * p ) noexcept { put( p ); }
void operator delete( void * p, std::size_t ) noexcept { put( p ); }
