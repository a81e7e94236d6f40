// fifo_scheduler<>, processor_container<>, event_processor<> with an arbitrary processor type.
#include <boost/statechart/asynchronous_state_machine.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/ref.hpp>
#include "common.hpp"
typedef sc::fifo_scheduler<> S;
struct X {};                  // passed by reference
extern "C" {
  void cb_construct0( void * );
  void cb_construct1( void *, long );
  void cb_construct2( void *, long, long );
  void cb_construct3( void *, long, long, long );
  void cb_construct4( void *, long, long, long, long );
  void cb_construct5( void *, long, long, long, long, long );
  void cb_construct6( void *, long, long, long, long, long, long );
}
// user code of a processor: its constructor looks at what it is given
inline long val( const X & x ) { return reinterpret_cast< long >( &x ); }
inline long val( long x ) { return x; }
#ifdef VC_ASYNC
struct A;
struct Proc;
typedef sc::asynchronous_state_machine< Proc, A, S > PB;
#define IMPL
#else
typedef sc::event_processor< S > PB;
#define IMPL void initiate_impl() {} void process_event_impl( const sc::event_base & ) {} void terminate_impl() {}
#endif
struct Proc : PB
{
  Proc( my_context c ) : PB( c ) { cb_construct0( this ); }
  template< class A > Proc( my_context c, A & a ) : PB( c ) { cb_construct1( this, val( a ) ); }
  template< class A, class B > Proc( my_context c, A & a, B & b ) : PB( c ) { cb_construct2( this, val( a ), val( b ) ); }
  template< class A, class B, class C > Proc( my_context x, A & a, B & b, C & c ) : PB( x )
  { cb_construct3( this, val( a ), val( b ), val( c ) ); }
  template< class A, class B, class C, class D > Proc( my_context x, A & a, B & b, C & c, D & d ) : PB( x )
  { cb_construct4( this, val( a ), val( b ), val( c ), val( d ) ); }
  template< class A, class B, class C, class D, class E > Proc( my_context x, A & a, B & b, C & c, D & d, E & e ) : PB( x )
  { cb_construct5( this, val( a ), val( b ), val( c ), val( d ), val( e ) ); }
  template< class A, class B, class C, class D, class E, class F > Proc( my_context x, A & a, B & b, C & c, D & d, E & e, F & f ) : PB( x )
  { cb_construct6( this, val( a ), val( b ), val( c ), val( d ), val( e ), val( f ) ); }
  IMPL
};
#ifdef VC_ASYNC
struct A : sc::simple_state< A, Proc > {};
extern "C" {
  void use_delete( sc::event_processor< S > * p ) { delete p; }
  void use_terminate( Proc * p ) { p->terminate(); }
  void use_self( Proc * p, const boost::intrusive_ptr< const sc::event_base > & e ) { p->my_scheduler().queue_event( p->my_handle(), e ); }
}
#endif
typedef S::processor_handle H;
typedef boost::reference_wrapper< X > RX;
template class sc::fifo_scheduler<>;
template class sc::event_processor< S >;
extern "C" {
  void use_create0( H * r, S & s ) { new ( r ) H( s.create_processor< Proc >() ); }
  void use_create1( H * r, S & s, long a ) { new ( r ) H( s.create_processor< Proc >( a ) ); }
  void use_create2( H * r, S & s, long a, long b ) { new ( r ) H( s.create_processor< Proc >( a, b ) ); }
  void use_create3( H * r, S & s, long a, long b, long c ) { new ( r ) H( s.create_processor< Proc >( a, b, c ) ); }
  void use_create4( H * r, S & s, long a, long b, long c, long d ) { new ( r ) H( s.create_processor< Proc >( a, b, c, d ) ); }
  void use_create5( H * r, S & s, long a, long b, long c, long d, long e ) { new ( r ) H( s.create_processor< Proc >( a, b, c, d, e ) ); }
  void use_create6( H * r, S & s, long a, long b, long c, long d, long e, long f ) { new ( r ) H( s.create_processor< Proc >( a, b, c, d, e, f ) ); }
  void use_refs1( H * r, S & s, X & a ) { new ( r ) H( s.create_processor< Proc >( boost::ref( a ) ) ); }
  void use_refs2( H * r, S & s, X & a, X & b ) { new ( r ) H( s.create_processor< Proc >( boost::ref( a ), boost::ref( b ) ) ); }
  void use_refs3( H * r, S & s, X & a, X & b, X & c ) { new ( r ) H( s.create_processor< Proc >( boost::ref( a ), boost::ref( b ), boost::ref( c ) ) ); }
  void use_refs4( H * r, S & s, X & a, X & b, X & c, X & d )
  { new ( r ) H( s.create_processor< Proc >( boost::ref( a ), boost::ref( b ), boost::ref( c ), boost::ref( d ) ) ); }
  void use_refs5( H * r, S & s, X & a, X & b, X & c, X & d, X & e )
  { new ( r ) H( s.create_processor< Proc >( boost::ref( a ), boost::ref( b ), boost::ref( c ), boost::ref( d ), boost::ref( e ) ) ); }
  void use_refs6( H * r, S & s, X & a, X & b, X & c, X & d, X & e, X & f )
  { new ( r ) H( s.create_processor< Proc >( boost::ref( a ), boost::ref( b ), boost::ref( c ), boost::ref( d ), boost::ref( e ), boost::ref( f ) ) ); }
}
typedef boost::detail::sp_counted_impl_p< std::remove_reference_t< decltype( *H().lock() ) > > CTL;
// the control block of a shared_ptr( new holder ); other ways to make one (make_shared) are taken to dispose of the holder alike
template class boost::detail::sp_counted_impl_p< std::remove_reference_t< decltype( *H().lock() ) > >;
PROBE( S, queue, worker_.workQueue_ ) PROBE( S, terminated, worker_.terminated_ ) PROBE( S, procs, container_.processorSet_ )
PROBE( CTL, use, use_count_ ) PROBE( CTL, weak, weak_count_ ) PROBE( CTL, px, px_ )
PROBE( H, px, px ) PROBE( H, pn, pn.pi_ )
typedef sc::event_processor< S > EPB;
PROBE( Proc, scheduler, myScheduler_ ) PROBE( EPB, scheduler, myScheduler_ )
#ifdef BOOST_HAS_THREADS
PROBE( S, mutex, worker_.mutex_ ) PROBE( S, cond, worker_.queueNotEmpty_ ) PROBE( S, waits, worker_.waitOnEmptyQueue_ )
#endif
PROBE_SIZE( S ) PROBE_SIZE( CTL ) PROBE_SIZE( H ) PROBE_SIZE( Proc )
struct E1 : sc::event< E1 > {};
PROBE( E1, count, count_ ) PROBE_SIZE( E1 )
extern "C" void use_event( const E1 & e ) { e.intrusive_from_this(); }
