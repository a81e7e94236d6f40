// Lemma functions: each states a law of real library functions as a bool function that must return true for every
// argument.  The verifier executes them symbolically, calling the real bodies; with VC_DRIVER they are run on
// concrete values (inst/lemmas_driver.hpp).
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/termination.hpp>
#include <boost/statechart/shallow_history.hpp>
#include <boost/statechart/deep_history.hpp>
#include "common.hpp"
#include <map>
#include <new>
#ifdef BOOST_STATECHART_USE_NATIVE_RTTI
typedef const std::type_info * ident;
static inline sc::detail::rtti_policy::id_type idof( ident i ) { return sc::detail::rtti_policy::id_type( *i ); }
static inline bool same( ident a, ident b ) { return *a == *b; }
#else
typedef const void * ident;
static inline sc::detail::rtti_policy::id_type idof( ident i ) { return i; }
static inline bool same( ident a, ident b ) { return a == b; }
#endif
#ifdef VC_DRIVER
template< class... A > static void lemma( const char * name, bool ( *f )( A... ) );
struct registration { template< class F > registration( const char * n, F f ) { lemma( n, f ); } };
#define LEMMA( name, args ) extern "C" bool name args; static registration reg_##name( #name, name ); extern "C" bool name args
#include "lemmas_driver.hpp"
#else
#define LEMMA( name, args ) extern "C" bool name args
#endif

// ---------------------------------------------------------------- a machine that instantiates the library
struct M; struct Outer; struct In0; struct In1; struct Other; struct In2;
static int alive;
struct E0 : sc::event< E0 > { long v; E0( long x ) : v( x ) { ++alive; } E0( const E0 & o ) : sc::event< E0 >( o ), v( o.v ) { ++alive; } ~E0() { --alive; } };
struct E1 : sc::event< E1 > { long v; E1() : v( 0 ) {} };
struct E2 : sc::event< E2 > { E2() {} };
struct M : sc::state_machine< M, Outer > {};
struct Outer : sc::simple_state< Outer, M, mpl::list< In0, In1 >, sc::has_full_history > {};
struct In0 : sc::simple_state< In0, Outer::orthogonal< 0 > > {};
struct In1 : sc::state< In1, Outer::orthogonal< 1 > > { In1( my_context c ) : my_base( c ) {} };
struct Other : sc::simple_state< Other, M, In2, sc::has_shallow_history > {};
struct In2 : sc::simple_state< In2, Other > {};

// ---------------------------------------------------------------- keys of the history maps
typedef sc::detail::history_key< sc::detail::rtti_policy > key;
typedef M::history_map_type::key_compare order;
static inline int b( bool x ) { return x ? 1 : 0; }

LEMMA( history_order_total, ( ident a, unsigned char ra, ident c, unsigned char rc ) )
{
  const key x( idof( a ), ra ), y( idof( c ), rc );
  const int lt = b( order()( x, y ) ), gt = b( order()( y, x ) ), eq = b( same( a, c ) && ra == rc );
  return lt + gt + eq == 1;
}
LEMMA( history_order_transitive, ( ident a, unsigned char ra, ident c, unsigned char rc, ident d, unsigned char rd ) )
{
  const key x( idof( a ), ra ), y( idof( c ), rc ), z( idof( d ), rd );
  if ( order()( x, y ) && order()( y, z ) )
  {
    return order()( x, z );
  }
  return true;
}
LEMMA( history_key_context, ( ident a, unsigned char ra ) )
{
  const key x( idof( a ), ra );
  const key y( x );
  return x.history_context_type() == idof( a ) && y.history_context_type() == idof( a ) && !order()( x, y ) && !order()( y, x );
}
static inline bool differ( const key & x, const key & y ) { return b( order()( x, y ) ) + b( order()( y, x ) ) == 1; }
LEMMA( history_keys_of_regions, () )
{
  const key k0( key::make_history_key< In0 >() ), k1( key::make_history_key< In1 >() ), t( key::make_history_key< In2 >() );
  const key again( key::make_history_key< In0 >() ), made( Outer::static_type(), 0 ), made1( Outer::static_type(), 1 );
  return differ( k0, k1 ) && differ( k0, t ) && differ( k1, t ) && !differ( k0, again ) && !differ( k0, made ) && !differ( k1, made1 ) &&
         k0.history_context_type() == Outer::static_type() && k1.history_context_type() == Outer::static_type() && t.history_context_type() == Other::static_type();
}

// ---------------------------------------------------------------- type identities
LEMMA( identity_equality, ( ident a, ident c ) )
{
  const bool eq = same( a, c );
  return ( idof( a ) == idof( c ) ) == eq && ( idof( a ) != idof( c ) ) == !eq;
}
#ifdef BOOST_STATECHART_USE_NATIVE_RTTI
LEMMA( identity_order, ( ident a, ident c ) )
{
  const sc::detail::rtti_policy::id_type x = idof( a ), y = idof( c );
  const bool eq = same( a, c ), lt = x < y;
  return b( lt ) + b( y < x ) + b( eq ) == 1 && ( x > y ) == ( y < x ) && ( x <= y ) == ( lt || eq ) && ( x >= y ) == !lt;
}
LEMMA( identity_order_transitive, ( ident a, ident c, ident d ) )
{
  return !( idof( a ) < idof( c ) && idof( c ) < idof( d ) ) || idof( a ) < idof( d );
}
#endif
template< class T > static inline sc::detail::rtti_policy::id_type dynamic( const T & t ) { return t.dynamic_type(); }
typedef Outer::state_base_type stbase;
LEMMA( identities_of_classes, () )
{
  // every class has one identity, of its own, and objects know the identity of their class
  const E1 e1; const E2 e2; const sc::event_base & v1 = e1, & v2 = e2;
  const In0 s0; const Other s1; const stbase & b0 = s0, & b1 = s1;
  return v1.dynamic_type() == E1::static_type() && v2.dynamic_type() == E2::static_type() && E1::static_type() != E2::static_type() &&
         b0.dynamic_type() == In0::static_type() && b1.dynamic_type() == Other::static_type() && In0::static_type() != Other::static_type() &&
         In0::static_type() != In1::static_type() && Outer::static_type() != In0::static_type() && E1::static_type() != In0::static_type();
}
LEMMA( identity_of_copies, ( long v ) )
{
  E0 e( v ); const E0 f( e ); const sc::event_base & g = f;
  e = f;
  const sc::event_base & h = e;
  return g.dynamic_type() == E0::static_type() && h.dynamic_type() == E0::static_type() && f.v == v && e.v == v;
}
#ifndef BOOST_STATECHART_USE_NATIVE_RTTI
LEMMA( custom_identities, ( const int * p, const char * q, const long * r, const int * u ) )
{
  // each class keeps its own last set identity, which its objects report through the base class
  In0::custom_static_type_ptr( q );
  In0::custom_static_type_ptr( u );
  In0::custom_static_type_ptr( p );
  Other::custom_static_type_ptr( q );
  E1::custom_static_type_ptr( p );
  E1::custom_static_type_ptr( r );
  E2::custom_static_type_ptr( u );
  const E1 e1; const E2 e2; const sc::event_base & v1 = e1, & v2 = e2;
  const In0 s0; const Other s1; const stbase & b0 = s0, & b1 = s1;
  const bool ok = In0::custom_static_type_ptr< int >() == p && Other::custom_static_type_ptr< char >() == q &&
    E1::custom_static_type_ptr< long >() == r && E2::custom_static_type_ptr< int >() == u &&
    v1.custom_dynamic_type_ptr< long >() == r && v2.custom_dynamic_type_ptr< int >() == u &&
    b0.custom_dynamic_type_ptr< int >() == p && b1.custom_dynamic_type_ptr< char >() == q;
  E1::custom_static_type_ptr( u );
  E2::custom_static_type_ptr( static_cast< const long * >( 0 ) );
  return ok && v1.custom_dynamic_type_ptr< int >() == u && E2::custom_static_type_ptr< long >() == 0 &&
    v2.custom_dynamic_type_ptr< char >() == 0 && In0::custom_static_type_ptr< int >() == p &&
    v1.dynamic_type() == E1::static_type() && b0.dynamic_type() == In0::static_type();
}
struct E3 : sc::event< E3 > {};
LEMMA( custom_identities_not_set, ( const long * p ) )
{
  const E3 e; const sc::event_base & b = e;
  bool ok = E3::custom_static_type_ptr< int >() == 0 && b.custom_dynamic_type_ptr< char >() == 0;
  E3::custom_static_type_ptr( p );
  ok = ok && E3::custom_static_type_ptr< long >() == p && b.custom_dynamic_type_ptr< long >() == p;
  E3::custom_static_type_ptr( static_cast< const int * >( 0 ) );
  return ok && b.custom_dynamic_type_ptr< int >() == 0;
}
#endif

// ---------------------------------------------------------------- results of reactions
LEMMA( result_is_passed_on, ( unsigned char n ) )
{
  const sc::detail::reaction_result r = static_cast< sc::detail::reaction_result >( n % 4 );
  sc::result a( sc::detail::result_utility::make_result( r ) );
  sc::result c( a );
  return sc::detail::result_utility::get_result( c ) == r;
}
LEMMA( results_of_reaction_functions, () )
{
  Other s; In0 t;
  return sc::detail::result_utility::get_result( s.discard_event() ) == sc::detail::do_discard_event &&
         sc::detail::result_utility::get_result( s.forward_event() ) == sc::detail::do_forward_event &&
         sc::detail::result_utility::get_result( t.discard_event() ) == sc::detail::do_discard_event;
}

// ---------------------------------------------------------------- reference counts and lifetime of events
struct C : sc::detail::counted_base< false > {};
struct CT : sc::detail::counted_base<> {};
template< class T > static inline bool counting( unsigned char n )
{
  // the count is the number of references; copies and assignments do not change it
  T x;
  bool ok = x.ref_count() == 0 && !x.ref_counted();
  x.add_ref();
  x.add_ref();
  if ( n & 1 ) x.add_ref();
  const long m = ( n & 1 ) ? 3 : 2;
  ok = ok && x.ref_count() == m && x.ref_counted();
  T y( x );
  ok = ok && y.ref_count() == 0 && x.ref_count() == m;
  y.add_ref();
  y = x;
  ok = ok && y.ref_count() == 1 && x.ref_count() == m;
  x = y;
  ok = ok && y.ref_count() == 1 && x.ref_count() == m && !x.release() && x.ref_count() == m - 1;
  if ( n & 1 ) ok = ok && !x.release();
  return ok && x.release() && !x.ref_counted() && y.release() && x.ref_count() == 0;
}
LEMMA( counting_states, ( unsigned char n ) ) { return counting< C >( n ); }
LEMMA( counting_events, ( unsigned char n ) ) { return counting< CT >( n ); }
typedef boost::intrusive_ptr< const sc::event_base > evptr;
LEMMA( event_on_the_stack_is_copied, ( long v ) )
{
  const int before = alive;
  bool ok = true;
  try
  {
    E0 e( v );
    {
      const evptr p( e.intrusive_from_this() );
      ok = p.get() != &e && e.ref_count() == 0 && p->ref_count() == 1 && p->dynamic_type() == E0::static_type() &&
           static_cast< const E0 * >( p.get() )->v == v && alive == before + 2;
      e.v = v + 1;
      ok = ok && static_cast< const E0 * >( p.get() )->v == v;
      const evptr q( p->intrusive_from_this() );
      ok = ok && q == p && q->ref_count() == 2 && alive == before + 2;
    }
    ok = ok && alive == before + 1;
  }
  catch ( const std::bad_alloc & ) {}
  return ok && alive == before;
}
LEMMA( counted_event_is_shared, ( long v ) )
{
  const int before = alive;
  bool ok = true;
  try
  {
    const boost::intrusive_ptr< E0 > e( new E0( v ) );
    ok = e->ref_count() == 1;
    {
      const evptr p( e->intrusive_from_this() );
      ok = ok && p.get() == e.get() && e->ref_count() == 2 && alive == before + 1;
    }
    ok = ok && e->ref_count() == 1 && e->v == v && alive == before + 1;
  }
  catch ( const std::bad_alloc & ) {}
  return ok && alive == before;
}

// ---------------------------------------------------------------- memory of events
static int taken, odd;
struct EA : sc::event< EA, vca::alloc< sc::none > >
{
  long v;
  EA( long x ) : v( x ) { ++alive; }
  EA( const EA & o ) : sc::event< EA, vca::alloc< sc::none > >( o ), v( o.v ) { if ( v == 3 ) throw 3; ++alive; }
  ~EA() { --alive; }
};
namespace vca
{
  template< class T > inline T * alloc< T >::allocate( std::size_t n ) { ++odd; return static_cast< T * >( ::operator new( n * sizeof( T ) ) ); }
  template< class T > inline void alloc< T >::deallocate( T * p, std::size_t ) noexcept { ++odd; ::operator delete( p ); }
  template<> inline EA * alloc< EA >::allocate( std::size_t n )
  {
    if ( n != 1 ) ++odd;
    EA * const p = static_cast< EA * >( ::operator new( sizeof( EA ) ) );
    ++taken;
    return p;
  }
  template<> inline void alloc< EA >::deallocate( EA * p, std::size_t n ) noexcept
  {
    if ( n != 1 ) ++odd;
    --taken;
    ::operator delete( p );
  }
}
LEMMA( memory_of_events, ( long v ) )
{
  // exactly the copies and the events made with new come from the allocator of the event class, and they go back there
  const int t0 = taken, o0 = odd, a0 = alive;
  bool ok = true;
  try
  {
    EA e( v );
    ok = taken == t0;
    const evptr p( e.intrusive_from_this() );
    ok = ok && taken == t0 + 1;
    {
      const evptr q( p->intrusive_from_this() ), r( e.intrusive_from_this() );
      ok = ok && taken == t0 + 2 && r != p && q == p;
    }
    ok = ok && taken == t0 + 1;
    EA * const n = new EA( v + 1 );
    ok = ok && taken == t0 + 2;
    delete n;
    const sc::event_base * const b = new EA( v + 2 );
    ok = ok && taken == t0 + 2;
    delete b;
    ok = ok && taken == t0 + 1;
    alignas( EA ) char place[ sizeof( EA ) ];
    EA * const x = new ( place ) EA( v );
    ok = ok && taken == t0 + 1 && static_cast< void * >( x ) == place;
    x->~EA();
  }
  catch ( const std::bad_alloc & ) {}
  catch ( ... ) { ok = v == 3; }
  return ok && taken == t0 && odd == o0 && alive == a0;
}
