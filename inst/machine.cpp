// state_machine<>: one machine over an arbitrary chart (states are opaque).
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/exception_translator.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/mpl/list.hpp>
#include "common.hpp"

struct E1 : sc::event< E1 > {};
struct M; struct A; struct A1;
#ifdef VC_TRANSLATOR
typedef sc::exception_translator<> translator;
#else
typedef sc::null_exception_translator translator;
#endif
extern "C" {
  void cb_unconsumed_event( M *, const sc::event_base * );
  void cb_user_exit( const void * );
  void cb_user_ctor( const void * );
  void cb_user_dtor( const void * ) noexcept;
}
struct M : sc::state_machine< M, A, VC_ALLOCATOR, translator >
{
  void unconsumed_event( const sc::event_base & e ) { cb_unconsumed_event( this, &e ); }
};
struct A : sc::simple_state< A, M, A1 >
{
  A() { cb_user_ctor( this ); } ~A() { cb_user_dtor( this ); } void exit() { cb_user_exit( this ); }
};
struct A1 : sc::simple_state< A1, A >
{
  A1() { cb_user_ctor( this ); } ~A1() { cb_user_dtor( this ); } void exit() { cb_user_exit( this ); }
};
template class sc::state_machine< M, A, VC_ALLOCATOR, translator >;
typedef M::state_base_type SB;

typedef sc::detail::leaf_state< VC_ALLOCATOR, sc::detail::rtti_policy > LEAF;
PROBE( M, queue, eventQueue_ ) PROBE( M, deferred, deferredEventQueue_ )
PROBE( M, states, currentStates_ ) PROBE( M, end, currentStatesEnd_ )
PROBE( M, outermost, pOutermostState_ ) PROBE( M, ico, isInnermostCommonOuter_ )
PROBE( M, ous, pOutermostUnstableState_ ) PROBE( M, full, performFullExit_ )
PROBE( M, shallow, shallowHistoryMap_ ) PROBE( M, deep, deepHistoryMap_ )
PROBE( M, trig, pTriggeringEvent_ )
PROBE( E1, count, count_ )
PROBE( A1, count, count_ ) PROBE( A1, deferred, deferredEvents_ )
PROBE( A1, listpos, listPosition_ )
PROBE( A, count, count_ ) PROBE( A, defflag, deferredEvents_ )
#ifndef BOOST_STATECHART_USE_NATIVE_RTTI
PROBE( E1, id, idProvider_ ) PROBE( A1, id, idProvider_ )
#endif
PROBE_SIZE( M ) PROBE_SIZE( E1 ) PROBE_SIZE( A1 ) PROBE_SIZE( A )

#include <new>
extern "C" void construct_M( void * p ) { ::new ( p ) M; }
extern "C" void destroy_M( M & m ) { m.M::~M(); ::operator delete( &m ); }
