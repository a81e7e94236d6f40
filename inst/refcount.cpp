// The reference count of an event that is shared between threads (BOOST_HAS_THREADS).
#include <boost/statechart/event.hpp>
#include "common.hpp"
struct E1 : sc::event< E1 > {};
PROBE( E1, count, count_ ) PROBE_SIZE( E1 )
extern "C" void add_reference( const sc::event_base & e ) { intrusive_ptr_add_ref( &e ); }
extern "C" void release_reference( const sc::event_base & e ) { intrusive_ptr_release( &e ); }
extern "C" const sc::event_base * share( const sc::event_base & e ) { return e.intrusive_from_this().detach(); }
extern "C" E1 * make() { return new E1; }
