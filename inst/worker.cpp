// fifo_worker<>: work items are arbitrary code (opaque).
#include <boost/statechart/asynchronous_state_machine.hpp>
#include <boost/statechart/fifo_worker.hpp>
#include "common.hpp"
typedef sc::fifo_worker<> W;
template class sc::fifo_worker<>;
PROBE( W, queue, workQueue_ ) PROBE( W, terminated, terminated_ )
#ifdef BOOST_HAS_THREADS
PROBE( W, mutex, mutex_ ) PROBE( W, cond, queueNotEmpty_ ) PROBE( W, waits, waitOnEmptyQueue_ )
#endif
PROBE_SIZE( W )
