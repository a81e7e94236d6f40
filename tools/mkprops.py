"""writes properties.jsonl"""
import json
I = "include/boost/statechart/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    if len(title) > 80: print(title)
    a = {"files": [I + f for f in files], "mechanism": [{"name": n, "where": I + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


p("C01", "An event visits active states innermost-first until a reaction consumes it",
  "A dispatched event is offered to the active innermost states in turn; for each, to that state's reactions in listed order and, only while they forward it, to the next outer state up to the outermost one. The first reaction that does not forward ends the search, at most one reaction consumes an event, and an event that nobody consumes reaches the machine's unconsumed-event hook exactly once.",
  ["inputs", "histories", "configurations"],
  "Every event, every reachable configuration of active states (any number of orthogonal regions, in any internal order) and every outcome of user reactions.",
  "Tests dispatch a few dozen events in fixed charts; the search order over arbitrary configurations and reaction outcomes is unbounded.",
  ["state_machine.hpp", "simple_state.hpp", "detail/reaction_dispatcher.hpp", "custom_reaction.hpp", "result.hpp"],
  [("dispatch of one event", "state_machine.hpp: send_event"), ("reaction search in a state and its outer states", "simple_state.hpp: react_impl, local_react"),
   ("matching of event type and reaction", "detail/reaction_dispatcher.hpp")],
  [("list of active innermost states", "those before the end position are active")], ["reaction callbacks", "unconsumed_event"])
p("C02", "Run to completion: posted events are processed one at a time in FIFO order",
  "An event posted while the machine is processing is handled only after the current event has been processed completely, and posted events are handled in exactly the order in which they were posted, each exactly once. A process or initiate call returns only when no posted event is left.",
  ["histories", "inputs"], "Every sequence of posts from any user callback, any queue length and any outcome of each reaction.",
  "Queue length and the interleaving of posts with reactions are unbounded; tests post one or two events.",
  ["state_machine.hpp", "simple_state.hpp"],
  [("queue processing loop", "state_machine.hpp: process_queued_events"), ("entry points", "state_machine.hpp: process_event, initiate"),
   ("posting", "state_machine.hpp: post_event, post_event_impl; simple_state.hpp: post_event")], [("event queue", "posted, not yet processed events, oldest first")], ["reaction callbacks"])
p("C03", "Deferred events return in order and ahead of the queue on the deferring exit",
  "An event whose reaction defers it is retained, and no state sees it again until a state that deferred is left. At that moment every retained event is put, in its original order, before all events waiting to be processed; none is lost, duplicated or reordered.",
  ["histories", "inputs"], "Every history of deferrals, posts and state exits, with any number of retained and queued events.",
  "The tests cover a handful of deferral scenarios with at most a few events; relative order needs long, mixed histories.",
  ["state_machine.hpp", "simple_state.hpp", "deferral.hpp"],
  [("retaining", "state_machine.hpp: process_event, process_queued_events"), ("release on exit", "state_machine.hpp: release_events; simple_state.hpp: ~simple_state"),
   ("marking the deferring state", "simple_state.hpp: defer_event")], [("deferred queue", "retained events, oldest first")], ["reaction callbacks"])
p("C04", "A transition exits, acts once and enters around the innermost common context",
  "A transition leaves exactly the active states inside the innermost context common to its source and its destination, then runs the transition action once with the triggering event, and then enters exactly the states from that context down to the destination and its initial inner states. States outside that context are not touched, and nothing of a later step happens before an earlier step has finished.",
  ["configurations", "inputs", "histories"],
  "Every source, destination and active configuration, including self transitions, transitions to inner and outer states and to histories, with and without actions.",
  "The transition tests walk one fixed chart; the guarantee quantifies over all source, destination and configuration combinations and all callback outcomes.",
  ["simple_state.hpp", "transition.hpp", "state_machine.hpp", "detail/constructor.hpp"],
  [("transition algorithm", "simple_state.hpp: transit_impl"), ("reaction", "transition.hpp: react"), ("leaving", "state_machine.hpp: terminate_as_part_of_transit"),
   ("entering", "detail/constructor.hpp, simple_state.hpp: deep_construct")], [], ["constructors, exit functions, destructors and actions of states"])
p("C05", "States are entered outermost first, depth first, region by region",
  "On entry every context is constructed before the states inside it; the regions of a state are entered completely one after the other in ascending order, each in its designated state if the entry has one there and in its initial state otherwise. Each entered state is constructed exactly once and is then an active state of the machine.",
  ["configurations", "inputs"], "Every chart shape and every entry: initiation, transitions into nested states, into several regions and through histories.",
  "Tests assert entry order for single charts; order over arbitrary nesting, regions and destinations is not enumerable.",
  ["simple_state.hpp", "state.hpp", "detail/constructor.hpp", "state_machine.hpp"],
  [("recursive entry", "simple_state.hpp: deep_construct, deep_construct_inner, shallow_construct"), ("designated path", "detail/constructor.hpp"),
   ("registration", "state_machine.hpp: add, add_impl; simple_state.hpp: add_inner_state")], [], ["state constructors"])
p("C06", "States are left innermost first, last region first, exit before destructor",
  "When a set of nested active states is left, no state is left before all states inside it, orthogonal regions are left in descending order, and each state left is destroyed exactly once, immediately after its exit action has run. No state keeps existing afterwards and no other state is left.",
  ["configurations", "histories"], "Every active configuration, whatever order the states became active in, for transitions, termination and destruction of the machine.",
  "Exit order depends on how the active states were reached (their order in memory), which tests with fixed sequences do not vary.",
  ["state_machine.hpp", "simple_state.hpp", "detail/leaf_state.hpp", "detail/node_state.hpp"],
  [("leaving a subtree", "detail/node_state.hpp, detail/leaf_state.hpp: remove_from_state_list"), ("exit of one state", "simple_state.hpp: exit_impl"),
   ("choice of what to leave", "state_machine.hpp: terminate_impl")], [("state list", "active innermost states; position remembered by each")], ["exit functions and destructors"])
p("C07", "Terminating and (re)initiating always lead to a clean, consistent machine",
  "Terminating a machine leaves no active state, no waiting event and no stored history, however it was running; a machine whose last state is terminated reports itself as terminated. Initiating first terminates a running machine and then enters exactly the initial configuration, so there is never more than one outermost state.",
  ["histories", "fault_sequences", "configurations"], "Every history before the call, including user callbacks that throw during it and reactions that handle those exceptions.",
  "Tests terminate and re-initiate from a few orderly states; combinations with exceptions and reactions to them are not sampled.",
  ["state_machine.hpp", "simple_state.hpp", "termination.hpp"],
  [("initiate and terminate", "state_machine.hpp: initiate, terminate, terminate_impl, ~state_machine"), ("termination reaction", "termination.hpp; state_machine.hpp: terminate_as_reaction")],
  [("outermost state", "null iff terminated")], ["terminated()", "state_begin(), state_end()"])
p("C08", "An exception is handled fully, or ends the machine and reaches the caller",
  "An exception leaving user code during entry, exit, an action or a reaction is, with a translating machine, delivered once as an event to the outermost unstable state, or to the innermost state whose reaction threw. If that event is consumed and the machine is stable again processing continues as after any other event; in every other case all states are destroyed and the original exception reaches the caller.",
  ["fault_sequences", "histories", "configurations"], "Every point at which user code or the allocation of a state can fail, in every configuration, including failures while handling a failure.",
  "The exception test throws from a dozen chosen places; faults can occur at every callback in every configuration, also nested.",
  ["state_machine.hpp", "exception_translator.hpp", "null_exception_translator.hpp", "simple_state.hpp"],
  [("translation", "exception_translator.hpp"), ("delivery and verdict", "state_machine.hpp: handle_exception_event, terminator"), ("unstable state", "state_machine.hpp: pOutermostUnstableState_ handling")],
  [("outermost unstable state", "outermost active state whose inner states are incomplete")], ["exceptions reaching the caller", "exception_thrown reactions"])
p("C09", "Exit actions are suppressed exactly while an exception is being dealt with",
  "No exit action runs between the moment user code throws and the moment a reaction to the resulting exception event has completed or the machine has been destroyed; the states left meanwhile are only destructed. Afterwards exit actions run again on every later exit.",
  ["fault_sequences", "histories"], "Every fault position, every reaction to the exception event and every later sequence of operations on the same machine.",
  "Requires observing every exit after every possible failure, including machines reused after destruction.",
  ["state_machine.hpp", "simple_state.hpp"],
  [("switch", "state_machine.hpp: handle_exception_event, terminate_impl"), ("use", "simple_state.hpp: exit_impl; state_machine.hpp: exit_impl")],
  [("full-exit flag", "true unless an exception is pending")], ["exit functions"])
p("C10", "Shallow history re-enters the direct inner state that was active last",
  "Entering through a shallow history enters, in that region, the direct inner state that was last active there when the region was left by a normal exit, in its initial inner configuration, or the default state if there is no such record. Every region has its own record, and records survive any other activity of the machine except clearing and termination.",
  ["histories", "configurations"], "Every history of exits and entries; histories as initial states, as destinations and with any default state.",
  "Records depend on the whole past of the machine; tests replay one sequence per history kind.",
  ["state_machine.hpp", "simple_state.hpp", "shallow_history.hpp", "history.hpp"],
  [("recording", "simple_state.hpp: check_store_shallow_history; state_machine.hpp: store_shallow_history"), ("restoring", "state_machine.hpp: construct_with_shallow_history; detail/constructor.hpp")],
  [("shallow history table", "per outer state and region the state to re-enter")], ["state constructors"])
p("C11", "Deep history re-enters the complete innermost configuration that was active last",
  "Entering through a deep history re-establishes, in that region, the innermost state that was last active there when the region was left by a normal exit, with all its contexts, or the default state if there is no such record. Every region has its own record, and records survive any other activity of the machine except clearing and termination.",
  ["histories", "configurations"], "Every history of exits and entries; histories as initial states, as destinations and with any default state, at any nesting depth.",
  "Records depend on the whole past of the machine; tests replay one sequence per history kind.",
  ["state_machine.hpp", "simple_state.hpp", "deep_history.hpp", "history.hpp"],
  [("recording", "simple_state.hpp: check_store_deep_history, store_deep_history_impl; state_machine.hpp: store_deep_history"), ("restoring", "state_machine.hpp: construct_with_deep_history; detail/constructor.hpp")],
  [("deep history table", "per outer state and region the innermost state to re-enter")], ["state constructors"])
p("C12", "Clearing a history makes exactly that history fall back to its default",
  "After clearing the shallow or deep history of a region, entering through that history enters the default state until a new record is made; all other records are unaffected. Terminating the machine clears every history.",
  ["histories", "inputs"], "Every state of the two history tables and every region.",
  "Tests clear one history in one situation; independence of all other entries is a statement about every table.",
  ["state_machine.hpp", "simple_state.hpp"],
  [("clearing", "simple_state.hpp: clear_shallow_history, clear_deep_history; state_machine.hpp: clear_shallow_history, clear_deep_history"), ("termination", "state_machine.hpp: terminate_impl")], [("history tables", "per outer state and region the state to re-enter")])
p("C13", "state_cast and state_downcast find the active state of the requested type",
  "A query for a state type returns the active state of that type, searching every active innermost state and all its outer states, wherever it is in the machine. When no active state matches, a pointer query yields null and a reference query throws std::bad_cast; asking never changes the machine.",
  ["configurations", "inputs", "histories"], "Every requested type and every active configuration.",
  "Tests query selected states of one chart in a few configurations.",
  ["state_machine.hpp", "simple_state.hpp", "detail/rtti_policy.hpp", "detail/state_base.hpp"],
  [("search", "state_machine.hpp: state_cast, state_downcast, state_cast_impl"), ("outer states", "detail/state_base.hpp: outer_state_ptr"), ("identity", "detail/rtti_policy.hpp")])
p("C14", "State iteration and terminated() describe exactly the active configuration",
  "Whenever the machine is not inside a transition, iterating over it visits every active innermost state exactly once and nothing else, following outer-state links from there reaches exactly the other active states, and the machine counts as terminated exactly when there is none. Every active innermost state lies in a different region, and every context of an active state is active.",
  ["histories", "configurations", "fault_sequences"], "Every reachable state of the machine, after any history of operations and handled or unhandled exceptions.",
  "It is an invariant over all histories; tests check the iteration at a few points of one chart.",
  ["state_machine.hpp", "detail/state_base.hpp", "detail/leaf_state.hpp", "detail/node_state.hpp", "simple_state.hpp"],
  [("iteration", "state_machine.hpp: state_iterator, state_begin, state_end, terminated"), ("maintenance", "state_machine.hpp: add_impl, terminate_impl; detail/leaf_state.hpp")],
  [("state list", "active innermost states before the end position")], ["state_begin(), state_end()", "terminated()", "outer_state_ptr()"])
p("C15", "triggering_event() names the event being processed, and nothing otherwise",
  "During every callback made while an event is processed, the machine reports that event as the triggering event; during initiation and termination and between calls it reports none. The report is correct again after nested processing of exceptions and after calls that end by throwing.",
  ["histories", "fault_sequences"], "Every callback in every history, including exceptions at any callback.",
  "Correct restoration must hold at every exit path; the test checks it in a few orderly callbacks.",
  ["state_machine.hpp", "simple_state.hpp"],
  [("set and restore", "state_machine.hpp: send_event, initiate, terminate, handle_exception_event, terminator"), ("query", "state_machine.hpp, simple_state.hpp: triggering_event")], [("triggering event", "event being processed or null")])
p("C16", "Posted and deferred events live exactly as long as they are needed",
  "An event handed to the machine stays alive while it is queued, retained or being processed and is destroyed exactly once afterwards; the reference count always equals the number of holders. An event that is not yet reference-counted is copied exactly once when it has to be kept, and a reference-counted event is shared, not copied.",
  ["histories", "inputs", "fault_sequences"], "Every history of posting, deferring, processing, clearing and throwing, and every initial reference count.",
  "Leaks, double deletes and premature deletes appear only on particular paths; tests do not count references.",
  ["event_base.hpp", "event.hpp", "state_machine.hpp", "detail/counted_base.hpp"],
  [("sharing or copying", "event_base.hpp: intrusive_from_this; event.hpp: clone"), ("reference counting", "detail/counted_base.hpp; event_base.hpp: intrusive_ptr_add_ref, intrusive_ptr_release"), ("holders", "state_machine.hpp: process_event, process_queued_events, post_event")], [("reference count", "number of counted pointers to the event")])
p("C17", "Every state object is created and destroyed exactly once and never used after",
  "For every state that is entered exactly one object is allocated and constructed, and for every state that is left, or whose entry fails, that object is destroyed and its memory released exactly once. The library touches no state object after its destruction, and contexts stay valid as long as any state inside them exists.",
  ["histories", "fault_sequences", "configurations"], "Every history, including exceptions from constructors, exit actions and reactions and failing allocations at every point.",
  "Memory errors hide on failure paths that tests do not take; allocation failure is never tested.",
  ["simple_state.hpp", "state.hpp", "detail/memory.hpp", "detail/counted_base.hpp", "detail/constructor.hpp", "detail/node_state.hpp", "detail/leaf_state.hpp"],
  [("allocation", "detail/memory.hpp; simple_state.hpp: operator new, shallow_construct"), ("ownership", "simple_state.hpp: intrusive_ptr_release, exit_impl, deep_construct"), ("failure", "detail/constructor.hpp")], [("reference count", "one per inner state or list entry")])
p("C18", "Every reaction result reports truthfully what happened to the event",
  "Each way of ending a reaction (forwarding, discarding, deferring, transiting, terminating) yields exactly its own outcome, and the machine acts on that outcome: only forwarded events reach outer states and only deferred ones are retained. A result is used exactly once; copying it transfers it.",
  ["inputs", "programs"], "Every kind of reaction in every state, chosen at run time.",
  "Outcomes are combined with configurations by user code at run time; tests fix one outcome per reaction.",
  ["result.hpp", "simple_state.hpp", "custom_reaction.hpp", "deferral.hpp", "termination.hpp", "transition.hpp", "in_state_reaction.hpp"],
  [("results", "result.hpp"), ("producers", "simple_state.hpp: forward_event, discard_event, defer_event, transit, terminate")])
p("C19", "context<>() and outermost_context() give the actual enclosing object",
  "From any active state, asking for an enclosing state or machine type returns the very object that currently contains the state, at any nesting depth and in every region; asking for the state itself returns it. The answer is already correct inside the constructor of states that receive their context and inside exit actions.",
  ["configurations", "programs"], "Every pair of state and enclosing type in every configuration.",
  "Tests access a few contexts; correctness for every pair and depth is structural.",
  ["simple_state.hpp", "state.hpp", "state_machine.hpp"],
  [("context access", "simple_state.hpp: context, context_impl, outermost_context"), ("establishing the link", "state.hpp; simple_state.hpp: set_context")])
p("C20", "Type identity of events and states is exact, in both RTTI modes",
  "Two objects report the same dynamic type exactly if they were created from the same event or state class, with native and with built-in type information; a reaction for an event type fires for exactly that type and a reaction for the base type for every event. A custom type id is returned exactly as it was set, independently for every class.",
  ["inputs", "configurations", "programs"], "Every pair of classes, both type-information modes and every custom id.",
  "A statement over all pairs of types; tests compare a few.",
  ["detail/rtti_policy.hpp", "detail/reaction_dispatcher.hpp", "event.hpp", "simple_state.hpp"],
  [("identity", "detail/rtti_policy.hpp: dynamic_type, static_type, custom_dynamic_type_ptr"), ("matching", "detail/reaction_dispatcher.hpp")])
p("C21", "A FIFO worker runs queued work items once each, in order, up to the given limit",
  "Work items are executed one at a time, in the order in which they were queued, each exactly once. A run executes no more items than its limit allows, reports exactly how many it executed, ends when there is nothing to do or the worker is terminated, and executes nothing after termination has taken effect.",
  ["histories", "inputs", "schedules"], "Every queue length, limit, item behaviour (queuing, terminating, throwing) and both blocking modes.",
  "Loop counts and queue lengths are unbounded and items may change the queue while it is processed; tests run a few items.",
  ["fifo_worker.hpp", "fifo_scheduler.hpp"],
  [("run loop", "fifo_worker.hpp: operator()"), ("queueing", "fifo_worker.hpp: queue_work_item, dequeue_item, terminate")], [("work queue", "items waiting, oldest first"), ("terminated flag", "set by the termination item")])
p("C22", "A FIFO worker touches shared data only under its lock, not held while items run",
  "Every access to the queue of work items of a multi-threaded worker happens while its lock is held, each queueing or dequeueing is one critical section, the lock is released on every path, and no user code runs under it. The termination flag is only touched by the thread that runs the items. A blocking worker that finds its queue empty waits instead of spinning, and every queued item wakes a waiting thread.",
  ["schedules", "fault_sequences"], "Every interleaving of threads queueing, terminating and executing, and every exception leaving a work item.",
  "Schedules cannot be enumerated by tests; a missing lock shows up only under rare interleavings.",
  ["fifo_worker.hpp"],
  [("locking", "fifo_worker.hpp: queue_work_item, dequeue_item, terminate, terminated, operator()")], [("mutex", "protects queue and flag")])
p("C23", "A scheduler delivers each operation, in order, to the right live processor",
  "Creating, initiating, terminating and destroying processors and queueing events is executed in the order of the calls on exactly the processor the handle denotes, with the construction arguments and the event given. Operations on a processor that no longer exists have no effect, and distinct processors never get the same live handle.",
  ["histories", "inputs"], "Every sequence of operations on any number of processors with any arguments.",
  "Handles, lifetimes and operation order combine freely; the scheduler test follows one script.",
  ["fifo_scheduler.hpp", "processor_container.hpp"],
  [("operations as work items", "fifo_scheduler.hpp"), ("processor table", "processor_container.hpp")], [("processor set", "live processors"), ("handle", "weak reference to a processor slot")])
p("C24", "An asynchronous machine does exactly what the synchronous machine does",
  "Initiating, terminating and processing an event on an asynchronous machine performs exactly one corresponding operation of the underlying state machine, and destroying it ends it. An event queued by a machine to itself goes through its scheduler to that same machine.",
  ["inputs", "histories"], "Every operation and event.",
  "Tests exercise one machine; forwarding must hold for every operation and argument.",
  ["asynchronous_state_machine.hpp", "event_processor.hpp"],
  [("forwarding", "asynchronous_state_machine.hpp: initiate_impl, terminate_impl, process_event_impl"), ("front", "event_processor.hpp")])
p("C25", "In-state reactions run their action once and change no state",
  "An in-state reaction invokes its action exactly once, on the designated context object and with the triggering event, enters and leaves no state, and consumes the event. An in-state reaction without an action consumes the event and does nothing else.",
  ["configurations", "inputs"], "Every state, context and event type, including reactions for the base event type.",
  "Tests use a few in-state reactions; absence of any other effect is a frame property over the whole machine.",
  ["in_state_reaction.hpp", "simple_state.hpp", "detail/reaction_dispatcher.hpp"], [("reaction", "in_state_reaction.hpp: react")])
p("C26", "A relaxed transition context runs the action in a context that is still active",
  "With the relaxed-transition-context option, a transition action runs while the context it is to be executed in is still active, after all states inside that context that the transition leaves have been left and before any further state is left. Everything else about the transition is as without the option.",
  ["configurations", "inputs", "histories"], "Every source, destination, action context and configuration.",
  "The option is tested on one chart; the order must hold for every combination of source, destination and action context.",
  ["simple_state.hpp"], [("relaxed algorithm", "simple_state.hpp: transit_impl under BOOST_STATECHART_RELAX_TRANSITION_CONTEXT")])
p("C27", "Invalid charts and uses are rejected at compile time",
  "Charts and uses the library documents as invalid (for example transitions between orthogonal regions, histories in states without history, missing events in reactions, deferral in a machine's own reactions) do not compile.",
  ["programs"], "Every invalid program.", "Only a handful of invalid programs is tried by the tests.",
  ["simple_state.hpp", "transition.hpp", "deep_history.hpp", "shallow_history.hpp"], [("static assertions", "simple_state.hpp, deep_history.hpp, shallow_history.hpp")])
p("C28", "A blocked worker thread eventually processes queued work or ends on termination",
  "A thread that is waiting in a blocking worker run is eventually woken by a queued work item, which it executes, or by termination, upon which it returns. No wake-up is lost: a thread goes to sleep only when nothing is queued, and whatever is queued afterwards, by any thread and at any moment, wakes it. (Assuming fair scheduling and work items that return.)",
  ["schedules"], "Every fair schedule of the threads.", "Liveness over all schedules cannot be sampled.",
  ["fifo_worker.hpp"], [("waiting", "fifo_worker.hpp: operator()")])
p("C29", "Memory comes from the allocator the user passed and goes back to it",
  "When a machine or an event class is given an allocator, the memory of every state object, of every event object created by new or copied by the library, and of the machine's internal objects (queued events, active states, histories) is obtained from that allocator, rebound to the type needed and one object at a time. Each block goes back to the same allocator, as memory of the same type and size, exactly once, also when a constructor or a copy fails. Nothing is obtained from or returned to anywhere else.",
  ["histories", "fault_sequences", "configurations"], "Every history of the machine, every failure of an allocation, a constructor or a user action, every chart.",
  "The existing tests pass allocators but never check what they are asked for; a wrong block on one rarely taken failure path corrupts the heap of the user's allocator only then.",
  ["detail/memory.hpp", "simple_state.hpp", "event.hpp", "state_machine.hpp"],
  [("states", "simple_state.hpp: operator new, operator delete"), ("events", "event.hpp: operator new, operator delete, event_base.hpp: intrusive_from_this"),
   ("rebinding", "detail/memory.hpp: allocate, deallocate"), ("internal objects", "state_machine.hpp: event_queue_type, state_list_type, history_map_type")])
p("C30", "An event shared between threads lives until exactly the last holder lets go",
  "When several threads hold references to one event (for example because it was sent to machines that run in different threads), every reference taken or given up is counted, under every interleaving. The event is deleted exactly once, by the thread that gives up the last reference, and never while any thread still holds one; a thread that has given up its reference does not touch the event again.",
  ["schedules"], "Every interleaving of any number of threads, any number of references.",
  "Lost updates and double deletions need two threads within a few instructions of each other; a test run with threads hits that rarely and cannot exclude it.",
  ["event_base.hpp", "detail/counted_base.hpp"],
  [("counting", "event_base.hpp: intrusive_ptr_add_ref, intrusive_ptr_release"), ("the count", "detail/counted_base.hpp: count_base<true>"), ("sharing", "event_base.hpp: intrusive_from_this")])

if __name__ == "__main__":
    import os
    with open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/properties.jsonl", "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
