# Contracts of boost::statechart::state_machine<>.  Specification language: vc/spec.py
# M.<field> are the real data members; FORWARD/DISCARD/DEFER are the reaction results.

def intrusive(e):
    "event_base::intrusive_from_this: share a reference-counted event, copy any other"
    if e.count != 0:
        e.count = e.count + 1
        return e
    return clone(e)

def release(e):
    "drop one reference of an event"
    e.count = e.count - 1
    if e.count == 0:
        delete_event(e)

def post_event_impl(e):
    "posting appends exactly one entry at the back and shares the event"
    e.count = e.count + 1
    push_back(M.queue, e)

def post_event_ref(e):
    push_back(M.queue, intrusive(e))

def release_events():
    "all deferred events return, in order, in front of the event queue"
    splice_front(M.queue, M.deferred)

def react(s, evt, guarded):
    "one reaction attempt; what it throws goes through the exception translator"
    if TRANSLATE:
        try:
            return react_impl(s, evt, type_of(evt))
        except:
            return handle_exception(s)
    return react_impl(s, evt, type_of(evt))

def send_event(evt):
    old = M.trig
    M.trig = evt
    r = FORWARD
    i = 0
    try:
        try:
            while r == FORWARD and i < M.end:
                s = M.states[i]
                r = react(s, evt, 0)
                i = i + 1
        except:
            terminate_all(0)
            raise
        if r == FORWARD:
            cb_unconsumed_event(M, evt)
    finally:
        M.trig = old
    return r

def process_queued_events():
    while not empty(M.queue):
        e = pop_front(M.queue)
        try:
            r = send_event(e)
            if r == DEFER:
                e.count = e.count + 1
                push_back(M.deferred, e)
        finally:
            release(e)

def process_event(evt):
    r = send_event(evt)
    if r == DEFER:
        push_back(M.deferred, intrusive(evt))
    process_queued_events()

def terminate_all(full):
    "terminate_impl( bool )"
    M.full = True
    if M.outermost != null:
        terminate_state(M.outermost, full)
    clear_events(M.queue)
    clear_events(M.deferred)
    clear_map(M.shallow)
    clear_map(M.deep)

def terminate_state(s, full):
    "terminate_impl( state, bool ): leave the subtree rooted at s"
    M.ico = False
    if M.ous != null:
        remove_from_state_list(s, M.end, full)
    else:
        if M.end == 1:
            M.end = 0
            exit_leaf(M.states[0], 0, full)
        else:
            remove_from_state_list(s, M.end, full)

def terminate_as_reaction(s):
    terminate_state(s, M.full)
    o = M.ous
    if o != null:
        M.ous = null
        o.count = o.count - 1

def terminate_as_part_of_transit(s):
    terminate_state(s, M.full)
    M.ico = True

def terminate_as_part_of_transit_root():
    terminate_state(M.outermost, M.full)
    M.ico = True

def terminate():
    "leave everything with exit actions; an exception destroys the machine without exit actions"
    old = M.trig
    M.trig = null
    try:
        try:
            if TRANSLATE:
                try:
                    terminate_all(1)
                except:
                    handle_exception(null)
            else:
                terminate_all(1)
        except:
            terminate_all(0)
            raise
    finally:
        M.trig = old

def initiate():
    terminate()
    if M.outermost != null:
        terminate_all(0)
    old = M.trig
    M.trig = null
    try:
        try:
            if TRANSLATE:
                try:
                    initial_construct()
                except:
                    handle_exception(null)
            else:
                initial_construct()
        except:
            terminate_all(0)
            raise
    finally:
        M.trig = old
    process_queued_events()

def handle_exception_event(x, s):
    "an exception is converted to an event, delivered to the unstable state or the state that reacted"
    if M.outermost == null:
        raise current()
    h = s
    if M.ous != null:
        h = M.ous
    assert h != null
    old = M.trig
    M.trig = x
    try:
        M.full = False
        r = react_impl(h, x, type_of(x))
        M.full = True
        if r != DISCARD or M.ous != null:
            raise current()
    finally:
        M.trig = old
    return DISCARD

def handle_exception(s):
    "exception_translator: build an exception_thrown event and hand it to the machine"
    x = new_exception_thrown()
    try:
        r = handle_exception_event(x, s)
    finally:
        drop_exception_thrown(x)
    return r

def construct_machine():
    "the constructor establishes the terminated machine with empty queues and histories (see the units)"
    return

def destroy_machine():
    "destruction leaves all states without exit actions and releases all events"
    terminate_all(0)
    drop_map(M.deep)
    drop_map(M.shallow)
    destroy_states(M.states)
    kill(M)
