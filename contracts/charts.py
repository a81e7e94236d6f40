# Contracts of states, transitions, entry, exit, history and reactions, for a whole chart.
# Written from the library's documentation; the chart facts (lca, below, regions, destinations,
# history slots) are computed from the chart description, independently of the library.
# M is the machine; G is ghost state of the specification (contexts kept alive by a transition).

# ------------------------------------------------------------------ what user code sees
def look(p):
    "asked from user code: the state itself, its contexts from the inside out, the machine"
    if LOOK:
        x = p
        while is_state(x):
            cb_look(p, x)
            x = x.ctx
        cb_look(p, M)
        cb_look(p, M)

def action(p, evt):
    if is_state(p):
        look(p)
    cb_action(p, evt)

# ------------------------------------------------------------------ leaving
def leave(p, full):
    "p has no inner states left: exit it, then every outer state that has become empty"
    c = p.ctx
    if M.ous == null or same(M.ous, p):
        M.ous = state_or_null(c)
    try:
        if full:
            look(p)
            cb_exit(p)
            store_history(p)
    except:
        abandon(p)
        raise
    destroy(p)
    if is_state(c):
        if childless(c) and not same(c, G.pin) and not same(c, G.pin2):
            leave(c, full)

def store_history(p):
    if stores_shallow(p):
        set_hist(M.shallow, slot(p), shallow_value(p))
    if is_leaf(p):
        h = p
        while is_state(h.ctx):
            if has_deep(h.ctx):
                set_hist(M.deep, slot(h), deep_value(h, p))
            h = h.ctx

def destroy(p):
    "destructor, then deferred events return to the queue, then the state is forgotten and freed"
    cb_dtor(p)
    unlink(p)
    deallocate(p)

def abandon(p):
    "an exit action failed: the state goes, and so do outer states nothing else keeps (no exit actions)"
    cb_dtor(p)
    unlink(p)
    c = p.ctx
    if is_state(c):
        if childless(c) and not same(M.ous, c) and not same(c, G.pin) and not same(c, G.pin2):
            abandon(c)
    deallocate(p)

def unlink(p):
    if p.deferred:
        splice_front(M.queue, M.deferred)
    c = p.ctx
    if is_state(c):
        set_inner(c, region(p), null)
    else:
        M.outermost = null

def leave_subtree(p, full):
    "innermost states first, highest region first"
    if is_leaf(p):
        M.end = M.end - 1
        i = position(M.states, p)
        M.states[i] = M.states[M.end]
        M.states[M.end] = null
        leave(p, full)
    else:
        if childless(p):
            assert same(M.ous, p)
            leave(p, full)
        else:
            i = regions(p)
            first = first_active(p)
            while i > first:
                i = i - 1
                if inner(p, i) != null:
                    leave_subtree(inner(p, i), full)

def terminate_state(s, full):
    M.ico = False
    leave_subtree(s, full)

def terminate_as_reaction(s):
    terminate_state(s, M.full)
    M.ous = null

# ------------------------------------------------------------------ entering
def shallow_construct(S, c):
    "allocate, construct, make known to the outer state and to the machine"
    p = new_state(S)
    init_state_fields(p)
    if knows_context_early(S):
        p.ctx = c
        link(p, c)
        try:
            look(p)
            cb_ctor(p)
        except:
            unlink(p)
            deallocate(p)
            raise
    else:
        try:
            cb_ctor(p)
        except:
            deallocate(p)
            raise
        p.ctx = c
        link(p, c)
    add(p)
    return p

def link(p, c):
    if is_state(c):
        assert inner(c, region(p)) == null
        set_inner(c, region(p), p)
    else:
        M.outermost = p

def add(p):
    n = null
    if is_leaf(p):
        if M.end == size(M.states):
            append_cell(M.states, p)
        else:
            M.states[M.end] = p
        M.end = M.end + 1
    else:
        n = p
    if M.ico or (in_last_region(p) and same(M.ous, state_or_null(p.ctx))):
        M.ico = False
        M.ous = n

def construct_to(S, D, k, c):
    "enter S inside c and everything inside S; regions without a designated state take their initial state"
    if k != 0 and S == D:
        construct_history(k, D, c)
        return null
    p = shallow_construct(S, c)
    if is_leaf(p):
        return null
    try:
        i = 0
        n = regions(p)
        while i < n:
            if S != D and on_way(S, D, i):
                construct_to(next_to(S, D), D, k, p)
            else:
                construct_to(initial(S, i), initial(S, i), initial_kind(S, i), p)
            i = i + 1
    except:
        if childless(p) and not same(M.ous, p):
            destroy(p)
        raise
    return null

def construct_history(k, D, c):
    "a history pseudo state: the stored configuration, or the default state when there is none"
    if k == 1:
        v = hist(M.shallow, slot_of(D))
        if v == null:
            construct_to(D, D, 0, c)
        else:
            construct_to(stored_state(v), stored_state(v), 0, c)
    else:
        v = hist(M.deep, slot_of(D))
        if v == null:
            construct_to(D, D, 0, c)
        else:
            construct_to(first_towards(c, stored_state(v)), stored_state(v), 0, c)
    return null

def initial_construct():
    construct_to(INITIAL, INITIAL, 0, M)

# ------------------------------------------------------------------ reactions
def transit(s, t, evt):
    "leave up to the innermost common context, run the action in it, enter the destination"
    c = lca(s, t)
    b = below(s, c)
    G.pin = c
    try:
        if RELAXED:
            relaxed_leave(s, t, b, c, evt)
        else:
            terminate_state(b, M.full)
            M.ico = True
            if has_action(t):
                action(action_context(c, t), evt)
        construct_to(first_towards(c, dest(t)), dest(t), dest_kind(t), c)
    finally:
        G.pin = null
    return DISCARD

def react_impl(s, evt, id):
    "own reactions in the order listed; the first that is triggered decides; else the outer state"
    r = NO
    i = 0
    n = reactions(s)
    c = s.ctx
    while r == NO and i < n:
        if triggered(s, i, evt):
            r = reaction(s, kind(s, i), i, evt)
        i = i + 1
    if r == NO:
        r = FORWARD
    if r == FORWARD and is_state(c):
        return react_impl(c, evt, id)
    return r

def reaction(s, k, i, evt):
    if k == TRANSITION:
        return transit(s, target(s, i), evt)
    if k == IN_STATE:
        if in_state_context(s, i) != null:
            action(in_state_context(s, i), evt)
        return DISCARD
    if k == DEFERRAL:
        s.deferred = True
        return DEFER
    if k == TERMINATION:
        terminate_as_reaction(s)
        return DISCARD
    assert k == CUSTOM
    j = cb_react(s, evt)
    if choice(s, i, j) == TRANSITION:
        return transit(s, choice_target(s, i, j), evt)
    if choice(s, i, j) == FORWARD_IT:
        return FORWARD
    if choice(s, i, j) == DEFERRAL:
        s.deferred = True
        return DEFER
    if choice(s, i, j) == TERMINATION:
        terminate_as_reaction(s)
    return DISCARD

def destroy_machine():
    "destruction leaves all states without exit actions and releases all events"
    terminate_all(0)
    drop_map(M.deep)
    drop_map(M.shallow)
    destroy_states(M.states)
    deallocate(M)
