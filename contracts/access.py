# Contracts of what a user asks a machine or a state: casts, iteration, contexts, triggering event,
# clearing of histories, type identity.  None of them but the clearing changes anything.
def find_state(S):
    "the active state of class S, or null"
    i = 0
    while i < M.end:
        p = M.states[i]
        while is_state(p):
            if class_of(p) == S:
                return p
            p = p.ctx
        i = i + 1
    return null

def find_state_or_throw(S):
    p = find_state(S)
    if p == null:
        raise bad_cast()
    return p

def find_state_from(s, S):
    return find_state(S)

def find_state_or_throw_from(s, S):
    return find_state_or_throw(S)

def find_face(F):
    "the active state that is derived from the user's class F, or null"
    i = 0
    while i < M.end:
        p = M.states[i]
        while is_state(p):
            if offers(p, F):
                return face_of(p, F)
            p = p.ctx
        i = i + 1
    return null

def find_face_or_throw(F):
    p = find_face(F)
    if p == null:
        raise bad_cast()
    return p

def find_face_from(s, F):
    return find_face(F)

def context_face(s, c, F):
    return face_of(context_named(s, c), F)

def visit_leaves():
    "every active innermost state, once"
    i = 0
    while i < M.end:
        cb_visit(M.states[i])
        i = i + 1

def visit_leaves_from(s):
    visit_leaves()

def visit_all():
    i = 0
    while i < M.end:
        p = M.states[i]
        while is_state(p):
            cb_visit(p)
            p = p.ctx
        i = i + 1

def is_terminated():
    return M.end == 0

def context_of(s, c):
    return context_named(s, c)

def itself():
    return M

def outer_state(s):
    return state_or_null(s.ctx)

def triggering_event():
    return M.trig

def triggering_event_from(s):
    return M.trig

def clear_shallow(k):
    set_hist(M.shallow, k, null)

def clear_deep(k):
    set_hist(M.deep, k, null)

def clear_shallow_from(s, k):
    set_hist(M.shallow, k, null)

def clear_deep_from(s, k):
    set_hist(M.deep, k, null)

def yes(x):
    return True

def no(x):
    return False

def post_event_ptr(e):
    post_event_impl(e)

def post_ref_from(s, e):
    post_event_ref(e)

def post_ptr_from(s, e):
    post_event_impl(e)
