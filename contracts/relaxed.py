# Transitions with BOOST_STATECHART_RELAX_TRANSITION_CONTEXT.  Extends contracts/charts.py: s reacts, b is the outermost state that is
# left, c the innermost common context.  The action belongs to x; if x is being left, x must still be active when it runs.

def relaxed_leave(s, t, b, c, evt):
    x = inside(s, t, c)
    if x == null:
        "the context stays active: as without the option"
        terminate_state(b, M.full)
        M.ico = True
        if has_action(t):
            action(action_context(c, t), evt)
    else:
        if is_leaf(x):
            action(x, evt)
        else:
            G.pin2 = x
            try:
                M.ico = False
                leave_inner(x, M.full)
                M.ico = True
                action(x, evt)
            finally:
                G.pin2 = null
        terminate_state(b, M.full)
        M.ico = True

def leave_inner(x, full):
    "everything inside x is left, x is not"
    if childless(x):
        assert same(M.ous, x)
    else:
        leave_subtree(x, full)
