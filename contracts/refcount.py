# Contracts of the reference count of an event that several threads hold.  change_count() is one atomic step: it returns the
# previous number of references, which other threads change at any time between the steps of this one.

def add_reference(ev):
    "the caller knows of a reference that stays while this runs"
    change_count(ev, 1)

def release_reference(ev):
    "gives up one reference; the last one to do so deletes the event, nobody else touches it afterwards"
    before = change_count(ev, -1)
    if before == 1:
        delete_event(ev)

def share(ev):
    "one more reference to a counted event; an event that is not counted (and therefore not shared) is copied"
    if COUNTED:
        change_count(ev, 1)
        return ev
    return clone(ev)
