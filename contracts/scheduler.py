# Contracts of fifo_scheduler<>, processor_container<> and event_processor<>.  Specification language: vc/spec.py
# A handle refers to a control block c (null: a handle that was never assigned): c.use counts the owners of the processor holder
# c.px, which has one field, proc.  A processor exists from the execution of its creation until the execution of its destruction.
# The work items are queued with the operations of contracts/worker.py.

def nothing():
    pass

def construct(waits):
    "a new scheduler has nothing to do, no processors and is not terminated"
    new_list(S, "queue", "ev")
    S.terminated = False
    S.waits = waits
    new_set(S, "procs")

def release(c):
    "one owner less; the last one destroys the processor"
    c.use = c.use - 1
    if c.use == 0:
        if c.px.proc != null:
            delete_processor(c.px.proc)
        kill(c.px)

def keep(r, c, i):
    push_back(W.queue, i)
    r.px = c.px
    r.pn = c

def begin(p, c):
    "the new processor becomes reachable through its handle"
    c.px.proc = p
    set_add(S.procs, c)
    c.use = c.use + 1

def destroy_processor(h):
    push_back(W.queue, make_item("destroy_item", h.pn))

def initiate_processor(h):
    push_back(W.queue, make_item("initiate_item", h.pn))

def terminate_processor(h):
    push_back(W.queue, make_item("terminate_item", h.pn))

def queue_event(h, e):
    i = make_item("event_item", h.pn, e)
    e.count = e.count + 1
    push_back(W.queue, i)

def destroy_item(c):
    if c != null and c.use != 0:
        if contains(S.procs, c):
            set_remove(S.procs, c)
            release(c)

def initiate_item(c):
    if c != null and c.use != 0:
        initiate_impl(c.px.proc)

def terminate_item(c):
    if c != null and c.use != 0:
        terminate_impl(c.px.proc)

def event_item(c, e):
    if c != null and c.use != 0:
        process_event_impl(c.px.proc, e)

def drop_event_item(c, e):
    e.count = e.count - 1
    if e.count == 0:
        delete_event(e)

def my_scheduler(p):
    return p.scheduler

def my_handle(r, p):
    r.px = p.handle_px
    r.pn = p.handle_pn

def initiate(p):
    initiate_impl(p)

def process_event(p, e):
    process_event_impl(p, e)

def terminate_processor_now(p):
    terminate_impl(p)

def create0(r):
    c = new_holder()
    try:
        i = make_item("create_item0", c)
    except:
        release(c)
        raise
    keep(r, c, i)

def create_item0(c):
    p = new_processor(c)
    cb_construct0(p)
    begin(p, c)

def drop_create_item0(c):
    release(c)

def create1(r, a0):
    c = new_holder()
    try:
        i = make_item("create_item1", c, a0)
    except:
        release(c)
        raise
    keep(r, c, i)

def create_item1(c, a0):
    p = new_processor(c)
    cb_construct1(p, a0)
    begin(p, c)

def drop_create_item1(c, a0):
    release(c)

def create2(r, a0, a1):
    c = new_holder()
    try:
        i = make_item("create_item2", c, a0, a1)
    except:
        release(c)
        raise
    keep(r, c, i)

def create_item2(c, a0, a1):
    p = new_processor(c)
    cb_construct2(p, a0, a1)
    begin(p, c)

def drop_create_item2(c, a0, a1):
    release(c)

def create3(r, a0, a1, a2):
    c = new_holder()
    try:
        i = make_item("create_item3", c, a0, a1, a2)
    except:
        release(c)
        raise
    keep(r, c, i)

def create_item3(c, a0, a1, a2):
    p = new_processor(c)
    cb_construct3(p, a0, a1, a2)
    begin(p, c)

def drop_create_item3(c, a0, a1, a2):
    release(c)

def create4(r, a0, a1, a2, a3):
    c = new_holder()
    try:
        i = make_item("create_item4", c, a0, a1, a2, a3)
    except:
        release(c)
        raise
    keep(r, c, i)

def create_item4(c, a0, a1, a2, a3):
    p = new_processor(c)
    cb_construct4(p, a0, a1, a2, a3)
    begin(p, c)

def drop_create_item4(c, a0, a1, a2, a3):
    release(c)

def create5(r, a0, a1, a2, a3, a4):
    c = new_holder()
    try:
        i = make_item("create_item5", c, a0, a1, a2, a3, a4)
    except:
        release(c)
        raise
    keep(r, c, i)

def create_item5(c, a0, a1, a2, a3, a4):
    p = new_processor(c)
    cb_construct5(p, a0, a1, a2, a3, a4)
    begin(p, c)

def drop_create_item5(c, a0, a1, a2, a3, a4):
    release(c)

def create6(r, a0, a1, a2, a3, a4, a5):
    c = new_holder()
    try:
        i = make_item("create_item6", c, a0, a1, a2, a3, a4, a5)
    except:
        release(c)
        raise
    keep(r, c, i)

def create_item6(c, a0, a1, a2, a3, a4, a5):
    p = new_processor(c)
    cb_construct6(p, a0, a1, a2, a3, a4, a5)
    begin(p, c)

def drop_create_item6(c, a0, a1, a2, a3, a4, a5):
    release(c)
