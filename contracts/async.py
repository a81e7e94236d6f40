# Contracts of asynchronous_state_machine<>: a processor that is a state machine.  machine_* are the functions of the underlying
# state_machine<>, which have contracts of their own (contracts/machine.py, contracts/charts.py).  Extends contracts/scheduler.py

def p_initiate(p):
    machine_initiate(machine(p))

def p_process_event(p, e):
    machine_process_event(machine(p), e)

def p_terminate(p):
    machine_terminate(machine(p))

def async_terminate(m):
    machine_terminate(m)

def async_delete(p):
    machine_destroy(machine(p))
    kill(p)

def async_self(m, e):
    i = make_item("event_item", m.handle_pn, e)
    e.count = e.count + 1
    push_back(W.queue, i)

def create_item0(c):
    p = storage()
    machine_construct(p)
    bind(p, c)
    try:
        cb_construct0(p)
    except:
        machine_destroy(p)
        raise
    begin(processor(p), c)

def create_item1(c, a0):
    p = storage()
    machine_construct(p)
    bind(p, c)
    try:
        cb_construct1(p, a0)
    except:
        machine_destroy(p)
        raise
    begin(processor(p), c)

def create_item2(c, a0, a1):
    p = storage()
    machine_construct(p)
    bind(p, c)
    try:
        cb_construct2(p, a0, a1)
    except:
        machine_destroy(p)
        raise
    begin(processor(p), c)

def create_item3(c, a0, a1, a2):
    p = storage()
    machine_construct(p)
    bind(p, c)
    try:
        cb_construct3(p, a0, a1, a2)
    except:
        machine_destroy(p)
        raise
    begin(processor(p), c)

def create_item4(c, a0, a1, a2, a3):
    p = storage()
    machine_construct(p)
    bind(p, c)
    try:
        cb_construct4(p, a0, a1, a2, a3)
    except:
        machine_destroy(p)
        raise
    begin(processor(p), c)

def create_item5(c, a0, a1, a2, a3, a4):
    p = storage()
    machine_construct(p)
    bind(p, c)
    try:
        cb_construct5(p, a0, a1, a2, a3, a4)
    except:
        machine_destroy(p)
        raise
    begin(processor(p), c)

def create_item6(c, a0, a1, a2, a3, a4, a5):
    p = storage()
    machine_construct(p)
    bind(p, c)
    try:
        cb_construct6(p, a0, a1, a2, a3, a4, a5)
    except:
        machine_destroy(p)
        raise
    begin(processor(p), c)
