# Contracts of boost::statechart::fifo_worker<>.  Specification language: vc/spec.py
# W.queue is the sequence of waiting work items (oldest first); a work item is arbitrary code.
# An argument object has one field, fn: the work item it holds, or null when it is empty.

def construct(waits=False):
    "a new worker has nothing to do and is not terminated"
    new_list(W, "queue", "ev")
    W.terminated = False
    if THREADS:
        W.waits = waits

def queue_work_item(item):
    "the item moves to the back of the queue; an empty item is ignored"
    if item.fn != null:
        push_back(W.queue, item.fn)
        item.fn = null

def queue_copy(item):
    "a copy of the item is appended"
    if item.fn != null:
        push_back(W.queue, item.fn)

def stop():
    "what the item queued by terminate() does when it is executed"
    W.terminated = True

def terminate():
    push_back(W.queue, make_item("stop"))

def terminated():
    return W.terminated

def run(limit):
    "operator(): oldest item first, one at a time, at most limit (0: any number) items"
    n = u64(0)
    while not W.terminated and (limit == 0 or under(n, limit)):
        if THREADS and W.waits:
            while empty(W.queue):
                wait()
        if empty(W.queue):
            return n
        i = pop_front(W.queue)
        run_item(i)
        n = n + 1
    return n
