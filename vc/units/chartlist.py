"""The charts the library is instantiated with."""
from chartgen import Chart, St

# deep nesting, transitions inside / across / to ancestors, actions, in-state reactions, termination
K1 = Chart("K1", "A", [
    St("A", None, init=["B"], reactions=[("tr", "E4", "D")]),
    St("B", "A", init=["C1"], base="Face", reactions=[("tr", "E2", "D2", "A"), ("isr", "E3", "A")]),
    St("C1", "B", reactions=[("tr", "E1", "C2", "B")]),
    St("C2", "B", kind="state", base="Other", reactions=[("tr", "E1", "C1"), ("tr", "E2", "A", "M"), ("term", "E3")]),
    St("D", "A", init=["D1"], base="Face"), St("D1", "D"), St("D2", "D", kind="state", base="Other")], ["E1", "E2", "E3", "E4"])

# orthogonal regions (three, nested two), termination of single regions, deferral, order of the state list
K2 = Chart("K2", "A", [
    St("A", None, init=["B", "C", "D"], reactions=[("def", "E4"), ("tr", "E3", "Z")]),
    St("B", "A", 0, base="Face", reactions=[("tr", "E1", "B2"), ("term", "E2")]),
    St("B2", "A", 0, kind="state", base="Face", reactions=[("tr", "E1", "B", "A"), ("def", "E2")]),
    St("C", "A", 1, init=["C0", "C1"], reactions=[("tr", "E2", "C")]),
    St("C0", "C", 0, reactions=[("term", "E1")]),
    St("C1", "C", 1, kind="state", reactions=[("cust", "E2", ["fwd", "dis", "term"])]),
    St("D", "A", 2, base="Other", reactions=[("term", "E1")]),
    St("Z", None, base="Other", reactions=[("tr", "E1", "C1"), ("cust", "E2", ["def", ("tr", "A"), "fwd"])])],
    ["E1", "E2", "E3", "E4"])

# histories: shallow, deep and full, as initial state, as default, as destination; restored from every
# recorded configuration
K3 = Chart("K3", "A", [
    St("A", None, init=["B"], hist="sh", reactions=[("tr", "E4", "Z")]),
    St("B", "A", init=["B1"], reactions=[("tr", "E1", "C")]),
    St("B1", "B", reactions=[("tr", "E2", "B2")]),
    St("B2", "B"),
    St("C", "A", init=[("sh", "C1")], hist="sh", reactions=[("tr", "E1", "B"), ("tr", "E2", "C2")]),
    St("C1", "C"), St("C2", "C"),
    St("Z", None, reactions=[("tr", "E1", ("sh", "B")), ("tr", "E2", "A"), ("tr", "E3", "C")])],
    ["E1", "E2", "E3", "E4"])
K4 = Chart("K4", "Z", [
    St("A", None, init=[("dh", "B"), ("dh", "F")], hist="dh", reactions=[("tr", "E4", "Z")]),
    St("B", "A", init=["B1"], reactions=[("tr", "E1", "C")]),
    St("B1", "B", reactions=[("tr", "E2", "B2")]),
    St("B2", "B", kind="state"),
    St("C", "A", init=["C1"], reactions=[("tr", "E1", ("dh", "B"))]),
    St("C1", "C"),
    St("F", "A", 1, reactions=[("tr", "E3", "G")]), St("G", "A", 1, reactions=[("term", "E3")]),
    St("Z", None, reactions=[("tr", "E1", ("dh", "B")), ("tr", "E2", "A"), ("tr", "E3", "C")])],
    ["E1", "E2", "E3", "E4"])
K5 = Chart("K5", "A", [
    St("A", None, init=["B"], hist="full", reactions=[("tr", "E4", "Z")]),
    St("B", "A", init=["B1"], reactions=[("tr", "E1", "B2")]),
    St("B1", "B"), St("B2", "B"),
    St("Z", None, reactions=[("tr", "E1", ("sh", "B")), ("tr", "E2", ("dh", "B"))])],
    ["E1", "E2", "E4"])

# exceptions as events: handled by the state that reacts, by the unstable state or by an outer state;
# event_base reactions; transitions to the outermost level
K6 = Chart("K6", "A", [
    St("A", None, init=["B", "C"], reactions=[("tr", "EXC", "X", "M"), ("tr", "E1", "A", "M")]),
    St("B", "A", 0, init=["B1"], reactions=[("cust", "EXC", ["fwd", ("tr", "B"), "dis", "term", "def"])]),
    St("B1", "B", reactions=[("tr", "E2", "B2", "B"), ("tr", "EXC", "B2")]),
    St("B2", "B", kind="state", reactions=[("tr", "E2", "B1"), ("isr", "ANY", "A")]),
    St("C", "A", 1, reactions=[("cust", "E1", ["fwd", "def"]), ("term", "EXC")]),
    St("X", None, reactions=[("tr", "E1", "A"), ("tr", "E2", "B2"), ("isr", "EXC", "M"), ("def", "ANY")])],
    ["E1", "E2"])

# histories inside histories; every level is recorded and restored on its own
K7 = Chart("K7", "Z", [
    St("A", None, init=[("dh", "B")], hist="dh", reactions=[("tr", "E3", "Z")]),
    St("B", "A", reactions=[("tr", "E1", "C")]),
    St("C", "A", init=[("dh", "C1")], hist="full", reactions=[("tr", "E2", "B")]),
    St("C1", "C", init=["D"], reactions=[("tr", "E1", ("sh", "C2"))]),
    St("D", "C1", reactions=[("tr", "E4", "D2")]), St("D2", "C1"),
    St("C2", "C", kind="state", reactions=[("tr", "E4", "C1")]),
    St("Z", None, reactions=[("tr", "E1", "A"), ("tr", "E2", "C"), ("tr", "E4", ("sh", "C1")), ("tr", "E3", "D2")])],
    ["E1", "E2", "E3", "E4"])

# designated states in the first, a middle and the last of many regions, at several depths
K8 = Chart("K8", "Z", [
    St("A", None, init=["P", "Q", "R", "S"], reactions=[("tr", "E4", "Z"), ("tr", "E1", "Q3")]),
    St("P", "A", 0), St("P2", "A", 0, init=["P3", "P4"]), St("P3", "P2", 0), St("P4", "P2", 1, kind="state"),
    St("Q", "A", 1), St("Q2", "A", 1, init=["Q3", "Q4", "Q5"], kind="state"), St("Q3", "Q2", 0), St("Q4", "Q2", 1), St("Q5", "Q2", 2),
    St("R", "A", 2), St("S", "A", 3), St("S2", "A", 3),
    St("Z", None, kind="state", reactions=[("tr", "E1", "P4"), ("tr", "E2", "Q4"), ("tr", "E3", "S2"), ("tr", "E4", "P3")])],
    ["E1", "E2", "E3", "E4"])

# action contexts that the transition leaves (only with the relaxed-transition-context option): the source (leaf or not), states between
# source and common context; and contexts that stay
K9 = Chart("K9", "A", [
    St("A", None, init=["B"], hist="sh", reactions=[("tr", "E4", "Z", "A"), ("tr", "EXC", "Z", "A")]),
    St("B", "A", init=["C", "D"], reactions=[("tr", "E1", "B2", "B"), ("tr", "E2", "Z", "A")]),
    St("C", "B", 0, init=["C1"], reactions=[("tr", "E3", "B2", "B")]),
    St("C1", "C", reactions=[("tr", "E1", "C2", "C1"), ("tr", "E2", "Z", "C")]),
    St("C2", "C", kind="state", reactions=[("tr", "E1", "C1", "C"), ("tr", "E2", "C1", "A"), ("tr", "E3", "C1", "M")]),
    St("D", "B", 1, reactions=[("tr", "E3", "Z", "B"), ("term", "E4")]),
    St("B2", "A", kind="state", reactions=[("tr", "E1", "B", "B2"), ("tr", "E2", "Z", "A")]),
    St("Z", None, reactions=[("tr", "E1", "A", "Z"), ("tr", "E2", "C2", "M"), ("tr", "E3", ("sh", "B"), "Z")])],
    ["E1", "E2", "E3", "E4"])

# failures while more than two regions are entered or left, at two levels; which state handles them depends on how far it got
K10 = Chart("K10", "Z", [
    St("A", None, init=["P", "Q", "R"], reactions=[("tr", "EXC", "Z"), ("tr", "E2", "Z")]),
    St("P", "A", 0, init=["P1"], reactions=[("tr", "E1", "P")]),
    St("P1", "P", reactions=[("cust", "EXC", ["dis", ("tr", "P1"), "fwd"])]),
    St("Q", "A", 1, reactions=[("tr", "EXC", "Q2")]), St("Q2", "A", 1, kind="state"),
    St("R", "A", 2, init=["R0", "R1", "R2"], reactions=[("term", "EXC")]),
    St("R0", "R", 0, reactions=[("tr", "EXC", "R0")]), St("R1", "R", 1, kind="state"), St("R2", "R", 2),
    St("Z", None, kind="state", reactions=[("tr", "E1", "A"), ("tr", "E2", "R1"), ("tr", "EXC", "A")])],
    ["E1", "E2"])

# shallow history in each of two regions of one context; each is recorded, restored and cleared on its own
K11 = Chart("K11", "Z", [
    St("A", None, init=[("sh", "P"), ("sh", "Q")], hist="sh", reactions=[("tr", "E4", "Z")]),
    St("P", "A", 0, reactions=[("tr", "E1", "P2")]), St("P2", "A", 0, kind="state"),
    St("Q", "A", 1, reactions=[("tr", "E2", "Q2")]), St("Q2", "A", 1, init=["Q3"], kind="state"), St("Q3", "Q2"),
    St("Z", None, kind="state", reactions=[("tr", "E1", "A"), ("tr", "E2", ("sh", "Q"))])],
    ["E1", "E2", "E4"])

# every kind of reaction to the event base class, with and without an action, after and before reactions to particular events
K12 = Chart("K12", "A", [
    St("A", None, init=["B"], reactions=[("cust", "ANY", ["fwd", "dis", "def", ("tr", "Z"), "term"]), ("tr", "E1", "Z")]),
    St("B", "A", reactions=[("isr", "E1"), ("tr", "ANY", "C", "A")]),
    St("C", "A", kind="state", reactions=[("cust", "E1", ["fwd", ("tr", "B", "A"), ("tr", "D")]), ("isr", "ANY")]),
    St("D", "A", reactions=[("tr", "E2", "B"), ("def", "EXC"), ("term", "ANY")]),
    St("Z", None, reactions=[("isr", "E2", "M"), ("tr", "ANY", "D")])],
    ["E1", "E2"])

CHARTS = [K1, K2, K3, K4, K5, K6, K7, K8, K10, K11, K12]
