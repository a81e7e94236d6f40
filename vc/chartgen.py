"""Charts: a description of a state machine, the C++ source instantiating the library with it, and
the (independent) mathematical facts about it that the specification uses."""


class St:
    def __init__(self, name, parent, region=0, init=None, hist="", kind="simple", reactions=(), base=None):
        # init: one entry per region: name | ("sh", name) | ("dh", name)
        self.name, self.parent, self.region, self.kind = name, parent, region, kind
        self.init = [x if isinstance(x, tuple) else ("n", x) for x in (init or [])]
        self.hist, self.reactions, self.base = hist, list(reactions), base

    leaf = property(lambda s: not s.init)


# reactions: ("tr", event, dest[, (context class)]) | ("isr", event, context class|None) | ("def", event)
#            ("term", event) | ("cust", event, [choice...])
# dest: name | ("sh", name) | ("dh", name);  choice: "fwd" | "dis" | "def" | "term" | ("tr", dest[, ctx])
class Chart:
    def __init__(self, name, initial, states, events, hook=True):
        self.name, self.initial, self.events = name, initial, list(events)
        self.states = {s.name: s for s in states}
        self.order = [s.name for s in states]
        self.hook = hook

    # ---- facts
    def ctxs(self, n):
        """contexts of a state, innermost first; the machine is 'M'"""
        out, p = [], self.states[n].parent
        while p is not None:
            out.append(p)
            p = self.states[p].parent
        return out + ["M"]

    def dest(self, d):
        return d if isinstance(d, tuple) else ("n", d)

    def lca(self, a, d):
        dc = self.ctxs(self.dest(d)[1])
        return next(c for c in self.ctxs(a) if c in dc)

    def below(self, n, c):
        """the state on the way from n up to its context c that lies directly inside c"""
        while (self.states[n].parent or "M") != c:
            n = self.states[n].parent
        return n

    def children(self, n):
        return [s for s in self.order if (self.states[s].parent or "M") == n]

    def bases(self):
        """interfaces that some states implement; no two states that can be active at once implement the same one"""
        return sorted({x.base for x in self.states.values() if x.base})

    # ---- C++
    def cpp(self, driver=False, look=False):
        o = []
        ask = lambda n: "".join(" cb_look( this, &this->template context< %s >() );" % c for c in [n] + self.ctxs(n)) + \
            " cb_look( this, &this->outermost_context() );" if look else ""
        w = o.append
        S = self.states
        for e in self.events:
            w("struct %s : sc::event< %s, VC_ALLOCATOR >%s {%s};" % (e, e, ", Tracked" if driver else "", " EVENT_PAD " if driver else ""))
        w("struct M;")
        for n in self.order:
            w("struct %s;" % n)
        for b in self.bases():
            w("struct %s { long %s_data; virtual ~%s() {} };" % (b, b, b))
        if driver:
            for n in self.order + ["M"]:
                w('template<> const char * nm< %s >() { return "%s"; }' % (n, n))
        w("struct M : sc::state_machine< M, %s, VC_ALLOCATOR, translator >\n{" % self.initial)
        if self.hook:
            w("  void unconsumed_event( const sc::event_base & e ) { cb_unconsumed_event( this, &e ); }")
        if driver:
            w("  using sc::state_machine< M, %s, VC_ALLOCATOR, translator >::post_event;" % self.initial)
        w("  template< class E > void act( const E & e ) { cb_action( this, &e ); }\n};")
        bodies, probes = [], []
        ev = lambda e: "sc::event_base" if e == "ANY" else "sc::exception_thrown" if e == "EXC" else e
        dst = lambda d: d if not isinstance(d, tuple) or d[0] == "n" else "%s< %s >" % (
            {"sh": "sc::shallow_history", "dh": "sc::deep_history"}[d[0]], d[1])
        for n in self.order:
            s = S[n]
            ctx = s.parent or "M"
            if s.parent and s.region:
                ctx = "%s::orthogonal< %d >" % (ctx, s.region)
            inner = "mpl::list< %s >" % ", ".join(
                x[1] if x[0] == "n" else "%s< %s >" % ({"sh": "sc::shallow_history", "dh": "sc::deep_history"}[x[0]], x[1])
                for x in s.init)
            if len(s.init) == 1 and s.init[0][0] == "n" and s.kind == "simple":
                inner = s.init[0][1]        # a single inner initial state need not be in a list
            hist = {"": "sc::has_no_history", "sh": "sc::has_shallow_history", "dh": "sc::has_deep_history",
                    "full": "sc::has_full_history"}[s.hist]
            bases = "sc::%s< %s, %s, %s, %s >" % ({"simple": "simple_state", "state": "state"}[s.kind], n, ctx, inner, hist)
            if s.base:
                bases += ", " + s.base
            w("struct %s : %s\n{" % (n, bases))
            w("  template< class E > void act( const E & e ) {%s cb_action( this, &e ); }" % ask(n).replace("template ", ""))
            rs = []
            for i, r in enumerate(s.reactions):
                k, e = r[0], ev(r[1])
                if k == "tr":
                    rs.append("sc::transition< %s, %s%s >" % (e, dst(r[2]), ", %s, &%s::act< %s >" % (r[3], r[3], e) if len(r) > 3 else ""))
                elif k == "isr":
                    rs.append("sc::in_state_reaction< %s%s >" % (e, ", %s, &%s::act< %s >" % (r[2], r[2], e) if len(r) > 2 and r[2] else ""))
                elif k == "def":
                    rs.append("sc::deferral< %s >" % e)
                elif k == "term":
                    rs.append("sc::termination< %s >" % e)
                elif k == "cust":
                    rs.append("sc::custom_reaction< %s >" % e)
                    w("  sc::result react( const %s & e );" % e)
                    b = ["sc::result %s::react( const %s & e )\n{\n  switch ( cb_react( this, &e ) )\n  {" % (n, e)]
                    for j, c in enumerate(r[2]):
                        lab = "default" if j == len(r[2]) - 1 else "case %d" % j
                        if c == "fwd":
                            x = "forward_event()"
                        elif c == "dis":
                            x = "discard_event()"
                        elif c == "def":
                            x = "defer_event()"
                        elif c == "term":
                            x = "terminate()"
                        elif len(c) > 2:
                            x = "transit< %s >( &%s::act< %s >, e )" % (dst(c[1]), c[2], e)
                        else:
                            x = "transit< %s >()" % dst(c[1])
                        b.append("    %s: return %s;" % (lab, x))
                    b.append("  }\n}")
                    bodies.append("\n".join(b))
            w("  typedef mpl::list< %s > reactions;" % ", ".join(rs) if len(rs) != 1 else "  typedef %s reactions;" % rs[0])
            if s.kind == "simple":
                w("  %s() { cb_ctor( this ); }" % n)
            else:
                w("  %s( my_context c ) : my_base( c ) {%s cb_ctor( this ); }" % (n, ask(n).replace("template ", "")))
            w("  ~%s() { cb_dtor( this ); }\n  void exit() {%s cb_exit( this ); }" % (n, ask(n).replace("template ", "")))
            w("%s};" % ("  char pad[ 4000 ];\n" if driver else ""))
            probes.append("PROBE_SIZE( %s ) PROBE( %s, count, count_ ) PROBE( %s, deferred, deferredEvents_ ) PROBE( %s, ctx, pContext_ )" % (n, n, n, n))
            probes.append("PROBE( %s, listpos, listPosition_ )" % n if s.leaf else "PROBE( %s, inner, pInnerStates )" % n)
            probes.append("PROBE_ID( %s )" % n)
        for e in self.events:
            probes.append("PROBE_SIZE( %s ) PROBE( %s, count, count_ ) PROBE_ID( %s )" % (e, e, e))
        # history entries: which function restores what
        for n in self.order:
            s = S[n]
            p = s.parent
            if p and S[p].hist in ("sh", "full"):
                probes.append('extern "C" void ( * const hist_sh_%s )() = reinterpret_cast< void (*)() >( &%s::deep_construct );' % (n, n))
            if s.leaf:
                for c in self.ctxs(n)[:-1]:
                    if S[c].hist in ("dh", "full"):
                        probes.append('extern "C" void ( * const hist_dh_%s_%s )() = reinterpret_cast< void (*)() >( &sc::detail::constructor< sc::detail::make_context_list< %s, %s >::type, M::outermost_context_base_type >::construct );' % (c, n, c, n))
        w("\n".join(bodies))
        if driver:
            n = len(self.events)
            # posted through the machine or through any state that exists
            w("template< class E > void postBy( const E & e )\n{\n  queued = true;\n  switch ( serials %% %d )\n  {" % (len(self.order) + 1))
            for i, x in enumerate(self.order):
                w("    case %d: if ( obj[ %d ] ) { static_cast< %s * >( obj[ %d ] )->post_event( e ); return; } break;" % (i, i, x, i))
            w("  }\n  machine()->post_event( e );\n}")
            w("void postRandom()\n{\n  switch ( rnd() %% %d )\n  {" % (2 * n))
            for i, e in enumerate(self.events):
                w('    case %d: { %s e; e.heap = false; say( "  post %s by reference " + num( e.serial ) ); postBy( e ); } break;' % (i + n, e, e))
                w('    case %d: { boost::intrusive_ptr< %s > p( new %s ); say( "  post %s " + num( p->serial ) ); postBy( M::event_base_ptr_type( p ) ); if ( p->serial %% 5 == 0 ) { say( "  and again" ); postBy( M::event_base_ptr_type( p ) ); } } break;' % (i, e, e, e))
            w("  }\n}\nvoid processRandom()\n{\n  switch ( rnd() %% %d )\n  {" % n)
            for i, e in enumerate(self.events):
                w('    case %d: if ( serials %% 4 ) { %s e; e.heap = false; say( "  process %s " + num( e.serial ) ); machine()->process_event( e ); }' % (i, e, e))
                w('      else { boost::intrusive_ptr< %s > p( new %s ); say( "  process %s " + num( p->serial ) ); machine()->process_event( *p ); } break;' % (e, e, e))
            w("  }\n}\nstd::string stateName( const M::state_base_type * p )\n{")
            for n in self.order:
                w('  if ( dynamic_cast< const %s * >( p ) ) return "%s";' % (n, n))
            w('  return "?";\n}\nstd::string casts()\n{\n  std::string s = " casts";')
            for n in self.order:
                w('  if ( machine()->state_cast< const %s * >() ) s += " %s";' % (n, n))
                w('  if ( machine()->state_downcast< const %s * >() ) s += " %s";' % (n, n))
            w("  return s;\n}")
            return "\n".join(o)
        w("template class sc::state_machine< M, %s, VC_ALLOCATOR, translator >;" % self.initial)
        w("\n".join(probes))
        w("extern \"C\" void * make_M() { return new M; }")
        w("extern \"C\" void construct_M( void * p ) { ::new ( p ) M; }")
        w("extern \"C\" void destroy_M( M & m ) { m.M::~M(); ::operator delete( &m ); }")
        for e in self.events:
            w("extern \"C\" void * make_%s() { return new %s; }" % (e, e))
        return "\n".join(o)


INC = '''#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/in_state_reaction.hpp>
#include <boost/statechart/deferral.hpp>
#include <boost/statechart/termination.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/shallow_history.hpp>
#include <boost/statechart/deep_history.hpp>
#include <boost/statechart/exception_translator.hpp>
#include <boost/mpl/list.hpp>
'''
HEAD = INC + '''#include "common.hpp"
#define FACE( p ) ( p )
#ifdef VC_TRANSLATOR
typedef sc::exception_translator<> translator;
#else
typedef sc::null_exception_translator translator;
#endif
extern "C" {
  void cb_unconsumed_event( const void *, const sc::event_base * );
  void cb_exit( const void * ); void cb_ctor( const void * ); void cb_dtor( const void * ) noexcept;
  void cb_action( const void *, const sc::event_base * ); void cb_look( const void *, const void * ) noexcept;
  int cb_react( const void *, const sc::event_base * );
}
#ifdef BOOST_STATECHART_USE_NATIVE_RTTI
#define PROBE_ID( cls )
#else
#define PROBE_ID( cls ) PROBE( cls, id, idProvider_ ) extern "C" const void * const typeid_##cls = &sc::detail::id_holder< cls >::idProvider_;
#endif
'''
TAIL = '''
PROBE( M, queue, eventQueue_ ) PROBE( M, deferred, deferredEventQueue_ )
PROBE( M, states, currentStates_ ) PROBE( M, end, currentStatesEnd_ )
PROBE( M, outermost, pOutermostState_ ) PROBE( M, ico, isInnermostCommonOuter_ )
PROBE( M, ous, pOutermostUnstableState_ ) PROBE( M, full, performFullExit_ )
PROBE( M, shallow, shallowHistoryMap_ ) PROBE( M, deep, deepHistoryMap_ )
PROBE( M, trig, pTriggeringEvent_ ) PROBE_SIZE( M )
'''


def accessors(chart, groups):
    """wrappers that make the compiler emit the member templates a user instantiates:
    (group, name, receiver class, C++ text, specification function, its constant arguments)"""
    S, names = chart.states, chart.order
    ctxs = lambda n: [n] + chart.ctxs(n)
    out = []

    def add(g, name, recv, res, body, spec, *args):
        if g in groups:
            par = "".join(", const %s & e" % {"ref": "sc::event_base", "ptr": "M::event_base_ptr_type"}[a[1]] for a in args if a[0] == "E")
            out.append((g, "acc_" + name, recv, 'extern "C" %s acc_%s( %s & x%s ) { %s }' % (res, name, recv, par, body), spec, args))
    V = "const void *"
    for i, n in enumerate(names):
        for how in ("state_cast", "state_downcast"):
            add("cast", "%s_ptr_%s" % (how, n), "const M", V, "return x.%s< const %s * >();" % (how, n), "find_state", ("S", n))
            add("cast", "%s_ref_%s" % (how, n), "const M", V, "return &x.%s< const %s & >();" % (how, n), "find_state_or_throw", ("S", n))
            m = names[(i + 1) % len(names)]
            add("cast", "%s_ptr_%s_from_%s" % (how, n, m), "const " + m, V, "return x.%s< const %s * >();" % (how, n), "find_state_from", ("S", n))
            add("cast", "%s_ref_%s_from_%s" % (how, n, m), "const " + m, V, "return &x.%s< const %s & >();" % (how, n), "find_state_or_throw_from", ("S", n))
        for c in ctxs(n):
            if c != "M" and S[c].base:
                for k in ("", "const "):
                    add("context", "context_%s_%s_base%s" % (n, c, k[:1]), k + n, V, "return FACE( &x.template context< %s >() );" % S[c].base,
                        "context_face", ("C", c), ("F", S[c].base))
        for c in ctxs(n):
            for k in ("", "const "):
                add("context", "context_%s_%s%s" % (n, c, k[:1]), k + n, V, "return &x.template context< %s >();" % c, "context_of", ("C", c))
        for k in ("", "const "):
            add("context", "outermost_context_%s%s" % (n, k[:1]), k + n, V, "return &x.outermost_context();", "context_of", ("C", "M"))
            add("context", "outermost_context_base_%s%s" % (n, k[:1]), k + n, V,
                "return static_cast< const M * >( &x.outermost_context_base() );", "context_of", ("C", "M"))
        add("context", "outer_state_ptr_" + n, "const " + n, V, "return x.outer_state_ptr();", "outer_state")
        for how in ("ref", "ptr"):
            add("post", "post_%s_from_%s" % (how, n), n, "void", "x.post_event( e );", "post_%s_from" % how, ("E", how))
        add("trig", "triggering_event_" + n, "const " + n, V, "return x.triggering_event();", "triggering_event_from")
        add("iter", "iterate_from_" + n, "const " + n, "void",
            "for ( M::state_iterator i = x.state_begin(); i != x.state_end(); ++i ) cb_visit( &*i );", "visit_leaves_from")
        add("id", "type_of_" + n, "const " + n, "bool", "return x.dynamic_type() == %s::static_type();" % n, "yes")
        m = names[(i + 1) % len(names)]
        if m != n:
            add("id", "type_of_%s_is_%s" % (n, m), "const " + n, "bool", "return x.dynamic_type() == %s::static_type();" % m, "no")
            add("id", "type_of_%s_isnot_%s" % (n, m), "const " + n, "bool", "return x.dynamic_type() != %s::static_type();" % m, "yes")
        for k, r in (("sh", "shallow"), ("dh", "deep")):
            if S[n].hist in (k, "full"):
                for j in range(len(S[n].init)):
                    if S[n].init[j][0] == "n" and False:
                        continue
                    add("hist", "clear_%s_%s_%d" % (r, n, j), "M", "void", "x.clear_%s_history< %s, %d >();" % (r, n, j),
                        "clear_" + r, ("K", n, j))
                    for m in ("first", "last"):
                        m = names[0 if m == "first" else -1]
                        add("hist", "clear_%s_%s_%d_from_%s" % (r, n, j, m), m, "void", "x.clear_%s_history< %s, %d >();" % (r, n, j),
                            "clear_%s_from" % r, ("K", n, j))
    for b in chart.bases():
        add("cast", "state_cast_ptr_%s" % b, "const M", V, "return FACE( x.state_cast< const %s * >() );" % b, "find_face", ("F", b))
        add("cast", "state_cast_ref_%s" % b, "const M", V, "return FACE( &x.state_cast< const %s & >() );" % b, "find_face_or_throw", ("F", b))
        for m in (names[0], names[-1]):
            add("cast", "state_cast_ptr_%s_from_%s" % (b, m), "const " + m, V, "return FACE( x.state_cast< const %s * >() );" % b, "find_face_from", ("F", b))
    add("iter", "iterate_post", "const M", "void", "for ( M::state_iterator i = x.state_begin(); !( i == x.state_end() ); ) cb_visit( &*i++ );", "visit_leaves")
    add("iter", "iterate", "const M", "void", "for ( M::state_iterator i = x.state_begin(); i != x.state_end(); i++ ) cb_visit( i.operator->() );", "visit_leaves")
    add("iter", "iterate_all", "const M", "void",
        "for ( M::state_iterator i = x.state_begin(); i != x.state_end(); ++i ) for ( const M::state_base_type * p = &*i; p; p = p->outer_state_ptr() ) cb_visit( p );", "visit_all")
    add("iter", "terminated", "const M", "bool", "return x.terminated();", "is_terminated")
    for how in ("ref", "ptr"):
        add("post", "post_" + how, "M", "void", "x.post_event( e );", "post_event_" + how, ("E", how))
    add("trig", "triggering_event", "const M", V, "return x.triggering_event();", "triggering_event")
    for k in ("", "const "):
        add("context", "machine_context" + k[:1], k + "M", V, "return &x.template context< M >();", "itself")
        add("context", "machine_outermost_context" + k[:1], k + "M", V, "return &x.outermost_context();", "itself")
    for i, e in enumerate(chart.events):
        add("id", "type_of_" + e, "const " + e, "bool", "return x.dynamic_type() == %s::static_type();" % e, "yes")
        for d in chart.events + names[:1]:
            if d != e:
                add("id", "type_of_%s_is_%s" % (e, d), "const " + e, "bool", "return x.dynamic_type() == %s::static_type();" % d, "no")
    return out


def source(chart, groups=()):
    acc = "\n".join(a[3] for a in accessors(chart, groups))
    return HEAD + chart.cpp(look="look" in groups) + TAIL + (
        'extern "C" void cb_visit( const void * ) noexcept;\n' + acc + "\n" if acc else "")


def driver(chart, groups=()):
    """concrete program: the chart driven by random scripts, tracing everything it does"""
    acc = accessors(chart, groups)
    ask, clear = [], []
    for g, name, recv, text, spec, args in acc:
        recv = recv.replace("const ", "")
        if g == "post":
            continue
        if recv in chart.events:
            ask.append('{ int keep = serials; %s e; e.heap = false; tell( "%s", %s( e ) ); serials = keep; }' % (recv, name[4:], name))
            continue
        x = "*pMachine" if recv == "M" else "*static_cast< %s * >( obj[ %d ] )" % (recv, chart.order.index(recv))
        guard = "" if recv == "M" else "if ( obj[ %d ] ) " % chart.order.index(recv)
        if g == "hist":
            clear.append('case %d: say( "  %s" ); %s%s( %s ); break;' % (len(clear), name[4:], guard, name, x))
        elif spec.startswith("visit"):
            ask.append('%s{ visited = ""; %s( %s ); tell( "%s", visited ); }' % (guard, name, x, name[4:]))
        else:
            ask.append('%stry { tell( "%s", %s( %s ) ); } catch ( const std::bad_cast & ) { tell( "%s", std::string( "bad_cast" ) ); }' % (
                guard, name[4:], name, x, name[4:]))
    names = "static const char * objName[] = { %s };\nstatic const int objCount = %d;\n" % (
        ", ".join('"%s"' % n for n in chart.order), len(chart.order))
    idx = "".join("template<> int ix< %s >() { return %d; }\n" % (n, i) for i, n in enumerate(chart.order))
    return "#ifndef NDEBUG\n#define BOOST_ENABLE_ASSERT_HANDLER\n#endif\n" + INC + names + """#include "driver.hpp"
#ifdef VC_TRANSLATOR
typedef sc::exception_translator<> translator;
#else
typedef sc::null_exception_translator translator;
#endif
""" + "".join("struct %s;\n" % n for n in chart.order) + idx + chart.cpp(True, look="look" in groups) + "\n" + \
        "\n".join(a[3].replace('extern "C" ', "") for a in acc) + "\nvoid ask()\n{\n  %s\n}\nstatic const int clears = %d;\nvoid clearRandom()\n{\n  switch ( clears ? rnd() %% %d : 0 )\n  {\n    %s\n  }\n}\n" % (
            "\n  ".join(ask), len(clear), max(len(clear), 1), "\n    ".join(clear)) + '#include "drivermain.hpp"\n'
