"""C08: index ranges partition the vectors; every equation is written once."""
from networld import *

TECHNIQUE = "abstract interpretation of the index distribution with a symbolic start index; row-ownership and single-writer analysis of the residual writes"
NOTE = ("The index arithmetic is decided for every start index and every size; the row ownership for every component class in the enumerated small "
        "networks (0..3 attached edges, 2..4 grid points), with all values symbolic.")

RANGES = [("state", ST, "set_state_indices", "get_state_startindex", "get_state_afterindex", "needed_number_of_states"),
          ("control", CO, "set_control_indices", "get_control_startindex", "get_control_afterindex", "needed_number_of_controls_per_time_point"),
          ("constraint", CONS, "set_constraint_indices", "get_constraint_startindex", "get_constraint_afterindex",
           "needed_number_of_constraints_per_time_point")]
START = mk("sym", "start") if False else sym("start")


def run(ctx):
    H, P = ctx.H, ctx.P
    # 1. every component: [start, start+size), size independent of start
    for what, iface, setter, g0, g1, _ in RANGES:
        for cls in sorted(H.concrete(iface)):
            if cls == NP:
                continue
            w = World(P, H)
            o = w.new("c", cls)
            v, _e = w.call(o, iface, setter, START)
            for e in w.ev.effs:
                pass
            size = sub(v, START)
            f = w.impl(cls, iface, setter)
            where = "%s:%d" % (f["file"], f["l"])
            ctx.ob("size-independent-of-position", "%s of %s" % (setter, cls), not contains(canon(size), START), where,
                   "returned next index minus start is %s" % show(size)[:200], key="%s|%s" % (cls, what))
            a = _getter(w, o, iface, g0)
            b = _getter(w, o, iface, g1)
            ctx.zero("range-starts-at-given-index", "%s of %s" % (g0, cls), sub(a, START), where, key="%s|%s" % (cls, what))
            ctx.zero("range-ends-at-next-index", "%s of %s" % (g1, cls), sub(b, v), where, key="%s|%s" % (cls, what))
            ctx.used(w.ev)
    # 2. the network hands the ranges on without gap or overlap
    for desc, nodes, edges in mixes(ctx):
        for what, iface, setter, g0, g1, _ in RANGES:
            w = NetWorld(P, H, nodes, edges)
            v, effs = w.call(iface, setter, START)
            calls = [e for e in effs if e.kind == "call" and e.d["name"] == setter and e.d["recv"] in w.comps]
            expect = [c for c in w.comps if H.isa(w.ev.dyntype[c], iface)]
            inst = "%s in %s" % (setter, desc)
            where = calls[0].where() if calls else ""
            got = [e.d["recv"] for e in calls]
            ok = sorted(map(show, got)) == sorted(map(show, expect)) and all(band(*e.core) is TRUE and not e.loops for e in calls)
            ctx.ob("every-component-gets-one-range", inst, ok, where, "given to %s, expected %s" % (names(w, got), names(w, expect)), key=setter)
            cur = START
            chain = True
            for e in calls:
                if not equalT(e.d["args"][0], cur):
                    chain = False
                    break
                cur = e.d["res"]
            ctx.ob("ranges-are-contiguous", inst, chain and equalT(v, cur), where, "a component's range does not start where the previous one ended", key=setter)
            a, b = [w.call(iface, g, commit=False)[0] for g in (g0, g1)]
            a, b = simp(w, a), simp(w, b)
            ctx.ob("network-range-covers-components", inst, equalT(a, START) and equalT(b, v), where,
                   "start %s, after %s" % (show(a)[:100], show(b)[:100]), key=setter)
            ctx.used(w.ev)
    # init must distribute all three and before setup (components compute from their ranges)
    w = NetWorld(P, H, *list(mixes(ctx))[1][1:])
    s0, s1, s2 = sym("s0"), sym("s1"), sym("s2")
    initf = [f for k, f in P.functions.items() if f["q"] == NP + "::init" and len(f["p"]) == 3]
    ctx.need(initf, "Networkproblem::init(state, control, constraint) not found")
    _, effs = w.call_f(initf[0], s0, s1, s2)
    for (what, iface, setter, g0, g1, _), s in zip(RANGES, (s0, s1, s2)):
        calls = [e for e in effs if e.kind == "call" and e.d["name"] == setter]
        expect = [c for c in w.comps if H.isa(w.ev.dyntype[c], iface)]
        ctx.ob("init-distributes-ranges", setter, [e.d["recv"] for e in calls] != [] and sorted(show(e.d["recv"]) for e in calls) == sorted(map(show, expect))
               and equalT(calls[0].d["args"][0], s), calls[0].where() if calls else initf[0]["file"], key=setter)
    # 3. row ownership
    for w, _what in worlds(ctx):
        owner_of = {}
        for l in w.all:
            a, b = w.range[l]
            for i in range(a, b):
                owner_of[i] = l
        writers = {}
        for l in w.all:
            for iface in (EQ, CO):
                if not H.isa(w.cls(l), iface):
                    continue
                rows, effs = residual(w, l, iface)
                mine = {l}
                for d in ("get_starting_edges", "get_ending_edges"):
                    if H.isa(w.cls(l), NODE):
                        v, _e = w.call(l, NODE, d, commit=False)
                        if v.op == "list":
                            mine |= {x.args[0] for x in v.args if x.op == "addr"}
                f = w.impl(w.cls(l), iface, "evaluate")
                for r, v in rows.items():
                    ow = owner_of.get(r)
                    st = [e for e in effs if e.kind == "store" and e.d["loc"] is mk("elt", F, num(r))]
                    where = st[0].where() if st else "%s:%d" % (f["file"], f["l"])
                    key = "%s::evaluate" % w.cls(l)
                    ctx.ob("rows-belong-to-component", "%s in %s: row %d" % (w.cls(l), w.desc, r), ow in mine, where,
                           "row belongs to %s" % (w.cls(ow) if ow in w.ev.dyntype else "nobody"), key=key)
                    ctx.ob("rows-set-not-accumulated", "%s in %s: row %d" % (w.cls(l), w.desc, r), not contains(v, F), where,
                           "value depends on the old content of the residual (conditional or accumulating write)", key=key)
                    writers.setdefault(r, []).append(l)
        for r in range(w.nstate):
            ws = writers.get(r, [])
            ctx.ob("row-has-exactly-one-writer", "%s: row %d" % (w.desc, r), len(ws) == 1, "",
                   "row of %s is written by %s" % (w.cls(owner_of[r]), [w.cls(x) for x in ws] or "nobody"),
                   key="%s|%s" % (w.cls(owner_of[r]), ",".join(sorted(w.cls(x) for x in ws))))
        ctx.ob("no-row-outside-system", w.desc, all(0 <= r < w.nstate for r in writers), "", str(sorted(writers)), key="outside")
        ctx.used(w.ev)
    ctx.floor("row-has-exactly-one-writer", 500)
    ctx.floor("every-component-gets-one-range", 30)
    ctx.floor("size-independent-of-position", 10)


def _getter(w, o, iface, g):
    st = w.st.copy()
    v, _e = w.call(o, iface, g, commit=False)
    return simp(w, v)


def simp(w, v):
    """getters throw for unset (negative) ranges; what remains is the field"""
    return v


def equalT(a, b):
    return is_zero(sub(a, b))[0]


def names(w, ls):
    return [w.ev.dyntype.get(x, show(x)[:60]) for x in ls][:12]


run.explanation = ("Index distribution: every set_*_indices is interpreted with a symbolic start index; the network's loops over a concrete list of all component "
                   "classes. Row ownership: all residual writes of all components of each enumerated network are collected and every row of the system "
                   "must have exactly one writer, entitled by ownership.")
