"""C02: derivatives of cost, penalty and constraints match the functions."""
from fullnet import *

TECHNIQUE = "abstract interpretation over gated value terms; exact rational normal form of the delivered entries minus the syntactic derivative"
NOTE = ("Decided for every state, control, time and parameter, for each cost and constraint component in the enumerated networks and for the network's totals. "
        "Real arithmetic, not rounding.")
SCALAR = [(COST, "evaluate_cost", "d_evaluate_cost_d_state", "d_evaluate_cost_d_control"),
          (COST, "evaluate_penalty", "d_evaluate_penalty_d_state", "d_evaluate_penalty_d_control")]
VECTOR = (CONS, "evaluate_constraint", "d_evaluate_constraint_d_state", "d_evaluate_constraint_d_control")


def run(ctx):
    H = ctx.H
    seen = set()
    for w, what in worlds(ctx):
        cost = [o for o in w.all if H.isa(w.cls(o), COST)]
        cons = [o for o in w.all if H.isa(w.cls(o), CONS)]
        if any(H.isa(w.cls(o), CONS) and H.isa(w.cls(o), "Model::Gas::Gasnode") and not attached(w, o) for o in cons):
            cons = [o for o in cons if attached(w, o)]
            lonely = True
        else:
            lonely = False
        sub_ = [w.objs[n][0] for n in what]
        if not cost and not cons:
            if w.desc.startswith("Pipe with") or w.desc.startswith("Innode with no"):
                network(ctx, w)
            continue
        for o in cost:
            for iface, f, ds, dc in SCALAR:
                component(ctx, w, o, iface, f, ds, dc, False)
            seen.add(w.cls(o))
        for o in cons:
            component(ctx, w, o, *VECTOR, True)
            seen.add(w.cls(o))
        if not lonely:
            network(ctx, w)
        ctx.used(w.ev)
    for iface in (COST, CONS):
        for c in sorted(H.concrete(iface)):
            if H.isa(c, "Network::Node") or H.isa(c, "Network::Edge"):
                ctx.ob("component-class-covered", c, c in seen, H.rec[c].get("file", ""), "no world contains it", key=c)
    ctx.floor("derivative-is-exact", 500)
    ctx.floor("network-derivative-is-exact", 500)


def attached(w, o):
    out = []
    for d in ("get_starting_edges", "get_ending_edges"):
        v, _ = w.call(o, NODE, d, commit=False)
        out += list(v.args)
    return out


def values(w, call, f, vector):
    """{row: term}"""
    if not vector:
        v, _ = call(f, NT, NS, CT)
        return {0: v}
    st0 = w.st.copy()
    v, e = call(f, F, NT, NS, CT)
    rows = rows_written(w.st)
    w.st.env = st0.env
    return rows


def where_of(w, cls, iface, f):
    g = w.impl(cls, iface, f)
    return "%s:%d" % (g["file"], g["l"])


def component(ctx, w, o, iface, f, ds, dc, vector):
    c = w.cls(o)
    vals = values(w, lambda n, *a: w.call(o, iface, n, *a), f, vector)
    a = b = None
    if vector:
        a, _ = w.call(o, iface, "get_constraint_startindex", commit=False)
        b, _ = w.call(o, iface, "get_constraint_afterindex", commit=False)
        own = set(range(int(a.args[0]), int(b.args[0])))
        ctx.ob("every-constraint-has-a-value", "%s in %s" % (c, w.desc), set(vals) == own, where_of(w, c, iface, f), "writes entries %s of %s" % (sorted(vals), sorted(own)), key=c)
    compare(ctx, "derivative-is-exact", w, c, "%s in %s" % (c, w.desc), vals, lambda n: w.call(o, iface, n, J, NT, NS, CT, commit=False)[1],
            ((ds, NS, w.nstate), (dc, CT, w.ncontrol)), lambda n: where_of(w, c, iface, n))


def compare(ctx, rule, w, cls, inst, vals, effects, derivs, where):
    for d, vec, n in derivs:
        C, calls = coefficients(effects(d))
        for r in sorted(set(vals) | {k[0] for k in C}):
            for c in range(n):
                got = C.get((r, c), ZERO)
                at = sites(calls, r, c) or where(d)
                ctx.zero(rule, "%s: %s row %d, d/d %s[%d]" % (inst, d, r, vec.args[0][1:], c), sub(diff(vals.get(r, ZERO), mk("elt", vec, num(c))), got), at,
                         key="%s::%s" % (cls, d))
        for r, c in C:
            ctx.ob("position-in-range", "%s: %s (%d,%d)" % (inst, d, r, c), r in vals and 0 <= c < n, sites(calls, r, c), key="%s::%s" % (cls, d))


def network(ctx, w):
    """the network's own functions, over the interpreted components"""
    n = FullNet(w)
    for (iface, f, ds, dc), vector in [(x, False) for x in SCALAR] + [(VECTOR, True)]:
        vals = values(w, lambda m, *a: n.call(iface, m, *a), f, vector)
        k, _ = w.H.final_overrider(NP, w.key(iface, f))
        g = w.P.functions[k]
        compare(ctx, "network-derivative-is-exact", w, NP, w.desc, vals, lambda m: n.call(iface, m, J, NT, NS, CT, commit=False)[1],
                ((ds, NS, w.nstate), (dc, CT, w.ncontrol)), lambda m: "%s:%d" % (g["file"], g["l"]))


run.explanation = ("Each cost and constraint component is interpreted with all parameters, states, controls and times symbolic, alone and through the network's "
                   "functions; every entry of the delivered derivative is compared with the syntactic derivative of the value.")
