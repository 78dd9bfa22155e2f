"""The finite family of object graphs used by the component properties."""
import itertools
from model import *

G, PW, GP = "Model::Gas::", "Model::Power::", "Model::Gaspowerconnection::"
DERIV = {EQ: [("d_evaluate_d_new_state", NS, "s"), ("d_evaluate_d_last_state", LS, "s")],
         CO: [("d_evaluate_d_new_state", NS, "s"), ("d_evaluate_d_last_state", LS, "s"), ("d_evaluate_d_control", CT, "c")]}
TRANSMISSION = PW + "Transmissionline"


def offered(H, cls):
    """a component users can select: it declares its own type name (base classes
    such as Gasnode inherit the deleted one)"""
    return any(m["n"] == "get_type" for m in H.rec[cls]["methods"])


def classes(H):
    eq = [c for c in sorted(H.concrete("Model::Equation_base")) if H.isa(c, EQ) or H.isa(c, CO) or H.isa(c, NODE)]
    gasedge = [c for c in sorted(H.concrete("Model::Gas::Gasedge"))]
    gaspow = [c for c in gasedge if H.isa(c, GP + "Gaspowerconnection")]
    gasedge = [c for c in gasedge if c not in gaspow]
    gasnode = sorted(c for c in H.concrete("Model::Gas::Gasnode") if offered(H, c))
    pownode = [c for c in sorted(H.concrete("Model::Power::Powernode"))]
    ext = [c for c in pownode if H.isa(c, GP + "ExternalPowerplant")]
    pownode = [c for c in pownode if c not in ext]
    return gasedge, gaspow, gasnode, pownode, ext


def plans(ctx):
    """yield (description, nodes, edges, points, names to check)"""
    H = ctx.H
    gasedge, gaspow, gasnode, pownode, ext = classes(H)
    ctx.need(len(gasedge) >= 4 and len(gaspow) == 1 and len(gasnode) >= 5 and len(pownode) >= 4 and len(ext) == 1,
             "component classes not found: %s" % ((gasedge, gaspow, gasnode, pownode, ext),))
    sh = lambda c: c.split("::")[-1]
    inner = G + "Innode"
    # edges alone, several grid sizes
    for e in gasedge:
        for n in ((2, 3, 4, 5) if ctx.thorough else (2, 3, 4)):
            yield "%s with %d points" % (sh(e), n), [("A", inner), ("B", inner)], [("e", e, "A", "B")], n, ["e"]
    # gas nodes with attached edges, all orientations
    gp = gaspow[0]
    for nd in gasnode:
        for k in (0, 1, 2, 3):
            if k <= 1 or (k == 2 and (ctx.thorough or nd == inner or True)):
                combos = itertools.product(itertools.product(gasedge, "sE"), repeat=k)
            else:
                pool = [(gasedge[0], "s"), (gasedge[0], "E"), (gasedge[-1], "s"), (gasedge[2], "E")]
                combos = itertools.product(pool[: 4 if ctx.thorough else 3], repeat=k)
            if k == 2 and not ctx.thorough:
                combos = [c for c in combos if c[0][0] == gasedge[0] or c[0][0] == c[1][0] or c[1][0] == gasedge[2]]
            for combo in combos:
                nodes, edges = [("N", nd)], []
                for i, (e, d) in enumerate(combo):
                    nodes.append(("B%d" % i, inner))
                    edges.append(("e%d" % i, e) + (("N", "B%d" % i) if d == "s" else ("B%d" % i, "N")))
                yield "%s with %s" % (sh(nd), ",".join(sh(e) + ("-out" if d == "s" else "-in") for e, d in combo) or "no edges"), \
                    nodes, edges, 2, ["N"]
        # a gas node feeding a power plant, and a pipe
        for extra in ([], [("p", gasedge[2], "N", "B")], [("p", gasedge[2], "B", "N")]):
            yield "%s with power connection and %d edges" % (sh(nd), len(extra)), \
                [("N", nd), ("X", ext[0])] + ([("B", inner)] if extra else []), [("g", gp, "N", "X")] + extra, 2, ["N", "g"]
    # many attached edges (a rule that only breaks beyond some degree)
    simple = [e for e in gasedge if e.endswith("Shortpipe")] + [gasedge[0]]
    for nd in gasnode:
        dirs = "sEssEEs" if not ctx.thorough else "sEssEEsEs"
        nodes, edges = [("N", nd)], []
        for i, d in enumerate(dirs):
            nodes.append(("B%d" % i, inner))
            edges.append(("e%d" % i, simple[0]) + (("N", "B%d" % i) if d == "s" else ("B%d" % i, "N")))
        yield "%s with %d edges" % (sh(nd), len(dirs)), nodes, edges, 2, ["N"]
    for nd in pownode:
        dirs = "sEssE" if not ctx.thorough else "sEssEEs"
        nodes, edges = [("N", nd)], []
        for i, d in enumerate(dirs):
            nodes.append(("K%d" % i, pownode[i % len(pownode)]))
            edges.append(("l%d" % i, TRANSMISSION) + (("N", "K%d" % i) if d == "s" else ("K%d" % i, "N")))
        yield "%s with %d lines" % (sh(nd), len(dirs)), nodes, edges, 2, ["N"]
    # parallel edges between the same two nodes
    yield "Innode pair with parallel edges", [("N", inner), ("M", inner)], \
        [("e0", gasedge[2], "N", "M"), ("e1", gasedge[3], "N", "M"), ("e2", gasedge[0], "M", "N")], 2, ["N", "M"]
    # power nodes
    for nd in pownode + ext:
        for k in ((0, 1, 2, 3) if ctx.thorough else (0, 1, 2)):
            for dirs in itertools.product("sE", repeat=k):
                nodes, edges = [("N", nd)], []
                if nd in ext:
                    nodes.append(("A", inner))
                    edges.append(("g", gp, "A", "N"))
                for i, d in enumerate(dirs):
                    nodes.append(("K%d" % i, pownode[i % len(pownode)]))
                    edges.append(("l%d" % i, TRANSMISSION) + (("N", "K%d" % i) if d == "s" else ("K%d" % i, "N")))
                yield "%s with %d lines %s" % (sh(nd), k, "".join(dirs)), nodes, edges, 2, ["N"] + (["g"] if nd in ext else [])
    nd = pownode[0]
    yield "two parallel lines", [("N", nd), ("K", pownode[1])], [("l0", TRANSMISSION, "N", "K"), ("l1", TRANSMISSION, "K", "N")], 2, ["N", "K"]


def worlds(ctx):
    for desc, nodes, edges, pts, what in plans(ctx):
        w = World(ctx.P, ctx.H)
        w.desc = desc
        w.build(nodes, edges, pts)
        yield w, what


def equations(w, n):
    o = w.objs[n][0]
    for iface in (EQ, CO):
        if w.H.isa(w.cls(o), iface):
            yield iface, o


def residual(w, o, iface):
    """{row: term}, effects"""
    args = [F, LT, NT, LS, NS] + ([CT] if iface == CO else [])
    st0 = w.st.copy()
    v, e = w.call(o, iface, "evaluate", *args)
    rows = rows_written(w.st)
    w.st = st0
    return rows, e


def jacobian(w, o, iface, meth):
    args = [J, LT, NT, LS, NS] + ([CT] if iface == CO else [])
    v, e = w.call(o, iface, meth, *args, commit=False)
    return coefficients(e)


def sites(calls, r, c):
    s = sorted({str(e.where()) for a, b, v, e in calls if a == r and b == c})
    return "; ".join(s[:3])
