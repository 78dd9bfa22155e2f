"""C26: gas node coupling and power balance."""
from worlds import *
import numeval
import mpmath
import random
from fractions import Fraction

TECHNIQUE = "abstract interpretation of node residuals; equivalence of the row system to the specified coupling conditions by an exact linear certificate"
NOTE = ("Decided for every state, time and parameter value; every orientation of 0..3 attached edges of every class. The certificate (a constant "
        "invertible matrix between the written rows and the specified conditions) is searched at sample points of the extracted terms and then "
        "verified symbolically. Which end's pressure and flow an edge reports is decided by dependence on that end's two state entries.")


def run(ctx):
    H, P = ctx.H, ctx.P
    ends(ctx)
    for w, what in worlds(ctx):
        for n in what:
            o = w.objs[n][0]
            c = w.cls(o)
            if H.isa(c, "Model::Gas::Gasnode"):
                gasnode(ctx, w, o)
            elif H.isa(c, "Model::Power::Powernode"):
                powernode(ctx, w, o)
            elif H.isa(c, "Model::Gaspowerconnection::Gaspowerconnection"):
                connection(ctx, w, o)
        ctx.used(w.ev)
    ctx.floor("gas-node-rows-equivalent", 100)
    ctx.floor("power-balance", 20)
    ctx.floor("end-depends-on-own-entries", 10)


_enum = {}


def enum(P, d):
    """the enumeration constant as the program declares it"""
    if not _enum:
        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "enum" and x["n"].startswith("Model::Gas::"):
                    _enum[x["n"].split("::")[-1]] = mk("enumc", x["n"], Fraction(int(x["v"])))
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        for f in P.functions.values():
            if f["q"].startswith("Model::Gas::"):
                walk(f["b"])
        if "start" not in _enum or "end" not in _enum:
            raise AnalysisBroken("direction constants start/end not found")
    return _enum[d]


def pq(w, e, d, vec=NS):
    v, effs = w.call(e, "Model::Gas::Gasedge", "get_boundary_p_qvol_bar", enum(w.P, d), vec, commit=False)
    return elt(w, v, 0), elt(w, v, 1)


def elt(w, v, i):
    if v.op == "vec":
        return v.args[i]
    raise AnalysisBroken("boundary values of %s are not a pair: %s" % (w.desc, show(v)[:200]))


def ends(ctx):
    H, P = ctx.H, ctx.P
    for w, what in worlds(ctx):
        if not w.desc.endswith("points"):
            continue
        e = w.objs["e"][0]
        a, b = w.range[e]
        where = site(w, e, "get_boundary_p_qvol_bar")
        for d, own in (("start", {a, a + 1}), ("end", {b - 2, b - 1})):
            p, q = pq(w, e, d)
            for nm, t in (("pressure", p), ("flow", q)):
                deps = {int(x.args[1].args[0]) for x in subterms(t) if x.op == "elt" and x.args[0] is NS and is_num(x.args[1])}
                bad = [x for x in subterms(t) if x in (LS, CT, LT, NT)]
                inst = "%s: %s at the %s" % (w.desc, nm, d)
                ctx.ob("end-depends-on-own-entries", inst, bool(deps) and deps <= own and not bad, where,
                       "depends on entries %s, own entries are %s" % (sorted(deps), sorted(own)), key="%s|%s|%s" % (w.cls(e), nm, d))
        # both ends report in the same way
        ps, qs = pq(w, e, "start")
        pe, qe = pq(w, e, "end")
        mv = lambda t: subst(t, lambda x: mk("elt", NS, num(int(x.args[1].args[0]) - a + b - 2))
                             if x.op == "elt" and x.args[0] is NS and is_num(x.args[1]) else None)
        ctx.zero("ends-use-same-conversion", "%s: pressure" % w.desc, sub(mv(ps), pe), where, key=w.cls(e))
        ctx.zero("ends-use-same-conversion", "%s: flow" % w.desc, sub(mv(qs), qe), where, key=w.cls(e))


def site(w, o, m):
    f = w.impl(w.cls(o), "Model::Gas::Gasedge", m)
    return "%s:%d" % (f["file"], f["l"])


def attached(w, o, which, iface):
    v, _ = w.call(o, NODE, which, commit=False)
    if v.op != "list":
        raise AnalysisBroken("edges of %s not determined" % w.cls(o))
    return [x.args[0] for x in v.args if x.op == "addr" and w.H.isa(w.cls(x.args[0]), iface)]


def rows_of(w, o):
    out = {}
    for iface, _ in equations(w, [n for n, (l, c) in w.objs.items() if l is o][0]):
        r, _e = residual(w, o, iface)
        out.update(r)
    return {k: subst(v, lambda t: NT if t is LT else None) for k, v in out.items()}


def boundary_atoms(w, o, terms):
    out = set()
    for t in terms:
        for x in subterms(t):
            if x.op == "elt" and x.args[0].op == "m" and any(Evaluator.root(y) is o for y in subterms(x.args[0]) if y.op == "fld"):
                out.add(x)
    return out


def gasnode(ctx, w, o):
    H = w.H
    cls = w.cls(o)
    rows = rows_of(w, o)
    E = []
    k = 0
    flow = ZERO
    ps = []
    where = "%s:%d" % ((lambda f: (f["file"], f["l"]))(w.impl(cls, EQ, "evaluate")))
    for d, g, s in (("start", "get_starting_edges", 1), ("end", "get_ending_edges", -1)):
        for e in attached(w, o, g, "Model::Gas::Gasedge"):
            p, q = pq(w, e, d)
            ps.append(p)
            flow = add(flow, scale(Fraction(s), q))
            k += 1
    inst = "%s in %s" % (cls, w.desc)
    if not ctx.ob("one-row-per-attached-end", inst, len(rows) == k, where, "%d rows for %d attached ends" % (len(rows), k), key=cls):
        return
    if k == 0:
        return
    ba = boundary_atoms(w, o, rows.values())
    kind = "pressure" if H.isa(cls, G + "Pressureboundarynode") else "inner" if H.isa(cls, G + "Innode") else "flow"
    want = 0 if kind == "inner" else 1
    if not ctx.ob("one-prescribed-quantity", inst, len(ba) == want, where, "boundary values used: %s" % [show(x)[:120] for x in ba], key=cls):
        return
    b = ba.pop() if ba else ZERO
    if kind == "pressure":
        E = [sub(p, b) for p in ps]
    else:
        E = [sub(ps[i + 1], ps[i]) for i in range(k - 1)] + [sub(flow, b)]
    R = [rows[r] for r in sorted(rows)]
    M = certificate(R, E)
    if M is None:
        ctx.ob("gas-node-rows-equivalent", inst, False, where,
               "rows %s are not an invertible constant combination of the coupling conditions %s" % ([show(x)[:160] for x in R], [show(x)[:160] for x in E]), key=cls)
        return
    ok = True
    for i, r in enumerate(R):
        t = sub(r, add(*[scale(M[i][j], E[j]) for j in range(k)]))
        ok &= ctx.zero("row-is-combination", "%s, row %d" % (inst, sorted(rows)[i]), t, where, key=cls)
    ctx.ob("gas-node-rows-equivalent", inst, det(M) != 0, where, "the written rows do not determine all coupling conditions", key=cls)


def det(M):
    M = [list(r) for r in M]
    n, d = len(M), Fraction(1)
    for i in range(n):
        p = next((r for r in range(i, n) if M[r][i] != 0), None)
        if p is None:
            return Fraction(0)
        if p != i:
            M[i], M[p] = M[p], M[i]
            d = -d
        d *= M[i][i]
        for r in range(i + 1, n):
            f = M[r][i] / M[i][i]
            for c in range(i, n):
                M[r][c] -= f * M[i][c]
    return d


def certificate(R, E):
    """constant M with R = M E, found from sample points of the terms"""
    k = len(E)
    for attempt in range(6):
        rng = random.Random(100 + attempt)
        A, B = [], []
        tries = 0
        while len(A) < k + 2 and tries < 60:
            tries += 1
            pt = numeval.Point(rng, (-1, 1.5))
            memo = {}
            try:
                e = [numeval.value(t, pt, memo) for t in E]
                r = [numeval.value(t, pt, memo) for t in R]
            except (numeval.Undefined, ZeroDivisionError, OverflowError):
                continue
            if any(isinstance(x, mpmath.mpc) for x in e + r):
                continue
            A.append(e)
            B.append(r)
        if len(A) < k + 2:
            continue
        try:
            X = mpmath.lu_solve(mpmath.matrix(A[:k]), mpmath.matrix(B[:k])) if False else mpmath.inverse(mpmath.matrix(A[:k])) * mpmath.matrix(B[:k])
        except ZeroDivisionError:
            continue
        M = [[None] * k for _ in range(k)]
        for i in range(k):
            for j in range(k):
                v = X[j, i]
                fr = Fraction(str(mpmath.nstr(v, 25))).limit_denominator(1000)
                if abs(mpmath.mpf(fr.numerator) / fr.denominator - v) > mpmath.mpf(10) ** -12:
                    return None
                M[i][j] = fr
        return M
    return None


def powerflow(w, o, vec):
    """voltage, angle, and the power the node feeds into its lines"""
    PN = "Model::Power::Powernode"
    g = lambda x, m, i=PN: w.call(x, i, m, commit=False)[0]
    start = lambda x: int(g(x, "get_state_startindex", ST).args[0])
    i0 = start(o)
    V, phi = mk("elt", vec, num(i0)), mk("elt", vec, num(i0 + 1))
    Gi, Bi = g(o, "get_G"), g(o, "get_B")
    Pt, Qt = mul(Gi, V, V), neg(mul(Bi, V, V))
    for meth, other in (("get_starting_edges", "get_ending_node"), ("get_ending_edges", "get_starting_node")):
        for l in attached(w, o, meth, TRANSMISSION):
            Gk, Bk = [w.call(l, TRANSMISSION, m, commit=False)[0] for m in ("get_G", "get_B")]
            k, _ = w.call(l, EDGE, other, commit=False)
            k = k.args[0]
            j = start(k)
            Vk, ph = mk("elt", vec, num(j)), mk("elt", vec, num(j + 1))
            dphi = sub(phi, ph)
            c, s = fn("cos", dphi), fn("sin", dphi)
            Pt = add(Pt, mul(V, Vk, add(mul(Gk, c), mul(Bk, s))))
            Qt = add(Qt, mul(V, Vk, sub(mul(Gk, s), mul(Bk, c))))
    return V, phi, Pt, Qt


def powernode(ctx, w, o):
    H = w.H
    cls = w.cls(o)
    rows = rows_of(w, o)
    PN = "Model::Power::Powernode"
    g = lambda x, m, i=PN: w.call(x, i, m, commit=False)[0]
    V, phi, Pt, Qt = powerflow(w, o, NS)
    inst = "%s in %s" % (cls, w.desc)
    for nm, t in (("P", Pt), ("Q", Qt)):
        f = w.impl(cls, PN, nm)
        v, _ = w.call(o, PN, nm, NS, commit=False)
        ctx.zero("power-balance", "%s: %s" % (inst, nm), sub(v, t), "%s:%d" % (f["file"], f["l"]), key="%s|%s" % (f["q"], nm))
    f = w.impl(cls, EQ, "evaluate")
    where = "%s:%d" % (f["file"], f["l"])
    if not ctx.ob("two-rows-per-power-node", inst, len(rows) == 2, where, str(sorted(rows)), key=cls):
        return
    R = [rows[r] for r in sorted(rows)]
    short = cls.split("::")[-1]
    if H.isa(cls, PW + "StochasticPQnode"):
        cP, cQ = g(o, "get_current_P", PW + "StochasticPQnode"), g(o, "get_current_Q", PW + "StochasticPQnode")
        E = [sub(Pt, cP), sub(Qt, cQ)]
    else:
        ba = boundary_atoms(w, o, R)
        bs = {int(x.args[1].args[0]): x for x in ba if is_num(x.args[1])}
        if not ctx.ob("two-prescribed-quantities", inst, len(ba) == 2 and set(bs) == {0, 1}, where, "boundary values used: %s" % [show(x)[:120] for x in ba], key=cls):
            return
        b0, b1 = bs[0], bs[1]
        E = {"PQnode": [sub(Pt, b0), sub(Qt, b1)], "PVnode": [sub(Pt, b0), sub(V, b1)],
             "Vphinode": [sub(V, b0), sub(phi, b1)], "ExternalPowerplant": [sub(V, b0), sub(phi, b1)]}.get(short)
        if E is None:
            ctx.need(False, "power node %s has no specification" % cls)
    M = certificate(R, E)
    if M is None or det(M) == 0:
        ctx.ob("power-node-rows-equivalent", inst, False, where,
               "rows %s are not equivalent to %s" % ([show(x)[:200] for x in R], [show(x)[:200] for x in E]), key=cls)
        return
    for i, r in enumerate(R):
        ctx.zero("power-node-rows-equivalent", "%s, row %d" % (inst, i), sub(r, add(*[scale(M[i][j], E[j]) for j in range(2)])), where, key=cls)


def connection(ctx, w, o):
    """generated power of the plant is a function of the connection's own flow"""
    cls = w.cls(o)
    rows = rows_of(w, o)
    f = w.impl(cls, EQ, "evaluate")
    where = "%s:%d" % (f["file"], f["l"])
    end, _ = w.call(o, EDGE, "get_ending_node", commit=False)
    plant = end.args[0]
    Pp, _ = w.call(plant, "Model::Power::Powernode", "P", NS, commit=False)
    a, b = w.range[o]
    own = {mk("elt", NS, num(i)) for i in range(a, b)}
    inst = "%s in %s" % (cls, w.desc)
    ctx.ob("connection-has-one-equation", inst, len(rows) == 1, where, str(sorted(rows)), key=cls)
    for r, t in rows.items():
        for s in (1, -1):
            d = canon(sub(t, scale(Fraction(s), Pp)))
            deps = {x for x in subterms(d) if x.op == "elt" and x.args[0] is NS}
            if deps <= own:
                break
        q = mk("elt", NS, num(b - 1))
        ctx.ob("plant-power-is-function-of-gas-flow", inst, deps == {q}, where,
               "row minus the plant's power depends on %s" % [show(x) for x in deps], key=cls)


run.explanation = ("Residual rows of every node class in every small network are extracted as terms. For gas nodes a constant invertible matrix must relate "
                   "them to: equal pressure of neighbouring ends, and signed flow sum minus the prescribed exchange (or prescribed pressure at each end). "
                   "Power nodes: P and Q must equal the AC power flow expressions over all attached lines.")
