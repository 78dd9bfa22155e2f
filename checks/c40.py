"""C40: gas-power plants convert between gas and power by their coefficients."""
from optworld import *
from c36 import *
import comptypes
import c36

TECHNIQUE = ("abstract interpretation of a gas-power connection between a gas node and a plant on symbolic states and coefficients, one path per region of flow; the equation of each region is compared with the conversion law, "
             "and neighbouring regions with each other at their common end (value and slope)")
NOTE = "The ends of the smoothed range are read off the path conditions; their size is not fixed, only that they lie around zero on both sides. Regions are located with exact sample flows."
GPC, PLANT = "Model::Gaspowerconnection::Gaspowerconnection", "Model::Gaspowerconnection::ExternalPowerplant"
G2P, P2G = mk("sym", "g2p"), mk("sym", "p2g")
S = 3
COEFS = (("0.7", "1.3"), ("1.3", "0.7"), ("43", "50"), ("0.001", "2000"), ("1", "1"), ("0", "1"), ("1", "0"), ("-0.5", "2"), ("2", "-0.5"))


def run(ctx):
    w = at(ctx, GPC + "::evaluate")
    paths = []
    for o in explore(lambda known: build(ctx, known), 200):
        ctx.units |= o.I.units
        if o.kind == "unmodelled":
            ctx.ob("conversion", "path of %s" % GPC, False, w, str(o.value), key="path", terms=(mk("unknown", str(o.value)[:80]),))
            continue
        paths.append(o)
    ctx.need(paths, "no path through %s" % GPC)
    q = mk("sym", "new%d" % (S + 1))
    laws = [(o, law(o, q)) for o in paths]
    ends = sorted({b for o, _ in laws for b in thresholds(o, q)})

    for coefs in COEFS:
        tag = ", coefficients %s and %s" % coefs

        def on(x):
            """the paths taken at flow x"""
            return [(o, f) for o, f in laws if taken(o, q, x, coefs)]
        big = max([abs(b) for b in ends] + [Fr(1)])
        for nm, x0, coef in (("burning gas", 2 * big, G2P), ("burning much gas", 1000 * big, G2P), ("producing gas", -2 * big, P2G), ("producing much gas", -1000 * big, P2G)):
            fs = on(x0)
            if not fs:
                ctx.ob("conversion", nm + tag, False, w, "no path", key=nm, terms=(mk("unknown", "no path"),))
            for o, f in fs:
                r = wrong(o, f) or (None if is_zero(sub(f, mul(coef, q)))[0] else "the power is %s instead of %s" % (show(f)[:200], show(mul(coef, q))))
                ctx.ob("conversion", nm + tag, r is None, w, r or "", key=nm, terms=uncertain(f))
        for o, f in on(Fr(0)):
            r = wrong(o, f) or (None if is_zero(subst(f, {q: num(0)}.get))[0] else "the power at zero flow is %s" % show(subst(f, {q: num(0)}.get)))
            ctx.ob("conversion", "no flow" + tag, r is None, w, r or "", key="zero", terms=uncertain(f))
        ctx.ob("smoothed-range", "around zero" + tag, not ends or min(ends) <= 0 <= max(ends), w, "the law changes at %s" % ends, key="range")
        e = min([b - a for a, b in zip(ends, ends[1:])] + [Fr(1)]) / 4
        for b in ends:
            for (o1, f) in on(b - e):
                for (o2, g) in on(b + e):
                    if o1 is o2 or wrong(o1, f) or wrong(o2, g):
                        continue
                    at_ = {q: num(b)}.get
                    for what, x, y in (("value", f, g), ("slope", diff(f, q), diff(g, q))):
                        d = sub(subst(x, at_), subst(y, at_))
                        ctx.ob("regions-join", "%s at flow %s%s" % (what, b, tag), is_zero(d)[0], w, "%s differs by %s" % (what, show(d)[:200]), key="join|" + what, terms=uncertain(f, g))
    for o, f in laws:
        if o.kind != "ok":
            continue
        (pa, qa), r = o.value[2], wrong(o, f)
        good = is_zero(sub(pa, mk("sym", "new%d" % S)))[0] and is_zero(sub(qa, q))[0] if r is None else True
        ctx.ob("gas-side", "pressure and flow at the gas node", good, w, "%s, %s" % (show(pa)[:80], show(qa)[:80]) if not good else "", key="gas-side", terms=uncertain(pa, qa))
    ctx.floor("conversion", 5 * len(COEFS)), ctx.floor("regions-join", 4)


def build(ctx, known):
    I = interp(ctx, known)
    c36.calm(I)

    def go():
        I.hooks[comptypes.VALIDATE] = lambda I, this, a, e: None
        P = I.P
        nodes = [new(I, "Model::Gas::Innode", Cell(to_j({"id": "a"}))), new(I, PLANT, Cell(to_j({"id": "b", "G": num(2), "B": num(-3), "boundary_values": BV})))]
        ns = Cell(ups(nodes))
        e = new(I, GPC, Cell(to_j({"id": "e", "from": "a", "to": "b", "gas2power_q_coeff": G2P, "power2gas_q_coeff": P2G})), ns)
        comptypes.method(I, nodes[1], "set_state_indices", 0)
        n = as_int(comptypes.method(I, e, "set_state_indices", S))
        for x in (*nodes, e):
            try:
                comptypes.method(I, x, "setup")
            except AnalysisBroken:
                pass
        F = c36.vec("", n + 1)
        new_ = c36.vec("new", n + 1)
        power = tt(val(comptypes.method(I, nodes[1], "P", Cell(new_))))
        comptypes.method(I, e, "evaluate", Cell(F), mk("sym", "t0"), mk("sym", "t1"), Cell(c36.vec("last", n + 1)), Cell(new_))
        ends = c36.const(I, e, c36.direction(ctx, "start"), new_)
        return power, [tt(x) for x in F.a[:, 0]], [tt(x) for x in ends]
    return I, go


BV = {"data": [{"time": num(0), "values": [mk("sym", "V0"), mk("sym", "phi0")]}, {"time": num(1), "values": [mk("sym", "V1"), mk("sym", "phi1")]}]}
VOLT = mk("sym", "new0")


run.explanation = ("A connection is built between a gas node and a plant and its equation interpreted on a symbolic state: every path is the law of a region of flow. In each region the law is solved for the plant's power (the plant's own function "
                   "is asked for it), and compared with coefficient times flow outside the smoothed range, with zero at zero flow, and with the law of the neighbouring region where they meet.")


def uncertain(*ts):
    return tuple(x for t in ts for x in subterms(t) if x.op in ("unknown", "havoc", "uninit"))


def law(o, q):
    """the power the equation prescribes on this path, as a function of the flow"""
    if o.kind != "ok":
        return num(0)
    power, rows, _ = o.value
    mine = [r for r in rows if r is not ZERO]
    if len(mine) != 1:
        return num(0)
    s = div(diff(mine[0], VOLT), diff(power, VOLT))
    s = canon(s)
    if s.op != "num" or s.args[0] == 0:
        return num(0)
    return sub(power, div(mine[0], s))


def wrong(o, f):
    if o.kind != "ok":
        return said(o)
    power, rows, _ = o.value
    mine = [r for r in rows if r is not ZERO]
    if len(mine) != 1:
        return "%d equations" % len(mine)
    s = canon(div(diff(mine[0], VOLT), diff(power, VOLT)))
    if s.op != "num" or s.args[0] == 0:
        return "the equation %s does not hold the power %s" % (show(mine[0])[:200], show(power)[:100])
    if not is_zero(diff(f, VOLT))[0]:
        return "the power depends on more than the flow: %s" % show(f)[:200]


def values(q, x, coefs):
    return {q: mpmath.mpf(x.numerator) / x.denominator, G2P: mpmath.mpf(coefs[0]), P2G: mpmath.mpf(coefs[1]), mk("sym", "t0"): mpmath.mpf("0.2"), mk("sym", "t1"): mpmath.mpf("0.4"), VOLT: mpmath.mpf("1.1"), mk("sym", "new1"): mpmath.mpf("0.1")}


def taken(o, q, x, coefs):
    return c36.holds(o.I.known, values(q, x, coefs)) is not False


def thresholds(o, q):
    """flows at which the branch conditions of this path may change"""
    out = set()
    for c in o.I.known:
        if q not in set(subterms(c)):
            continue
        for s in subterms(c):
            if s.op == "num":
                out |= {Fr(s.args[0]), -Fr(s.args[0])}
            # affine comparisons
        for a in c.args:
            if isinstance(a, T) and q in set(subterms(a)):
                k, b = diff(a, q), subst(a, {q: num(0)}.get)
                if k.op == "num" and k.args[0] != 0:
                    other = [y for y in c.args if y is not a]
                    z = other[0] if len(other) == 1 and isinstance(other[0], T) else num(0)
                    z = canon(div(sub(z, b), k))
                    if z.op == "num":
                        out.add(Fr(z.args[0]))
    return out
