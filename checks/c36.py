"""C36: gas edges obey the equations they stand for."""
import itertools
import random
import mpmath
import numeval
from objs import *
from comptypes import method
from c26 import enum
from fractions import Fraction as Fr

TECHNIQUE = ("abstract interpretation of construction, residual, conversion and initial values of the gas edges on symbolic states and parameters, one path per combination of friction regimes; "
             "the extracted terms are compared with the model equations by identity testing on the regime, linear ones exactly")
NOTE = ("Every combination of laminar, transitional and turbulent flow in both directions at the ends of a cell; grids of 2 to 4 points (every further cell is another turn of the same loop). A constant factor of a row and the order of "
        "the rows are not fixed. Real arithmetic. The constants of the pressure law are not fixed, only its form.")
PIPE = "Model::Gas::Pipe"
EDGE = "Model::Gas::Gasedge"
VALIDATE = "Aux::schema::validate_json"
D, ROUGH, T0, T1 = (mk("sym", n) for n in ("D", "rough", "t0", "t1"))
SHORT = {"Model::Gas::Shortpipe": 0, "Model::Gas::Compressorstation": 1, "Model::Gas::Controlvalve": -1}
RHO0, ETA = mpmath.mpf("0.785"), mpmath.mpf("1e-5")
START = 3          # where the edge's own states begin
RE = {"laminar": (50, 1900), "transitional": (2100, 3900), "turbulent": (4100, 2000000)}


def run(ctx):
    P = ctx.P
    ctx.need(any(f.get("ctor") and f.get("rc") == PIPE for f in P.functions.values()), "Pipe not found")
    law = pressure(ctx)
    grid(ctx)
    if law is not None:
        cells(ctx, law)
    initial(ctx)
    for c, s in sorted(SHORT.items()):
        short(ctx, c, s)
    for r, n in (("pressure-law", 1), ("grid", 5), ("pipe-equations", 20), ("initial-values-kept", 3), ("short-edge", 3)):
        ctx.floor(r, n)


def length(x, u="m"):
    return {"value": x, "unit": u}


def calm(I):
    I.hooks[VALIDATE] = lambda I, t, a, e: None


def ends(I):
    return [new(I, "Model::Gas::Innode", Cell(to_j({"id": x}))) for x in ("a", "b")]


def pipe(I, total=num(1000), dx=num(500), unit="m", shift=START):
    calm(I)
    doc = to_j({"id": "p", "from": "a", "to": "b", "length": length(total), "diameter": length(D, unit), "roughness": length(ROUGH, unit), "desired_delta_x": dx,
                "balancelaw": "Isothermaleulerequation", "scheme": "Implicitboxscheme"})
    p = new(I, PIPE, Cell(doc), Cell(ups(ends(I))))
    n = method(I, p, "set_state_indices", shift)
    return p, as_int(n)


def vec(name, n):
    a = np.empty((n, 1), dtype=object)
    for i in range(n):
        a[i, 0] = mk("sym", "%s%d" % (name, i)) if name else ZERO
    return Mat(a, False)


def const(I, p, d, state):
    v = method(I, p, "get_boundary_p_qvol_bar", d, Cell(state))
    return v.a[:, 0]


def direction(ctx, d):
    return int(enum(ctx.P, d).args[1])


# ------------------------------------------------------------ the conversions

def pressure(ctx):
    """p(rho) as the pipe reports it, in bar"""
    w = at(ctx, PIPE + "::get_boundary_p_qvol_bar")
    found = {}
    for d in ("start", "end"):
        def go(I):
            p, n = pipe(I)
            return const(I, p, direction(ctx, d), vec("new", n + 2)), n

        def judge(o):
            if o.kind != "ok":
                return said(o)
            v, n = o.value
            i = START if d == "start" else n - 2
            rho, q = (mk("sym", "new%d" % k) for k in (i, i + 1))
            if not is_zero(sub(tt(v[1]), q))[0]:
                return "the flow at the %s is reported as %s" % (d, show(tt(v[1]))[:80])
            t = subst(tt(v[0]), lambda x: RHO if x is rho else None)
            # rho/p = 1/(c^2 (1 + alpha p)): p/rho is an affine function of p
            a, b, c = (evaluate(t, {RHO: mpmath.mpf(x)}) for x in (10, 20, 37))
            if None in (a, b, c):
                return "the pressure at the %s depends on more than the density there: %s" % (d, show(t)[:100])
            if min(a, b, c) <= 0 or not a < b < c:
                return "the pressure does not increase with the density"
            slope = (b / 20 - a / 10) / (b - a)
            if abs(c / 37 - (a / 10 + slope * (c - a))) > mpmath.mpf(10) ** -12 * c:
                return "p/rho is not an affine function of p"
            found[d] = t
            return None
        prove(ctx, "pressure-law", "pressure and flow at the %s" % d, go, judge, w, key="pressure|" + d)
    return found.get("start")


RHO = mk("sym", "rho")


def evaluate(t, vals):
    """value at a point, None if it depends on anything else"""
    pt = numeval.Point(random.Random(1), (-1, 1), vals)
    try:
        v = numeval.value(tt(t), pt, {})
    except (numeval.Undefined, ZeroDivisionError):
        return None
    return v if set(pt.v) <= set(vals) else None


# ------------------------------------------------------------ the grid

def grid(ctx):
    w = at(ctx, PIPE + "::get_Delta_x")
    for total, dx in ((1000, 500), (1000, 300), (1000, 1000), (1000, 5000), (7, Fr(1, 2)), (Fr(1, 3), Fr(1, 5)), (100, Fr(301, 10)), (99, 100), (101, 100), (12345, 250)):
        total, dx = Fr(total), Fr(dx)

        def go(I):
            p, n = pipe(I, num(total), num(dx))
            return method(I, p, "get_number_of_points"), method(I, p, "get_Delta_x"), method(I, p, "get_length"), method(I, p, "needed_number_of_states"), n

        def judge(o):
            if o.kind != "ok":
                return said(o)
            k, d, l, s, n = o.value
            k, s = as_int(k), as_int(s)
            d, l = nf_num(d), nf_num(l)
            if k < 2:
                return "%d grid points" % k
            if d * (k - 1) != total or l != total:
                return "%d points at distance %s make a pipe of length %s (get_length: %s), the pipe is %s long" % (k, d, d * (k - 1), l, total)
            if d > dx:
                return "points at distance %s, at most %s is desired" % (d, dx)
            if k > 2 and total / (k - 2) <= dx:
                return "%d points although %d suffice" % (k, k - 1)
            if s != 2 * k or n != START + 2 * k:
                return "%d states for %d points" % (s, k)
            return None
        prove(ctx, "grid", "length %s, desired step %s" % (total, dx), go, judge, w, key="grid")


def nf_num(t):
    t = tt(t)
    if t.op != "num":
        raise Unmodelled("not a number: %s" % show(t)[:80])
    return Fr(t.args[0])


# ------------------------------------------------------------ the equations in the cells

def swamee_jain(Re, d, k):
    return mpmath.mpf("0.25") / mpmath.log10(k / (mpmath.mpf("3.7") * d) + mpmath.mpf("5.74") / Re ** mpmath.mpf("0.9")) ** 2


def friction(Re, d, k):
    """64/Re up to 2000, Swamee-Jain from 4000, in between the cubic with the same values and slopes at both ends"""
    if Re < 2000:
        return 64 / Re
    if Re > 4000:
        return swamee_jain(Re, d, k)
    a, b = mpmath.mpf(2000), mpmath.mpf(4000)
    s = (Re - a) / (b - a)
    y0, y1 = 64 / a, swamee_jain(b, d, k)
    m0, m1 = -64 / (a * a) * (b - a), mpmath.diff(lambda x: swamee_jain(x, d, k), b) * (b - a)
    return (2 * s ** 3 - 3 * s ** 2 + 1) * y0 + (s ** 3 - 2 * s ** 2 + s) * m0 + (3 * s ** 2 - 2 * s ** 3) * y1 + (s ** 3 - s ** 2) * m1


def spec(v, i, dx, law, unit):
    """mass and momentum equation of the cell whose left state begins at i"""
    V = lambda n: v[mk("sym", n)]
    d, k = v[D] * unit, v[ROUGH] * unit
    A = mpmath.pi * d * d / 4
    dt = v[T1] - v[T0]

    def at_(name, j):
        return V("%s%d" % (name, j)), V("%s%d" % (name, j + 1))

    def flux(rho, q):
        p = evaluate(law, {RHO: rho}) * 100000
        return RHO0 / A * q, A / RHO0 * p + RHO0 / A * q * q / rho

    def source(rho, q):
        Re = RHO0 * d * abs(q) / (A * ETA)
        return -RHO0 / (2 * A * d) * friction(Re, d, k) * abs(q) * q / rho
    (rl, ql), (rr, qr) = at_("new", i), at_("new", i + 2)
    (ol, oql), (orr, oqr) = at_("last", i), at_("last", i + 2)
    (fl, gl), (fr, gr) = flux(rl, ql), flux(rr, qr)
    mass = [rl / 2, rr / 2, -ol / 2, -orr / 2, -dt / dx * fl, dt / dx * fr]
    mom = [ql / 2, qr / 2, -oql / 2, -oqr / 2, -dt / dx * gl, dt / dx * gr, -dt / 2 * source(rl, ql), -dt / 2 * source(rr, qr)]
    return mass, mom


def point(rng, regimes, n, base, unit):
    """numbers for all symbols with these flow regimes at the grid points"""
    v = dict(base)
    d = v[D] * unit
    A = mpmath.pi * d * d / 4
    for i in range(n):
        v[mk("sym", "new%d" % i)] = mpmath.mpf(rng.uniform(1, 60))
        v[mk("sym", "last%d" % i)] = mpmath.mpf(rng.uniform(1, 60))
    for j, (r, s) in enumerate(regimes):
        a, b = RE[r]
        Re = mpmath.mpf(a) * (mpmath.mpf(b) / a) ** mpmath.mpf(rng.random())
        v[mk("sym", "new%d" % (START + 2 * j + 1))] = s * Re * A * ETA / (d * RHO0)
    return v


def holds(known, v):
    """do the branch conditions hold at the point (None: they depend on something else)"""
    pt = numeval.Point(random.Random(1), (-1, 1), v)
    memo = {}
    for c, b in known.items():
        try:
            if bool(numeval.value(c, pt, memo)) != b:
                return False
        except (numeval.Undefined, ZeroDivisionError):
            return None
    return True if set(pt.v) <= set(v) else None


def cells(ctx, law):
    both = [(r, s) for r in sorted(RE) for s in (1, -1)]
    plans = [((a, b), "m", 500, 500) for a in both for b in both]
    for pts in ((both[0], both[2], both[4]), (both[5], both[3], both[1]), (both[2], both[5], both[4], both[1])):
        plans.append((pts, "m", 750 * (len(pts) - 1), 800))
    plans += [((both[4], both[2]), "mm", 700, 1000), ((both[1], both[0]), "mm", 700, 1000)]
    for regimes, unit, total, dx in plans:
        cell(ctx, law, regimes, unit, total, dx)


def cell(ctx, law, regimes, unit, total, dx):
    w = at(ctx, PIPE + "::evaluate")
    rng = random.Random(str(regimes) + unit)
    u = mpmath.mpf(1) if unit == "m" else mpmath.mpf(1) / 1000
    base = {D: mpmath.mpf(rng.uniform(0.3, 1.4)) / u, ROUGH: mpmath.mpf(rng.uniform(5e-6, 1e-3)) / u, T0: mpmath.mpf(rng.uniform(0, 50)), T1: mpmath.mpf(rng.uniform(60, 5000))}
    k = len(regimes)
    n = START + 2 * k + 2
    pts = [point(rng, regimes, n, base, u) for _ in range(4)]
    pts += [point(rng, regimes, n, {**base, T1: mpmath.mpf(rng.uniform(60, 5000))}, u) for _ in range(2)]
    name = "%d points, %s%s" % (k, ", ".join("%s %s" % (r, "forward" if s > 0 else "backward") for r, s in regimes), "" if unit == "m" else ", diameter in " + unit)

    def make(known):
        I = interp(ctx, known)

        def go():
            p, e = pipe(I, num(total), num(dx), unit)
            if e != START + 2 * k:
                raise Unmodelled("%d states" % (e - START))
            F = vec("", n)
            method(I, p, "evaluate", Cell(F), T0, T1, Cell(vec("last", n)), Cell(vec("new", n)))
            return F.a[:, 0]
        return I, go
    outs = []
    lost = None
    try:
        for o in explore(make, 60, lambda known: holds(known, pts[0]) is not False):
            ctx.units |= o.I.units
            outs.append(o)
    except Unmodelled as x:
        lost = str(x)
    fits = [o for o in outs if holds(o.known, pts[0])]
    if len(fits) != 1 or lost:
        ctx.ob("pipe-equations", name, False, w, "paths: %d, %s" % (len(fits), lost), key="cells", terms=(mk("unknown", "%d paths %s" % (len(fits), lost)),))
        return
    o = fits[0]
    if o.kind == "unmodelled":
        ctx.ob("pipe-equations", name, False, w, str(o.value), key="cells", terms=(mk("unknown", str(o.value)),))
        return
    if o.kind != "ok":
        ctx.ob("pipe-equations", name, False, w, "the residual cannot be evaluated: %s" % said(o), key="cells")
        return
    rows = [tt(x) for x in o.value]
    bad = None
    used = 0
    step = mpmath.mpf(total) / (k - 1)
    own = range(START + 1, START + 2 * k - 1)
    other = [i for i in range(n) if i not in own and rows[i] is not ZERO and not is_zero(rows[i])[0]]
    if other:
        bad = "row %d is written, the pipe's rows are %d to %d" % (other[0], own[0], own[-1])
    got, want = [], []
    for v in pts:
        if holds(o.known, v) is not True:
            continue
        used += 1
        got.append([evaluate(rows[i], v) for i in own])
        want.append([e for j in range(k - 1) for e in spec(v, START + 2 * j, step, law, u)])
    if not bad and (used < 2 or any(x is None for g in got for x in g)):
        ctx.ob("pipe-equations", name, False, w, "rows depend on unknown quantities", key="cells", terms=(mk("unknown", "rows"),))
        return
    if not bad:
        bad = match(got, want)
    ctx.ob("pipe-equations", name, not bad, w, bad or "%d points in the regime" % used, key="cells")


def match(got, want):
    """every equation is one of the rows up to a constant factor"""
    names = ["%s equation of cell %d" % (e, j) for j in range(len(want[0]) // 2) for e in ("mass", "momentum")]
    free = list(range(len(got[0])))
    for j, nm in enumerate(names):
        total = [sum(x[j]) for x in want]
        size = [sum(abs(y) for y in x[j]) for x in want]

        def fits(i):
            f = got[0][i] / total[0]
            return f != 0 and all(abs(g[i] - f * t) <= mpmath.mpf(10) ** -11 * abs(f) * s for g, t, s in zip(got, total, size))
        r = next((i for i in free if fits(i)), None)
        if r is None:
            c = min(free, key=lambda i: abs(abs(got[0][i]) - abs(total[0]))) if free else 0
            return "no row is the %s; closest: %s instead of %s" % (nm, mpmath.nstr(got[0][c], 8), mpmath.nstr(total[0], 8))
        free.remove(r)
    return None


# ------------------------------------------------------------ initial values

def initial(ctx):
    """initial pressure and flow given at the grid points are the ones the pipe reports"""
    w = at(ctx, PIPE + "::set_initial_values")
    for k in (2, 3, 4):
        qs = [(mk("sym", "p%d" % i), mk("sym", "q%d" % i)) for i in range(k)]

        def go(I):
            p, n = pipe(I, num(100 * (k - 1)), num(100))
            doc = to_j({"id": "p", "data": [{"x": num(100 * i), "values": list(v)} for i, v in enumerate(qs)]})
            F = vec("", n + 2)
            method(I, p, "set_initial_values", Cell(F), Cell(doc))
            out = []
            for i in range(k):
                # the pipe's own reporting applied to this grid point
                s = vec("", n + 2)
                s.a[START:START + 2, 0] = F.a[START + 2 * i:START + 2 * i + 2, 0]
                out.append(const(I, p, direction(ctx, "start"), s))
            return out, F.a[:, 0]

        def judge(o):
            if o.kind != "ok":
                return said(o)
            out, F = o.value
            for i, (p, q) in enumerate(qs):
                if not is_zero(sub(tt(out[i][0]), p))[0]:
                    return "pressure %s bar given at point %d becomes %s" % (show(p), i, show(tt(out[i][0]))[:100])
                if not is_zero(sub(tt(out[i][1]), q))[0]:
                    return "flow %s given at point %d becomes %s" % (show(q), i, show(tt(out[i][1]))[:100])
            return None
        prove(ctx, "initial-values-kept", "pipe with %d points" % k, go, judge, w, key="initial")


# ------------------------------------------------------------ short edges

def short(ctx, cls, sign):
    """flow in = flow out; the pressure rises by sign * control"""
    w = at(ctx, cls + "::evaluate")

    def go(I):
        calm(I)
        doc = to_j({"id": "s", "from": "a", "to": "b", "cost_weight": num(1), "penalty_weight": num(1)})
        e = new(I, cls, Cell(doc), Cell(ups(ends(I))))
        n = as_int(method(I, e, "set_state_indices", START))
        if n != START + 4:
            return "%d states" % (n - START), None
        F = vec("", n + 2)
        args = [Cell(F), T0, T1, Cell(vec("last", n + 2)), Cell(vec("new", n + 2))]
        if sign:
            c = as_int(method(I, e, "set_control_indices", 2))
            if c != 3:
                return "%d controls" % (c - 2), None
            args.append(Cell(vec("u", 4)))
        method(I, e, "evaluate", *args)
        new_ = vec("new", n + 2)
        ps = [const(I, e, direction(ctx, d), new_) for d in ("start", "end")]
        return ps, F.a[:, 0]

    def judge(o):
        if o.kind != "ok":
            return said(o)
        ps, F = o.value
        if F is None:
            return ps
        rows = [tt(x) for x in F]
        (pa, qa), (pb, qb) = [[tt(x) for x in p] for p in ps]
        mine = [r for r in rows if r is not ZERO]
        want = [sub(sub(pb, pa), scale(Fr(sign), mk("sym", "u2"))), sub(qb, qa)]
        if len(mine) != 2:
            return "%d equations" % len(mine)
        atoms = sorted({x for t in mine + want for x in subterms(t) if x.op == "sym"}, key=show)
        rowsm = [coeffs(t, atoms) for t in mine]
        specm = [coeffs(t, atoms) for t in want]
        if rank(rowsm) != 2:
            return "the two equations are not independent: %s" % "; ".join(show(t)[:80] for t in mine)
        if rank(rowsm + specm) != 2:
            return "the equations %s do not say: pressure %s, flow in = flow out" % (
                "; ".join(show(t)[:80] for t in mine), "unchanged" if not sign else "raised by the control" if sign > 0 else "lowered by the control")
        return None
    prove(ctx, "short-edge", cls, go, judge, w, key=cls)


def coeffs(t, atoms):
    z = {a: ZERO for a in atoms}
    out = []
    for a in atoms:
        c = diff(t, a)
        c = canon(c) if c.op != "num" else c
        if c.op != "num":
            raise Unmodelled("not linear: %s" % show(t)[:100])
        out.append(Fr(c.args[0]))
    c = subst(t, lambda x: ZERO if x in z else None)
    if c.op != "num":
        c = canon(c)
    if c.op != "num":
        raise Unmodelled("not linear: %s" % show(t)[:100])
    return out + [Fr(c.args[0])]


def rank(rows):
    rows = [list(r) for r in rows]
    k = 0
    for c in range(len(rows[0])):
        p = next((i for i in range(k, len(rows)) if rows[i][c] != 0), None)
        if p is None:
            continue
        rows[k], rows[p] = rows[p], rows[k]
        for i in range(k + 1, len(rows)):
            f = rows[i][c] / rows[k][c]
            rows[i] = [x - f * y for x, y in zip(rows[i], rows[k])]
        k += 1
    return k


run.explanation = ("Pipes are built from their input with symbolic diameter and roughness; their residual on symbolic states is extracted for every combination of friction regimes at the ends of a cell and compared with the box scheme of the "
                   "isothermal Euler equations. Grid, pressure law, initial values and the equations of the short edges are extracted in the same way.")
