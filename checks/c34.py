"""C34: random demands follow the configured process and stay within its cut-off."""
import random
import mpmath
import numeval
from c15 import *
from c21 import calm

TECHNIQUE = ("abstract interpretation of the process, the step count and the truncated distribution over all branches; every branch's value is an exact term in the parameters and samples, "
             "compared with the definition by identity testing on the region of the branch")
NOTE = ("Decided for one and two substeps of the process with symbolic parameters and samples; the loop body is the same for every further substep. Exact arithmetic: rounding is not considered. "
        "Branches of the truncated distribution are followed up to two rejected samples. For mean zero the cut-off interval is not claimed.")
SIG = "Aux::compute_stable_number_of_oup_steps"
EM = "Aux::euler_maruyama_oup"
ND = "Aux::Normaldistribution"
TND = "Aux::Truncatednormaldist"


def run(ctx):
    P = ctx.P
    stable(ctx)
    for f in sorted((f for f in P.functions.values() if f["q"] == EM and f["b"] is not None and len(f["p"]) == 9), key=lambda f: f["key"]):
        for n in (1, 2):
            process(ctx, f, n)
    node(ctx)
    truncated(ctx)
    ctx.floor("step-count", 1)
    ctx.floor("process", 2)
    ctx.floor("truncated", 2)


# ------------------------------------------------------------- regions

class Region:
    """outcomes of an exploration, looked up by a point"""
    def __init__(self, outs):
        self.outs = outs
        self.hit = set()

    def at(self, vals):
        """(outcomes whose conditions hold at the point, evaluator)"""
        pt = numeval.Point(random.Random(1), (-1, 1), vals)
        memo = {}
        found = []
        for i, o in enumerate(self.outs):
            ok = True
            for c, b in o.known.items():
                try:
                    v = numeval.value(c, pt, memo)
                except (numeval.Undefined, ZeroDivisionError):
                    ok = False
                    break
                if bool(v) != b:
                    ok = False
                    break
            if ok:
                found.append(o)
                self.hit.add(i)
        extra = set(pt.v) - set(vals)
        return found, (lambda t: numeval.value(tt(t), pt, memo)), extra


def region(ctx, go, limit=600):
    outs = []
    try:
        for o in explore(lambda known: (lambda I: (I, lambda: go(I)))(interp(ctx, known)), limit):
            ctx.units |= o.I.units
            outs.append(o)
    except Unmodelled as u:
        return outs, str(u)
    return outs, next((o.value for o in outs if o.kind == "unmodelled"), None)


def settle(ctx, rule, inst, where, key, outs, lost, points, expect):
    """expect(point, outcome, value) -> None or what is wrong"""
    R = Region(outs)
    tested = 0
    for vals in points:
        try:
            found, ev, extra = R.at(vals)
        except (TypeError, ValueError) as x:
            lost = lost or str(x)
            break
        if len(found) != 1 or extra:
            lost = lost or ("the conditions of %d branches hold at one point" % len(found) if not extra else "unknown quantity %s" % show(sorted(extra, key=str)[0]))
            continue
        o = found[0]
        if o.kind == "unmodelled":
            continue
        try:
            bad = expect(vals, o, ev)
        except (Unmodelled, numeval.Undefined, ZeroDivisionError, TypeError, AttributeError) as x:
            lost = lost or "result not understood: %r" % (x,)
            continue
        if bad:
            ctx.ob(rule, inst, False, where, "%s at %s" % (bad, ", ".join("%s=%s" % (show(k), mpmath.nstr(v, 6)) for k, v in sorted(vals.items(), key=lambda kv: show(kv[0])))), key=key)
            return
        tested += 1
    missed = len(outs) - len(R.hit)
    if lost is not None or not tested:
        ctx.ob(rule, inst, False, where, str(lost), key=key, terms=(mk("unknown", str(lost)),))
        return
    ctx.ob(rule, inst, True, where, "%d branches, %d of them reached, %d points" % (len(outs), len(R.hit), tested))


def sym(n):
    return mk("sym", n)


def m(x):
    return mpmath.mpf(x)


# ------------------------------------------------------------- step count

def stable(ctx):
    fs = [f for f in ctx.P.functions.values() if f["q"] == SIG and f["b"] is not None]
    if not fs:
        return
    f = fs[0]
    where = "%s:%d" % (f["file"], f["l"])
    a, th, dt = sym("stability"), sym("theta"), sym("delta_t")
    rng = random.Random(5)
    for N in (1, 2, 3, 7):
        outs, lost = region(ctx, lambda I: val(I.call(f, None, [a, th, dt, N])))
        pts = []
        for i in range(160):
            p = {a: m(rng.choice([rng.uniform(0.01, 1.99), rng.uniform(0.01, 1.99), rng.uniform(-1, 0), rng.uniform(2, 4)])),
                 th: m(rng.choice([rng.uniform(0, 0.5), rng.uniform(0, 20), rng.uniform(0, 20), rng.uniform(-2, -0.01)])), dt: m(rng.uniform(0.01, 10))}
            pts.append(p)
        for t_ in (0, 2):
            pts.append({a: m(t_), th: m(1), dt: m(1)})
        pts.append({a: m(1), th: m(0), dt: m(1)})
        pts.append({a: m(1), th: m(N), dt: m(1)})

        def expect(p, o, ev, N=N):
            wrong = p[a] <= 0 or p[a] >= 2 or p[th] < 0
            if o.kind == "throw":
                return None if wrong else "an error is raised"
            if o.kind != "ok":
                return said(o)
            if wrong:
                return "no error although a parameter is out of range"
            n = ev(o.value)
            if n != int(n) or n < N:
                return "%s steps instead of at least %d" % (mpmath.nstr(n, 6), N)
            if not p[th] * p[dt] / n < p[a]:
                return "%d steps are not stable" % int(n)
            if p[th] * p[dt] / N < p[a] and n != N:
                return "%d steps although %d are stable" % (int(n), N)
        settle(ctx, "step-count", "%d steps requested" % N, where, "step-count", outs, lost, pts, expect)


# ------------------------------------------------------------- process

def process(ctx, f, n):
    where = "%s:%d" % (f["file"], f["l"])
    names = ["stability", "cut_off", "last", "theta", "mean", "delta_t", "sigma"]
    s = {k: sym(k) for k in names}

    def go(I):
        I.hooks[SIG] = lambda I, this, a, e: (I.events.append(("steps", [val(x) for x in a])), n)[1]
        d = Obj(base_t(f["p"][7]["t"]))
        used = Cell(Vec([Cell(0) for _ in range(8)]))
        if d.cls != ND:
            raise Unmodelled("process with %s" % d.cls)
        c = [g for g in I.P.functions.values() if g.get("ctor") and g.get("rc") == ND and g["b"] is not None and len(g["p"]) == 2]
        I.call(c[0], d, [used, Cell(Vec([Cell(i) for i in range(8)]))])
        v = val(I.call(f, None, [s[k] for k in names] + [Cell(d), n + 3]))
        return v, [ev[4] for ev in I.events if ev[0] == "draw"], [ev[1] for ev in I.events if ev[0] == "steps"]
    outs, lost = region(ctx, go)
    zs = sorted({z for o in outs if o.kind == "ok" for z in o.value[1]}, key=show)
    rng = random.Random(7)
    pts = []
    for i in range(500):
        mu = m(rng.choice([-1, 1]) * rng.uniform(0.1, 5)) if i % 10 else m(0)
        p = {s["stability"]: m(rng.uniform(0.1, 1.9)), s["cut_off"]: m(rng.uniform(0.01, 0.9)), s["mean"]: mu, s["last"]: mu * m(rng.uniform(-0.5, 2.5)), s["theta"]: m(rng.uniform(0, 2)),
             s["delta_t"]: m(rng.uniform(0.01, 2)), s["sigma"]: m(rng.uniform(0, 2)) * abs(mu) * m(10) ** rng.randrange(-3, 1)}
        for z in zs:
            p[z] = m(rng.gauss(0, 1))
        pts.append(p)

    def expect(p, o, ev):
        if o.kind != "ok":
            return said(o)
        v, draws, steps = o.value
        if len(draws) != n or len(set(draws)) != n:
            return "%d samples for %d substeps" % (len(set(draws)), n)
        if steps:
            w = steps[0]
            for x, y in zip(w, (s["stability"], s["theta"], s["delta_t"], mk("num", Fr(n + 3)))):
                if abs(ev(x) - (p[y] if y in p else m(n + 3))) > m(10) ** -30:
                    return "the step count is computed from %s instead of %s" % (show(tt(x)), show(y))
        x, mu, c = p[s["last"]], p[s["mean"]], p[s["cut_off"]]
        h = p[s["delta_t"]] / n if steps else p[s["delta_t"]] / (n + 3)
        for z in draws:
            x = x + p[s["theta"]] * (mu - x) * h + p[s["sigma"]] * mpmath.sqrt(h) * p[z]
            if mu:
                lo, hi = sorted(((1 - c) * mu, (1 + c) * mu))
                x = max(lo, min(hi, x))
        got = ev(v)
        if abs(got - x) > m(10) ** -20 * (1 + abs(x)):
            return "value %s instead of %s" % (mpmath.nstr(got, 8), mpmath.nstr(x, 8))
    settle(ctx, "process", "%d substeps" % n, where, "process", outs, lost, pts, expect)


# ------------------------------------------------------------- the nodes

def node(ctx):
    """components that use the process: every argument and what becomes of the result"""
    P, H = ctx.P, ctx.H
    I0 = interp(ctx, {})
    todo = {}
    for fc in factories(ctx):
        f = make_factory(I0, fc)
        for n, c in typemap(I0, f, "node").d.items():
            todo.setdefault(concrete(target(c)) or n, (fc, "node", n, target(c)))
    users = set()
    for f in P.functions.values():
        if f["b"] is not None and f.get("rc") in todo and EM in str(f["b"]):
            users.add(f["rc"])
    for cls in sorted(users):
        fc, kind, n, t = todo[cls]
        w = at(ctx, cls + "::prepare_timestep")
        try:
            docs = Gen().variants(method(I0, t, "get_schema", True, True))
        except (Unmodelled, UB, Thrown) as x:
            ctx.ob("node-uses-process", cls, False, w, "schema: %s" % (x,), key=cls, terms=(mk("unknown", str(x)),))
            continue
        doc = next((x for d, x in docs if "2 entries" in d and "data" in d), docs[0][1])
        doc = fixed(doc)
        conf = {"stability_parameter": Fr(3, 2), "cut_off_factor": Fr(1, 8), "sigma_P": Fr(2), "theta_P": Fr(3), "sigma_Q": Fr(5), "theta_Q": Fr(7), "G": Fr(11), "B": Fr(-13)}
        for k, v in conf.items():
            if k in doc.v:
                doc.v[k] = J(mk("num", v))
        doc.v["number_of_stochastic_steps"] = J(9)
        for i, x in enumerate(doc.v["boundary_values"].v["data"].v):
            x.v["time"] = J(mk("num", Fr(4 * i)))
            x.v["values"] = J([J(sym("bP%d" % i)), J(sym("bQ%d" % i))])

        def go(I):
            I.hooks[VALIDATE] = checked
            got = []
            I.hooks[EM] = lambda I, this, a, e: (got.append([val(x) for x in a]), sym("drawn%d" % len(got)))[1]
            c = make(I, fc, kind, n, doc)
            k = as_int(method(I, c, "set_state_indices", 0))
            method(I, c, "setup")
            st = np.empty((k, 1), dtype=object)
            for i in range(k):
                st[i, 0] = sym("s%d" % i)
            method(I, c, "prepare_timestep", mk("num", Fr(1)), mk("num", Fr(3)), Cell(Mat(st, False)))
            pq = [val(method(I, c, x, Cell(Mat(st, False)))) for x in ("P", "Q")]
            fin = np.empty((k, 1), dtype=object)
            for i in range(k):
                fin[i, 0] = sym("n%d" % i)
            root = np.empty((k, 1), dtype=object)
            for i in range(k):
                root[i, 0] = ZERO
            r = Mat(root, False)
            method(I, c, "evaluate", Cell(r), mk("num", Fr(1)), mk("num", Fr(3)), Cell(Mat(st, False)), Cell(Mat(fin, False)))
            pq2 = [val(method(I, c, x, Cell(Mat(fin, False)))) for x in ("P", "Q")]
            return got, pq, pq2, r

        def judge(o):
            if o.kind != "ok":
                return said(o)
            got, pq, pq2, r = o.value
            if len(got) != 2:
                return "%d processes instead of 2" % len(got)
            for g, which, i in zip(got, "PQ", (0, 1)):
                mean = add(mul(num(Fr(1, 4)), sym("b%s0" % which)), mul(num(Fr(3, 4)), sym("b%s1" % which)))
                want = [conf["stability_parameter"], conf["cut_off_factor"], pq[i], conf["theta_" + which], mean, Fr(2), conf["sigma_" + which], None, 9]
                for j, (x, y) in enumerate(zip(g, want)):
                    if y is None:
                        continue
                    if not is_zero(sub(tt(x), y if isinstance(y, T) else num(Fr(y))))[0]:
                        return "%s: argument %d of the process is %s instead of %s" % (which, j + 1, show(tt(x))[:120], show(tt(y))[:120] if isinstance(y, T) else y)
            for i in (0, 1):
                want = sub(pq2[i], sym("drawn%d" % (i + 1)))
                if not any(is_zero(sub(tt(r.a[j, 0]), want))[0] or is_zero(add(tt(r.a[j, 0]), want))[0] for j in range(r.a.shape[0])):
                    return "no equation sets %s of the new state to the drawn value" % "PQ"[i]
        prove(ctx, "node-uses-process", cls, go, judge, w, cls)


# ------------------------------------------------------------- truncated

class Enough(Exception):
    pass


def truncated(ctx):
    P = ctx.P
    for f in sorted((f for f in P.functions.values() if f["q"] == TND + "::get_sample" and f["b"] is not None), key=lambda f: f["key"]):
        names = [p["n"] for p in f["p"]]
        inst = "get_sample(%s)" % ", ".join(names)
        where = "%s:%d" % (f["file"], f["l"])
        if not {"mean", "standard_deviation", "lower_bound", "upper_bound"} >= set(names):
            continue
        s = {k: sym(k) for k in names}

        def make_i(I, f=f, names=names, s=s):
            draws = []

            def sample(I, this, a, e):
                if len(draws) >= 4:
                    raise Thrown("!enough", "", "")
                z = I.fresh("sample")
                draws.append((z, [tt(val(x)) for x in a]))
                return z
            I.hooks[ND + "::get_sample"] = sample
            o = Obj(TND)
            c = [g for g in P.functions.values() if g.get("ctor") and g.get("rc") == TND and g["b"] is not None and len(g["p"]) == 2]
            I.call(c[0], o, [Cell(Vec([Cell(0) for _ in range(8)])), Cell(Vec([Cell(i) for i in range(8)]))])
            return val(I.call(f, o, [s[k] for k in names])), draws
        outs, lost = region(ctx, make_i)
        zs = sorted({z for o in outs if o.kind == "ok" for z, _ in o.value[1]}, key=show)
        rng = random.Random(11)
        pts = []
        for i in range(400):
            p = {s[k]: m(rng.uniform(0.2, 2)) for k in names}
            for k, x in (("mean", rng.uniform(-3, 3)), ("lower_bound", rng.uniform(-2, 0)), ("upper_bound", rng.uniform(0, 2))):
                if k in s:
                    p[s[k]] = m(x)
            mean = p[s["mean"]] if "mean" in s else m(0)
            for z in {sym("sample#%d" % j) for j in range(0, 12)} | set(zs):
                p[z] = mean + p[s["standard_deviation"]] * m(rng.gauss(0, 1.6))
            pts.append(p)

        def expect(p, o, ev, s=s):
            if o.kind == "throw" and o.value.cls == "!enough":
                return None
            mean = p[s["mean"]] if "mean" in s else m(0)
            sd = p[s["standard_deviation"]]
            lo = p[s["lower_bound"]] if "lower_bound" in s else mean - 2 * sd
            hi = p[s["upper_bound"]] if "upper_bound" in s else mean + 2 * sd
            if o.kind == "throw":
                return "an error after %d samples" % 1
            if o.kind != "ok":
                return said(o)
            v, draws = o.value
            for z, a in draws:
                a = [ev(x) for x in a]
                if len(a) == 1:
                    a = [m(0)] + a
                if abs(a[0] - mean) > 1e-20 or abs(a[1] - sd) > 1e-20:
                    return "samples with mean %s and deviation %s" % (mpmath.nstr(a[0], 5), mpmath.nstr(a[1], 5))
            v = ev(v)
            if not (lo <= v <= hi):
                return "sample %s outside [%s, %s]" % (mpmath.nstr(v, 5), mpmath.nstr(lo, 5), mpmath.nstr(hi, 5))
            first = next((p[z] for z, _ in draws if lo <= p[z] <= hi), None)
            if first is None or abs(first - v) > 1e-20:
                return "the returned value is not the first sample within the bounds"
        settle(ctx, "truncated", inst, where, inst, outs, lost, pts, expect)


run.explanation = "The step count, the process and the truncated distribution are interpreted on all their branches and compared with their definitions; every argument a node hands to the process is compared with its configuration."
