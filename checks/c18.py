"""C18: interpolated data is never extrapolated and interpolates correctly."""
from fractions import Fraction as Fr
from worlds import *
from sem import jdoc

TECHNIQUE = "abstract interpretation, one run for every order type of the requested value and the given points; exact symbolic comparison of the result"
NOTE = ("Decided for one to four (thorough: six) given points with symbolic values and every position of the requested value relative to them. The comparisons "
        "only involve the requested value, the points and the tolerance, so one representative for each order type decides its whole region; the computed value "
        "itself is compared symbolically. Exact arithmetic: rounding is not considered. Rejection of unsorted points is claimed for data a user supplies "
        "(documents and point lists); the constructors used internally for equidistant points only assert it.")
IV = "Aux::InterpolatingVector"
MAPPED = ("Aux::MappedInterpolatingVector", "Aux::ConstMappedInterpolatingVector")
W = 2


class Data:
    def __init__(self, ctx, cls, pts, valuation):
        P, H = ctx.P, ctx.H
        self.P, self.H = P, H
        ev = self.ev = Evaluator(P, H)
        ev.unroll, ev.vectors, ev.exact_exc = 40, True, True
        ev.stub = lambda ev, st, q, *r: mk("void") if "::schema::" in q else None
        ev.valuation = valuation
        ev.cur = Frame({"q": "<data>", "n": "<data>", "file": "", "p": [], "rt": "", "l": 0}, None, None, None)
        self.st = State()
        self.cls = cls
        self.o = mk("glob", "@iv")
        ev.dyntype[self.o] = cls
        self.pts = pts

    def construct(self, ctx, how, *extra):
        """constructor whose first parameter has the given kind"""
        fs = [f for f in self.P.functions.values() if f.get("rc") == self.cls and f.get("ctor") and f["b"] is not None
              and len(f["p"]) >= 2 and how in f["p"][0]["t"]]
        ctx.need(len(fs) == 1, "constructor of %s from %s not found" % (self.cls, how))
        self.f = fs[0]
        first = mk("list", *self.pts) if "std::vector" in how else mk("vec", *self.pts)
        self.ev.call_function(fs[0], self.o, self.cls, [first] + list(extra), self.st, 0)
        return self.where()

    def where(self):
        return "%s:%d" % (self.f["file"], self.f["l"])

    def call(self, name, *args, nparams=None, st=None):
        st = st or self.st
        c = self.cls
        fs = []
        for b in [c] + self.H.bases(c):
            fs = [f for f in self.P.functions.values() if f.get("rc") == b and f["n"] == name and f["b"] is not None and (nparams is None or len(f["p"]) == nparams)]
            if fs:
                break
        if not fs:
            raise AnalysisBroken("%s::%s not found" % (c, name))
        self.f = fs[0]
        n0 = len(self.ev.effs)
        v, _ = self.ev.call_function(fs[0], self.o, c, list(args), st, 0)
        self.effs = self.ev.effs[n0:]
        return v

    def throws(self, st=None):
        """does the last call end in an error?  True / False / 'depends'"""
        st = st or self.st
        ts = [e for e in self.effs if e.kind == "throw"]
        if st.dead:
            return True
        if any(band(*e.pc) is TRUE for e in ts):
            return True
        return "depends: %s" % [show(band(*e.pc))[:400] for e in ts] if [e for e in ts if band(*e.pc) is not FALSE] else False


def run(ctx):
    regions(ctx)
    rejects(ctx)
    from_document(ctx)
    storage(ctx)


def fill(ctx, d):
    """values v_i_j through the public setter, time by time"""
    for i in range(len(d.pts)):
        l = d.call("mut_timestep", num(i))
        if d.throws():
            raise AnalysisBroken("mut_timestep(%d) of %d fails" % (i, len(d.pts)))
        if not Evaluator.is_loc(l):
            raise AnalysisBroken("mut_timestep does not deliver a place to write to: %s" % show(l)[:100])
        d.ev.write(d.st, l, mk("vec", *[sym("v%d_%d" % (i, j)) for j in range(W)]), 0)


def regions(ctx):
    tol = Fr(1, 10 ** 4)
    eps = Fr(1, 10 ** 11)
    for n in ((1, 2, 3, 4, 5, 6) if ctx.thorough else (1, 2, 3, 4)):
        pv = [Fr(x) for x in (1, 2, 5, 6, 10, 17)][:n]
        for shift in (Fr(0), Fr(-3)):
            pvs = [x + shift for x in pv]
            pts = [sym("p%d" % i) for i in range(n)]
            t = sym("t")
            cases = [("far below", pvs[0] - tol, "error"), ("below", pvs[0] - 3, "error"), ("above", pvs[-1] + 3, "error"), ("just above", pvs[-1] + tol, "error"),
                     ("within tolerance below", pvs[0] - eps, 0), ("within tolerance above", pvs[-1] + eps, n - 1)]
            cases += [("at point %d" % i, pvs[i], i) for i in range(n)]
            cases += [("between %d and %d (%s)" % (i, i + 1, fr), pvs[i] + fr * (pvs[i + 1] - pvs[i]), (i, i + 1))
                      for i in range(n - 1) for fr in (Fr(1, 1000), Fr(1, 3), Fr(9, 10), 1 - Fr(1, 10 ** 9))]
            for what, tv, want in cases:
                inst = "%d points from %s, %s" % (n, pvs[0], what)
                d = Data(ctx, IV, pts, dict(zip(pts, pvs)) | {t: tv})
                w = d.construct(ctx, "std::vector<double", num(W))
                if d.st.dead:
                    raise AnalysisBroken("construction from sorted points fails")
                fill(ctx, d)
                v = d.call("operator()", t)
                ctx.used(d.ev)
                w = d.where()
                th = d.throws()
                if want == "error":
                    ctx.ob("outside-is-an-error", inst, th is True, w, "a value %s the covered range is answered with %s (%s)" % (what, show(v)[:120], th), key=d.f["q"])
                    continue
                if not ctx.ob("inside-is-answered", inst, th is False, w, "error: %s" % th, key=d.f["q"]):
                    continue
                v = d.ev.val(d.st, v)
                if v.op != "vec" or len(v.args) != W:
                    raise AnalysisBroken("interpolated value not understood: %s" % show(v)[:300])
                for j in range(W):
                    if isinstance(want, tuple):
                        a, b = want
                        lam = div(sub(t, pts[a]), sub(pts[b], pts[a]))
                        ref = add(mul(sub(ONE, lam), sym("v%d_%d" % (a, j))), mul(lam, sym("v%d_%d" % (b, j))))
                        ctx.zero("linear-between-neighbours", "%s, entry %d" % (inst, j), sub(v.args[j], ref), w, key=d.f["q"])
                    else:
                        x = subst(v.args[j], lambda y: pts[want] if y is t else None)
                        ctx.zero("given-value-at-given-point", "%s, entry %d" % (inst, j), sub(x, sym("v%d_%d" % (want, j))), w, key=d.f["q"])
    ctx.floor("linear-between-neighbours", 20)
    ctx.floor("outside-is-an-error", 16)


def rejects(ctx):
    """points out of order are rejected wherever the swap is"""
    for cls in (IV,) + MAPPED:
        for n in (2, 3, 4, 5):
            for k in range(n):
                pts = [sym("p%d" % i) for i in range(n)]
                vals = [Fr(i * 2) for i in range(n)]
                ok = k == n - 1
                if not ok:
                    vals[k], vals[k + 1] = vals[k + 1], vals[k]
                d = Data(ctx, cls, pts, dict(zip(pts, vals)))
                extra = [num(W)] if cls == IV else [num(W), sym("array"), num(n * W)]
                n0 = len(d.ev.effs)
                w = d.construct(ctx, "std::vector<double", *extra)
                d.effs = d.ev.effs[n0:]
                ctx.used(d.ev)
                th = d.throws()
                inst = "%s with %d points, %s" % (cls.split("::")[-1], n, "in order" if ok else "points %d and %d swapped" % (k, k + 1))
                if ok:
                    ctx.ob("ordered-points-accepted", inst, th is False, w, "rejected: %s" % th, key=cls)
                else:
                    ctx.ob("unordered-points-rejected", inst, th is True, w, "constructed without error (%s)" % th, key=cls)
    ctx.floor("unordered-points-rejected", 20)
    # storage of another length than points times values
    for cls in MAPPED:
        for how in ("std::vector<double", "Eigen::Ref<", "Interpolation_data"):
            for n in (1, 3):
                for off in (-1, 0, 1, W):
                    pts = [sym("p%d" % i) for i in range(n)]
                    d = Data(ctx, cls, pts, dict(zip(pts, [Fr(i * 2) for i in range(n)])))
                    n0 = len(d.ev.effs)
                    if how == "Interpolation_data":
                        rec = ctx.P.records["Aux::Interpolation_data"]
                        o = mk("obj", "Aux::Interpolation_data", tuple(sorted((f["n"], num(n) if strip_cv(f["t"]) != "double" else num(1)) for f in rec["fields"])))
                        fs = [f for f in ctx.P.functions.values() if f.get("rc") == cls and f.get("ctor") and f["b"] is not None and f["p"] and how in f["p"][0]["t"]]
                        ctx.need(len(fs) == 1, "constructor of %s from equidistant data not found" % cls)
                        d.f = fs[0]
                        d.ev.call_function(fs[0], d.o, cls, [o, num(W), sym("array"), num(n * W + off)], d.st, 0)
                        w = d.where()
                    else:
                        w = d.construct(ctx, how, num(W), sym("array"), num(n * W + off))
                    d.effs = d.ev.effs[n0:]
                    th = d.throws()
                    ctx.ob("wrong-amount-of-storage-rejected" if off else "right-amount-of-storage-accepted",
                           "%s from %s: %d values for %d points of %d" % (cls.split("::")[-1], how, n * W + off, n, W), th is (off != 0), w, "outcome: %s" % th, key=cls + how)


def from_document(ctx):
    P, H = ctx.P, ctx.H
    fs = [f for f in P.functions.values() if f["n"] == "construct_from_json" and f.get("rc") == IV and f["b"] is not None]
    ctx.need(len(fs) == 1, "construct_from_json not found")
    f = fs[0]
    for name in ("time", "x"):
        for n in (1, 2, 3, 4):
            for swap in [None] + list(range(n - 1)):
                vals = [Fr(3 * i + 1) for i in range(n)]
                if swap is not None:
                    vals[swap], vals[swap + 1] = vals[swap + 1], vals[swap]
                pts = [sym("p%d" % i) for i in range(n)]
                d = Data(ctx, IV, pts, dict(zip(pts, vals)))
                doc = jdoc({"data": [{name: pts[i], "values": [sym("v%d_%d" % (i, j)) for j in range(W)]} for i in range(n)]})
                n0 = len(d.ev.effs)
                v, _ = d.ev.call_function(f, None, None, [doc, jdoc({})], d.st, 0)
                d.effs = d.ev.effs[n0:]
                d.f = f
                ctx.used(d.ev)
                w = d.where()
                inst = "%d entries by %s%s" % (n, name, "" if swap is None else ", entries %d and %d out of order" % (swap, swap + 1))
                th = d.throws()
                if swap is not None:
                    ctx.ob("unordered-document-rejected", inst, th is True, w, "accepted: %s" % show(v)[:150], key=f["q"])
                    continue
                if not ctx.ob("document-accepted", inst, th is False, w, "rejected: %s" % th, key=f["q"]):
                    continue
                v = d.ev.val(d.st, v)
                ok = v.op == "obj"
                fl = dict(v.args[1]) if ok else {}
                ls = [x for x in fl.values() if x.op == "list"]
                vs = [x for x in fl.values() if x.op == "vec"]
                good = len(ls) == 1 and len(vs) == 1 and list(ls[0].args) == pts and \
                    list(vs[0].args) == [sym("v%d_%d" % (i, j)) for i in range(n) for j in range(W)]
                ctx.ob("document-values-at-their-points", inst, good, w, "became %s" % show(v)[:300], key=f["q"])
    ctx.floor("unordered-document-rejected", 12)


def storage(ctx):
    """access by index stays inside; bulk assignment needs the right number"""
    n = 3
    pts = [sym("p%d" % i) for i in range(n)]
    val = dict(zip(pts, [Fr(1), Fr(2), Fr(4)]))
    for name in ("mut_timestep", "vector_at_index"):
        for i in (-2, -1, 0, 1, 2, 3, 4):
            d = Data(ctx, IV, pts, val)
            d.construct(ctx, "std::vector<double", num(W))
            fill(ctx, d)
            v = d.call(name, num(i))
            w = d.where()
            th = d.throws()
            inside = 0 <= i < n
            if not ctx.ob("index-inside" if inside else "index-outside-rejected", "%s(%d) of %d" % (name, i, n), th is (not inside), w, "outcome: %s" % th, key=name):
                continue
            if inside:
                v = d.ev.val(d.st, v)
                want = mk("vec", *[sym("v%d_%d" % (i, j)) for j in range(W)])
                ctx.ob("index-delivers-own-values", "%s(%d)" % (name, i), v is want, w, "delivers %s" % show(v)[:150], key=name)
    for off in (-W, -1, 0, 1, W):
        d = Data(ctx, IV, pts, val)
        d.construct(ctx, "std::vector<double", num(W))
        fill(ctx, d)
        d.call("set_values_in_bulk", mk("vec", *[sym("w%d" % i) for i in range(n * W + off)]))
        th = d.throws()
        ctx.ob("bulk-size-checked", "%d values for %d" % (n * W + off, n * W), th is (off != 0), d.where(), "outcome: %s" % th, key="set_values_in_bulk")
    # taking over values at other points
    for pv in ([Fr(1), Fr(4)], [Fr(1), Fr(3, 2), Fr(2), Fr(3), Fr(4)], [Fr(2), Fr(7, 2)]):
        q = [sym("q%d" % i) for i in range(len(pv))]
        d = Data(ctx, IV, pts, val | dict(zip(q, pv)))
        d.construct(ctx, "std::vector<double", num(W))
        fill(ctx, d)
        o1, d.o = d.o, mk("glob", "@target")
        d.ev.dyntype[d.o] = IV
        d.pts = q
        d.construct(ctx, "std::vector<double", num(W))
        d.call("interpolate_from", o1)
        w = d.where()
        th = d.throws()
        if not ctx.ob("values-taken-over", "%s points" % len(pv), th is False, w, "error: %s" % th, key="interpolate_from"):
            continue
        for i, x in enumerate(pv):
            v = d.ev.val(d.st, d.call("vector_at_index", num(i)))
            pvs = [Fr(1), Fr(2), Fr(4)]
            b = next(k for k in range(n) if pvs[k] >= x)
            for j in range(W):
                if pvs[b] == x:
                    r = sub(subst(v.args[j], lambda y: pts[b] if y is q[i] else None), sym("v%d_%d" % (b, j)))
                else:
                    lam = div(sub(q[i], pts[b - 1]), sub(pts[b], pts[b - 1]))
                    r = sub(v.args[j], add(mul(sub(ONE, lam), sym("v%d_%d" % (b - 1, j))), mul(lam, sym("v%d_%d" % (b, j)))))
                ctx.zero("values-taken-over", "value at %s, entry %d" % (x, j), r, w, key="interpolate_from")
        ctx.used(d.ev)


run.explanation = ("The evaluation operator, constructors, setters and the document reader of the interpolating vectors are interpreted on data with symbolic points and "
                   "values for every order type of the request; results are compared symbolically with linear interpolation between the neighbouring points.")
