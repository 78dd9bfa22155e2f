"""Shared: the optimizer on the shape engine.  The network problem is replaced by one whose
functions and derivatives are free symbols, the simulation by one that either fails or
delivers states that are free symbols for each set of controls."""
from objs import *

IO, PROB, CACHE, WRAP, TE = "Optimization::ImplicitOptimizer", "Model::Networkproblem", "Optimization::ControlStateCache", "Optimization::IpoptWrapper", "Model::Timeevolver"
IV = "Aux::InterpolatingVector"


def tname(x):
    return show(tt(x)) if not isinstance(x, str) else x


def is_rational(*ts):
    return all(x.op in ("num", "sym", "add", "mul") for t in ts for x in subterms(t))


def col(v):
    v = val(v)
    return [tt(x) for x in v.a.flat]


def vec(xs):
    a = np.empty((len(xs), 1), dtype=object)
    for i, x in enumerate(xs):
        a[i, 0] = tt(x)
    return Mat(a, True)


def overriding(P, H, name, roots):
    return {f["q"] for f in P.functions.values() if f["n"] == name and f.get("rc") and (f["rc"] in roots or any(H.isa(f["rc"], r) or H.isa(r, f["rc"]) for r in roots))}


class OptWorld:
    """T, C, G: state, control and constraint times; nx, nu, ng: numbers per time"""

    def __init__(self, I, T_, C, G, nx=1, nu=1, ng=1, outcomes=(), lu=None):
        self.I, self.T, self.C, self.G, self.nx, self.nu, self.ng = I, T_, C, G, nx, nu, ng
        self.outcomes = list(outcomes)
        self.sims, self.calls, self.names, self.known, self.canonical = [], [], {}, {}, {}
        self.lu, self.nlu = lu, 0
        I.lu_info = self.lu_info
        P, H = I.P, I.H
        self.hook()
        p, c = Obj(PROB), Obj(CACHE)
        I.call(ctor(P, CACHE), c, [UP(Ptr(Cell(Obj(TE))))])
        self.cache = c
        self.initial = [mk("sym", "x0_%d" % i) for i in range(nx)]

        def series(name, times, n):
            o = Obj(IV)
            f = next(x for x in P.functions.values() if x.get("ctor") and x.get("rc") == IV and x["b"] is not None and len(x["p"]) == 2 and "vector<double" in x["p"][0]["t"])
            I.call(f, o, [Vec([Cell(num(x)) for x in times]), n])
            for k in range(len(times)):
                r = val(I.call(self.mut, o, [k]))
                for i in range(n):
                    r.a[i, 0] = mk("sym", "%s%d_%d" % (name, k, i))
            return Cell(o)
        self.mut = next(x for x in P.functions.values() if x["n"] == "mut_timestep" and x["b"] is not None and x["rc"] in H.bases(IV))
        args = [UP(Ptr(Cell(p))), UP(Ptr(Cell(c))), Cell(vec([num(x) for x in T_])), Cell(vec([num(x) for x in C])), Cell(vec([num(x) for x in G])), Cell(vec(self.initial)),
                series("init", C, nu), series("clo", C, nu), series("cup", C, nu), series("glo", G, ng), series("gup", G, ng)]
        self.o = Obj(IO)
        f = ctor(P, IO)
        self.series = dict(zip(("init", "clo", "cup", "glo", "gup"), range(len(args) - 5, len(args))))
        if len(f["p"]) != len(args):
            raise AnalysisBroken("constructor of %s takes %d arguments" % (IO, len(f["p"])))
        I.call(f, self.o, args)

    # ------------------------------------------------------------------ replaced parts
    def hook(self):
        I = self.I
        P, H = I.P, I.H
        roots = (PROB, "Model::OptimizableObject")

        def h(name, fn, roots=roots):
            qs = overriding(P, H, name, roots)
            if not qs:
                raise AnalysisBroken("no function %s" % name)
            for q in qs:
                I.hooks[q] = fn
        h("get_number_of_states", lambda I, t, a, e: self.nx)
        h("get_number_of_controls_per_timepoint", lambda I, t, a, e: self.nu)
        h("get_number_of_constraints_per_timepoint", lambda I, t, a, e: self.ng)
        for n in ("cost", "penalty"):
            h("evaluate_" + n, lambda I, t, a, e, n=n: self.at(n, a[0], a[1], a[2]))
            h("d_evaluate_%s_d_state" % n, lambda I, t, a, e, n=n: self.fill(a[0], "%s_x" % n, 1, self.nx, self.point(a[1], a[2], a[3])))
            h("d_evaluate_%s_d_control" % n, lambda I, t, a, e, n=n: self.fill(a[0], "%s_u" % n, 1, self.nu, self.point(a[1], a[2], a[3])))

        def constraint(I, t, a, e):
            m = val(a[0])
            if m.a.shape[0] != self.ng:
                raise UB("constraint vector of size %d for %d constraints" % (m.a.shape[0], self.ng))
            w = self.point(a[1], a[2], a[3])
            for i in range(self.ng):
                m.a[i, 0] = self.value("g%d" % i, w)
        h("evaluate_constraint", constraint)
        h("d_evaluate_constraint_d_state", lambda I, t, a, e: self.fill(a[0], "g_x", self.ng, self.nx, self.point(a[1], a[2], a[3])))
        h("d_evaluate_constraint_d_control", lambda I, t, a, e: self.fill(a[0], "g_u", self.ng, self.nu, self.point(a[1], a[2], a[3])))

        def eq(name, cols):
            def f(I, t, a, e):
                w = (tname(val(a[1])), tname(val(a[2])), tuple(col(a[3])), tuple(col(a[4])), tuple(col(a[5])))
                self.fill(a[0], name, self.nx, cols, w)
            return f
        h("d_evaluate_d_new_state", eq("E_new", self.nx))
        h("d_evaluate_d_last_state", eq("E_last", self.nx))
        h("d_evaluate_d_control", eq("E_u", self.nu))
        h("prepare_timestep", lambda I, t, a, e: None)
        h("simulate", self.simulate, (TE,))

    def simulate(self, I, this, a, e):
        """initial state, controls, problem, saved states"""
        f = next(f for f in I.P.functions.values() if f["q"] == TE + "::simulate" and f["b"] is not None)
        pos = {}
        for i, p in enumerate(f["p"]):
            t = p["t"]
            k = "states" if "InterpolatingVector" in t and "const" not in t else "controls" if "InterpolatingVector" in t else "initial" if "Eigen" in t else "problem"
            pos[k] = i
        if len(pos) != 4:
            raise AnalysisBroken("signature of simulate not understood")
        allv = next(f for f in I.P.functions.values() if f["n"] == "get_allvalues" and f["b"] is not None and f.get("rc") in I.H.bases(IV))
        c = val(a[pos["controls"]])
        u = tuple(col(I.call(allv, c)))
        if [show(x) for x in col(a[pos["initial"]])] != [show(x) for x in self.initial]:
            raise UB("the simulation starts from %s" % [show(x) for x in col(a[pos["initial"]])])
        n = len(self.sims)
        ok = self.outcomes[n] if n < len(self.outcomes) else True
        self.sims.append((u, ok))
        s = val(a[pos["states"]])
        for k in range(len(self.T)):
            if not ok and k > len(self.T) // 2:
                raise Thrown("std::runtime_error", "simulation failed", "")
            r = val(I.call(self.mut, s, [k]))
            if r.a.shape[0] != self.nx:
                raise UB("states of size %d" % r.a.shape[0])
            for i in range(self.nx):
                r.a[i, 0] = self.state(k, i, u, ok)
        if not ok:
            raise Thrown("std::runtime_error", "simulation failed", "")

    def tag(self, u):
        """short name of a set of controls"""
        return self.names.setdefault(tuple(show(x) for x in u), "u%d" % len(self.names))

    def state(self, k, i, u, ok=True):
        return self.initial[i] if k == 0 else mk("sym", "x%d_%d@%s%s" % (k, i, ",".join(show(x) for x in u), "" if ok else "!failed"))

    def lu_info(self, o, e):
        """self.lu = (kind, n): the n-th factorization or solution fails"""
        ev = [x for x in self.I.events if x[0] in ("factorize", "solve")]
        mine = [x for x in ev if x[1] is o]
        if not mine:
            raise UB("state of a solver that was never used")
        if self.lu and mine[-1][0] == self.lu[0]:
            of = [x for x in ev if x[0] == self.lu[0]]
            if next(i for i, x in enumerate(of) if x is mine[-1]) == self.lu[1]:
                return 1
        return 0

    def lu_failed(self):
        """has the failing factorization or solution taken place?"""
        return bool(self.lu) and sum(x[0] == self.lu[0] for x in self.I.events) > self.lu[1]

    def point(self, t, x, u):
        return (tname(val(t)), tuple(col(x)), tuple(col(u)))

    def value(self, n, w):
        """the same name for the same place, however the code arrived at it"""
        self.calls.append((n, w))
        r = mk("sym", "%s[%s]" % (n, ";".join(x if isinstance(x, str) else ",".join(show(y) for y in x) for x in w)))
        if r in self.known:
            return self.canonical.get(r, r)
        for s, (m, v) in self.known.items():
            if m == n and len(v) == len(w) and all(x == y if isinstance(x, str) or isinstance(y, str) else len(x) == len(y) and all(a is b or (is_rational(a, b) and equal(a, b)) for a, b in zip(x, y)) for x, y in zip(v, w)):
                self.known[r] = (n, w)
                self.canonical[r] = self.canonical.get(s, s)
                break
        else:
            self.known[r] = (n, w)
        return self.canonical.get(r, r)

    def at(self, n, t, x, u):
        return self.value(n, self.point(t, x, u))

    def entry(self, n, i, j, w):
        return self.value("%s%d%d" % (n, i, j), w)

    def fill(self, handler, n, rows, cols, w):
        h = target(handler) if isinstance(val(handler), Ptr) else val(handler)
        f = next((f for b in self.I.H.bases(h.cls) for f in self.I.P.functions.values() if f["n"] == "add_to_coefficient" and f.get("rc") == b and f["b"] is not None), None)
        if f is None:
            raise Unmodelled("add_to_coefficient of %s" % h.cls)
        for i in range(rows):
            for j in range(cols):
                self.I.call(f, h, [i, j, self.entry(n, i, j, w)])

    # ------------------------------------------------------------------ requests
    def wrap(self):
        self.w = Obj(WRAP)
        self.I.call(ctor(self.I.P, WRAP), self.w, [UP(Ptr(Cell(self.o)))])
        return self.w

    def size(self):
        """numbers of controls, constraints and Jacobian entries as the wrapper announces them"""
        c = [Cell(mk("uninit",)) for _ in range(4)] + [Cell(0)]
        r = self.method("get_nlp_info", *c, cls=WRAP, obj=self.w)
        return [as_int(x.get()) for x in c[:3]]

    def request(self, kind, u, fresh):
        """one of Ipopt's requests; gives (success, values)"""
        n, m, nnz = self.size()
        x = np.empty(len(u), dtype=object)
        for i, y in enumerate(u):
            x[i] = y
        x = PArr(x, 0)
        out = lambda k: PArr(np.array([mk("sym", "unset%d" % i) for i in range(k)] + [None], dtype=object)[:k], 0)
        M = lambda *a: self.method(*a, cls=WRAP, obj=self.w)
        if kind == "f":
            c = Cell(mk("sym", "unset"))
            return M("eval_f", n, x, fresh, c), [tt(c.get())]
        if kind == "grad_f":
            g = out(n)
            return M("eval_grad_f", n, x, fresh, g), [tt(y) for y in g.a]
        if kind == "g":
            g = out(m)
            return M("eval_g", n, x, fresh, m, g), [tt(y) for y in g.a]
        g = out(nnz)
        return M("eval_jac_g", n, x, fresh, m, nnz, None, None, g), [tt(y) for y in g.a]

    def structure(self):
        """row and column numbers of the Jacobian entries"""
        n, m, nnz = self.size()
        r, c = [PArr(np.array([None] * nnz, dtype=object), 0) for _ in range(2)]
        ok = self.method("eval_jac_g", n, None, False, m, nnz, r, c, None, cls=WRAP, obj=self.w)
        return ok, [as_int(x) for x in r.a], [as_int(x) for x in c.a]

    def controls(self, name):
        return [mk("sym", "%s%d_%d" % (name, k, i)) for k in range(len(self.C)) for i in range(self.nu)]

    def method(self, name, *args, cls=IO, obj=None):
        f = next((f for f in self.I.P.functions.values() if f["q"] == "%s::%s" % (cls, name) and f["b"] is not None), None)
        if f is None:
            raise AnalysisBroken("%s::%s not found" % (cls, name))
        return val(self.I.call(f, obj or self.o, list(args)))
