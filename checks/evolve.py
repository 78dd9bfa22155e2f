"""The time evolution loop interpreted over a few saved points."""
from worlds import *
from sem import jdoc

TE = "Model::Timeevolver"
SOLVER = "Solver::Newtonsolver"


def roles_of(params):
    """positions by type: times, read-only vectors, written vectors, flags"""
    d = [i for i, p in enumerate(params) if strip_cv(p["t"]) == "double"]
    v = [i for i, p in enumerate(params) if is_view(p["t"]) and "<const" in p["t"] or "<Eigen::Matrix<double, -1, 1, 0, -1, 1> const" in p["t"]]
    w = [i for i, p in enumerate(params) if is_view(p["t"]) and i not in v]
    return d, v, w


class Evolution:
    """the guarded trace of simulate with n saved points.  The nonlinear solver is
    replaced by its contract: some outcome ok_k and some vector x_k; the controls
    by their value at the requested time"""
    M = 2

    def __init__(self, P, H, n, retries, simplified, fork=None, ncontrols=None):
        ivb = set(H.derived(IVB)) | {IVB}
        ev = self.ev = Evaluator(P, H)
        ev.unroll = 60
        ev.fork = fork or 2 * retries + 4
        ev.cur = Frame({"q": "<world>", "n": "<world>", "file": "", "p": [], "rt": "", "l": 0}, None, None, None)
        st = self.st = State()
        g = lambda x: mk("glob", "@" + x)
        self.n = n
        self.te, self.saved, self.controls, self.problem = g("te"), g("saved"), g("controls"), g("problem")
        self.initial = mk("vec", *[sym("i%d" % j) for j in range(self.M)])
        ev.dyntype[self.te] = TE
        ev.dyntype[self.saved] = ev.dyntype[self.controls] = "Aux::InterpolatingVector"
        self.t = [sym("t%d" % i) for i in range(n)]
        self.solves, self.prepares, self.touch = [], [], []
        sol = P.records.get("Solver::Solutionstruct")
        if sol is None:
            raise AnalysisBroken("Solver::Solutionstruct not found")
        flags = [f["n"] for f in sol["fields"] if f["t"] == "bool"]
        if len(flags) != 1:
            raise AnalysisBroken("Solutionstruct has no single success flag")

        def stub(ev, st, q, name, recv, locs, vals, line, node):
            if q.startswith(SOLVER + "::") and name != "Newtonsolver":
                if name == "solve":
                    k = len(self.solves)
                    f = [f for f in P.functions.values() if f["q"] == SOLVER + "::solve"][0]
                    d, v, w = roles_of(f["p"])
                    if len(d) != 2 or len(v) != 2 or len(w) != 1:
                        raise AnalysisBroken("signature of solve not understood: %s" % [p["t"] for p in f["p"]])
                    x = mk("vec", *[sym("x%d_%d" % (k, j)) for j in range(self.M)])
                    self.solves.append((mk("sym", "ok%d" % k), x, vals[d[0]], vals[d[1]], vals[v[0]], vals[v[1]], st.pc, line))
                    if not ev.is_loc(locs[w[0]]):
                        raise AnalysisBroken("the solver's state argument is not a variable")
                    ev.write(st, locs[w[0]], x, line)
                    return mk("obj", "Solver::Solutionstruct", tuple(sorted((f_["n"], mk("sym", "ok%d" % k) if f_["n"] == flags[0] else sym("%s%d" % (f_["n"], k)))
                                                                            for f_ in sol["fields"])))
                self.touch.append((name, vals, st.pc, line))
                return mk("void") if "get" not in name else sym(name)
            if name == "prepare_timestep":
                self.prepares.append((vals, st.pc, line, len(self.solves)))
                return mk("void")
            if name == "operator()" and recv is self.controls:
                return mk("vec", mk("ctrl", vals[0]))
            return None
        ev.stub = stub
        for k, f in sorted(P.functions.items()):
            if f.get("rc") == TE and f.get("ctor") and f["b"] is not None and len(f["p"]) == 1 and "basic_json" in f["p"][0]["t"]:
                doc = {"retries": retries, "tolerance": sym("tol"), "maximal_number_of_newton_iterations": sym("maxit"),
                       "use_simplified_newton": simplified}
                ev.call_function(f, self.te, TE, [jdoc(doc)], st, 0)
                break
        else:
            raise AnalysisBroken("constructor of %s from its settings not found" % TE)
        # the saved points: the member interpolation_point_at_index reads
        w = Evaluator(P, H)
        f = [f for f in P.functions.values() if f.get("rc") == IVB and f["n"] == "interpolation_point_at_index"]
        if not f:
            raise AnalysisBroken("interpolation_point_at_index not found")
        s = w.run(f[0]["key"], this_cls="Aux::InterpolatingVector")
        fl = {x.args[1] for x in subterms(s.val) if x.op == "fld" and x.args[0] is mk("this")}
        if len(fl) != 1:
            raise AnalysisBroken("saved points are not one member")
        self.points = mk("fld", self.saved, fl.pop())
        st.env[self.points] = mk("list", *self.t)
        self.values = mk("fld", self.saved, self.member("allvalues", nparams=0))
        st.env[self.values] = mk("vec", *[mk("uninit", num(i)) for i in range(n * self.M)])
        st.env[mk("fld", self.saved, self.member("get_inner_length", IVB))] = num(self.M)
        if ncontrols is not None:
            st.env[mk("fld", self.controls, self.member("get_inner_length", IVB))] = num(ncontrols)
        sim = [f for f in P.functions.values() if f.get("rc") == TE and f["n"] == "simulate" and f["b"] is not None]
        if len(sim) != 1:
            raise AnalysisBroken("%s::simulate not found" % TE)
        self.f = sim[0]
        n0 = len(ev.effs)
        roles = []
        for p in self.f["p"]:
            t = p["t"]
            if "InterpolatingVector" in t:
                roles.append(self.controls if t.startswith("const") or "const &" in t or t.split("<")[0].strip().startswith("const") else self.saved)
            elif "Controlcomponent" in t or "Model::" in t:
                roles.append(self.problem)
            else:
                roles.append(self.initial)
        if len(roles) != 4 or len(set(roles)) != 4:
            raise AnalysisBroken("parameters of simulate not recognised: %s" % [p["t"] for p in self.f["p"]])
        ev.call_function(self.f, self.te, TE, roles, st, 0)
        self.effs = ev.effs[n0:]

    def member(self, getter, cls="Aux::InterpolatingVector", nparams=0):
        fs = [f for f in self.ev.P.functions.values() if f.get("rc") == cls and f["n"] == getter and f["b"] is not None]
        fl = set()
        for f in fs:
            s = Evaluator(self.ev.P, self.ev.H).run(f["key"], this_cls="Aux::InterpolatingVector")
            fl |= {x.args[1] for x in subterms(s.val) if x.op == "fld" and x.args[0] is mk("this")}
        if len(fl) != 1:
            raise AnalysisBroken("%s::%s does not deliver one member" % (cls, getter))
        return fl.pop()

    def atoms(self):
        """free conditions of the trace"""
        out = set()
        for e in self.effs:
            for c in e.pc:
                out |= batoms(c)
        for c in self.st.pc:
            out |= batoms(c)
        for _, pc, *_ in self.prepares:
            for c in pc:
                out |= batoms(c)
        return sorted(out, key=skey)

    def assignments(self):
        at = self.atoms()
        if len(at) > 14:
            raise AnalysisBroken("too many conditions in the time loop: %s" % [show(a)[:60] for a in at[:20]])
        for bits in itertools.product((TRUE, FALSE), repeat=len(at)):
            yield dict(zip(at, bits))


def batoms(c):
    """boolean atoms of a condition"""
    if c.op in ("and", "or", "not"):
        out = set()
        for x in c.args:
            out |= batoms(x)
        return out
    if c.op == "ite":
        return set().union(*[batoms(x) for x in c.args])
    if c.op in ("true", "false"):
        return set()
    return {c}


def under(t, asg):
    """the term with the conditions decided"""
    return canon(subst(t, lambda x: asg.get(x)))


def holds(pc, asg):
    for c in pc:
        v = bval(c, asg)
        if v is None:
            raise AnalysisBroken("condition not decided: %s" % show(c)[:200])
        if not v:
            return False
    return True


def bval(c, asg):
    if c in asg:
        return asg[c] is TRUE
    if c.op == "true":
        return True
    if c.op == "false":
        return False
    if c.op == "not":
        v = bval(c.args[0], asg)
        return None if v is None else not v
    if c.op in ("and", "or"):
        vs = [bval(x, asg) for x in c.args]
        if c.op == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if c.op == "ite":
        v = bval(c.args[0], asg)
        return None if v is None else bval(c.args[1 if v else 2], asg)
    return None
