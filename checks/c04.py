"""C04: Newton success means the residual is within tolerance."""
import math
from paths import *
from evolve import roles_of

TECHNIQUE = "abstract interpretation of the solver with trace partitioning; path-wise implication check of the success flag, typestate check of the factorization"
NOTE = ("Decides every path with up to two (thorough: three) Newton iterations and three damping halvings per iteration; later iterations run the same code on "
        "renamed values. Residuals, factorization outcomes and linear solves are opaque; comparisons keep their behaviour for NaN and infinity. "
        "Eigen's SparseLU is trusted to report failure through info().")
SOLVER = "Solver::Newtonsolver"
LU = "Eigen::SparseLU"


class Solve:
    M = 2

    def __init__(self, ctx, maxit, full, newjac, fork):
        P, H = ctx.P, ctx.H
        ev = self.ev = Evaluator(P, H)
        ev.unroll, ev.fork, ev.vectors = 60, fork, True
        ev.cur = Frame({"q": "<world>", "n": "<world>", "file": "", "p": [], "rt": "", "l": 0}, None, None, None)
        st = self.st = State()
        g = lambda x: mk("glob", "@" + x)
        self.s, self.problem, self.x, self.last, self.ctrl = g("solver"), g("problem"), g("x"), g("last"), g("ctrl")
        ev.dyntype[self.s] = SOLVER
        st.env[self.x] = mk("vec", *[sym("x%d" % j) for j in range(self.M)])
        st.env[self.last] = mk("vec", *[sym("l%d" % j) for j in range(self.M)])
        self.lt, self.nt, self.tol = sym("last_time"), sym("new_time"), sym("tol")
        self.lin, self.evals, self.jacs = [], [], []
        m, _ = H.find_method(CO, "evaluate")
        pe = P.functions[H.final_overrider("Model::Networkproblem", m["key"])[0]]["p"]
        d, v, w = roles_of(pe)
        ctx.need(len(d) == 2 and len(v) == 3 and len(w) == 1, "signature of evaluate not understood")

        def stub(ev, st, q, name, recv, locs, vals, line, node):
            if LU in q or "Eigen::SparseSolverBase" in q:
                k = len(self.lin)
                if name in ("factorize", "compute", "analyzePattern"):
                    self.lin.append((name, vals[0] if vals else None, st.pc, line))
                    return mk("void")
                if name == "info":
                    f = [i for i, e in enumerate(self.lin) if e[0] in ("factorize", "compute")]
                    self.lin.append(("info", None, st.pc, line))
                    return mk("info", self.count(st))
                if name == "solve":
                    self.lin.append(("solve", vals[0], st.pc, line))
                    b = ev.asvec(vals[0], self.M) if hasattr(ev, "asvec") else vals[0]
                    if b.op != "vec":
                        raise AnalysisBroken("right-hand side not understood: %s" % show(b)[:200])
                    return mk("vec", *[mk("lus", num(k), num(i)) for i in range(len(b.args))])
                raise AnalysisBroken("unmodelled use of the linear solver: %s" % name)
            if name == "evaluate" and recv is not None and Evaluator.root(recv) is self.problem:
                x = ev.val(st, vals[v[1]])
                self.evals.append((x, vals[d[0]], vals[d[1]], vals[v[0]], vals[v[2]], st.pc, line))
                if x.op == "ite":
                    r = self.cases(x)
                else:
                    r = self.resid(x)
                ev.write(st, locs[w[0]], r, line)
                return mk("void")
            if name.startswith("d_evaluate") and recv is not None and Evaluator.root(recv) is self.problem:
                self.jacs.append((name, vals, st.pc, line))
                return mk("void")
            if name == "evaluate_state_derivative_triplets" or name == "evaluate_state_derivative_coeffref":
                self.jacs.append((name, vals, st.pc, line))
                return None
            return None
        ev.stub = stub
        ctor = [f for f in P.functions.values() if f.get("rc") == SOLVER and f.get("ctor") and f["b"] is not None]
        ctx.need(len(ctor) == 1 and len(ctor[0]["p"]) == 2, "constructor of %s not found" % SOLVER)
        args = [self.tol if strip_cv(p["t"]) == "double" else num(maxit) for p in ctor[0]["p"]]
        ev.call_function(ctor[0], self.s, SOLVER, args, st, 0)
        fs = [f for f in P.functions.values() if f["q"] == SOLVER + "::solve" and f["b"] is not None]
        ctx.need(len(fs) == 1, "%s::solve not found" % SOLVER)
        f = self.f = fs[0]
        times, ro, flags = [self.lt, self.nt], [self.last, self.ctrl], []
        a = []
        for p in f["p"]:
            t = strip_cv(p["t"])
            if t == "double":
                a.append(times.pop(0))
            elif t == "bool":
                flags.append(p["n"])
                a.append({"newjac": TRUE if newjac else FALSE}.get(p["n"], TRUE if full else FALSE))
            elif "Model::" in t:
                a.append(self.problem)
            elif is_view(p["t"]) and "const" in p["t"]:
                a.append(ro.pop(0))
            else:
                a.append(self.x)
        n0 = len(ev.effs)
        self.val, _ = ev.call_function(f, self.s, SOLVER, a, st, 0)
        self.effs = ev.effs[n0:]

    def resid(self, x):
        if x.op != "vec":
            raise AnalysisBroken("state handed to the residual not understood: %s" % show(x)[:200])
        return mk("vec", *[mk("resid", num(i), x) for i in range(self.M)])

    def cases(self, x):
        if x.op == "ite":
            return ite(x.args[0], self.cases(x.args[1]), self.cases(x.args[2]))
        return self.resid(x)

    def count(self, st):
        return num(len([e for e in self.lin if e[0] in ("factorize", "compute")]) - 1)


def fl(t, env):
    """floating point value of a term; KeyError when it has unknown parts"""
    if t in env:
        return env[t]
    if t.op == "num":
        return float(t.args[0])
    if t.op == "add":
        r = float(t.args[0])
        for x, c in t.args[1]:
            r += float(c) * fl(x, env)
        return r
    if t.op == "mul":
        r = 1.0
        for b, e in t.args:
            v = fl(b, env)
            try:
                r *= v ** float(e) if not isinstance(v, complex) else math.nan
            except (ZeroDivisionError, OverflowError):
                r = math.nan
        return r if not isinstance(r, complex) else math.nan
    if t.op == "fn" and len(t.args) == 2 and t.args[0] in ("abs", "sqrt"):
        v = fl(t.args[1], env)
        return abs(v) if t.args[0] == "abs" else (math.sqrt(v) if v >= 0 else math.nan)
    if t.op == "fn" and t.args[0] in ("max", "min") and len(t.args) == 3:
        a, b = fl(t.args[1], env), fl(t.args[2], env)
        return (b if a < b else a) if t.args[0] == "max" else (b if b < a else a)
    raise KeyError(t)


def fact(a, env):
    """truth of an atom, None if it speaks of something else"""
    try:
        if a.op == "lt":
            return fl(a.args[0], env) < fl(a.args[1], env)
        if a.op == "le":
            return fl(a.args[0], env) <= fl(a.args[1], env)
        if a.op == "eq":
            return fl(a.args[0], env) == fl(a.args[1], env)
        if a.op == "fn" and a.args[0] in ("isnan", "isfinite", "isinf"):
            v = fl(a.args[1], env)
            return {"isnan": math.isnan, "isfinite": math.isfinite, "isinf": math.isinf}[a.args[0]](v)
    except KeyError:
        return None
    return None


GRID = [0.0, 1e-9, 0.25, 0.999, 1.0, 1.0000001, 1.5, 2.0, 7.0, 1e9, math.inf, math.nan]


def excess(asg, comps):
    """residual values compatible with the path's facts although they exceed the tolerance"""
    tol = sym("tol")
    for t in (1.0, 0.3, 1e-8):
        for r in GRID:
            for s in ((1.0, 0.0), (0.0, -1.0), (0.6, 0.8)):
                v = [r * t * x if x else (math.nan if r != r else 0.0) for x in s]
                n = math.sqrt(sum(x * x for x in v)) if not any(math.isnan(x) for x in v) else math.nan
                if n <= t * (1 + 1e-9):
                    continue
                env = {tol: t}
                env.update(zip(comps, v))
                bad = False
                for a, b in asg.items():
                    f = fact(a, env)
                    if f is not None and f != (b is TRUE):
                        bad = True
                        break
                if not bad:
                    return "residual %s with tolerance %g" % (v, t)
    return None


def run(ctx):
    its = (0, 1, 2, 3) if ctx.thorough else (0, 1, 2)
    for full in (True, False):
        for newjac in (False, True):
            for it in its:
                s = Solve(ctx, it, full, newjac, 2 if it > 1 else 4)
                ctx.used(s.ev)
                desc = "%s Jacobian, %s, at most %d iterations" % ("updated" if full else "frozen", "new structure" if newjac else "known structure", it)
                check(ctx, s, desc)
    ctx.floor("success-implies-small-residual", 12)
    ctx.floor("solve-only-after-checked-factorization", 8)


def check(ctx, s, desc):
    f = s.f
    where = "%s:%d" % (f["file"], f["l"])
    throws = [e for e in s.effs if e.kind == "throw"]
    rec = ctx.P.records.get("Solver::Solutionstruct")
    ctx.need(rec is not None and s.val.op in ("obj", "ite"), "result of solve not understood: %s" % show(s.val)[:200])
    flag = [x["n"] for x in rec["fields"] if x["t"] == "bool"]
    ctx.need(len(flag) == 1, "Solutionstruct has no single success flag")

    def field(v):
        if v.op == "ite":
            return ite(v.args[0], field(v.args[1]), field(v.args[2]))
        if v.op != "obj":
            raise AnalysisBroken("result of solve not understood: %s" % show(v)[:200])
        return dict(v.args[1])[flag[0]]
    succ = field(s.val)
    final = s.ev.read(s.st, s.x)
    n = m = 0
    bad = {}
    if not s.st.dead:
        for asg in leaves([s.st.pc]):
            if not holds(s.st.pc, asg):
                continue
            if bad:
                break
            for a2, ok in decide(succ, asg):
                if ok is FALSE or bad:
                    continue
                if ok is not TRUE:
                    # success is one more fact
                    a2 = dict(a2)
                    a2[ok] = TRUE
                for a3, x in decide(final, a2):
                    n += 1
                    if bad:
                        break
                    comps = [mk("resid", num(i), x) for i in range(s.M)]
                    w = excess(a3, comps)
                    if w:
                        known = [e for e in s.evals if holds(e[5], a3) and any(v is x for _, v in decide(e[0], a3))]
                        bad.setdefault("success is reported for state %s although the facts on this path allow %s%s"
                                       % (show(x)[:120], w, "" if known else "; no residual was computed at that state"), a3)
    for what, a in list(bad.items())[:3]:
        ctx.ob("success-implies-small-residual", desc, False, where, "%s; path: %s" % (what, path(a)), key=f["q"])
    if not bad and n:
        ctx.ob("success-implies-small-residual", "%s (%d successful paths)" % (desc, n), True, where)
    # the residual belongs to this step
    wrong = [e for e in s.evals if (e[1], e[2]) != (s.lt, s.nt) or e[3] is not s.ev.read(s.st, s.last) and e[3] is not s.last or
             not any(y is s.ctrl for y in subterms(e[4]))]
    ctx.ob("residual-of-this-step", desc, not wrong, "%s:%s" % (f["file"], wrong[0][6] if wrong else f["l"]),
           "residual evaluated with other times, last state or controls: %s" % [show(y)[:60] for y in wrong[0][1:5]] if wrong else "", key=f["q"])
    # the linear solver
    bad = {}
    solves = [(i, e) for i, e in enumerate(s.lin) if e[0] == "solve"]
    for i, e in solves:
        for asg in leaves([e[2]]):
            if not holds(e[2], asg):
                continue
            before = [j for j in range(i) if s.lin[j][0] in ("factorize", "compute")]
            open_ = [j for j in before if holds(s.lin[j][2], asg) is None]
            for a2 in leaves([s.lin[j][2] for j in before], asg):
                act = [j for j in before if holds(s.lin[j][2], a2)]
                m += 1
                w = "%s:%s" % (f["file"], e[3])
                if not act:
                    bad.setdefault((w, "a step is computed without any factorization"), a2)
                    continue
                k = num(len([j for j in range(act[-1] + 1) if s.lin[j][0] in ("factorize", "compute")]) - 1)
                good = [a for a, v in a2.items() if a.op == "eq" and any(y.op == "info" and y.args[0] is k for y in a.args) and v is TRUE
                        and any(y.op == "enumc" and y.args[0].endswith("Success") or is_num(y) and y.args[0] == 0 for y in a.args)]
                if not good:
                    bad.setdefault((w, "a step is computed although the factorization (line %s) was not found successful" % s.lin[act[-1]][3]), a2)
    for (w, what), a in list(bad.items())[:3]:
        ctx.ob("solve-only-after-checked-factorization", desc, False, w, "%s; path: %s" % (what, path(a)), key=f["q"])
    if not bad and m:
        ctx.ob("solve-only-after-checked-factorization", "%s (%d uses)" % (desc, m), True, where)
    # a failed factorization ends in an error
    bad = {}
    infos = {x for pc in [e.pc for e in s.effs] + [s.st.pc] for c in pc for x in subterms(c)
             if x.op in ("eq", "lt", "le") and any(y.op == "info" for y in x.args)}
    for a in infos:
        pol = FALSE if a.op == "eq" else None
        if pol is None:
            raise AnalysisBroken("check of the factorization not understood: %s" % show(a))
        for asg in ([] if s.st.dead else leaves([s.st.pc], {a: pol})):
            if holds(s.st.pc, asg):
                k = [y for y in subterms(a) if y.op == "info"][0]
                # does the path reach this factorization at all?
                j = [i for i, e in enumerate(s.lin) if e[0] in ("factorize", "compute")][int(k.args[0].args[0])]
                if any(holds(s.lin[j][2], b) for b in leaves([s.lin[j][2]], asg)):
                    bad.setdefault("after a failed factorization (line %s) the solver returns normally" % s.lin[j][3], asg)
    for what, a in list(bad.items())[:3]:
        ctx.ob("failed-factorization-is-an-error", desc, False, where, "%s; path: %s" % (what, path(a)), key=f["q"])
    if not bad and infos:
        ctx.ob("failed-factorization-is-an-error", desc, True, where)


def atoms_of(c):
    if c.op in ("and", "or", "not", "ite"):
        return set().union(*[atoms_of(x) for x in c.args])
    return set() if c.op in ("true", "false") else {c}


def path(a):
    return "; ".join("%s%s" % ("" if v is TRUE else "not ", show(k)[:80]) for k, v in list(a.items())[:6])


run.explanation = ("Newtonsolver::solve is interpreted with up to two or three iterations; on every path with success the recorded comparisons must force the norm of "
                   "the residual computed at the returned state to be at most the tolerance (also for NaN and infinite residuals); every use of the linear "
                   "solver must lie behind a successful info() check of the latest factorization.")
