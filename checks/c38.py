"""C38: networks without controls, constraints or edges are handled."""
from comptypes import *
from optworld import OptWorld
import c15
import c35

TECHNIQUE = ("abstract interpretation of the run command, the time evolution, the optimizer's requests and of every function of nodes to which no edge is attached, for numbers of controls and constraints from zero on; "
             "accesses outside of vectors, uses of uninitialised values and extremes of empty vectors are errors of the interpretation")
NOTE = ("In the run command network, optimizer results and files are opaque, vectors have the sizes the problem announces. Numbers are symbolic; a division by a number that may be zero is not looked for. "
        "Networks without any state are not covered.")
NP, OPT, ADA, IV = c35.NP, c35.OPT, "Optimization::IpoptAdaptor", "Aux::InterpolatingVector"


def run(ctx):
    P = ctx.P
    fs = [f for f in P.functions.values() if f["q"] == "grazer::run" and f["b"] is not None]
    ctx.need(len(fs) == 1, "grazer::run not found")
    where = "%s:%d" % (fs[0]["file"], fs[0]["l"])
    jobs = [job(o, nx, nu, ng, where) for o in (False, True) for nx in (1, 2) for nu in (0, 1, 2) for ng in ((0, 1, 2) if o else (0,))]
    jobs += [evolution(nx, nu, at(ctx, c35.SIM)) for nx in (1, 2) for nu in (0, 1)]
    jobs += [requests(nx, nu, k, at(ctx, OPT + "::" + OPT.split("::")[1])) for nx in (1, 2) for nu in (1, 2) for k in ("objective", "constraints")]
    jobs += alone(ctx)
    prove_all(ctx, jobs)
    for r, n in (("run-reaches-its-end", 24), ("evolution", 4), ("no-constraints", 8), ("node-alone", 8)):
        ctx.floor(r, n)


def evolution(nx, nu, where):
    """the time evolution with controls and without"""
    def go(I):
        P, H = I.P, I.H
        seen = []
        I.hooks[VALIDATE] = c15.checked

        def step(I, this, a, e):
            d = [x for x in (val(y) for y in a) if isinstance(x, Mat)]
            seen.append([x.a.shape for x in d])
            o = Obj("Solver::Solutionstruct")
            for f in P.records["Solver::Solutionstruct"]["fields"]:
                o.f[("Solver::Solutionstruct", f["n"])] = Cell(True if f["t"] == "bool" else num(0))
            return o
        I.hooks["Solver::Newtonsolver::solve"] = step
        I.hooks["Solver::Newtonsolver::evaluate_state_derivative_triplets"] = lambda I, this, a, e: None
        for f in P.functions.values():
            if f["n"] == "prepare_timestep":
                I.hooks[f["q"]] = lambda I, this, a, e: None
        te = target(I.call(I.find("Model::Timeevolver::make_pointer_instance"), None, [Cell(to_j({"tolerance": num(Fr(1, 10)), "maximal_number_of_newton_iterations": 4, "retries": 1, "use_simplified_newton": True}))]))
        controls = series(I, "u", 3, nu) if nu else new(I, IV)
        f = I.find(c35.SIM)
        known = {"controls": Cell(controls), "states": Cell(series(I, "x", 3, nx)), "initial": Cell(vec([mk("sym", "i%d" % k) for k in range(nx)])), "problem": Cell(Obj(NP))}
        args = []
        for p in f["p"]:
            t = p["t"]
            args.append(known["states" if "InterpolatingVector" in t and "const" not in t else "controls" if "InterpolatingVector" in t else "initial" if "Eigen" in t else "problem"])
        I.call(f, te, args)
        return seen

    def judge(o):
        if o.kind != "ok":
            return said(o)
        if len(o.value) != 2 or any(sorted(s) != sorted([(nx, 1)] * 2 + [(nu, 1)]) for s in o.value):
            return "time steps are asked for with vectors of sizes %s" % ([[s[0] for s in x] for x in o.value],)
        return None
    return ("evolution", "%d states, %d controls" % (nx, nu), go, judge, where, "evolution")


def series(I, name, times, n):
    f = next(x for x in I.P.functions.values() if x.get("ctor") and x.get("rc") == IV and x["b"] is not None and len(x["p"]) == 2 and "vector<double" in x["p"][0]["t"])
    o = Obj(IV)
    I.call(f, o, [Vec([Cell(num(k)) for k in range(times)]), n])
    m = next(c.get() for c in o.f.values() if isinstance(c.get(), Mat))
    for i in range(m.a.size):
        m.a.flat[i] = mk("sym", "%s%d" % (name, i))
    return o


def requests(nx, nu, k, where):
    """the optimizer without constraints"""
    def go(I):
        w = OptWorld(I, (0, 1, 2), (0, 1, 2), (1, 2), nx, nu, 0)
        w.wrap()
        u = w.controls("a")
        if k == "objective":
            return [w.request("f", u, True)[0], w.request("grad_f", u, False)[0]], None
        return [w.structure()[0], w.request("g", u, True)[0], w.request("jac_g", u, False)[0]], None

    def judge(o):
        if o.kind != "ok":
            return said(o)
        return None if all(x is True for x in o.value[0]) else "a request fails although nothing failed"
    return ("no-constraints", "%s of a problem with %d states, %d controls" % (k, nx, nu), go, judge, where, k)


ROLES = ("evaluate", "json_save", "add_results_to_json", "d_evaluate", "setup")


def alone(ctx):
    """every function of every node that has no edge"""
    P, H = ctx.P, ctx.H
    I0 = interp(ctx, {})
    todo = {}
    for fc in factories(ctx):
        f = make_factory(I0, fc)
        for n, c in typemap(I0, f, "node").d.items():
            todo.setdefault(concrete(target(c)) or n, (fc, "node", n, target(c)))
    out = []
    for cls, (fc, kind, n, t) in sorted(todo.items()):
        where = at(ctx, cls + "::" + cls.split("::")[-1])
        doc = None
        for d, j in c15.Gen().variants(method(I0, t, "get_schema", True, True)):
            alts = c15.tries(ctx, fc, kind, n, j)[2]
            if alts:
                doc = c15.fixed(alts[0])
                break
        if doc is None:
            ctx.ob("node-alone", cls, False, where, "no document was constructed", key=cls, terms=(mk("unknown", "none"),))
            continue
        names = {}
        for c in H.bases(cls):
            for f in P.functions.values():
                if f.get("rc") == c and f["n"].startswith(ROLES) and f["b"] is not None and not f.get("static") and "setup_" not in f["n"] and not any(p["t"] in ("long", "int") for p in f["p"]):
                    names.setdefault((f["n"], len(f["p"])), f)
        for (m, k), f in sorted(names.items()):
            if m != "setup":
                out.append(single(cls, (fc, kind, n, doc), m, f, where))
    return out


def single(cls, good, m, f, where):
    def go(I):
        I.hooks[VALIDATE] = c15.checked
        o = c15.make(I, *good)
        for name, v in (("set_state_indices", 0), ("set_control_indices", 0), ("set_constraint_indices", 0)):
            if any(x["q"] == "%s::%s" % (c, name) and x["b"] is not None for c in I.H.bases(cls) for x in I.P.functions.values()):
                method(I, o, name, v)
        method(I, o, "setup")
        for x in I.P.functions.values():
            if x["q"] == "Aux::InterpolatingVector_Base::operator()":
                I.hooks[x["q"]] = lambda I, this, a, e: vec([mk("sym", "b0"), mk("sym", "b1")])
        for x in I.P.records["Aux::Matrixhandler"]["methods"]:
            I.hooks["Aux::Matrixhandler::" + x["n"]] = lambda I, this, a, e: None
        args = []
        for i, p in enumerate(f["p"]):
            t = p["t"]
            if "Matrixhandler" in t:
                args.append(Cell(Obj("Aux::Triplethandler")))
            elif "json" in t:
                args.append(Cell(to_j({})))
            elif "Eigen" in t:
                args.append(Cell(vec([mk("sym", "v%d_%d" % (i, k)) for k in range(4)])))
            elif t == "double":
                args.append(mk("sym", "t%d" % i))
            else:
                raise Unmodelled("parameter of type %s" % t)
        method(I, o, m, *args)
        return True

    def judge(o):
        return c15.judge(o)
    return ("node-alone", "%s::%s" % (cls, m), go, judge, where, "%s|%s" % (cls, m))


def job(optimize, nx, nu, ng, where):
    doc = {"simulation_settings": {"start_time": num(0), "end_time": num(3), "desired_delta_t": num(1), "use_simplified_newton": True,
                                   "maximal_number_of_newton_iterations": 10, "tolerance": num(Fr(1, 10))}, "problem_data": {}, "optimize": optimize}

    def go(I):
        c35.prepare(I, doc)
        stand_ins(I, nx, nu, ng)
        I.call(I.find("grazer::run"), None, ["dir"])
        return "end"

    def judge(o):
        if optimize and not nu:
            if o.kind == "ok":
                return "there is nothing to optimize, but no error"
            return c15.judge(o)
        return None if o.kind == "ok" else said(o)
    return ("run-reaches-its-end", "%s, %d states, %d controls, %d constraints" % ("optimization" if optimize else "simulation", nx, nu, ng), go, judge, where, "run")


def stand_ins(I, nx, nu, ng):
    P, H = I.P, I.H
    none = lambda I, this, a, e: None
    bases = [NP] + H.bases(NP)
    hook = lambda classes, names: [I.hooks.__setitem__(f["q"], names[f["n"]]) for f in P.functions.values() if f.get("rc") in classes and f["n"] in names]
    const = lambda v: lambda I, this, a, e: v
    sym = lambda name, n: vec([mk("sym", "%s%d" % (name, k)) for k in range(n)])
    hook(bases, {"get_number_of_states": const(nx), "get_number_of_controls_per_timepoint": const(nu), "get_number_of_constraints_per_timepoint": const(ng), "save_controls_to_json": none})
    I.hooks[c35.SIM] = none
    I.hooks["io::prepare_output_directory"] = none
    for f in P.functions.values():
        if f.get("ctor") and (f.get("rc") == OPT and len(f["p"]) == 11 or f.get("rc") == ADA):
            I.hooks[f["q"]] = lambda I, this, a, e, c=f["rc"]: this or Obj(c)
    T, C, G = 4, 4, 3

    def fill(name):
        def h(I, this, a, e):
            r = val(a[1])
            if isinstance(r, Mat):
                for k in range(r.a.shape[0]):
                    r.a[k, 0] = mk("sym", "%s%d" % (name, k))
            else:
                a[1].set(mk("sym", name))
            return True
        return h
    hook([ADA], {"optimize": const(0), "get_solution": lambda I, this, a, e: sym("u", C * nu), "get_cost_value": const(mk("sym", "cost")),
                 "get_penalty_value": const(mk("sym", "penalty")), "get_objective_value": const(mk("sym", "objective"))})
    times = lambda a: vec([num(x) for x in a])
    CJ = "Optimization::ConstraintJacobian"
    cj = []

    def jacobian(I, this, a, e):
        if not cj:
            cj.append(Cell(new(I, CJ, ng, nu, times((1, 2, 3)), times((0, 1, 2, 3)))))
        return cj[0]

    def states(I, this, a, e):
        f = next(x for x in P.functions.values() if x.get("ctor") and x.get("rc") == IV and x["b"] is not None and len(x["p"]) == 2 and "vector<double" in x["p"][0]["t"])
        o = Obj(IV)
        I.call(f, o, [Vec([Cell(num(k)) for k in range(4)]), nx])
        m = next(c.get() for c in o.f.values() if isinstance(c.get(), Mat))
        for i in range(m.a.size):
            m.a.flat[i] = mk("sym", "x%d" % i)
        return Cell(o)
    hook([OPT] + H.bases(OPT), {"get_current_full_state": states, "get_constraint_jacobian": jacobian, "new_x": none, "evaluate_constraints": fill("g"), "evaluate_objective": fill("f"),
                                "get_total_no_constraints": const(G * ng), "constraints_per_step": const(ng), "controls_per_step": const(nu),
                                "get_no_nnz_in_jacobian": const(G * ng * C * nu)})

    def bounds(I, this, a, e):
        for k, x in enumerate(a):
            o = val(x)
            if isinstance(o, Obj) and o.cls == IV:
                m = o.f and next(c.get() for (c_, n), c in o.f.items() if isinstance(c.get(), Mat))
                for i in range(m.a.size):
                    m.a.flat[i] = mk("sym", "b%d_%d" % (k, i))
    I.hooks["Optimization::initialize_bounds"] = bounds


def vec(xs):
    a = np.empty((len(xs), 1), dtype=object)
    for i, x in enumerate(xs):
        a[i, 0] = tt(x)
    return Mat(a, True)


run.explanation = ("grazer::run is interpreted to its end for every combination of zero, one and two controls and constraints; the time evolution and the optimizer's callbacks likewise; "
                   "every evaluation, derivative and result function of each node type is interpreted for a node without edges.")
