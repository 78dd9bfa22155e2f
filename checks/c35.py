"""C35: time grids cover exactly the requested interval."""
from c21 import nodes
from objs import *

TECHNIQUE = ("abstract interpretation of the whole command from its settings up to the simulation or the optimizer, with exact numbers, for a family of settings; "
             "syntactic dataflow rule against rounding errors that add up over a loop")
NOTE = ("The settings are representatives: intervals whose length is and is not a multiple of the step, steps longer than the interval, every constraint distance up to beyond the number of steps. "
        "Files, directories, the network and the component data are opaque. Exact arithmetic; rounding is bounded by the rule that no point is computed from its predecessor.")
NP = "Model::Networkproblem"
OPT = "Optimization::ImplicitOptimizer"
SIM = "Model::Timeevolver::simulate"


def run(ctx):
    P = ctx.P
    fs = [f for f in P.functions.values() if f["q"] == "grazer::run" and f["b"] is not None]
    ctx.need(len(fs) == 1, "grazer::run not found")
    where = "%s:%d" % (fs[0]["file"], fs[0]["l"])
    for s in settings(ctx.thorough):
        one(ctx, where, *s)
    rounding(ctx)
    ctx.floor("state-grid", 6)
    ctx.floor("constraint-grid", 10)
    ctx.floor("no-accumulation", 1)


def settings(thorough):
    grids = [(0, 6, 1), (1, 5, Fr(3, 2)), (-2, 3, Fr(1)), (0, 1, 7), (Fr(1, 3), Fr(10, 3), Fr(1, 2)), (5, 25, 10)]
    # lengths just above and just below a multiple of the step
    near = [(0, m + s * e, 1) for m in (1, 2, 3, 7) for s in (1, -1) for e in (Fr(1, 100), Fr(1, 10 ** 6))] + [(Fr(-1, 2), Fr(1, 2), Fr(1, 5) - Fr(1, 10 ** 4))]
    for g in grids:
        yield g, {}, None, False
        yield g, {"control_settings": {"desired_delta_t": num(Fr(7, 5))}}, None, False
        yield g, {"control_settings": {"number_of_steps": 4}}, None, False
        for k in (2, 3, 7):
            yield g, {"control_settings": {"number_of_steps": k}}, None, False
    for g in near:
        yield g, {}, None, False
        yield (0, 6, 1), {"control_settings": {"desired_delta_t": num(6 * Fr(g[2]) / (g[1] - g[0]))}}, None, False
        yield g, {}, None, True
    for g in grids[:4]:
        for n in range(1, 9 if thorough else 8):
            yield g, {"constraint_settings": {"evaluate_constraints_every_n": n}}, n, True
        yield g, {}, 1, True
        yield g, {"control_settings": {"desired_delta_t": num(Fr(7, 5))}, "constraint_settings": {"evaluate_constraints_every_n": 2}}, 2, True
    yield grids[0], {"constraint_settings": {"evaluate_constraints_every_n": 0}}, None, True
    yield grids[0], {"constraint_settings": {"evaluate_constraints_every_n": -3}}, None, True
    yield (3, 3, 1), {}, None, False
    yield (4, 3, 1), {}, None, False
    for d in (-1, Fr(-1, 2), -3, -4, -1000, 0):
        yield (0, 3, d), {}, None, False
        yield grids[0], {"control_settings": {"desired_delta_t": num(Fr(d))}}, None, False
    for k in (1, 0, -2):
        yield grids[0], {"control_settings": {"number_of_steps": k}}, None, False
    yield grids[0], {"control_settings": {"desired_delta_t": num(Fr(1)), "number_of_steps": 3}}, None, False


def one(ctx, where, grid, extra, n, optimize):
    P, H = ctx.P, ctx.H
    start, end, step = (Fr(x) for x in grid)
    doc = {"simulation_settings": {"start_time": num(start), "end_time": num(end), "desired_delta_t": num(step), "use_simplified_newton": True,
                                   "maximal_number_of_newton_iterations": 10, "tolerance": num(Fr(1, 10))}, "problem_data": {}, "optimize": optimize}
    doc.update(extra)
    cs = extra.get("control_settings", {})
    desc = "from %s to %s step %s%s%s" % (start, end, step, "".join(", controls %s %s" % (k, show(v) if isinstance(v, T) else v) for k, v in cs.items()),
                                          ", constraints every %s" % extra["constraint_settings"]["evaluate_constraints_every_n"] if "constraint_settings" in extra else
                                          ", optimization" if optimize else "")

    def go(I):
        prepare(I, doc)
        I.call(I.find("grazer::run"), None, ["dir"])
        raise Unmodelled("neither simulated nor optimized")

    def judge(rule):
        def j(o):
            if o.kind == "ub":
                return said(o)
            if o.kind != "throw":
                raise Unmodelled(said(o))
            if o.value.cls != "!captured":
                if wrong:
                    return None
                return "error: %s" % (o.value.msg,)
            if wrong:
                return "no error although the settings are contradictory"
            kind, a = o.I.captured
            if (kind == "optimize") != optimize:
                return "settings ask for %s" % ("optimization" if optimize else "simulation")
            if kind == "simulate":
                controls, states = points(a[1]), points(a[3])
                cons = None
            else:
                states, controls, cons = (numbers(x) for x in a[2:5])
                for x, which in ((a[6], "initial controls"), (a[7], "lower bounds"), (a[8], "upper bounds")):
                    if points(x) != controls:
                        return "%s are given at %s" % (which, text(points(x)))
                for x, which in ((a[9], "lower constraint bounds"), (a[10], "upper constraint bounds")):
                    if points(x) != cons:
                        return "%s are given at %s" % (which, text(points(x)))
            if rule == "state-grid":
                return covers("state", states, start, end, step)
            if rule == "control-grid":
                w = covers("control", controls, start, end, cs["desired_delta_t"].args[0] if "desired_delta_t" in cs else None if "number_of_steps" in cs else step)
                if w is None and "number_of_steps" in cs and len(controls) != cs["number_of_steps"]:
                    w = "%d control points instead of %d" % (len(controls), cs["number_of_steps"])
                return w
            if rule == "constraint-grid":
                if cons is None:
                    return None
                t = "constraint times %s, state times %s" % (text(cons), text(states))
                if any(b <= a_ for a_, b in zip(cons, cons[1:])) or not cons:
                    return t + ": not increasing"
                if any(c not in states[1:] for c in cons):
                    return t + ": not state times after the start"
                if cons[-1] != states[-1]:
                    return t + ": the final time is not constrained"
                if n is not None and any(c != states[1 + n * i] for i, c in enumerate(cons[:-1])):
                    return t + ": not every %dth state time" % n
                return None
        return j
    wrong = end <= start or step <= 0 or len(cs) > 1 or cs.get("number_of_steps", 2) < 2 or "desired_delta_t" in cs and cs["desired_delta_t"].args[0] <= 0
    r = {}
    for rule in ("state-grid", "control-grid") + (("constraint-grid",) if optimize else ()):
        prove(ctx, rule, desc, go, judge(rule), where, "%s|%s" % (rule, desc))


def text(v):
    return "[%s]" % ", ".join(str(x) for x in v)


def numbers(m):
    m = val(m)
    if isinstance(m, Mat):
        v = [m.a[i, 0] for i in range(m.a.shape[0])]
    else:
        raise Unmodelled("points %r" % (m,))
    out = []
    for x in v:
        x = tt(x)
        if x.op != "num":
            raise Unmodelled("point %s" % show(x))
        out.append(x.args[0])
    return out


def points(iv):
    iv = val(iv)
    m = method_of(iv)
    if isinstance(m, Vec):
        out = [tt(c.get()) for c in m.l]
        if any(x.op != "num" for x in out):
            raise Unmodelled("points")
        return [x.args[0] for x in out]
    return numbers(m)


def method_of(iv):
    for (c, n), v in iv.f.items():
        if n == "interpolation_points":
            return v.get()
    raise Unmodelled("interpolation points of %r" % (iv,))


def covers(what, ts, start, end, step):
    t = "%s times %s" % (what, text(ts[:12]))
    if not ts or ts[0] != start:
        return t + ": do not begin at %s" % start
    if ts[-1] != end:
        return t + ": do not end at %s" % end
    if any(b <= a for a, b in zip(ts, ts[1:])):
        return t + ": not increasing"
    if step is not None and any(b - a > step for a, b in zip(ts, ts[1:])):
        return t + ": steps longer than %s" % step
    return None


def prepare(I, doc):
    P, H = I.P, I.H
    none = lambda I, this, a, e: None
    I.hooks["aux_json::get_json_from_file_path"] = lambda I, this, a, e: to_j(doc)
    I.hooks["io::unique_output_directory"] = lambda I, this, a, e: "dir/output/now"
    I.hooks["Model::Timeevolver::make_pointer_instance"] = lambda I, this, a, e: UP(Ptr(Cell(Obj("Model::Timeevolver"))))
    I.hooks["Model::build_net"] = lambda I, this, a, e: UP(Ptr(Cell(Obj("Network::Net"))))
    I.hooks["Optimization::initialize_bounds"] = none
    bases = [NP] + H.bases(NP)
    for f in P.functions.values():
        if f.get("ctor") and f.get("rc") in (NP, "Optimization::ControlStateCache", "Model::Componentfactory::Full_factory"):
            I.hooks[f["q"]] = none
        if f.get("ctor") and f.get("rc") == OPT and len(f["p"]) == 11:
            I.hooks[f["q"]] = captured("optimize")
        if f.get("rc") in bases:
            if f["n"] in ("get_number_of_states", "get_number_of_controls_per_timepoint", "get_number_of_constraints_per_timepoint"):
                I.hooks[f["q"]] = lambda I, this, a, e: 2
            if f["n"] in ("init", "set_initial_values", "set_initial_controls", "json_save", "add_results_to_json"):
                I.hooks[f["q"]] = none
    I.hooks[SIM] = captured("simulate")
    I.captured = None

    def outside(I, n, q, v, e):
        if not q.startswith("std::filesystem"):
            return NotImplemented
        return True if n in ("is_directory", "exists", "create_directory", "create_directories") else "path"
    I.exthooks.append(outside)


def captured(kind):
    def f(I, this, a, e):
        I.captured = kind, [val(x) for x in a]
        raise Thrown("!captured", "", "")
    return f


# ---------------------------------------------------------------- rounding

LOOPS = ("for", "while", "do", "rfor")


def rounding(ctx):
    """no point of a grid is computed from its predecessor"""
    P = ctx.P
    seen = 0
    for k, f in sorted(P.functions.items()):
        if f["b"] is None or f["q"] not in ctx.units or not ("vector<double" in f.get("rt", "") or "VectorXd" in f.get("rt", "") or "Interpolat" in f["q"]) or "/src/" not in f["file"]:
            continue
        loops = [x for x in nodes(f["b"]) if x.get("k") in LOOPS]
        if not loops:
            continue
        seen += 1
        bad = None
        for L in loops:
            acc = set()
            for x in nodes(L):
                if x.get("k") == "assign" and x["x"].get("k") == "var" and "double" in x["x"].get("t", ""):
                    v = x["x"]["id"]
                    if x["op"] in ("+=", "-=") or x["op"] == "=" and any(y.get("k") == "var" and y.get("id") == v for y in nodes(x["y"])):
                        if not any(y.get("k") == "decl" and any(isinstance(d, dict) and d.get("id") == v for d in (y["d"] if isinstance(y["d"], list) else [y["d"]])) for y in nodes(L.get("b"))):
                            acc.add(v)
            for x in nodes(L.get("b")):
                if x.get("k") == "mcall" and x.get("n") in ("push_back", "emplace_back"):
                    target_, values = x["e"], x["a"]
                elif x.get("k") == "assign" and x["x"].get("k") in ("opcall", "index", "mcall") and "double" in x["x"].get("t", ""):
                    target_, values = x["x"], [x["y"]]
                else:
                    continue
                ids = {y["id"] for y in nodes(target_) if y.get("k") == "var"} - {y["id"] for y in nodes(target_) if y.get("k") == "var" and "double" not in y.get("t", "")}
                for w in values:
                    for y in nodes(w):
                        if y.get("k") == "var" and y.get("id") in acc:
                            bad = x, "adds up rounding errors: the point is accumulated over the loop"
                        if y.get("k") in ("opcall", "mcall") and (y.get("op") == "[]" or y.get("n") in ("back", "at", "operator()")) and any(z.get("k") == "var" and z.get("id") in ids for z in nodes(y)):
                            bad = x, "adds up rounding errors: the point is computed from another point"
        where = "%s:%s" % (f["file"], (bad[0] if bad else f)["l"])
        ctx.ob("no-accumulation", f["q"], bad is None, where, bad[1] if bad else "", key=f["q"])
    return seen


run.explanation = "grazer::run is interpreted with the given settings until it simulates or builds the optimizer; the time points it hands over are compared with the settings."
