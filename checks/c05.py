"""C05: a failed time step never produces results."""
from evolve import *

TECHNIQUE = "abstract interpretation of the time loop with the solver replaced by its contract; exhaustive case analysis over solver outcomes"
NOTE = ("Decides the property for trajectories of up to five time points and up to two configured retries, every combination of solver outcomes, "
        "full and simplified Newton method. The solver enters only through its contract (some outcome, some vector), which C04 examines. "
        "Longer trajectories are covered because each turn of the loop is the same code; that extension is an argument, not a proof.")


def configs(ctx):
    for n in ((2, 3, 4, 5) if ctx.thorough else (2, 3, 4)):
        for r in ((0, 1, 2) if ctx.thorough else (0, 1)):
            for s in (True, False):
                # a step may take up to 2*retries+2 attempts: keep outcomes enumerable
                if (n - 1) * (2 * r + 2) <= (14 if ctx.thorough else 10):
                    yield n, r, s


def accepted(ctx, E, desc):
    f, ev = E.f, E.ev
    where = "%s:%d" % (f["file"], f["l"])
    ctx.ob("loop-understood", desc, not ev.cuts, where, "attempts not exhausted after %d repetitions: %s" % (ev.fork, ev.cuts[:2]), key=f["q"])
    if ev.cuts:
        return
    stores = [e for e in E.effs if e.kind == "store" and any(x is E.values for x in subterms(e.d["loc"]))]
    throws = [e for e in E.effs if e.kind == "throw"]
    ctx.need(stores, "no results are stored by %s" % f["q"])
    ctx.need(E.solves, "the solver is never called by %s" % f["q"])
    M, n = E.M, E.n
    bad = {}
    total = 0
    for asg in E.assignments():
        total += 1
        act = lambda pc: holds(pc, asg)
        thrown = [e for e in throws if act(e.pc)]
        ok = {k for k, s in enumerate(E.solves) if act(s[6]) and asg.get(s[0]) is TRUE}
        sol = {}
        for k in ok:
            for j in range(M):
                sol[E.solves[k][1].args[j]] = (k, j)
        # what is stored, whether or not the run later fails
        for e in stores:
            if not act(e.pc):
                continue
            i = e.d["loc"].args[1]
            v = under(e.d["val"], asg)
            if not (i.op == "num" and (v in sol or (v in E.initial.args and int(i.args[0]) < M))):
                bad.setdefault("stores %s, which no successful solve delivered" % show(v)[:80], (e.where(), asg))
        if thrown:
            continue
        live = act(E.st.pc) and not E.st.dead
        if not live:
            bad.setdefault("neither returns nor throws", (where, asg))
            continue
        out = [under(x, asg) for x in E.st.env[E.values].args]
        if out[:M] != list(E.initial.args):
            bad.setdefault("the first saved state is not the initial state", (where, asg))
        for i in range(1, n):
            got = out[i * M:(i + 1) * M]
            ks = {sol.get(x, (None, None))[0] for x in got}
            k = ks.pop()
            if ks or k is None or [sol[x][1] for x in got] != list(range(M)):
                bad.setdefault("returns normally although saved state %d is %s, not the result of a successful solve" % (i, [show(x)[:40] for x in got]), (where, asg))
                break
            o, x, lt, nt, ls, ct, pc, line = E.solves[k]
            w = "%s:%s" % (f["file"], line)
            if (under(lt, asg), under(nt, asg)) != (E.t[i - 1], E.t[i]):
                bad.setdefault("saved state %d was solved for a step from %s to %s" % (i, show(under(lt, asg)), show(under(nt, asg))), (w, asg))
            if list(under(ls, asg).args) != out[(i - 1) * M:i * M]:
                bad.setdefault("step %d starts from %s instead of the accepted state before" % (i, show(under(ls, asg))[:80]), (w, asg))
            prep = [p for p in E.prepares if p[3] <= k and act(p[1])]
            if not prep:
                bad.setdefault("step %d is solved without being prepared" % i, (w, asg))
                continue
            d, v, _ = roles_of(H_prep(ctx)["p"])
            a = prep[-1][0]
            if [under(a[j], asg) for j in d] != [E.t[i - 1], E.t[i]] or under(a[v[0]], asg) is not under(ls, asg) or (len(v) > 1 and under(a[v[1]], asg) is not under(ct, asg)):
                bad.setdefault("step %d is prepared with other arguments than it is solved with" % i, (w, asg))
    for what, (w, asg) in list(bad.items())[:6]:
        ctx.ob("only-accepted-steps", desc, False, w, "%s when %s" % (what, ", ".join("%s=%s" % (show(a)[:60], b.op) for a, b in asg.items())[:300]), key=f["q"] + what[:60])
    if not bad:
        ctx.ob("only-accepted-steps", desc + " (%d outcome combinations)" % total, True, where)


def H_prep(ctx):
    m, c = ctx.H.find_method(CO, "prepare_timestep")
    if m is None:
        raise AnalysisBroken("prepare_timestep not found")
    k, c = ctx.H.final_overrider("Model::Networkproblem", m["key"])
    return ctx.P.functions[k]


def run(ctx):
    for n, r, s in configs(ctx):
        desc = "%d saved times, %d retries, %s Newton" % (n, r, "simplified" if s else "full")
        E = Evolution(ctx.P, ctx.H, n, r, s)
        accepted(ctx, E, desc)
        ctx.used(E.ev)
    ctx.floor("only-accepted-steps", 8)
    points(ctx)


def points(ctx):
    """equidistant time points: the i-th point is start + i*delta"""
    P, H = ctx.P, ctx.H
    for n in (1, 2, 3, 6):
        ev = Evaluator(P, H)
        ev.unroll = 20
        ev.cur = Frame({"q": "<points>", "n": "<points>", "file": "", "p": [], "rt": "", "l": 0}, None, None, None)
        st = State()
        iv = "Aux::InterpolatingVector"
        o = mk("glob", "@iv")
        ev.dyntype[o] = iv
        fs = [f for f in P.functions.values() if f.get("rc") == iv and f.get("ctor") and f["b"] is not None and f["p"] and "Interpolation_data" in f["p"][0]["t"]]
        ctx.need(len(fs) == 1, "constructor of %s from equidistant data not found" % iv)
        rec = P.records["Aux::Interpolation_data"]
        fl = [f["n"] for f in rec["fields"]]
        ctx.need(len(fl) == 3, "Interpolation_data has changed")
        vals = {}
        for x in rec["fields"]:
            vals[x["n"]] = num(n) if strip_cv(x["t"]) != "double" else sym("a" if not [v for v in vals.values() if v.op == "sym"] else "d")
        ev.call_function(fs[0], o, iv, [mk("obj", "Aux::Interpolation_data", tuple(sorted(vals.items()))), num(2)], st, 0)
        lists = [v for k, v in st.env.items() if k.op == "fld" and k.args[0] is o and v.op == "list"]
        f = fs[0]
        ok = len(lists) == 1 and len(lists[0].args) == n
        if ok:
            for i, x in enumerate(lists[0].args):
                ctx.zero("equidistant-points", "point %d of %d" % (i, n), sub(x, add(sym("a"), mul(num(i), sym("d")))), "%s:%d" % (f["file"], f["l"]), key=f["q"])
        else:
            ctx.ob("equidistant-points", "%d points" % n, False, "%s:%d" % (f["file"], f["l"]), "points: %s" % [show(x)[:200] for x in lists], key=f["q"])
        ctx.used(ev)
    ctx.floor("equidistant-points", 4)


run.explanation = ("The function simulate of the time evolver, with everything it calls except the nonlinear solver and the controls, is interpreted for "
                   "every combination of solver outcomes; on every normal return each saved state must be the result of a successful solve of the right "
                   "step from the accepted state before, and nothing else may be stored.")
