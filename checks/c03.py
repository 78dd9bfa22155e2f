"""C03: the set of matrix positions delivered does not depend on values."""
from worlds import *
from flows import handler_flows

TECHNIQUE = "abstract interpretation: value-independence of the guards and positions of every coefficient contribution; def-use matching of fresh and in-place fills"
NOTE = ("Decided for every component class in the enumerated small networks with all states, controls, times and parameters symbolic. The network's "
        "shape and parameters may decide about positions, values may not. For every matrix that is refilled in place, the analysis also shows "
        "that its structure was set up from the same derivative functions in the same orientation.")

VALUES = (LS, NS, CT, LT, NT, mk("glob", "@time"), mk("glob", "@state"))


def valued(t):
    return any(x in VALUES for x in subterms(t))


def atoms(g):
    out = []

    def go(x):
        if x.op in ("and", "or", "not"):
            for a in x.args:
                go(a)
        elif x.op == "ite" and isinstance(x.args[0], T):
            for a in x.args:
                go(a)
        elif x.op == "bool" or x in (TRUE, FALSE):
            pass
        elif x not in out:
            out.append(x)
    go(g)
    return out


def constant_in_values(g):
    """is the condition the same for every choice of the value-dependent atoms?"""
    at = [a for a in atoms(g) if valued(a)]
    if not at:
        return True
    if len(at) > 9:
        raise AnalysisBroken("too many value-dependent conditions")
    seen = set()
    for bits in itertools.product((TRUE, FALSE), repeat=len(at)):
        asg = dict(zip(at, bits))
        if not consistent(asg):
            continue
        seen.add(assume(g, asg))
    return len(seen) <= 1


def consistent(asg):
    from alg import _consistent
    try:
        return _consistent({k: v for k, v in asg.items()})
    except Exception:
        return True


TM, SV = VALUES[-2:]
ENTRY = [(EQ, "d_evaluate_d_new_state", [J, LT, NT, LS, NS]), (EQ, "d_evaluate_d_last_state", [J, LT, NT, LS, NS]),
         (CO, "d_evaluate_d_new_state", [J, LT, NT, LS, NS, CT]), (CO, "d_evaluate_d_last_state", [J, LT, NT, LS, NS, CT]),
         (CO, "d_evaluate_d_control", [J, LT, NT, LS, NS, CT])]
for i, n in ((COST, "d_evaluate_cost_d_state"), (COST, "d_evaluate_cost_d_control"), (CO, "d_evaluate_penalty_d_state"),
             (CO, "d_evaluate_penalty_d_control"), (CONS, "d_evaluate_constraint_d_state"), (CONS, "d_evaluate_constraint_d_control")):
    ENTRY.append((i, n, [J, NT, NS, CT]))


def run(ctx):
    for w, what in worlds(ctx):
        for n in what:
            o = w.objs[n][0]
            cls = w.cls(o)
            for iface, meth, args in ENTRY:
                if not w.H.isa(cls, iface):
                    continue
                try:
                    f = w.impl(cls, iface, meth)
                except AnalysisBroken:
                    if any(m["n"] == meth for m in w.H.rec[iface]["methods"]):
                        raise
                    continue
                v, effs = w.call(o, iface, meth, *args, commit=False)
                pos = {}
                for e in effs:
                    if e.kind != "call" or e.d.get("recv") is not J:
                        continue
                    if e.d["name"] != "add_to_coefficient":
                        raise AnalysisBroken("unmodelled Matrixhandler call %s at %s" % (e.d["name"], e.where()))
                    r, c = canon(e.d["args"][0]), canon(e.d["args"][1])
                    inst = "%s::%s in %s at %s" % (cls, meth, w.desc, e.where())
                    key = "%s::%s" % (cls, meth)
                    ctx.ob("position-value-free", inst, not valued(r) and not valued(c), e.where(),
                           "position (%s, %s) depends on values" % (show(r)[:120], show(c)[:120]), key=key)
                    dom = FALSE if not e.loops else TRUE
                    if e.loops and any(valued(x) for x in e.loops):
                        ctx.ob("position-value-free", inst, False, e.where(), "the loop adding the entry runs a value-dependent number of times", key=key)
                    pos.setdefault((r, c), []).append(e)
                for (r, c), es in sorted(pos.items(), key=lambda kv: show(mk("p", *kv[0]))):
                    g = bor(*[band(*e.core) for e in es])
                    inst = "%s::%s in %s: (%s,%s)" % (cls, meth, w.desc, show(r), show(c))
                    ctx.ob("presence-value-free", inst, constant_in_values(g), "; ".join(sorted({str(e.where()) for e in es})[:3]),
                           "entry is added only if %s" % show(g)[:300], key="%s::%s" % (cls, meth))
        ctx.used(w.ev)
    ctx.floor("presence-value-free", 300)
    # structure and refill of the same matrix come from the same functions
    fl = handler_flows(ctx)
    by = {}
    for h in fl:
        by.setdefault((h["owner"], h["matrix"]), []).append(h)
    for (owner, mat), hs in sorted(by.items()):
        fresh = [h for h in hs if h["kind"] == "fresh"]
        for h in hs:
            if h["kind"] != "refill":
                continue
            same = [g for g in fresh if g["calls"] == h["calls"] and g["transposed"] == h["transposed"]]
            ctx.ob("refill-matches-structure", "%s.%s refilled in %s" % (owner, mat, h["fn"]), len(fresh) > 0 and len(same) == len(fresh), h["where"],
                   "structure from %s, refilled by %s" % ([(sorted(g["calls"]), g["transposed"]) for g in fresh], (sorted(h["calls"]), h["transposed"])),
                   key="%s.%s" % (owner, mat))
    ctx.floor("refill-matches-structure", 5)


run.explanation = ("Every derivative entry point of every component is interpreted with symbolic values; for each delivered matrix position the disjunction of "
                   "the guards of its contributions must be invariant under all truth values of the value-dependent conditions. Matrices refilled "
                   "through coefficient references must have been structured by the same derivative calls.")
