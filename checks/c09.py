"""C09: the network applies every function to each capable component once."""
from networld import *
from sem import jdoc

TECHNIQUE = "abstract interpretation of the network problem over networks with every component class; the calls on components are counted and compared"
NOTE = ("Decided for networks with no component, every concrete class once, twice and alone, for all values of the arguments. Components are opaque, so the "
        "result does not depend on what they compute.")
# interfaces giving a component a capability
CAPS = ("Model::Equationcomponent", "Model::Controlcomponent", "Model::Statecomponent", "Model::Costcomponent", "Model::Constraintcomponent")
# per component and call: decided elsewhere (C08: index distribution, C10: documents)
ELSEWHERE = {"set_state_indices", "set_control_indices", "set_constraint_indices",
             "set_initial_values", "set_initial_controls", "set_lower_bounds", "set_upper_bounds",
             "set_constraint_lower_bounds", "set_constraint_upper_bounds"}
TOTALS = {"evaluate_cost": "get_cost_weight", "evaluate_penalty": "get_penalty_weight"}


def interface_methods(H, cap):
    """name -> method record, of the virtual functions of a capability"""
    out = {}
    for c in [cap] + H.bases(cap):
        for m in H.rec[c]["methods"]:
            if m["virt"] and not m["n"].startswith("~") and m["n"] not in out:
                out[m["n"]] = m
    return out


def run(ctx):
    P, H = ctx.P, ctx.H
    caps = {c: interface_methods(H, c) for c in CAPS}
    own = {}
    for c in [NP] + H.bases(NP):
        for m in H.rec[c]["methods"]:
            if not m["virt"] or m["n"].startswith("~"):
                continue
            k, _ = H.final_overrider(NP, m["key"])
            if k in P.functions and P.functions[k]["b"] is not None and (P.functions[k].get("rc") == NP):
                own[k] = P.functions[k]
    ctx.need(len(own) >= 20, "functions of the network problem not found")
    names = {}
    for f in own.values():
        n = f["n"]
        if n in ELSEWHERE:
            continue
        on = [c for c in CAPS if n in caps[c]]
        # a function of identification (type, id) concerns no component
        if not on or not f["p"] and n not in ("setup",):
            continue
        names.setdefault(n, []).append((f, on))
    ctx.need(len(names) >= 15, "only %d network-wide functions found" % len(names))
    shapes = list(mixes(ctx))
    # a node and an edge that have every capability
    for n, b in (("@Node", NODE), ("@Edge", EDGE)):
        H.rec[n] = {"n": n, "bases": [{"t": x} for x in (b,) + CAPS], "methods": [], "fields": [], "abstract": False, "q": n}
    for what, nodes, edges in shapes + [("a node and an edge with every capability", ["@Node"], ["@Edge"])]:
        for n, fl in sorted(names.items()):
            for f, on in fl:
                one(ctx, what, nodes, edges, f, on, caps)
        setup(ctx, what, nodes, edges, caps)
    ctx.floor("applied-to-every-capable-component", 400)
    ctx.floor("arguments-handed-on", 400)
    ctx.floor("network-total-is-the-sum", 10)


def component_calls(w, effs, n):
    cs = set(w.comps)
    out = {}
    for e in effs:
        if e.kind != "call":
            continue
        r = e.d.get("recv")
        if r in cs:
            out.setdefault(r, []).append(e)
    return out


def always(e):
    return band(*e.pc) is TRUE and not e.loops


def one(ctx, what, nodes, edges, f, on, caps):
    H = ctx.H
    w = NetWorld(ctx.P, H, nodes, edges)
    args = []
    for p in f["p"]:
        args.append(sym("<%s>" % p["n"]) if is_scalar(p["t"]) else mk("glob", "@" + p["n"]))
    v, effs = w.call_f(f, *args)
    where = "%s:%d" % (f["file"], f["l"])
    ctx.used(w.ev)
    calls = component_calls(w, effs, f["n"])
    total = []
    for o in w.comps:
        c = w.ev.dyntype[o]
        want = [x for x in on if H.isa(c, x)]
        got = [e for e in calls.get(o, []) if e.d["name"] == f["n"]]
        other = [e for e in calls.get(o, []) if e.d["name"] != f["n"] and not e.d.get("mc")]
        inst = "%s, %s %s" % (what, c, f["n"])
        ok = len(got) == len(want) and all(always(e) for e in got) and not other
        if not ctx.ob("applied-to-every-capable-component", inst, ok, where,
                      "called %d times (%s), expected %d%s" % (len(got), [show(band(*e.pc))[:80] for e in got if not always(e)], len(want), "; also calls %s" % [e.d["name"] for e in other] if other else ""),
                      key=f["n"]):
            continue
        for e in got:
            a = e.d.get("locs") or e.d["args"]
            ok = len(a) <= len(args) and all(same(w, x, y) for x, y in zip(a, args))
            ctx.ob("arguments-handed-on", inst, ok, where, "called with (%s) for (%s)" % (", ".join(show(x)[:40] for x in a), ", ".join(show(x) for x in args)), key=f["n"])
            if f["n"] in TOTALS:
                total.append(e.d["res"])
    if f["n"] in TOTALS:
        wv, _ = w.call("Model::Costcomponent", TOTALS[f["n"]])
        ctx.zero("network-total-is-the-sum", "%s, %s" % (what, f["n"]), sub(v, mul(wv, add(*total) if total else ZERO)), where, key=f["n"])


def same(w, x, y):
    if x is y:
        return True
    if w.ev.is_loc(x) and w.ev.is_loc(y):
        return w.ev.val(w.st, x) is w.ev.val(w.st, y)
    if w.ev.is_loc(y):
        return w.ev.val(w.st, y) is x
    return False


def setup(ctx, what, nodes, edges, caps):
    """init prepares the indices of every component before setting it up"""
    P, H = ctx.P, ctx.H
    fs = [f for f in P.functions.values() if f.get("rc") == NP and f["n"] == "init" and f["b"] is not None]
    ctx.need(len(fs) == 1, "Networkproblem::init not found")
    w = NetWorld(P, H, nodes, edges)
    _, effs = w.call_f(fs[0], *[sym("<%s>" % p["n"]) for p in fs[0]["p"]])
    where = "%s:%d" % (fs[0]["file"], fs[0]["l"])
    calls = component_calls(w, effs, None)
    for o in w.comps:
        c = w.ev.dyntype[o]
        order = [e.d["name"] for e in calls.get(o, [])]
        for cap, n in (("Model::Statecomponent", "set_state_indices"), ("Model::Controlcomponent", "set_control_indices"),
                       ("Model::Constraintcomponent", "set_constraint_indices")):
            k = order.count(n)
            ctx.ob("indices-set-once", "%s, %s %s" % (what, c, n), k == int(H.isa(c, cap)), where, "called %d times" % k, key=n)
        if H.isa(c, "Model::Equation_base"):
            want = sum(H.isa(c, x) for x in ("Model::Equationcomponent", "Model::Controlcomponent"))
            ctx.ob("set-up-once", "%s, %s" % (what, c), order.count("setup") == want and order[-1:] == ["setup"] and all(always(e) for e in calls[o]), where,
                   "order of calls: %s" % order, key="setup")


run.explanation = ("The network problem is constructed by interpreting its constructor on a network holding the given components; every network-wide function is then "
                   "interpreted and the calls made on each component are compared with its capabilities, the arguments and the returned total.")
