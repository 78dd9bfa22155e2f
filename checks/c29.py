"""C29: reported results are the computed states."""
from worlds import *
from command import *
from fractions import Fraction
from c26 import pq, powerflow, rows_of
from c18 import Data
from sem import jdoc

TECHNIQUE = "abstract interpretation of saving and reporting over concrete documents with symbolic values; comparison with the state entries and the coupling laws"
NOTE = ("Decided for every component class in the enumerated networks, for two saved times with all values symbolic; the number of saved times enters only through the "
        "number of calls. The text written to disk is the json library's business. Prescribed powers are accepted as reported powers because the node's own equations make them equal.")


def get(t, *path):
    for k in path:
        if t is None:
            return None
        if isinstance(k, int):
            t = t.args[k] if t.op == "list" and k < len(t.args) else None
        else:
            t = dict(t.args[0]).get(k) if t.op == "jobj" else None
    return t


def length(t):
    return len(t.args) if t is not None and t.op == "list" else None


def run(ctx):
    H = ctx.H
    ctx.need(H.concrete(ST), "no state components")
    seen = set()
    for w, what in worlds(ctx):
        for n in what:
            o = w.objs[n][0]
            if H.isa(w.cls(o), ST):
                component(ctx, w, o)
                seen.add(w.cls(o))
        ctx.used(w.ev)
    for c in sorted(H.concrete(ST)):
        if H.isa(c, NODE) or H.isa(c, EDGE):
            ctx.ob("component-class-covered", c, c in seen, "", "no world contains it", key=c)
    controls(ctx)
    command(ctx)
    ctx.floor("pressure-is-of-the-state", 40)
    ctx.floor("power-is-of-the-state", 40)
    ctx.floor("one-record-per-saved-time", 20)


def blank(w, o):
    """a fresh component has an empty document"""
    for c in w.H.bases(w.cls(o)) + [w.cls(o)]:
        for f in w.P.records.get(c, {"fields": []})["fields"]:
            if "basic_json" in f["t"] and c == ST:
                w.st.env[mk("fld", o, f["n"])] = jdoc(None)


S1, S2 = mk("glob", "@s1"), mk("glob", "@s2")
T1, T2 = sym("t1"), sym("t2")


def component(ctx, w, o):
    H = w.H
    c = w.cls(o)
    blank(w, o)
    out = mk("glob", "@out_" + show(o))
    w.st.env[out] = jdoc({})
    inst0 = "%s in %s" % (c, w.desc)
    f = w.impl(c, ST, "json_save")
    where = "%s:%d" % (f["file"], f["l"])
    w.call(o, "Model::Equation_base", "setup")
    w.call(o, ST, "json_save", T1, S1)
    w.call(o, ST, "json_save", T2, S2)
    w.call(o, ST, "add_results_to_json", out)
    doc = w.ev.val(w.st, out)
    group = "nodes" if H.isa(c, NODE) else "connections"
    g = w.impl(c, ST, "add_results_to_json")
    wout = "%s:%d" % (g["file"], g["l"])
    tf = [m for m in H.rec[c]["methods"] if m["n"] == "get_type"]
    name, _ = w.ev.call_function(w.P.functions[tf[0]["key"]], None, None, [], w.st.copy(), 0)
    name = name.args[0] if name.op == "str" else show(name).strip('"')
    top = dict(doc.args[0]) if doc.op == "jobj" else {}
    types = dict(top[group].args[0]) if set(top) == {group} and top[group].op == "jobj" else {}
    entry = get(doc, group, name)
    if not ctx.ob("reported-under-own-type", inst0, set(types) == {name} and length(entry) == 1, wout, "document: %s" % show(doc)[:200], key=c, terms=[doc]):
        return
    e = get(entry, 0)
    myid = w.ev.val(w.st, w.call(o, "Network::Idobject", "get_id", commit=False)[0])
    rid = get(e, "id")
    ctx.ob("reported-under-own-id", inst0, rid is not None and w.ev.val(w.st, rid) is myid, wout, "id is %s, own id %s" % (show(rid)[:80] if rid else None, show(myid)[:80]), key=c)
    data = get(e, "data")
    if not ctx.ob("one-record-per-saved-time", inst0, length(data) == 2, where, "records: %s" % (show(data)[:150] if data is not None else None), key=c, terms=[doc]):
        return
    for rec, t, s in ((get(data, 0), T1, S1), (get(data, 1), T2, S2)):
        inst = "%s, record at %s" % (inst0, show(t))
        ctx.ob("record-has-its-time", inst, get(rec, "time") is t, where, "time is %s" % (show(get(rec, "time")) if get(rec, "time") is not None else None), key=c)
        if H.isa(c, "Model::Gas::Gasedge"):
            gas(ctx, w, o, rec, s, inst, where)
        elif H.isa(c, "Model::Power::Powernode"):
            power(ctx, w, o, rec, t, s, inst, where)
        else:
            ctx.need(False, "state component %s has no specification" % c)


def gas(ctx, w, o, rec, s, inst, where):
    c = w.cls(o)
    a, b = w.range[o]
    n = (b - a) // 2
    p, q = get(rec, "pressure"), get(rec, "flow")
    if not ctx.ob("one-value-per-point", inst, length(p) == n and length(q) == n, where, "%s pressures and %s flows for %d points" % (length(p), length(q), n), key=c, terms=[rec]):
        return
    pe, qe = pq(w, o, "start")
    at = lambda t, k: subst(t, lambda x: mk("elt", s, num(a + 2 * k + (1 if x.args[1] is num(a + 1) else 0))) if x.op == "elt" and x.args[0] is NS else None)
    complete = True
    for k in range(n):
        i = "%s, point %d" % (inst, k)
        x, v, xf, vf = (get(p, k, "x"), get(p, k, "value"), get(q, k, "x"), get(q, k, "value"))
        if not ctx.ob("point-complete", i, None not in (x, v, xf, vf), where, "x or value missing", key=c):
            complete = False
            continue
        ctx.zero("pressure-is-of-the-state", i, sub(v, at(pe, k)), where, key=c + "|p")
        ctx.zero("flow-is-of-the-state", i, sub(vf, at(qe, k)), where, key=c + "|q")
        ctx.zero("same-place-for-both", i, sub(x, xf), where, key=c + "|x")
        ctx.zero("points-equally-spaced-from-zero", i, sub(x, mul(num(k), (get(p, 1, "x") or x) if n > 1 else ZERO)), where, key=c + "|x")
    if n > 1 and complete:
        ctx.ob("points-are-distinct", inst, not is_zero(get(p, 1, "x"))[0], where, "all at the start", key=c + "|x")
        pe, qe = pq(w, o, "end")
        end = lambda t: subst(t, lambda x: mk("elt", s, x.args[1]) if x.op == "elt" and x.args[0] is NS else None)
        ctx.zero("pressure-is-of-the-state", inst + ", at the end", sub(get(p, n - 1, "value"), end(pe)), where, key=c + "|p")
        ctx.zero("flow-is-of-the-state", inst + ", at the end", sub(get(q, n - 1, "value"), end(qe)), where, key=c + "|q")


def power(ctx, w, o, rec, t, s, inst, where):
    c = w.cls(o)
    V, phi, Pt, Qt = powerflow(w, o, s)
    r = {k: get(rec, k) for k in ("V", "phi", "P", "Q")}
    if not ctx.ob("record-complete", inst, None not in r.values(), where, "missing: %s" % [k for k, v in r.items() if v is None], key=c, terms=[rec]):
        return
    ctx.zero("voltage-is-of-the-state", inst, sub(r["V"], V), where, key=c + "|V")
    ctx.zero("angle-is-of-the-state", inst, sub(r["phi"], phi), where, key=c + "|phi")
    rows = [subst(x, lambda y: t if y is NT else mk("elt", s, y.args[1]) if y.op == "elt" and y.args[0] in (NS, LS) else None) for x in rows_of(w, o).values()]
    for k, want in (("P", Pt), ("Q", Qt)):
        d = sub(r[k], want)
        ok, tries = is_zero(d)[0], [d]
        for row in rows:
            for sg in (1, -1):
                ok = ok or is_zero(add(d, scale(Fraction(sg), row)))[0]
        ctx.ob("power-is-of-the-state", "%s: %s" % (inst, k), ok, where, "reports %s, the lines take %s" % (show(r[k])[:150], show(want)[:150]), key=c + "|" + k, terms=[d])
        dv = get(rec, k + "_deviation")
        if dv is not None:
            b = canon(sub(r[k], dv))
            i = 0 if k == "P" else 1
            ok = b.op == "elt" and b.args[1] is num(i) and any(x is t for x in subterms(b.args[0])) and any(
                x.op == "fld" and Evaluator.root(x) is o for x in subterms(b.args[0]))
            ctx.ob("deviation-from-the-prescribed-value", "%s: %s" % (inst, k), ok, where, "value minus deviation is %s" % show(b)[:150], key=c + "|" + k)


def controls(ctx):
    """saved controls are the entries of the control vector at its own times"""
    H = ctx.H
    done = 0
    for w, what in worlds(ctx):
        cs = [o for o in w.all if H.isa(w.cls(o), CO)]
        if not cs or done > (40 if ctx.thorough else 12):
            continue
        done += 1
        for n in (1, 3):
            m = w.ncontrol
            iv = mk("glob", "@controls")
            cls = "Aux::InterpolatingVector"
            d = Data(ctx, cls, [sym("p%d" % i) for i in range(n)], {sym("p%d" % i): Fraction(i) for i in range(n)})
            d.o = iv
            d.ev.dyntype[iv] = cls
            d.construct(ctx, "std::vector<double", num(m))
            d.call("set_values_in_bulk", mk("vec", *[sym("u%d_%d" % (i, j)) for i in range(n) for j in range(m)]))
            opq = w.ev.opaque
            w.ev.opaque = lambda f: False
            w.ev.vectors, w.ev.unroll = True, 40
            w.ev.dyntype[iv] = cls
            st = w.st.copy()
            for k, v in d.st.env.items():
                if Evaluator.root(k) is iv:
                    st.env[k] = v
            w.ev.valuation = d.ev.valuation
            for o in cs:
                c = w.cls(o)
                st1 = st.copy()
                out = mk("glob", "@out")
                st1.env[out] = jdoc({})
                f = w.impl(c, CO, "save_controls_to_json")
                where = "%s:%d" % (f["file"], f["l"])
                w.ev.call_function(f, o, c, [iv, out], st1, 0)
                doc = w.ev.val(st1, out)
                a = int(w.call(o, CO, "get_control_startindex", commit=False)[0].args[0])
                b = int(w.call(o, CO, "get_control_afterindex", commit=False)[0].args[0])
                inst = "%s in %s, %d times" % (c, w.desc, n)
                group = "nodes" if H.isa(c, NODE) else "connections"
                tf = [x for x in H.rec[c]["methods"] if x["n"] == "get_type"]
                name, _ = w.ev.call_function(w.P.functions[tf[0]["key"]], None, None, [], st1.copy(), 0)
                e = get(doc, group, name.args[0] if name.op == "str" else show(name).strip('"'), 0)
                if not ctx.ob("controls-reported-under-own-type", inst, e is not None, where, "document: %s" % show(doc)[:200], key=c, terms=[doc]):
                    continue
                myid = w.ev.val(w.st, w.call(o, "Network::Idobject", "get_id", commit=False)[0])
                ctx.ob("controls-reported-under-own-id", inst, w.ev.val(st1, get(e, "id")) is myid if get(e, "id") is not None else False, where, show(e)[:200], key=c)
                data = get(e, "data")
                want = [(sym("p%d" % i), [sym("u%d_%d" % (i, j)) for j in range(a, b)]) for i in range(n)]
                got = None
                if data is not None and data.op == "list":
                    got = []
                    for r in data.args:
                        vs = get(r, "values")
                        vs = w.ev.val(st1, vs) if vs is not None else None
                        got.append((get(r, "time"), list(vs.args) if vs is not None and vs.op in ("list", "vec") else None))
                ctx.ob("controls-are-the-given-ones", inst, got == want, where, "reports %s" % (show(data)[:250] if data is not None else None), key=c, terms=[doc])
            w.ev.opaque = opq
    ctx.floor("controls-are-the-given-ones", 10)


def command(ctx):
    C = Command(ctx)
    saves = C.calls("json_save")
    reports = C.calls("add_results_to_json")
    ctx.need(saves and reports, "saving of results not found in %s" % C.f["q"])
    sims = C.calls("simulate")
    for e in saves:
        a = e.d["args"]
        key = "save|%d" % saves.index(e)
        where = e.where()
        ok = len(a) == 2 and a[0].op == "m" and a[1].op == "m" and len(e.loops) == 1
        X = i = None
        pt, vv = sup(a[0]), sup(a[1])
        ok = pt[0] == "interpolation_point_at_index" and vv[0] == "vector_at_index" and pt[1] is vv[1] and pt[2] is vv[2]
        if not ctx.ob("saved-at-its-own-time", "%s:%s" % (C.f["q"], key), ok, where, "saves (%s, %s)" % (show(a[0])[:120], show(a[1])[:120]), key=key):
            continue
        X, i = pt[1], pt[2]
        filled = filledby(C, X, e)
        ctx.ob("saved-after-computing", "%s:%s" % (C.f["q"], key), filled, where, "the states saved are %s" % show(X)[:200], key=key)
        ctx.ob("every-time-saved", "%s:%s" % (C.f["q"], key), len(e.loops) == 1 and full(C, e.loops[0], i, X), where, "saved for %s of %s" % ([show(x)[:200] for x in e.loops], show(X)[:80]), key=key)
        rep = [r for r in reports if C.order(r) > C.order(e) and implied(e.core, noexc(r.core))]
        ctx.ob("reported-after-saving", "%s:%s" % (C.f["q"], key), len(rep) >= 1 and all(same_obj(r.d["recv"], e.d["recv"]) for r in rep), where, "no report follows", key=key)
    for r in reports:
        key = "report|%d" % reports.index(r)
        before = [e for e in saves if C.order(e) < C.order(r) and implied(r.core, e.core)]
        ctx.ob("reported-once-saved", "%s:%s" % (C.f["q"], key), len(before) == 1, r.where(), "%d savings before this report" % len(before), key=key)
    for r in C.calls("save_controls_to_json"):
        a = r.d["args"][0]
        sol = [x for x in subterms(a) if x.op == "m" and sup(x)[0] == "get_solution"]
        evs = [e for e in C.calls("evaluate_objective", "evaluate_constraints") if C.order(e) < C.order(r)]
        ok = bool(sol) and bool(evs) and all(e.d["args"][0] is sol[0] for e in evs[-1:])
        ctx.ob("saved-controls-belong-to-saved-states", "%s: controls" % C.f["q"], ok, r.where(), "controls saved: %s; evaluated last: %s" % (show(a)[:150], show(evs[-1].d["args"][0])[:150] if evs else None), key="controls")


def sup(t):
    """(method, receiver, first argument) of an opaque call"""
    return (t.args[0], t.args[1] if len(t.args) > 1 else None, t.args[2] if len(t.args) > 2 else None) if t.op == "m" else (None, None, None)


def implied(a, b):
    """whenever a holds, b does (over the atoms both consist of)"""
    a, b = band(*a), band(*b)
    for asg, (x, y) in split(lambda R: (R.truth(a), None)):
        if not x:
            continue
        for _, y in split(lambda R: R.truth(b), asg):
            if not y:
                return False
    return True


def noexc(pc):
    """as long as nothing throws"""
    return [subst(c, lambda x: FALSE if x.op == "exc" else None) for c in pc]


def same_obj(a, b):
    return base(a) is base(b)


def base(t):
    while t.op in ("deref", "mut", "out", "addr") and t.args:
        if t.op == "mut":
            t = t.args[0]
        elif t.op == "out":
            return t
        else:
            t = t.args[0]
    return t


def filledby(C, X, save):
    """X is what a simulation before `save` filled, or the optimizer's states
    after an evaluation known to be successful"""
    if X.op == "out":
        return X.args[0] == "simulate" and any(C.order(s) < C.order(save) and implied(save.core, s.core) for s in C.calls("simulate"))
    t = X.args[0] if X.op == "deref" else X
    if sup(t)[0] != "get_current_full_state":
        return False
    ev = [e for e in C.calls("evaluate_objective", "evaluate_constraints", "evaluate_objective_gradient", "evaluate_constraint_jacobian")
          if C.order(e) < C.order(save) and implied(save.core, e.core)]
    return bool(ev) and implied(save.pc, [ev[-1].d["res"]])


def full(C, loop, i, X):
    if loop.op != "dom" or loop.args[0] is not i or loop.args[1] is not ZERO or (len(loop.args) > 3 and loop.args[3] is not ONE):
        return False
    n = loop.args[2]
    m, Y, _ = sup(n)
    if m != "size" or Y is None:
        return False
    pts = sup(Y)[1] if sup(Y)[0] == "get_interpolation_points" else None
    for Z in (Y, pts):
        if Z is None:
            continue
        if Z is X:
            return True
        t = X.args[0] if X.op == "deref" else X
        if sup(t)[0] == "get_current_full_state":
            if any(sup(y)[0] == "get_interpolation_points" and sup(y)[1] is Z for y in subterms(t)):
                return True
    return False


run.explanation = ("Setup, saving and reporting of every state component class are interpreted on concrete result documents; each reported value is compared "
                   "with the value the coupling conditions use for the same state entries. The command's trace must save every computed time with its own state before reporting.")
