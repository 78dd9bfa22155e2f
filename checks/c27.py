"""C27: boundary values and controls are imposed at the time they are given for."""
from worlds import *
from fractions import Fraction
import c26
from evolve import Evolution, holds, under
from sem import jdoc

TECHNIQUE = "abstract interpretation of residuals, construction from a concrete-shape document and the time loop; term comparison"
NOTE = ("Decided for every state, time and boundary value on the finite family of small networks (0..3 edges of every class, larger degrees for selected "
        "classes); construction for documents of one to three given times. How a value between two given times is formed is C18's subject.")
TIMES = (LT, NT)


def run(ctx):
    H = ctx.H
    for w, what in worlds(ctx):
        for n in what:
            o = w.objs[n][0]
            cls = w.cls(o)
            if H.isa(cls, NODE):
                new_time(ctx, w, n, o, cls)
            if H.isa(cls, CO):
                controls(ctx, w, n, o, cls)
            if H.isa(cls, PW + "StochasticPQnode"):
                stochastic(ctx, w, o, cls)
        ctx.used(w.ev)
    ctx.floor("boundary-value-at-new-time", 100)
    ctx.floor("own-controls", 2)
    ctx.floor("stochastic-mean", 1)
    own_equation(ctx)
    construction(ctx)
    evolution(ctx)


def has_time(t, memo=None):
    return any(x in TIMES for x in subterms(t))


def new_time(ctx, w, n, o, cls):
    """every use of time in a node's equations is the evaluation of its own
    boundary value at the new time"""
    for iface, _ in equations(w, n):
        rows, _e = residual(w, o, iface)
        f = w.impl(cls, iface, "evaluate")
        where = "%s:%d" % (f["file"], f["l"])
        bad = []
        for r, t in sorted(rows.items()):
            for x in subterms(t):
                if x.op == "m" and has_time(x):
                    obj = x.args[1] if len(x.args) > 1 else x
                    if Evaluator.root(obj) is not o:
                        bad.append("row %d uses the boundary values of another object: %s" % (r, show(x)[:100]))
                    if [a for a in x.args[2:] if a is not NT] or NT not in x.args:
                        bad.append("row %d takes the boundary value at %s" % (r, [show(a)[:60] for a in x.args[2:]]))
            rest = subst(t, lambda x: ZERO if x.op == "m" and has_time(x) else None)
            if has_time(rest):
                bad.append("row %d depends on time in another way: %s" % (r, show(rest)[:200]))
        ctx.ob("boundary-value-at-new-time", "%s in %s" % (cls, w.desc), not bad, where, "; ".join(bad[:3]), key=cls)


def controls(ctx, w, n, o, cls):
    """control entries used are the component's own, wherever its range starts, and
    each own entry has an influence"""
    st0 = w.st
    for start in (0, 3, 8):
        w.st = st0.copy()
        v, _ = w.call(o, CO, "set_control_indices", num(start))
        if not is_num(v):
            raise AnalysisBroken("control range of %s not determined" % cls)
        a, b = start, int(v.args[0])
        rows, _e = residual(w, o, CO)
        f = w.impl(cls, CO, "evaluate")
        where = "%s:%d" % (f["file"], f["l"])
        used = set()
        odd = []
        for r, t in rows.items():
            for x in subterms(t):
                if x.op == "elt" and x.args[0] is CT:
                    if is_num(x.args[1]):
                        used.add(int(x.args[1].args[0]))
                    else:
                        odd.append(show(x))
            if any(x is CT for x in subterms(subst(t, lambda x: ZERO if x.op == "elt" and x.args[0] is CT else None))):
                odd.append(show(t)[:100])
        ctx.ob("own-controls", "%s with controls %d..%d" % (cls, a, b - 1), used == set(range(a, b)) and not odd and b > a, where,
               "control entries used: %s %s, own: %d..%d" % (sorted(used), odd[:2], a, b - 1), key=cls)
    w.st = st0


def stochastic(ctx, w, o, cls):
    S = PW + "StochasticPQnode"
    st0 = w.st.copy()
    f = w.impl(cls, EQ, "prepare_timestep")
    w.call(o, EQ, "prepare_timestep", LT, NT, LS)
    for i, g in ((0, "get_current_P"), (1, "get_current_Q")):
        v, _ = w.call(o, S, g, commit=False)
        used = set()
        bad = []
        for x in subterms(v):
            if x.op == "elt" and x.args[0].op == "m":
                m = x.args[0]
                if Evaluator.root(m.args[1]) is o:
                    used.add((m.args[2:], x.args[1]))
        want = {((NT,), num(i))}
        ctx.ob("stochastic-mean", "%s of %s in %s" % (g, cls, w.desc), used == want, "%s:%d" % (f["file"], f["l"]),
               "boundary values used: %s" % [(show(a[0]), show(b)) for a, b in used], key=cls + g)
    w.st = st0


def own_equation(ctx):
    """the prescribed quantity is the one of the node's kind (shared with C26)"""
    for w, what in worlds(ctx):
        for n in what:
            o = w.objs[n][0]
            c = w.cls(o)
            if ctx.H.isa(c, "Model::Gas::Gasnode") and (ctx.H.isa(c, G + "Pressureboundarynode") or ctx.H.isa(c, G + "Flowboundarynode")):
                c26.gasnode(ctx, w, o)
            elif ctx.H.isa(c, "Model::Power::Powernode"):
                c26.powernode(ctx, w, o)


def ctor_of(ctx, cls):
    fs = [f for f in ctx.P.functions.values() if f.get("rc") == cls and f.get("ctor") and f["b"] is not None
          and len(f["p"]) == 1 and "basic_json" in f["p"][0]["t"]]
    return fs[0] if len(fs) == 1 else None


def bv_location(ctx, cls):
    """the field whose values the equations evaluate"""
    H = ctx.H
    w = World(ctx.P, H)
    for iface in (EQ, CO):
        if not H.isa(cls, iface):
            continue
        if H.isa(cls, PW + "StochasticPQnode"):
            w.new("N", cls)
            w.attach(w.objs["N"][0], [], [])
            w.number(w.objs["N"][0], "state", 0, 2)
            w.call(w.objs["N"][0], EQ, "prepare_timestep", LT, NT, LS)
            v = [w.call(w.objs["N"][0], cls, g, commit=False)[0] for g in ("get_current_P", "get_current_Q")]
        else:
            pw = H.isa(cls, "Model::Power::Powernode")
            e = [] if pw else [("e", G + "Shortpipe", "N", "B")]
            if H.isa(cls, GP + "ExternalPowerplant"):
                e = [("e", GP + "Gaspowerconnection", "B", "N")]
            w.build([("N", cls), ("B", G + "Innode")], e, 2)
            rows, _ = residual(w, w.objs["N"][0], iface)
            v = list(rows.values())
        out = set()
        for t in v:
            for x in subterms(t):
                if x.op == "m" and has_time(x) and Evaluator.is_loc(x.args[1]) and Evaluator.root(x.args[1]) is w.objs["N"][0]:
                    out.add(x.args[1])
        return {subst(l, lambda t: mk("glob", "@o") if t is w.objs["N"][0] else None) for l in out}
    return set()


def construction(ctx):
    """what is given at a time in the document is what the node prescribes then"""
    P, H = ctx.P, ctx.H
    done = 0
    for cls in sorted(set(H.concrete(NODE))):
        if not offered(H, cls):
            continue
        locs = bv_location(ctx, cls)
        if not locs:
            continue
        f = ctor_of(ctx, cls)
        ctx.need(f is not None and len(locs) == 1, "construction of %s not understood" % cls)
        loc = locs.pop()
        where = "%s:%d" % (f["file"], f["l"])
        width = 2 if H.isa(cls, "Model::Power::Powernode") else 1
        sign = -1 if cls.split("::")[-1] in ("Sink", "ConstraintSink") else 1
        for npts in (1, 2, 3):
            ev = Evaluator(P, H)
            ev.unroll = 50
            ev.cur = Frame({"q": "<doc>", "n": "<doc>", "file": "", "p": [], "rt": "", "l": 0}, None, None, None)
            st = State()
            o = mk("glob", "@o")
            ev.dyntype[o] = cls
            doc = {"id": sym("id"), "boundary_values": {"data": [{"time": sym("t%d" % i), "values": [sym("v%d_%d" % (i, j)) for j in range(width)]}
                                                                for i in range(npts)]}}
            rec = set()
            body = str(f["b"]) + str(f.get("inits", ""))
            for k in ("stability_parameter", "cut_off_factor", "sigma_P", "theta_P", "sigma_Q", "theta_Q", "number_of_stochastic_steps", "G", "B"):
                doc[k] = sym(k)
            ev.call_function(f, o, cls, [jdoc(doc)], st, 0)
            ctx.used(ev)
            v = st.env.get(loc)
            if v is None and st.dead:
                v = mk("void")
            v = v if v is not None else mk("void")
            ok = v.op == "obj"
            flds = dict(v.args[1]) if ok else {}
            ts = [x for x in flds.values() if x.op == "list"]
            vs = [x for x in flds.values() if x.op == "vec"]
            ok = len(ts) == 1 and len(vs) == 1 and len(vs[0].args) == npts * width
            inst = "%s with values at %d times" % (cls, npts)
            if not ctx.ob("document-shape", inst, ok and list(ts[0].args) == [sym("t%d" % i) for i in range(npts)], where,
                          "boundary data became %s" % show(v)[:300], key=cls):
                continue
            for i in range(npts):
                for j in range(width):
                    ctx.zero("given-value-is-prescribed", "%s: value %d at time %d" % (inst, j, i),
                             sub(vs[0].args[i * width + j], scale(Fraction(sign), sym("v%d_%d" % (i, j)))), where, key=cls)
        done += 1
    ctx.need(done >= 8, "only %d boundary node classes found" % done)


def evolution(ctx):
    for n, r, s in ((2, 0, False), (3, 0, True), (3, 1, False), (4, 0, False)):
        E = Evolution(ctx.P, ctx.H, n, r, s, ncontrols=1)
        ctx.used(E.ev)
        where = "%s:%d" % (E.f["file"], E.f["l"])
        bad = set()
        for asg in E.assignments():
            for o, x, lt, nt, ls, ct, pc, line in E.solves:
                if holds(pc, asg):
                    c = under(ct, asg)
                    t = under(nt, asg)
                    if c is not mk("vec", mk("ctrl", t)):
                        bad.add("step to %s uses controls %s" % (show(t), show(c)[:80]))
            for a, pc, line, k in E.prepares:
                if holds(pc, asg):
                    cs = [under(x, asg) for x in a if "ctrl" in show(x)]
                    if not [c for c in cs if c is mk("vec", mk("ctrl", under(a[1], asg)))]:
                        bad.add("preparation of the step to %s uses controls %s" % (show(under(a[1], asg)), [show(c)[:60] for c in cs]))
        ctx.ob("controls-at-new-time", "%d saved times, %d retries, simplified %s" % (n, r, s), not bad, where, "; ".join(sorted(bad)[:4]), key=E.f["q"])


run.explanation = ("Residual rows of every node and controlled component in the small-network family are interpreted: time may enter only as the evaluation of the "
                   "component's own boundary data at the new time, in the equation of the prescribed quantity; controls only through the own control entries. "
                   "Constructors are interpreted on documents with symbolic values; the time loop must take controls at the new time of each step.")
