"""C10: supplied data reaches the component it was given for, or is rejected."""
import itertools
from comptypes import *
from command import Command
from alg import *
from optworld import OptWorld, col, IO, WRAP

TECHNIQUE = ("abstract interpretation of the network's six distributing functions on all small sets of components and documents (permuted, split, missing, extra and repeated ids), of every component's own reading function on a symbolic document "
             "(what ends up where in the vector), and dataflow from the input files to the distributing functions")
NOTE = ("Networks with up to three components of each capability; ids are constants in every order, as the code only compares and sorts them. Documents with two points per component and symbolic values; "
        "the vectors are read at the given points and between them.")
HALF = div(num(1), num(2))
NP, N, E_ = "Model::Networkproblem", "Network::Node", "Network::Edge"
WAYS = (("set_initial_values", "Model::Statecomponent", False), ("set_initial_controls", "Model::Controlcomponent", True), ("set_lower_bounds", "Model::Controlcomponent", True),
        ("set_upper_bounds", "Model::Controlcomponent", True), ("set_constraint_lower_bounds", "Model::Constraintcomponent", True), ("set_constraint_upper_bounds", "Model::Constraintcomponent", True))


def run(ctx):
    P, H = ctx.P, ctx.H
    I0 = interp(ctx, {})
    types = {}
    for fc in factories(ctx):
        f = make_factory(I0, fc)
        for kind in ("node", "edge"):
            for n, c in typemap(I0, f, kind).d.items():
                types.setdefault(concrete(target(c)) or n, (fc, kind, n, target(c)))
    for name, cap, _ in WAYS:
        network(ctx, types, name, cap)
    boundary(ctx)
    pairs = roles(ctx)
    for name, cap, iv in WAYS:
        for cls in sorted(types):
            if H.isa(cls, cap):
                component(ctx, types, cls, name, cap, I0)
    files(ctx, pairs)
    for r, n in (("reaches-its-component", 60), ("missing-rejected", 30), ("boundary-reaches-its-component", 40), ("boundary-rejected", 10), ("repeated-rejected", 30), ("bounds-kept-apart", 1), ("component-takes-its-own", 15), ("from-its-file", 6), ("bounds-reach-the-solver", 5)):
        ctx.floor(r, n)


def overriders(ctx, cap, name):
    return sorted({f["q"] for f in ctx.P.functions.values() if f["n"] == name and f.get("rc") and (f["rc"] == cap or ctx.H.isa(f["rc"], cap)) and f["rc"] != NP})


def build(I, types, cap, ids):
    """a network problem over components with the capability, in this order, plus bystanders"""
    P, H = I.P, I.H
    nodes = [c for c, t in sorted(types.items()) if t[1] == "node"]
    edges = [c for c, t in sorted(types.items()) if t[1] == "edge"]
    cn, ce = [c for c in nodes if H.isa(c, cap)], [c for c in edges if H.isa(c, cap)]
    plain_n = next((c for c in nodes if not H.isa(c, cap)), N)
    plain_e = next((c for c in edges if not H.isa(c, cap)), E_)
    objs, ns, es = {}, [], []

    def node(cls, i):
        o = Obj(cls)
        I.call(ctor(P, N), o, [to_j({"id": i})])
        ns.append(o)
        return o
    todo_e = []
    for k, i in enumerate(ids):
        # alternate between nodes and edges where both exist
        if cn and (not ce or k % 2 == 0):
            objs[i] = node(cn[k % len(cn)], i)
        else:
            todo_e.append((ce[k % len(ce)], i))
    node(plain_n, "y1"), node(plain_n, "y2")
    V = Cell(ups(ns))
    for cls, i in todo_e + [(plain_e, "ye")]:
        o = Obj(cls)
        I.call(ctor(P, E_), o, [to_j({"id": i, "from": "y1", "to": "y2"}), V])
        es.append(o)
        if i != "ye":
            objs[i] = o
    net = new(I, "Network::Net", ups(ns), ups(es))
    return new(I, NP, UP(Ptr(Cell(net)))), objs


def document(where):
    """where: list of (class, type, id, mark)"""
    d = {}
    for c, t, i, m in where:
        d.setdefault(c, {}).setdefault(t, []).append({"id": i, "mark": m})
    return d


def documents(ids):
    """(what it is, entries, outcome): outcome None = accepted, else the rule"""
    ids = list(ids)
    places = (("nodes", "T"), ("nodes", "U"), ("connections", "S"))
    n = 0

    def e(i, p):
        nonlocal n
        n += 1
        return p + (i, "m%d" % n)
    for perm in itertools.permutations(ids):
        yield "entries for %s" % ",".join(perm), [e(i, places[0]) for i in perm], None
        yield "entries for %s in different lists" % ",".join(perm), [e(i, places[k % 3]) for k, i in enumerate(perm)], None
    for extra in ("A", "zz", "bb", "y1", "ye"):
        for pos in {0, len(ids) // 2, len(ids)}:
            x = [e(i, places[k % 2]) for k, i in enumerate(ids)]
            x.insert(pos, e(extra, places[pos % 3]))
            yield "an additional entry for %s as entry %d" % (extra, pos), x, None
    for miss in ids:
        rest = [i for i in ids if i != miss]
        yield "no entry for %s" % miss, [e(i, places[k % 3]) for k, i in enumerate(rest)], "missing-rejected"
        for extra in ("A", "zz", "bb", "y1"):
            yield "no entry for %s, one for %s" % (miss, extra), [e(i, places[k % 3]) for k, i in enumerate(sorted(rest + [extra]))], "missing-rejected"
        if rest:
            yield "no entry for %s, two for %s" % (miss, rest[0]), [e(i, places[k % 3]) for k, i in enumerate(rest + [rest[0]])], "missing-rejected"
    for twice in ids:
        for p in places:
            yield "two entries for %s" % twice, [e(i, places[0]) for i in ids] + [e(twice, p)], "repeated-rejected"
            yield "two entries for %s, first before the others" % twice, [e(twice, p)] + [e(i, places[1]) for i in ids], "repeated-rejected"


def network(ctx, types, name, cap):
    w = at(ctx, "%s::%s" % (NP, name))
    f = next((f for f in ctx.P.functions.values() if f["q"] == "%s::%s" % (NP, name) and f["b"] is not None), None)
    ctx.need(f is not None, "%s::%s not found" % (NP, name))
    over = {n: overriders(ctx, c, n) for n, c, _ in WAYS}
    for ids in ((), ("b",), ("c", "a"), ("c", "a", "b")):
        if len(ids) == 3 and not ctx.thorough and name not in ("set_initial_values", "set_lower_bounds"):
            continue
        for what, entries, bad in documents(ids):
            if bad and not ids:
                continue
            doc = document(entries)

            def go(I):
                p, objs = build(I, types, cap, ids)
                got = []

                for n, qs in over.items():
                    for q in qs:
                        I.hooks[q] = lambda I, this, a, e, n=n: got.append((this, a[0], cp(val(a[1])), n))
                v = Cell(Mat(np.empty((1, 1), dtype=object), False)) if name == "set_initial_values" else Cell(Obj("Aux::InterpolatingVector"))
                I.call(f, p, [v, Cell(to_j(doc))])
                return objs, got, v

            def judge(o):
                if bad:
                    return None if o.kind == "throw" else "%s although %s" % (said(o), "the component needs an entry" if bad.startswith("miss") else "an id has two entries")
                if o.kind != "ok":
                    return said(o)
                objs, got, v = o.value
                for i in ids:
                    mine = [j for t, _, j, _ in got if t is objs[i]]
                    want = [m for _, _, k, m in entries if k == i]
                    if [x.v["mark"].v for x in mine] != want:
                        return "the component with id %s was given %s instead of its own entry" % (i, [x.v["id"].v for x in mine] or "nothing")
                if any(n != name for _, _, _, n in got):
                    return "hands the data to %s of the component" % next(n for _, _, _, n in got if n != name)
                if any(all(t is not x for x in objs.values()) for t, _, _, _ in got):
                    return "a component outside the network was given data"
                for _, r, _, _ in got:
                    x, y = val(r), val(v)
                    if x is not y and not (isinstance(x, Mat) and isinstance(y, Mat) and x.a.base is not None and np.shares_memory(x.a, y.a)) and not (isinstance(x, Mat) and isinstance(y, Mat) and x.a is y.a):
                        return "the data is not written to the vector that was handed in"
                return None
            prove(ctx, bad or "reaches-its-component", "%s, components %s: %s" % (name, ",".join(ids) or "none", what), go, judge, w, key=name + (bad or ""))


def boundary(ctx):
    """the boundary values of a component are joined to its own entry of the topology"""
    q = "Model::build_net"
    w = at(ctx, "Model::insert_second_json_in_topology_json")
    AN, AE = "Model::Componentfactory::AbstractNodeType", "Model::Componentfactory::AbstractEdgeType"
    C = "Model::Componentfactory::Componentfactory"
    cases = []
    tops = [(("nodes", "T", "b"),), (("nodes", "T", "c"), ("nodes", "T", "a")), (("nodes", "T", "c"), ("nodes", "T", "a"), ("nodes", "T", "b")),
            (("nodes", "T", "b"), ("nodes", "U", "a"), ("connections", "S", "e")), (("nodes", "U", "b"), ("nodes", "T", "a"), ("connections", "S", "f"), ("connections", "S", "e"))]
    for top in tops:
        for perm in itertools.permutations(top):
            if len(top) == 4 and perm[0] != top[0]:
                continue
            cases.append((top, perm, None))
        # boundary values for some only
        for k in range(len(top)):
            for some in itertools.combinations(top, k):
                cases.append((top, some, "some"))
        for extra in ("A", "aa", "zz"):
            for pos in (0, len(top)):
                x = list(top)
                x.insert(pos, (top[0][0], top[0][1], extra))
                cases.append((top, tuple(x), None))
                for miss in top:
                    cases.append((top, tuple(y for y in x if y != miss), "some"))
        for t in top:
            cases.append((top, top + (t,), "twice"))
            cases.append((top + (t,), top, "twice"))
        other = {"T": "U", "U": "T", "S": "R"}
        cases.append((top, top[:-1] + ((top[-1][0], other[top[-1][1]], top[-1][2]),), "some"))
    for top, bnd, kind in cases:
        def go(I):
            got = []
            d = {"topology_json": {"nodes": {}, "connections": {}}, "boundary_json": {}}
            for c, t, i in top:
                d["topology_json"][c].setdefault(t, []).append({"id": i, "mark": "topology of " + i})
            for n, (c, t, i) in enumerate(bnd):
                d["boundary_json"].setdefault(c, {}).setdefault(t, []).append({"id": i, "mark": "boundary %d of %s" % (n, i)})

            f = Obj(C)
            f.f[(C, "node_type_map")] = Cell(MapV({t: Cell(UP(Ptr(Cell(Obj(AN))))) for t in "TU"}))
            f.f[(C, "edge_type_map")] = Cell(MapV({t: Cell(UP(Ptr(Cell(Obj(AE))))) for t in "RS"}))

            def made(I, this, a, e):
                got.append(cp(val(a[0])))
                return UP(Ptr(Cell(Obj(N if len(a) == 1 else E_))))
            for g in ctx.P.functions.values():
                if g["n"] == "make_instance":
                    I.hooks[g["q"]] = made
                if g.get("ctor") and g.get("rc") == "Network::Net":
                    I.hooks[g["q"]] = lambda I, this, a, e: None
            for a in (AN, AE):
                I.hooks[a + "::make_instance"] = made
            I.call(I.find(q, 2), None, [Cell(to_j(d)), Cell(f)])
            return got

        def judge(o):
            if kind == "twice":
                return None if o.kind == "throw" else "%s although an id appears twice" % said(o)
            if o.kind == "throw" and kind == "some" and not o.value.cls.startswith(("nlohmann", "std::out")):
                return None
            if o.kind != "ok":
                return said(o)
            for c, t, i in top:
                mine = [x for x in o.value if x.v["id"].v == i]
                if len(mine) != 1:
                    return "%d components built for id %s" % (len(mine), i)
                x = mine[0]
                if "mark" not in x.v or x.v["mark"].v != "topology of " + i:
                    return "the component %s is built from other topology data" % i
                b = [n for n, y in enumerate(bnd) if y == (c, t, i)]
                have = x.v["boundary_values"].v if "boundary_values" in x.v else None
                if b and (not isinstance(have, dict) or "mark" not in have or have["mark"].v != "boundary %d of %s" % (b[0], i)):
                    return "the component %s gets %s instead of its own boundary values" % (i, have["mark"].v if isinstance(have, dict) and "mark" in have else "no boundary values")
                if not b and have is not None:
                    return "the component %s gets boundary values that are not its own" % i
            return None
        name = "topology %s, boundary values for %s" % (" ".join("%s.%s" % x[1:] for x in top), " ".join("%s.%s" % x[1:] for x in bnd) or "none")
        prove(ctx, "boundary-rejected" if kind == "twice" else "boundary-reaches-its-component", name, go, judge, w, key="boundary" + (kind or ""))


BOUNDS = ("set_lower_bounds", "set_upper_bounds", "set_constraint_lower_bounds", "set_constraint_upper_bounds")
FILES = {"set_initial_values": "initial.json", "set_initial_controls": "control.json", "set_lower_bounds": "lower_bounds.json", "set_upper_bounds": "upper_bounds.json",
         "set_constraint_lower_bounds": "constraint_lower_bounds.json", "set_constraint_upper_bounds": "constraint_upper_bounds.json"}


def positions(P, f):
    """positions of documents and of time series among the parameters"""
    return [i for i, p in enumerate(f["p"]) if "basic_json" in p["t"] or "json" in p["t"]], [i for i, p in enumerate(f["p"]) if "InterpolatingVector" in p["t"]]


def roles(ctx):
    """each kind of bounds is set once, from its own document into its own vector; gives which parameters belong together"""
    q = "Optimization::initialize_bounds"
    f = next((f for f in ctx.P.functions.values() if f["q"] == q and f["b"] is not None), None)
    ctx.need(f is not None, "%s not found" % q)
    w = at(ctx, q)
    js, vs = positions(ctx.P, f)

    def go(I):
        got = []
        for name in BOUNDS:
            for x in {g["q"] for g in ctx.P.functions.values() if g["n"] == name}:
                I.hooks[x] = lambda I, this, a, e, name=name: got.append((name, val(a[0]), val(a[1])))
        args = []
        for i, p in enumerate(f["p"]):
            if i in js:
                args.append(Cell(to_j({"what": "document %d" % i})))
            else:
                o = Obj("Aux::InterpolatingVector" if i in vs else NP)
                o.position = i
                args.append(Cell(o))
        I.call(f, None, args)
        return {n: [(getattr(v, "position", None), j.v["what"].v.split()[-1] if isinstance(j, J) and "what" in j.v else None) for m, v, j in got if m == n] for n in BOUNDS}
    found = {}

    def judge(o):
        if o.kind != "ok":
            return said(o)
        for n in BOUNDS:
            if len(o.value[n]) != 1:
                return "%s is called %d times" % (n, len(o.value[n]))
        for k in (0, 1):
            if len({o.value[n][0][k] for n in BOUNDS}) != 4:
                return "two kinds of bounds share one %s" % ("vector", "document")[k]
        found.update({n: (o.value[n][0][0], int(o.value[n][0][1])) for n in BOUNDS})
    prove(ctx, "bounds-kept-apart", q, go, judge, w)
    return found


# ------------------------------------------------------------------ one component
def points(doc):
    """data points of a document: numbers 0, 1, ... for the place, symbols for the values"""
    d = J({k: v for k, v in doc.v.items()})
    return d


def component(ctx, types, cls, name, cap, I0):
    from c15 import make, fixed, tries
    P, H = ctx.P, ctx.H
    fc, kind, n, t = types[cls]
    w = at(ctx, "%s::%s" % (cls, name))
    g = next((f for b in H.bases(cls) for f in P.functions.values() if f["q"] == "%s::%s" % (b, name) and f["b"] is not None), None)
    if g is None:
        ctx.ob("component-takes-its-own", "%s::%s" % (cls, name), False, w, "not found", key=cls, terms=(mk("unknown", "no body"),))
        return
    w = at(ctx, g["q"])
    schema_name = {"Model::Statecomponent": "get_initial_schema", "Model::Controlcomponent": "get_control_schema", "Model::Constraintcomponent": "get_constraint_schema"}[cap]
    counts = {"Model::Statecomponent": "state", "Model::Controlcomponent": "control", "Model::Constraintcomponent": "constraint"}[cap]
    try:
        doc = Gen().variants(method(I0, t, "get_schema", True, True))[0][1]
        doc = (tries(ctx, fc, kind, n, doc)[2] or [doc])[0]
        s = static(P, H, cls, schema_name)
        sch = val(I0.call(s))
        docs = [d for _, d in Gen().variants(sch)]
    except (Unmodelled, UB, Thrown, AttributeError) as x:
        ctx.ob("component-takes-its-own", "%s::%s" % (cls, name), False, w, "schema: %s" % (x,), key=cls, terms=(mk("unknown", str(x)),))
        return
    gas = H.isa(cls, E_) and any(f["q"] == "%s::get_boundary_p_qvol_bar" % b for b in H.bases(cls) for f in P.functions.values())
    START = 3

    def boundary(cls):
        return next(f for b in H.bases(cls) for f in P.functions.values() if f["q"] == "%s::get_boundary_p_qvol_bar" % b and f["b"] is not None)

    def go(I):
        I.hooks[VALIDATE] = lambda I, this, a, e: None
        c = make(I, fc, kind, n, fixed(doc))
        after = as_int(method(I, c, "set_%s_indices" % counts, START))
        m = after - START
        first = docs[0].v["data"].v[0]
        key = "x" if "x" in first.v else "time"
        width = len(first.v["values"].v)
        if counts != "state":
            assert width >= 1
        vals = [[mk("sym", "v%d_%d" % (k, i)) for i in range(width)] for k in (0, 1)]
        d = dict(docs[0].v)
        if counts != "state":
            spots = [num(0), num(2)]
        else:
            spots = [num(0), num(1)]
            if gas and H.isa(cls, "Model::Gas::Pipe"):
                spots = [num(0), val(c.f[next(k for k in c.f if k[1] == "Delta_x")]), ]
        if counts == "state" and m == width:
            spots, vals = spots[:1], vals[:1]
        d["data"] = J([J({key: J(x), "values": J([J(v) for v in vs])}) for x, vs in zip(spots, vals)])
        if counts == "state":
            vec = np.empty((after + 2, 1), dtype=object)
            for i in range(after + 2):
                vec[i, 0] = mk("sym", "old%d" % i)
            old = vec.copy()
            I.call(g, c, [Cell(Mat(vec, False)), Cell(J(d))])
            ends = []
            if gas and m == 2 * width or cls.endswith("Pipe"):
                for direction in (1, -1):
                    r = val(I.call(boundary(cls), c, [direction, Cell(Mat(vec, False))]))
                    ends.append([tt(x) for x in r.a.flat])
            return c, m, width, vals, vec, old, after, ends
        full = Obj("Aux::InterpolatingVector")
        f = next(x for x in P.functions.values() if x.get("ctor") and x.get("rc") == full.cls and x["b"] is not None and len(x["p"]) == 2 and "vector<double" in x["p"][0]["t"])
        I.call(f, full, [Vec([Cell(num(x)) for x in (0, 1, 2)]), after + 2])
        mut = next(x for x in P.functions.values() if x["n"] == "mut_timestep" and x["b"] is not None and x["rc"] in H.bases(full.cls))
        old = np.empty((after + 2, 3), dtype=object)
        for k in range(3):
            r = val(I.call(mut, full, [k]))
            for i in range(after + 2):
                old[i, k] = r.a[i, 0] = mk("sym", "old%d_%d" % (k, i))
        I.call(g, c, [Cell(full), Cell(J(d))])
        new_ = np.empty((after + 2, 3), dtype=object)
        for k in range(3):
            new_[:, k] = val(I.call(mut, full, [k])).a[:, 0]
        return c, m, width, vals, new_, old, after, []

    def judge(o):
        if o.kind != "ok":
            return None if o.kind == "throw" and False else said(o) + (": %s" % (o.value.msg,) if o.kind == "throw" else "")
        c, m, width, vals, new_, old, after, ends = o.value
        for i in list(range(START)) + [after, after + 1]:
            for k in range(new_.shape[1]):
                if new_[i, k] is not old[i, k]:
                    return "entry %d, which does not belong to the component, is overwritten" % i
        if counts != "state":
            if width != m:
                return "the schema demands %d values, the component has %d %ss" % (width, m, counts)
            for i in range(m):
                for k, want in enumerate((vals[0][i], mul(HALF, add(vals[0][i], vals[1][i])), vals[1][i])):
                    if not is_zero(sub(tt(new_[START + i, k]), want))[0]:
                        return "%s %d at point %d becomes %s instead of %s" % (counts, i, k, show(tt(new_[START + i, k]))[:100], show(want))
            return None
        if ends:
            for k, (e, vs) in enumerate(zip(ends, vals)):
                for i in range(2):
                    if not is_zero(sub(e[i], vs[i]))[0]:
                        return "%s at the %s becomes %s instead of %s" % (("pressure", "flow")[i], ("start", "end")[k], show(e[i])[:200], show(vs[i]))
            return None
        flat = [v for vs in vals for v in vs]
        if len(flat) != m:
            return "the schema asks for %d values, the component has %d states" % (len(flat), m)
        for i in range(m):
            if not is_zero(sub(tt(new_[START + i, 0]), flat[i]))[0]:
                return "state %d becomes %s instead of %s" % (i, show(tt(new_[START + i, 0]))[:100], show(flat[i]))
        return None
    prove(ctx, "component-takes-its-own", "%s::%s" % (cls, name), go, judge, w, key="%s::%s" % (cls, name))


def solver(ctx, C, pairs):
    """from the vectors the bounds were written to, through the optimizer, to Ipopt"""
    f = ctor(ctx.P, IO)
    made = {x for e in C.effs for v in list(e.d.get("args", ())) + [e.d.get("recv"), e.d.get("val")] if isinstance(v, T) for x in subterms(v) if x.op in ("newobj", "new") and x.args and x.args[0] == IO}
    where = at(ctx, WRAP + "::get_bounds_info")
    if len(made) != 1 or len(next(iter(made)).args) != len(f["p"]) + 1:
        ctx.ob("bounds-reach-the-solver", "optimizer", False, C.where, "construction of the optimizer not found", key="optimizer", terms=(mk("unknown", "construction"),))
        return
    args = next(iter(made)).args[1:]
    position = {}
    for name, (v, _) in pairs.items():
        js = [j for j, t in enumerate(args) if isinstance(t, T) and t.op == "out" and t.args[0] == "initialize_bounds" and show(t.args[1]) == str(v)]
        if len(js) == 1:
            position[name] = js[0]
    what = ("lower bounds of the controls", "upper bounds of the controls", "lower bounds of the constraints", "upper bounds of the constraints")

    def go(I):
        w = OptWorld(I, (0, 1, 3, 4), (0, 2, 4), (1, 4))
        w.wrap()
        n, m, _ = w.size()
        out = [PArr(np.array([None] * k, dtype=object), 0) for k in (n, n, m, m)]
        w.method("get_bounds_info", n, out[0], out[1], m, out[2], out[3], cls=WRAP, obj=w.w)
        x = PArr(np.array([None] * n, dtype=object), 0)
        w.method("get_starting_point", n, True, x, False, None, None, m, False, None, cls=WRAP, obj=w.w)
        return w, [[show(tt(y)) for y in o.a] for o in out], [show(tt(y)) for y in x.a]
    for k, name in enumerate(BOUNDS):
        def judge(o):
            if o.kind != "ok":
                return said(o)
            w, out, x = o.value
            if name not in position:
                return None
            s = next((s for s, j in w.series.items() if j == position[name]), None)
            want = ["%s%d_0" % (s, i) for i in range(len(out[k]))]
            if out[k] != want:
                return "Ipopt is given %s as %s, which were handed over as %s" % (out[k], what[k], want)
        if name not in position:
            ctx.ob("bounds-reach-the-solver", name, False, C.where, "not followed", key=name, terms=(mk("unknown", "argument"),))
            continue
        prove(ctx, "bounds-reach-the-solver", what[k], go, judge, where, key=name)

    def judge(o):
        if o.kind != "ok":
            return said(o)
        if o.value[2] != ["init%d_0" % i for i in range(len(o.value[2]))]:
            return "Ipopt starts at %s" % o.value[2]
    prove(ctx, "bounds-reach-the-solver", "initial controls", go, judge, at(ctx, WRAP + "::get_starting_point"))


def files(ctx, pairs):
    """the document handed to each function comes from its own file of the problem directory"""
    C = Command(ctx)
    solver(ctx, C, pairs)

    def source(t):
        t = t.args[0] if t.op in ("mut", "copy") else t
        while t.op in ("m", "call") and t.args and isinstance(t.args[-1], T) and t.args[-1].op == "path/":
            t = t.args[-1]
        if t.op == "path/":
            xs = [x for x in t.args]
            flat = []
            for x in xs:
                flat += list(x) if isinstance(x, tuple) else [x]
            return show(flat[-1]).strip('"') if isinstance(flat[-1], T) else str(flat[-1])
        return None

    def document(name, e, i):
        t = e.d["args"][i]
        paths = [x for x in subterms(t) if x.op == "path/"]
        names = {source(x) for x in paths}
        direct = source(t)
        ok = direct == FILES[name]
        ctx.ob("from-its-file", name, ok, e.where(), "%s is given %s instead of the contents of %s" % (name, show(t)[:200], FILES[name]), key=name,
               terms=() if direct is not None else (mk("unknown", "document"),))
    seen = set()
    for name in FILES:
        for e in C.calls(name):
            js = [i for i, t in enumerate(e.d["args"]) if any(x.op == "path/" for x in subterms(t)) and t.op in ("m", "call")]
            if len(js) >= 1:
                document(name, e, js[-1])
                seen.add(name)
    for e in C.calls("initialize_bounds"):
        for name, (v, j) in pairs.items():
            document(name, e, j)
            seen.add(name)
    for name in FILES:
        if name not in seen:
            ctx.ob("from-its-file", name, False, C.where, "%s is not reached" % name, key=name, terms=(mk("unknown", "call"),))


run.explanation = ("The distributing functions of the network problem are interpreted on networks of up to three components and documents with permuted, missing, additional and repeated ids; "
                   "every component's own reading function is interpreted on a symbolic document and the vector compared entry by entry.")
