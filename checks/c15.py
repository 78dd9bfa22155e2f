"""C15: whatever a component reads from its input its schema requires."""
from comptypes import *

TECHNIQUE = ("abstract interpretation: the schema of every component type is interpreted and unfolded into the documents it accepts (minimal, complete, every optional key, alternative and list length), "
             "and construction, set-up and setting of initial values are interpreted on each of them; a missing or mistyped key shows as undefined behaviour or as an exception of the json library")
NOTE = ("Numbers are symbolic during construction and fixed for set-up and initial values; lists have at most two entries more than the schema demands; texts without a pattern are tried with every text the code compares them with. "
        "Exceptions of grazer itself (e.g. unordered time points, unknown scheme) are legitimate. The keywords of the schema are read by this check (type, required, properties, items, min/maxItems, const, enum, oneOf, anyOf, contains).")
NODE = "Network::Node"
SIMULATE = ("Model::Timeevolver",)


def run(ctx):
    P, H = ctx.P, ctx.H
    I0 = interp(ctx, {})
    todo = {}
    for fc in factories(ctx):
        f = make_factory(I0, fc)
        for kind in ("node", "edge"):
            for n, c in typemap(I0, f, kind).d.items():
                todo.setdefault(concrete(target(c)) or n, (fc, kind, n, target(c)))
    good = {}
    for cls, (fc, kind, n, t) in sorted(todo.items()):
        d = component(ctx, cls, fc, kind, n, t, I0)
        if d is not None:
            good[cls] = (fc, kind, n, fixed(d))
    for cls in good:
        initial(ctx, cls, good, todo[cls][3], I0)
    plain(ctx)
    for r, n in (("constructs", 25), ("some-accepted", 13), ("set-up", 13), ("initial-values", 13), ("evolver", 2)):
        ctx.floor(r, n)


def judge(o):
    """None: fine; else what is wrong"""
    if o.kind == "ub":
        return said(o)
    if o.kind == "throw" and (o.value.cls.startswith(("nlohmann", "!")) or o.value.cls in ("std::out_of_range", "std::invalid_argument", "std::bad_cast", "std::bad_optional_access", "std::bad_function_call", "std::length_error", "std::bad_alloc")):
        return "%s (%s at %s)" % (said(o), str(o.value.msg)[:120], o.value.where)
    return None


def checked(I, this, a, e):
    """the validator: the document satisfies the schema or an error is raised"""
    d, t = val(a[0]), val(a[1])
    try:
        ok = schema_ok(t, d)
    except (KeyError, TypeError, AttributeError) as x:
        raise Unmodelled("schema: %r" % (x,))
    if not ok:
        raise Thrown("std::runtime_error", "does not satisfy its schema", "")


def free_texts(j, path=()):
    if isinstance(j.v, dict):
        for k, x in j.v.items():
            if k not in ("id", "from", "to", "$schema"):
                yield from free_texts(x, path + (k,))
    elif isinstance(j.v, str) and j.v.startswith("text"):
        yield path


def put(j, path, v):
    j = cp(j)
    x = j
    for k in path[:-1]:
        x = x.v[k]
    x.v[path[-1]] = J(v)
    return j


def fixed(j):
    """numbers instead of symbols: points count up from 0, everything else is 1"""
    if isinstance(j.v, dict):
        return J({k: fixed(x) for k, x in j.v.items()})
    if isinstance(j.v, list):
        return J([fixed(x) for x in j.v])
    if isinstance(j.v, T) and j.v.op == "sym":
        s = j.v.args[0].split("#")
        return J(num(sum(int(x) for x in s[1:])) if s[0].endswith(("/time", "/x")) else num(1))
    return J(j.v)


def explored(ctx, go, limit=300):
    def make(known):
        I = interp(ctx, known)
        I.hooks[VALIDATE] = checked
        return I, lambda: go(I)
    outs = []
    try:
        for o in explore(make, limit):
            ctx.units |= o.I.units
            outs.append(o)
    except Unmodelled as u:
        return outs, str(u)
    return outs, next((o.value for o in outs if o.kind == "unmodelled"), None)


def report(ctx, rule, inst, w, doc, outs, lost):
    for o in outs:
        if o.kind == "unmodelled":
            continue
        b = judge(o)
        if b:
            ctx.ob(rule, inst, False, w, "accepted document %s: %s" % (show_json(doc)[:400], b), key=inst)
            return False
    if lost is not None:
        ctx.ob(rule, inst, False, w, str(lost), key=inst, terms=(mk("unknown", str(lost)),))
        return False
    ctx.ob(rule, inst, True, w)
    return True


def make(I, fc, kind, n, doc, ends=None):
    f = make_factory(I, fc)
    ty = target(typemap(I, f, kind).d[n])
    args = [Cell(cp(doc))]
    if kind == "edge":
        names = [doc.v[k].v for k in ("from", "to")]
        objs = [o if o is not None else new(I, NODE, to_j({"id": x})) for o, x in zip(ends or (None, None), names)]
        args.append(Cell(ups(objs)))
    return target(method(I, ty, "make_instance", *args))


def tries(ctx, fc, kind, n, doc):
    """constructions of the document; a text its reader does not know is replaced by those it was compared with"""
    work, tried, outs, lost, alts = [doc], {show_json(doc)}, [], None, []
    while work and len(tried) <= 80:
        c = work.pop(0)
        o1, l1 = explored(ctx, lambda I: make(I, fc, kind, n, c))
        outs += o1
        lost = lost or l1
        if any(o.kind == "ok" for o in o1):
            alts.append(c)
            continue
        for p in free_texts(c):
            x = c
            for k in p:
                x = x.v[k]
            for y in dict.fromkeys(q for o in o1 for pair in o.I.compared if x.v in pair for q in pair if q != x.v):
                d2 = put(c, p, y)
                if show_json(d2) not in tried:
                    tried.add(show_json(d2))
                    work.append(d2)
    return outs, lost, alts


def component(ctx, cls, fc, kind, n, t, I0):
    P = ctx.P
    w = at(ctx, cls + "::" + cls.split("::")[-1].split("<")[0])
    try:
        schema = method(I0, t, "get_schema", True, True)
        docs = Gen().variants(schema)
    except (Unmodelled, UB, Thrown) as x:
        ctx.ob("constructs", cls, False, w, "schema: %s" % (x,), key=cls, terms=(mk("unknown", str(x)),))
        return

    good = None
    for d, doc in docs:
        outs, lost, alts = tries(ctx, fc, kind, n, doc)
        inst = "%s%s" % (cls, " " + d if d else "")
        report(ctx, "constructs", inst, w, doc, outs, lost)
        if good is None and alts:
            good = alts[0]
    ctx.ob("some-accepted", cls, good is not None, w, "no document the schema accepts was constructed", key=cls, terms=() if good is not None else (mk("unknown", "none"),))
    return good


def surroundings(cls, good):
    """ways to place a component in a network: alone, then with neighbours"""
    yield ()
    nodes = [c for c in good if good[c][1] == "node"]
    edges = [c for c in good if good[c][1] == "edge"]
    if cls in edges:
        for a in [None] + nodes:
            for b in [None] + nodes:
                if a or b:
                    yield (cls, a, b)
    else:
        for e in edges:
            for x in [None] + nodes:
                yield (e, cls, x)
                yield (e, x, cls)


def place(I, cls, good, way):
    """the component in its surroundings"""
    if not way:
        return make(I, *good[cls])
    e, a, b = way
    doc = good[e][3]
    ends = []
    for c, k in ((a, "from"), (b, "to")):
        if c is None:
            ends.append(None)
        else:
            fc, kind, n, d = good[c]
            ends.append(make(I, fc, kind, n, put(d, ("id",), doc.v[k].v)))
    edge = make(I, good[e][0], "edge", good[e][2], doc, ends)
    return edge if e == cls else ends[0] if a == cls else ends[1]


def initial(ctx, cls, good, t, I0):
    """set-up and initial values, as the network problem calls them"""
    isa = ctx.H.isa
    w = at(ctx, cls + "::" + cls.split("::")[-1].split("<")[0])
    docs = [("", None)]
    try:
        s = opt(method(I0, t, "get_initial_schema", True))
        if s is not None:
            docs = Gen().variants(s)
    except (Unmodelled, UB, Thrown) as x:
        ctx.ob("initial-values", cls, False, w, "schema: %s" % (x,), key=cls, terms=(mk("unknown", str(x)),))
        return

    def prepared(I, way):
        c = place(I, cls, good, way)
        n = as_int(method(I, c, "set_state_indices", 0)) if isa(cls, "Model::Statecomponent") else None
        for name in ("set_control_indices", "set_constraint_indices", "set_cost_indices"):
            if any(f["q"].endswith("::" + name) and f["q"].rsplit("::", 1)[0] in ctx.H.bases(cls) and f["b"] is not None for f in ctx.P.functions.values()):
                method(I, c, name, 0)
        if isa(cls, "Model::Equation_base") or isa(cls, "Model::Equationcomponent"):
            method(I, c, "setup")
        return c, n
    way, first = (), None
    for x in surroundings(cls, good):
        outs, lost = explored(ctx, lambda I: prepared(I, x))
        first = first or (outs, lost)
        if any(judge(o) for o in outs if o.kind != "unmodelled"):
            # the bare component must not do this either way
            if not x:
                break
            continue
        if any(o.kind == "ok" for o in outs):
            way, first = x, (outs, lost)
            break
    report(ctx, "set-up", cls, w, good[cls][3], *first)
    for d, ini in docs:
        def go(I):
            c, n = prepared(I, way)
            if ini is None or n is None:
                return None
            m = np.empty((n, 1), dtype=object)
            for i in range(n):
                m[i, 0] = mk("sym", "old%d" % i)
            return method(I, c, "set_initial_values", Cell(Mat(m, False)), Cell(fixed(ini)))
        outs, lost = explored(ctx, go)
        report(ctx, "initial-values", "%s%s" % (cls, " " + d if d else ""), w, ini if ini is not None else good[cls][3], outs, lost)


def plain(ctx):
    """settings validated against a schema before use"""
    P = ctx.P
    for q in sorted({f["q"] for f in P.functions.values() if f["q"].startswith("Model::Timeevolver::make_") and f["b"] is not None and len(f["p"]) == 1}):
        cls = q.rsplit("::", 1)[0]
        w = at(ctx, q)
        try:
            I = interp(ctx, {})
            docs = Gen().variants(val(I.call(static(P, ctx.H, cls, "get_schema"))))
        except (Unmodelled, UB, Thrown) as x:
            ctx.ob("evolver", q, False, w, "schema: %s" % (x,), key=q, terms=(mk("unknown", str(x)),))
            continue
        for d, doc in docs:
            outs, lost = explored(ctx, lambda I: I.call(I.find(q), None, [Cell(fixed(doc))]))
            report(ctx, "evolver", "%s%s" % (q, " " + d if d else ""), w, doc, outs, lost)
