"""C16: component types are registered under their own names, unknown ones rejected."""
from comptypes import *

TECHNIQUE = "abstract interpretation of the factories' constructors, of the component types' virtual functions and of the node and edge builders; the registered tables are compared with what each component class reports"
NOTE = ("All factories and all types are covered; documents for the builders have up to two types with up to two components each. Components are selected by a name only through the type maps.")
COMP = "Model::"


def run(ctx):
    fcs = factories(ctx)
    ctx.need(fcs, "no factory found")
    for fc in fcs:
        table(ctx, fc)
    builders(ctx)
    for r, n in (("own-name", 25), ("no-shared-name", 3), ("own-schema", 25), ("own-defaults", 25), ("yields-its-class", 25), ("listed-in-schema", 25), ("unknown-rejected", 4), ("built-as-listed", 4)):
        ctx.floor(r, n)


def section(s, kind):
    try:
        return s.v["properties"].v["nodes" if kind == "node" else "connections"].v
    except (KeyError, TypeError, AttributeError):
        return {}


def run1(ctx, go, setup=None):
    """single outcome of a deterministic computation"""
    def make(known):
        I = interp(ctx, known)
        if setup:
            setup(I)
        return I, lambda: go(I)
    outs = list(explore(make, 50))
    for o in outs:
        ctx.units |= o.I.units
    return outs


def table(ctx, fc):
    w = at(ctx, fc + "::" + fc.split("::")[-1])
    added = []

    def setup(I):
        del added[:]
        for kind in ("node", "edge"):
            q = BASE + "::add_%s_type" % kind
            f = I.find(q)

            def hook(I, this, a, e, kind=kind, f=f, q=q):
                h = I.hooks.pop(q)
                added.append((kind, target(a[0])))
                try:
                    return I.call(f, this, a)
                finally:
                    I.hooks[q] = h
            I.hooks[q] = hook
    outs = run1(ctx, lambda I: make_factory(I, fc), setup)
    bad = [o for o in outs if o.kind != "ok"]
    if bad:
        ctx.ob("own-name", fc, False, w, said(bad[0]), key=fc, terms=(mk("unknown", str(bad[0].value)),) if bad[0].kind == "unmodelled" else ())
        return
    I, f = outs[0].I, outs[0].value
    I.hooks.clear()
    types = [(k, n, target(c)) for k in ("node", "edge") for n, c in typemap(I, f, k).d.items()]
    names = [concrete_name(ctx, t) for _, t in added] if added else [concrete_name(ctx, t) for _, _, t in types]
    dup = sorted({n for n in names if names.count(n) > 1}, key=str)
    ctx.ob("no-shared-name", fc, not dup and (not added or len(types) == len(added)), w,
           "types share the name %s" % dup if dup else "of %d types added only %d can be selected" % (len(added), len(types)), key=fc)
    for kind, n, t in types:
        C = concrete(t)
        inst = "%s: %s" % (fc.split("::")[-1], n)
        wt = at(ctx, C + "::" + C.split("::")[-1]) if C else w
        if C is None or C not in ctx.P.records:
            ctx.ob("own-name", inst, False, w, "not a type of this library", key=inst, terms=(mk("unknown", "type"),))
            continue
        one(ctx, fc, kind, n, t, C, inst, wt)
    # the documents' schema lists each type under its name with its schema
    for which, args in (("topology", (True, True)), ("topology", (True, False)), ("topology", (False, False)), ("boundary", (True,)), ("boundary", (False,)), ("control", (True,)), ("control", (False,)), ("initial", (True,)), ("initial", (False,))):
        def whole(I):
            f = make_factory(I, fc, {})
            s = method(I, f, "get_%s_schema" % which, *args)
            r = []
            for kind in ("node", "edge"):
                sec = section(s, kind)
                listed = set((sec.get("properties") or J({})).v or {})
                tm = typemap(I, f, kind)
                for n, c in tm.d.items():
                    t = target(c)
                    own = method(I, t, "get_schema", *args) if which == "topology" else opt(method(I, t, "get_%s_schema" % which, *args))
                    have = (sec.get("properties") or J({})).v.get(n)
                    r.append((n, own, have.v.get("items") if have is not None and isinstance(have.v, dict) else have))
                r += [(n, None, "listed") for n in listed - set(tm.d)]
                if sec.get("additionalProperties") is None or sec["additionalProperties"].v is not False:
                    r.append((kind + " types", J(False), sec.get("additionalProperties")))
            return r

        def judge(o):
            if o.kind != "ok":
                return said(o)
            for n, own, have in o.value:
                if own is None and have is not None:
                    return "%s is listed although it has no such schema" % n
                if own is not None and not same(own, have):
                    return "%s is listed with %s instead of its own schema" % (n, show_json(have)[:200] if isinstance(have, J) else have)
            return None
        prove(ctx, "listed-in-schema", "%s, %s schema %s" % (fc.split("::")[-1], which, args), whole, judge, at(ctx, BASE + "::get_%s_schema" % which))


def concrete_name(ctx, t):
    C = concrete(t)
    f = static(ctx.P, ctx.H, C, "get_type") if C else None
    if f is None:
        return None
    I = interp(ctx)
    return val(I.call(f))


def one(ctx, fc, kind, n, t, C, inst, wt):
    P, H = ctx.P, ctx.H
    own = static(P, H, C, "get_type")

    def go(I):
        return val(I.call(own)), method(I, pick(I)[0], "get_name")

    def pick(I, defaults=None):
        f = make_factory(I, fc, defaults)
        return [target(c) for m, c in typemap(I, f, kind).d.items() if m == n and concrete(target(c)) == C] or [None]

    def judge(o):
        if o.kind != "ok":
            return said(o)
        a, b = o.value
        if not a == n == b:
            return "registered under %r, the class calls itself %r, the type %r" % (n, a, b)
    prove(ctx, "own-name", inst, go, judge, wt)
    mark = {"marker": "default of " + n}

    def godef(I):
        d = {m: {"marker": "default of " + m} for m in {n, "A", "Z"} | set(list(typemap(I, make_factory(I, fc), "node").d) + list(typemap(I, make_factory(I, fc), "edge").d))}
        return method(I, pick(I, d)[0], "get_defaults")
    prove(ctx, "own-defaults", inst, godef, lambda o: said(o) if o.kind != "ok" else None if same(o.value, to_j(mark)) else "has the defaults %s" % show_json(o.value), wt)
    parts = (("boundary", "Model::Boundaryvaluecomponent"), ("control", "Model::Controlcomponent"), ("initial", "Model::Statecomponent"))

    def gos(I):
        t = pick(I)[0]
        r = []
        plain = val(I.call(static(P, H, C, "get_schema")))
        r.append(("topology schema", method(I, t, "get_schema", True, False), cp(plain)))
        full = cp(plain)
        for part, base in parts:
            b = base if base in P.records else None
            has = b is not None and H.isa(C, b)
            want = val(I.call(static(P, H, C, "get_%s_schema" % part))) if has else None
            for flag in (True, False):
                r.append(("%s schema" % part, opt(method(I, t, "get_%s_schema" % part, flag)), want))
            if part == "boundary" and has:
                full.v["properties"].v["boundary_values"] = cp(want)
                full.v.setdefault("required", J([])).v.append(J("boundary_values"))
        r.append(("full schema", method(I, t, "get_schema", True, True), full))
        return r

    def judges(o):
        if o.kind != "ok":
            return said(o)
        for what, got, want in o.value:
            if (got is None) != (want is None) or got is not None and not same(got, want):
                return "%s is %s, the class says %s" % (what, show_json(got)[:300] if got is not None else "absent", show_json(want)[:300] if want is not None else "absent")
    prove(ctx, "own-schema", inst, gos, judges, wt)

    # the type builds an object of that class
    def gom(I):
        t = pick(I)[0]
        made = []
        old = I.construct

        def construct(cls, args=(), key=None, obj=None):
            c = cls if isinstance(cls, str) else None
            if obj is None and c in P.records and (H.isa(c, "Network::Node") or H.isa(c, "Network::Edge")):
                made.append(c)
                return Obj(c)
            return old(cls, args, key, obj)
        I.construct = construct
        I.hooks[VALIDATE] = I.hooks[DEFAULTS] = lambda I, this, a, e: None
        args = [Cell(to_j({"id": "x", "from": "a", "to": "b"}))] + ([Cell(Vec())] if kind == "edge" else [])
        r = method(I, t, "make_instance", *args)
        o = target(r)
        return o.cls if o is not None else None, made
    prove(ctx, "yields-its-class", inst, gom, lambda o: said(o) if o.kind != "ok" else None if o.value[0] == C else "builds a %s" % o.value[0], wt)


def builders(ctx):
    AN, AE = CF + "AbstractNodeType", CF + "AbstractEdgeType"
    for kind, q, A in (("node", "Model::build_node_vector", AN), ("edge", "Model::build_edge_vector", AE)):
        w = at(ctx, q)

        def go_for(doc, names):
            def go(I):
                made = []
                ts = {m: Obj(A) for m in names}

                def hook(I, this, a, e):
                    this = val(this)
                    name = next(m for m, o in ts.items() if o is this)
                    o = Obj("Network::Node" if kind == "node" else "Network::Edge")
                    made.append((name, show_json(val(a[0]))))
                    o.made = len(made) - 1
                    return UP(Ptr(Cell(o)))
                I.hooks[A + "::make_instance"] = hook
                args = [Cell(to_j(doc))] + ([Cell(Vec())] if kind == "edge" else []) + [Cell(MapV({m: Cell(UP(Ptr(Cell(ts[m])))) for m in names}))]
                v = val(I.call(I.find(q), None, args))
                return made, [getattr(o, "made", None) for o in plist(v)]
            return go
        a1, a2, b1, b2 = {"id": "a1"}, {"id": "a2", "x": 1}, {"id": "b1"}, {"id": "b2"}
        for doc in ({}, {"A": [a1]}, {"B": [b1]}, {"A": [a1, a2]}, {"A": [a1], "B": [b1, b2]}, {"A": [], "B": [b2]}):
            def judge(o):
                if o.kind != "ok":
                    return said(o)
                made, got = o.value
                want = sorted((t, show_json(to_j(x))) for t, l in doc.items() for x in l)
                if sorted(made) != want:
                    return "built %s instead of %s" % (sorted(made), want)
                if sorted(got) != list(range(len(made))):
                    return "the components returned are not the ones built"
            prove(ctx, "built-as-listed", "%s types, document %s" % (kind, show_json(to_j(doc))), go_for(doc, "AB"), judge, w)
        for doc in ({"C": [a1]}, {"C": []}, {"A": [a1], "C": [b1]}, {"A": [a1], "AB": [b1]}, {"A ": [a1]}, {"a": [a1]}, {"B": [b1], "C": []}, {"A": [a1], "B": [b1], "": [b2]}):
            prove(ctx, "unknown-rejected", "%s types, document %s" % (kind, show_json(to_j(doc))), go_for(doc, "AB"), lambda o: None if o.kind == "throw" else "%s although a type is unknown" % said(o), w)
        prove(ctx, "unknown-rejected", "%s types, empty factory" % kind, go_for({"A": [a1]}, ""), lambda o: None if o.kind == "throw" else "%s although the type is unknown" % said(o), w)


run.explanation = ("Every class derived from Componentfactory is constructed abstractly; for every entry of its type maps the key, the type's name, the class's own name, the schemas (topology, boundary, control, initial), the defaults and the class of "
                   "the object built are compared. The builders are interpreted on documents with known and unknown type names: every listed component is built once by the type of that name, any unknown name ends in an exception.")
