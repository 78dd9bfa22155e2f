"""C14: component input is completed and validated before use."""
from comptypes import *

TECHNIQUE = ("abstract interpretation of every component type's make_instance on symbolic documents with the validator, the filling in of defaults and the constructor observed in order; "
             "interpretation of the validating function against a stand-in of the validator library that may fail in every way; a query over the syntax tree for other places that construct components")
NOTE = ("Documents: everything the type's schema accepts (minimal, complete, optional keys, alternatives, list lengths), with default values present, absent and partly present. The validator library itself is trusted to call its error handler or to throw when a document does not satisfy the schema.")
JV = "nlohmann::json_schema::json_validator::"
NODE, EDGE = "Network::Node", "Network::Edge"


def run(ctx):
    I0 = interp(ctx, {})
    fcs = factories(ctx)
    seen = {}
    for fc in fcs:
        f = make_factory(I0, fc)
        for kind in ("node", "edge"):
            for n, c in typemap(I0, f, kind).d.items():
                C = concrete(target(c))
                if C in ctx.P.records:
                    one(ctx, fc, kind, n, C, I0, first=C not in seen)
                    seen.setdefault(C, fc)
    validator(ctx)
    filling(ctx)
    only(ctx, seen)
    for r, n in (("completed-validated-constructed", 25), ("invalid-rejected", 25), ("validator-reports", 4), ("defaults-filled", 6), ("only-through-types", 12)):
        ctx.floor(r, n)


# ------------------------------------------------------------------ one type
def defaults_for(schema, doc):
    """default values for the properties: taken from an accepted document; nested objects once in part"""
    out = {}
    for k, v in doc.v.items():
        if k in ("id", "from", "to"):
            continue
        p = (schema.v["properties"].v or {}).get(k)
        if p is None or not isinstance(p.v, dict):
            continue
        out[k] = cp(v)
    return J(out)


def filled(schema, doc):
    """what filling in the defaults makes of a document"""
    doc = cp(doc)

    def go(d, props):
        for k, s in props.items():
            if not isinstance(s.v, dict):
                continue
            if "default" in s.v and k not in d.v:
                d.v[k] = cp(s.v["default"])
            elif "type" in s.v and s.v["type"].v == "object" and "properties" in s.v and k in d.v and isinstance(d.v[k].v, dict):
                go(d.v[k], s.v["properties"].v or {})
    go(doc, (schema.v["properties"].v or {}) if "properties" in schema.v else {})
    return doc


def without(doc, k):
    return J({a: cp(b) for a, b in doc.v.items() if a != k})


def one(ctx, fc, kind, n, C, I0, first):
    P, H = ctx.P, ctx.H
    inst = "%s: %s" % (fc.split("::")[-1], n)
    w = at(ctx, C + "::" + C.split("::")[-1])

    def ty(I, dfl):
        f = make_factory(I, fc, {n: dfl} if dfl is not None else None)
        return target(typemap(I, f, kind).d[n])
    try:
        schema = method(I0, ty(I0, None), "get_schema", True, True)
        vs = Gen().variants(schema)
        full = max((d for _, d in vs), key=lambda d: len(d.v))
        dfl = defaults_for(schema, full)
    except (Unmodelled, UB, Thrown, KeyError, AttributeError) as x:
        ctx.ob("completed-validated-constructed", inst, False, w, "schema: %s" % (x,), key=inst, terms=(mk("unknown", str(x)),))
        return
    base = [("", None, d) for _, d in (vs if first else vs[:1])]
    cases = list(base)
    # every default used, none used, one key missing at a time
    cases.append(("all defaults", dfl, J({k: cp(v) for k, v in full.v.items() if k not in dfl.v})))
    if first:
        cases.append(("no default needed", J({k: J("default") if isinstance(v.v, str) else cp(v) for k, v in dfl.v.items()}), full))
        for k in dfl.v:
            cases.append(("default for %s" % k, J({k: dfl.v[k]}), without(full, k)))
            if isinstance(dfl.v[k].v, dict) and len(dfl.v[k].v) > 1:
                for k2 in dfl.v[k].v:
                    part = J({k: J({k2: cp(dfl.v[k].v[k2])})})
                    d = cp(full)
                    d.v[k] = J({x: cp(y) for x, y in d.v[k].v.items() if x != k2})
                    cases.append(("default for %s/%s" % (k, k2), part, d))

    def go(dfl, doc, fail, before=None):
        def g(I):
            log = []
            t = ty(I, dfl)
            want = method(I, t, "get_schema", True, True)
            full = filled(want, doc)
            old = I.construct

            def construct(cls, args=(), key=None, obj=None):
                c = cls if isinstance(cls, str) else None
                if obj is None and c in P.records and (H.isa(c, NODE) or H.isa(c, EDGE)):
                    a = val(args[0]) if args else None
                    log.append(("construct", c, show_json(a) if isinstance(a, J) else None, None))
                    return Obj(c)
                return old(cls, args, key, obj)
            I.construct = construct

            def validate(I, this, a, e):
                s = val(a[1])
                if not isinstance(s, J):
                    raise Unmodelled("schema handed as %r" % (s,))
                log.append(("validate", None, show_json(val(a[0])), s))
                if fail and I.last:
                    raise Thrown("std::runtime_error", "not valid", "")
            I.hooks[VALIDATE] = validate
            I.log, I.want, I.full, I.last = log, want, full, True
            if before is not None:
                # another component of the type is made first
                I.last = False
                method(I, t, "make_instance", *([Cell(cp(before))] + ([Cell(Vec())] if kind == "edge" else [])))
                I.last = True
                del log[:]
            args = [Cell(cp(doc))] + ([Cell(Vec())] if kind == "edge" else [])
            r = method(I, t, "make_instance", *args)
            return target(r)
        return g

    def judge(o):
        if o.kind != "ok":
            return "%s %s" % (said(o), str(o.value.msg)[:150] if o.kind == "throw" else "")
        I = o.I
        made = [i for i, x in enumerate(I.log) if x[0] == "construct"]
        if not made or o.value is None:
            return "nothing constructed"
        for i in made:
            ok = [x for x in I.log[:i] if x[0] == "validate" and same(x[3], I.want) and x[2] == I.log[i][2]]
            if not ok:
                vs = [x for x in I.log[:i] if x[0] == "validate"]
                return "constructed from data that was not validated%s" % (" against this type's schema" if vs and not any(same(x[3], I.want) for x in vs) else " in that form" if vs else "")
            if I.log[i][2] != show_json(I.full):
                return "constructed from %s, with its defaults it is %s" % (I.log[i][2][:300], show_json(I.full)[:300])
        return None
    for what, d, doc in cases:
        i2 = inst + (", " + what if what else "")
        prove(ctx, "completed-validated-constructed", i2, go(d, doc, False), judge, w)
    if first:
        other = cp(full)
        other.v["id"] = J("another")
        prove(ctx, "completed-validated-constructed", inst + ", after another one", go(None, full, False, other), judge, w)
    for b in (None, other) if first else (None,):
        prove(ctx, "invalid-rejected", inst + (", after one with the same keys" if b else ""), go(None, full, True, b),
          lambda o: said(o) if o.kind == "ub" else None if o.kind == "throw" and not any(x[0] == "construct" for x in o.I.log) else "a %s is constructed although its data was found not to be valid" % n, w)


# ------------------------------------------------------------------ the validating function
def validator(ctx):
    P = ctx.P
    fs = [f for f in P.functions.values() if f["q"] == VALIDATE and f["b"] is not None and len(f["p"]) == 2 and base_t(f["p"][1]["t"]).startswith("nlohmann::")]
    if len(fs) != 1:
        ctx.need(False, "validate_json(data, schema): %d definitions" % len(fs))
    f = fs[0]
    w = "%s:%d" % (f["file"], f["l"])

    def go(mode, doc):
        def g(I):
            d, s = to_j(doc), to_j({"type": "object", "marker": 1})
            I.asked = []

            def root(I, this, a, e):
                if mode == "faulty schema":
                    raise Thrown("std::runtime_error", "bad schema", "")
                this.data["root"] = show_json(val(a[0]))

            def validate(I, this, a, e):
                I.asked.append((this.data.get("root"), show_json(val(a[0]))))
                if mode == "throws":
                    raise Thrown("std::runtime_error", "invalid", "")
                if mode == "error":
                    if len(a) == 1:
                        raise Thrown("std::invalid_argument", "invalid", "")
                    h = val(a[1])
                    ks = [m["key"] for m in P.records[h.cls]["methods"] if m["n"] == "error"] if isinstance(h, Obj) and h.cls in P.records else []
                    if not ks or ks[0] not in P.functions:
                        raise Unmodelled("error handler %r" % (h,))
                    I.call(P.functions[ks[0]], h, [Cell(Lib("nlohmann::json_pointer")), Cell(cp(d)), Cell("message")])
                return J(None)
            I.hooks[JV + "set_root_schema"] = root
            I.hooks[JV + "validate"] = validate

            def made(I, this, a, e):
                x = Lib("nlohmann::json_schema::json_validator")
                if a and isinstance(val(a[0]), J):
                    root(I, x, a, e)
                return x
            I.hooks[JV + "json_validator"] = made
            I.expect = (show_json(s), show_json(d))
            return I.call(f, None, [Cell(d), Cell(s)])
        return g

    def judge(mode):
        def j(o):
            if o.kind == "ub":
                return said(o)
            if mode != "valid":
                return None if o.kind == "throw" else "%s when the validator reports: %s" % (said(o), mode)
            if o.kind == "throw":
                return "%s for a valid document" % said(o)
            return None if o.I.expect in o.I.asked else "a valid answer without asking the validator about this document and schema"
        return j
    for mode in ("valid", "faulty schema", "error", "throws"):
        for doc in ({"id": "a", "x": 1}, {"x": 1}, {"id": 3}, [1]):
            prove(ctx, "validator-reports", "%s, document %s" % (mode, show_json(to_j(doc))), go(mode, doc), judge(mode), w)


def filling(ctx):
    """apply_defaults on all small shapes"""
    fs = [f for f in ctx.P.functions.values() if f["q"] == DEFAULTS and f["b"] is not None and len(f["p"]) == 2]
    ctx.need(len(fs) == 1, "apply_defaults: %d definitions" % len(fs))
    f = fs[0]
    w = "%s:%d" % (f["file"], f["l"])
    S = lambda **p: {"type": "object", "properties": p}
    num_, nd = {"type": "number"}, {"type": "number", "default": 7}
    sch = [("no defaults", S(a=num_)), ("number", S(a=nd, b=num_)), ("object", S(a={"type": "object", "default": {"u": 1, "v": 2}, "properties": {"u": num_, "v": {"type": "number", "default": 2}}})),
           ("nested", S(a={"type": "object", "properties": {"u": nd, "v": num_}}, b={"type": "string", "default": "t"})),
           ("deep", S(a={"type": "object", "properties": {"u": {"type": "object", "properties": {"x": nd}}}})),
           ("array default", S(a={"type": "array", "default": [1, 2]}))]
    docs = [{}, {"a": 1}, {"b": 1}, {"a": {"u": 3}}, {"a": {"v": 3}}, {"a": {}}, {"a": {"u": {}}}, {"a": {"u": {"x": 1}}}, {"c": 1}]
    for name, s in sch:
        for d in docs:
            sj = to_j(s)
            pa = s["properties"].get("a", {})
            if "a" in d and (pa.get("type") == "object") != isinstance(d["a"], dict) or "a" in d and isinstance(d["a"], dict) and "u" in d["a"] and isinstance(d["a"]["u"], dict) != (pa.get("properties", {}).get("u", {}).get("type") == "object"):
                continue

            def go(I):
                c = Cell(to_j(d))
                I.call(f, None, [c, Cell(to_j(s))])
                return c.get()
            want = show_json(filled(sj, to_j(d)))
            prove(ctx, "defaults-filled", "%s, document %s" % (name, show_json(to_j(d))), go, lambda o: "%s %s" % (said(o), o.value) if o.kind != "ok" else None if show_json(o.value) == want else "becomes %s instead of %s" % (show_json(o.value), want), w)


# ------------------------------------------------------------------ nowhere else
def only(ctx, types):
    P, H = ctx.P, ctx.H
    comp = {c for c in P.records if (H.isa(c, NODE) or H.isa(c, EDGE)) and c not in (NODE, EDGE)}
    n = 0
    bad = []

    def ctors(x):
        if isinstance(x, dict):
            if x.get("k") in ("ctor", "new") and base_t(x.get("rc") or x.get("t") or "") in comp:
                yield base_t(x.get("rc") or x.get("t") or ""), x.get("l")
            if x.get("k") == "call" and x.get("q", "").split("<")[0] in ("std::make_unique", "std::make_shared"):
                t = targs(base_t(x.get("t", ""))) or targs(x.get("q", ""))
                if t and base_t(t[0]) in comp:
                    yield base_t(t[0]), x.get("l")
            for y in x.values():
                yield from ctors(y)
        elif isinstance(x, list):
            for y in x:
                yield from ctors(y)
    here = {}
    for f in P.functions.values():
        own = f.get("rc") in comp and f.get("ctor")
        for c, l in ctors(f.get("b")):
            here.setdefault(f["q"], (f, set()))[1].add((c, l))
        for i in f.get("inits") or ():
            if "base" in i or i.get("deleg"):
                continue
            for c, l in ctors(i.get("e")):
                here.setdefault(f["q"], (f, set()))[1].add((c, l))
        n += 1
    # constructing functions: make_instance, or helpers that only make_instance reaches
    callers = {}

    def refs(x):
        if isinstance(x, dict):
            if isinstance(x.get("fn"), str):
                yield x["fn"]
            for y in x.values():
                yield from refs(y)
        elif isinstance(x, list):
            for y in x:
                yield from refs(y)
    for f in P.functions.values():
        for k in set(refs([f.get("b"), f.get("inits")])):
            callers.setdefault(k, set()).add(f["key"])

    def own(f):
        rc = f.get("rc") or ""
        return rc in P.records and H.isa(rc, CF + "AbstractComponentType") and f["n"] == "make_instance"

    def origin(k, seen):
        """functions from which a construction is reached, cut at make_instance"""
        f = P.functions[k]
        if own(f) or k in seen:
            return set()
        seen.add(k)
        cs = {c for c in callers.get(k, ()) if c in P.functions and c != k}
        return set().union(*[origin(c, seen) for c in cs]) if cs else {f["q"]}
    for q, (f, cs) in sorted(here.items()):
        for c, l in sorted(cs, key=str):
            w = "%s:%s" % (f["file"], l)
            o = origin(f["key"], set())
            dead = o == {f["q"]} and not own(f)
            ctx.ob("only-through-types", "%s in %s" % (c, q), not o, w, "a %s is constructed outside the component types, from data nobody validated%s" % (c, ", reached from %s" % ", ".join(sorted(o)) if o and not dead else ""),
                   key="%s in %s" % (c, q), terms=(mk("unknown", "nobody calls %s" % q),) if dead else ())
