"""C37: the schemas grazer writes describe the files it reads."""
from comptypes import *
import c35

TECHNIQUE = ("abstract interpretation of the schema commands with a model of the files they write, and of the whole run command on documents that do and do not conform to the written schema; "
             "the written schema is itself the result of the interpretation and is evaluated on the documents")
NOTE = ("problem_data.json: every document the written schema generates (minimal, complete, every optional key and alternative) and a family of documents the run accepts. Component data: all types of the full factory, with no defaults "
        "and with defaults for one or all keys. The network of a run is empty; what its components read from their data is C15's subject. Keywords of the schema are read by this check.")
S = "Aux::schema::"
FULL = CF + "Full_factory"
NAMES = ("problem_data", "topology", "initial", "boundary", "control")
EMPTY = {"nodes": {}, "connections": {}}


def run(ctx):
    P = ctx.P
    for q in (S + "make_schemas", S + "make_full_factory_schemas", S + "insert_schema_key_into_data_jsons", "grazer::run"):
        ctx.need(any(f["q"] == q and f["b"] is not None for f in P.functions.values()), "%s not found" % q)
    written = schemas(ctx)
    if written is not None:
        problem_data(ctx, written)
    defaults(ctx)
    components(ctx)
    insertion(ctx)
    for r, n in (("written-schemas", 2), ("runnable-conforms", 5), ("conforming-runs", 3), ("defaults-as-in-run", 3), ("conforming-accepted", 20), ("defaults-not-required", 5), ("key-inserted", 5), ("key-harmless", 2)):
        ctx.floor(r, n)


def disk(I, files, dirs=()):
    """a file system with these files (name -> document) and directories"""
    I.made = []

    def ext(I, n, q, v, e):
        if not q.startswith("std::filesystem"):
            return NotImplemented
        if any(not isinstance(x, str) for x in v[:1]):
            raise Unmodelled("%s of an unknown path" % q)
        x = v[0].rstrip("/")
        folder = x in dirs or any(f.startswith(x + "/") for f in files) or x in I.made
        if n == "exists":
            return x in files or folder
        if n == "is_directory":
            return folder
        if n == "is_regular_file":
            return x in files
        if n in ("create_directory", "create_directories"):
            I.made.append(x)
            return not folder
        if n in ("absolute", "canonical", "weakly_canonical"):
            return v[0]
        raise Unmodelled(q)
    I.exthooks.append(ext)

    def read(I, this, a, e):
        x = val(a[0])
        if not isinstance(x, str):
            raise Unmodelled("file %r" % (x,))
        if x not in files:
            raise Thrown("std::runtime_error", "no file %s" % x, "")
        return cp(to_j(files[x]))
    I.hooks["aux_json::get_json_from_file_path"] = read
    I.hooks["aux_json::get_ordered_json_from_file_path"] = read


def content(s):
    """the document a stream was given"""
    js = [p.j for p in s.parts if isinstance(p, SymS) and p.j is not None]
    js += [p for p in s.parts if isinstance(p, J)]
    if len(js) != 1 or any(not (isinstance(p, (SymS, J)) or isinstance(p, str) and p.strip() == "" or isinstance(p, (int, Lib))) for p in s.parts):
        raise Unmodelled("what is written to %s" % s.name)
    return js[0]


def schemas(ctx):
    """which file holds which schema; the written schema of problem_data.json"""
    w = at(ctx, S + "make_schemas")
    found = {}

    def go(I):
        disk(I, {})
        for n in NAMES[1:]:
            I.hooks["%s::get_%s_schema" % (BASE, n)] = lambda I, this, a, e, n=n: to_j({"of": n})
        f = Obj(BASE)
        I.call(I.find(S + "make_schemas"), None, [Cell(f), "schemas"])
        return {s.name: content(s) for s in I.files}

    def judge(o):
        if o.kind != "ok":
            return said(o)
        got = o.value
        for n in NAMES:
            x = got.get("schemas/%s_schema.json" % n)
            if x is None:
                return "schemas/%s_schema.json is not written (written: %s)" % (n, ", ".join(sorted(got)))
            if n != "problem_data" and ("of" not in x.v or x.v["of"].v != n):
                return "%s_schema.json holds the schema of %s" % (n, x.v["of"].v if "of" in x.v else "something else")
        if "of" in got["schemas/problem_data_schema.json"].v:
            return "problem_data_schema.json holds the schema of %s" % got["schemas/problem_data_schema.json"].v["of"].v
        found["problem_data"] = got["schemas/problem_data_schema.json"]
        return None
    prove(ctx, "written-schemas", "one file per schema", go, judge, w)

    def full(I):
        D = {"Pipe": {"balancelaw": "Isothermaleulerequation"}, "Sink": {"boundary_values": {"id": "x"}}}
        disk(I, {"g/problem/problem_data.json": {"problem_data": {"defaults": D}}})
        f = new(I, FULL, Cell(to_j(D)))
        want = {}
        for n in NAMES[1:]:
            g = I.find("%s::get_%s_schema" % (BASE, n))
            want[n] = I.call(g, f, [False] * len(g["p"]))
        I.call(I.find(S + "make_full_factory_schemas"), None, ["g"])
        return want, {s.name: content(s) for s in I.files}

    def judge2(o):
        if o.kind != "ok":
            return said(o)
        want, got = o.value
        for n in NAMES[1:]:
            x = got.get("g/schemas/%s_schema.json" % n)
            if x is None:
                return "g/schemas/%s_schema.json is not written (written: %s)" % (n, ", ".join(sorted(got)))
            if show_json(x) != show_json(want[n]):
                return "%s_schema.json does not hold the schema of the full factory's components" % n
        return None
    prove(ctx, "written-schemas", "schemas of the full factory", full, judge2, at(ctx, S + "make_full_factory_schemas"))
    return found.get("problem_data")


# ------------------------------------------------------------ problem_data.json

SETTINGS = {"start_time": num(0), "end_time": num(6), "desired_delta_t": num(1), "use_simplified_newton": True, "maximal_number_of_newton_iterations": 10,
            "tolerance": num(Fr(1, 10)), "retries": 0}


def others(d):
    """the other files of a problem directory"""
    return {"d/problem/" + n: EMPTY for n in ("initial.json", "control.json", "lower_bounds.json", "upper_bounds.json", "constraint_lower_bounds.json", "constraint_upper_bounds.json",
                                              "topology.json", "boundary.json")} | {"d/problem/problem_data.json": d}


def attempt(d, extra=None):
    """interpret a run on this problem_data.json up to the simulation or the optimizer"""
    def go(I):
        c35.prepare(I, None)
        del I.exthooks[:]
        for f in I.P.functions.values():
            q = f["q"]
            if q == VALIDATE:
                I.hooks[q] = validate
            if q in ("Model::build_net", "Model::Timeevolver::make_pointer_instance") or f.get("ctor") and f.get("rc") in (FULL, c35.NP):
                I.hooks.pop(q, None)
            if f["n"] in ("set_initial_values", "set_initial_controls") and f.get("rc") == c35.NP:
                I.hooks.pop(q, None)
        fs = others(d)
        for v in strings(d):
            fs.setdefault("d/problem/" + v, EMPTY)
        fs.update(extra or {})
        disk(I, fs)
        I.call(I.find("grazer::run"), None, ["d"])
        raise Unmodelled("neither simulated nor optimized")
    return go


def strings(d):
    if isinstance(d, J):
        d = d.v
    if isinstance(d, str):
        yield d
    elif isinstance(d, dict):
        for v in d.values():
            yield from strings(v)
    elif isinstance(d, list):
        for v in d:
            yield from strings(v)


def reached(o):
    """None: the run got to the simulation or the optimizer"""
    if o.kind == "throw" and o.value.cls == "!captured":
        return None
    if o.kind == "unmodelled":
        raise Unmodelled(str(o.value))
    if o.kind == "throw":
        return "exception %s (%s)" % (o.value.cls, str(o.value.msg)[:150])
    return said(o)


def runnable():
    net = {"topology_json": "topology.json", "boundary_json": "boundary.json"}
    yield "the least a run needs", {"simulation_settings": SETTINGS, "problem_data": net}
    yield "with defaults", {"simulation_settings": SETTINGS, "problem_data": {**net, "defaults": {"Pipe": {"scheme": "Implicitboxscheme"}}}}
    yield "without optimization", {"optimize": False, "simulation_settings": SETTINGS, "problem_data": net}
    yield "with optimization", {"optimize": True, "simulation_settings": SETTINGS, "problem_data": net}
    yield "with a control step", {"control_settings": {"desired_delta_t": num(2)}, "simulation_settings": SETTINGS, "problem_data": net}
    yield "with a number of controls", {"control_settings": {"number_of_steps": 3}, "simulation_settings": SETTINGS, "problem_data": net}
    yield "with constraint settings", {"optimize": True, "constraint_settings": {"evaluate_constraints_every_n": 2}, "simulation_settings": SETTINGS, "problem_data": net}
    yield "with a schema key", {"$schema": "../schemas/problem_data_schema.json", "simulation_settings": SETTINGS, "problem_data": net}
    yield "with the networks inside", {"simulation_settings": SETTINGS, "problem_data": {"topology_json": EMPTY, "boundary_json": EMPTY}}
    for what, d in (("many iterations", {"maximal_number_of_newton_iterations": 100000}), ("a single iteration", {"maximal_number_of_newton_iterations": 1}), ("many retries", {"retries": 1000}),
                    ("a tiny tolerance", {"tolerance": num(Fr(1, 10 ** 12))}), ("a tolerance of one", {"tolerance": num(1)}), ("a large tolerance", {"tolerance": num(1000)}),
                    ("negative start time", {"start_time": num(-6), "end_time": num(-2)}), ("times far from zero", {"start_time": num(10 ** 9), "end_time": num(10 ** 9 + 6)}), ("tiny steps", {"start_time": num(0), "end_time": num(Fr(1, 10 ** 6)), "desired_delta_t": num(Fr(1, 10 ** 6))}),
                    ("large steps", {"end_time": num(10 ** 8), "desired_delta_t": num(10 ** 8)}), ("steps that do not divide the interval", {"desired_delta_t": num(Fr(7, 10))}), ("fractional times", {"start_time": num(Fr(1, 4)), "end_time": num(Fr(27, 4))})):
        yield "with " + what, {"simulation_settings": {**SETTINGS, **d}, "problem_data": net}
    for what, d in (("a large control step", {"desired_delta_t": num(10 ** 7)}), ("a small control step", {"desired_delta_t": num(Fr(1, 100))}), ("two control steps", {"number_of_steps": 2}), ("many control steps", {"number_of_steps": 50})):
        yield "with " + what, {"control_settings": d, "simulation_settings": SETTINGS, "problem_data": net}
    for n in (1, 3, 50, 100000):
        yield "with constraints every %d steps" % n, {"optimize": True, "constraint_settings": {"evaluate_constraints_every_n": n}, "simulation_settings": SETTINGS, "problem_data": net}
    yield "with simplified Newton off", {"simulation_settings": {**SETTINGS, "use_simplified_newton": False, "retries": 3}, "problem_data": net}


def problem_data(ctx, schema):
    w = next((f for f in ctx.P.functions.values() if f["n"] == "get_problem_data_schema" and f["b"] is not None), None)
    w = "%s:%d" % (w["file"], w["l"]) if w else at(ctx, S + "make_schemas")
    for what, d in runnable():
        def judge(o):
            r = reached(o)
            if r is not None:
                raise Unmodelled("expected to run: %s" % r)
            return why_not(schema, to_j(d))
        prove(ctx, "runnable-conforms", "problem_data.json %s" % what, attempt(d), judge, w, key="runnable|" + what)
    values = {"start_time": num(0), "end_time": num(6), "desired_delta_t": num(1), "tolerance": num(Fr(1, 10))}
    for n, (what, d) in enumerate(Gen().variants(schema)):
        d = settled(d, values)
        def judge(o):
            r = reached(o)
            if r is None:
                return None
            # contradictions the run reports itself are legitimate; files that are missing are not
            if o.kind == "throw" and o.value.cls in ("std::runtime_error",) and contradictory(d):
                return None
            return "%s although the document conforms to the written schema" % r
        prove(ctx, "conforming-runs", "problem_data.json %s" % (what or "minimal"), attempt(d), judge, w, key="conforming|%d|%s" % (n, what))


def contradictory(d):
    c = d.v.get("control_settings")
    return c is not None and c.kind() == "object" and ("desired_delta_t" in c.v) == ("number_of_steps" in c.v)


def settled(j, values, k=None):
    if isinstance(j.v, dict):
        return J({x: settled(y, values, x) for x, y in j.v.items()})
    if isinstance(j.v, list):
        return J([settled(y, values, k) for y in j.v])
    if isinstance(j.v, T) and j.v.op == "sym":
        return J(values.get(k, num(2)))
    return j


def why_not(s, j, path=""):
    """None or the place at which the document breaks the schema"""
    d = s.v
    if not isinstance(d, dict):
        return None
    if j.kind() == "object":
        for r in d["required"].v if "required" in d else []:
            if r.v not in j.v:
                return "the written schema requires the key %s, the run does not" % (path + "/" + r.v)
        for k, x in (d["properties"].v if "properties" in d else {}).items():
            if k in j.v:
                r = why_not(x, j.v[k], path + "/" + k)
                if r:
                    return r
    return None if schema_ok(s, j) else "the written schema rejects %s" % (path or "the document")


# ------------------------------------------------------------ defaults

def defaults(ctx):
    w = at(ctx, S + "make_full_factory_schemas")
    D = {"Pipe": {"scheme": "Implicitboxscheme"}, "Sink": {}}
    docs = [("with defaults", {"problem_data": {"defaults": D}}), ("with empty defaults", {"problem_data": {"defaults": {}}}), ("without defaults", {"problem_data": {}}),
            ("with defaults of old shape elsewhere", {"problem_data": {"defaults": D, "subproblems": {"Network_problem": {"defaults": {"Pipe": {"scheme": "other"}}}}}})]

    def factory_defaults(I, run_):
        got = []
        for f in I.P.functions.values():
            if f.get("ctor") and f.get("rc") == FULL and not f.get("copy"):
                def hook(I, this, a, e):
                    got.append(cp(val(a[0])) if a else to_j({}))
                    raise Thrown("!factory", "", "")
                I.hooks[f["q"]] = hook
        try:
            run_()
        except Thrown as t:
            if t.cls != "!factory":
                raise
        if len(got) != 1:
            raise Unmodelled("no factory was built")
        return got[0]

    for what, d in docs:
        d = {"simulation_settings": SETTINGS, **d}

        def go(I):
            disk(I, {"g/problem/problem_data.json": d})
            return factory_defaults(I, lambda: I.call(I.find(S + "make_full_factory_schemas"), None, ["g"]))

        def go_run(I):
            c35.prepare(I, None)
            del I.exthooks[:]
            disk(I, others(d))
            return factory_defaults(I, lambda: I.call(I.find("grazer::run"), None, ["d"]))
        ref = [o for o in explore(lambda known: (lambda I: (I, lambda: go_run(I)))(interp(ctx, known)), 20)]
        if len(ref) != 1 or ref[0].kind != "ok":
            ctx.ob("defaults-as-in-run", what, False, w, "the run's factory: %s" % (said(ref[0]) if ref else "nothing"), key="defaults|" + what, terms=(mk("unknown", "run"),))
            continue

        def judge(o):
            if o.kind != "ok":
                return said(o)
            if show_json(o.value) != show_json(ref[0].value):
                return "the schemas are made with the defaults %s, the run uses %s" % (show_json(o.value)[:100], show_json(ref[0].value)[:100])
            return None
        prove(ctx, "defaults-as-in-run", "problem_data.json %s" % what, go, judge, w, key="defaults|" + what)


# ------------------------------------------------------------ components

def components(ctx):
    """data that conforms to the written component schemas is not rejected when the component is built"""
    I0 = interp(ctx, {})
    f0 = make_factory(I0, FULL)
    for kind in ("node", "edge"):
        for n, c in sorted(typemap(I0, f0, kind).d.items()):
            t0 = target(c)
            cls = concrete(t0) or n
            for some in ("no", "all", "one", "boundary"):
                component(ctx, kind, n, cls, some)


def component(ctx, kind, n, cls, some):
    w = at(ctx, BASE + "::get_topology_schema")
    I = interp(ctx, {})
    f = make_factory(I, FULL)
    try:
        full = written(I, f, "topology", kind, n)
        own = {k: v for k, v in full.v["properties"].v.items() if k not in ("id", "from", "to")}
        plain_ = {}
        for i, (k, v) in enumerate(sorted(own.items())):
            if some == "all" or some == "one" and i == 0:
                plain_[k] = Gen().variants(v)[0][1]
        bkeys = {}
        if some == "boundary":
            b0 = written(I, f, "boundary", kind, n)
            ks = [k for k in sorted(b0.v["properties"].v) if k != "id"] if b0 is not None and b0.v["properties"].v else []
            if ks:
                bkeys = {ks[-1]: Gen().variants(b0.v["properties"].v[ks[-1]])[0][1]}
        if some != "no" and not plain_ and not bkeys:
            return
        D = J({n: J({**plain_, **({"boundary_values": J(bkeys)} if bkeys else {})})})
        I = interp(ctx, {})
        f = new(I, FULL, Cell(D))
        try:
            s = written(I, f, "topology", kind, n)
            b = written(I, f, "boundary", kind, n)
        except Thrown as x:
            ctx.ob("conforming-accepted", "%s, defaults for %s keys" % (n, some), False, w, "no schemas are written for the defaults %s, which the run accepts: exception %s (%s)" % (show_json(D)[:150], x.cls, str(x.msg)[:120]),
                   key="conforming|%s|%s" % (n, some))
            return
        docs = Gen().variants(s)
        # entries of the file without the keys that have defaults
        less = [(t, J({k: v for k, v in j.v.items() if k not in plain_})) for t, j in docs] if plain_ else []
        if plain_:
            bad = next((r for t, j in less for r in [why_not(s, j)] if r), None)
            ctx.ob("defaults-not-required", "%s, defaults for %s keys" % (n, some), bad is None, w, bad and "entry without the keys that have defaults: " + bad, key="defaulted|%s|%s" % (n, some))
        docs = less + docs
        bdocs = [(t, j) for t, j in Gen().variants(b)] if b is not None else []
        if bkeys:
            bad = next((r for t, j in bdocs for r in [why_not(b, J({k: v for k, v in j.v.items() if k not in bkeys}))] if r), None)
            ctx.ob("defaults-not-required", "%s, defaults for a boundary key" % n, bad is None, w, bad and "boundary entry without the keys that have defaults: " + bad, key="defaulted|%s|%s" % (n, some))
            bdocs = [(t, J({k: v for k, v in j.v.items() if k not in bkeys})) for t, j in bdocs[:1]] + bdocs
        bounds = bdocs[:1 + bool(bkeys)] if b is not None else [("", None)]
    except (Thrown, UB, Unmodelled, KeyError) as x:
        ctx.ob("conforming-accepted", "%s, defaults for %s keys" % (n, some), False, w, "schema: %s" % (x,), key="conforming|%s|%s" % (n, some), terms=(mk("unknown", str(x)),))
        return
    for tx, j in docs:
        for tb, bj in bounds:
            if not schema_ok(s, j):
                continue

            def go(I):
                f = new(I, FULL, Cell(D))
                t = target(typemap(I, f, kind).d[n])
                for g in I.P.functions.values():
                    if g["q"] == VALIDATE:
                        I.hooks[VALIDATE] = validate
                d = cp(j)
                if bj is not None:
                    d.v["boundary_values"] = cp(bj)
                for g in I.P.functions.values():
                    if g.get("ctor") and g.get("rc") == cls:
                        I.hooks[g["q"]] = constructed
                m = next(g for g in I.P.functions.values() if g["n"] == "make_instance" and g.get("rc") == t.cls)
                I.call(m, t, [Cell(d)] + ([Cell(Vec([]))] if kind == "edge" else []))
                raise Unmodelled("nothing constructed")

            def judge(o):
                if o.kind == "throw" and o.value.cls == "!built":
                    return None
                if o.kind == "throw" and o.value.cls == "!invalid":
                    return "rejected on construction although it conforms to the written schema: %s" % (o.value.msg,)
                if o.kind == "unmodelled":
                    raise Unmodelled(str(o.value))
                return said(o)
            prove(ctx, "conforming-accepted", "%s%s, defaults for %s keys" % (n, " " + tx if tx else "", some), go, judge, w, key="conforming|%s|%s" % (n, some))


def written(I, f, what, kind, n):
    """the schema of one component of this type in the written file"""
    g = I.find("%s::get_%s_schema" % (BASE, what))
    s = I.call(g, f, [False] * len(g["p"]))
    x = s.v["properties"].v["nodes" if kind == "node" else "connections"].v["properties"].v
    if x is None or n not in x:
        return None
    return x[n].v["items"]


def validate(I, this, a, e):
    x, s = val(a[0]), val(a[1])
    docs = [y for y in (x, s) if isinstance(y, J)]
    if len(docs) != 2:
        raise Unmodelled("arguments of the validation")
    r = why_not(s, x)
    if r:
        raise Thrown("!invalid", r, "")


def constructed(I, this, a, e):
    raise Thrown("!built", "", "")


# ------------------------------------------------------------ the schema key

def insertion(ctx):
    q = S + "insert_schema_key_into_data_jsons"
    w = at(ctx, q)
    old = {n: {"nodes": {"Sink": [{"id": n}]}, "zeta": "last", "Alpha": num(3), "connections": {}} for n in NAMES}
    old["problem_data"] = {"simulation_settings": {"tolerance": num(1)}, "problem_data": {"topology_json": "topology.json"}}
    cases = [("all files there", NAMES, NAMES, {}), ("no data file there", (), NAMES, {}), ("no schema there", NAMES, (), {})]
    for n in NAMES:
        cases.append(("only %s.json there" % n, (n,), NAMES, {}))
        cases.append(("no schema of %s there" % n, NAMES, tuple(x for x in NAMES if x != n), {}))
        cases.append(("%s.json has the key already" % n, NAMES, NAMES, {n: {"$schema": "../schemas/%s_schema.json" % n, **old[n]}}))
    for what, have, have_schema, changed in cases:
        files = {"g/problem/%s.json" % n: changed.get(n, old[n]) for n in have}
        files.update({"g/schemas/%s_schema.json" % n: {} for n in have_schema})

        def go(I):
            disk(I, files, ("g",))
            got = []
            I.hooks["aux_json::overwrite_json"] = lambda I, this, a, e: got.append((val(a[0]), cp(val(a[1]))))
            I.call(I.find(q), None, ["g"])
            return got, list(I.files)

        def judge(o):
            if o.kind != "ok":
                return said(o)
            got, streams = o.value
            if streams:
                raise Unmodelled("writes %s" % streams[0].name)
            seen = {}
            for p, j in got:
                if not isinstance(p, str):
                    raise Unmodelled("path %r" % (p,))
                if p in seen:
                    return "%s is written twice" % p
                seen[p] = j
            for n in NAMES:
                p = "g/problem/%s.json" % n
                if n not in have_schema:
                    if p in seen and "$schema" in seen[p].v and (n not in have or "$schema" not in old[n]):
                        return "%s refers to a schema that is not there" % p
                    continue
                if p not in seen:
                    return "%s does not get its schema key" % p
                j = seen.pop(p)
                before = to_j(changed.get(n, old[n])).v if n in have else {}
                if j.kind() != "object" or "$schema" not in j.v or j.v["$schema"].v != "../schemas/%s_schema.json" % n:
                    return "%s gets the schema %s" % (p, show_json(j.v["$schema"]) if isinstance(j.v, dict) and "$schema" in j.v else "nothing")
                if set(j.v) - {"$schema"} != set(before) - {"$schema"}:
                    return "%s: keys %s become %s" % (p, sorted(before), sorted(j.v))
                for k in before:
                    if k != "$schema" and show_json(j.v[k]) != show_json(before[k]):
                        return "%s: the value of %s changes" % (p, k)
            for p in seen:
                if p not in files or show_json(seen[p]) != show_json(to_j(files[p])):
                    return "%s is changed" % p
            return None
        prove(ctx, "key-inserted", what, go, judge, w, key="key|" + what)
    # the key changes nothing for a run
    keyed = {"$schema": "../schemas/x_schema.json", **EMPTY}
    d = {"simulation_settings": SETTINGS, "problem_data": {"topology_json": "topology.json", "boundary_json": "boundary.json"}}
    for what, dd, extra in (("problem_data.json", {"$schema": "../schemas/problem_data_schema.json", **d}, {}),) + tuple(
            (n, d, {"d/problem/" + n: keyed}) for n in ("topology.json", "boundary.json", "initial.json", "control.json")):
        prove(ctx, "key-harmless", "$schema in %s" % what, attempt(dd, extra), reached, at(ctx, "grazer::run"), key="harmless|" + what)


run.explanation = ("make_schemas, make_full_factory_schemas and insert_schema_key_into_data_jsons are interpreted with a model of the files; the written problem_data schema is evaluated on documents a run accepts, "
                   "runs are interpreted on documents the schema generates, components are built from documents the written component schemas generate.")
