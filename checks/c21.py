"""C21: stochastic runs are reproducible from the recorded seed."""
import c15
from c15 import *

TECHNIQUE = ("abstract interpretation: every component type that owns a random number generator is built with and without a given seed and stepped; the seed of the engine behind every "
             "draw is compared with the recorded one; taint analysis of every other source of variation (clocks, entropy, addresses, environment)")
NOTE = ("The engines and distributions of the standard library, of pcg and of randutils are taken to be deterministic functions of their seed. Seeds are checked with eight pairwise "
        "different words including 0 and 2^32-1. Clock values may flow to the console and to names of directories, files and locks.")

WORDS = [7, 0, 4294967295, 2147483648, 123456789, 65536, 4000000001, 3]
SOURCES = ("::random_device", "randutils::auto_seed", "randutils::random_generator", "::now", "::get_id", "std::hash<")
PLAIN = ("rand", "random", "drand48", "time", "clock", "getpid", "gettimeofday", "clock_gettime", "getenv", "gethostname", "arc4random", "getrandom", "getppid", "pthread_self")


def run(ctx):
    P, H = ctx.P, ctx.H
    I0 = interp(ctx, {})
    todo = {}
    for fc in factories(ctx):
        f = make_factory(I0, fc)
        for kind in ("node", "edge"):
            for n, c in typemap(I0, f, kind).d.items():
                todo.setdefault(concrete(target(c)) or n, (fc, kind, n, target(c)))
    stochastic = {f["rc"] for f in P.functions.values() if f.get("ctor") and f["b"] is not None and owns(P, f["rc"])}
    covered = set()
    for cls, (fc, kind, n, t) in sorted(todo.items()):
        if cls in stochastic:
            component(ctx, cls, fc, kind, n, t, I0, covered)
    for cls in sorted(c for c in stochastic if not H.isa(c, "Model::Component") and c not in todo):
        single(ctx, cls, covered)
    others(ctx, covered)
    ctx.floor("engine-uses-recorded-seed", 4)
    ctx.floor("given-seed-unchanged", 1)
    ctx.floor("no-other-variation", 3)


def owns(P, cls, seen=None):
    """does an object of the class contain a random engine, directly or through owned members"""
    seen = seen or set()
    if cls in seen:
        return False
    seen.add(cls)
    for b in [cls] + [x for x in (P.records.get(cls) or {}).get("bases", []) if isinstance(x, str)]:
        for fd in (P.records.get(b) or {}).get("fields", []):
            t = base_t(fd["t"])
            if any(x in t for x in RANDOM if x not in ("std::normal_distribution", "std::uniform_")):
                return True
            for r in P.records:
                if r != cls and r in t and owns(P, r, seen):
                    return True
    return False


# ------------------------------------------------------------------ engines

def engines(I):
    """engine -> list of seeds it was given, in order; a seed is a list of words or None"""
    out = {}
    for ev in I.events:
        if ev[0] in ("random", "reseed"):
            o = ev[2]
            if not engine(o.cls):
                continue
            out.setdefault(id(o), (o, []))[1].append(seed_of(o))
    return out


def engine(c):
    return not any(x in c for x in ("_distribution", "seed_seq", "auto_seeded", "random_device", "param_type"))


def seed_of(o):
    a = o.data.get("args")
    if a is None:
        return o.data.get("seed")
    a = [x for x in (val(y) for y in a)]
    if not a:
        return "nothing: the engine is not seeded"
    if len(a) >= 1 and isinstance(a[0], Lib) and "seed_seq" in a[0].cls and a[0].data.get("seed") is not None:
        # sequence generators are passed by reference; further values are buffers of the conversion
        return list(a[0].data["seed"])
    if len(a) == 1 and isinstance(a[0], Lib) and engine(a[0].cls):
        return seed_of(a[0])
    if any(entropy(x) for x in a):
        return "fresh entropy"
    if all(isinstance(x, (int, Fr)) or is_number(x) for x in a):
        return "only %s" % ", ".join(str(x) for x in a)
    raise Unmodelled("seed of %s" % o.cls)


def is_number(x):
    return isinstance(x, T) and x.op == "num"


def entropy(x):
    if isinstance(x, T):
        return any(y.op == "sym" and str(y.args[0]).startswith("entropy") for y in subterms(x))
    if isinstance(x, Lib):
        return "auto_seed" in x.cls or "random_device" in x.cls or any(entropy(y) for k in ("seed", "args") for y in map(val, x.data.get(k) or []))
    return False


def word(x):
    x = val(x)
    if isinstance(x, J):
        x = x.v
    return tt(x) if not isinstance(x, T) else x


def same_seed(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(map(word, a), map(word, b)))


def same(a, b):
    return a == b or is_zero(sub(a, b))[0]


def text(s):
    return s if isinstance(s, str) else "[%s]" % ", ".join(show(word(x)) for x in s)


def recorded(I, comp):
    """the seed in what the component adds to the results"""
    out = Cell(J(None))
    method(I, comp, "add_results_to_json", out)
    found = []

    def walk(j):
        if isinstance(j.v, dict):
            for k, x in j.v.items():
                if k == "seed":
                    found.append(x)
                walk(x)
        elif isinstance(j.v, list):
            for x in j.v:
                walk(x)
    walk(out.get())
    return [list(x.v) if isinstance(x.v, list) else [x] for x in found]


def whole(x):
    return J([J(w) for w in x])


def with_seed(d, words):
    d = cp(d)
    d.v["boundary_values"].v["seed"] = whole(words)
    return d


def calm(d):
    """zero boundary values: the process is not cut off, its paths do not branch"""
    d = cp(d)
    for x in (d.v.get("boundary_values") or J({})).v.get("data", J([])).v:
        if "values" in x.v:
            x.v["values"] = J([J(ZERO) for _ in x.v["values"].v])
    return d


def component(ctx, cls, fc, kind, n, t, I0, covered):
    w = at(ctx, cls + "::" + cls.split("::")[-1])
    try:
        docs = Gen().variants(method(I0, t, "get_schema", True, True))
    except (Unmodelled, UB, Thrown) as x:
        ctx.ob("engine-uses-recorded-seed", cls, False, w, "schema: %s" % (x,), key=cls, terms=(mk("unknown", str(x)),))
        return
    base = None
    for d, doc in docs:
        if "2 entries" in d and "data" in d and kind == "node":
            base = doc
    base = fixed(base if base is not None else docs[0][1])
    b = base.v.get("boundary_values")
    if b is not None:
        b.v.pop("seed", None)
    if "number_of_stochastic_steps" in base.v:
        base.v["number_of_stochastic_steps"] = J(1)
    takes = any("seed" in (doc.v.get("boundary_values") or J({})).v for _, doc in docs if isinstance((doc.v.get("boundary_values") or J({})).v, dict))
    cases = [("without a seed", base, None)]
    if takes:
        cases += [("with a seed", with_seed(base, WORDS), WORDS), ("with the seed reversed", with_seed(base, WORDS[::-1]), WORDS[::-1])]
    for what, doc, given in cases:
        for steps in (0, 1, 2):
            inst = "%s %s, %d steps" % (cls, what, steps)

            def go(I, doc=doc, steps=steps):
                I.hooks[VALIDATE] = checked
                if steps > 1:
                    doc = calm(doc)
                I.events.append(("of", False))
                other = make(I, fc, kind, n, calm(with_seed(doc, [99 + i for i in range(8)]) if takes else doc))
                I.events.append(("of", True))
                c = make(I, fc, kind, n, doc)
                I.events.append(("of", False))
                k = as_int(method(I, c, "set_state_indices", 0))
                method(I, other, "set_state_indices", 0)
                method(I, c, "setup")
                method(I, other, "setup")
                for s in range(steps):
                    for x in (other, c):
                        I.events.append(("of", x is c))
                        m = np.empty((k, 1), dtype=object)
                        for i in range(k):
                            m[i, 0] = mk("sym", "s%d_%d" % (s, i))
                        method(I, x, "prepare_timestep", mk("num", Fr(s, 8)), mk("num", Fr(s + 1, 8)), Cell(Mat(m, False)))
                    I.events.append(("of", True))
                I.events.append(("end",))
                return recorded(I, c)

            def judge(o, given=given, steps=steps):
                if o.kind != "ok":
                    return None if o.kind == "throw" else said(o)
                es = engines(o.I)
                rec = o.value
                if not rec:
                    return "no seed is recorded with the results"
                if len(rec) > 1 and not all(same_seed(x, rec[0]) for x in rec):
                    return "more than one seed is recorded"
                if given is not None and not same_seed(rec[0], given):
                    return "given seed %s, recorded seed %s" % (text(given), text(rec[0]))
                mine = False
                drawn, built = [], []
                for ev in o.I.events:
                    if ev[0] == "of":
                        mine = ev[1]
                    elif ev[0] == "draw" and mine:
                        drawn.append(ev[2])
                    elif ev[0] in ("random", "reseed") and mine and engine(ev[2].cls):
                        built.append(ev[2])
                if not built:
                    return "no engine was set up for the component"
                if not steps:
                    drawn = built[-1:]
                for g in drawn:
                    if id(g) not in es:
                        g0 = next((x for x, _ in es.values() if x.cls == g.cls and x.data.get("args") is g.data.get("args")), None)
                        if g0 is None:
                            raise Unmodelled("unknown engine")
                        seeds = es[id(g0)][1]
                    else:
                        seeds = es[id(g)][1]
                    for s in seeds:
                        if isinstance(s, str) or s is None:
                            return "the engine is seeded with %s, recorded is %s" % (s, text(rec[0]))
                        if not same_seed(s, rec[0]):
                            return "the engine is seeded with %s, recorded is %s" % (text(s), text(rec[0]))
                return None
            n_, bad, lost, units = decide(ctx, go, judge)
            covered |= units
            conclude(ctx, "engine-uses-recorded-seed", inst, w, "%s|%s" % (cls, what), (n_, bad, lost, units))
            if given is not None and steps == 0:
                conclude(ctx, "given-seed-unchanged", inst, w, "%s|given" % cls, (n_, bad, lost, units))


def single(ctx, cls, covered):
    """generators outside components: built with a given seed and with their own"""
    P = ctx.P
    cs = [f for f in P.functions.values() if f.get("ctor") and f.get("rc") == cls and f["b"] is not None and not f.get("copy") and len(f["p"]) == 2
          and all("array" in p["t"] for p in f["p"])]
    for f in cs:
        for given in (WORDS, None):
            inst = "%s %s" % (cls, "with a seed" if given else "without a seed")

            def go(I, f=f, given=given):
                used = Cell(Vec([Cell(0) for _ in range(8)], base_t(f["p"][0]["t"])))
                o = Obj(cls)
                I.call(f, o, [used] + ([Cell(Vec([Cell(x) for x in given], base_t(f["p"][1]["t"])))] if given else []))
                return [c.get() for c in used.get().l]

            def judge(o, given=given):
                if o.kind != "ok":
                    return None if o.kind == "throw" else said(o)
                es = engines(o.I)
                if given and not same_seed(o.value, given):
                    return "given seed %s, reported as used %s" % (text(given), text(o.value))
                if not es:
                    return "no engine was set up"
                for x, seeds in es.values():
                    for s in seeds:
                        if isinstance(s, str) or s is None or not same_seed(s, o.value):
                            return "the engine is seeded with %s, reported as used is %s" % (text(s) if s is not None else s, text(o.value))
            r = decide(ctx, go, judge)
            covered |= r[3]
            conclude(ctx, "engine-uses-recorded-seed", inst, "%s:%d" % (f["file"], f["l"]), inst, r)


# -------------------------------------------------------------- other sources

def children(x):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from children(v) if isinstance(v, list) else ((v,) if isinstance(v, dict) else ())
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, dict):
                yield v
            elif isinstance(v, list):
                yield from children(v)


def nodes(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, list):
            st += y
            continue
        if isinstance(y, dict):
            yield y
            st += [v for v in y.values() if isinstance(v, (dict, list))]


def source(e):
    if e.get("k") not in ("call", "mcall", "ctor", "opcall"):
        return None
    q = e.get("q") or ""
    if q in PLAIN or q.startswith("std::") and q[5:] in PLAIN or q.startswith(("std::", "randutils::")) and any(s in q for s in SOURCES):
        if "std::hash<" in q and "*" not in q:
            return None
        return q
    if e.get("k") == "ctor" and any(s in (e.get("rc") or "") for s in ("random_device", "auto_seed")):
        return e.get("rc")
    return None


def pointer_order(e):
    """iteration over a container ordered or hashed by addresses"""
    import re
    t = None
    if e.get("k") == "rfor":
        t = (e.get("range") or {}).get("t")
    if t is None:
        return None
    t = base_t(t)
    m = re.match(r"std::(?:unordered_)?(?:multi)?(?:map|set)<(.*)>$", t)
    if not m:
        return None
    from shape import targs
    a = targs(t)
    if a and a[0].strip().endswith("*") and not (len(a) > (2 if "map<" in t else 1) and "less<" not in a[2 if "map<" in t else 1] and "hash<" not in a[2 if "map<" in t else 1]):
        return t
    return None


CONSOLE = ("std::cout", "std::cerr", "std::clog")


def taint(f, start):
    """where a value of the given expressions can influence anything but the console; None if nowhere"""
    from collections import deque
    tainted, body = set(), [f["b"], f.get("inits")]
    ids = {id(s) for s in start}

    def has(x):
        return any(id(y) in ids or y.get("k") == "var" and y.get("id") in tainted for y in nodes(x))
    local = set()
    for y in nodes(body):
        if y.get("k") == "decl":
            for d in y["d"] if isinstance(y["d"], list) else [y["d"]]:
                if isinstance(d, dict) and "id" in d and not d.get("static"):
                    local.add(d["id"])
    for p in f["p"]:
        if p.get("by") == "v":
            local.add(p["id"])
    changed = True
    while changed:
        changed = False
        for y in nodes(body):
            k = y.get("k")
            if k == "decl":
                for d in y["d"] if isinstance(y["d"], list) else [y["d"]]:
                    if isinstance(d, dict) and d.get("id") not in tainted and has({a: b for a, b in d.items() if a not in ("id",)}):
                        tainted.add(d["id"])
                        changed = True
            elif k == "assign" or k == "opcall" and y.get("op") in ("=", "+=", "-="):
                l, r = (y["x"], y["y"]) if k == "assign" else (y["a"][0], y["a"][1])
                if has(r) and l.get("k") == "var" and l["id"] in local and l["id"] not in tainted:
                    tainted.add(l["id"])
                    changed = True
    for y in nodes(body):
        k = y.get("k")
        if k == "return" and y.get("e") is not None and has(y["e"]):
            return y, "is returned"
        if (k == "assign" or k == "opcall" and y.get("op") in ("=", "+=", "-=")):
            l, r = (y["x"], y["y"]) if k == "assign" else (y["a"][0], y["a"][1])
            if has(r) and not (l.get("k") == "var" and l["id"] in local):
                return y, "is stored"
        if k in ("if", "while", "for", "do", "cond") and y.get("c") is not None and has(y["c"]):
            return y, "decides a branch"
        if k == "throw" and has(y.get("e") or {}):
            return y, "is thrown"
        if k in ("call", "mcall", "ctor") and y.get("in") and any(has(a) for a in y["a"]) and source(y) is None:
            return y, "is passed to %s" % (y.get("q") or "?")
    return None


def others(ctx, covered):
    P = ctx.P
    n = 0
    for k, f in sorted(P.functions.items()):
        if f["b"] is None or "/src/" not in f["file"]:
            continue
        found = {}
        for y in nodes([f["b"], f.get("inits")]):
            s = source(y)
            if s:
                found.setdefault(s, []).append(y)
            t = pointer_order(y)
            if t:
                n += 1
                ctx.ob("no-other-variation", "%s iterates over %s" % (f["q"], t), False, "%s:%s" % (f["file"], y.get("l")), "the order of the iteration depends on addresses",
                       key="%s|%s" % (f["q"], t))
        for s, es in sorted(found.items()):
            n += 1
            where = "%s:%s" % (f["file"], es[0].get("l"))
            inst = "%s in %s" % (s, f["q"])
            if ("auto_seed" in s or "random_device" in s) and "/Input_Output/" not in f["file"]:
                # inside the analysed set-up it is decided with the engines
                ctx.ob("no-other-variation", inst, f["q"] in covered, where, "fresh entropy outside the set-up of a recorded seed", key=inst)
                continue
            if "/Input_Output/" in f["file"]:
                # names of directories, files and backups
                ctx.ob("no-other-variation", inst, True, where)
                continue
            t = taint(f, es)
            ctx.ob("no-other-variation", inst, t is None, where, "its value %s (line %s)" % (t[1], t[0].get("l")) if t else "", key=inst)
    ctx.units |= {f["q"] for k, f in P.functions.items() if f["b"] is not None and "/src/" in f["file"]}
    return n


run.explanation = ("Each class that owns a generator is built from a document without a seed, with one and with another order of the same words, next to a second component with its own seed, "
                   "set up and stepped; every engine behind a draw must have been seeded with exactly the seed the component adds to the results.")
