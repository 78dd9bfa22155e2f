"""Path-enumerating typestate analysis over the exported syntax trees.

States are sets of small abstract stores.  Every call can end normally or by an
exception; exceptions run through the handlers they match.  A domain gives calls
their meaning (which outcomes they have and how the tracked state changes); calls
it does not know yield an unknown value and may throw.  Branches on unknown values
take both sides, loops run until no new state appears.

Values: True/False, ints, ("s", text), ("op", name, ...) pure terms, ("obj", n)
tracked objects, ("exc", class) exceptions, ("lam", node id), ("fn", key), ("list", ...),
and "?" for a value nothing is known about."""
import re
from program import AnalysisBroken, instance

UNK = "?"
LIMIT = 6000
MANY = 400
TURNS = 60

STD_EXC = {
    "std::logic_error": "std::exception", "std::runtime_error": "std::exception", "std::bad_alloc": "std::exception",
    "std::bad_cast": "std::exception", "std::invalid_argument": "std::logic_error", "std::domain_error": "std::logic_error",
    "std::length_error": "std::logic_error", "std::out_of_range": "std::logic_error", "std::range_error": "std::runtime_error",
    "std::overflow_error": "std::runtime_error", "std::underflow_error": "std::runtime_error", "std::system_error": "std::runtime_error",
    "std::ios_base::failure": "std::system_error", "std::filesystem::filesystem_error": "std::system_error",
    "std::future_error": "std::logic_error", "std::bad_optional_access": "std::exception", "std::bad_function_call": "std::exception",
    "std::regex_error": "std::runtime_error", "std::bad_variant_access": "std::exception",
    "CLI::Error": "std::runtime_error", "CLI::ParseError": "CLI::Error",
    "nlohmann::exception": "std::exception", "nlohmann::parse_error": "nlohmann::exception",
    "nlohmann::out_of_range": "nlohmann::exception", "nlohmann::type_error": "nlohmann::exception",
    "nlohmann::invalid_iterator": "nlohmann::exception", "nlohmann::other_error": "nlohmann::exception",
}


def cls(t):
    """class name of an exception type as written"""
    t = re.sub(r"\b(const|struct|class)\b", "", t or "").strip()
    t = t.rstrip("&* ").strip()
    t = re.sub(r"nlohmann::(json_abi_v[0-9_]+::)?detail::", "nlohmann::", t)
    t = re.sub(r"^nlohmann::(json_abi_v[0-9_]+::)?", "nlohmann::", t)
    t = re.sub(r"^nlohmann::(?:basic_json<.*>|json|ordered_json)::", "nlohmann::", t)
    t = t.replace("__cxx11::", "")
    return t


class St:
    __slots__ = ("env", "dom", "_k")

    def __init__(self, env, dom):
        self.env, self.dom, self._k = env, dom, None

    def copy(self):
        return St(dict(self.env), dict(self.dom))

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.dom.items()))


def with_env(st, k, v):
    e = dict(st.env)
    e[k] = v
    return St(e, st.dom)


def with_dom(st, **kw):
    d = dict(st.dom)
    d.update(kw)
    return St(st.env, d)


def dedupe(outs):
    seen, r = set(), []
    for o in outs:
        k = (o[0], o[1].key(), o[2])
        if k not in seen:
            seen.add(k)
            r.append(o)
    if len(r) > MANY:
        # give up the correlation of untracked conditions
        seen, q = set(), []
        for k, s, v in r:
            s = St({x: y for x, y in s.env.items() if x[0] != "asm"}, s.dom)
            kk = (k, s.key(), v)
            if kk not in seen:
                seen.add(kk)
                q.append((k, s, v))
        r = q
    if len(r) > LIMIT:
        raise AnalysisBroken("too many states")
    return r


class Domain:
    """default meanings"""
    may_throw = True

    def init(self):
        return {}

    def relevant(self, f):
        """analyse calls of this repository function by its body"""
        return True

    def ctor(self, W, st, e, vals, key):
        """object construction; list of outcomes or None"""
        return None

    def call(self, W, st, q, e, recv, rkey, vals, keys):
        return None

    def leave(self, W, st, keys):
        """variables going out of scope"""
        return st

    def unhandled(self, W, st, v):
        return st

    def catch(self, W, st, v, h):
        return st

    def bool(self, W, st, v):
        """truth of a tracked value: list of (state, bool) or None"""
        return None


class Walker:
    def __init__(self, P, H, dom):
        self.P, self.H, self.dom = P, H, dom
        self.nframe = 0
        self.depth = 0
        self.fn = []
        self.nobj = 0
        self.lams = {}
        self.walked = set()
        self.stack = []
        self.turns = TURNS

    # ------------------------------------------------------------- utilities
    def where(self, e):
        f = self.fn[-1] if self.fn else None
        return "%s:%s" % (f["file"] if f else "?", e.get("l", "?"))

    def fresh(self, what):
        self.nobj += 1
        return ("obj", what, self.nobj)

    def isa(self, a, b):
        seen = set()
        while a and a not in seen:
            if a == b:
                return True
            seen.add(a)
            r = self.P.records.get(a)
            if r and r.get("bases"):
                a = cls(r["bases"][0]["t"])
            else:
                a = STD_EXC.get(a)
        return False

    def matches(self, exc, h):
        """True / False / None: does the handler take this exception?"""
        if h.get("all"):
            return True
        c = cls(h.get("ct", ""))
        if exc == "?":
            return None
        if self.isa(exc, c):
            return True
        if self.isa(c, exc) and c != exc:
            return None
        return False

    # ------------------------------------------------------------- functions
    def start(self, f, args=None, dom=None):
        st = St({}, dict(dom if dom is not None else self.dom.init()))
        a = [(args or {}).get(p["n"], ("op", "par", i, p["n"])) for i, p in enumerate(f["p"])]
        return self.call_fn(f, st, a, [None] * len(a), None, None)

    def call_fn(self, f, st, vals, keys, this, thiskey, node=None):
        """outcomes: ('ok', st, value) / ('throw', st, exc) / ('exit', st, code)"""
        if f["key"] in self.stack or len(self.stack) > 40:
            return [("ok", st, UNK), ("throw", st, ("exc", "?"))]
        self.walked.add(f["q"])
        self.nframe += 1
        fr = self.nframe
        env = dict(st.env)
        for i, p in enumerate(f["p"]):
            k = keys[i] if i < len(keys) else None
            v = vals[i] if i < len(vals) else UNK
            if k is not None and p["by"] in ("r", "c", "m"):
                env[(fr, p["id"])] = ("&", k)
            else:
                env[(fr, p["id"])] = v
        env[(fr, "this")] = ("&", thiskey) if thiskey is not None else this if this is not None else UNK
        self.stack.append(f["key"])
        self.fn.append(f)
        self.frame, saved = fr, getattr(self, "frame", None)
        try:
            outs = self.inits(f, St(env, st.dom))
            res = []
            for k, s, v in outs:
                if k != "ok":
                    res.append((k, s, v))
                    continue
                for k2, s2, v2 in (self.exec(f["b"], s) if f["b"] is not None else [("next", s, None)]):
                    if k2 in ("next", "return"):
                        res.append(("ok", s2, v2 if k2 == "return" else None))
                    else:
                        res.append((k2, s2, v2))
        finally:
            self.stack.pop()
            self.fn.pop()
            self.frame = saved
        final = []
        for k, s, v in res:
            mine = [x for x in s.env if isinstance(x[0], int) and x[0] == fr]
            if v is not None and isinstance(v, tuple) and v and v[0] == "&":
                if v[1][0] == fr:
                    v = s.env.get(v[1], UNK)
            e = {x: y for x, y in s.env.items() if not self.under_frame(x, fr)}
            s2 = self.dom.leave(self, s, mine)
            final.append((k, St(e, s2.dom), v))
        return dedupe(final)

    @staticmethod
    def under_frame(k, fr):
        while isinstance(k[0], str) and k[0] == "fld":
            k = k[1]
        return k[0] == fr

    def inits(self, f, st):
        outs = [("ok", st, None)]
        for i in f.get("inits", []) or []:
            e = i.get("e") or i.get("init")
            if not e:
                continue
            nxt = []
            for k, s, v in outs:
                if k != "ok":
                    nxt.append((k, s, v))
                    continue
                for k2, s2, v2 in self.expr(e, s):
                    if k2 == "ok" and i.get("n"):
                        t = s2.env.get((self.frame, "this"))
                        if isinstance(t, tuple) and t and t[0] == "&":
                            s2 = with_env(s2, ("fld", t[1], i["n"]), v2)
                    nxt.append((k2, s2, v2))
            outs = dedupe(nxt)
        return outs

    # ------------------------------------------------------------ statements
    def exec(self, s, st):
        if s is None:
            return [("next", st, None)]
        m = getattr(self, "x_" + s["k"], None)
        if m is None:
            return [(("next" if k == "ok" else k), t, v) for k, t, v in self.expr(s, st)]
        return dedupe(m(s, st))

    def seq(self, items, st):
        outs = [("next", st, None)]
        for it in items:
            nxt = []
            for k, s, v in outs:
                if k == "next":
                    nxt += self.exec(it, s)
                else:
                    nxt.append((k, s, v))
            outs = dedupe(nxt)
        return outs

    def declared(self, items):
        ids = []
        for it in items:
            if it and it["k"] == "decl":
                ids += [d["id"] for d in it["d"] if "id" in d]
        return ids

    def close_scope(self, outs, ids):
        if not ids:
            return outs
        r = []
        for k, s, v in outs:
            keys = [(self.frame, i) for i in ids if (self.frame, i) in s.env]
            if keys:
                if isinstance(v, tuple) and v and v[0] == "&" and v[1] in keys:
                    v = s.env.get(v[1], UNK)
                s = self.dom.leave(self, s, keys)
                ks = set(keys)
                s = St({x: y for x, y in s.env.items() if x not in ks}, s.dom)
            r.append((k, s, v))
        return dedupe(r)

    def x_block(self, s, st):
        return self.close_scope(self.seq(s["b"], st), self.declared(s["b"]))

    def x_expr(self, s, st):
        return [("next" if k == "ok" else k, t, v if k != "ok" else None) for k, t, v in self.expr(s["e"], st)]

    def x_nop(self, s, st):
        return [("next", st, None)]

    def x_decl(self, s, st):
        outs = [("next", st, None)]
        for d in s["d"]:
            nxt = []
            for k, t, v in outs:
                if k != "next":
                    nxt.append((k, t, v))
                    continue
                nxt += self.declare(d, t)
            outs = dedupe(nxt)
        return outs

    def declare(self, d, st):
        if "id" not in d:
            return [("next", st, None)]
        key = (self.frame, d["id"])
        ini = d.get("init")
        if ini is None:
            return [("next", with_env(st, key, UNK), None)]
        r = []
        if d.get("t", "").rstrip().endswith("&"):
            for k, t, lk, v in self.lval(ini, st):
                if k != "ok":
                    r.append((k, t, v))
                else:
                    r.append(("next", with_env(t, key, ("&", lk) if lk is not None else v), None))
            return r
        for k, t, v in self.expr(ini, st, key=key):
            r.append(("next", with_env(t, key, v), None) if k == "ok" else (k, t, v))
        return r

    def x_if(self, s, st):
        outs = [("next", st, None)]
        pre = []
        if s.get("init"):
            outs = self.exec(s["init"], st)
        r = []
        for k, t, v in outs:
            if k != "next":
                r.append((k, t, v))
                continue
            c = [("next", t, None)]
            if s.get("cv"):
                c = self.declare(s["cv"], t)
            for k1, t1, v1 in c:
                if k1 != "next":
                    r.append((k1, t1, v1))
                    continue
                for k2, t2, b in self.cond(s["c"], t1):
                    if k2 != "ok":
                        r.append((k2, t2, b))
                    else:
                        br = s["x"] if b else s.get("y")
                        r += self.exec(br, t2) if br else [("next", t2, None)]
        ids = self.declared([s["init"]]) if s.get("init") else []
        if s.get("cv") and "id" in s["cv"]:
            ids.append(s["cv"]["id"])
        return self.close_scope(dedupe(r), ids)

    def x_return(self, s, st):
        if not s.get("e"):
            return [("return", st, None)]
        return [("return" if k == "ok" else k, t, v) for k, t, v in self.expr(s["e"], st)]

    def x_break(self, s, st):
        return [("break", st, None)]

    def x_continue(self, s, st):
        return [("continue", st, None)]

    def x_try(self, s, st):
        r = []
        for k, t, v in self.exec(s["b"], st):
            if k != "throw":
                r.append((k, t, v))
                continue
            exc = v[1] if isinstance(v, tuple) else "?"
            taken = False
            for h in s["h"]:
                m = self.matches(exc, h)
                if m is False:
                    continue
                c = cls(h.get("ct", "")) if not h.get("all") and m is None else exc
                r += self.handle(h, t, ("exc", c))
                if m:
                    taken = True
                    break
            if not taken:
                r.append((k, t, v))
        return r

    def handle(self, h, st, v):
        st = self.dom.catch(self, st, v, h)
        saved, self.cur_exc = getattr(self, "cur_exc", None), v
        try:
            if h.get("v") and "id" in h["v"]:
                st = with_env(st, (self.frame, h["v"]["id"]), v)
            return self.exec(h["b"], st)
        finally:
            self.cur_exc = saved

    def loop(self, st, head, body, inc, post=False):
        """head(st) -> [(ok|throw, st, bool)]"""
        outs, seen = [], set()
        cur = [st]
        turn = 0
        while cur:
            turn += 1
            if turn > self.turns:
                raise AnalysisBroken("loop does not settle in %s" % (self.fn[-1]["q"] if self.fn else "?"))
            inner = []
            undecided = False
            for t in cur:
                if post and turn == 1:
                    inner.append(t)
                    continue
                truths = head(t)
                undecided = undecided or {True, False} <= {b for k, _, b in truths if k == "ok" and b in (True, False)}
                for k, t2, b in truths:
                    if k != "ok":
                        outs.append((k, t2, b))
                    elif b:
                        inner.append(t2)
                    else:
                        outs.append(("next", t2, None))
            nxt = []
            for t in inner:
                for k, t2, v in body(t):
                    if k in ("next", "continue"):
                        if inc is not None:
                            for k3, t3, v3 in self.expr(inc, t2):
                                if k3 == "ok":
                                    nxt.append(t3)
                                else:
                                    outs.append((k3, t3, v3))
                        else:
                            nxt.append(t2)
                    elif k == "break":
                        outs.append(("next", t2, None))
                    else:
                        outs.append((k, t2, v))
            cur = []
            if turn > 30:
                nxt = [self.widen(t, nxt) for t in nxt]
            elif turn > 3 and undecided:
                # the bound is not known: forget the counters
                nxt = [St({k: UNK if isinstance(v, int) and not isinstance(v, bool) and k in st.env and st.env[k] != v else v for k, v in t.env.items()}, t.dom) for t in nxt]
            for t in nxt:
                k = t.key()
                if k not in seen:
                    seen.add(k)
                    cur.append(t)
            if len(seen) > LIMIT:
                raise AnalysisBroken("too many loop states")
        return dedupe(outs)

    def widen(self, t, all_):
        ints = {}
        for s in all_:
            for k, v in s.env.items():
                if isinstance(v, int) and not isinstance(v, bool):
                    ints.setdefault(k, set()).add(v)
        e = {k: (UNK if isinstance(v, int) and not isinstance(v, bool) and v > 25 else v) for k, v in t.env.items()}
        return St(e, t.dom)

    def x_while(self, s, st):
        return self.loop(st, lambda t: self.cond(s["c"], t) if s.get("c") else [("ok", t, True)], lambda t: self.exec(s["b"], t), None)

    def x_do(self, s, st):
        return self.loop(st, lambda t: self.cond(s["c"], t), lambda t: self.exec(s["b"], t), None, post=True)

    def x_for(self, s, st):
        r = []
        for k, t, v in (self.exec(s["init"], st) if s.get("init") else [("next", st, None)]):
            if k != "next":
                r.append((k, t, v))
                continue
            r += self.loop(t, lambda u: self.cond(s["c"], u) if s.get("c") else [("ok", u, True)], lambda u: self.exec(s["b"], u), s.get("inc"))
        return self.close_scope(dedupe(r), self.declared([s["init"]]) if s.get("init") else [])

    def x_rfor(self, s, st):
        r = []
        var = s["v"]
        key = (self.frame, var["id"]) if "id" in var else None
        for k, t, lk, v in self.lval(s["range"], st):
            if k != "ok":
                r.append((k, t, v))
                continue
            if v is None and lk is not None:
                v = self.deref(t, lk)
            if isinstance(v, tuple) and v and v[0] == "list":
                outs = [("next", t, None)]
                for x in v[1:]:
                    nxt = []
                    for k1, t1, v1 in outs:
                        if k1 != "next":
                            nxt.append((k1, t1, v1))
                            continue
                        t1 = with_env(t1, key, x) if key else t1
                        for k2, t2, v2 in self.exec(s["b"], t1):
                            nxt.append(("next" if k2 == "continue" else k2, t2, v2))
                    outs = dedupe(nxt)
                r += [("next" if k1 == "break" else k1, t1, v1) for k1, t1, v1 in outs]
            else:
                el = ("op", "element", v) if v not in (UNK, None) else UNK

                def body(u):
                    if key:
                        u = with_env(u, key, el)
                    return self.exec(s["b"], u)
                r += self.loop(t, lambda u: [("ok", u, True), ("ok", u, False)], body, None)
        return self.close_scope(dedupe(r), [var["id"]] if "id" in var else [])

    def x_switch(self, s, st):
        r = []
        items = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        for k, t, v in self.expr(s["c"], st):
            if k != "ok":
                r.append((k, t, v))
                continue
            starts = [i for i, x in enumerate(items) if x["k"] in ("case", "default")]
            if not any(items[i]["k"] == "default" for i in starts):
                r.append(("next", t, None))
            for i in starts:
                for k2, t2, v2 in self.seq(items[i:], t):
                    r.append(("next" if k2 == "break" else k2, t2, v2))
        return dedupe(r)

    def x_case(self, s, st):
        return self.exec(s["b"], st)

    x_default = x_case

    def x_otherstmt(self, s, st):
        return [("next", st, None)]

    # ------------------------------------------------------------ conditions
    def cond(self, e, st):
        """[(ok, st, bool) | (throw, st, v)]"""
        k = e["k"]
        if k == "un" and e["op"] == "!":
            return [(a, s, (not b) if a == "ok" else b) for a, s, b in self.cond(e["e"], st)]
        if k == "cast" and "Bool" in e.get("ck", ""):
            return self.cond(e["e"], st)
        if k == "bin" and e["op"] in ("&&", "||"):
            r = []
            for a, s, b in self.cond(e["x"], st):
                if a != "ok" or b == (e["op"] == "||"):
                    r.append((a, s, b))
                else:
                    r += self.cond(e["y"], s)
            return dedupe(r)
        r = []
        for a, s, v in self.expr(e, st):
            if a != "ok":
                r.append((a, s, v))
                continue
            for s2, b in self.truth(s, v, e):
                r.append(("ok", s2, b))
        return dedupe(r)

    def truth(self, st, v, e):
        if isinstance(v, bool):
            return [(st, v)]
        if isinstance(v, int):
            return [(st, v != 0)]
        if v == ("null",):
            return [(st, False)]
        d = self.dom.bool(self, st, v)
        if d is not None:
            return d
        if isinstance(v, tuple) and v and v[0] == "obj":
            return [(st, True)]
        # refine the variable that was tested
        key = self.simple_lkey(e, st)
        if key is not None:
            return [(with_env(st, key, True), True), (with_env(st, key, False), False)]
        if isinstance(v, tuple) and v and v[0] == "op":
            a = st.env.get(("asm", v))
            if a is not None:
                return [(st, a)]
            return [(with_env(st, ("asm", v), True), True), (with_env(st, ("asm", v), False), False)]
        return [(st, True), (st, False)]

    def simple_lkey(self, e, st):
        if e["k"] == "var" and "id" in e and e.get("t", "").replace("const ", "") in ("bool", "int"):
            k = (self.frame, e["id"])
            while isinstance(st.env.get(k), tuple) and st.env[k] and st.env[k][0] == "&":
                k = st.env[k][1]
            if st.env.get(k) == UNK:
                return k
        return None

    # ----------------------------------------------------------- expressions
    def deref(self, st, k):
        n = 0
        while True:
            v = st.env.get(k, UNK)
            if isinstance(v, tuple) and v and v[0] == "&" and n < 50:
                k = v[1]
                n += 1
                continue
            return v

    def resolve(self, st, k):
        n = 0
        while isinstance(st.env.get(k), tuple) and st.env[k] and st.env[k][0] == "&" and n < 50:
            k = st.env[k][1]
            n += 1
        return k

    def lval(self, e, st):
        """[(kind, st, key or None, value)]"""
        k = e["k"]
        if k == "var":
            if "id" in e:
                key = self.resolve(st, self.varkey(e["id"], st))
                return [("ok", st, key, st.env.get(key, UNK))]
            key = ("g", e.get("g") or e.get("n"))
            return [("ok", st, key, st.env.get(key, ("op", "global", e.get("g") or e.get("n"))))]
        if k == "this":
            t = st.env.get((self.frame, "this"), UNK)
            if isinstance(t, tuple) and t and t[0] == "&":
                return [("ok", st, t[1], st.env.get(t[1], UNK))]
            return [("ok", st, None, t)]
        if k == "field":
            r = []
            for a, s, key, v in self.lval(e["e"], st):
                if a != "ok":
                    r.append((a, s, key, v))
                    continue
                if key is None:
                    base = v
                    key2 = ("fld", ("val", base), e["n"]) if base != UNK else None
                else:
                    key2 = self.resolve(s, ("fld", key, e["n"]))
                val = s.env.get(key2, UNK) if key2 is not None else UNK
                if val == UNK and key2 is not None and key is not None and isinstance(s.env.get(key), tuple):
                    val = ("op", "field", e["n"], s.env[key])
                r.append(("ok", s, key2, val))
            return r
        if k == "un" and e["op"] == "*":
            return [(a, s, None if a == "ok" else None, (v if v == UNK else ("op", "deref", v)) if a == "ok" else v) for a, s, v in self.expr(e["e"], st)]
        if k == "cond":
            r = []
            for a, s, b in self.cond(e["c"], st):
                if a != "ok":
                    r.append((a, s, None, b))
                else:
                    r += self.lval(e["x"] if b else e["y"], s)
            return r
        if k == "call" and e.get("q", "") in ("std::move", "std::forward", "std::as_const"):
            return self.lval(e["a"][0], st)
        if k in ("constcast", "reinterpret"):
            return self.lval(e["e"], st)
        r = []
        for a, s, v in self.expr(e, st):
            if a == "ok" and isinstance(v, tuple) and v and v[0] == "&":
                r.append((a, s, self.resolve(s, v[1]), self.deref(s, v[1])))
            else:
                r.append((a, s, None, v))
        return r

    def varkey(self, i, st):
        k = (self.frame, i)
        if k in st.env:
            return k
        for fr in getattr(self, "outer", {}).get(self.frame, ()):
            if (fr, i) in st.env:
                return (fr, i)
        return k

    def expr(self, e, st, key=None):
        """[(ok|throw|exit, st, value)]"""
        if e is None:
            return [("ok", st, None)]
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            return self.generic(e, st)
        return dedupe(m(e, st, key) if e["k"] == "ctor" else m(e, st))

    def generic(self, e, st):
        """operands in order, unknown value"""
        subs = []
        for kk in ("e", "x", "y", "a"):
            v = e.get(kk)
            subs += v if isinstance(v, list) else [v] if isinstance(v, dict) else []
        return [(k, s, UNK if k == "ok" else v) for k, s, v in self.operands(subs, st)]

    def operands(self, es, st):
        outs = [("ok", st, ())]
        for x in es:
            nxt = []
            for k, s, vs in outs:
                if k != "ok":
                    nxt.append((k, s, vs))
                    continue
                for k2, s2, v2 in self.expr(x, s):
                    nxt.append((k2, s2, vs + (v2,)) if k2 == "ok" else (k2, s2, v2))
            outs = dedupe(nxt)
        return outs

    def largs(self, es, pr, st):
        """arguments with their locations: [(kind, st, (values), (keys))]"""
        outs = [("ok", st, (), ())]
        for i, x in enumerate(es):
            nxt = []
            for k, s, vs, ks in outs:
                if k != "ok":
                    nxt.append((k, s, vs, ks))
                    continue
                for k2, s2, lk, v2 in self.lval(x, s):
                    if k2 == "ok":
                        nxt.append((k2, s2, vs + (v2,), ks + (lk,)))
                    else:
                        nxt.append((k2, s2, v2, ()))
            outs, seen = [], set()
            for o in nxt:
                kk = (o[0], o[1].key(), o[2], o[3])
                if kk not in seen:
                    seen.add(kk)
                    outs.append(o)
        return outs

    def e_int(self, e, st):
        return [("ok", st, int(e["v"]))]

    def e_bool(self, e, st):
        return [("ok", st, bool(e["v"]))]

    def e_float(self, e, st):
        return [("ok", st, ("op", "float", e.get("s")))]

    def e_str(self, e, st):
        return [("ok", st, ("s", e.get("v", "?")))]

    def e_enum(self, e, st):
        return [("ok", st, ("op", "enum", e["n"]))]

    def e_nullptr(self, e, st):
        return [("ok", st, ("null",))]

    def e_zero(self, e, st):
        return [("ok", st, UNK)]

    def e_sizeof(self, e, st):
        return [("ok", st, UNK)]

    def e_null(self, e, st):
        return [("ok", st, None)]

    def e_fnref(self, e, st):
        return [("ok", st, ("fn", e.get("fn")))]

    def e_var(self, e, st):
        return [(k, s, v) for k, s, _, v in self.lval(e, st)]

    e_field = e_var

    def e_ref(self, e, st):
        return [("ok", st, UNK)]

    def e_this(self, e, st):
        return [("ok", st, st.env.get((self.frame, "this"), UNK))]

    def e_cast(self, e, st):
        r = []
        for k, s, v in self.expr(e["e"], st):
            r.append((k, s, v))
        return r

    e_constcast = e_reinterpret = e_dyncast = e_cast

    def e_stdinit(self, e, st):
        return self.expr(e["e"], st)

    def e_init(self, e, st):
        return [(k, s, (("list",) + v) if k == "ok" else v) for k, s, v in self.operands(e.get("a", []), st)]

    def e_cond(self, e, st):
        r = []
        for k, s, b in self.cond(e["c"], st):
            r += [(k, s, b)] if k != "ok" else self.expr(e["x"] if b else e["y"], s)
        return r

    def e_un(self, e, st):
        op = e["op"]
        if op == "!":
            return [(k, s, b) for k, s, b in self.cond(e, st)]
        if op in ("++", "--"):
            r = []
            for k, s, lk, v in self.lval(e["e"], st):
                if k != "ok":
                    r.append((k, s, v))
                    continue
                nv = v + (1 if op == "++" else -1) if isinstance(v, int) and not isinstance(v, bool) else UNK
                s = with_env(s, lk, nv) if lk is not None else s
                r.append((k, s, v if e.get("post") else nv))
            return r
        if op == "&":
            return [(k, s, ("&p", lk) if lk is not None and k == "ok" else v) for k, s, lk, v in self.lval(e["e"], st)]
        if op == "-":
            return [(k, s, (-v if isinstance(v, int) and not isinstance(v, bool) else UNK) if k == "ok" else v) for k, s, v in self.expr(e["e"], st)]
        return self.generic(e, st)

    def e_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            return self.cond(e, st)
        if op == ",":
            r = []
            for k, s, v in self.expr(e["x"], st):
                r += self.expr(e["y"], s) if k == "ok" else [(k, s, v)]
            return r
        r = []
        for k, s, v in self.operands([e["x"], e["y"]], st):
            r.append((k, s, self.arith(op, *v)) if k == "ok" else (k, s, v))
        return r

    def arith(self, op, a, b):
        num = lambda x: isinstance(x, int)
        if num(a) and num(b):
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<": lambda: a < b, ">": lambda: a > b,
                        "<=": lambda: a <= b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b,
                        "%": lambda: a % b, "|": lambda: a | b, "&": lambda: a & b}[op]()
            except (KeyError, ZeroDivisionError):
                return UNK
        if op in ("==", "!="):
            n = ("null",)
            if n in (a, b):
                o = b if a == n else a
                if o == n or (isinstance(o, tuple) and o and o[0] == "obj"):
                    return (o == n) == (op == "==")
            if UNK not in (a, b) and a == b:
                return op == "=="
            if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ("s",) and b[:1] == ("s",):
                return (a == b) == (op == "==")
        if UNK in (a, b) or a is None or b is None:
            return UNK
        return ("op", op, a, b)

    def e_assign(self, e, st):
        r = []
        for k, s, v in self.expr(e["y"], st):
            if k != "ok":
                r.append((k, s, v))
                continue
            for k2, s2, lk, old in self.lval(e["x"], s):
                if k2 != "ok":
                    r.append((k2, s2, old))
                    continue
                if e["op"] != "=":
                    v2 = self.arith(e["op"][:-1], old, v)
                else:
                    v2 = v
                r.append((k2, self.store(s2, lk, v2), v2))
        return r

    def store(self, st, lk, v):
        if lk is None:
            return st
        lk = self.resolve(st, lk)
        env = {k: x for k, x in st.env.items() if not (k[0] == "fld" and self.inside(k, lk))}
        env[lk] = v
        return St(env, st.dom)

    @staticmethod
    def inside(k, root):
        while k[0] == "fld":
            k = k[1]
            if k == root:
                return True
        return False

    def e_index(self, e, st):
        return self.generic(e, st)

    def e_lambda(self, e, st):
        i = id(e)
        self.lams[i] = (e, self.frame, self.fn[-1] if self.fn else None)
        env = dict(st.env)
        for c in e.get("cap", []):
            if c.get("init") is not None and "id" in c:
                env[(self.frame, c["id"])] = UNK
        return [("ok", St(env, st.dom), ("lam", i))]

    def call_lambda(self, lam, st, vals, keys, fn=None):
        e, fr, f = self.lams[lam[1]]
        e = instance(e, fn) or instance(e, ([i["fn"] for i in e.get("insts", [])] or [None])[0])
        if e is None:
            return [("ok", st, UNK), ("throw", st, ("exc", "?"))]
        if i_in(self.stack, lam) or len(self.stack) > 40:
            return [("ok", st, UNK), ("throw", st, ("exc", "?"))]
        self.nframe += 1
        nf = self.nframe
        self.outer = dict(getattr(self, "outer", {}))
        self.outer[nf] = (fr,) + tuple(self.outer.get(fr, ()))
        env = dict(st.env)
        for i, p in enumerate(e.get("p", [])):
            k = keys[i] if i < len(keys) else None
            v = vals[i] if i < len(vals) else UNK
            env[(nf, p["id"])] = ("&", k) if k is not None and p["by"] in ("r", "c", "m") else v
        env[(nf, "this")] = env.get((fr, "this"), UNK)
        saved, self.frame = self.frame, nf
        self.stack.append(lam)
        try:
            res = self.exec(e["b"], St(env, st.dom))
        finally:
            self.stack.pop()
            self.frame = saved
        r = []
        for k, s, v in res:
            mine = [x for x in s.env if isinstance(x[0], int) and x[0] == nf]
            if isinstance(v, tuple) and v and v[0] == "&" and v[1] and v[1][0] == nf:
                v = s.env.get(v[1], UNK)
            s2 = self.dom.leave(self, s, mine)
            r.append(("ok" if k in ("next", "return") else k, St({x: y for x, y in s.env.items() if not self.under_frame(x, nf)}, s2.dom), v if k != "next" else None))
        return dedupe(r)

    def e_throw(self, e, st):
        if not e.get("e"):
            return [("throw", st, getattr(self, "cur_exc", None) or ("exc", "?"))]
        r = []
        for k, s, v in self.expr(e["e"], st):
            if k != "ok":
                r.append((k, s, v))
                continue
            if isinstance(v, tuple) and v and v[0] == "exc":
                r.append(("throw", s, v))
            else:
                r.append(("throw", s, ("exc", cls(e["e"].get("t", "?")))))
        return r

    def e_new(self, e, st):
        return self.generic(e, st)

    def e_ctor(self, e, st, key=None):
        r = []
        args = e.get("a", [])
        for o in self.largs(args, e.get("pr", ""), st):
            if o[0] != "ok":
                r.append(o[:3])
                continue
            _, s, vals, keys = o
            d = self.dom.ctor(self, s, e, vals, key)
            if d is not None:
                r += d
                continue
            if len(args) == 1 and (e.get("copy") or e.get("move")):
                r.append(("ok", s, vals[0]))
                continue
            t = e.get("rc") or e.get("t", "")
            if self.isa(cls(t), "std::exception"):
                r.append(("ok", s, ("exc", cls(t))))
                continue
            f = self.P.functions.get(e.get("fn"))
            if f is not None and e.get("in") and f["b"] is not None and self.dom.relevant(f) and key is not None:
                r += [(k2, s2, self.deref(s2, key) if k2 == "ok" else v2)
                      for k2, s2, v2 in self.call_fn(f, with_env(s, key, self.fresh(t)), vals, keys, None, key, e)]
                continue
            real = [v for a, v in zip(args, vals) if not (a.get("k") == "ctor" and "allocator" in (a.get("rc") or ""))
                    and not (a.get("k") == "enum" and "auto_format" in a.get("n", ""))]
            if len(real) == 1 and is_plain(t):
                v = real[0]
            elif not real:
                v = UNK
            else:
                v = UNK if UNK in real else ("op", "make") + tuple(real)
            r.append(("ok", s, v))
            if e.get("in"):
                r.append(("throw", s, ("exc", "?")))
        return r

    def e_call(self, e, st):
        if e.get("callee") and "fn" not in e:
            r = []
            for k, s, v in self.expr(e["callee"], st):
                if k != "ok":
                    r.append((k, s, v))
                    continue
                for o in self.largs(e.get("a", []), "", s):
                    r += [o[:3]] if o[0] != "ok" else self.apply(v, o[1], o[2], o[3], e)
            return r
        r = []
        for o in self.largs(e.get("a", []), e.get("pr", ""), st):
            r += [o[:3]] if o[0] != "ok" else self.invoke(e, o[1], None, None, o[2], o[3])
        return r

    def apply(self, v, st, vals, keys, e):
        if isinstance(v, tuple) and v and v[0] == "lam":
            return self.call_lambda(v, st, vals, keys, e.get("fn"))
        if isinstance(v, tuple) and v and v[0] == "fn" and v[1] in self.P.functions:
            return self.call_fn(self.P.functions[v[1]], st, vals, keys, None, None, e)
        return self.unknown(e, st, None, vals, keys)

    def e_mcall(self, e, st):
        r = []
        for k, s, lk, v in self.lval(e["e"], st):
            if k != "ok":
                r.append((k, s, v))
                continue
            for o in self.largs(e.get("a", []), e.get("pr", ""), s):
                r += [o[:3]] if o[0] != "ok" else self.invoke(e, o[1], v, lk, o[2], o[3])
        return r

    def e_opcall(self, e, st):
        r = []
        a = e["a"]
        if e.get("op") == "=" and len(a) == 2:
            for o in self.largs(a, e.get("pr", ""), st):
                if o[0] != "ok":
                    r.append(o[:3])
                    continue
                d = self.dom.call(self, o[1], e.get("q", ""), e, o[2][0], o[3][0], o[2][1:], o[3][1:])
                if d is not None:
                    r += d
                else:
                    r.append(("ok", self.store(o[1], o[3][0], o[2][1]), o[2][1]))
            return r
        for o in self.largs(a, e.get("pr", ""), st):
            if o[0] != "ok":
                r.append(o[:3])
                continue
            _, s, vals, keys = o
            if e.get("opm") or e.get("op") == "()":
                if isinstance(vals[0], tuple) and vals[0] and vals[0][0] in ("lam", "fn") and e.get("op") == "()":
                    r += self.apply(vals[0], s, vals[1:], keys[1:], e)
                else:
                    r += self.invoke(e, s, vals[0], keys[0], vals[1:], keys[1:])
            else:
                r += self.invoke(e, s, None, None, vals, keys)
        return r

    def invoke(self, e, st, recv, rkey, vals, keys):
        q = e.get("q", "")
        d = self.dom.call(self, st, q, e, recv, rkey, vals, keys)
        if d is not None:
            return d
        f = self.P.functions.get(e.get("fn"))
        if f is not None and e.get("in"):
            from sem import noreturn
            x = noreturn(self.P, f)
            if x:
                return [("throw", st, ("exc", cls(x)))]
            if f["b"] is not None and self.dom.relevant(f) and not e.get("virt"):
                return self.call_fn(f, st, vals, keys, recv, rkey, e)
        if q in ("exit", "std::exit", "abort", "std::abort", "_exit", "quick_exit", "std::quick_exit", "std::terminate"):
            return [("exit", st, vals[0] if vals else 1)]
        return self.unknown(e, st, rkey, vals, keys, recv)

    def unknown(self, e, st, rkey, vals, keys, recv=None):
        pr = e.get("pr", "")
        off = 0
        if e["k"] == "opcall" and e.get("opm"):
            off = 0
        for i, lk in enumerate(keys):
            p = pr[i + off:i + off + 1]
            if lk is not None and p in ("r", "m") and not tracked(vals[i]):
                st = self.store(st, lk, UNK)
            elif isinstance(vals[i], tuple) and vals[i] and vals[i][0] == "&p" and p == "p" and not tracked(self.deref(st, vals[i][1])):
                st = self.store(st, vals[i][1], UNK)
        if rkey is not None and e["k"] in ("mcall", "opcall") and not e.get("mc") and not tracked(recv):
            if not tracked(st.env.get(rkey)):
                st = self.store(st, rkey, UNK)
        pure = e["k"] == "mcall" and e.get("mc") or e["k"] == "opcall" and e.get("q", "").split("::")[-1] in PURE_OPS or e.get("q") in PURE_FN
        v = UNK
        parts = ((recv,) if recv is not None or e["k"] == "mcall" else ()) + tuple(vals)
        if pure and UNK not in parts and not any(contains_unk(x) for x in parts):
            v = ("op", e.get("q", "?")) + parts
        r = [("ok", st, v)]
        if self.dom.may_throw and not silent(e):
            r.append(("throw", st, ("exc", "?")))
        return r


PURE_OPS = {"operator/", "operator+", "operator==", "operator!=", "operator<", "operator|", "operator&"}
PURE_FN = {"std::filesystem::absolute", "std::to_string", "std::filesystem::path::path"}


def contains_unk(v):
    if v == UNK:
        return True
    return isinstance(v, tuple) and any(contains_unk(x) for x in v)


def tracked(v):
    return isinstance(v, tuple) and bool(v) and v[0] in ("obj", "lam", "fn")


def i_in(l, x):
    return any(y == x for y in l if isinstance(y, tuple))


def is_plain(t):
    t = t.replace("const ", "")
    return t.startswith(("std::filesystem::path", "std::basic_string", "std::vector", "std::initializer_list", "std::function")) or "basic_string_view" in t


SILENT = ("std::cout", "std::cerr", "std::clog")


def base_stream(e):
    """the stream expression at the left end of an output chain"""
    while e.get("k") in ("opcall",) and e.get("op") == "<<" and e.get("a"):
        e = e["a"][0]
    return e


def silent(e):
    """output to the console, conversions of paths: exceptions are not considered"""
    if e.get("k") == "opcall" and e.get("op") == "<<":
        b = base_stream(e)
        return b.get("k") == "var" and b.get("g") in SILENT
    q = e.get("q", "")
    return q.startswith(("std::filesystem::path::", "std::basic_string", "std::exception::", "std::chrono")) or q in ("std::filesystem::operator/", "std::endl")
