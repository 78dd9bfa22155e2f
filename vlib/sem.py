"""Gated effect summaries.

A function of the resolved program is summarised in one forward pass over its
syntax tree: every variable carries a term, control-flow joins become gates
(ite terms), loops become iteration domains, calls to functions of the
repository are inlined, calls to anything else are kept as opaque terms, and
every write to non-local memory, opaque call, throw and return is recorded as
an effect together with the gate condition and the loop domains under which it
happens.  No path is executed or enumerated and no solver is asked."""
import json
import re
from fractions import Fraction as Fr
from alg import *
from program import AnalysisBroken, instance


class Eff:
    __slots__ = ("kind", "d", "pc", "core", "loops", "tries", "line", "fn", "chain", "seq")

    def __init__(self, kind, d, pc, core, loops, tries, line, fn, chain, seq):
        self.kind, self.d, self.pc, self.loops, self.tries = kind, d, pc, loops, tries
        self.core = core   # pc without the facts "no exception was thrown before"
        self.line, self.fn, self.chain, self.seq = line, fn, chain, seq

    @property
    def guard(self):
        """gate condition, exception exits left aside"""
        return band(*self.core)

    def where(self):
        return "%s:%d (%s)" % (self.fn["file"], self.line, self.fn["q"])

    def __repr__(self):
        d = {k: (show(v) if isinstance(v, T) else v) for k, v in self.d.items() if k not in ("node",)}
        return "%s %s | pc=%s loops=%s tries=%s @%s:%d" % (
            self.kind, d, show(band(*self.pc)), [show(x) for x in self.loops], self.tries, self.fn["n"], self.line)


class State:
    __slots__ = ("env", "pc", "dead")

    def __init__(self, env=None, pc=(), dead=False):
        self.env, self.pc, self.dead = env if env is not None else {}, tuple(pc), dead

    def copy(self):
        return State(dict(self.env), self.pc, self.dead)

    def set(self, o):
        self.env, self.pc, self.dead = o.env, o.pc, o.dead

    def assume(self, c):
        if c is FALSE:
            self.dead = True
        elif c is not TRUE:
            if bnot(c) in self.pc:
                self.dead = True
            elif c not in self.pc:
                self.pc = self.pc + (c,)


class Frame:
    def __init__(self, fn, parent, this, thiscls):
        self.fn, self.parent, self.this, self.thiscls = fn, parent, this, thiscls
        self.vars = {}
        self.returns = []   # (state, value)
        self.throws = []    # pcs
        self.depth = 0 if parent is None else parent.depth + 1
        self.retref = False


SMALLV = re.compile(r"Eigen::(?:Matrix|Array)<double, (\d+), (\d+)")
ARITH = {"double", "float", "int", "long", "unsigned int", "unsigned long", "long double", "short", "bool",
         "long long", "unsigned long long", "char", "unsigned char", "signed char", "unsigned short"}
INTS = ARITH - {"double", "float", "long double"}


def strip_cv(t):
    t = (t or "").strip()
    while True:
        u = t
        for p in ("const ", "volatile "):
            if u.startswith(p):
                u = u[len(p):]
        for s in (" &&", " &", " const", "&&", "&"):
            if u.endswith(s):
                u = u[: -len(s)]
        u = u.strip()
        if u == t:
            return t
        t = u


def small_dims(t):
    m = SMALLV.match(strip_cv(t))
    return (int(m.group(1)), int(m.group(2))) if m else None


VIEW = re.compile(r"Eigen::(?:Ref|Block|VectorBlock)<")


def is_view(t):
    """Eigen expression types that refer to someone else's storage"""
    return bool(VIEW.match(strip_cv(t)))


def unview(e):
    """strip conversions between views"""
    while e["k"] == "ctor" and is_view(e.get("t")) and e.get("a"):
        e = e["a"][0]
    return e


def is_int(t):
    t = strip_cv(t)
    return t in INTS


def emplaced(t, vals):
    """the element std::vector<E>::emplace_back(vals...) appends; None when it is not modelled"""
    i, d, n = t.find("<") + 1, 0, 0
    for n in range(i, len(t)):
        d += (t[n] in "<(") - (t[n] in ">)")
        if d < 0 or (d == 0 and t[n] == ","):
            break
    el = strip_cv(t[i:n].strip())
    if el.startswith("std::pair<") or el.startswith("std::tuple<"):
        return mk("tup", *vals) if len(vals) > 1 else vals[0] if vals and vals[0].op in ("tup", "list") else None
    return vals[0] if len(vals) == 1 else None


def is_scalar(t):
    return strip_cv(t) in ARITH or strip_cv(t).startswith("enum ")


class Hierarchy:
    def __init__(self, P):
        self.P = P
        self.rec = P.records
        self.subs = {}
        for n, r in self.rec.items():
            for b in r["bases"]:
                self.subs.setdefault(b["t"], set()).add(n)
        self.method_by_key = {}
        for n, r in self.rec.items():
            for m in r["methods"]:
                self.method_by_key.setdefault(m["key"], (n, m))

    def bases(self, n):
        """n and all its (transitive) bases, derived first"""
        out, q = [], [n]
        while q:
            x = q.pop(0)
            if x in out:
                continue
            out.append(x)
            r = self.rec.get(x)
            if r:
                q += [b["t"] for b in r["bases"]]
        return out

    def derived(self, n):
        out, q = [], [n]
        while q:
            x = q.pop(0)
            if x in out:
                continue
            out.append(x)
            q += sorted(self.subs.get(x, ()))
        return out

    def isa(self, n, b):
        return b in self.bases(n)

    def concrete(self, base=None):
        for n, r in self.rec.items():
            if not r["abstract"] and (base is None or self.isa(n, base)):
                yield n

    def overrides_closure(self, key):
        """key of a method -> set of keys it (transitively) overrides, incl. itself"""
        out, q = set(), [key]
        while q:
            k = q.pop()
            if k in out:
                continue
            out.add(k)
            e = self.method_by_key.get(k)
            if e:
                q += e[1]["over"]
        return out

    def final_overrider(self, cls, key):
        """most derived method of cls that overrides method `key` (or is it)"""
        for c in self._linear(cls):
            r = self.rec.get(c)
            if not r:
                continue
            for m in r["methods"]:
                if key in self.overrides_closure(m["key"]):
                    return m["key"], c
        return None, None

    def _linear(self, cls):
        # derived-to-base order such that a class precedes all of its bases
        out = []

        def visit(c):
            if c in out:
                return
            for b in reversed(self.rec[c]["bases"] if c in self.rec else []):
                visit(b["t"])
            out.append(c)
        visit(cls)
        return list(reversed(out))

    def find_method(self, cls, name, nparams=None):
        for c in self._linear(cls):
            for m in self.rec.get(c, {"methods": []})["methods"]:
                if m["n"] == name and (nparams is None or len(m["p"]) == nparams):
                    return m, c
        return None, None

    def unique_impl(self, key):
        """virtual method -> the only concrete implementation in the program, if unique"""
        e = self.method_by_key.get(key)
        if not e:
            return None
        impls = set()
        for c in self.derived(e[0]):
            r = self.rec.get(c)
            if r and not r["abstract"]:
                k, _ = self.final_overrider(c, key)
                impls.add(k)
        if len(impls) == 1:
            return next(iter(impls))
        return None


PURE_FN = {"sin": "sin", "cos": "cos", "tan": "tan", "exp": "exp", "log": "log", "sinh": "sinh",
           "cosh": "cosh", "tanh": "tanh", "atan": "atan", "ceil": "ceil", "floor": "floor",
           "round": "round", "trunc": "trunc", "isnan": "isnan", "isfinite": "isfinite", "isinf": "isinf",
           "atan2": "atan2", "asin": "asin", "acos": "acos", "fmod": "fmod"}


def iter_nodes(n):
    """all tree nodes (dicts with a kind) below n, n included; bodies of
    lambdas are included too"""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            stack.extend(v for v in x if isinstance(v, (dict, list)))


def noreturn(P, f, _seen=()):
    """class thrown by a free function that always throws, else None"""
    if "noret" in f:
        return f["noret"]
    if f["q"] in _seen or f["b"] is None or f.get("rc"):
        return None
    r = None
    b = f["b"]
    if b.get("k") == "block" and b["b"] and not any(x["k"] == "return" for x in iter_nodes(b)):
        last = b["b"][-1]
        e = last.get("e") if last.get("k") == "expr" else None
        if e and e["k"] == "throw" and e.get("e"):
            r = strip_cv(e["e"].get("t") or "?")
        elif e and e["k"] == "call" and e.get("fn") in P.functions:
            r = noreturn(P, P.functions[e["fn"]], _seen + (f["q"],))
    f["noret"] = r
    return r


class Evaluator:
    MAXDEPTH = 25

    fork = 0        # data-dependent loops: iterations kept apart before the rest is cut off
    keep = None     # (receiver location, function) -> keep the call opaque

    def __init__(self, P, H=None, opaque=None, devirt=True, inline=None):
        """opaque(fnrec)->True to keep a repository function opaque"""
        self.P = P
        self.H = H or Hierarchy(P)
        self.opaque = opaque or (lambda f: False)
        self.devirt = devirt
        self.fresh = 0
        self.effs = []
        self.loops = ()
        self.tries = ()
        self.trystack = []
        self.loopstack = []
        self.cuts = []
        self.mute = 0
        self.dyntype = {}      # location -> exact dynamic class
        self.inlined = set()
        self.notes = set()
        self.exitfacts = set()
        self.vectors = True
        self.valuation = None  # symbol -> Fraction: decides comparisons in one region of the parameter space
        self.exact_exc = False   # an exception in a try block without unknown calls comes from a throw that was seen
        self.stub = None     # models of kept callees: (ev, st, q, name, recv, locs, vals, line, node) -> value or None
        self.unroll = 16

    # ------------------------------------------------------------------ entry
    def run(self, key, this_cls=None, args=None, this=None, env=None, pc=()):
        """summarise function `key`; returns Summary"""
        f = self.P.functions[key]
        this = this if this is not None else (mk("this") if "rc" in f and not f.get("ms") else None)
        if this is not None and this_cls:
            self.dyntype[this] = this_cls
        st = State(dict(env or {}), pc)
        argv = []
        for i, p in enumerate(f["p"]):
            argv.append((args or {}).get(i, mk("par", i, p["n"])))
        self.cur = None
        val, frame = self.call_function(f, this, this_cls or f.get("rc"), argv, st, None, toplevel=True)
        return Summary(f, self.effs, st, val, frame, self)

    def emit(self, kind, st, line, **d):
        if self.mute or st.dead:
            return None
        chain = []
        fr = self.cur
        while fr is not None:
            chain.append((fr.fn["q"], getattr(fr, "callline", 0)))
            fr = fr.parent
        core = tuple(c for c in st.pc if c not in self.exitfacts)
        e = Eff(kind, d, st.pc, core, self.loops, self.tries, line, self.cur.fn, tuple(chain), len(self.effs))
        self.effs.append(e)
        return e

    # ------------------------------------------------------------------ memory
    @staticmethod
    def root(loc):
        while loc.op in ("fld", "elt", "tget"):
            loc = loc.args[0]
        return loc

    def assume_exit(self, st, c):
        """a fact that holds because an exception would have been thrown otherwise"""
        if c not in st.pc:
            self.exitfacts.add(c)
        st.assume(c)

    def read(self, st, loc):
        env = st.env
        v = env.get(loc)
        if v is not None:
            r = v
        elif loc.op in ("fld", "elt", "tget"):
            r = self._read_sub(st, loc)
        else:
            r = loc
        # overlay of sub-locations
        subs = [(k, env[k]) for k in env if k is not loc and k.op in ("fld", "elt") and self._under(k, loc)]
        if subs:
            r = self._overlay(r, loc, subs)
        return r

    @staticmethod
    def _under(k, loc):
        while k.op in ("fld", "elt", "tget"):
            k = k.args[0]
            if k is loc:
                return True
        return False

    def _overlay(self, r, loc, subs):
        direct = [(k, v) for k, v in subs if k.args[0] is loc]
        if r.op in ("jobj", "list", "obj") or jnull(r):
            m = self._materialise(r, loc, subs)
            if m is not None:
                return m
        if r.op == "vec" and all(k.op == "elt" and is_num(k.args[1]) for k, _ in direct) and len(direct) == len(subs):
            items = list(r.args)
            for k, v in direct:
                items[int(k.args[1].args[0])] = v
            return mk("vec", *items)
        ent = tuple(sorted(((self._rel(k, loc), v) for k, v in subs), key=lambda kv: (skey(kv[0]), skey(kv[1]))))
        return mk("with", r, ent)

    def _materialise(self, r, loc, subs):
        """writes at literal keys and members of a value of known shape"""
        rel = []
        for k, v in subs:
            path = []
            while k is not loc:
                if k.op == "fld":
                    path.append(("f", k.args[1]))
                elif k.op == "elt" and (k.args[1].op == "str" or is_num(k.args[1])):
                    path.append(("e", k.args[1]))
                else:
                    return None
                k = k.args[0]
            rel.append((path[::-1], v))

        def put(d, path, v):
            if not path:
                return v
            kind, k = path[0]
            if kind == "f":
                if d.op != "obj":
                    return None
                items = dict(d.args[1])
                if k not in items:
                    if len(path) > 1:
                        return None
                    items[k] = mk("void")
                n = put(items[k], path[1:], v)
                if n is None:
                    return None
                items[k] = n
                return mk("obj", d.args[0], tuple(sorted(items.items())))
            if k.op == "str":
                if jnull(d):
                    d = mk("jobj", ())
                if d.op != "jobj":
                    return None
                items = dict(d.args[0])
                old = items.get(k.args[0], mk("elt", d, k))
                n = put(old, path[1:], v)
                if n is None:
                    return None
                items[k.args[0]] = n
                return mk("jobj", tuple(sorted(items.items())))
            i = k.args[0]
            if d.op not in ("list", "vec") or i.denominator != 1 or not 0 <= i < len(d.args):
                return None
            n = put(d.args[int(i)], path[1:], v)
            return None if n is None else mk(d.op, *[n if j == int(i) else x for j, x in enumerate(d.args)])
        for path, v in sorted(rel, key=lambda x: len(x[0])):
            r = put(r, path, v)
            if r is None:
                return None
        return r

    @staticmethod
    def _rel(k, loc):
        path = []
        while k is not loc:
            path.append(mk("f." + k.args[1]) if k.op == "fld" else k.args[1])
            k = k.args[0]
        path.reverse()
        return path[0] if len(path) == 1 else mk("path", *path)

    def _read_sub(self, st, loc):
        env = st.env
        base = loc.args[0]
        if loc.op == "elt":
            # possible aliases among written elements
            cands = [(k, env[k]) for k in env if k.op == "elt" and k.args[0] is base]
            alias = []
            for k, v in cands:
                d = sub(k.args[1], loc.args[1])
                if is_num(d) and d.args[0] != 0:
                    continue
                if k.args[1].op == "str" and loc.args[1].op == "str":
                    continue
                alias.append((k, v))
        else:
            alias = []
        bv = env.get(base)
        if bv is None and base.op in ("fld", "elt", "tget"):
            bv = self._read_sub(st, base)
        if base.op in ("list", "vec", "tup", "jobj"):
            bv = base
            r = self.project(bv, loc)
        elif bv is None or bv is base:
            r = loc
        else:
            r = self.project(bv, loc)
        for k, v in alias:
            r = ite(cmp_eq(k.args[1], loc.args[1]), v, r)
        return r

    def project(self, v, loc):
        kind, key = loc.op, loc.args[1]
        if v.op == "ite":
            return ite(v.args[0], self.project(v.args[1], loc), self.project(v.args[2], loc))
        if kind == "fld":
            if v.op == "obj":
                for n, x in v.args[1]:
                    if n == key:
                        return x
            if v.op == "with":
                fk = mk("f." + key)
                ent = [(k, x) for k, x in v.args[1] if k is fk]
                if ent:
                    return ent[0][1]
                deeper = tuple((mk("path", *k.args[1:]) if len(k.args) > 2 else k.args[1], x)
                               for k, x in v.args[1] if k.op == "path" and k.args[0] is fk)
                inner = self.project(v.args[0], loc)
                return mk("with", inner, deeper) if deeper else inner
            if v.op == "tup" and key in ("first", "second"):
                return v.args[0 if key == "first" else 1]
        if kind == "tget":
            if v.op in ("tup", "vec", "list") and key < len(v.args):
                return v.args[key]
            if v.op == "obj":
                return v.args[1][key][1]
        if kind == "elt":
            if v.op == "jobj" and key.op == "str":
                for n, x in v.args[0]:
                    if n == key.args[0]:
                        return x
            if v.op == "jobj" and key.op == "keyof" and is_num(key.args[1]) and 0 <= key.args[1].args[0] < len(v.args[0]):
                return v.args[0][int(key.args[1].args[0])][1]
            if v.op in ("vec", "list") and is_num(key):
                i = int(key.args[0])
                if 0 <= i < len(v.args):
                    return v.args[i]
            if v.op == "mat2" and key.op == "pair":
                r, c = v.args[0], v.args[1]
                if all(is_num(x) for x in key.args):
                    return v.args[2][int(key.args[0].args[0]) * c + int(key.args[1].args[0])]
            if v.op == "zeros":
                return ZERO
            if v.op == "seg":
                return self.project_loc(v.args[0], add(v.args[1], key))
            if v.op == "with":
                r = None
                alias = []
                for k, x in v.args[1]:
                    if k.op == "path" or k.op.startswith("f."):
                        continue
                    if k is key:
                        return x
                    d = sub(k, key)
                    if is_num(d) or (k.op == "str" and key.op == "str"):
                        continue
                    alias.append((k, x))
                r = self.project(v.args[0], loc)
                for k, x in alias:
                    r = ite(cmp_eq(k, key), x, r)
                return r
        return mk(kind, v, key)

    def project_loc(self, base, i):
        l = mk("elt", base, i)
        return self.project(base, l)

    def write(self, st, loc, val, line=0, emit=True):
        if st.dead:
            return
        if loc.op == "ite":   # conditional lvalue
            c, a, b = loc.args
            self.write(st, a, ite(c, val, self.read(st, a)), line, emit)
            self.write(st, b, ite(c, self.read(st, b), val), line, emit)
            return
        if loc.op == "seg":
            base, off, n = loc.args
            if is_num(n) and n.args[0] <= 8 and not self._structured(val) and val.op != "zeros":
                val = mk("vec", *[self.entry(val, i) for i in range(int(n.args[0]))])
            if val.op == "vec" and is_num(n) and len(val.args) == int(n.args[0]):
                for i, x in enumerate(val.args):
                    self.write(st, mk("elt", base, add(off, num(i))), x, line, emit)
            else:
                self.write(st, mk("elt", base, mk("range", off, n)), val, line, emit)
            return
        if loc.op == "pos":
            # element access to a small matrix variable
            pass
        env = st.env
        for k in [k for k in env if k is not loc and k.op in ("fld", "elt", "tget") and self._under(k, loc)]:
            del env[k]
        r = self.root(loc)
        if emit and r.op != "var":
            self.emit("store", st, line, loc=loc, val=val)
        # functional update of small fixed-size local values
        if loc.op == "elt" and loc.args[0] in env:
            bv = env[loc.args[0]]
            key = loc.args[1]
            if bv.op == "vec" and is_num(key) and 0 <= int(key.args[0]) < len(bv.args):
                it = list(bv.args)
                it[int(key.args[0])] = val
                env[loc.args[0]] = mk("vec", *it)
                return
            if bv.op == "mat2" and key.op == "pair" and all(is_num(x) for x in key.args):
                it = list(bv.args[2])
                it[int(key.args[0].args[0]) * bv.args[1] + int(key.args[1].args[0])] = val
                env[loc.args[0]] = mk("mat2", bv.args[0], bv.args[1], tuple(it))
                return
        if loc.op == "elt":
            for k in [k for k in env if k.op == "elt" and k.args[0] is loc.args[0] and k is not loc]:
                d = sub(k.args[1], loc.args[1])
                if is_num(d) or (k.args[1].op == "str" and loc.args[1].op == "str"):
                    continue
                env[k] = ite(cmp_eq(k.args[1], loc.args[1]), val, env[k])
        env[loc] = val

    def merge(self, parts, base_pc):
        """parts: list of (relative condition, State), mutually exclusive, in
        order; returns the merged State (values gated)"""
        parts = [(c, s) for c, s in parts if not s.dead]
        if not parts:
            return State({}, base_pc, True)
        if len(parts) == 1:
            return State(parts[0][1].env, base_pc)
        keys = []
        seen = set()
        for _, s in parts:
            for k in s.env:
                if k not in seen:
                    seen.add(k)
                    keys.append(k)
        env = {}
        for k in keys:
            vs = []
            for c, s in parts:
                v = s.env.get(k)
                if v is None:
                    if k.op in ("fld", "elt", "tget"):
                        v = self._read_sub(s, k)
                    else:
                        v = k
                vs.append(v)
            r = vs[-1]
            for (c, _), v in zip(reversed(parts[:-1]), reversed(vs[:-1])):
                r = ite(c, v, r)
            env[k] = r
        return State(env, base_pc)

    # --------------------------------------------------------------- functions
    def call_function(self, f, this, thiscls, argv, st, line, toplevel=False, closure=None):
        """argv: list of location/value terms per parameter (locations for refs)"""
        fr = Frame(f, self.cur, this, thiscls)
        fr.callline = line or 0
        self.inlined.add(f.get("key", f["q"]))
        if closure is not None:
            fr.vars.update(closure)
        base_pc = st.pc
        for p, a in zip(f["p"], argv):
            if p["by"] in ("r", "c", "m") or is_view(p["t"]):
                if a.op in ("var", "fld", "elt", "deref", "par", "this", "seg", "glob", "tget", "view") and not isinstance(a, tuple):
                    fr.vars[p["id"]] = a
                else:
                    loc = self.newvar(p["n"])
                    st.env[loc] = a
                    fr.vars[p["id"]] = loc
            else:
                loc = self.newvar(p["n"])
                st.env[loc] = a
                fr.vars[p["id"]] = loc
        prev, self.cur = self.cur, fr
        fr.retref = f.get("rt", "").rstrip().endswith("&") or is_view(f.get("rt", ""))
        saved_loopstack, self.loopstack = self.loopstack, []
        try:
            if f.get("ctor"):
                self.run_inits(f, fr, st)
            if f["b"] is not None:
                self.exec(f["b"], st)
        finally:
            self.cur = prev
            self.loopstack = saved_loopstack
        rets = list(fr.returns)
        if not st.dead:
            rets.append((st.copy(), mk("void")))
        n = len(base_pc)
        parts, vals = [], []
        for s, v in rets:
            rel = band(*[c for c in s.pc if c not in base_pc])
            parts.append((rel, s))
            vals.append(v)
        if not parts:
            st.dead = "throw" if fr.throws else True
            val = mk("void")
        else:
            thrown = [band(*[c for c in pc if c not in base_pc]) for pc in fr.throws]
            m = self.merge(parts, base_pc)
            st.set(m)
            for t in thrown:
                self.assume_exit(st, bnot(t))
            # facts common to all return paths stay known
            val = vals[-1]
            for (c, _), v in zip(reversed(parts[:-1]), reversed(vals[:-1])):
                val = ite(c, v, val)
        if not toplevel and prev is not None and not self.trystack_in(prev):
            prev.throws += fr.throws
        elif not toplevel and prev is not None:
            prev.throws += [pc for pc in fr.throws if False]
        if toplevel:
            fr.vals = list(zip([p[0] for p in parts], vals))
        return val, fr

    def trystack_in(self, frame):
        return any(t["frame"] is frame for t in self.trystack)

    def run_inits(self, f, fr, st):
        rec = self.P.records.get(f.get("rc"))
        done = set()
        for i in f.get("inits", []):
            if "field" in i:
                done.add(i["field"])
                v = self.rvalue_or_ref(i["e"], st, rec, i["field"])
                self.write(st, mk("fld", fr.this, i["field"]), v, i["l"])
            else:
                e = i["e"]
                if e and e.get("k") == "ctor" and e.get("fn") in self.P.functions:
                    g = self.P.functions[e["fn"]]
                    if e.get("inherited"):
                        args = [fr.vars.get(p["id"], mk("par", n, p["n"])) for n, p in enumerate(f["p"])]
                        args = [self.read(st, a) if a.op == "var" else a for a in args]
                    else:
                        args = self.args(e, st)
                    if self.can_inline(g):
                        self.call_function(g, fr.this, g.get("rc"), args, st, i["l"])
                    else:
                        self.emit("basector", st, i["l"], q=g["q"], args=tuple(self.val(st, a) for a in args), key=e["fn"])
                elif e:
                    self.emit("basector", st, i["l"], q=e.get("q", "?"), args=tuple(self.val(st, a) for a in self.args(e, st)) if "a" in e else (), key=e.get("fn"))
        if rec:
            for fl in rec["fields"]:
                if fl["n"] not in done and fl.get("init"):
                    v = self.rvalue(fl["init"], st)
                    self.write(st, mk("fld", fr.this, fl["n"]), v, f["l"])

    def rvalue_or_ref(self, e, st, rec, field):
        if rec:
            for fl in rec["fields"]:
                if fl["n"] == field and fl["t"].rstrip().endswith("&"):
                    l = self.lvalue(e, st)
                    return mk("addr", l)
        return self.rvalue(e, st)

    def newvar(self, name):
        self.fresh += 1
        return mk("var", self.fresh, "%s'%d" % (name, self.fresh))

    def can_inline(self, f):
        if self.cur is not None and self.cur.depth >= self.MAXDEPTH:
            return False
        # recursion
        fr = self.cur
        while fr is not None:
            if fr.fn is f:
                return False
            fr = fr.parent
        return not self.opaque(f)

    # -------------------------------------------------------------- statements
    def exec(self, s, st):
        if s is None or st.dead:
            return
        k = s["k"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise AnalysisBroken("statement kind %s" % k)
        m(s, st)

    def x_block(self, s, st):
        for c in s["b"]:
            if st.dead:
                return
            self.exec(c, st)

    def x_expr(self, s, st):
        self.expr(s["e"], st)

    def x_nop(self, s, st):
        pass

    def x_otherstmt(self, s, st):
        self.notes.add("unmodelled statement %s" % s.get("cls"))

    def x_decl(self, s, st):
        for d in s["d"]:
            self.declare(d, st)

    def declare(self, d, st):
        fr = self.cur
        init = d.get("init")
        if d.get("static"):
            loc = mk("glob", "%s::%s" % (fr.fn["q"], d["n"]))
            fr.vars[d["id"]] = loc
            self.emit("staticlocal", st, d["l"], loc=loc, t=d["t"], init=self.rvalue(init, st.copy()) if init else mk("void"))
            return
        if d.get("bind"):
            if d.get("ref") or d["t"].endswith("&"):
                base = self.lvalue(init, st)
            else:
                base = self.newvar(d["n"] or "sb")
                st.env[base] = self.rvalue(init, st)
            for i, b in enumerate(d["bind"]):
                fr.vars[b["id"]] = self.tget_loc(st, base, i)
            fr.vars[d["id"]] = base
            return
        if init and is_view(d["t"]):
            fr.vars[d["id"]] = self.lvalue(unview(init), st)
            return
        if d.get("ref") or d["t"].rstrip().endswith("&"):
            fr.vars[d["id"]] = self.lvalue(init, st) if init else self.newvar(d["n"])
            return
        loc = self.newvar(d["n"])
        fr.vars[d["id"]] = loc
        if init is not None:
            v = self.rvalue(init, st, declloc=loc)
            if st.dead:
                return
            if v is not None:
                st.env[loc] = v
            dm = small_dims(d["t"])
            if dm and init.get("k") == "ctor" and not init.get("a"):
                st.env[loc] = self.uninit_small(dm, loc)

    def uninit_small(self, dm, loc):
        r, c = dm
        if r == 1 or c == 1:
            return mk("vec", *[mk("uninit", loc, num(i)) for i in range(r * c)])
        return mk("mat2", r, c, tuple(mk("uninit", loc, num(i)) for i in range(r * c)))

    def tget_loc(self, st, base, i):
        v = st.env.get(base, base)
        if base.op == "var" and v.op == "tup":
            l = mk("tget", base, i)
            return l
        return mk("tget", base, i)

    def x_if(self, s, st):
        if s.get("init"):
            self.exec(s["init"], st)
        if s.get("cv"):
            self.declare(s["cv"], st)
        c = self.cond(s["c"], st)
        if st.dead:
            return
        if c is TRUE:
            self.exec(s["x"], st)
            return
        if c is FALSE:
            self.exec(s["y"], st)
            return
        a, b = st.copy(), st.copy()
        a.assume(c)
        b.assume(bnot(c))
        if not a.dead:
            self.exec(s["x"], a)
        if not b.dead:
            self.exec(s["y"], b)
        self.join2(st, c, a, b)

    def join2(self, st, c, a, b):
        base = st.pc
        if a.dead and b.dead:
            st.dead = True
            return
        if b.dead:
            if b.dead == "throw" and c not in base:
                self.exitfacts.add(c)
            st.set(a)
            return
        if a.dead:
            if a.dead == "throw" and bnot(c) not in base:
                self.exitfacts.add(bnot(c))
            st.set(b)
            return
        ra = band(*[x for x in a.pc if x not in base and x is not c])
        rb = band(*[x for x in b.pc if x not in base and x is not bnot(c)])
        m = self.merge([(c, a), (bnot(c), b)], base)
        # facts that hold in both arms stay in the pc
        common = [x for x in a.pc if x in b.pc and x not in base]
        for x in common:
            m.assume(x)
        for ex in (True, False):
            extra = ite(c, band(*[x for x in a.pc if x not in base and x is not c and x not in common and (x in self.exitfacts) == ex]),
                        band(*[x for x in b.pc if x not in base and x is not bnot(c) and x not in common and (x in self.exitfacts) == ex]))
            if ex and extra is not TRUE:
                self.assume_exit(m, extra)
            else:
                m.assume(extra)
        st.set(m)

    def x_return(self, s, st):
        fr = self.cur
        v = mk("void")
        if s["e"] is not None:
            if fr.retref:
                v = self.lvalue(s["e"], st)
            else:
                v = self.rvalue(s["e"], st)
        if st.dead:
            return
        self.emit("return", st, s["l"], val=v, depth=fr.depth)
        # a return inside loops: lift the condition over the iteration domain
        if self.loopstack:
            L = self.loopstack[-1]
            for LL in self.loopstack:
                LL["exits"].append((st.pc, False))
            outer = self.loopstack[0]
            base = outer["base_pc"]
            cond = band(*[c for c in st.pc if c not in base])
            for LL in reversed(self.loopstack):
                # conditions established outside the inner loop stay outside
                if LL["dom"] is not None:
                    cond = self.lift_exists(LL["dom"], cond)
            s2 = State(dict(st.env), base)
            s2.assume(cond)
            if not (v in (TRUE, FALSE) or is_num(v) or v.op in ("str", "void", "enumc") or not self.mentions_it(v)):
                dm = [LL["dom"] for LL in self.loopstack if LL["dom"] is not None]
                if dm:
                    v = mk("first", dm[-1], cond, v)
            fr.returns.append((s2, v))
        else:
            fr.returns.append((st.copy(), v))
        st.dead = True

    @staticmethod
    def mentions_it(v):
        return any(x.op == "it" for x in subterms(v))

    @staticmethod
    def lift_exists(dom, cond):
        # split the conjunction into loop-dependent and independent parts
        parts = list(cond.args) if cond.op == "and" else [cond]
        it = dom.args[0]
        dep = [c for c in parts if contains(c, it) or any(x.op == "loopvar" for x in subterms(c))]
        ind = [c for c in parts if c not in dep]
        if not dep:
            return band(*ind, mk("nonempty", dom))
        return band(*ind, mk("exists", dom, band(*dep)))

    def x_break(self, s, st):
        L = self.loopstack[-1]
        self.emit("break", st, s["l"])
        L["breaks"].append(st.copy())
        st.dead = True

    def x_continue(self, s, st):
        L = self.loopstack[-1]
        for i in range(len(self.loopstack) - 1, -1, -1):
            if not self.loopstack[i].get("switch"):
                L = self.loopstack[i]
                break
        L["conts"].append(st.copy())
        st.dead = True

    def x_throw_expr(self, node, st):
        v = self.rvalue(node["e"], st) if node.get("e") else mk("rethrow")
        if st.dead:
            return
        self.do_throw(v, st, node["l"])

    def do_throw(self, v, st, line):
        self.emit("throw", st, line, val=v)
        pcs = st.pc
        if self.loopstack:
            for LL in self.loopstack:
                LL["exits"].append((st.pc, True))
            base = self.loopstack[0]["base_pc"]
            cond = band(*[c for c in st.pc if c not in base])
            for LL in reversed(self.loopstack):
                cond = self.lift_exists(LL["dom"], cond) if LL["dom"] is not None else cond
            pcs = tuple(base) + ((cond,) if cond is not TRUE else ())
        t = self.trystack[-1] if self.trystack else None
        if t is not None:
            t["throws"].append((v, st.pc, line))
            if t["frame"] is not self.cur:
                self.cur.throws.append(pcs)
        else:
            self.cur.throws.append(pcs)
        st.dead = "throw"

    def x_try(self, s, st):
        self.fresh += 1
        tid = self.fresh
        before = st.copy()
        handlers = tuple("..." if h.get("all") else strip_cv(h.get("ct", "")) for h in s["h"])
        T_ = {"frame": self.cur, "throws": [], "id": tid, "handlers": handlers}
        self.trystack.append(T_)
        saved = self.tries
        self.tries = self.tries + ((tid, "try", handlers),)
        body = st.copy()
        n0 = len(self.effs)
        try:
            self.exec(s["b"], body)
        finally:
            self.trystack.pop()
            self.tries = saved
        exc = mk("exc", tid)
        if self.exact_exc and len(s["h"]) == 1 and not any(x.kind in ("call", "ctor", "new", "opaque") for x in self.effs[n0:]):
            # nothing in the body can raise but the throws that were followed
            exc = bor(*[band(*[c for c in pc if c not in before.pc]) for _, pc, _ in T_["throws"]])
            if exc is FALSE:
                st.set(body)
                return
        outs = []
        # state at the catch: anything written in the body is uncertain
        for i, h in enumerate(s["h"]):
            hs = before.copy()
            for k in list(body.env):
                if k in before.env and body.env[k] is not before.env[k]:
                    hs.env[k] = mk("maybe", tid, before.env[k], body.env[k])
                elif k not in before.env and k.op != "var":
                    hs.env[k] = mk("maybe", tid, k, body.env[k])
            # objects mutated through opaque calls in the body
            c = exc if len(s["h"]) == 1 else mk("exc", tid, i)
            hs.assume(c)
            self.tries = saved + ((tid, "catch", handlers[i]),)
            if h.get("v"):
                loc = self.newvar(h["v"]["n"] or "e")
                self.cur.vars[h["v"]["id"]] = loc
                st_v = mk("caught", tid)
                hs.env[loc] = st_v
            self.emit("catch", hs, h["l"], type=handlers[i], tid=tid)
            try:
                self.exec(h["b"], hs)
            finally:
                self.tries = saved
            outs.append((c, hs))
        ok = band(*[bnot(c) for c, _ in outs])
        if not body.dead:
            body.assume(ok)
        live = [(c, x) for c, x in [(ok, body)] + outs if not x.dead]
        if not live:
            st.dead = True
            return
        base = before.pc
        m = self.merge(live, base)
        # alive condition: disjunction of the live relative conditions
        rel = [band(*[y for y in x.pc if y not in base]) for _, x in live]
        if len(live) < len(outs) + 1:
            m.assume(bor(*rel))
        else:
            # keep facts established on every arm
            rest = bor(*rel)
            pass
        st.set(m)

    # ------------------------------------------------------------------- loops
    def x_for(self, s, st):
        if s["init"]:
            self.exec(s["init"], st)
        self.loop(s, st, s["c"], s["b"], s["inc"], None)

    def x_while(self, s, st):
        self.loop(s, st, s["c"], s["b"], None, s.get("cv"))

    def x_do(self, s, st):
        # body once unconditionally, then a while loop
        L = {"breaks": [], "conts": [], "exits": [], "dom": None, "base_pc": st.pc}
        self.loopstack.append(L)
        try:
            self.exec(s["b"], st)
        finally:
            self.loopstack.pop()
        live = ([(TRUE, st.copy())] if not st.dead else []) + [(TRUE, c) for c in L["conts"]]
        if not live and not L["breaks"]:
            return
        if L["breaks"] or L["conts"]:
            allst = live + [(TRUE, b) for b in L["breaks"]]
            n = len(st.pc)
            parts = [(band(*[c for c in x.pc if c not in L["base_pc"]]), x) for _, x in allst]
            st.set(self.merge(parts, L["base_pc"]))
            brk = bor(*[band(*[c for c in b.pc if c not in L["base_pc"]]) for b in L["breaks"]]) if L["breaks"] else FALSE
            if not live:
                return
            a, b2 = st.copy(), st.copy()
            a.assume(bnot(brk))
            if not a.dead:
                self.loop(s, a, s["c"], s["b"], None, None)
            if brk is not FALSE:
                b2.assume(brk)
                self.join2(st, bnot(brk), a, b2)
            else:
                st.set(a)
            return
        self.loop(s, st, s["c"], s["b"], None, None)

    def x_rfor(self, s, st):
        rloc = self.lvalue(s["range"], st)
        rv = self.read(st, rloc)
        if rv.op == "items":   # json .items()
            cont = rv.args[0]
        else:
            cont = rloc if rloc.op != "var" or rv.op == "list" else rv
            if rloc.op == "var" and rv is rloc:
                cont = rloc
        size = self.size_of(cont, st)
        ismap = "std::map<" in (s["range"].get("t") or "") or "unordered_map<" in (s["range"].get("t") or "")
        v = s["v"]

        def bind(itv, st2):
            fr = self.cur
            if rv.op == "items" or ismap:
                base = self.newvar("kv")
                doc = self.val(st2, cont) if self.is_loc(cont) else cont
                if doc.op in ("jobj", "list") and is_num(itv) and not (ismap and doc.op == "list"):
                    if doc.op == "jobj":
                        ks = ke = mk("str", doc.args[0][int(itv.args[0])][0])
                    else:
                        ks, ke = mk("str", str(int(itv.args[0]))), itv
                    st2.env[base] = mk("tup", ks, mk("elt", cont, ke))
                    if v.get("bind"):
                        for b, l in zip(v["bind"], [mk("tget", base, 0), mk("elt", cont, ke)]):
                            fr.vars[b["id"]] = l
                    fr.vars[v["id"]] = base
                    return
                st2.env[base] = mk("tup", mk("keyof", cont, itv), mk("elt", cont, mk("keyof", cont, itv)))
                kv = [mk("tget", base, 0), mk("elt", cont, mk("keyof", cont, itv))]
                if v.get("bind"):
                    for b, l in zip(v["bind"], kv):
                        fr.vars[b["id"]] = l
                fr.vars[v["id"]] = base
                return
            if cont.op in ("list",):
                el = None
            elem = mk("elt", cont, itv)
            if v.get("bind"):
                for i, b in enumerate(v["bind"]):
                    fr.vars[b["id"]] = mk("tget", elem, i)
                fr.vars[v["id"]] = elem
            elif v.get("ref") or v["t"].rstrip().endswith("&"):
                fr.vars[v["id"]] = elem
            else:
                loc = self.newvar(v["n"])
                fr.vars[v["id"]] = loc
                st2.env[loc] = self.read(st2, elem) if not (cont.op in ("list",)) else elem

        self.counted(s, st, ZERO, size, Fr(1), bind, s["b"], None)

    def depth(self):
        return len(self.loops)

    def counted(self, s, st, lo, hi, step, bind, body, inc, modified=None, extra_cond=None):
        """a loop with a canonical iteration index; executes the body once"""
        if is_num(lo) and is_num(hi) and extra_cond is None and hi.args[0] - lo.args[0] <= self.unroll * step:
            its = []
            x = lo.args[0]
            while x < hi.args[0]:
                its.append(num(x))
                x += step
            if self.unrolled(st, body, inc, seq=[lambda s2, i=i: bind(i, s2) for i in its]):
                return
        it = mk("it", self.depth())
        dom = mk("dom", it, lo, hi, num(step))
        base_pc = st.pc
        # pass 1: find what the body modifies
        mods = self.scan(st, lambda s2: (bind(it, s2), self.exec(body, s2), inc and not s2.dead and self.expr(inc, s2)), dom)
        self.run_loop(s, st, dom, mods, lambda s2: bind(it, s2), body, inc, base_pc, extra_cond)

    def unrolled(self, st, body, inc, seq=None, cond=None, cv=None):
        """a loop whose trip count is decided by the shape: its iterations are
        composed one after the other.  Returns False (and restores everything)
        when the continuation condition is not decided."""
        save = (st.copy(), len(self.effs), len(self.cur.throws), len(self.cur.returns),
                [len(t["throws"]) for t in self.trystack], [len(L["exits"]) for L in self.loopstack])
        base_pc = st.pc
        breaks = []
        n = 0
        while True:
            if st.dead:
                break
            if seq is not None:
                if n >= len(seq):
                    break
            else:
                if cv:
                    self.declare(cv, st)
                c = self.cond(cond, st) if cond is not None else TRUE
                if st.dead or c is FALSE:
                    break
                if c is not TRUE and self.fork:
                    # trace partitioning: leave here, or go round once more
                    out = st.copy()
                    out.assume(bnot(c))
                    if not out.dead:
                        breaks.append(out)
                    st.assume(c)
                    if st.dead:
                        break
                    if n >= self.fork:
                        self.cuts.append((self.cur.fn["q"], n))
                        st.dead = True
                        break
                elif c is TRUE and self.fork and n > self.fork and (cond is None or cond["k"] == "bool"):
                    self.cuts.append((self.cur.fn["q"], n))
                    st.dead = True
                    break
                elif c is not TRUE or n >= self.unroll:
                    st.env, st.pc, st.dead = save[0].env, save[0].pc, save[0].dead
                    del self.effs[save[1]:]
                    del self.cur.throws[save[2]:]
                    del self.cur.returns[save[3]:]
                    for t, k in zip(self.trystack, save[4]):
                        del t["throws"][k:]
                    for L, k in zip(self.loopstack, save[5]):
                        del L["exits"][k:]
                    return False
            L = {"breaks": [], "conts": [], "exits": [], "dom": None, "base_pc": st.pc}
            self.loopstack.append(L)
            here = st.pc
            try:
                if seq is not None:
                    seq[n](st)
                self.exec(body, st)
            finally:
                self.loopstack.pop()
            n += 1
            breaks += L["breaks"]
            ends = [(band(*[x for x in e.pc if x not in here]), e) for e in L["conts"]]
            if ends:
                if not st.dead:
                    ends.append((band(*[x for x in st.pc if x not in here]), st.copy()))
                m = self.merge(ends, here)
                if L["breaks"]:
                    m.assume(bor(*[c for c, _ in ends]))
                st.set(m)
            if inc is not None and not st.dead:
                self.expr(inc, st)
        if breaks:
            parts = [(band(*[x for x in b.pc if x not in base_pc]), b) for b in breaks]
            if not st.dead:
                parts.append((TRUE, st.copy()))
            st.set(self.merge(parts, base_pc))
        return True

    def scan(self, st, go, dom):
        """locations whose value differs after one muted execution of the body"""
        self.mute += 1
        L = {"breaks": [], "conts": [], "exits": [], "dom": dom, "base_pc": st.pc}
        self.loopstack.append(L)
        saved_loops = self.loops
        self.loops = self.loops + (dom,)
        nthrow = [len(t["throws"]) for t in self.trystack]
        fthrow, fret = len(self.cur.throws), len(self.cur.returns)
        fresh0 = self.fresh
        s2 = st.copy()
        try:
            go(s2)
        finally:
            self.mute -= 1
            self.loopstack.pop()
            self.loops = saved_loops
        for t, n in zip(self.trystack, nthrow):
            del t["throws"][n:]
        del self.cur.throws[fthrow:]
        del self.cur.returns[fret:]
        for LL in self.loopstack:
            pass
        ends = L["conts"] + L["breaks"] + ([s2] if not s2.dead else [])
        mods = []
        for e in ends:
            for k, v in e.env.items():
                if k.op == "var" and k not in st.env and k.args[0] > fresh0:
                    continue  # body-local
                r = self.root(k)
                if r.op == "var" and r.args[0] > fresh0:
                    continue
                old = st.env.get(k)
                if old is None:
                    old = self._read_sub(st, k) if k.op in ("fld", "elt", "tget") else k
                if v is not old and k not in mods:
                    mods.append(k)
        return mods

    def run_loop(self, s, st, dom, mods, bind, body, inc, base_pc, extra_cond=None):
        it = dom.args[0]
        saved_loops = self.loops
        pre = {}
        for i, k in enumerate(mods):
            pre[k] = self.read(st, k)
        # locations with an index that depends on the iteration are not carried
        carried = [k for k in mods if not contains(k, it)]
        indexed = [k for k in mods if contains(k, it)]
        inner = st.copy()
        lv = {}
        for i, k in enumerate(carried):
            for kk in [x for x in inner.env if x is not k and x.op in ("fld", "elt", "tget") and self._under(x, k)]:
                del inner.env[kk]
            lv[k] = mk("loopvar", it, i, self.cname(k))
            inner.env[k] = lv[k]
        for k in indexed:
            pass
        L = {"breaks": [], "conts": [], "exits": [], "dom": dom, "base_pc": base_pc}
        self.loopstack.append(L)
        self.loops = saved_loops + (dom,)
        nthrow = len(self.cur.throws)
        try:
            bind(inner)
            if extra_cond is not None:
                ec = self.cond(extra_cond, inner)
                inner.assume(ec)
            self.exec(body, inner)
            ends = [(band(*[c for c in x.pc if c not in base_pc]), x) for x in L["conts"]]
            if not inner.dead:
                ends.append((band(*[c for c in inner.pc if c not in base_pc]), inner.copy()))
            if ends:
                end = self.merge(ends, base_pc)
                if inc is not None:
                    self.expr(inc, end)
            else:
                end = None
        finally:
            self.loopstack.pop()
            self.loops = saved_loops
        # post state
        brk = [band(*[c for c in x.pc if c not in base_pc]) for x in L["breaks"]]
        post = st.copy()
        n_iter_known = not brk
        for k in carried:
            newv = None
            if end is not None:
                newv = end.env.get(k)
                if newv is None:
                    newv = lv[k]
            v0 = pre[k]
            res = None
            if newv is not None and not brk:
                d = sub(newv, lv[k]) if not self._structured(newv) else None
                if newv is lv[k]:
                    res = v0
                elif d is not None and not any(x.op == "loopvar" and x.args[0] is it for x in subterms(d)) and self._arith(newv, lv[k]):
                    if contains(d, it) or any(x.op == "it" for x in subterms(d)):
                        res = add(v0, mk("sum", dom, d))
                    elif is_num(d) and is_num(dom.args[3]) and dom.args[3].args[0] != 0:
                        trips = div(sub(dom.args[2], dom.args[1]), dom.args[3])
                        res = add(v0, mul(d, trips))
                    else:
                        res = add(v0, mk("sum", dom, d))
                elif newv.op == "ite" and not any(x.op == "loopvar" for x in subterms(newv)) and False:
                    pass
            if res is None:
                b = tuple((c, x.env.get(k, lv[k])) for c, x in zip(brk, L["breaks"]))
                res = mk("fold", dom, v0, newv if newv is not None else mk("void"), b)
                res = self.fold_special(res, dom, v0, newv, lv[k], brk, L, k)
            for kk in [x for x in post.env if x is not k and x.op in ("fld", "elt", "tget") and self._under(x, k)]:
                del post.env[kk]
            post.env[k] = res
        for k in indexed:
            v = end.env.get(k) if end is not None else None
            if v is not None:
                base = k.args[0]
                while contains(base, it) and base.op in ("fld", "elt", "tget"):
                    base = base.args[0]
                if contains(base, it):
                    continue
                post.env[base] = mk("filled", self.read(post, base), dom, k, v)
        st.set(post)
        # exits through return / throw: the code after the loop runs only if none happened
        for pc, isthrow in L["exits"]:
            c = bnot(self.lift_exists(dom, band(*[c for c in pc if c not in base_pc])))
            if isthrow:
                self.assume_exit(st, c)
            else:
                st.assume(c)
        return L

    @staticmethod
    def _structured(v):
        return v.op in ("vec", "mat2", "tup", "obj", "with", "list", "str", "new", "mut", "addr", "iter", "true", "false")

    @staticmethod
    def _arith(newv, lv):
        c, its = (newv.args if newv.op == "add" else (Fr(0), ((newv, Fr(1)),)))
        return any(t is lv and co == 1 for t, co in its)

    def fold_special(self, res, dom, v0, newv, lv, brk, L, k):
        """flag := constant under a condition -> exists"""
        it = dom.args[0]

        def noself(t):
            return not any(x.op == "loopvar" and x.args[0] is it for x in subterms(t))
        cands = []
        if newv is not None and newv.op == "ite":
            c, a, b = newv.args
            if b is lv and noself(c) and noself(a):
                cands.append((c, a))
            elif a is lv and noself(c) and noself(b):
                cands.append((bnot(c), b))
        elif newv is not None and newv is not lv and noself(newv) and not brk:
            if not contains(newv, it):
                return ite(mk("nonempty", dom), newv, v0)
        if newv is not None and newv.op in ("or", "and") and lv in newv.args and not brk:
            rest = [x for x in newv.args if x is not lv]
            if all(noself(x) for x in rest):
                r = (bor if newv.op == "or" else band)(*rest)
                if newv.op == "or":
                    return bor(v0, mk("exists", dom, r))
                return band(v0, mk("forall", dom, r))
        if newv is not None and newv.op == "not" and newv.args[0] is lv:
            return res
        if brk and len(brk) == 1:
            bv = L["breaks"][0].env.get(k, lv)
            if (newv is None or newv is lv) and noself(bv) and noself(brk[0]) and not contains(bv, it):
                return ite(self.lift_exists(dom, brk[0]), bv, v0)
            if (newv is None or newv is lv) and bv is lv:
                return v0
        if len(cands) == 1 and not brk:
            c, a = cands[0]
            if not contains(a, it):
                return ite(mk("exists", dom, c) if contains(c, it) else band(c, mk("nonempty", dom)), a, v0)
        return res

    def cname(self, k):
        return mk("name", re.sub(r"'\d+", "", show(k)))

    def loop(self, s, st, cond, body, inc, cv):
        """for / while: recognise an induction variable, otherwise keep an
        opaque domain"""
        base_pc = st.pc
        if self.unroll and self.unrolled(st, body, inc, cond=cond, cv=cv):
            return
        itmp = mk("it", self.depth())
        udom = mk("dom", itmp, mk("unknown"), mk("unknown"), ONE)

        def go(s2):
            if cv:
                self.declare(cv, s2)
            if cond is not None:
                self.cond(cond, s2)
            self.exec(body, s2)
            # continue states are irrelevant for detecting modifications
            if inc is not None and not s2.dead:
                self.expr(inc, s2)
        # which variables are modified: run with inc executed even if the body ends in continue
        mods = self.scan_loop(st, cond, body, inc, cv, udom)
        carried = [k for k in mods]
        # symbolic iteration
        self.mute += 1
        probe = st.copy()
        lv = {}
        for i, k in enumerate(carried):
            v0 = self.read(st, k)
            lv[k] = mk("loopvar", itmp, i, self.cname(k))
            if v0.op == "iter":
                lv[k] = mk("iter", v0.args[0], mk("loopvar", itmp, i, self.cname(k)))
            for kk in [x for x in probe.env if x is not k and x.op in ("fld", "elt", "tget") and self._under(x, k)]:
                del probe.env[kk]
            probe.env[k] = lv[k]
        L = {"breaks": [], "conts": [], "exits": [], "dom": udom, "base_pc": base_pc}
        self.loopstack.append(L)
        saved_loops, self.loops = self.loops, self.loops + (udom,)
        nthrow, nret = len(self.cur.throws), len(self.cur.returns)
        tth = [len(t["throws"]) for t in self.trystack]
        try:
            if cv:
                self.declare(cv, probe)
            c = self.cond(cond, probe) if cond is not None else TRUE
            condterm = c
            probe.assume(c)
            if not probe.dead:
                self.exec(body, probe)
            ends = [(band(*[x for x in e.pc if x not in base_pc]), e) for e in L["conts"]]
            if not probe.dead:
                ends.append((TRUE, probe))
            end = self.merge(ends, base_pc) if ends else None
            if end is not None and inc is not None and not end.dead:
                self.expr(inc, end)
        finally:
            self.mute -= 1
            self.loopstack.pop()
            self.loops = saved_loops
        del self.cur.throws[nthrow:]
        del self.cur.returns[nret:]
        for t, n in zip(self.trystack, tth):
            del t["throws"][n:]
        # induction variable?
        ind = None
        if end is not None:
            conj = list(condterm.args) if condterm.op == "and" else [condterm]
            for k in carried:
                nv = end.env.get(k)
                if nv is None:
                    continue
                base_lv = lv[k]
                isiter = base_lv.op == "iter"
                x = base_lv.args[1] if isiter else base_lv
                if isiter:
                    if nv.op != "iter" or nv.args[0] is not base_lv.args[0]:
                        continue
                    nvx = nv.args[1]
                else:
                    nvx = nv
                if self._structured(nvx):
                    continue
                d = sub(nvx, x)
                if any(y.op == "loopvar" for y in subterms(d)) or d is ZERO:
                    continue
                for cj in conj:
                    b = self.bound(cj, x, d)
                    if b is not None and not any(y.op == "loopvar" for y in subterms(b)):
                        # the bound must not be modified by the loop
                        ind = (k, isiter, d, b, cj)
                        break
                if ind:
                    break
        if ind:
            k, isiter, d, bnd, cj = ind
            v0 = self.read(st, k)
            lo = v0.args[1] if isiter else v0
            cont = v0.args[0] if isiter else None
            it = mk("it", self.depth())
            # canonical index runs from lo with step d
            dom = mk("dom", it, lo, bnd, d)
            rest = [x for x in conj if x is not cj]
            idx = it

            def bind(s2, k=k):
                s2.env[k] = mk("iter", cont, idx) if isiter else idx
                if cv:
                    self.declare(cv, s2)
            mods2 = [m for m in mods if m is not k]
            Lr = self.run_loop(s, st, dom, mods2, bind, body, inc, base_pc,
                               extra_cond=cond if rest else None)
            if not Lr["breaks"] and not rest:
                st.env[k] = mk("iter", cont, bnd) if isiter else bnd
            else:
                x = mk("loopend", dom, self.cname(k))
                st.env[k] = mk("iter", cont, x) if isiter else x
            return
        # opaque loop
        it = itmp
        dom = mk("dom", it, mk("while"), self.alpha(condterm, it), ONE)
        L = self.run_loop(s, st, dom, mods, (lambda s2: self.declare(cv, s2)) if cv else (lambda s2: None), body, inc, base_pc,
                          extra_cond=cond)
        # on normal exit the condition is false in the post state
        if cond is not None and not st.dead and not L["breaks"]:
            self.mute += 1
            t = st.copy()
            if cv:
                self.declare(cv, t)
            c = self.cond(cond, t)
            self.mute -= 1
            st.assume(bnot(c))
        elif cond is not None and not st.dead and L["breaks"]:
            pass
        elif cond is None and not L["breaks"]:
            st.dead = True

    def alpha(self, t, it):
        return t

    def scan_loop(self, st, cond, body, inc, cv, dom):
        mods = []
        cur = st
        for _ in range(3):
            s0 = cur.copy()
            for k in mods:
                for kk in [x for x in s0.env if x is not k and x.op in ("fld", "elt", "tget") and self._under(x, k)]:
                    del s0.env[kk]
                s0.env[k] = mk("havoc", self.cname(k))

            def go(s2):
                if cv:
                    self.declare(cv, s2)
                if cond is not None:
                    c = self.cond(cond, s2)
                self.exec(body, s2)
                if inc is not None:
                    if s2.dead:
                        s3 = State(dict(s2.env), s2.pc)
                        if self.loopstack[-1]["conts"]:
                            s3 = self.loopstack[-1]["conts"][-1].copy()
                        self.expr(inc, s3)
                        self.loopstack[-1]["conts"].append(s3)
                    else:
                        self.expr(inc, s2)
            new = [m for m in self.scan(s0, go, dom) if m not in mods]
            if not new:
                break
            mods += new
        # drop sub-locations of modified locations
        mods = [m for m in mods if not any(o is not m and self._under(m, o) for o in mods)]
        return mods

    def bound(self, c, x, d):
        """loop continues while c(x); returns the (exclusive) bound term"""
        neg_ = False
        if c.op == "not":
            neg_, c = True, c.args[0]
        if c.op == "eq" and neg_:
            a, b = c.args
            if a is x or b is x:
                return b if a is x else a
            # affine: x + k != e
            df = sub(a, b)
            if df.op == "add":
                for t, co in df.args[1]:
                    if t is x and abs(co) == 1:
                        return scale(-1 / co, sub(df, scale(co, x)))
            return None
        if c.op in ("lt", "le"):
            a, b = c.args
            df = sub(b, a)  # > 0 (lt) or >= 0 (le)
            strict = c.op == "lt"
            if neg_:
                df, strict = neg(df), not strict
            k, its = (df.args if df.op == "add" else (Fr(0), ((df, Fr(1)),)))
            for t, co in its:
                if t is x and abs(co) == 1:
                    e = scale(-1 / co, sub(df, scale(co, x)))
                    if co == -1:   # x < e  or x <= e
                        return e if strict else add(e, ONE)
                    return e if strict else add(e, num(-1))
        return None

    def x_switch(self, s, st):
        v = self.rvalue(s["c"], st)
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        # flatten case labels
        groups = []   # list of (labels or None, [stmts])
        for c in body:
            labels = []
            dflt = False
            while c is not None and c["k"] in ("case", "default"):
                if c["k"] == "case":
                    labels.append(self.rvalue(c["e"], st))
                else:
                    dflt = True
                c = c["b"]
            if labels or dflt:
                groups.append([labels, dflt, [c]])
            elif groups:
                groups[-1][2].append(c)
        base_pc = st.pc
        L = {"breaks": [], "conts": [], "exits": [], "dom": None, "base_pc": base_pc, "switch": True}
        all_labels = [l for g in groups for l in g[0]]
        outs = []
        has_default = any(g[1] for g in groups)
        for i, (labels, dflt, stmts) in enumerate(groups):
            c = bor(*[cmp_eq(v, l) for l in labels])
            if dflt:
                c = bor(c, band(*[bnot(cmp_eq(v, l)) for l in all_labels]))
            s2 = st.copy()
            s2.assume(c)
            if s2.dead:
                continue
            L["breaks"] = []
            self.loopstack.append(SwitchCtx(L, self.loopstack))
            try:
                for g in groups[i:]:
                    for x in g[2]:
                        if s2.dead:
                            break
                        self.exec(x, s2)
            finally:
                self.loopstack.pop()
            if not s2.dead:
                outs.append((c, s2))
            for b in L["breaks"]:
                outs.append((band(*[x for x in b.pc if x not in base_pc]), b))
        if not has_default:
            s2 = st.copy()
            c = band(*[bnot(cmp_eq(v, l)) for l in all_labels])
            s2.assume(c)
            if not s2.dead:
                outs.append((c, s2))
        if not outs:
            st.dead = True
            return
        rel = [band(*[x for x in o.pc if x not in base_pc]) for _, o in outs]
        m = self.merge(outs, base_pc)
        m.assume(bor(*rel))
        st.set(m)

    # ------------------------------------------------------------- expressions
    def cond(self, e, st):
        v = self.rvalue(e, st)
        return self.tobool(v)

    def tobool(self, v):
        if v.op in ("true", "false", "not", "and", "or", "eq", "lt", "le", "exists", "forall", "nonempty"):
            return v
        if is_num(v):
            return TRUE if v.args[0] else FALSE
        if v.op == "ite":
            return ite(v.args[0], self.tobool(v.args[1]), self.tobool(v.args[2]))
        if v.op == "nullptr":
            return FALSE
        if v.op == "addr":
            return TRUE
        return v

    def val(self, st, x):
        """location or value -> value"""
        if x.op in ("var", "fld", "elt", "tget", "deref", "par", "glob", "this", "seg"):
            return self.read_any(st, x)
        return x

    def read_any(self, st, loc):
        if loc.op == "seg":
            base, off, n = loc.args
            if is_num(n) and n.args[0] <= 8:
                return mk("vec", *[self.read(st, mk("elt", base, add(off, num(i)))) for i in range(int(n.args[0]))])
            return loc
        if loc.op == "ite":
            return ite(loc.args[0], self.read_any(st, loc.args[1]), self.read_any(st, loc.args[2]))
        if loc.op == "glob":
            g = self.P.globals.get(loc.args[0])
            if g and g.get("const") and g.get("init") and loc not in st.env:
                return self.global_value(loc.args[0], g, st)
        return self.read(st, loc)

    def global_value(self, name, g, st):
        cache = getattr(self, "_gcache", None)
        if cache is None:
            cache = self._gcache = {}
        if name in cache:
            return cache[name]
        cache[name] = mk("glob", name)
        if is_scalar(g["t"]) or "double" in g["t"] or "json" in g["t"]:
            self.mute += 1
            s2 = State()
            pcur = self.cur
            if self.cur is None:
                self.cur = Frame({"q": name, "n": name, "file": g["file"], "p": [], "rt": ""}, None, None, None)
            try:
                cache[name] = self.rvalue(g["init"], s2)
            finally:
                self.mute -= 1
                self.cur = pcur
        return cache[name]

    def rvalue(self, e, st, declloc=None):
        if e is None:
            return mk("void")
        r = self.expr(e, st, declloc)
        if r is None:
            return mk("void")
        if self.is_loc(r):
            return self.read_any(st, r)
        return r

    @staticmethod
    def is_loc(r):
        return r.op in ("var", "fld", "elt", "tget", "deref", "par", "glob", "this", "seg") or \
            (r.op == "ite" and Evaluator.is_loc(r.args[1]) and Evaluator.is_loc(r.args[2]) and
             r.args[1].op not in ("par",))

    def lvalue(self, e, st):
        """location if the expression denotes one, else a fresh temporary"""
        r = self.expr(e, st)
        if r is None:
            r = mk("void")
        if self.is_loc(r):
            return r
        loc = self.newvar("tmp")
        st.env[loc] = r
        return loc

    def expr(self, e, st, declloc=None):
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.notes.add("unmodelled expression %s" % k)
            return mk("opaque", k)
        if st.dead:
            return mk("void")
        if k == "ctor":
            return m(e, st, declloc)
        return m(e, st)

    def e_int(self, e, st):
        return num(int(e["v"]))

    def e_float(self, e, st):
        s = e["s"].rstrip("fFlL").replace("'", "")
        try:
            return num(Fr(s))
        except ValueError:
            return num(Fr(e["v"]))

    def e_bool(self, e, st):
        return TRUE if e["v"] else FALSE

    def e_str(self, e, st):
        return mk("str", e.get("v", ""))

    def e_nullptr(self, e, st):
        return mk("nullptr")

    def e_zero(self, e, st):
        return ZERO if is_scalar(e.get("t", "")) else mk("new", strip_cv(e.get("t", "")))

    def e_sizeof(self, e, st):
        return mk("opaque", "sizeof")

    def e_typeid(self, e, st):
        return mk("opaque", "typeid")

    def e_pseudodtor(self, e, st):
        return mk("void")

    def e_null(self, e, st):
        return mk("void")

    def e_enum(self, e, st):
        return mk("enumc", e["n"], Fr(int(e["v"])))

    def e_this(self, e, st):
        return mk("addr", self.cur_this())

    def cur_this(self):
        fr = self.cur
        while fr is not None and fr.this is None:
            fr = fr.parent
        return fr.this if fr else mk("this")

    def e_var(self, e, st):
        if "g" in e:
            return mk("glob", e["g"])
        fr = self.cur
        while fr is not None:
            if e["id"] in fr.vars:
                return fr.vars[e["id"]]
            fr = fr.parent if fr.fn.get("islambda") else None
        # lambda bodies see the variables of the enclosing activations
        fr = self.cur
        while fr is not None:
            if e["id"] in fr.vars:
                return fr.vars[e["id"]]
            fr = fr.parent
        return mk("sym", "?" + e["n"])

    def e_ref(self, e, st):
        return mk("glob", e["n"])

    def e_fnref(self, e, st):
        if e.get("fn") in self.P.functions:
            return mk("fnptr", e["fn"], e["q"])
        return mk("fnptr", e.get("fn") or "?", e.get("q", "?"))

    def deref(self, st, v):
        if v.op == "addr":
            return v.args[0]
        if v.op == "iter":
            c = v.args[0]
            return mk("elt", c, v.args[1])
        if v.op == "ite":
            return ite(v.args[0], self.deref(st, v.args[1]), self.deref(st, v.args[2]))
        if v.op == "rbegin":
            pass
        return mk("deref", v)

    def e_field(self, e, st):
        b = e["e"]
        if e.get("arrow"):
            v = self.rvalue(b, st)
            loc = self.deref(st, v)
        else:
            loc = self.expr(b, st)
            if not self.is_loc(loc):
                l2 = self.newvar("tmp")
                st.env[l2] = loc
                loc = l2
        if loc.op == "ite":
            return ite(loc.args[0], mk("fld", loc.args[1], e["n"]), mk("fld", loc.args[2], e["n"]))
        if strip_cv(e.get("rc", "")).startswith("std::pair<") and e["n"] in ("first", "second"):
            f = mk("tget", loc, 0 if e["n"] == "first" else 1)
        else:
            f = mk("fld", loc, e["n"])
        # reference members
        v = st.env.get(f)
        if v is not None and v.op == "addr" and e.get("in"):
            rec = self.P.records.get(e.get("rc"))
            if rec and any(x["n"] == e["n"] and x["t"].rstrip().endswith("&") for x in rec["fields"]):
                return v.args[0]
        return f

    def e_index(self, e, st):
        base = self.rvalue(e["x"], st)
        i = canon(self.rvalue(e["y"], st))
        if base.op == "addr":
            return mk("elt", base.args[0], i)
        return mk("elt", base, i)

    def e_cast(self, e, st):
        v = self.rvalue(e["e"], st)
        ck = e["ck"]
        if ck in ("EnumToInt", "IntegralToFloating"):
            v = self.enum_value(v)
        if ck == "FloatingToIntegral":
            if is_num(v):
                return num(int(v.args[0]))
            return fn("trunc", v)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            if is_num(v):
                return TRUE if v.args[0] else FALSE
            return bnot(cmp_eq(v, ZERO))
        if ck == "PointerToBoolean":
            return self.tobool(v) if v.op in ("addr", "nullptr") else bnot(cmp_eq(v, mk("nullptr")))
        if ck == "ToVoid":
            return mk("void")
        if ck in ("IntegralToFloating",) and v in (TRUE, FALSE):
            return ONE if v is TRUE else ZERO
        return v

    def enum_value(self, v):
        if v.op == "enumc":
            return num(v.args[1])
        if v.op == "ite":
            return ite(v.args[0], self.enum_value(v.args[1]), self.enum_value(v.args[2]))
        return v

    def e_dyncast(self, e, st):
        v = self.rvalue(e["e"], st)
        t = strip_cv(e.get("t", "")).replace("const ", "").rstrip("*& ").strip()
        return self.dyncast(v, t)

    def dyncast(self, v, t):
        if v.op == "nullptr":
            return v
        if v.op == "ite":
            return ite(v.args[0], self.dyncast(v.args[1], t), self.dyncast(v.args[2], t))
        if v.op == "addr" and v.args[0] in self.dyntype:
            return v if self.H.isa(self.dyntype[v.args[0]], t) else mk("nullptr")
        return mk("dyncast", v, t)

    def e_constcast(self, e, st):
        self.emit("constcast", st, e["l"])
        return self.expr(e["e"], st)

    def e_reinterpret(self, e, st):
        self.emit("reinterpret", st, e["l"])
        return self.expr(e["e"], st)

    def e_stdinit(self, e, st):
        return self.rvalue(e["e"], st)

    def e_init(self, e, st):
        t = strip_cv(e.get("t", ""))
        vals = [self.rvalue(x, st) for x in e["a"]]
        rec = self.P.records.get(t)
        if rec and rec["fields"]:
            return mk("obj", t, tuple((f["n"], v) for f, v in zip(rec["fields"], vals)))
        if is_scalar(t):
            return vals[0] if vals else ZERO
        if "std::array" in t and len(vals) == 1 and vals[0].op == "list":
            return vals[0]
        return mk("list", *vals)

    def e_cond(self, e, st):
        c = self.cond(e["c"], st)
        if c is TRUE:
            return self.expr(e["x"], st)
        if c is FALSE:
            return self.expr(e["y"], st)
        a, b = st.copy(), st.copy()
        a.assume(c)
        b.assume(bnot(c))
        x = self.expr(e["x"], a)
        y = self.expr(e["y"], b)
        if x is None:
            x = mk("void")
        if y is None:
            y = mk("void")
        lx, ly = self.is_loc(x), self.is_loc(y)
        if not (lx and ly):
            x = self.read_any(a, x) if lx else x
            y = self.read_any(b, y) if ly else y
        da, db = a.dead, b.dead
        self.join2(st, c, a, b)
        if da:
            return y
        if db:
            return x
        return ite(c, x, y)

    def e_un(self, e, st):
        op = e["op"]
        if op in ("++", "--"):
            loc = self.lvalue(e["e"], st)
            v = self.read_any(st, loc)
            d = ONE if op == "++" else num(-1)
            nv = self.advance(v, d)
            self.write(st, loc, nv, e["l"])
            return v if e.get("post") else loc
        if op == "*":
            v = self.rvalue(e["e"], st)
            return self.deref(st, v)
        if op == "&":
            l = self.expr(e["e"], st)
            return mk("addr", l)
        v = self.rvalue(e["e"], st)
        if op == "-":
            return self.negv(v, e)
        if op == "+":
            return v
        if op == "!":
            return bnot(self.tobool(v))
        return mk("m", "un" + op, v)

    def advance(self, v, d):
        if v.op == "iter":
            return mk("iter", v.args[0], add(v.args[1], d))
        if v.op == "ite":
            return ite(v.args[0], self.advance(v.args[1], d), self.advance(v.args[2], d))
        return add(v, d)

    def negv(self, v, e=None):
        if v.op == "vec":
            return mk("vec", *[neg(x) for x in v.args])
        if v.op == "mat2":
            return mk("mat2", v.args[0], v.args[1], tuple(neg(x) for x in v.args[2]))
        if v.op == "ite":
            return ite(v.args[0], self.negv(v.args[1]), self.negv(v.args[2]))
        return neg(v)

    def e_bin(self, e, st):
        op = e["op"]
        if op == ",":
            self.expr(e["x"], st)
            return self.expr(e["y"], st)
        if op in ("&&", "||"):
            a = self.cond(e["x"], st)
            if op == "&&":
                if a is FALSE:
                    return FALSE
                s2 = st.copy()
                s2.assume(a)
                if s2.dead:
                    return FALSE
                b = self.cond(e["y"], s2)
                self.absorb(st, a, s2)
                return band(a, b)
            if a is TRUE:
                return TRUE
            s2 = st.copy()
            s2.assume(bnot(a))
            if s2.dead:
                return TRUE
            b = self.cond(e["y"], s2)
            self.absorb(st, bnot(a), s2)
            return bor(a, b)
        x = self.rvalue(e["x"], st)
        y = self.rvalue(e["y"], st)
        return self.binop(op, x, y, e["x"].get("t"), e["y"].get("t"))

    def absorb(self, st, c, s2):
        """side effects of a conditionally evaluated operand"""
        if s2.dead:
            st.assume(bnot(c))
            return
        if s2.env == st.env and all(x in st.pc or x is c for x in s2.pc):
            return
        o = st.copy()
        o.assume(bnot(c))
        self.join2(st, c, s2, o)

    def sorted_range(self, st, name, vals):
        """searches in a sequence of known length whose order is known"""
        a, b = vals[0].args[1], vals[1].args[1]
        if not (is_num(a) and is_num(b)):
            return None
        lo, hi = int(a.args[0]), int(b.args[0])
        el = [self.val(st, self.read(st, self.advance_elt(vals[0].args[0], i))) for i in range(lo, hi)]
        if name == "is_sorted" and len(vals) == 2:
            return band(*[bnot(self.ordered(y, x)) for x, y in zip(el, el[1:])])
        if name in ("lower_bound", "upper_bound") and len(vals) == 3:
            idx = num(hi)
            for i in reversed(range(lo, hi)):
                c = bnot(self.ordered(el[i - lo], vals[2])) if name == "lower_bound" else self.ordered(vals[2], el[i - lo])
                if c not in (TRUE, FALSE):
                    return None
                idx = num(i) if c is TRUE else idx
            return mk("iter", vals[0].args[0], idx)
        return None

    def advance_elt(self, cont, i):
        return mk("elt", cont, num(i)) if cont.op not in ("list", "vec") else cont.args[i]

    def numval(self, t):
        """exact value of a term over the symbols of the valuation"""
        v = self.valuation.get(t)
        if v is not None:
            return v
        if t.op == "num":
            return t.args[0]
        if t.op == "add":
            r = t.args[0]
            for x, c in t.args[1]:
                v = self.numval(x)
                if v is None:
                    return None
                r += c * v
            return r
        if t.op == "mul":
            r = Fr(1)
            for x, e in t.args:
                v = self.numval(x)
                if v is None or e.denominator != 1 or (v == 0 and e < 0):
                    return None
                r *= v ** int(e)
            return r
        return None

    def ordered(self, a, b):
        """is a < b ?"""
        if self.valuation is not None:
            x, y = self.numval(a), self.numval(b)
            if x is not None and y is not None:
                return TRUE if x < y else FALSE
        return cmp_lt(a, b)

    def binop(self, op, x, y, tx=None, ty=None):
        if x.op == "ite" and (self._structured(x.args[1]) or self._structured(x.args[2])) and op in "+-*/":
            return ite(x.args[0], self.binop(op, x.args[1], y, tx, ty), self.binop(op, x.args[2], y, tx, ty))
        if y.op == "ite" and (self._structured(y.args[1]) or self._structured(y.args[2])) and op in "+-*/":
            return ite(y.args[0], self.binop(op, x, y.args[1], tx, ty), self.binop(op, x, y.args[2], tx, ty))
        if op in ("+", "-") and x.op == "iter" and y.op == "iter" and x.args[0] is y.args[0]:
            return sub(x.args[1], y.args[1])
        if x.op == "iter" and op in ("+", "-") and y.op != "iter":
            return mk("iter", x.args[0], add(x.args[1], y if op == "+" else neg(y)))
        bothint = is_int(tx) and is_int(ty)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if x.op == "iter" and y.op == "iter" and x.args[0] is y.args[0]:
                x, y, bothint = x.args[1], y.args[1], True
            if self.valuation is not None:
                a, b = self.numval(x), self.numval(y)
                if a is not None and b is not None:
                    return TRUE if {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op] else FALSE
            if op in ("==", "!="):
                if (x in (TRUE, FALSE) or y in (TRUE, FALSE)):
                    c = cmp_eq(self.tobool(x), self.tobool(y))
                else:
                    c = cmp_eq(x, y)
                return c if op == "==" else bnot(c)
            if op == "<":
                return cmp_lt(x, y)
            if op == ">":
                return cmp_lt(y, x)
            if op == "<=":
                return cmp_le(x, y, bothint)
            return cmp_le(y, x, bothint)
        if op in ("+", "-") and (x.op == "vec") != (y.op == "vec"):
            o, t, n = (y, ty, len(x.args)) if x.op == "vec" else (x, tx, len(y.args))
            if t and "Eigen::" in t and "Array" not in t and not self._structured(o) and o.op != "zeros":
                o = mk("vec", *[self.entry(o, i) for i in range(n)])
                x, y = (x, o) if x.op == "vec" else (o, y)
        if op == "+":
            if x.op in ("str", "cat") or y.op in ("str", "cat"):
                return self.cat(x, y)
            return self.vadd(x, y)
        if op == "-":
            return self.vadd(x, self.negv(y))
        if op == "*":
            return self.vmul(x, y, tx, ty)
        if op == "/":
            if bothint:
                if is_num(x) and is_num(y) and y.args[0] != 0:
                    q = abs(x.args[0]) // abs(y.args[0])
                    return num(q if (x.args[0] >= 0) == (y.args[0] > 0) else -q)
                if y is ONE:
                    return x
                return mk("m", "idiv", x, y)
            return self.vmul(x, power(y, -1), tx, ty) if not self._structured(y) else mk("m", "div", x, y)
        if op == "%":
            if is_num(x) and is_num(y) and y.args[0]:
                return num(int(x.args[0]) % int(y.args[0]))
            return mk("m", "mod", x, y)
        return mk("m", "op" + op, x, y)

    def cat(self, *xs):
        out = []
        for x in xs:
            if x.op == "cat":
                out += list(x.args)
            else:
                out.append(x)
        merged = []
        for x in out:
            if merged and x.op == "str" and merged[-1].op == "str":
                merged[-1] = mk("str", merged[-1].args[0] + x.args[0])
            else:
                merged.append(x)
        return merged[0] if len(merged) == 1 else mk("cat", *merged)

    def entry(self, v, i):
        """entry i of a vector that is not spelled out"""
        if v.op == "add" and v.args[0] == 0:
            return add(*[scale(c, self.entry(t, i)) for t, c in v.args[1]])
        return self.project(v, mk("elt", v, num(i)))

    def vadd(self, x, y):
        if x.op == "vec" and y.op == "vec" and len(x.args) == len(y.args):
            return mk("vec", *[add(a, b) for a, b in zip(x.args, y.args)])
        if x.op == "mat2" and y.op == "mat2" and x.args[:2] == y.args[:2]:
            return mk("mat2", x.args[0], x.args[1], tuple(add(a, b) for a, b in zip(x.args[2], y.args[2])))
        if x.op == "zeros":
            return y
        if y.op == "zeros":
            return x
        return add(x, y)

    def vmul(self, x, y, tx=None, ty=None):
        if x.op == "vec" and y.op not in ("vec", "mat2", "dyn"):
            return mk("vec", *[mul(a, y) for a in x.args])
        if y.op == "vec" and x.op not in ("vec", "mat2", "dyn"):
            return mk("vec", *[mul(a, x) for a in y.args])
        if x.op == "mat2" and y.op == "vec" and x.args[1] == len(y.args):
            r, c, m = x.args
            return mk("vec", *[add(*[mul(m[i * c + j], y.args[j]) for j in range(c)]) for i in range(r)])
        if x.op == "vec" and y.op == "mat2" and y.args[0] == len(x.args):
            r, c, m = y.args
            return mk("vec", *[add(*[mul(x.args[i], m[i * c + j]) for i in range(r)]) for j in range(c)])
        if x.op == "mat2" and y.op == "mat2" and x.args[1] == y.args[0]:
            r, k, m = x.args
            _, c, n = y.args
            return mk("mat2", r, c, tuple(add(*[mul(m[i * k + q], n[q * c + j]) for q in range(k)]) for i in range(r) for j in range(c)))
        if x.op == "mat2" and not self._structured(y):
            return mk("mat2", x.args[0], x.args[1], tuple(mul(a, y) for a in x.args[2]))
        if y.op == "mat2" and not self._structured(x):
            return mk("mat2", y.args[0], y.args[1], tuple(mul(a, x) for a in y.args[2]))
        if x.op == "vec" and y.op == "vec" and len(x.args) == len(y.args):
            return add(*[mul(a, b) for a, b in zip(x.args, y.args)])   # row * col
        # big matrices: keep the order of non-scalar factors
        nx = tx is not None and "Eigen::" in tx
        ny = ty is not None and "Eigen::" in ty
        if nx and ny:
            # pull scalar coefficients out
            cx, dx = (x.args[1][0][1], x.args[1][0][0]) if x.op == "add" and x.args[0] == 0 and len(x.args[1]) == 1 else (Fr(1), x)
            cy, dy = (y.args[1][0][1], y.args[1][0][0]) if y.op == "add" and y.args[0] == 0 and len(y.args[1]) == 1 else (Fr(1), y)
            return scale(cx * cy, mk("mm", dx, dy))
        return mul(x, y)

    def e_assign(self, e, st):
        op = e["op"]
        if op == "=":
            v = self.rvalue(e["y"], st)
            loc = self.lvalue(e["x"], st)
        else:
            v0 = self.rvalue(e["y"], st)
            loc = self.lvalue(e["x"], st)
            old = self.read_any(st, loc)
            v = self.binop(op[:-1], old, v0, e["x"].get("t"), e["y"].get("t"))
            if old.op == "iter":
                v = self.advance(old, v0 if op == "+=" else neg(v0))
        if st.dead:
            return loc
        self.write(st, loc, v, e["l"])
        return loc

    def e_lambda(self, e, st):
        caps = {}
        fr = self.cur
        for c in e["cap"]:
            if "id" not in c:
                continue
            if c.get("init"):
                loc = self.newvar(c["n"])
                st.env[loc] = self.rvalue(c["init"], st)
                caps[c["id"]] = loc
                continue
            f2 = fr
            loc = None
            while f2 is not None:
                if c["id"] in f2.vars:
                    loc = f2.vars[c["id"]]
                    break
                f2 = f2.parent
            if loc is None:
                continue
            if c["by"] == "copy":
                l2 = self.newvar(c["n"])
                st.env[l2] = self.read_any(st, loc)
                loc = l2
            caps[c["id"]] = loc
        self.fresh += 1
        L = mk("lambda", self.fresh)
        if not hasattr(self, "_lambdas"):
            self._lambdas = {}
        self._lambdas[L] = (e, caps, self.cur_this() if self.cur.this is not None or self.cur.parent else None, self.cur.fn)
        return L

    def call_lambda(self, L, argv, st, line, fn=None):
        e, caps, this, host = self._lambdas[L]
        e = instance(e, fn)
        if e is None:
            return mk("unknown", "generic lambda")
        f = {"q": host["q"] + "::lambda", "n": "lambda", "file": host["file"], "p": e["p"], "b": e["b"],
             "rt": "", "key": "lambda%d" % L.args[0], "l": e["l"], "islambda": True}
        argv = [self.val(st, a) if self.is_loc(a) and i < len(e["p"]) and e["p"][i].get("by") in ("p", "v") and not is_view(e["p"][i]["t"]) else a
                for i, a in enumerate(argv)]
        v, _ = self.call_function(f, this, None, argv, st, line, closure=caps)
        return v

    def e_throw(self, e, st):
        self.x_throw_expr(e, st)
        return mk("void")

    def e_new(self, e, st):
        init = self.rvalue(e["e"], st) if e.get("e") else mk("void")
        t = strip_cv(e["at"])
        self.emit("new", st, e["l"], t=t)
        return mk("newobj", t, init)

    def e_delete(self, e, st):
        v = self.rvalue(e["e"], st)
        self.emit("delete", st, e["l"], val=v)
        return mk("void")

    def e_other(self, e, st):
        for x in e.get("a", []):
            self.expr(x, st)
        self.notes.add("unmodelled expression %s" % e.get("cls"))
        return mk("opaque", e.get("cls"))

    def e_opaque(self, e, st):
        return mk("opaque", "?")

    # ------------------------------------------------------------------- calls
    def args(self, e, st, skip=0):
        out = []
        pr = e.get("pr", "")
        for i, a in enumerate(e["a"][skip:]):
            view = is_view(a.get("t"))
            r = self.expr(unview(a), st)
            if r is None:
                r = mk("void")
            by = pr[i] if i < len(pr) else "v"
            if by in ("r", "c", "m") or view:
                out.append(r)
            else:
                out.append(self.read_any(st, r) if self.is_loc(r) else r)
        return out

    def e_ctor(self, e, st, declloc=None):
        t = strip_cv(e.get("t", ""))
        if (e.get("copy") or e.get("move")) and len(e["a"]) >= 1 and is_view(t):
            return self.expr(e["a"][0], st)
        if (e.get("copy") or e.get("move")) and len(e["a"]) >= 1:
            return self.rvalue(e["a"][0], st)
        q = e.get("q", "")
        f = self.P.functions.get(e.get("fn"))
        if f and f["b"] is not None and self.can_inline(f):
            argv = self.args(e, st)
            if st.dead:
                return mk("void")
            loc = declloc or self.newvar("obj")
            self.dyntype[loc] = t
            self.call_function(f, loc, t, argv, st, e["l"])
            if st.dead:
                return mk("void")
            rec = self.P.records.get(t)
            names = []
            if rec:
                for c in reversed(self.H.bases(t)):
                    names += [x["n"] for x in self.P.records.get(c, {"fields": []})["fields"]]
            ent = []
            for k in list(st.env):
                if k.op == "fld" and k.args[0] is loc:
                    ent.append((k.args[1], self.read(st, k)))
            ent.sort()
            for k in [k for k in st.env if self._under(k, loc)]:
                del st.env[k]
            return mk("obj", t, tuple(ent))
        rawargs = self.args(e, st)
        vals = [self.val(st, a) if self.is_loc(a) else a for a in rawargs]
        if st.dead:
            return mk("void")
        if t == "std::allocator<char>":
            return mk("void")
        if t.startswith("std::vector<"):
            vals = [v for v in vals if not (v.op == "new" and str(v.args[0]).startswith("std::allocator<"))]
        if t.startswith("Eigen::"):
            vals = [self.enum_value(v) for v in vals]
        dm = small_dims(t)
        if t.startswith("std::pair<") or t.startswith("std::tuple<"):
            if len(vals) == 1 and vals[0].op in ("tup",):
                return vals[0]
            if len(vals) == 1 and t.startswith("std::pair<"):
                return vals[0]
            return mk("tup", *vals)
        if t.startswith(("std::basic_string<", "std::__cxx11::basic_string<")):
            if len(vals) >= 1 and (len(e["a"]) == 1 or vals[0].op == "str"):
                return vals[0]
            if not vals:
                return mk("str", "")
        if t.startswith("std::unique_ptr<") or t.startswith("std::shared_ptr<") or "SmartPtr<" in t:
            if not vals:
                return mk("nullptr")
            if len(vals) == 1:
                return vals[0]
        if t.startswith("std::initializer_list") and len(vals) == 1:
            return vals[0]
        if t.startswith("std::function<") and len(vals) == 1:
            return vals[0]
        if t.startswith("std::optional<") and len(vals) == 1:
            return vals[0]
        if "basic_json<" in t or t.startswith("nlohmann"):
            if len(vals) >= 1 and not (len(vals) == 3 and vals[0].op == "list"):
                return vals[0]
            if vals and vals[0].op == "list":
                if vals[0].args and all(x.op == "list" and len(x.args) == 2 and x.args[0].op == "str" for x in vals[0].args):
                    return mk("jobj", tuple(sorted({x.args[0].args[0]: x.args[1] for x in reversed(vals[0].args)}.items())))
                return vals[0]
            return mk("new", "json")
        if self.vectors and t == "Eigen::Matrix<double, -1, 1, 0, -1, 1>" and len(vals) == 1 and is_num(vals[0]) and is_scalar(e["a"][0].get("t", "")):
            n = int(vals[0].args[0])
            if 0 <= n <= 64:
                return mk("vec", *[mk("uninit", num(i)) for i in range(n)])
        if dm:
            r, c = dm
            if len(vals) == r * c and (r == 1 or c == 1):
                return mk("vec", *vals)
            if len(vals) == 1:
                return vals[0]
        if is_view(t) and len(vals) >= 1:
            return rawargs[0]
        if t.startswith("Eigen::") and len(vals) == 1 and not is_scalar(e["a"][0].get("t", "")):
            return vals[0]
        if t.startswith("std::vector<") and len(vals) >= 1 and vals[0].op == "list":
            return vals[0]
        if t.startswith("std::vector<") and len(vals) == 2 and vals[0].op == "iter" and vals[1].op == "iter" and vals[0].args[0] is vals[1].args[0] \
                and is_num(vals[0].args[1]) and is_num(vals[1].args[1]):
            c = vals[0].args[0]
            c = self.val(st, c) if self.is_loc(c) else c
            if c.op in ("list", "vec"):
                return mk("list", *c.args[int(vals[0].args[1].args[0]):int(vals[1].args[1].args[0])])
        if t.startswith("std::vector<") and not vals:
            return mk("list")
        if t.startswith("std::vector<") and 1 <= len(vals) <= 2 and is_num(vals[0]) and is_scalar(e["a"][0].get("t", "")) and 0 <= vals[0].args[0] <= 64:
            el = strip_cv(t[len("std::vector<"):].split(",")[0].rstrip(">"))
            if len(vals) == 2:
                return mk("list", *[vals[1]] * int(vals[0].args[0]))
            if is_scalar(el) or vals[0] is ZERO:
                return mk("list", *[ZERO] * int(vals[0].args[0]))
        if (t.startswith("std::map<") or t.startswith("std::set<")) and vals and vals[0].op == "list":
            return vals[0]
        if t.startswith("std::filesystem::path") or t.startswith("std::filesystem::__cxx11::path"):
            if vals:
                return vals[0]
        if t.startswith("std::reference_wrapper"):
            return vals[0]
        if ("iterator" in t) and len(vals) == 1:
            return vals[0]
        self.emit("ctor", st, e["l"], t=t, args=tuple(vals), q=q, key=e.get("fn"))
        return mk("new", t, *vals)

    def e_call(self, e, st):
        q = e.get("q")
        if q is None:
            cal = self.rvalue(e["callee"], st) if e.get("callee") else mk("void")
            argv = self.args(e, st)
            return self.apply(cal, argv, st, e["l"])
        f = self.P.functions.get(e.get("fn"))
        if f is not None and f["b"] is not None:
            ex = noreturn(self.P, f)
            if ex:
                argv = self.args(e, st)
                if not st.dead:
                    self.do_throw(mk("new", ex), st, e["l"])
                return mk("void")
        if self.stub is not None:
            argv = self.args(e, st)
            if st.dead:
                return mk("void")
            r = self.stub(self, st, q, q.split("::")[-1], None, argv, tuple(self.val(st, a) for a in argv), e["l"], e)
            if r is not None:
                return r
            if f is not None and f["b"] is not None and self.can_inline(f):
                return self.call_function(f, None, None, argv, st, e["l"])[0]
            return self.external(e, st, q, None, argv, e.get("pr", ""))
        if f is not None and f["b"] is not None and self.can_inline(f):
            argv = self.args(e, st)
            if st.dead:
                return mk("void")
            v, _ = self.call_function(f, None, None, argv, st, e["l"])
            return v
        return self.external(e, st, q, None, self.args(e, st), e.get("pr", ""))

    def apply(self, cal, argv, st, line, fn=None):
        if cal.op == "lambda":
            return self.call_lambda(cal, argv, st, line, fn)
        if cal.op == "fnptr" and cal.args[0] in self.P.functions:
            f = self.P.functions[cal.args[0]]
            if not f.get("rc") or f.get("ms"):
                if self.can_inline(f):
                    v, _ = self.call_function(f, None, None, argv, st, line)
                    return v
            else:  # pointer to member
                recv, rest = argv[0], argv[1:]
                if recv.op == "addr":
                    recv = recv.args[0]
                elif not self.is_loc(recv) or recv.op == "deref":
                    recv = recv if recv.op == "deref" else mk("deref", recv)
                return self.method(st, recv, f, cal.args[0], rest, True, line, f["n"], f.get("mc"), f["q"], None)
        vals = tuple(self.val(st, a) for a in argv)
        self.emit("call", st, line, name="<indirect>", q="<indirect>", recv=cal, args=vals, key=None, res=mk("void"), mc=False, locs=tuple(argv))
        return mk("m", "apply", cal, *vals)

    def resolve_virtual(self, recv, key, static_cls):
        if not self.devirt:
            return None
        c = self.dyntype.get(recv)
        if c:
            k, _ = self.H.final_overrider(c, key)
            if k:
                return k
        u = self.H.unique_impl(key)
        return u

    def e_mcall(self, e, st):
        obj = e["e"]
        r = self.expr(obj, st)
        if r is None:
            r = mk("void")
        # arrow calls on raw pointers: the exporter gives the pointer expression
        if (obj.get("t") or "").rstrip().endswith("*") or obj["k"] == "this":
            v = self.read_any(st, r) if self.is_loc(r) else r
            loc = self.deref(st, v)
        else:
            loc = r
            if e.get("in") or e.get("fn") in self.P.functions:
                v = self.read_any(st, r) if self.is_loc(r) else r
                if v.op == "addr":
                    loc = v.args[0]
        f = self.P.functions.get(e.get("fn"))
        if f is None and e.get("fn") and not e.get("in"):
            return self.ext_method(e, st, loc)
        argv = self.args(e, st)
        if st.dead:
            return mk("void")
        if not self.is_loc(loc):
            l2 = self.newvar("tmp")
            st.env[l2] = loc
            loc = l2
        return self.method(st, loc, f, e.get("fn"), argv, e.get("virt"), e["l"], e.get("n"), e.get("mc"), e.get("q"), e)

    def method(self, st, loc, f, key, argv, virt, line, name, mc, q, node):
        if loc.op == "ite":
            # receiver chosen by a gate: evaluate both
            a, b = st.copy(), st.copy()
            c = loc.args[0]
            a.assume(c)
            b.assume(bnot(c))
            va = self.method(a, loc.args[1], f, key, argv, virt, line, name, mc, q, node) if not a.dead else mk("void")
            vb = self.method(b, loc.args[2], f, key, argv, virt, line, name, mc, q, node) if not b.dead else mk("void")
            self.join2(st, c, a, b)
            return ite(c, va, vb)
        if virt:
            k = self.resolve_virtual(loc, key, None)
            if k and k in self.P.functions:
                f = self.P.functions[k]
            elif k is None:
                f = None
            else:
                f = self.P.functions.get(k)
        if self.stub is not None:
            vals = tuple(self.val(st, a) for a in argv)
            r = self.stub(self, st, q or (f or {}).get("q", ""), name, loc, argv, vals, line, node)
            if r is not None:
                return r
        if f is not None and f["b"] is not None and not (self.keep and self.keep(loc, f)) and self.can_inline(f):
            v, _ = self.call_function(f, loc, self.dyntype.get(loc) or f.get("rc"), argv, st, line)
            return v
        rv = self.read_any(st, loc)
        vals = tuple(self.val(st, a) for a in argv)
        pr = (node or {}).get("pr", "") if node else ("".join(p["by"] for p in f["p"]) if f else "")
        if mc is None and f:
            mc = f.get("mc")
        res = mk("m", name or "?", rv, *vals)
        self.emit("call", st, line, name=name, q=q, recv=loc, args=vals, key=key, res=res, mc=bool(mc), locs=tuple(argv), node=node)
        self.havoc_args(st, argv, self.mutpr(node, pr), name, vals, line)
        if not mc:
            self.mutate(st, loc, name, vals, line)
        rt = (node or {}).get("rt", "") if node else (f or {}).get("rt", "")
        if isinstance(rt, str) and rt.rstrip().endswith("&") and not rt.startswith("const std::basic_string"):
            return mk("deref", mk("m", name or "?", loc if loc.op != "var" else rv, *vals)) if False else mk("deref", mk("m", name or "?", rv if self.root(loc).op == "var" else loc, *vals))
        return res

    def mutate(self, st, loc, name, vals, line):
        old = self.read_any(st, loc)
        for k in [k for k in st.env if k is not loc and k.op in ("fld", "elt", "tget") and self._under(k, loc)]:
            del st.env[k]
        st.env[loc] = mk("mut", old, name or "?", *vals)

    @staticmethod
    def mutpr(node, pr):
        """by-value views with non-const elements are writable by the callee"""
        if not node or "a" not in node:
            return pr
        a = node["a"]
        if node.get("k") == "opcall" and node.get("opm"):
            a = a[1:]
        out = []
        for i, x in enumerate(a):
            c = pr[i] if i < len(pr) else "v"
            t = strip_cv(x.get("t"))
            if c == "v" and is_view(t) and "<const" not in t:
                c = "r"
            out.append(c)
        return "".join(out)

    def havoc_args(self, st, argv, pr, name, vals, line):
        for i, a in enumerate(argv):
            by = pr[i] if i < len(pr) else "v"
            tgt = None
            if by == "r" and self.is_loc(a):
                tgt = a
            elif by == "p" and a.op == "addr":
                tgt = a.args[0]
            elif by == "v" and a.op == "addr" and False:
                tgt = a.args[0]
            if tgt is not None and tgt.op in ("var", "fld", "elt", "tget", "deref", "par", "glob", "seg"):
                if tgt.op == "seg":
                    base, off, n = tgt.args
                    self.emit("outarg", st, line, loc=tgt, name=name)
                    continue
                old = self.read_any(st, tgt)
                for k in [k for k in st.env if k is not tgt and k.op in ("fld", "elt", "tget") and self._under(k, tgt)]:
                    del st.env[k]
                st.env[tgt] = mk("out", name or "?", num(i), old, *vals)

    def e_opcall(self, e, st):
        op = e["op"]
        f = self.P.functions.get(e.get("fn"))
        if op == "()" and "(lambda at " in e["a"][0].get("t", ""):
            cal = self.rvalue(e["a"][0], st)
            if cal.op == "lambda":
                argv = self.args(e, st, skip=1)
                return mk("void") if st.dead else self.apply(cal, argv, st, e["l"], e.get("fn"))
        if f is not None and f["b"] is not None and self.can_inline(f) and not (f.get("virt") and False):
            if e.get("opm"):
                loc = self.lvalue(e["a"][0], st)
                argv = self.args(e, st, skip=1)
                if st.dead:
                    return mk("void")
                return self.method(st, loc, f, e.get("fn"), argv, e.get("virt"), e["l"], "operator" + op, e.get("mc"), e.get("q"), e)
            argv = self.args(e, st)
            if st.dead:
                return mk("void")
            v, _ = self.call_function(f, None, None, argv, st, e["l"])
            return v
        if e.get("in"):
            if e.get("opm"):
                loc = self.lvalue(e["a"][0], st)
                argv = self.args(e, st, skip=1)
                return self.method(st, loc, None if e.get("virt") else f, e.get("fn"), argv, e.get("virt"), e["l"], "operator" + op, e.get("mc"), e.get("q"), e)
            return self.external(e, st, e["q"], None, self.args(e, st), e.get("pr", ""))
        return self.ext_operator(e, st, op)

    # ------------------------------------------------- models of library calls
    def ext_operator(self, e, st, op):
        A = e["a"]
        t0 = strip_cv(A[0].get("t", ""))
        if op in ("->", "*") and len(A) == 1:
            v = self.rvalue(A[0], st)
            if op == "->":
                # value is a pointer; mcall/field on it derefs via type '*'
                if v.op in ("iter",):
                    return mk("addr", self.deref(st, v))
                return v
            if v.op == "mut" and v.args[1] in ("++",):
                pass
            if "optional<" in t0:
                return self.lvalue(A[0], st)
            return self.deref(st, v)
        if op in ("++", "--"):
            loc = self.lvalue(A[0], st)
            v = self.read_any(st, loc)
            nv = self.advance(v, ONE if op == "++" else num(-1))
            self.write(st, loc, nv, e["l"])
            return v if len(A) == 2 else loc
        if op == "[]" or (op == "()" and t0.startswith("Eigen::")):
            base = self.expr(A[0], st)
            if base is None:
                base = mk("void")
            idx = [self.rvalue(x, st) for x in A[1:]]
            idx = [canon(i) if i.op not in ("str", "cat") else i for i in idx]
            key = idx[0] if len(idx) == 1 else mk("pair", *idx)
            if base.op == "seg":
                return mk("elt", base.args[0], add(base.args[1], key))
            if self.is_loc(base):
                if "basic_json" in t0 or "map<" in t0:
                    self.emit("access", st, e["l"], loc=base, key=key, const=bool(e.get("mc")), how="[]")
                return mk("elt", base, key)
            return self.project(base, mk("elt", base, key))
        if op == "()":
            cal = self.rvalue(A[0], st)
            argv = self.args(e, st, skip=1)
            if cal.op in ("lambda", "fnptr"):
                return self.apply(cal, argv, st, e["l"], e.get("fn"))
            loc = self.expr(A[0], st)
            vals = tuple(self.val(st, a) for a in argv)
            res = mk("m", "operator()", cal, *vals)
            self.emit("call", st, e["l"], name="operator()", q=e.get("q"), recv=loc, args=vals, key=e.get("fn"), res=res, mc=bool(e.get("mc")), locs=tuple(argv), node=e)
            self.havoc_args(st, argv, e.get("pr", ""), "operator()", vals, e["l"])
            if not e.get("mc") and loc is not None and self.is_loc(loc):
                self.mutate(st, loc, "operator()", vals, e["l"])
            return res
        if op == "=":
            v = self.rvalue(A[1], st)
            loc = self.lvalue(A[0], st)
            if st.dead:
                return loc
            if v.op == "list" and len(v.args) == 0:
                pass
            self.write(st, loc, v, e["l"])
            return loc
        if op in ("+=", "-=", "*=", "/="):
            y = self.rvalue(A[1], st)
            loc = self.lvalue(A[0], st)
            old = self.read_any(st, loc)
            if op == "+=" and ("basic_string" in t0 or old.op in ("str", "cat")):
                v = self.cat(old, y)
            elif old.op == "iter":
                v = self.advance(old, y if op == "+=" else neg(y))
            else:
                v = self.binop(op[0], old, y, A[0].get("t"), A[1].get("t"))
            if not st.dead:
                self.write(st, loc, v, e["l"])
            return loc
        if op in ("<<", ">>"):
            loc = self.expr(A[0], st)
            y = self.expr(A[1], st)
            if y is None:
                y = mk("void")
            if "Eigen::" in t0 and op == "<<":
                # comma initialiser
                if self.is_loc(loc):
                    v = self.val(st, y)
                    self.write(st, loc, mk("vec", v), e["l"], emit=False)
                    return mk("comma", loc)
            if op == ">>":
                if self.is_loc(y):
                    src = self.val(st, loc) if loc is not None else mk("void")
                    self.emit("call", st, e["l"], name=">>", q=e.get("q"), recv=loc, args=(y,), key=e.get("fn"), res=mk("void"), mc=False, locs=(y,), node=e)
                    self.write(st, y, mk("m", ">>", src), e["l"])
                return loc
            yv = self.val(st, y) if self.is_loc(y) else y
            if self.is_stream(t0):
                self.emit("stream", st, e["l"], stream=loc, val=yv, t=t0)
                if loc is not None and self.is_loc(loc) and self.root(loc).op == "var":
                    old = self.read_any(st, loc)
                    if old.op == "new" and "ostringstream" in str(old.args[0]) or old.op in ("cat", "str"):
                        st.env[loc] = self.cat(mk("str", "") if old.op == "new" else old, yv)
                    else:
                        st.env[loc] = mk("mut", old, "<<", yv)
                return loc
            return mk("m", "op<<", self.val(st, loc) if loc is not None else mk("void"), yv)
        if op == "," and "CommaInitializer" in t0:
            c = self.expr(A[0], st)
            v = self.rvalue(A[1], st)
            if c is not None and c.op == "comma":
                loc = c.args[0]
                old = st.env.get(loc)
                if old is not None and old.op in ("vec",):
                    st.env[loc] = mk("vec", *(old.args + (v,)))
                return c
            return mk("void")
        if op in ("+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=", "%") and len(A) == 2:
            x, y = self.rvalue(A[0], st), self.rvalue(A[1], st)
            if op == "/" and "filesystem" in t0:
                return self.cat_path(x, y)
            if op == "+" and "basic_string" in (t0 + strip_cv(A[1].get("t", ""))):
                return self.cat(x, y)
            return self.binop(op, x, y, A[0].get("t"), A[1].get("t"))
        if op == "-" and len(A) == 1:
            return self.negv(self.rvalue(A[0], st))
        if op == "!" and len(A) == 1:
            return bnot(self.tobool(self.rvalue(A[0], st)))
        vals = [self.rvalue(x, st) for x in A]
        res = mk("m", "operator" + op, *vals)
        self.emit("call", st, e["l"], name="operator" + op, q=e.get("q"), recv=vals[0], args=tuple(vals[1:]), key=e.get("fn"), res=res, mc=bool(e.get("mc")), locs=(), node=e)
        return res

    def cat_path(self, x, y):
        xs = list(x.args) if x.op == "path/" else [x]
        ys = list(y.args) if y.op == "path/" else [y]
        return mk("path/", *(xs + ys))

    @staticmethod
    def is_stream(t):
        return "stream" in t

    def size_of(self, c, st):
        v = self.val(st, c) if self.is_loc(c) else c
        if v.op == "list":
            return num(len(v.args))
        if v.op == "jobj":
            return num(len(v.args[0]))
        if jnull(v):
            return ZERO
        if v.op == "vec":
            return num(len(v.args))
        if v.op == "seg":
            return v.args[2]
        return mk("m", "size", v)

    def ext_method(self, e, st, loc):
        name = e.get("n") or ""
        obj = e["e"]
        t0 = strip_cv(obj.get("t", ""))
        line = e["l"]
        pr = e.get("pr", "")
        isloc = self.is_loc(loc)
        # conversions and identities
        if e.get("conv"):
            if "ref" in name.lower() or True:
                v = self.read_any(st, loc) if isloc else loc
                if "unique_ptr" in t0 or "function" in t0 or "optional" in t0:
                    if "bool" in name:
                        return bnot(cmp_eq(v, mk("nullptr"))) if v.op not in ("newobj",) else TRUE
                if "bool" in name and self.is_stream(t0):
                    return bnot(mk("m", "fail", v))
                if "reference_wrapper" in t0:
                    return loc
                return loc if isloc else v
        if name in ("get",) and ("unique_ptr" in t0 or "shared_ptr" in t0 or "reference_wrapper" in t0):
            return self.read_any(st, loc) if isloc else loc
        if name in ("noalias", "array", "matrix", "eval", "derived") and "Eigen" in t0:
            return loc
        if "basic_json" in t0 and name in ("get", "get_ref", "get_ptr") and not e["a"]:
            return loc
        if name == "value" and "optional<" in t0:
            return loc
        if name == "has_value":
            v = self.read_any(st, loc) if isloc else loc
            return mk("m", "has_value", v)
        if name in ("size", "rows", "cols", "length", "count") and not e["a"]:
            if name in ("size", "length", "rows"):
                if isloc:
                    v = self.read_any(st, loc)
                    return self.size_of(v if v.op in ("list", "vec", "seg") else v, st)
                return self.size_of(loc, st)
        if name in ("begin", "cbegin"):
            v = loc
            if isloc and self.root(loc).op == "var":
                vv = self.read_any(st, loc)
                v = loc if vv is loc else loc
            return mk("iter", v, ZERO)
        if name in ("end", "cend"):
            return mk("iter", loc, self.size_of(loc, st))
        if name == "items" and "basic_json" in t0:
            return mk("items", loc)
        if name in ("key", "value") and ("iteration_proxy" in t0 or "iter_impl" in t0):
            v = self.read_any(st, loc) if isloc else loc
            if v.op == "elt":
                return mk("keyof", v.args[0], v.args[1]) if name == "key" else loc
            if v.op == "tup":
                return v.args[0] if name == "key" else v.args[1]
        if name == "front" and not e["a"]:
            return mk("elt", loc, ZERO) if isloc else self.project(loc, mk("elt", loc, ZERO))
        if name == "back" and not e["a"]:
            i = add(self.size_of(loc, st), num(-1))
            return mk("elt", loc, i) if isloc else self.project(loc, mk("elt", loc, i))
        if name == "empty" and not e["a"]:
            v = self.read_any(st, loc) if isloc else loc
            if v.op == "list":
                return TRUE if not v.args else FALSE
            if v.op == "jobj":
                return TRUE if not v.args[0] else FALSE
            return cmp_eq(self.size_of(v, st), ZERO)
        if name == "at":
            idx = self.rvalue(e["a"][0], st)
            self.emit("access", st, line, loc=loc, key=idx, const=bool(e.get("mc")), how="at")
            return mk("elt", loc, canon(idx) if idx.op not in ("str", "cat") else idx)
        if name in ("segment", "head", "tail", "middleRows") and "Eigen" in t0:
            a = [canon(self.rvalue(x, st)) for x in e["a"]]
            dm = re.search(r"Block<.*, (-?\d+), (-?\d+)(?:, (?:true|false))?>$", strip_cv(e.get("rt", "") if isinstance(e.get("rt"), str) else ""))
            if name == "segment":
                off = a[0]
                n = a[1] if len(a) > 1 else None
            elif name == "head":
                off, n = ZERO, (a[0] if a else None)
            elif name == "tail":
                n = a[0] if a else None
                off = None
            else:
                off, n = a[0], (a[1] if len(a) > 1 else None)
            if n is None:
                m = re.findall(r", (\d+), 1", e.get("rt", "") or e.get("t", ""))
                m2 = re.search(r"VectorBlock<.*, (\d+)>", (e.get("rt") or "") + (e.get("t") or ""))
                if m2:
                    n = num(int(m2.group(1)))
                elif m:
                    n = num(int(m[-1]))
                else:
                    n = mk("unknown")
            if off is None:
                off = sub(self.size_of(loc, st), n)
            if loc.op == "seg":
                return mk("seg", loc.args[0], add(loc.args[1], off), n)
            if isloc:
                return mk("seg", loc, off, n)
            return mk("m", name, loc, off, n)
        if name in ("setZero",) and "Eigen" in t0:
            dm = small_dims(t0)
            if isloc:
                self.emit("call", st, line, name=name, q=e.get("q"), recv=loc, args=(), key=e.get("fn"), res=mk("void"), mc=False, locs=(), node=e)
                if dm:
                    r, c = dm
                    z = mk("vec", *[ZERO] * (r * c)) if r == 1 or c == 1 else mk("mat2", r, c, (ZERO,) * (r * c))
                else:
                    z = mk("zeros")
                self.write(st, loc, z, line, emit=True)
            return loc
        if name in ("setIdentity",) and "Eigen" in t0:
            dm = small_dims(t0)
            if dm and isloc:
                r, c = dm
                self.write(st, loc, mk("mat2", r, c, tuple(ONE if i == j else ZERO for i in range(r) for j in range(c))), line)
                return loc
        if name == "transpose" and "Eigen" in t0:
            v = self.read_any(st, loc) if isloc else loc
            if v.op == "vec":
                return v
            if v.op == "mat2":
                r, c, m = v.args
                return mk("mat2", c, r, tuple(m[i * c + j] for j in range(c) for i in range(r)))
            return mk("m", "transpose", v)
        if name == "dot" and "Eigen" in t0:
            v = self.read_any(st, loc) if isloc else loc
            w = self.rvalue(e["a"][0], st)
            if v.op == "vec" and w.op == "vec" and len(v.args) == len(w.args):
                return add(*[mul(a, b) for a, b in zip(v.args, w.args)])
            if v.op == "vec" or w.op == "vec":
                x, y = (v, w) if v.op == "vec" else (w, v)
                return add(*[mul(a, mk("elt", y, num(i))) for i, a in enumerate(x.args)])
            a, b = sorted((v, w), key=lambda t: t.id)
            return mk("m", "dot", a, b)
        if name in ("squaredNorm", "sum", "norm") and "Eigen" in t0:
            v = self.read_any(st, loc) if isloc else loc
            if v.op == "vec":
                if name == "sum":
                    return add(*v.args)
                s_ = add(*[power(a, 2) for a in v.args])
                return s_ if name == "squaredNorm" else power(s_, Fr(1, 2))
        if name == "operator=":
            v = self.rvalue(e["a"][0], st)
            if isloc:
                self.write(st, loc, v, line)
            return loc
        argv = self.args(e, st)
        if st.dead:
            return mk("void")
        vals = tuple(self.val(st, a) if self.is_loc(a) else a for a in argv)
        rv = self.read_any(st, loc) if isloc else loc
        if name == "emplace_back" and isloc and t0.startswith("std::vector<"):
            made = emplaced(t0, vals)
            if made is None:
                st.env[loc] = mk("mut", rv, "emplace_back", *vals)
                return mk("void")
            vals = (made,)
        if name == "push_back" and "basic_json" in t0 and len(vals) == 1 and vals[0].op == "list" and e["a"][0].get("k") in ("stdinit", "init"):
            x = vals[0]
            if x.args and all(y.op == "list" and len(y.args) == 2 and y.args[0].op == "str" for y in x.args):
                vals = (mk("jobj", tuple(sorted({y.args[0].args[0]: y.args[1] for y in reversed(x.args)}.items()))),)
        if name in ("push_back", "emplace_back") and isloc:
            if (rv.op == "list" or jnull(rv)) and len(self.loops) == 0:
                nv = mk("list", *((rv.args if rv.op == "list" else ()) + vals))
            else:
                nv = mk("mut", rv, "push_back", *vals)
            self.emit("call", st, line, name="push_back", q=e.get("q"), recv=loc, args=vals, key=e.get("fn"), res=mk("void"), mc=False, locs=tuple(argv), node=e)
            for k in [k for k in st.env if k is not loc and k.op in ("fld", "elt", "tget") and self._under(k, loc)]:
                del st.env[k]
            st.env[loc] = nv
            return mk("void")
        if name in ("clear", "reserve", "shrink_to_fit", "pop_back") and isloc and "std::vector<" in t0:
            nv = rv
            if name == "clear":
                nv = mk("list")
            elif name == "pop_back":
                nv = mk("list", *rv.args[:-1]) if rv.op == "list" and rv.args and not self.loops else mk("mut", rv, "pop_back")
            self.emit("call", st, line, name=name, q=e.get("q"), recv=loc, args=vals, key=e.get("fn"), res=mk("void"), mc=False, locs=tuple(argv), node=e)
            if nv is not rv:
                for k in [k for k in st.env if k is not loc and k.op in ("fld", "elt", "tget") and self._under(k, loc)]:
                    del st.env[k]
                st.env[loc] = nv
            return mk("void")
        if name in ("resize", "assign", "insert") and isloc and "std::vector<" in t0 and rv.op == "list" and not self.loops:
            nv = None
            el = strip_cv(t0[t0.index("std::vector<") + len("std::vector<"):].split(",")[0].rstrip("> "))
            if name in ("resize", "assign") and vals and is_num(vals[0]) and 0 <= vals[0].args[0] <= 64:
                n = int(vals[0].args[0])
                fill = vals[1] if len(vals) > 1 else ZERO if is_scalar(el) else None
                old = rv.args if name == "resize" else ()
                if n <= len(old):
                    nv = mk("list", *old[:n])
                elif fill is not None:
                    nv = mk("list", *(old + (fill,) * (n - len(old))))
            elif name in ("insert", "assign") and len(vals) >= 2 and vals[-1].op == "iter" and vals[-2].op == "iter" and vals[-1].args[0] is vals[-2].args[0] \
                    and is_num(vals[-1].args[1]) and is_num(vals[-2].args[1]):
                c = vals[-1].args[0]
                c = self.val(st, c) if self.is_loc(c) else c
                at = vals[0].args[1] if name == "insert" and vals[0].op == "iter" else ZERO
                if c.op in ("list", "vec") and is_num(at):
                    new = c.args[int(vals[-2].args[1].args[0]):int(vals[-1].args[1].args[0])]
                    i = int(at.args[0])
                    nv = mk("list", *(rv.args[:i] + new + rv.args[i:])) if name == "insert" else mk("list", *new)
            elif name == "insert" and len(vals) == 2 and vals[0].op == "iter" and is_num(vals[0].args[1]):
                i = int(vals[0].args[1].args[0])
                nv = mk("list", *(rv.args[:i] + (vals[1],) + rv.args[i:]))
            if nv is not None:
                self.emit("call", st, line, name=name, q=e.get("q"), recv=loc, args=vals, key=e.get("fn"), res=mk("void"), mc=False, locs=tuple(argv), node=e)
                for k in [k for k in st.env if k is not loc and k.op in ("fld", "elt", "tget") and self._under(k, loc)]:
                    del st.env[k]
                st.env[loc] = nv
                return mk("void")
        if name == "str" and "stringstream" in t0:
            return rv if rv.op in ("cat", "str") else mk("m", "str", rv)
        if name in ("c_str", "string", "native"):
            return rv
        if name == "contains" and "basic_json" in t0:
            self.emit("access", st, line, loc=loc, key=vals[0] if vals else mk("void"), const=True, how="contains")
            if vals and vals[0].op == "str":
                if rv.op == "jobj":
                    return TRUE if vals[0].args[0] in dict(rv.args[0]) else FALSE
                if jnull(rv) or rv.op in ("list", "str"):
                    return FALSE
        if name == "update" and "basic_json" in t0 and isloc and len(argv) >= 1:
            old = mk("jobj", ()) if jnull(rv) else rv
            new = vals[0]
            if new.op == "list" and new.args and all(x.op == "list" and len(x.args) == 2 and x.args[0].op == "str" for x in new.args):
                new = mk("jobj", tuple((x.args[0].args[0], x.args[1]) for x in new.args))
            if old.op == "jobj" and new.op == "jobj" and not self.loops:
                d = dict(old.args[0])
                d.update(dict(new.args[0]))
                self.write(st, loc, mk("jobj", tuple(sorted(d.items()))), line)
                return mk("void")
        if "basic_json" in t0 and (rv.op in ("jobj", "list", "str") or jnull(rv)):
            kinds = {"is_object": "jobj", "is_array": "list", "is_string": "str"}
            if name in kinds:
                return TRUE if rv.op == kinds[name] else FALSE
            if name == "is_null":
                return TRUE if jnull(rv) else FALSE
        if name == "value" and "basic_json" in t0 and vals:
            self.emit("access", st, line, loc=loc, key=vals[0], const=True, how="value")
            return ite(mk("m", "contains", rv, vals[0]), mk("elt", loc if isloc else rv, vals[0]), vals[1] if len(vals) > 1 else mk("void"))
        mc = bool(e.get("mc"))
        if self.stub is not None:
            r = self.stub(self, st, e.get("q") or "", name, loc, argv, vals, line, e)
            if r is not None:
                return r
        res = mk("m", name, rv, *vals)
        self.emit("call", st, line, name=name, q=e.get("q"), recv=loc, args=vals, key=e.get("fn"), res=res, mc=mc, locs=tuple(argv), node=e)
        self.havoc_args(st, argv, pr, name, vals, line)
        if not mc and isloc and "unique_ptr" not in t0 and name not in ("valuePtr", "data", "coeffRef", "find"):
            self.mutate(st, loc, name, vals, line)
        if name == "coeffRef" and isloc:
            key = vals[0] if len(vals) == 1 else mk("pair", *[canon(v) for v in vals])
            return mk("elt", loc, key)
        rt = e.get("rt", "")
        if isinstance(rt, str) and rt.rstrip().endswith("&") and isloc and name not in ("append",):
            return res
        return res

    def external(self, e, st, q, recv, argv, pr):
        """free functions without a body in the repository (or kept opaque)"""
        line = e["l"]
        name = q.split("::")[-1]
        std = q.startswith("std::") or "::" not in q
        vals = tuple(self.val(st, a) if self.is_loc(a) else a for a in argv)
        if st.dead:
            return mk("void")
        if name in ("move", "forward", "as_const", "ref", "cref") and q.startswith("std::"):
            return argv[0]
        if std and name in PURE_FN and len(vals) in (1, 2):
            v = vals[0]
            if name == "log10":
                pass
            return fn(PURE_FN[name], *vals)
        if std and name == "log10":
            return div(fn("log", vals[0]), fn("log", num(10)))
        if std and name == "log2":
            return div(fn("log", vals[0]), fn("log", num(2)))
        if std and name == "sqrt":
            return power(vals[0], Fr(1, 2))
        if std and name == "cbrt":
            return power(vals[0], Fr(1, 3))
        if std and name in ("abs", "fabs"):
            return fn("abs", vals[0]) if not is_num(vals[0]) else num(abs(vals[0].args[0]))
        if std and name == "pow" and len(vals) == 2:
            if is_num(vals[1]):
                return power(vals[0], vals[1].args[0])
            return fn("pow", *vals)
        if std and name in ("min", "max") and len(vals) == 2:
            return fn(name, *vals)
        if q.startswith("std::"):
            if name == "get" and e.get("ta"):
                try:
                    i = int(re.sub(r"[^0-9]", "", e["ta"][0]))
                    l = argv[0]
                    v = self.val(st, l) if self.is_loc(l) else l
                    if self.is_loc(l):
                        return mk("tget", l, i)
                    return self.project(v, mk("tget", v, i))
                except (ValueError, IndexError):
                    pass
            if name in ("make_pair", "make_tuple"):
                return mk("tup", *vals)
            if name == "tie":
                return mk("tup", *argv)
            if name in ("make_unique", "make_shared"):
                t = strip_cv(e.get("t", ""))
                m = re.match(r"std::(?:unique|shared)_ptr<(.*?)(?:, std::default_delete.*)?>$", t)
                cls = m.group(1) if m else t
                self.emit("make", st, line, t=cls, args=vals)
                return mk("newobj", cls, *vals)
            if name == "make_optional" or name == "optional":
                return vals[0]
            if name in ("begin", "cbegin"):
                return mk("iter", argv[0], ZERO)
            if name in ("end", "cend"):
                return mk("iter", argv[0], self.size_of(argv[0], st))
            if name == "size":
                return self.size_of(argv[0], st)
            if name in ("next", "prev"):
                d = vals[1] if len(vals) > 1 else ONE
                return self.advance(vals[0], d if name == "next" else neg(d))
            if name in ("lower_bound", "upper_bound", "is_sorted", "is_sorted_until", "adjacent_find", "max_element", "min_element") and len(vals) >= 2 \
                    and vals[0].op == "iter" and vals[1].op == "iter":
                r = self.sorted_range(st, name, vals)
                if r is not None:
                    return r
            if name == "advance":
                self.write(st, argv[0], self.advance(vals[0], vals[1]), line)
                return mk("void")
            if name == "distance":
                return self.binop("-", vals[1], vals[0])
            if name == "to_string":
                return mk("m", "to_string", vals[0])
            if name == "for_each" and len(vals) >= 3 and vals[0].op == "iter" and vals[1].op == "iter":
                return self.alg_loop(st, vals[0], vals[1], argv[2], line, e)
            if name in ("any_of", "all_of", "none_of", "count_if", "find_if") and len(vals) >= 3 and vals[0].op == "iter" and vals[1].op == "iter":
                return self.alg_pred(st, name, vals[0], vals[1], vals[2], line, e)
            if name == "accumulate" and len(vals) >= 3 and vals[0].op == "iter" and vals[1].op == "iter":
                return self.alg_accumulate(st, vals, argv, line, e)
            if name in ("swap",):
                a, b = argv[0], argv[1]
                if self.is_loc(a) and self.is_loc(b):
                    self.write(st, a, vals[1], line)
                    self.write(st, b, vals[0], line)
                    return mk("void")
        if "Eigen" in q and name in ("Zero", "Identity", "Ones", "Constant"):
            t = e.get("t", "") or ""
            m = SMALLV.search(t)
            if name == "Zero":
                if m and not vals:
                    r, c = int(m.group(1)), int(m.group(2))
                    return mk("vec", *[ZERO] * (r * c)) if r == 1 or c == 1 else mk("mat2", r, c, (ZERO,) * (r * c))
                return mk("zeros")
            if name == "Identity" and m and not vals:
                r, c = int(m.group(1)), int(m.group(2))
                return mk("mat2", r, c, tuple(ONE if i == j else ZERO for i in range(r) for j in range(c)))
        if name == 'operator""_json':
            if vals and vals[0].op == "str":
                try:
                    return jdoc(json.loads(vals[0].args[0]))
                except ValueError:
                    pass
            return mk("json", vals[0].args[0] if vals and vals[0].op == "str" else "?")
        if "basic_json" in q and name in ("array", "object"):
            if vals and vals[0].op == "list":
                return vals[0]
            return mk("list") if name == "array" else mk("jobj", ())
        res = mk("m", q, *vals)
        noret = name in ("__assert_fail", "abort", "exit", "terminate", "quick_exit", "_Exit")
        self.emit("call", st, line, name=name, q=q, recv=None, args=vals, key=e.get("fn"), res=res, mc=True, locs=tuple(argv), node=e)
        if noret:
            st.dead = True
            return mk("void")
        self.havoc_args(st, argv, pr, name, vals, line)
        return res

    def alg_loop(self, st, a, b, f, line, e):
        cont = a.args[0]
        fv = self.val(st, f) if self.is_loc(f) else f
        fake = {"k": "algapply", "f": fv, "l": line}

        def bind(itv, s2):
            fake["elem"] = mk("elt", cont, itv)
        self.counted(None, st, a.args[1], b.args[1], Fr(1), bind, fake, None)
        return fv

    def x_algapply(self, s, st):
        self.apply(s["f"], [s["elem"]], st, s["l"])

    def alg_pred(self, st, name, a, b, f, line, e):
        cont = a.args[0]
        if is_num(a.args[1]) and is_num(b.args[1]) and b.args[1].args[0] - a.args[1].args[0] <= self.unroll:
            cs = []
            ks = range(int(a.args[1].args[0]), int(b.args[1].args[0]))
            for k in ks:
                cs.append(self.tobool(self.val(st, self.apply(f, [mk("elt", cont, num(k))], st, line))))
                if st.dead:
                    return mk("void")
            if name == "any_of":
                return bor(*cs)
            if name == "none_of":
                return bnot(bor(*cs))
            if name == "all_of":
                return band(*cs)
            if name == "count_if":
                return add(*[ite(c, ONE, ZERO) for c in cs]) if cs else ZERO
            r = b
            for k, c in reversed(list(zip(ks, cs))):
                r = mk("iter", cont, num(k)) if c is TRUE else r if c is FALSE else ite(c, mk("iter", cont, num(k)), r)
            return r
        it = mk("it", self.depth())
        dom = mk("dom", it, a.args[1], b.args[1], ONE)
        saved, self.loops = self.loops, self.loops + (dom,)
        s2 = st.copy()
        c = self.tobool(self.val(s2, self.apply(f, [mk("elt", cont, it)], s2, line)))
        self.loops = saved
        ex = self.lift_exists(dom, c)
        if name == "any_of":
            return ex
        if name == "none_of":
            return bnot(ex)
        if name == "all_of":
            return bnot(self.lift_exists(dom, bnot(c)))
        if name == "find_if":
            return mk("iter", cont, ite(ex, mk("firstidx", dom, c), b.args[1]))
        return mk("m", "count_if", dom, c)

    def alg_accumulate(self, st, vals, argv, line, e):
        cont = vals[0].args[0]
        lo, hi = vals[0].args[1], vals[1].args[1]
        if is_num(lo) and is_num(hi) and hi.args[0] - lo.args[0] <= self.unroll:
            acc = vals[2]
            for k in range(int(lo.args[0]), int(hi.args[0])):
                el = mk("elt", cont, num(k))
                if len(vals) == 3:
                    acc = self.binop("+", acc, self.val(st, el))
                else:
                    l = self.newvar("acc")
                    st.env[l] = acc
                    acc = self.val(st, self.apply(vals[3], [l, el], st, line))
                if st.dead:
                    return mk("void")
            return acc
        it = mk("it", self.depth())
        dom = mk("dom", it, vals[0].args[1], vals[1].args[1], ONE)
        elem = mk("elt", cont, it)
        if len(vals) == 3:
            return add(vals[2], mk("sum", dom, elem))
        acc = mk("loopvar", it, 0, mk("name", "acc"))
        saved, self.loops = self.loops, self.loops + (dom,)
        s2 = st.copy()
        l = self.newvar("acc")
        s2.env[l] = acc
        r = self.val(s2, self.apply(vals[3], [l, elem], s2, line))
        self.loops = saved
        if not self._structured(r):
            d = sub(r, acc)
            if not any(x is acc for x in subterms(d)):
                return add(vals[2], mk("sum", dom, d))
        return mk("fold", dom, vals[2], r, ())


def jnull(t):
    """a missing entry of a document of known shape"""
    return t.op in ("nulljson", "nullptr") or (t.op == "new" and t.args == ("json",)) or (t.op == "elt" and t.args[1].op == "str" and (t.args[0].op == "jobj" or jnull(t.args[0])))


def jdoc(x):
    """document of known shape from Python data; leaves may be terms"""
    if isinstance(x, T):
        return x
    if isinstance(x, dict):
        return mk("jobj", tuple(sorted((k, jdoc(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return mk("list", *[jdoc(v) for v in x])
    if isinstance(x, str):
        return mk("str", x)
    if x is None:
        return mk("nulljson")
    if isinstance(x, bool):
        return TRUE if x else FALSE
    return num(x if isinstance(x, int) else Fr(str(x)))


class SwitchCtx(dict):
    """loop-stack entry for a switch: break leaves the switch, everything else
    (continue, exits) belongs to the enclosing loop"""

    def __init__(self, L, stack):
        super().__init__(L)
        self["breaks"] = L["breaks"]
        self["exits"] = L["exits"]
        self["conts"] = L["conts"]


class Summary:
    def __init__(self, f, effs, st, val, frame, ev):
        self.f, self.effs, self.st, self.val, self.frame, self.ev = f, effs, st, val, frame, ev

    def kind(self, *ks):
        return [e for e in self.effs if e.kind in ks]

    def calls(self, name=None):
        return [e for e in self.effs if e.kind == "call" and (name is None or e.d["name"] == name)]
