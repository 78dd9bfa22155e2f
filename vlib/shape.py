"""Abstract interpretation with explicit structure and symbolic numbers.

The heap's structure (which objects, lists, documents, index ranges and matrices of
which size exist, and the names that are used as keys) is explicit and bounded; every
number that is data is a term (alg.T).  A branch on a condition over data forks: the
analysis is repeated for every consistent assignment of the conditions met, so that
all paths for this structure are covered.  Nothing is executed: library calls are
given meaning by models in this file, repository functions by their syntax tree.

Outcomes of a path: a value, an exception (Thrown) or undefined behaviour (UB).
Anything without a model ends the path as Unmodelled, which is never a violation."""
import os, json as pyjson
import re
from fractions import Fraction as Fr
import numpy as np
from alg import *
from program import AnalysisBroken, instance
from flow import STD_EXC
from flow import cls as excls


class Unmodelled(Exception):
    pass


class UB(Exception):
    pass


class Thrown(Exception):
    def __init__(self, cls, msg=None, where=""):
        Exception.__init__(self, cls, msg)
        self.cls, self.msg, self.where = cls, msg, where


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


# ------------------------------------------------------------------ references
class Ref:
    __slots__ = ()


class Cell(Ref):
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class NpElem(Ref):
    __slots__ = ("a", "i")

    def __init__(self, a, i):
        self.a, self.i = a, i

    def get(self):
        v = self.a[self.i]
        if v is None:
            return mk("uninit")
        return v

    def set(self, v):
        self.a[self.i] = v


class SpElem(Ref):
    __slots__ = ("m", "k")

    def __init__(self, m, k):
        self.m, self.k = m, k

    def get(self):
        return self.m.d[self.k]

    def set(self, v):
        self.m.d[self.k] = v


class CharElem(Ref):
    __slots__ = ("r", "i")

    def __init__(self, r, i):
        self.r, self.i = r, i

    def get(self):
        return ord(self.r.get()[self.i])

    def set(self, v):
        s = self.r.get()
        self.r.set(s[:self.i] + chr(v) + s[self.i + 1:])


# ------------------------------------------------------------------ values
class Obj:
    def __init__(self, cls):
        self.cls, self.f = cls, {}

    def __repr__(self):
        return "<%s>" % self.cls


class Vec:
    """std::vector, std::array, initializer lists"""

    def __init__(self, l=(), t=""):
        self.l, self.t = list(l), t


class MapV:
    def __init__(self, d=None):
        self.d = d if d is not None else {}

    def keys(self):
        return sorted(self.d)


class SetV(MapV):
    pass


class Tup:
    def __init__(self, l):
        self.l = list(l)


class Opt:
    def __init__(self, c=None):
        self.c = c


class UP:
    """unique_ptr, shared_ptr"""

    def __init__(self, p=None):
        self.p = p


class Ptr:
    """pointer to a reference's target; None stands for the null pointer"""

    def __init__(self, r):
        self.r = r

    def target(self):
        v = self.r.get()
        return v if mutable(v) else self.r


class PArr:
    """pointer into contiguous number storage"""

    def __init__(self, a, o=0):
        self.a, self.o = a, o


class It:
    """iterator: container (Vec, J array/object, MapV, Mat) and position"""

    def __init__(self, c, i, keys=None):
        self.c, self.i, self.keys = c, i, keys


class Fn:
    def __init__(self, e=None, env=None, this=None, key=None, py=None, frame=None):
        self.e, self.env, self.this, self.key, self.py, self.frame = e, env, this, key, py, frame


class Stream:
    def __init__(self, kind):
        self.kind, self.parts, self.name = kind, [], None


class Lib:
    """object of a library class without contents of interest"""

    def __init__(self, cls):
        self.cls, self.data = cls, {}


class Mat:
    def __init__(self, a, own=False, row=False):
        self.a, self.own, self.row = a, own, row

    @property
    def shape(self):
        return self.a.shape


class Sp:
    def __init__(self, r=0, c=0):
        self.r, self.c, self.d = r, c, {}
        self.gaps = set()  # columns after whose entries there is unused room


class LU:
    def __init__(self):
        self.m, self.ok = None, None


class Triplet:
    def __init__(self, r, c, v):
        self.r, self.c, self.v = r, c, v


class Comma:
    def __init__(self, m):
        self.m, self.i = m, 0


class J:
    """json value: None, bool, int, T (number), str, list of J, dict of J"""
    __slots__ = ("v", "tag")

    def __init__(self, v=None, tag=None):
        self.v, self.tag = v, tag

    def kind(self):
        v = self.v
        if v is None:
            return "null"
        if isinstance(v, bool):
            return "boolean"
        if isinstance(v, (int, T)):
            return "number"
        if isinstance(v, (str, SymS)):
            return "string"
        if isinstance(v, list):
            return "array"
        if isinstance(v, dict):
            return "object"
        return "?"

    def __repr__(self):
        return "J(%s)" % show_json(self)


class SymS:
    """a string about which only its name is known"""

    def __init__(self, n):
        self.n, self.j = n, None

    def __repr__(self):
        return "str:" + self.n


def show_json(j):
    v = j.v
    if isinstance(v, list):
        return "[" + ", ".join(show_json(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join("%s: %s" % (k, show_json(v[k])) for k in sorted(v)) + "}"
    return repr(v) if not isinstance(v, T) else show(v)


def to_j(x, tag=None):
    if isinstance(x, J):
        return x
    if isinstance(x, dict):
        return J({k: to_j(v) for k, v in x.items()}, tag)
    if isinstance(x, (list, tuple)):
        return J([to_j(v) for v in x], tag)
    if isinstance(x, float):
        return J(num(Fr(repr(x)) if "e" not in repr(x) else Fr(x)), tag)
    return J(x, tag)


def plain(j):
    v = j.v
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


MUT = (Obj, Vec, MapV, Tup, Opt, UP, Mat, Sp, J, Lib, Stream, LU, Triplet)


def mutable(v):
    return isinstance(v, MUT)


def cp(v):
    """a copy, as by a copy constructor"""
    if isinstance(v, Obj):
        n = Obj(v.cls)
        n.f = {k: Cell(cp(c.get())) if not isinstance(c, RefField) else c for k, c in v.f.items()}
        return n
    if isinstance(v, Vec):
        return Vec([Cell(cp(c.get())) for c in v.l], v.t)
    if isinstance(v, MapV):
        return type(v)({k: Cell(cp(c.get())) for k, c in v.d.items()})
    if isinstance(v, Tup):
        return Tup([Cell(cp(c.get())) for c in v.l])
    if isinstance(v, Opt):
        return Opt(Cell(cp(v.c.get())) if v.c else None)
    if isinstance(v, Mat):
        if not v.own:
            return Mat(v.a, False, v.row)
        return Mat(np.array(v.a, dtype=object, order="C" if v.row else "F"), True, v.row)
    if isinstance(v, Sp):
        n = Sp(v.r, v.c)
        n.d = dict(v.d)
        return n
    if isinstance(v, J):
        return J([cp(x) for x in v.v] if isinstance(v.v, list) else {k: cp(x) for k, x in v.v.items()} if isinstance(v.v, dict) else v.v, v.tag)
    if isinstance(v, LU):
        n = LU()
        n.m, n.ok = v.m, v.ok
        return n
    if isinstance(v, Triplet):
        return Triplet(v.r, v.c, v.v)
    if isinstance(v, UP):
        return UP(v.p)
    if isinstance(v, It):
        return It(v.c, v.i, v.keys)
    if isinstance(v, Lib):
        n = Lib(v.cls)
        n.data = dict(v.data)
        return n
    return v


class RefField(Cell):
    """a field of reference type"""
    __slots__ = ()


def tt(v):
    """number as term"""
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        return num(int(v))
    if isinstance(v, int):
        return num(v)
    if isinstance(v, Fr):
        return num(v)
    raise Unmodelled("number expected, got %r" % (v,))


def as_int(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, T) and v.op == "num" and v.args[0].denominator == 1:
        return int(v.args[0])
    raise Unmodelled("integer expected, got %r" % (v,))


EIG = re.compile(r"Eigen::(Matrix|Array)<([^<>,]+(?:<[^<>]*>)?), (-?\d+), (-?\d+)(?:, (\d+))?")


def eig(t):
    """(kind, scalar, rows, cols, rowmajor) of an Eigen dense type as written"""
    t = re.sub(r"^const ", "", t or "")
    m = EIG.search(t)
    if not m:
        return None
    head = t[len("Eigen::"):].split("<")[0] if t.startswith("Eigen::") else ""
    o = int(m.group(5) or 0)
    return head, m.group(2), int(m.group(3)), int(m.group(4)), bool(o & 1)


def short(q):
    """std::vector<double>::size -> (std::vector, size)"""
    out, d = "", 0
    for ch in q or "":
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
    i = out.rfind("::")
    return (out[:i], out[i + 2:]) if i >= 0 else ("", out)


def base_t(t):
    t = re.sub(r"\bconst\b", "", t or "").strip()
    return t.rstrip("&* ").strip()


RANDOM = ("randutils::", "pcg", "pcg_detail::", "std::normal_distribution", "std::random_device", "std::mersenne_twister", "std::seed_seq", "std::uniform_", "std::linear_congruential")


def val_of(r):
    return r.get() if isinstance(r, Ref) else r


STDV = ("std::vector", "std::array", "std::initializer_list", "std::deque", "std::list")
MAXSTEPS = 400000


class Interp:
    def __init__(self, P, H, known=None):
        self.P, self.H = P, H
        self.known = dict(known or {})
        self.hooks = {}
        self.files = []         # streams opened for writing
        self.exthooks = []      # fn(interp, name, qualified name, values, expression) -> value or NotImplemented
        self.events = []
        self.compared = []
        self.units = set()
        self.frames = []
        self.steps = 0
        self.globals = {}
        self.depth = 0
        self.statics = {}
        self.fresh_n = 0
        self.env = {}
        self.this = None
        self.fn = None
        self.bykey = P.functions

    # -------------------------------------------------------------- decisions
    def decide(self, c):
        if isinstance(c, bool):
            return c
        if c is TRUE or c is FALSE:
            return c is TRUE
        if not isinstance(c, T):
            if isinstance(c, int):
                return c != 0
            raise Unmodelled("condition %r" % (c,))
        if c.op == "num":
            return c.args[0] != 0
        if c.op == "not":
            return not self.decide(c.args[0])
        if c.op == "and":
            return all(self.decide(x) for x in c.args)
        if c.op == "or":
            return any(self.decide(x) for x in c.args)
        if c in self.known:
            return self.known[c]
        if c.op == "eq":
            try:
                ok, _ = is_zero(sub(c.args[0], c.args[1]))
                if ok:
                    return True
                d = nf(sub(c.args[0], c.args[1]))
                if not subterms_have_atoms(sub(c.args[0], c.args[1])):
                    return False
            except Exception:
                pass
        raise Fork(c)

    def where(self, e=None):
        f = self.fn
        return "%s:%s" % (f["file"] if f else "?", (e or {}).get("l", "?"))

    def fresh(self, what):
        self.fresh_n += 1
        return mk("sym", "%s#%d" % (what, self.fresh_n))

    # -------------------------------------------------------------- calls
    def find(self, q, n=None):
        fs = [f for f in self.P.functions.values() if f["q"] == q and f["b"] is not None and (n is None or len(f["p"]) == n)]
        if len(fs) != 1:
            raise AnalysisBroken("%s: %d definitions" % (q, len(fs)))
        return fs[0]

    def call(self, f, this=None, args=()):
        """args: Refs or values"""
        if f["b"] is None:
            raise Unmodelled("no body: %s" % f["q"])
        if f["q"] in self.hooks:
            return self.hooks[f["q"]](self, this, list(args), None)
        self.depth += 1
        if self.depth > 150:
            self.depth = 0
            raise Unmodelled("recursion too deep in %s" % f["q"])
        saved = self.env, self.this, self.fn
        env = {}
        for p in f["p"][len(args):]:
            if p.get("def") is None:
                raise Unmodelled("call of %s with %d arguments" % (f["q"], len(args)))
        args = list(args) + [self.E(p["def"]) for p in f["p"][len(args):]]
        for p, a in zip(f["p"], args):
            env[p["id"]] = self.bind(p, a)
        self.env, self.this, self.fn = env, this, f
        self.units.add(f["q"])
        self.frames.append("function")
        try:
            if f.get("ctor"):
                self.run_inits(f)
            self.s(f["b"])
            r = None
        except _Return as x:
            r = x.v
        finally:
            self.env, self.this, self.fn = saved
            self.frames.pop()
            self.depth -= 1
        return r

    def bind(self, p, a):
        if p["by"] in ("r", "c", "m") or p["t"].endswith("&"):
            if isinstance(a, Ref):
                return a
            return Cell(a)
        v = a.get() if isinstance(a, Ref) else a
        return Cell(self.coerce(v, p["t"]))

    def coerce(self, v, t):
        """implicit arithmetic conversions that the tree does not show"""
        return v

    def construct(self, e_or_cls, args=(), key=None, obj=None):
        cls = e_or_cls
        o = obj or Obj(cls)
        f = self.P.functions.get(key) if key else None
        if f is None and key is None:
            m = [m for m in self.P.records[cls]["methods"] if m.get("ctor") and len(m["p"]) == len(args) and not m["deleted"]]
            m = [x for x in m if not (len(args) == 1 and base_t(x["p"][0]["t"]) == cls)]
            if len(m) == 1:
                f = self.P.functions.get(m[0]["key"])
        if f is not None and f["b"] is not None:
            self.call(f, o, args)
            return o
        if args:
            raise Unmodelled("constructor of %s" % cls)
        self.default_fields(cls, o)
        return o

    def default_fields(self, cls, o):
        r = self.P.records.get(cls)
        if r is None:
            return
        for b in r["bases"]:
            bc = base_t(b["t"])
            if bc in self.P.records:
                self.construct(bc, obj=o)
        for fd in r["fields"]:
            if (cls, fd["n"]) in o.f:
                continue
            if fd.get("init") is not None:
                saved = self.this
                self.this = o
                try:
                    o.f[(cls, fd["n"])] = Cell(self.initial(fd["init"], fd["t"]))
                finally:
                    self.this = saved
            else:
                o.f[(cls, fd["n"])] = Cell(self.default(fd["t"]))

    def run_inits(self, f):
        o = self.this
        cls = f["rc"]
        done = set()
        for i in f.get("inits") or ():
            if "base" in i:
                bc = base_t(i["base"])
                e = i["e"]
                if bc not in self.P.records:
                    done.add(bc)
                    continue
                if e.get("k") == "ctor":
                    if e.get("copy") or e.get("move"):
                        src = self.V(e["a"][0])
                        for k, c in src.f.items():
                            if k[0] == bc or k[0] in self.H.bases(bc):
                                o.f[k] = Cell(cp(c.get()))
                    else:
                        bf = self.P.functions.get(e.get("fn"))
                        if bf is None or bf["b"] is None:
                            self.default_fields(bc, o)
                        elif e.get("inherited"):
                            self.call(bf, o, [self.env[p["id"]] for p in f["p"]])
                        else:
                            self.call(bf, o, self.args(e.get("a") or [], e.get("pr", "")))
                else:
                    self.default_fields(bc, o)
                done.add(bc)
            elif "field" in i:
                fd = next((x for x in self.P.records[cls]["fields"] if x["n"] == i["field"]), None) if cls in self.P.records else None
                if fd is not None and fd["t"].endswith("&"):
                    r = self.R(i["e"])
                    o.f[(cls, i["field"])] = r
                else:
                    o.f[(cls, i["field"])] = Cell(self.initial(i["e"], fd["t"] if fd else ""))
            elif i.get("deleg"):
                e = i["e"]
                self.call(self.P.functions[e["fn"]], o, self.args(e.get("a") or [], e.get("pr", "")))
                return
        r = self.P.records.get(cls)
        if r:
            for b in r["bases"]:
                bc = base_t(b["t"])
                if bc in self.P.records and bc not in done:
                    self.construct(bc, obj=o)
            for fd in r["fields"]:
                if (cls, fd["n"]) not in o.f:
                    if fd.get("init") is not None:
                        o.f[(cls, fd["n"])] = Cell(self.initial(fd["init"], fd["t"]))
                    else:
                        o.f[(cls, fd["n"])] = Cell(self.default(fd["t"]))

    def own(self, v):
        return v

    def initial(self, e, t):
        """value a new variable of type t gets from initialiser e"""
        if e.get("k") == "init" and not base_t(t).startswith(STDV) and base_t(t) not in self.P.records and "[" not in t:
            # braces around a single initialiser
            if len(e["a"]) == 1:
                return self.initial(e["a"][0], t)
            if not e["a"]:
                return self.e_zero({"t": t})
        r = self.E(e)
        if isinstance(r, Ref):
            v = r.get()
            if mutable(v) and not t.endswith(("&", "*")):
                v = cp(v)
        else:
            v = r
        return self.shape_as(v, t)

    def shape_as(self, v, t):
        """Eigen conversions between expression, owning matrix and view"""
        if isinstance(v, Mat):
            k = eig(t)
            if k:
                if k[0] in ("Matrix", "Array") and not v.own:
                    return Mat(np.array(v.a, dtype=object, order="C" if k[4] else "F"), True, k[4])
                if k[0] in ("Ref", "Map", "Block") and v.own:
                    return Mat(v.a, False, v.row)
        return v

    def default(self, t):
        """default-initialised value of a type as written"""
        b = base_t(t)
        if t.rstrip().endswith("*") or "*const" in t.replace(" ", "")[-7:]:
            return mk("uninit")
        k = eig(t)
        if k and k[0] in ("Matrix", "Array"):
            return Mat(np.full((max(k[2], 0), max(k[3], 0) if not (k[2] == -1 and k[3] == 1) else 1), None, dtype=object, order="C" if k[4] else "F"), True, k[4]) if not (k[2] == -1 or k[3] == -1) or k[3] == 1 and k[2] == -1 or k[2] == 1 \
                else Mat(np.full((0, 0), None, dtype=object, order="C" if k[4] else "F"), True, k[4])
        if b.startswith("Eigen::SparseMatrix"):
            return Sp()
        if b.startswith("Eigen::SparseLU"):
            return LU()
        if b.startswith("std::array"):
            m = re.search(r", (\d+)>$", b)
            inner = b[len("std::array<"):].rsplit(",", 1)[0]
            return Vec([Cell(self.default(inner)) for _ in range(int(m.group(1)))], b)
        if b.startswith(STDV):
            return Vec([], b)
        if b.startswith(("std::map", "std::unordered_map", "std::multimap")):
            return MapV()
        if b.startswith(("std::set", "std::unordered_set")):
            return SetV()
        if b.startswith(("std::unique_ptr", "std::shared_ptr")):
            return UP(None)
        if b.startswith("std::optional"):
            return Opt(None)
        if b.startswith("std::basic_string<") or b == "std::string":
            return ""
        if b.startswith(("nlohmann::basic_json", "nlohmann::json")):
            return J(None)
        if b.startswith("std::basic_ostringstream") or b.startswith("std::basic_stringstream"):
            return Stream("str")
        if b.startswith(("std::pair<", "std::tuple<")):
            return Tup([Cell(self.default(x)) for x in targs(b)])
        if b in self.P.records:
            return self.construct(b)
        if b.startswith(("std::", "Eigen::", "nlohmann::", "pcg", "randutils", "Ipopt", "CLI")):
            return Lib(b)
        return mk("uninit")

    # -------------------------------------------------------------- statements
    def s(self, s):
        if s is None:
            return
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Unmodelled("too many steps")
        getattr(self, "s_" + s["k"], self.s_unknown)(s)

    def s_unknown(self, s):
        raise Unmodelled("statement %s at %s" % (s["k"], self.where(s)))

    def s_block(self, s):
        for x in s["b"]:
            self.s(x)

    def s_expr(self, s):
        self.E(s["e"])

    def s_nop(self, s):
        pass

    def s_decl(self, s):
        for d in s["d"]:
            self.declare(d)

    def declare(self, d):
        if d.get("static"):
            k = (self.fn["key"], d["id"])
            if k in self.statics:
                self.env[d["id"]] = self.statics[k]
                return
        if d.get("ref") or d["t"].endswith("&"):
            r = self.R(d["init"])
        elif d.get("init") is not None:
            r = Cell(self.initial(d["init"], d["t"]))
        else:
            r = Cell(self.default(d["t"]))
        self.env[d["id"]] = r
        if d.get("static"):
            self.statics[(self.fn["key"], d["id"])] = r
        if d.get("bind"):
            self.bindings(d["bind"], r)

    def bindings(self, bs, r):
        v = r.get() if isinstance(r, Ref) else r
        if isinstance(v, Tup):
            cells = v.l
        elif isinstance(v, Obj):
            cells = list(v.f.values())
        elif isinstance(v, Vec):
            cells = v.l
        else:
            raise Unmodelled("structured binding of %r" % (v,))
        for b, c in zip(bs, cells):
            self.env[b["id"]] = c

    def s_if(self, s):
        if s.get("init"):
            self.s(s["init"])
        if s.get("cv"):
            self.declare(s["cv"])
        if s["c"] is None:
            return
        if self.decide(self.cond(s["c"])):
            self.s(s["x"])
        else:
            self.s(s["y"])

    def cond(self, e):
        v = self.V(e)
        return truthy(v)

    def s_return(self, s):
        e = s.get("e")
        if e is None:
            raise _Return(None)
        rt = (self.fn or {}).get("rt", "")
        if self.frames and self.frames[-1] == "lambda":
            rt = ""
            r = self.E(e)
            raise _Return(r)
        if rt.endswith("&"):
            raise _Return(self.R(e))
        r = self.E(e)
        if isinstance(r, Ref):
            v = r.get()
            v = cp(v) if mutable(v) else v
        else:
            v = r
        raise _Return(self.shape_as(v, rt))

    def s_break(self, s):
        raise _Break()

    def s_continue(self, s):
        raise _Continue()

    def loopbody(self, b):
        try:
            self.s(b)
        except _Continue:
            pass

    def s_while(self, s):
        n = 0
        while True:
            if s.get("cv"):
                self.declare(s["cv"])
            if not self.decide(self.cond(s["c"])):
                return
            n += 1
            if n > 2000:
                raise Unmodelled("loop without end at %s" % self.where(s))
            try:
                self.loopbody(s["b"])
            except _Break:
                return

    def s_do(self, s):
        n = 0
        while True:
            n += 1
            if n > 2000:
                raise Unmodelled("loop without end at %s" % self.where(s))
            try:
                self.loopbody(s["b"])
            except _Break:
                return
            if not self.decide(self.cond(s["c"])):
                return

    def s_for(self, s):
        if s["init"]:
            self.s(s["init"])
        n = 0
        while s["c"] is None or self.decide(self.cond(s["c"])):
            n += 1
            if n > 2000:
                raise Unmodelled("loop without end at %s" % self.where(s))
            try:
                self.loopbody(s["b"])
            except _Break:
                return
            if s["inc"]:
                self.E(s["inc"])

    def s_rfor(self, s):
        rng = self.R(s["range"])
        d = s["v"]
        for r in self.elements(rng.get() if isinstance(rng, Ref) else rng):
            if d.get("ref") or d["t"].endswith("&"):
                x = r
            else:
                v = r.get()
                x = Cell(cp(v) if mutable(v) else v)
            self.env[d["id"]] = x
            if d.get("bind"):
                self.bindings(d["bind"], x)
            try:
                self.loopbody(s["b"])
            except _Break:
                return

    def elements(self, c):
        """references to the elements of a range, in iteration order"""
        if isinstance(c, Vec):
            return list(c.l)
        if isinstance(c, SetV):
            return [Cell(k) for k in c.keys()]
        if isinstance(c, MapV):
            return [Cell(Tup([Cell(k), c.d[k]])) for k in c.keys()]
        if isinstance(c, Mat):
            if 1 not in c.a.shape and c.a.size:
                raise Unmodelled("iteration over a matrix")
            return [self.elem(c, i) for i in range(c.a.size)]
        if isinstance(c, J):
            if isinstance(c.v, list):
                return [Cell(x) for x in c.v]
            if isinstance(c.v, dict):
                return [Cell(c.v[k]) for k in sorted(c.v)]
            if c.v is None:
                return []
            return [Cell(c)]
        if isinstance(c, Lib) and c.cls == "items":
            j = c.data["j"]
            ks = sorted(j.v) if isinstance(j.v, dict) else range(len(j.v)) if isinstance(j.v, list) else []
            return [Cell(Tup([Cell(k if isinstance(k, str) else str(k)), Cell(j.v[k])])) for k in ks]
        if isinstance(c, str):
            return [Cell(ord(x)) for x in c]
        raise Unmodelled("range %r" % (c,))

    def s_switch(self, s):
        v = self.V(s["c"])
        v = as_int(v) if not isinstance(v, T) or v.op == "num" else v
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        # flatten nested case labels
        flat = []

        def fl(x):
            if x["k"] in ("case", "default"):
                flat.append(("label", x.get("e") if x["k"] == "case" else None))
                fl(x["b"])
            else:
                flat.append(("stmt", x))
        for x in body:
            fl(x)
        start = None
        for i, (k, x) in enumerate(flat):
            if k == "label" and x is not None:
                c = self.V(x)
                eq = cmp_eq(tt(v), tt(c))
                if self.decide(eq):
                    start = i
                    break
        if start is None:
            start = next((i for i, (k, x) in enumerate(flat) if k == "label" and x is None), None)
        if start is None:
            return
        try:
            for k, x in flat[start:]:
                if k == "stmt":
                    self.s(x)
        except _Break:
            pass

    def s_try(self, s):
        saved = self.depth, self.env, self.this, self.fn, list(self.frames)
        try:
            self.s(s["b"])
        except Thrown as t:
            self.depth, self.env, self.this, self.fn, self.frames = saved[0], saved[1], saved[2], saved[3], list(saved[4])
            for h in s["h"]:
                if h.get("all") or self.isa(t.cls, excls(h.get("ct", ""))):
                    if h.get("v"):
                        self.env[h["v"]["id"]] = Cell(t)
                    self.handling = getattr(self, "handling", []) + [t]
                    try:
                        self.s(h["b"])
                    finally:
                        self.handling = self.handling[:-1]
                    return
            raise

    def isa(self, a, b):
        seen = set()
        a = excls(a)
        while a and a not in seen:
            if a == b:
                return True
            seen.add(a)
            r = self.P.records.get(a)
            if r and r.get("bases"):
                a = excls(r["bases"][0]["t"])
            else:
                a = STD_EXC.get(a)
        return False

    # -------------------------------------------------------------- expressions
    def E(self, e):
        """Ref for an lvalue, else a value"""
        return getattr(self, "e_" + e["k"], self.e_unknown)(e)

    def V(self, e):
        r = self.E(e)
        return r.get() if isinstance(r, Ref) else r

    def R(self, e):
        r = self.E(e)
        return r if isinstance(r, Ref) else Cell(r)

    def e_unknown(self, e):
        raise Unmodelled("expression %s at %s" % (e["k"], self.where(e)))

    def e_int(self, e):
        return int(e["v"])

    def e_bool(self, e):
        return bool(e["v"])

    def e_float(self, e):
        s = e["s"].rstrip("fFlL").replace("'", "")
        try:
            return num(Fr(s))
        except Exception:
            return num(Fr(float(e["v"])))

    def e_str(self, e):
        return e["v"]

    def e_enum(self, e):
        return int(e["v"])

    def e_nullptr(self, e):
        return None

    def e_zero(self, e):
        t = e.get("t", "")
        if is_float(t):
            return ZERO
        if t.endswith("*"):
            return None
        if t in ("int", "long", "unsigned int", "unsigned long", "short", "char"):
            return 0
        if t == "bool":
            return False
        return self.default(t)

    def e_null(self, e):
        return None

    def e_this(self, e):
        return Ptr(Cell(self.this))

    def e_var(self, e):
        if "g" in e:
            q = e["g"]
            if q.endswith("::npos"):
                return (1 << 64) - 1
            if q in self.hooks:
                return self.hooks[q](self, None, [], e)
            if q not in self.globals:
                g = self.P.globals.get(q)
                if g is None or g.get("init") is None:
                    if q.startswith("std::") or q.startswith("Eigen::"):
                        return Cell(Stream(q) if q in ("std::cout", "std::cerr", "std::clog") else Lib(q))
                    raise Unmodelled("global %s" % q)
                saved = self.env, self.this, self.fn
                self.env = {}
                try:
                    self.globals[q] = Cell(self.initial(g["init"], g["t"]))
                finally:
                    self.env, self.this, self.fn = saved
            return self.globals[q]
        r = self.env.get(e["id"])
        if r is None:
            raise Unmodelled("variable %s at %s" % (e["n"], self.where(e)))
        return r

    def e_fnref(self, e):
        return Fn(key=e["fn"], e=e)

    def e_ref(self, e):
        raise Unmodelled("reference to %s" % e["n"])

    def deref(self, p, e=None):
        if p is None:
            raise UB("null pointer dereferenced at %s" % self.where(e))
        if isinstance(p, Ptr):
            return p.r
        if isinstance(p, PArr):
            return self.npelem(p.a, p.o, e)
        if isinstance(p, It):
            return self.it_deref(p, e)
        if isinstance(p, UP):
            return self.deref(p.p, e)
        if isinstance(p, T) and p.op == "uninit":
            raise UB("uninitialised pointer dereferenced at %s" % self.where(e))
        if isinstance(p, str):
            return Cell(ord(p[0]) if p else 0)
        raise Unmodelled("dereference of %r" % (p,))

    def npelem(self, a, i, e=None):
        i = as_int(i)
        if not 0 <= i < a.shape[0]:
            raise UB("access outside the storage: index %d of %d at %s" % (i, a.shape[0], self.where(e)))
        return NpElem(a, i)

    def e_field(self, e):
        o = self.V(e["e"])
        if e.get("arrow"):
            r = self.deref(o, e)
            o = r.get()
        if isinstance(o, Tup):
            return o.l[0 if e["n"] == "first" else 1]
        if isinstance(o, Obj):
            k = (base_t(e.get("rc", "")), e["n"])
            c = o.f.get(k)
            if c is None:
                c = next((v for (rc, n), v in o.f.items() if n == e["n"]), None)
            if c is None:
                raise Unmodelled("field %s of %s" % (e["n"], o.cls))
            return c
        if isinstance(o, Lib):
            return o.data.setdefault(e["n"], Cell(mk("sym", "%s.%s" % (o.cls, e["n"]))))
        raise Unmodelled("field %s of %r at %s" % (e["n"], o, self.where(e)))

    def e_cast(self, e):
        v = self.V(e["e"])
        ck = e["ck"]
        if ck == "ToVoid":
            return None
        if ck == "IntegralToFloating":
            return tt(v)
        if ck == "FloatingToIntegral":
            v = tt(v)
            if v.op == "num":
                f = v.args[0]
                return int(f) if f >= 0 else -int(-f)
            return mk("fn", "trunc", v)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            if isinstance(v, T):
                return bnot(cmp_eq(v, ZERO)) if v.op != "num" else v.args[0] != 0
            return v != 0
        if ck == "PointerToBoolean":
            return truthy(v)
        if ck == "EnumToInt":
            return v
        return v

    def e_dyncast(self, e):
        v = self.V(e["e"])
        t = base_t(e["t"])
        isref = not e["t"].rstrip().endswith("*") and not e["t"].rstrip().endswith("*const")
        if v is None:
            return None
        o = v.r.get() if isinstance(v, Ptr) else v
        if isinstance(o, Obj):
            ok = self.H.isa(o.cls, t)
            if isref:
                if not ok:
                    raise Thrown("std::bad_cast")
                return Cell(o)
            return v if ok else None
        raise Unmodelled("dynamic_cast of %r" % (o,))

    def e_constcast(self, e):
        return self.E(e["e"])

    e_reinterpret = e_unknown

    def e_stdinit(self, e):
        return self.E(e["e"])

    def e_init(self, e):
        t = base_t(e.get("t", ""))
        if t in self.P.records:
            o = Obj(t)
            fs = self.P.records[t]["fields"]
            for fd, a in zip(fs, e["a"]):
                if fd["t"].endswith("&"):
                    o.f[(t, fd["n"])] = self.R(a)
                else:
                    o.f[(t, fd["n"])] = Cell(self.initial(a, fd["t"]))
            for fd in fs[len(e["a"]):]:
                o.f[(t, fd["n"])] = Cell(self.V(fd["init"]) if fd.get("init") is not None else self.default(fd["t"]))
            return o
        if len(e["a"]) == 1 and (is_scalar_t(t) or t.endswith("*")):
            return self.V(e["a"][0])
        if not e["a"] and is_scalar_t(t):
            return ZERO if is_float(t) else False if t == "bool" else 0
        return Vec([Cell(self.initial(a, a.get("t", ""))) for a in e["a"]], t)

    def e_lambda(self, e):
        env = dict(self.env)
        for c in e["cap"]:
            if c.get("this"):
                continue
            if "init" in c:
                env[c["id"]] = Cell(self.initial(c["init"], c["init"].get("t", ""))) if c["by"] == "copy" else self.R(c["init"])
            elif c["by"] == "copy" and c["id"] in self.env:
                v = self.env[c["id"]].get()
                env[c["id"]] = Cell(cp(v) if mutable(v) else v)
        return Fn(e=e, env=env, this=self.this, frame=self.fn)

    def draw(self, f, args):
        """a number from a distribution or an engine"""
        if f.cls.startswith("std::") and "_distribution<" in f.cls:
            if not args:
                raise Unmodelled("distribution without engine")
            g = val_of(args[0])
            ps = val_of(args[1]).data.get("args", []) if len(args) > 1 else f.data.get("args", [])
        else:
            g, ps = f, None
        if not isinstance(g, Lib):
            raise Unmodelled("engine %r" % (g,))
        z = self.fresh("noise")
        self.events.append(("draw", f.cls, g, self.where(), z))
        if ps is None or not f.cls.startswith("std::normal_distribution"):
            return z
        if len(ps) > 2 or not all(isinstance(p, (T, int, float)) or is_num(p) for p in ps):
            raise Unmodelled("parameters of a distribution")
        ps = [tt(p) for p in ps] + [ZERO, ONE][len(ps):]
        return add(ps[0], mul(ps[1], z))

    def apply(self, f, args, fn=None):
        """call of a lambda, a function pointer or a std::function"""
        if isinstance(f, Opt):
            f = f.c.get() if f.c else None
        if f is None:
            raise Thrown("std::bad_function_call")
        if isinstance(f, Obj):
            m = [m for c in self.H.bases(f.cls) for m in self.P.records[c]["methods"] if m["n"] == "operator()"]
            if m and m[0]["key"] in self.P.functions:
                return self.call(self.P.functions[m[0]["key"]], f, args)
        if isinstance(f, Lib) and f.cls.startswith(RANDOM):
            return self.draw(f, args)
        if not isinstance(f, Fn):
            raise Unmodelled("call of %r" % (f,))
        if f.py:
            return f.py(*args)
        if f.key:
            fn = self.P.functions.get(f.key)
            if fn is None:
                return self.extcall(f.e, short(f.e.get("q", ""))[1], f.e.get("q", ""), list(args))
            return self.call(fn, None, args)
        e = instance(f.e, fn)
        if e is None:
            raise Unmodelled("generic lambda")
        saved = self.env, self.this, self.fn
        self.env, self.this, self.fn = dict(f.env), f.this, f.frame
        # captured references share the enclosing variables
        for p, a in zip(e["p"], args):
            x = a.get() if isinstance(a, Ref) else a
            t = base_t(p.get("t", ""))
            if isinstance(x, J) and (t.startswith("std::basic_string<") or is_scalar_t(t)):
                a = self.json_get(x, t)      # an algorithm handing over an element of a json array
            self.env[p["id"]] = self.bind(p, a)
        self.frames.append("lambda")
        try:
            self.s(e["b"])
            r = None
        except _Return as x:
            r = x.v
            if isinstance(r, Ref):
                v = r.get()
                if not mutable(v):
                    r = v
                else:
                    r = Cell(v)
        finally:
            self.env, self.this, self.fn = saved
            self.frames.pop()
        return r

    def e_throw(self, e):
        if e.get("e") is None:
            h = getattr(self, "handling", [])
            if h:
                raise h[-1]
            raise Unmodelled("rethrow outside a handler")
        v = self.V(e["e"])
        if isinstance(v, Thrown):
            raise Thrown(v.cls, v.msg, self.where(e))
        c = excls(e["e"].get("t", ""))
        msg = None
        if isinstance(v, Lib):
            msg = v.data.get("msg")
        raise Thrown(c, msg, self.where(e))

    def e_new(self, e):
        v = self.V(e["e"]) if e.get("e") else self.default(e["at"])
        return Ptr(Cell(v))

    def e_delete(self, e):
        self.V(e["e"])
        return None

    def e_cond(self, e):
        c = truthy(self.V(e["c"]))
        return self.E(e["x"]) if self.decide(c) else self.E(e["y"])

    def e_index(self, e):
        b = self.V(e["x"])
        i = as_int(self.V(e["y"]))
        if isinstance(b, PArr):
            return self.npelem(b.a, b.o + i, e)
        if isinstance(b, Vec):
            return self.vecelem(b, i, e)
        if isinstance(b, str):
            return ord(b[i])
        raise Unmodelled("subscript of %r" % (b,))

    def vecelem(self, v, i, e=None):
        i = as_int(i)
        if not 0 <= i < len(v.l):
            raise UB("access outside a list: index %d of %d at %s" % (i, len(v.l), self.where(e)))
        return v.l[i]

    def e_un(self, e):
        op = e["op"]
        if op == "&":
            r = self.E(e["e"])
            if isinstance(r, Fn):
                return r
            if isinstance(r, NpElem):
                return PArr(r.a, r.i)
            return Ptr(r if isinstance(r, Ref) else Cell(r))
        if op == "*":
            return self.deref(self.V(e["e"]), e)
        if op in ("++", "--"):
            r = self.R(e["e"])
            old = r.get()
            r.set(self.step(old, 1 if op == "++" else -1))
            return old if e.get("post") else r
        v = self.V(e["e"])
        if op == "!":
            c = truthy(v)
            return (not c) if isinstance(c, bool) else bnot(c)
        if op == "-":
            return neg(v) if isinstance(v, T) else -v
        if op == "+":
            return v
        if op == "~":
            return ~as_int(v)
        raise Unmodelled("operator " + op)

    def step(self, v, d):
        if isinstance(v, bool):
            raise Unmodelled("++ on bool")
        if isinstance(v, int):
            return v + d
        if isinstance(v, It):
            return It(v.c, v.i + d, v.keys)
        if isinstance(v, PArr):
            return PArr(v.a, v.o + d)
        if isinstance(v, T):
            return add(v, num(d))
        raise Unmodelled("++ on %r" % (v,))

    def e_bin(self, e):
        op = e["op"]
        if op == "&&":
            c = truthy(self.V(e["x"]))
            if c is False or c is FALSE:
                return False
            if c is True or c is TRUE:
                return truthy(self.V(e["y"]))
            return truthy(self.V(e["y"])) if self.decide(c) else False
        if op == "||":
            c = truthy(self.V(e["x"]))
            if c is True or c is TRUE:
                return True
            if c is False or c is FALSE:
                return truthy(self.V(e["y"]))
            return True if self.decide(c) else truthy(self.V(e["y"]))
        if op == ",":
            self.E(e["x"])
            return self.E(e["y"])
        return self.binop(op, self.V(e["x"]), self.V(e["y"]), e)

    def binop(self, op, a, b, e=None):
        if any(isinstance(x, Lib) and x.cls.startswith("std::chrono") for x in (a, b)) and op in ("+", "-", "*", "/"):
            return Lib("std::chrono::value")
        if op in ("<", "<=", ">", ">=", "==", "!=") and (isinstance(a, Opt) or isinstance(b, Opt)):
            x = a.c is not None if isinstance(a, Opt) else True
            y = b.c is not None if isinstance(b, Opt) else True
            if x and y:
                return self.binop(op, a.c.get() if isinstance(a, Opt) else a, b.c.get() if isinstance(b, Opt) else b, e)
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            t = (e or {}).get("t", "")
            if op == "+":
                return int(a) + int(b)
            if op == "-":
                r = int(a) - int(b)
                if "unsigned" in t and r < 0:
                    r %= 1 << 64
                return r
            if op == "*":
                return int(a) * int(b)
            if op in ("/", "%"):
                if b == 0:
                    raise UB("integer division by zero at %s" % self.where(e))
                q = abs(int(a)) // abs(int(b))
                q = q if (a >= 0) == (b >= 0) else -q
                return q if op == "/" else int(a) - q * int(b)
            if op in ("<", ">", "<=", ">=", "==", "!="):
                return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
            if op == "<<":
                return a << b
            if op == ">>":
                return a >> b
            if op == "|":
                return a | b if not (isinstance(a, bool) and isinstance(b, bool)) else a or b
            if op == "&":
                return a & b
            if op == "^":
                return a ^ b
        if isinstance(a, (It, PArr, Ptr, UP)) or isinstance(b, (It, PArr, Ptr, UP)) or a is None or b is None:
            return self.ptrop(op, a, b, e)
        if isinstance(a, Mat) or isinstance(b, Mat) or isinstance(a, Sp) or isinstance(b, Sp):
            return self.matop(op, a, b, e)
        if isinstance(a, T) or isinstance(b, T):
            if isinstance(a, (str, SymS)) or isinstance(b, (str, SymS)):
                raise Unmodelled("text and number")
            a, b = tt(a), tt(b)
            if op == "+":
                return add(a, b)
            if op == "-":
                return sub(a, b)
            if op == "*":
                return mul(a, b)
            if op == "/":
                return div(a, b)
            if op in ("<", ">", "<=", ">=", "==", "!="):
                return self.compare(op, a, b)
        if isinstance(a, (str, SymS)) and isinstance(b, (str, SymS)):
            return self.strop(op, a, b)
        raise Unmodelled("%r %s %r at %s" % (a, op, b, self.where(e)))

    def compare(self, op, a, b):
        if op in (">", ">="):
            a, b, op = b, a, {">": "<", ">=": "<="}[op]
        d = sub(a, b)
        try:
            d = canon(d) if d.op != "num" else d
        except Exception:
            pass
        if d.op == "num":
            x = d.args[0]
            return {"<": x < 0, "<=": x <= 0, "==": x == 0, "!=": x != 0}[op]
        c = {"<": cmp_lt, "<=": cmp_le, "==": cmp_eq, "!=": lambda x, y: bnot(cmp_eq(x, y))}[op](a, b)
        return c

    def strop(self, op, a, b):
        if op in ("==", "!=") and isinstance(a, str) and isinstance(b, str):
            self.compared.append((a, b))
        if op == "+":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return SymS("%s%s" % (a if isinstance(a, str) else a.n, b if isinstance(b, str) else b.n))
        if isinstance(a, str) and isinstance(b, str):
            a, b = a.encode("utf8", "replace"), b.encode("utf8", "replace")
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        if a is b and op in ("==", "!="):
            return op == "=="
        raise Unmodelled("comparison of unknown text")

    def ptrop(self, op, a, b, e=None):
        if isinstance(a, UP):
            a = a.p
        if isinstance(b, UP):
            b = b.p
        if isinstance(a, It) and isinstance(b, (int, bool)) and op in "+-":
            return It(a.c, a.i + (b if op == "+" else -b), a.keys)
        if isinstance(b, It) and isinstance(a, int) and op == "+":
            return It(b.c, b.i + a, b.keys)
        if isinstance(a, PArr) and isinstance(b, int) and op in "+-":
            return PArr(a.a, a.o + (b if op == "+" else -b))
        if isinstance(a, It) and isinstance(b, It):
            if op == "-":
                return a.i - b.i
            x, y = a.i, b.i
            if op in ("==", "!=", "<", ">", "<=", ">="):
                same = a.c is b.c or isinstance(a.c, Mat) and isinstance(b.c, Mat)
                if not same and op in ("==", "!="):
                    return op == "!="
                return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
        if isinstance(a, PArr) and isinstance(b, PArr):
            if op == "-":
                return a.o - b.o
            if op in ("==", "!="):
                return (a.a is b.a and a.o == b.o) == (op == "==")
        if op in ("==", "!="):
            if a is None or b is None:
                same = a is None and b is None
                if isinstance(a, T) or isinstance(b, T):
                    raise UB("uninitialised pointer compared at %s" % self.where(e))
            else:
                ta = a.target() if isinstance(a, Ptr) else a
                tb = b.target() if isinstance(b, Ptr) else b
                same = ta is tb
            return same if op == "==" else not same
        raise Unmodelled("%r %s %r" % (a, op, b))

    def e_assign(self, e):
        op = e["op"]
        if op == "=":
            v = self.V(e["y"])
            r = self.R(e["x"])
            self.assign(r, v)
            return r
        r = self.R(e["x"])
        v = self.V(e["y"])
        old = r.get()
        if isinstance(old, T) and old.op == "uninit":
            raise UB("uninitialised value used at %s" % self.where(e))
        isint = isinstance(old, int) and not isinstance(old, bool)
        nv = self.binop(op[:-1], old, v, e)
        if isint and isinstance(nv, T):
            if nv.op == "num":
                f = nv.args[0]
                nv = int(f) if f >= 0 else -int(-f)
        r.set(nv)
        return r

    def assign(self, r, v):
        """assignment keeps the identity of the object assigned to"""
        o = r.get()
        if o is v:
            return
        if isinstance(o, Obj) and isinstance(v, Obj):
            n = cp(v)
            for k, c in n.f.items():
                if k in o.f:
                    self.assign(o.f[k], c.get())
            return
        if isinstance(o, Vec) and isinstance(v, Vec):
            o.l[:] = [Cell(cp(c.get())) for c in v.l]
            return
        if isinstance(o, MapV) and isinstance(v, MapV):
            n = cp(v)
            o.d.clear()
            o.d.update(n.d)
            return
        if isinstance(o, J):
            n = v if isinstance(v, J) else self.json_of(v)
            n = cp(n)
            o.v = n.v
            return
        if isinstance(o, Tup) and isinstance(v, Tup):
            for c, d in zip(o.l, v.l):
                self.assign(c, d.get())
            return
        if isinstance(o, Opt):
            if isinstance(v, Opt):
                o.c = Cell(cp(v.c.get())) if v.c else None
            elif v is None or isinstance(v, Lib):
                o.c = None
            else:
                o.c = Cell(cp(v))
            return
        if isinstance(o, UP):
            if isinstance(v, UP):
                o.p = v.p
            else:
                o.p = v
            return
        if isinstance(o, Mat):
            self.mat_assign(o, v)
            return
        if isinstance(o, Sp):
            if isinstance(v, Sp):
                o.r, o.c, o.d, o.gaps = v.r, v.c, dict(v.d), set()
                return
            raise Unmodelled("assignment to sparse matrix")
        if isinstance(o, Lib) and isinstance(v, Lib):
            o.data = dict(v.data)
            return
        r.set(cp(v) if mutable(v) else v)

    # -------------------------------------------------------------- arguments
    def args(self, es, pr):
        out = []
        for i, a in enumerate(es):
            k = pr[i] if i < len(pr) else "v"
            if k in ("r", "c", "m"):
                out.append(self.R(a))
            else:
                r = self.E(a)
                if isinstance(r, Ref):
                    v = r.get()
                    r = v
                out.append(r)
        return out

    def dispatch(self, e, o):
        """definition reached by a member call on object o"""
        key = e.get("fn")
        if e.get("virt") and isinstance(o, Obj):
            k, c = self.H.final_overrider(o.cls, key)
            if k is not None:
                key = k
        return key

    def e_mcall(self, e):
        q = e.get("q", "")
        base = self.E(e["e"])
        o = base.get() if isinstance(base, Ref) else base
        if isinstance(o, Ptr):
            base = o.r
            o = o.r.get()
        elif o is None:
            raise UB("member call %s on a null pointer at %s" % (short(q)[1], self.where(e)))
        elif isinstance(o, T) and o.op == "uninit" and e.get("in"):
            raise UB("member call on an uninitialised pointer at %s" % self.where(e))
        if q in self.hooks:
            return self.hooks[q](self, o, self.args(e["a"], e.get("pr", "")), e)
        if isinstance(o, Obj):
            key = self.dispatch(e, o)
            f = self.P.functions.get(key)
            if f is not None and f["b"] is not None:
                if f["q"] in self.hooks:
                    return self.hooks[f["q"]](self, o, self.args(e["a"], e.get("pr", "")), e)
                return self.call(f, o, self.args(e["a"], e.get("pr", "")))
            if e.get("n") == "operator=" or short(q)[1] == "operator=":
                self.assign(Cell(o), self.V(e["a"][0]))
                return Cell(o)
            raise Unmodelled("member function %s" % q)
        n = e.get("n") or short(q)[1]
        if not isinstance(base, Ref):
            base = Cell(o)
        if n == "operator=" and len(e["a"]) == 1:
            self.assign(base, self.V(e["a"][0]))
            return base
        return self.method(e, n, q, base, o, self.args(e["a"], e.get("pr", "")))

    def e_call(self, e):
        q = e.get("q", "")
        if "callee" in e:
            f = self.V(e["callee"])
            if isinstance(f, Ptr):
                f = f.r.get()
            return self.apply(f, [self.R(a) for a in e["a"]])
        if q in self.hooks:
            return self.hooks[q](self, None, self.args(e["a"], e.get("pr", "")), e)
        f = self.P.functions.get(e.get("fn"))
        if f is not None and f["b"] is not None:
            return self.call(f, None, self.args(e["a"], e.get("pr", "")))
        return self.extcall(e, short(q)[1], q, self.args(e["a"], e.get("pr", "")))

    def e_opcall(self, e):
        q = e.get("q", "")
        op = e["op"]
        if q in self.hooks:
            pr = ("r" if e.get("opm") else "") + e.get("pr", "")
            a = self.args(e["a"], pr)
            return self.hooks[q](self, a[0], a[1:], e)
        f = self.P.functions.get(e.get("fn"))
        if e.get("opm"):
            base = self.R(e["a"][0])
            o = base.get()
            if isinstance(o, Obj):
                f = self.P.functions.get(self.dispatch(e, o)) or f
                if f is not None and f["b"] is not None:
                    return self.call(f, o, self.args(e["a"][1:], e.get("pr", "")))
            if op == "=":
                v = self.V(e["a"][1])
                self.assign(base, v)
                return base
            rest = self.args(e["a"][1:], e.get("pr", ""))
            return self.operator(e, op, base, o, rest)
        if f is not None and f["b"] is not None:
            return self.call(f, None, self.args(e["a"], e.get("pr", "")))
        base = self.R(e["a"][0])
        rest = self.args(e["a"][1:], e.get("pr", "")[1:])
        return self.operator(e, op, base, base.get(), rest)

    def e_ctor(self, e):
        cls = base_t(e.get("rc") or e.get("t", ""))
        q = e.get("q", "")
        if q in self.hooks:
            return self.hooks[q](self, None, self.args(e.get("a") or [], e.get("pr", "")), e)
        if cls in self.P.records:
            if e.get("copy") or e.get("move"):
                f = self.P.functions.get(e.get("fn"))
                if f is None or f.get("implicit") or f.get("defaulted"):
                    src = self.E(e["a"][0])
                    if not isinstance(src, Ref):
                        return src
                    v = src.get()
                    n = cp(v)
                    if e.get("move") and isinstance(v, Obj):
                        self.moved(v)
                    return n
            if e.get("inherited"):
                raise Unmodelled("inherited constructor")
            f = self.P.functions.get(e.get("fn"))
            o = Obj(cls)
            if f is None or f["b"] is None:
                if e.get("a"):
                    if len(e["a"]) == 1:
                        v = self.V(e["a"][0])
                        if isinstance(v, Obj):
                            return cp(v)
                    raise Unmodelled("constructor %s" % q)
                self.default_fields(cls, o)
                return o
            self.call(f, o, self.args(e["a"], e.get("pr", "")))
            return o
        return self.extctor(e, cls)

    def moved(self, v):
        for c in v.f.values():
            x = c.get()
            if isinstance(x, UP):
                x.p = None
            elif isinstance(x, Vec):
                x.l = []

    # -------------------------------------------------------------- json
    def json_of(self, v):
        """conversion of a C++ value to json"""
        if isinstance(v, J):
            return v
        if v is None or isinstance(v, (bool, int, str, SymS)):
            return J(v)
        if isinstance(v, T):
            return J(v)
        if isinstance(v, Vec):
            items = [c.get() for c in v.l]
            return J([cp(self.json_of(x)) for x in items])
        if isinstance(v, MapV):
            return J({k: cp(self.json_of(c.get())) for k, c in v.d.items()})
        if isinstance(v, Tup):
            return J([cp(self.json_of(c.get())) for c in v.l])
        if isinstance(v, Fr):
            return J(num(v))
        raise Unmodelled("json from %r" % (v,))

    def json_init(self, v):
        """json from a braced list: an object if every element is a [string, value] pair"""
        js = [cp(self.json_of(c.get())) for c in v.l]
        if all(isinstance(j.v, list) and len(j.v) == 2 and isinstance(j.v[0].v, str) for j in js):
            return J({j.v[0].v: j.v[1] for j in reversed(js)})
        return J(js)

    def json_get(self, j, t):
        """j.get<t>() / implicit conversion"""
        b = base_t(t)
        k = j.kind()
        if b.startswith(("nlohmann::basic_json", "nlohmann::json")):
            return cp(j)
        if b.startswith("std::basic_string") or b in ("std::string",):
            if k != "string":
                raise Thrown("nlohmann::type_error", "type must be string, but is %s" % k, self.where())
            return j.v
        if is_float(b):
            if k == "number":
                return tt(j.v)
            if k == "boolean":
                return num(int(j.v))
            raise Thrown("nlohmann::type_error", "type must be number, but is %s" % k, self.where())
        if b == "bool":
            if k != "boolean":
                raise Thrown("nlohmann::type_error", "type must be boolean, but is %s" % k, self.where())
            return j.v
        if is_scalar_t(b):
            if k == "number":
                if isinstance(j.v, int):
                    return j.v
                if j.v.op == "num":
                    f = j.v.args[0]
                    return int(f) if f >= 0 else -int(-f)
                return mk("fn", "trunc", j.v)
            if k == "boolean":
                return int(j.v)
            raise Thrown("nlohmann::type_error", "type must be number, but is %s" % k, self.where())
        if b.startswith(("std::vector<", "std::list<", "std::deque<")):
            if k != "array":
                raise Thrown("nlohmann::type_error", "type must be array, but is %s" % k, self.where())
            return Vec([Cell(self.json_get(x, targs(b)[0])) for x in j.v], b)
        if b.startswith("std::array<"):
            inner, n = targs(b)[0], int(targs(b)[1])
            if k != "array":
                raise Thrown("nlohmann::type_error", "type must be array, but is %s" % k, self.where())
            if len(j.v) < n:
                raise Thrown("nlohmann::out_of_range", "array index out of range", self.where())
            return Vec([Cell(self.json_get(x, inner)) for x in j.v[:n]], b)
        if b.startswith("std::map<"):
            if k != "object":
                raise Thrown("nlohmann::type_error", "type must be object, but is %s" % k, self.where())
            return MapV({x: Cell(self.json_get(y, targs(b)[1])) for x, y in j.v.items()})
        raise Unmodelled("json to %s" % b)

    def json_index(self, j, k, const, e):
        if isinstance(k, (str, SymS)):
            if j.v is None and not const:
                j.v = {}
            if not isinstance(j.v, dict):
                raise Thrown("nlohmann::type_error", "cannot use operator[] with a string argument with %s" % j.kind(), self.where(e))
            if k not in j.v:
                if const:
                    raise UB("missing key \"%s\" read through a constant reference at %s" % (k, self.where(e)))
                j.v[k] = J(None)
            return Cell(j.v[k])
        i = as_int(k)
        if j.v is None and not const:
            j.v = []
        if not isinstance(j.v, list):
            raise Thrown("nlohmann::type_error", "cannot use operator[] with a numeric argument with %s" % j.kind(), self.where(e))
        if i >= len(j.v):
            if const:
                raise UB("json list index %d of %d at %s" % (i, len(j.v), self.where(e)))
            while len(j.v) <= i:
                j.v.append(J(None))
        return Cell(j.v[i])

    def json_eq(self, a, b):
        a = a if isinstance(a, J) else self.json_of(a)
        b = b if isinstance(b, J) else self.json_of(b)
        if a.kind() != b.kind():
            return False
        x, y = a.v, b.v
        if isinstance(x, list):
            return len(x) == len(y) and all(self.decide(truthy(self.json_eq(p, q))) for p, q in zip(x, y))
        if isinstance(x, dict):
            return sorted(x) == sorted(y) and all(self.decide(truthy(self.json_eq(x[k], y[k]))) for k in sorted(x))
        if isinstance(x, (T,)) or isinstance(y, T):
            return self.compare("==", tt(x), tt(y))
        if isinstance(x, (str, SymS)) and isinstance(y, (str, SymS)):
            return self.strop("==", x, y)
        return x == y

    def m_json(self, e, n, base, j, a):
        vals = [x.get() if isinstance(x, Ref) else x for x in a]
        const = bool(e.get("mc"))
        if n in ("get", "get_to", "template get"):
            if n == "get_to":
                a[0].set(self.json_get(j, e.get("t", "")))
                return a[0]
            return self.json_get(j, e.get("rt") or e.get("t", ""))
        if n.startswith("operator ") or e.get("conv"):
            return self.json_get(j, e.get("rt") or e.get("t", ""))
        if n == "contains":
            return isinstance(j.v, dict) and vals[0] in j.v
        if n == "count":
            return int(isinstance(j.v, dict) and vals[0] in j.v)
        if n == "at":
            k = vals[0]
            if isinstance(k, str):
                if not isinstance(j.v, dict):
                    raise Thrown("nlohmann::type_error", "cannot use at() with %s" % j.kind(), self.where(e))
                if k not in j.v:
                    raise Thrown("nlohmann::out_of_range", "key '%s' not found" % k, self.where(e))
                return Cell(j.v[k])
            if not isinstance(j.v, list):
                raise Thrown("nlohmann::type_error", "cannot use at() with %s" % j.kind(), self.where(e))
            i = as_int(k)
            if not 0 <= i < len(j.v):
                raise Thrown("nlohmann::out_of_range", "array index %d is out of range" % i, self.where(e))
            return Cell(j.v[i])
        if n == "value":
            if not isinstance(j.v, dict):
                raise Thrown("nlohmann::type_error", "cannot use value() with %s" % j.kind(), self.where(e))
            if vals[0] in j.v:
                rt = e.get("rt") or e.get("t", "")
                return self.json_get(j.v[vals[0]], rt)
            return cp(vals[1])
        if n in ("begin", "cbegin"):
            return It(j, 0, sorted(j.v) if isinstance(j.v, dict) else None)
        if n in ("end", "cend"):
            return It(j, len(j.v) if isinstance(j.v, (list, dict)) else 0 if j.v is None else 1, sorted(j.v) if isinstance(j.v, dict) else None)
        if n == "size":
            return len(j.v) if isinstance(j.v, (list, dict)) else 0 if j.v is None else 1
        if n == "empty":
            return j.v is None or isinstance(j.v, (list, dict)) and not j.v
        if n == "front":
            if not j.v:
                raise UB("front() of an empty json at %s" % self.where(e))
            return Cell(j.v[0] if isinstance(j.v, list) else j.v[sorted(j.v)[0]] if isinstance(j.v, dict) else j)
        if n == "back":
            if not j.v:
                raise UB("back() of an empty json at %s" % self.where(e))
            return Cell(j.v[-1] if isinstance(j.v, list) else j.v[sorted(j.v)[-1]] if isinstance(j.v, dict) else j)
        if n in ("push_back", "emplace_back"):
            if isinstance(j.v, dict) and isinstance(vals[0], Vec) and braced(vals[0]):
                js = [cp(self.json_of(c.get())) for c in vals[0].l]
                if len(js) == 2 and isinstance(js[0].v, str):
                    j.v.setdefault(js[0].v, js[1])
                    return None
            if j.v is None:
                j.v = []
            if not isinstance(j.v, list):
                raise Thrown("nlohmann::type_error", "cannot use push_back() with %s" % j.kind(), self.where(e))
            v = vals[0]
            j.v.append(cp(v if isinstance(v, J) else self.json_init(v) if isinstance(v, Vec) and braced(v) else self.json_of(v)))
            return Cell(j.v[-1])
        if n == "items":
            x = Lib("items")
            x.data["j"] = j
            return x
        if n == "erase":
            if vals and isinstance(vals[0], It):
                it = vals[0]
                to = vals[1].i if len(vals) > 1 else it.i + 1
                if isinstance(j.v, list):
                    del j.v[it.i:to]
                else:
                    for k in it.keys[it.i:to]:
                        j.v.pop(k, None)
                return It(j, it.i, sorted(j.v) if isinstance(j.v, dict) else None)
            if isinstance(j.v, dict):
                return int(j.v.pop(vals[0], None) is not None)
            i = as_int(vals[0])
            if isinstance(j.v, list):
                if not 0 <= i < len(j.v):
                    raise Thrown("nlohmann::out_of_range", "index", self.where(e))
                del j.v[i]
                return None
        if n == "clear":
            j.v = [] if isinstance(j.v, list) else {} if isinstance(j.v, dict) else None
            return None
        if n == "find":
            if isinstance(j.v, dict):
                ks = sorted(j.v)
                return It(j, ks.index(vals[0]) if vals[0] in j.v else len(ks), ks)
            return It(j, 0 if j.v is None else len(j.v) if isinstance(j.v, list) else 1, None)
        if n in ("is_object", "is_array", "is_string", "is_number", "is_boolean", "is_null"):
            return j.kind() == n[3:]
        if n in ("is_number_integer", "is_number_unsigned"):
            return isinstance(j.v, int) and not isinstance(j.v, bool)
        if n == "is_number_float":
            return isinstance(j.v, T)
        if n in ("is_primitive",):
            return not isinstance(j.v, (list, dict))
        if n == "is_structured":
            return isinstance(j.v, (list, dict))
        if n == "dump":
            x = SymS("dump(%s)" % show_json(j)[:60])
            x.j = cp(j)
            return x
        if n == "type_name":
            return j.kind()
        if n == "type":
            k = j.kind()
            return {"null": 0, "object": 1, "array": 2, "string": 3, "boolean": 4}.get(k, 5 if isinstance(j.v, int) and j.v < 0 else 6 if isinstance(j.v, int) else 7)
        if n in ("update", "merge_patch", "insert"):
            o = vals[0]
            if n == "insert":
                raise Unmodelled("json insert")
            if isinstance(o, It):
                raise Unmodelled("json update by iterators")
            if j.v is None:
                j.v = {}
            if not isinstance(j.v, dict) or not isinstance(o.v, dict):
                raise Thrown("nlohmann::type_error", "update", self.where(e))
            if n == "merge_patch":
                merge_patch(j, o)
            else:
                for k, v in o.v.items():
                    j.v[k] = cp(v)
            return None
        if n == "swap":
            o = vals[0]
            j.v, o.v = o.v, j.v
            return None
        if n == "items":
            return Lib("items")
        if n == "emplace":
            if j.v is None:
                j.v = {}
            new = vals[0] not in j.v
            if new:
                j.v[vals[0]] = cp(vals[1] if isinstance(vals[1], J) else self.json_of(vals[1]))
            ks = sorted(j.v)
            return Tup([Cell(It(j, ks.index(vals[0]), ks)), Cell(new)])
        raise Unmodelled("json::%s" % n)

    # -------------------------------------------------------------- iterators
    def it_deref(self, it, e=None):
        c = it.c
        if isinstance(c, Vec):
            return self.vecelem(c, it.i, e)
        if isinstance(c, J):
            if isinstance(c.v, list):
                if not 0 <= it.i < len(c.v):
                    raise UB("iterator past the end of a json list at %s" % self.where(e))
                return Cell(c.v[it.i])
            if isinstance(c.v, dict):
                if not 0 <= it.i < len(it.keys):
                    raise UB("iterator past the end of a json object at %s" % self.where(e))
                return Cell(c.v[it.keys[it.i]])
            raise UB("iterator of an empty json at %s" % self.where(e))
        if isinstance(c, MapV):
            ks = it.keys if it.keys is not None else c.keys()
            if not 0 <= it.i < len(ks):
                raise UB("iterator past the end of a map at %s" % self.where(e))
            if isinstance(c, SetV):
                return Cell(ks[it.i])
            return Cell(Tup([Cell(ks[it.i]), c.d[ks[it.i]]]))
        if isinstance(c, Mat):
            return self.elem(c, it.i, None, e)
        if isinstance(c, str):
            return Cell(ord(c[it.i]))
        raise Unmodelled("iterator over %r" % (c,))

    def span(self, a, b):
        """references between two iterators"""
        if isinstance(a, PArr):
            return [self.npelem(a.a, i) for i in range(a.o, b.o)]
        return [self.it_deref(It(a.c, i, a.keys)) for i in range(a.i, b.i)]

    # -------------------------------------------------------------- Eigen
    def elem(self, m, i, j=None, e=None):
        i = as_int(i)
        r, c = m.a.shape
        if j is None:
            if c == 1:
                j = 0
            elif r == 1:
                i, j = 0, i
            else:
                raise Unmodelled("linear index into a matrix")
        j = as_int(j)
        if not (0 <= i < r and 0 <= j < c):
            raise UB("access outside a %dx%d matrix: (%d, %d) at %s" % (r, c, i, j, self.where(e)))
        return NpElem(m.a, (i, j))

    def view(self, m, i, j, r, c, e=None):
        i, j, r, c = as_int(i), as_int(j), as_int(r), as_int(c)
        R, C = m.a.shape
        if i < 0 or j < 0 or r < 0 or c < 0 or i + r > R or j + c > C:
            raise UB("block (%d, %d) + %dx%d outside a %dx%d matrix at %s" % (i, j, r, c, R, C, self.where(e)))
        return Mat(m.a[i:i + r, j:j + c], False, m.row)

    def mat_assign(self, o, v):
        if isinstance(v, Mat):
            a = v.a
        elif isinstance(v, Sp):
            a = self.dense_of(v).a
        elif isinstance(v, Vec) and all(not mutable(c.get()) for c in v.l):
            a = np.array([[tt(c.get())] for c in v.l], dtype=object).reshape(-1, 1)
        else:
            raise Unmodelled("matrix assigned %r" % (v,))
        if o.a.shape != a.shape:
            if o.a.shape == a.shape[::-1] and 1 in a.shape and (o.a.shape[1] == 1 or o.a.shape[0] == 1):
                a = a.T
            elif o.own:
                o.a = np.array(a, dtype=object, order="C" if o.row else "F")
                return
            else:
                raise UB("%s block assigned a %s matrix at %s" % (o.a.shape, a.shape, self.where()))
        if o.a.size:
            o.a[:, :] = np.array(a, dtype=object)

    def chk(self, a, e=None):
        """every entry must have been given a value"""
        if any(x is None or isinstance(x, T) and x.op == "uninit" for x in a.flat):
            raise UB("uninitialised matrix entry used at %s" % self.where(e))
        return a

    def matop(self, op, a, b, e=None):
        if isinstance(a, (Opt,)):
            raise Unmodelled("optional in matrix operation")
        if op in ("==", "!="):
            if isinstance(a, Mat) and isinstance(b, Mat):
                if a.a.shape != b.a.shape:
                    if a.a.size != b.a.size:
                        raise UB("matrices of shapes %s and %s compared at %s" % (a.a.shape, b.a.shape, self.where(e)))
                c = True
                for x, y in zip(a.a.flat, b.a.flat):
                    if x is None or y is None:
                        raise UB("uninitialised matrix entry compared at %s" % self.where(e))
                    d = x is y if not isinstance(x, (T, int)) else self.compare("==", tt(x), tt(y))
                    if d is True or d is TRUE:
                        continue
                    if d is False or d is FALSE:
                        c = False
                        break
                    c = d if c is True else band(c, d)
                if c is True or c is False:
                    return c if op == "==" else not c
                return c if op == "==" else bnot(c)
        if isinstance(a, Sp) or isinstance(b, Sp):
            return self.spop(op, a, b, e)
        if op in ("+", "-") and isinstance(a, Mat) and isinstance(b, Mat):
            if a.a.shape != b.a.shape:
                raise UB("%s %s %s at %s" % (a.a.shape, op, b.a.shape, self.where(e)))
            self.chk(a.a, e), self.chk(b.a, e)
            f = (lambda x, y: add(tt(x), tt(y))) if op == "+" else (lambda x, y: sub(tt(x), tt(y)))
            return Mat(emap2(f, a.a, b.a), False)
        if op == "*":
            if isinstance(a, Mat) and isinstance(b, Mat):
                return self.matmul(a, b, e)
            m, s = (a, b) if isinstance(a, Mat) else (b, a)
            s = tt(s)
            self.chk(m.a, e)
            return Mat(emap(lambda x: mul(tt(x), s), m.a), False)
        if op == "/" and isinstance(a, Mat) and not isinstance(b, Mat):
            s = tt(b)
            return Mat(emap(lambda x: div(tt(x), s), self.chk(a.a, e)), False)
        raise Unmodelled("matrix operation %s" % op)

    def matmul(self, a, b, e=None):
        if a.a.shape[1] != b.a.shape[0]:
            raise UB("product of %s and %s matrices at %s" % (a.a.shape, b.a.shape, self.where(e)))
        self.chk(a.a, e), self.chk(b.a, e)
        out = np.empty((a.a.shape[0], b.a.shape[1]), dtype=object)
        for i in range(out.shape[0]):
            for j in range(out.shape[1]):
                out[i, j] = add(*[mul(tt(a.a[i, k]), tt(b.a[k, j])) for k in range(a.a.shape[1])]) if a.a.shape[1] else ZERO
        return Mat(out, False)

    def dense_of(self, s):
        m = np.full((s.r, s.c), ZERO, dtype=object)
        for (i, j), v in s.d.items():
            m[i, j] = v
        return Mat(m, False)

    def spop(self, op, a, b, e):
        if op == "*" and isinstance(a, Sp) and isinstance(b, Mat):
            return self.matmul(self.dense_of(a), b, e)
        if op == "*" and isinstance(a, Mat) and isinstance(b, Sp):
            return self.matmul(a, self.dense_of(b), e)
        if op == "*" and (not isinstance(a, (Mat, Sp)) or not isinstance(b, (Mat, Sp))):
            m, s = (a, b) if isinstance(a, Sp) else (b, a)
            n = cp(m)
            n.d = {k: mul(tt(v), tt(s)) for k, v in m.d.items()}
            return n
        if op in ("+", "-") and isinstance(a, Sp) and isinstance(b, Sp):
            n = cp(a)
            for k, v in b.d.items():
                n.d[k] = (add if op == "+" else sub)(n.d.get(k, ZERO), v)
            return n
        if op in ("+", "-") and isinstance(a, (Sp, Mat)) and isinstance(b, (Sp, Mat)):
            return self.matop(op, *[self.dense_of(x) if isinstance(x, Sp) else x for x in (a, b)], e)
        raise Unmodelled("sparse operation %s" % op)

    def solve(self, lu, rhs, e=None):
        """solution of A x = b by Cramer's rule (A is small)"""
        if lu.m is None:
            raise UB("solve before factorisation at %s" % self.where(e))
        A = lu.m.a if isinstance(lu.m, Mat) else self.dense_of(lu.m).a
        n = A.shape[0]
        b = rhs.a if isinstance(rhs, Mat) else self.dense_of(rhs).a
        if b.shape[0] != n:
            raise UB("solve with %s right-hand side for a matrix of size %d at %s" % (b.shape, n, self.where(e)))
        self.chk(b, e)
        d = det(A)
        out = np.empty((n, b.shape[1]), dtype=object)
        for j in range(b.shape[1]):
            for i in range(n):
                M = A.copy()
                M[:, i] = b[:, j]
                out[i, j] = div(det(M), d)
        return Mat(out, False)

    def data_ptr(self, m, e=None):
        a = m.a
        flat = a.reshape(-1, order="C" if m.row and 1 not in a.shape else "F")
        if a.size and not np.shares_memory(flat, a):
            raise Unmodelled("data() of a block that is not contiguous")
        return PArr(flat, 0)

    def m_mat(self, e, n, base, m, a):
        vals = [x.get() if isinstance(x, Ref) else x for x in a]
        R, C = m.a.shape
        if n == "size":
            return R * C
        if n == "rows":
            return R
        if n == "cols":
            return C
        if n in ("outerSize", "innerSize"):
            return (R if m.row else C) if n == "outerSize" else (C if m.row else R)
        if n in ("segment", "head", "tail", "topRows", "bottomRows", "leftCols", "rightCols", "middleRows", "middleCols", "block", "topLeftCorner"):
            vec = C == 1 or n in ("segment", "head", "tail") and C == 1
            if n in ("segment", "head", "tail"):
                if len(vals) < (2 if n == "segment" else 1):
                    k = re.search(r"Block<.*, (\d+), (\d+)(?:, \w+)?>", e.get("t", ""))
                    if not k:
                        raise Unmodelled("fixed-size segment of type %s" % e.get("t"))
                    L = int(k.group(1)) * int(k.group(2))
                else:
                    L = as_int(vals[-1])
                N = R * C
                s = as_int(vals[0]) if n == "segment" else 0 if n == "head" else N - L
                if C == 1:
                    return self.view(m, s, 0, L, 1, e)
                if R == 1:
                    return self.view(m, 0, s, 1, L, e)
                raise Unmodelled("segment of a matrix")
            i = [as_int(v) for v in vals]
            if n == "topRows":
                return self.view(m, 0, 0, i[0], C, e)
            if n == "bottomRows":
                return self.view(m, R - i[0], 0, i[0], C, e)
            if n == "leftCols":
                return self.view(m, 0, 0, R, i[0], e)
            if n == "rightCols":
                return self.view(m, 0, C - i[0], R, i[0], e)
            if n == "middleRows":
                return self.view(m, i[0], 0, i[1], C, e)
            if n == "middleCols":
                return self.view(m, 0, i[0], R, i[1], e)
            if n == "block" and len(i) == 4:
                return self.view(m, i[0], i[1], i[2], i[3], e)
            if n == "topLeftCorner" and len(i) == 2:
                return self.view(m, 0, 0, i[0], i[1], e)
            raise Unmodelled("Eigen %s" % n)
        if n == "row":
            return self.view(m, vals[0], 0, 1, C, e)
        if n == "col":
            return self.view(m, 0, vals[0], R, 1, e)
        if n in ("transpose", "adjoint"):
            return Mat(m.a.T, False, not m.row)
        if n in ("setZero", "setOnes", "setConstant", "fill"):
            if vals and n in ("setZero", "setOnes") or n == "setConstant" and len(vals) > 1:
                k = [as_int(v) for v in vals[:-1]] if n == "setConstant" else [as_int(v) for v in vals]
                m.a = np.empty((k[0], k[1] if len(k) > 1 else 1), dtype=object, order="C" if m.row else "F")
            v = ZERO if n == "setZero" else ONE if n == "setOnes" else vals[-1]
            if int_scalar(e):
                v = 0 if n == "setZero" else 1 if n == "setOnes" else v
            if m.a.size:
                m.a[:, :] = v
            return base
        if n in ("noalias", "array", "matrix", "eval", "derived", "const_cast_derived", "nestedExpression"):
            return base if n != "eval" else Mat(np.array(m.a, dtype=object, order="F"), True)
        if n == "data":
            return self.data_ptr(m, e)
        if n in ("begin", "cbegin"):
            return It(m, 0)
        if n in ("end", "cend"):
            return It(m, m.a.size)
        if n in ("coeff", "coeffRef", "x", "y", "z"):
            if n in "xyz":
                return self.elem(m, "xyz".index(n), None, e)
            return self.elem(m, vals[0], vals[1] if len(vals) > 1 else None, e)
        if n in ("resize", "conservativeResize", "resizeLike"):
            k = [as_int(v) for v in vals] if n != "resizeLike" else list(vals[0].a.shape)
            sh = (k[0], k[1] if len(k) > 1 else 1)
            if len(k) == 1 and C != 1 and R == 1:
                sh = (1, k[0])
            old = m.a
            if old.shape == sh:
                return None
            m.a = np.full(sh, None, dtype=object, order="C" if m.row else "F")
            if n == "conservativeResize":
                r, c = min(sh[0], old.shape[0]), min(sh[1], old.shape[1])
                m.a[:r, :c] = old[:r, :c]
            return None
        if n == "sum":
            return add(*[tt(x) for x in self.chk(m.a, e).flat]) if m.a.size else ZERO
        if n == "dot":
            o = vals[0]
            return add(*[mul(tt(x), tt(y)) for x, y in zip(self.chk(m.a, e).flat, self.chk(o.a, e).flat)]) if m.a.size else ZERO
        if n in ("maxCoeff", "minCoeff") and not vals:
            if not m.a.size:
                raise UB("%s of an empty vector at %s" % (n, self.where(e)))
            xs = [tt(x) for x in self.chk(m.a, e).flat]
            if all(x.op == "num" for x in xs):
                return (max if n == "maxCoeff" else min)(xs, key=lambda x: x.args[0])
            return self.fresh(n)
        if n in ("norm", "squaredNorm", "stableNorm"):
            s = add(*[power(tt(x), 2) for x in self.chk(m.a, e).flat]) if m.a.size else ZERO
            return s if n == "squaredNorm" else power(s, Fr(1, 2))
        if n in ("cwiseProduct", "cwiseQuotient"):
            o = vals[0]
            f = (lambda x, y: mul(tt(x), tt(y))) if n == "cwiseProduct" else (lambda x, y: div(tt(x), tt(y)))
            return Mat(emap2(f, self.chk(m.a, e), self.chk(o.a, e)), False)
        if n == "swap":
            o = vals[0]
            m.a, o.a = o.a, m.a
            return None
        if n in ("any", "all"):
            raise Unmodelled("Eigen %s" % n)
        if n in ("lu", "partialPivLu", "fullPivLu", "colPivHouseholderQr", "householderQr", "fullPivHouseholderQr"):
            x = LU()
            x.m = Mat(self.chk(m.a, e).copy(), False)
            x.ok = True
            return x
        if n == "inverse" and R == C:
            x = LU()
            x.m = Mat(self.chk(m.a, e).copy(), False)
            one = np.full((R, R), ZERO, dtype=object)
            for i in range(R):
                one[i, i] = ONE
            return self.solve(x, Mat(one, False), e)
        if n in ("rowwise", "colwise"):
            x = Lib("vectorwise")
            x.data.update(m=m, by=n)
            return x
        raise Unmodelled("Eigen %s" % n)

    # -------------------------------------------------------------- library methods
    def method(self, e, n, q, base, o, a):
        vals = lambda: [x.get() if isinstance(x, Ref) else x for x in a]
        if isinstance(o, J):
            return self.m_json(e, n, base, o, a)
        if isinstance(o, Mat):
            return self.m_mat(e, n, base, o, a)
        if isinstance(o, Vec):
            return self.m_vec(e, n, base, o, a)
        if isinstance(o, (str, SymS)):
            return self.m_str(e, n, base, o, vals())
        if isinstance(o, MapV):
            return self.m_map(e, n, base, o, a)
        if isinstance(o, Opt):
            if n in ("has_value", "operator bool"):
                return o.c is not None
            if n == "value":
                if o.c is None:
                    raise Thrown("std::bad_optional_access", None, self.where(e))
                return o.c
            if n == "value_or":
                return o.c if o.c is not None else cp(vals()[0])
            if n == "reset":
                o.c = None
                return None
            if n == "emplace":
                o.c = Cell(vals()[0])
                return o.c
        if isinstance(o, UP):
            if n == "get":
                return o.p
            if n == "release":
                p, o.p = o.p, None
                return p
            if n == "reset":
                o.p = vals()[0] if a else None
                return None
            if n == "operator bool":
                return o.p is not None
            if n == "swap":
                x = vals()[0]
                o.p, x.p = x.p, o.p
                return None
        if isinstance(o, Tup) and n == "swap":
            x = vals()[0]
            o.l, x.l = x.l, o.l
            return None
        if isinstance(o, Sp):
            v = vals()
            if n in ("rows", "cols"):
                return o.r if n == "rows" else o.c
            if n == "innerSize":
                return o.r
            if n == "outerSize":
                return o.c
            if n == "resize":
                o.r, o.c, o.d, o.gaps = as_int(v[0]), as_int(v[1]), {}, set()
                return None
            if n in ("coeffRef", "coeff", "insert"):
                k = (as_int(v[0]), as_int(v[1]))
                if not (0 <= k[0] < o.r and 0 <= k[1] < o.c):
                    raise UB("access outside a %dx%d sparse matrix: %s at %s" % (o.r, o.c, k, self.where(e)))
                if n == "coeff":
                    return o.d.get(k, ZERO)
                if k not in o.d:
                    # an entry that is not stored yet makes room in its column, beyond what it needs
                    o.gaps.add(k[1])
                    o.d[k] = ZERO
                return SpElem(o, k)
            if n == "nonZeros":
                return len(o.d)
            if n == "setZero":
                o.d, o.gaps = {}, set()
                return None
            if n in ("setFromTriplets",):
                o.d, o.gaps = {}, set()
                for r in self.span(v[0], v[1]):
                    t = r.get()
                    k = (as_int(t.r), as_int(t.c))
                    if not (0 <= k[0] < o.r and 0 <= k[1] < o.c):
                        raise UB("triplet outside a %dx%d sparse matrix: %s at %s" % (o.r, o.c, k, self.where(e)))
                    if len(v) > 2 and k in o.d:
                        r_ = self.apply(v[2], [Cell(o.d[k]), Cell(t.v)])
                        o.d[k] = tt(r_.get() if isinstance(r_, Ref) else r_)
                    else:
                        o.d[k] = add(o.d.get(k, ZERO), tt(t.v))
                return None
            if n in ("transpose", "adjoint"):
                m = Sp(o.c, o.r)
                m.d = {(j, i): x for (i, j), x in o.d.items()}
                return m
            if n == "makeCompressed":
                o.gaps = set()
                return None
            if n in ("uncompress", "data_squeeze"):
                return None
            if n == "reserve":
                o.gaps = set(range(o.c))
                return None
            if n == "isCompressed":
                return not o.gaps
            if n == "valuePtr":
                return SpValues(o)
            if n == "derived":
                return base
            if n == "size":
                return o.r * o.c
        if isinstance(o, LU):
            return self.m_lu(e, n, o, vals())
        if isinstance(o, Triplet):
            if n in ("row", "col", "value"):
                return {"row": o.r, "col": o.c, "value": o.v}[n]
        if isinstance(o, Stream):
            if n == "str":
                if a:
                    o.parts = [vals()[0]]
                    return None
                return cat(o.parts)
            return self.m_stream(e, n, base, o, vals())
        if isinstance(o, It):
            if n in ("key",):
                ks = o.keys
                if ks is None or not 0 <= o.i < len(ks):
                    raise UB("iterator past the end at %s" % self.where(e))
                return ks[o.i]
            if n == "value":
                return self.it_deref(o, e)
            if n == "base":
                return o
        if isinstance(o, Tup) and n in ("key", "value"):
            return o.l[0 if n == "key" else 1]
        if isinstance(o, Thrown):
            if n == "what":
                return o.msg if isinstance(o.msg, (str, SymS)) else SymS("what")
        if isinstance(o, Fn) and n == "operator bool":
            return True
        if isinstance(o, Lib) and "json_pointer" in o.cls and n == "to_string":
            return SymS("pointer")
        if isinstance(o, Lib):
            return self.m_lib(e, n, base, o, a)
        if isinstance(o, T) and o.op == "uninit":
            raise UB("uninitialised value used at %s" % self.where(e))
        if isinstance(o, CharIt):
            raise Unmodelled("text iterator")
        raise Unmodelled("%s on %r at %s" % (q, o, self.where(e)))

    def m_lib(self, e, n, base, o, a):
        if o.cls == "vectorwise":
            m = o.data["m"]
            if n == "sum":
                if o.data["by"] == "rowwise":
                    return Mat(np.array([[add(*[tt(x) for x in m.a[i, :]]) if m.a.shape[1] else ZERO] for i in range(m.a.shape[0])], dtype=object).reshape(m.a.shape[0], 1), False)
                return Mat(np.array([[add(*[tt(x) for x in m.a[:, j]]) if m.a.shape[0] else ZERO for j in range(m.a.shape[1])]], dtype=object).reshape(1, m.a.shape[1]), False)
        if o.cls.startswith("std::filesystem"):
            return SymS("path")
        if o.cls.startswith("std::chrono"):
            return self.fresh("clock") if n == "count" else Lib("std::chrono::value")
        if o.cls.startswith(RANDOM):
            if n in ("param", "generate") and a:
                it = val_of(a[0])
                n_ = 8
                m = re.search(r"seed_seq_fe<(\d+)", o.cls)
                n_ = int(m.group(1)) if m else n_
                for i in range(n_):
                    r = self.it_deref(It(it.c, it.i + i)) if isinstance(it, It) else self.npelem(it.a, it.o + i)
                    r.set(self.fresh("entropy"))
                return None
            if n == "seed":
                o.data["args"] = [val_of(x) for x in a]
                self.events.append(("reseed", o.cls, o, self.where(e)))
                return None
        raise Unmodelled("%s::%s" % (o.cls, n))

    def m_stream(self, e, n, base, o, v):
        if n == "open" and o.kind == "file":
            o.name = v[0]
            self.files.append(o)
            return None
        if n in ("good", "is_open") and o.kind == "file":
            return True
        if n in ("fail", "bad", "operator!") and o.kind == "file":
            return False
        if n in ("flush", "precision", "width", "setf", "exceptions", "close", "clear"):
            return base
        raise Unmodelled("stream %s" % n)

    def m_lu(self, e, n, o, v):
        if n in ("compute", "factorize"):
            o.m = cp(v[0])
            o.m = o.m if isinstance(o.m, Sp) else o.m
            o.ok = None
            self.events.append(("factorize", o, self.where(e)))
            return Cell(o)
        if n == "analyzePattern":
            return None
        if n == "info":
            r = self.lu_info(o, e)
            return r
        if n == "solve":
            self.events.append(("solve", o, self.where(e)))
            return self.solve(o, v[0], e)
        if n in ("transpose", "adjoint"):
            x = LU()
            x.m = Sp(o.m.c, o.m.r)
            x.m.d = {(j, i): t for (i, j), t in o.m.d.items()}
            return x
        raise Unmodelled("solver %s" % n)

    def lu_info(self, o, e):
        return 0

    def m_vec(self, e, n, base, o, a):
        v = [x.get() if isinstance(x, Ref) else x for x in a]
        l = o.l
        if n in ("size",):
            return len(l)
        if n == "empty":
            return not l
        if n in ("push_back", "emplace_back"):
            if n == "emplace_back" and (len(v) != 1 or self.needs_ctor(o, v)):
                l.append(Cell(self.build_elem(o, a, e)))
            else:
                l.append(Cell(cp(v[0]) if mutable(v[0]) and not isinstance(v[0], UP) else v[0] if not isinstance(v[0], UP) else take(v[0])))
            return l[-1]
        if n == "pop_back":
            if not l:
                raise UB("pop_back() of an empty list at %s" % self.where(e))
            l.pop()
            return None
        if n in ("front", "back"):
            if not l:
                raise UB("%s() of an empty list at %s" % (n, self.where(e)))
            return l[0 if n == "front" else -1]
        if n in ("begin", "cbegin"):
            return It(o, 0)
        if n in ("end", "cend"):
            return It(o, len(l))
        if n == "rbegin":
            return It(Vec(l[::-1]), 0)
        if n == "rend":
            return It(Vec(l[::-1]), len(l))
        if n == "at":
            if not 0 <= as_int(v[0]) < len(l):
                raise Thrown("std::out_of_range", None, self.where(e))
            return l[as_int(v[0])]
        if n == "clear":
            o.l = []
            return None
        if n in ("reserve", "shrink_to_fit"):
            return None
        if n == "resize":
            k = as_int(v[0])
            inner = targs(base_t(o.t))[0] if "<" in (o.t or "") else ""
            while len(l) < k:
                l.append(Cell(cp(v[1]) if len(v) > 1 else self.vinit(inner)))
            del l[k:]
            return None
        if n == "assign" and len(v) == 2 and isinstance(v[0], It):
            o.l = [Cell(cp(r.get())) for r in self.span(v[0], v[1])]
            return None
        if n == "insert":
            it = v[0]
            if isinstance(v[1], It):
                l[it.i:it.i] = [Cell(cp(r.get())) for r in self.span(v[1], v[2])]
            else:
                l.insert(it.i, Cell(cp(v[1]) if not isinstance(v[1], UP) else take(v[1])))
            return It(o, it.i)
        if n == "erase":
            it = v[0]
            to = v[1].i if len(v) > 1 else it.i + 1
            if not (0 <= it.i <= to <= len(l)):
                raise UB("erase outside a list at %s" % self.where(e))
            del l[it.i:to]
            return It(o, it.i)
        if n == "data":
            arr = np.empty((len(l),), dtype=object)
            for i, c in enumerate(l):
                arr[i] = c.get()
            return PArr(VecArr(l), 0)
        if n == "swap":
            o.l, v[0].l = v[0].l, o.l
            return None
        if n == "fill":
            for c in l:
                c.set(cp(v[0]))
            return None
        raise Unmodelled("list %s" % n)

    def vinit(self, t):
        """value-initialised"""
        b = base_t(t)
        if is_float(b):
            return ZERO
        if b == "bool":
            return False
        if is_scalar_t(b):
            return 0
        if t.endswith("*"):
            return None
        return self.default(t)

    def needs_ctor(self, o, v):
        inner = targs(base_t(o.t))[0] if "<" in (o.t or "") else ""
        return base_t(inner) in self.P.records and not isinstance(v[0], Obj) or inner.startswith(("std::pair", "std::tuple", "Eigen::Triplet"))

    def as_type(self, v, t):
        """the value of a new object of type t made from v"""
        b = base_t(t)
        if isinstance(v, UP):
            return take(v)
        if b in self.P.records and not isinstance(v, Obj) and not t.rstrip().endswith("*"):
            return self.construct(b, [v], key=self.pick_ctor(b, [v], None))
        if is_float(b) and isinstance(v, int) and not isinstance(v, bool):
            return num(v)
        return cp(v)

    def build_elem(self, o, a, e):
        inner = base_t(targs(base_t(o.t))[0])
        v = [x.get() if isinstance(x, Ref) else x for x in a]
        if inner.startswith("Eigen::Triplet"):
            return Triplet(*v)
        if inner.startswith(("std::pair", "std::tuple")):
            return Tup([Cell(cp(x)) for x in v])
        if inner in self.P.records:
            return self.construct(inner, a)
        if not v:
            return self.default(inner)
        raise Unmodelled("emplace_back of %s" % inner)

    def m_str(self, e, n, base, s, v):
        if n == "c_str" or n == "data" or n == "string" or n == "generic_string" or n == "native":
            return s
        if n in ("filename", "parent_path", "extension", "stem", "is_absolute", "is_relative") and isinstance(s, str):
            d, _, b = s.rpartition("/")
            if n in ("filename", "parent_path"):
                return b if n == "filename" else d
            if n.startswith("is_"):
                return s.startswith("/") == (n == "is_absolute")
            i = b.rfind(".")
            i = len(b) if i <= 0 else i
            return b[i:] if n == "extension" else b[:i]
        if isinstance(s, SymS) and n in ("size", "length", "empty", "find", "substr", "back", "front", "compare"):
            raise Unmodelled("text operation %s" % n)
        if n in ("size", "length"):
            return len(s)
        if n == "empty":
            return s == ""
        if n == "substr":
            i = as_int(v[0])
            if i > len(s):
                raise Thrown("std::out_of_range", None, self.where(e))
            return s[i:] if len(v) < 2 or as_int(v[1]) >= (1 << 62) or as_int(v[1]) < 0 else s[i:i + as_int(v[1])]
        if n in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of"):
            x = v[0] if isinstance(v[0], str) else chr(as_int(v[0]))
            p = as_int(v[1]) if len(v) > 1 and as_int(v[1]) < (1 << 62) else (0 if n in ("find", "find_first_of", "find_first_not_of") else None)
            if n == "find":
                r = s.find(x, p)
            elif n == "rfind":
                r = s.rfind(x) if p is None or p < 0 else s.rfind(x, 0, p + len(x))
            elif n == "find_first_of":
                r = next((i for i in range(p, len(s)) if s[i] in x), -1)
            elif n == "find_last_of":
                r = next((i for i in range(len(s) - 1, -1, -1) if s[i] in x), -1)
            else:
                r = next((i for i in range(p, len(s)) if s[i] not in x), -1)
            return r if r >= 0 else (1 << 64) - 1
        if n == "compare":
            if len(v) == 1:
                return (s > v[0]) - (s < v[0])
            if len(v) == 3:
                t = s[as_int(v[0]):as_int(v[0]) + as_int(v[1])]
                return (t > v[2]) - (t < v[2])
        if n in ("back", "front"):
            if not s:
                raise UB("%s() of empty text at %s" % (n, self.where(e)))
            return CharElem(base, len(s) - 1 if n == "back" else 0)
        if n == "at":
            i = as_int(v[0])
            if i >= len(s):
                raise Thrown("std::out_of_range", None, self.where(e))
            return CharElem(base, i)
        if n in ("begin", "cbegin"):
            return It(s, 0)
        if n in ("end", "cend"):
            return It(s, len(s))
        if n in ("append", "operator+="):
            base.set(self.strop("+", s, v[0] if isinstance(v[0], (str, SymS)) else chr(as_int(v[0]))))
            return base
        if n == "push_back":
            base.set(s + chr(as_int(v[0])))
            return None
        if n == "pop_back":
            base.set(s[:-1])
            return None
        if n == "clear":
            base.set("")
            return None
        if n == "erase":
            if isinstance(v[0], It):
                raise Unmodelled("erase by iterator")
            i = as_int(v[0]) if v else 0
            k = as_int(v[1]) if len(v) > 1 else len(s)
            base.set(s[:i] + s[i + min(k, len(s)):])
            return base
        if n == "insert":
            base.set(s[:as_int(v[0])] + v[1] + s[as_int(v[0]):])
            return base
        if n in ("starts_with", "ends_with"):
            return s.startswith(v[0]) if n == "starts_with" else s.endswith(v[0])
        if n in ("reserve",):
            return None
        raise Unmodelled("text %s" % n)

    def m_map(self, e, n, base, o, a):
        v = [x.get() if isinstance(x, Ref) else x for x in a]
        d = o.d
        if n == "size":
            return len(d)
        if n == "empty":
            return not d
        if n in ("begin", "cbegin"):
            return It(o, 0, o.keys())
        if n in ("end", "cend"):
            return It(o, len(d), o.keys())
        if n in ("find", "count", "contains", "at") and v and isinstance(v[0], str):
            self.compared += [(v[0], k) for k in d if isinstance(k, str)]
        if n in ("find", "lower_bound"):
            ks = o.keys()
            if n == "find":
                return It(o, ks.index(v[0]) if v[0] in d else len(ks), ks)
            return It(o, next((i for i, k in enumerate(ks) if k >= v[0]), len(ks)), ks)
        if n in ("count", "contains"):
            return int(v[0] in d) if n == "count" else v[0] in d
        if n == "at":
            if v[0] not in d:
                raise Thrown("std::out_of_range", None, self.where(e))
            return d[v[0]]
        if n in ("insert", "emplace", "insert_or_assign", "try_emplace"):
            if isinstance(o, SetV):
                new = v[0] not in d
                d.setdefault(v[0], Cell(True))
                return Tup([Cell(It(o, o.keys().index(v[0]), o.keys())), Cell(new)])
            if n == "insert" and len(v) == 2 and isinstance(v[0], It):
                for r in self.span(v[0], v[1]):
                    t = r.get()
                    d.setdefault(t.l[0].get(), Cell(cp(t.l[1].get())))
                return None
            if n == "insert" and isinstance(v[0], Vec):
                for c in v[0].l:
                    t = c.get()
                    d.setdefault(t.l[0].get(), Cell(cp(t.l[1].get())))
                return None
            if n == "insert":
                k, x = v[0].l[0].get(), v[0].l[1].get()
            else:
                k, x = v[0], (v[1] if len(v) > 1 else None)
            new = k not in d
            if new:
                d[k] = Cell(take(x) if isinstance(x, UP) else cp(x))
            elif n == "insert_or_assign":
                self.assign(d[k], x)
            return Tup([Cell(It(o, o.keys().index(k), o.keys())), Cell(new)])
        if n == "erase":
            if isinstance(v[0], It):
                d.pop(v[0].keys[v[0].i], None)
                return It(o, v[0].i, o.keys())
            return int(d.pop(v[0], None) is not None)
        if n == "clear":
            d.clear()
            return None
        raise Unmodelled("map %s" % n)

    # -------------------------------------------------------------- operators of library types
    def as_char(self, x, e):
        """characters are kept as numbers; here they become text"""
        t = base_t((e["a"][-1] if e and e.get("a") else {}).get("t") or "")
        return chr(x) if t in ("char", "const char") and isinstance(x, int) and not isinstance(x, bool) and 0 < x < 256 else x

    def operator(self, e, op, base, o, a):
        v = [x.get() if isinstance(x, Ref) else x for x in a]
        x = v[0] if v else None
        q = e.get("q", "")
        if isinstance(o, Ptr) and op in ("->", "*") and not v:
            return o
        if op == "()":
            if isinstance(o, Mat):
                return self.elem(o, v[0], v[1] if len(v) > 1 else None, e)
            return self.apply(o, a, e.get("fn"))
        if op == "[]":
            if isinstance(o, J):
                return self.json_index(o, x, bool(e.get("mc")), e)
            if isinstance(o, Vec):
                return self.vecelem(o, x, e)
            if isinstance(o, Mat):
                return self.elem(o, x, None, e)
            if isinstance(o, MapV):
                if x not in o.d:
                    t = e.get("t", "")
                    o.d[x] = Cell(self.vinit(t))
                return o.d[x]
            if isinstance(o, str):
                i = as_int(x)
                if i == len(o):
                    return 0
                if not 0 <= i < len(o):
                    raise UB("text index %d of %d at %s" % (i, len(o), self.where(e)))
                return CharElem(base, i)
            if isinstance(o, It):
                return self.it_deref(It(o.c, o.i + as_int(x), o.keys), e)
            if isinstance(o, UP):
                return self.deref(self.ptrop("+", o.p, x), e)
        if op in ("->", "*") and not v:
            if isinstance(o, UP):
                if op == "->":
                    if o.p is None:
                        raise UB("null unique_ptr dereferenced at %s" % self.where(e))
                    return o.p
                return self.deref(o.p, e)
            if isinstance(o, It):
                r = self.it_deref(o, e)
                return Ptr(r) if op == "->" else r
            if isinstance(o, Opt):
                if o.c is None:
                    raise UB("empty optional dereferenced at %s" % self.where(e))
                return Ptr(o.c) if op == "->" else o.c
            if isinstance(o, Tup) and op == "->":
                return Ptr(Cell(o))
            if isinstance(o, Lib):
                return base
        if op in ("++", "--"):
            if isinstance(o, (It, PArr)):
                nv = self.step(o, 1 if op == "++" else -1)
                base.set(nv)
                return o if v else base
        if op == "<<":
            if isinstance(o, Stream):
                o.parts.append(self.as_char(x, e))
                return base
            if isinstance(o, Mat):
                c = Comma(o)
                self.comma(c, x, e)
                return c
        if op == "," and isinstance(o, Comma):
            self.comma(o, x, e)
            return o
        if op == "!" and not v:
            c = truthy(o)
            return (not c) if isinstance(c, bool) else bnot(c)
        if isinstance(o, J) or isinstance(x, J):
            if op in ("==", "!="):
                c = self.json_eq(o, x)
                return c if op == "==" else (not c if isinstance(c, bool) else bnot(c))
            if op == "+=" and isinstance(o, J):
                return self.m_json(e, "push_back", base, o, a)
            if op in ("<", ">", "<=", ">="):
                p = o.v if isinstance(o, J) else o
                r = x.v if isinstance(x, J) else x
                return self.binop(op, p, r, e)
        if op in ("+=", "-=", "*=", "/="):
            if isinstance(o, (str, SymS)):
                base.set(self.strop("+", o, x if isinstance(x, (str, SymS)) else chr(as_int(x))))
                return base
            if isinstance(o, Mat):
                if op in ("+=", "-=") and isinstance(x, Mat) and 1 in x.a.shape and x.a.shape != o.a.shape and x.a.shape == o.a.shape[::-1]:
                    # Eigen transposes a vector that is assigned to one of the other orientation
                    x = Mat(x.a.T, False)
                r = self.matop(op[0], Mat(np.array(o.a, dtype=object), False), x, e)
                self.mat_assign(o, r)
                return base
            if isinstance(o, Sp):
                r = self.spop(op[0], o, x, e)
                o.d = r.d
                return base
            if isinstance(o, (It, PArr)):
                base.set(self.ptrop(op[0], o, x, e))
                return base
        if op == "-" and not v:
            if isinstance(o, Mat):
                return Mat(emap(lambda y: neg(tt(y)), self.chk(o.a, e)), False)
            if isinstance(o, Sp):
                m = Sp(o.r, o.c)
                m.d = {k: neg(tt(y)) for k, y in o.d.items()}
                return m
        if op in ("+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">="):
            if isinstance(o, (str, SymS)) and isinstance(x, int) and op == "+":
                return self.strop("+", o, chr(x))
            if isinstance(x, (str, SymS)) and isinstance(o, int) and op == "+":
                return self.strop("+", chr(o), x)
            if isinstance(o, Vec) and isinstance(x, Vec) and op in ("==", "!="):
                c = len(o.l) == len(x.l)
                if c:
                    for p, r in zip(o.l, x.l):
                        d = self.generic_eq(p.get(), r.get(), e)
                        if not self.decide(d):
                            c = False
                            break
                return c if op == "==" else not c
            if isinstance(o, Tup) and isinstance(x, Tup):
                if op in ("==", "!="):
                    c = all(self.decide(truthy(self.generic_eq(p.get(), r.get(), e))) for p, r in zip(o.l, x.l))
                    return c if op == "==" else not c
                if op == "<":
                    for p, r in zip(o.l, x.l):
                        if self.decide(self.binop("<", p.get(), r.get(), e)):
                            return True
                        if self.decide(self.binop("<", r.get(), p.get(), e)):
                            return False
                    return False
            if isinstance(o, Opt) or isinstance(x, Opt):
                p, r = (o.c.get() if isinstance(o, Opt) and o.c else None if isinstance(o, Opt) else o), (x.c.get() if isinstance(x, Opt) and x.c else None if isinstance(x, (Opt, Lib)) else x)
                if op in ("==", "!="):
                    c = p is None and r is None or p is not None and r is not None and self.generic_eq(p, r, e)
                    return c if op == "==" else (not c if isinstance(c, bool) else bnot(c))
            if op == "/" and isinstance(o, str) and isinstance(x, str):
                return x if x.startswith("/") else o + x if o.endswith("/") or not o else o + "/" + x
            if op == "/" and isinstance(o, (str, SymS)):
                return SymS("%s/%s" % (o if isinstance(o, str) else o.n, x if isinstance(x, str) else getattr(x, "n", "?")))
            return self.binop(op, o, x, e)
        if op == "|" and isinstance(o, int):
            return o | as_int(x)
        if op in ("|", "&") and isinstance(o, Lib) and isinstance(x, Lib) and o.cls.startswith("std::"):
            return o
        raise Unmodelled("operator%s of %s on %r at %s" % (op, q, o, self.where(e)))

    def generic_eq(self, p, r, e=None):
        if isinstance(p, J) or isinstance(r, J):
            return self.json_eq(p, r)
        if isinstance(p, Mat):
            return self.matop("==", p, r, e)
        if isinstance(p, (Vec, Tup)):
            return self.operator(e or {}, "==", Cell(p), p, [r])
        return self.binop("==", p, r, e)

    def comma(self, c, x, e):
        m = c.m
        items = list(x.a.flat) if isinstance(x, Mat) else [x]
        for it in items:
            if c.i >= m.a.size:
                raise UB("too many coefficients passed to a comma initializer at %s" % self.where(e))
            R, C = m.a.shape
            m.a[c.i // C, c.i % C] = it
            c.i += 1

    # -------------------------------------------------------------- library constructors
    def extctor(self, e, cls):
        a = e.get("a") or []
        t = e.get("t", "") or cls
        k = eig(cls) or eig(t)
        if (cls.startswith("Eigen::") and k) and not cls.startswith(("Eigen::SparseLU", "Eigen::internal", "Eigen::Triplet")):
            return self.eig_ctor(e, cls, k, a)
        if cls.startswith("Eigen::SparseMatrix"):
            v = [self.V(x) for x in a]
            if not v:
                return Sp()
            if len(v) == 1 and isinstance(v[0], Sp):
                return cp(v[0])
            if len(v) == 2:
                return Sp(as_int(v[0]), as_int(v[1]))
        if cls.startswith("Eigen::SparseLU"):
            if not a:
                return LU()
        if cls.startswith("Eigen::Triplet"):
            v = [self.V(x) for x in a]
            if len(v) == 3:
                return Triplet(v[0], v[1], v[2])
            if len(v) == 1:
                return cp(v[0])
        if cls.startswith("Eigen::Stride") or cls.startswith(("std::allocator", "std::less", "std::nullopt_t", "std::in_place")):
            return Lib(cls)
        if cls.startswith("nlohmann::json_schema"):
            return Lib(cls)
        if cls.startswith(("nlohmann::basic_json", "nlohmann::json")):
            return self.json_ctor(e, a)
        if "json_ref<" in cls:
            if not a:
                return J(None)
            x = a[0]
            if x.get("k") in ("init", "stdinit") or isinstance(x, dict) and x.get("t", "").startswith("std::initializer_list"):
                v = self.V(x)
                return self.json_init(v) if isinstance(v, Vec) else v
            v = self.V(x)
            if isinstance(v, Vec) and "initializer_list" in (v.t or ""):
                return self.json_init(v)
            return cp(self.json_of(v))
        if cls.startswith("std::initializer_list"):
            return Vec([], cls)
        if cls.startswith(("std::basic_string<", "std::basic_string_view<", "std::string")):
            if not a:
                return ""
            v = self.V(a[0])
            if isinstance(v, (str, SymS)):
                return v
            if isinstance(v, It):
                w = self.V(a[1])
                return "".join(chr(as_int(r.get())) for r in self.span(v, w))
            if isinstance(v, int) and len(a) > 1:
                return chr(as_int(self.V(a[1]))) * v
            if isinstance(v, J):
                return self.json_get(v, "std::string")
            raise Unmodelled("text from %r" % (v,))
        if cls.startswith("std::filesystem::path"):
            if not a:
                return ""
            v = self.V(a[0])
            return v if isinstance(v, (str, SymS)) else SymS("path")
        if cls.startswith("std::chrono"):
            return Lib("std::chrono::value")
        if cls.startswith(STDV):
            return self.vec_ctor(e, cls, a)
        if cls.startswith(("std::map", "std::set", "std::unordered_map", "std::unordered_set")):
            mk_ = SetV if "set<" in cls.split("<")[0] + "<" else MapV
            if not a:
                return mk_()
            v = self.V(a[0])
            if isinstance(v, MapV):
                return cp(v)
            if isinstance(v, Vec):
                m = mk_()
                for c in v.l:
                    x = c.get()
                    if isinstance(m, SetV):
                        m.d.setdefault(x, Cell(True))
                    else:
                        m.d.setdefault(x.l[0].get(), Cell(cp(x.l[1].get())))
                return m
            if isinstance(v, It):
                m = mk_()
                for r in self.span(v, self.V(a[1])):
                    x = r.get()
                    if isinstance(m, SetV):
                        m.d.setdefault(x, Cell(True))
                    else:
                        m.d.setdefault(x.l[0].get(), Cell(cp(x.l[1].get())))
                return m
        if cls.startswith(("std::unique_ptr", "std::shared_ptr", "Ipopt::SmartPtr")):
            if not a:
                return UP(None)
            v = self.V(a[0])
            if isinstance(v, UP):
                return take(v) if not cls.startswith(("std::shared_ptr", "Ipopt")) else UP(v.p)
            return UP(v)
        if cls.startswith("std::optional"):
            if not a:
                return Opt(None)
            v = self.V(a[0])
            if isinstance(v, Opt):
                return cp(v)
            if v is None or isinstance(v, Lib) and "nullopt" in v.cls:
                return Opt(None)
            return Opt(Cell(cp(v)))
        if cls.startswith(("std::pair<", "std::tuple<")):
            ts = targs(cls)
            if not a:
                return Tup([Cell(self.vinit(x)) for x in ts])
            rs = [self.E(x) for x in a]
            vs = [r.get() if isinstance(r, Ref) else r for r in rs]
            if len(a) == 1 and isinstance(vs[0], Tup) and len(ts) == len(vs[0].l):
                return Tup([Cell(self.as_type(c.get(), ts[i])) if not ts[i].endswith("&") else c for i, c in enumerate(vs[0].l)])
            out = []
            for i, (r, v) in enumerate(zip(rs, vs)):
                if i < len(ts) and ts[i].endswith("&"):
                    out.append(r if isinstance(r, Ref) else Cell(v))
                else:
                    out.append(Cell(self.as_type(v, ts[i]) if i < len(ts) else take(v) if isinstance(v, UP) else cp(v)))
            return Tup(out)
        if cls.startswith("std::function"):
            if not a:
                return None
            v = self.V(a[0])
            return v
        if cls.startswith(("std::basic_ofstream", "std::basic_fstream", "std::ofstream")):
            s = Stream("file")
            if a:
                s.name = self.V(a[0])
                self.files.append(s)
            return s
        if cls.startswith(("std::basic_ostringstream", "std::basic_stringstream")):
            s = Stream("str")
            if a:
                s.parts = [self.V(a[0])]
            return s
        if "iterator" in cls and len(a) == 1:
            v = self.V(a[0])
            if isinstance(v, (It, PArr)):
                return v
        if excls(cls) in STD_EXC or self.isa(cls, "std::exception"):
            x = Lib(cls)
            if a:
                m = self.V(a[0])
                x.data["msg"] = m if isinstance(m, (str, SymS)) else m.msg if isinstance(m, Thrown) else None
            if len(a) == 1 and (e.get("copy") or e.get("move")):
                return self.V(a[0])
            return x
        if e.get("copy") or e.get("move"):
            return cp(self.V(a[0]))
        if cls.startswith("std::reference_wrapper"):
            return self.E(a[0])
        if cls.startswith(RANDOM):
            vs = [self.V(x) for x in a]
            o = Lib(cls)
            if len(vs) == 2 and all(isinstance(x, (It, PArr)) for x in vs):
                o.data["seed"] = [r.get() for r in self.span(vs[0], vs[1])]
            else:
                o.data["args"] = vs
            self.events.append(("random", cls, o, self.where(e)))
            return o
        if not a:
            return Lib(cls)
        raise Unmodelled("constructor of %s at %s" % (cls, self.where(e)))

    def json_ctor(self, e, a):
        if not a:
            return J(None)
        x = a[0]
        r = self.E(x)
        v = r.get() if isinstance(r, Ref) else r
        if isinstance(v, J):
            if isinstance(r, Ref):
                n = cp(v)
                return n
            return v
        if isinstance(v, Vec) and "initializer_list" in (x.get("t", "") or "") + (v.t or ""):
            return self.json_init(v)
        if isinstance(v, Lib) and "nullopt" in v.cls:
            return J(None)
        if isinstance(v, int) and x.get("k") == "enum" or isinstance(v, int) and "value_t" in x.get("t", ""):
            return J({0: None, 1: {}, 2: [], 3: "", 4: False, 5: 0, 6: 0, 7: ZERO}[v])
        return cp(self.json_of(v))

    def vec_ctor(self, e, cls, a):
        inner = targs(cls)[0]
        if not a:
            return self.default(cls)
        rs = [self.E(x) for x in a]
        v = [r.get() if isinstance(r, Ref) else r for r in rs]
        v = [x for x in v if not (isinstance(x, Lib) and x.cls.startswith("std::allocator"))]
        if len(v) == 1 and isinstance(v[0], Vec):
            if e.get("move"):
                n = Vec(v[0].l, cls)
                v[0].l = []
                return n
            if not isinstance(rs[0], Ref):
                return Vec(v[0].l, cls)
            n = cp(v[0])
            n.t = cls
            return n
        if len(v) == 2 and isinstance(v[0], (It, PArr)):
            return Vec([Cell(cp(r.get())) for r in self.span(v[0], v[1])], cls)
        if len(v) in (1, 2) and isinstance(v[0], int):
            return Vec([Cell(cp(v[1]) if len(v) > 1 else self.vinit(inner)) for _ in range(v[0])], cls)
        raise Unmodelled("list constructor %s" % e.get("pr"))

    def eig_ctor(self, e, cls, k, a):
        head, sc, R, C, row = k
        rs = [self.E(x) for x in a]
        v = [r.get() if isinstance(r, Ref) else r for r in rs]
        v = [x for x in v if not (isinstance(x, Lib) and x.cls.startswith("Eigen::Stride"))]
        if head in ("Ref", "Block"):
            if len(v) >= 1 and isinstance(v[0], Mat):
                m = v[0]
                if head == "Ref" and C == 1 and m.a.shape[1] != 1 and m.a.shape[0] == 1:
                    return Mat(m.a.T, False)
                return Mat(m.a, False, m.row)
        if head == "Map":
            n = [as_int(x) for x in v[1:] if isinstance(x, (int, T))]
            r, c = (n[0], n[1]) if len(n) > 1 else (n[0], 1) if n else (R, C)
            p = v[0]
            if p is None:
                if r * c == 0:
                    return Mat(np.empty((r, c), dtype=object), False, row)
                raise UB("Map of a null pointer at %s" % self.where(e))
            if not isinstance(p, PArr):
                if isinstance(p, T) and p.op == "uninit" and r * c == 0:
                    return Mat(np.empty((r, c), dtype=object), False, row)
                raise Unmodelled("Map of %r" % (p,))
            if r < 0 or c < 0 or p.o + r * c > p.a.shape[0]:
                raise UB("Map of %dx%d entries at offset %d of a storage of %d at %s" % (r, c, p.o, p.a.shape[0], self.where(e)))
            if isinstance(p.a, VecArr):
                return Mat(p.a.matrix(p.o, r, c, row), False, row)
            return Mat(p.a[p.o:p.o + r * c].reshape((r, c), order="C" if row else "F"), False, row)
        # owning
        if not v:
            return self.default(cls)
        if len(v) == 1 and isinstance(v[0], Mat):
            m = v[0].a
            if m.shape != (R, C) and C == 1 and m.shape[1] != 1 and m.shape[0] == 1:
                m = m.T
            if m.shape != (R, C) and R == 1 and m.shape[0] != 1 and m.shape[1] == 1:
                m = m.T
            if R > 0 and m.shape[0] != R or C > 0 and m.shape[1] != C:
                raise UB("%s matrix from a %s expression at %s" % ((R, C), m.shape, self.where(e)))
            return Mat(np.array(m, dtype=object, order="C" if row else "F"), True, row)
        if len(v) == 1 and isinstance(v[0], Sp):
            return Mat(np.array(self.dense_of(v[0]).a, dtype=object, order="C" if row else "F"), True, row)
        if len(v) == 1 and R * C == 1:
            return Mat(np.array([[v[0]]], dtype=object), True, row)
        if len(v) == 1 and (R == -1 or C == -1):
            if isinstance(v[0], Vec):
                return Mat(np.array([[tt(c.get())] for c in v[0].l], dtype=object).reshape(-1, 1), True, row)
            n = as_int(v[0])
            if n < 0:
                raise UB("matrix of negative size at %s" % self.where(e))
            return Mat(np.full((n, 1) if C == 1 else (1, n), None, dtype=object, order="F"), True, row)
        if len(v) == 2 and R != -1 and C != -1 and R * C == 2:
            return Mat(np.array([tt(x) for x in v], dtype=object).reshape(R, C), True, row)
        if len(v) == 2:
            return Mat(np.full((as_int(v[0]), as_int(v[1])), None, dtype=object, order="C" if row else "F"), True, row)
        if R * C == len(v):
            return Mat(np.array([tt(x) for x in v], dtype=object).reshape(R, C), True, row)
        raise Unmodelled("Eigen constructor %s(%s)" % (cls, e.get("pr")))

    # -------------------------------------------------------------- library functions
    def extcall(self, e, n, q, a):
        v = [x.get() if isinstance(x, Ref) else x for x in a]
        for h in self.exthooks:
            r = h(self, n, q, v, e)
            if r is not NotImplemented:
                return r
        if q.startswith("std::chrono"):
            return Lib("std::chrono::value")
        if q in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::addressof", "std::launder"):
            return a[0] if q != "std::addressof" else Ptr(a[0])
        if n == "get" and q.startswith("std::get"):
            i = re.search(r"^\d+", (e.get("ta") or [""])[0])
            if i and isinstance(v[0], Tup):
                return v[0].l[int(i.group(0))]
            if i and isinstance(v[0], Vec):
                return v[0].l[int(i.group(0))]
            raise Unmodelled("std::get")
        if n in ("make_unique", "make_shared"):
            ta = e.get("ta") or []
            cls = ta[0] if ta else targs(e.get("t", ""))[0]
            cls = base_t(cls)
            full = base_t(targs(base_t(e.get("rt") or e.get("t", "")))[0])
            for c in (full, cls):
                if c in self.P.records:
                    if len(a) == 1 and isinstance(v[0], Obj) and v[0].cls == c:
                        o = cp(v[0])
                    else:
                        key = self.pick_ctor(c, a, e)
                        o = self.construct(c, a, key)
                    return UP(Ptr(Cell(o)))
            if full.startswith(("std::basic_string", "std::string")):
                return UP(Ptr(Cell(v[0] if v else "")))
            x = self.extctor({"k": "ctor", "t": full, "rc": full, "a": [{"k": "lit", "r": y} for y in a]}, full)
            return UP(Ptr(Cell(x)))
        if n in ("make_pair", "make_tuple"):
            return Tup([Cell(take(x) if isinstance(x, UP) else cp(x)) for x in v])
        if n == "tie":
            return Tup([x if isinstance(x, Ref) else Cell(x) for x in a])
        if q == "nlohmann::operator\"\"_json" or n == 'operator""_json':
            try:
                return to_j(parse_json(v[0]))
            except ValueError as x:
                raise Thrown("nlohmann::parse_error", str(x), self.where(e))
        if q.startswith("nlohmann::") and n in ("array", "object"):
            if v and isinstance(v[0], Vec):
                if n == "array":
                    return J([cp(self.json_of(c.get())) for c in v[0].l])
                return self.json_init(v[0])
            return J([] if n == "array" else {})
        if q.startswith("nlohmann::") and n == "parse":
            if isinstance(v[0], str):
                return to_j(parse_json(v[0]))
        if q.startswith("std::numeric_limits"):
            t = e.get("rt") or e.get("t", "")
            if n in ("max", "min", "lowest") and is_scalar_t(base_t(t)) and not is_float(base_t(t)):
                big = (1 << 31) - 1 if base_t(t) == "int" else (1 << 63) - 1 if base_t(t) == "long" else (1 << 64) - 1
                return big if n == "max" else -big - 1 if "unsigned" not in t else 0
            if n == "max":
                return num(Fr(2) ** 1024 - Fr(2) ** 970)
            if n == "lowest":
                return num(-(Fr(2) ** 1024 - Fr(2) ** 970))
            if n in ("quiet_NaN", "signaling_NaN"):
                return mk("sym", "NaN")
            if n == "infinity":
                return mk("sym", "infinity")
            if n == "epsilon":
                return num(Fr(2) ** -52)
        if n == "to_string":
            x = v[0]
            return str(x) if isinstance(x, int) and not isinstance(x, bool) else SymS("number")
        if n in ("find", "find_if", "find_if_not", "any_of", "all_of", "none_of", "count_if", "count", "for_each", "is_sorted", "adjacent_find", "sort", "stable_sort", "copy", "transform",
                 "remove_if", "remove", "lower_bound", "upper_bound", "binary_search", "accumulate", "equal", "max_element", "min_element", "reverse", "fill", "mismatch", "unique", "iota", "distance", "next",
                 "prev", "advance", "begin", "end", "cbegin", "cend", "min", "max", "swap", "exchange", "copy_if", "inner_product", "partial_sum", "size", "generate", "empty", "back_inserter", "clamp", "copy_n", "move_backward", "fill_n", "rotate", "set_difference", "includes", "abs"):
            r = self.algorithm(e, n, q, a, v)
            if r is not NotImplemented:
                return r
        if n in ("sqrt", "sin", "cos", "exp", "log", "log10", "pow", "abs", "fabs", "ceil", "floor", "tan", "tanh", "round", "isnan", "isfinite", "isinf", "atan", "asin", "acos", "trunc", "cbrt", "copysign", "fmod"):
            return self.mathcall(n, v)
        if n in ("Zero", "Ones", "Constant", "Random", "LinSpaced", "Identity", "Unit"):
            k = eig(e.get("rt") or e.get("t", "")) or eig(q) or eig(e.get("rc", ""))
            i = [as_int(x) for x in (v if n in ("Zero", "Ones", "Identity") else v[:-1])]
            if n not in ("Zero", "Ones", "Constant", "Identity"):
                raise Unmodelled("Eigen %s" % n)
            if not i:
                sh = (k[2], k[3])
            elif len(i) == 1:
                sh = (i[0], 1) if k is None or k[3] == 1 else (1, i[0])
            else:
                sh = (i[0], i[1])
            if min(sh) < 0:
                raise UB("matrix of negative size %s at %s" % (sh, self.where(e)))
            m = np.full(sh, ZERO if n in ("Zero", "Identity") else ONE if n == "Ones" else v[-1], dtype=object)
            if k and k[1] in ("int", "long", "unsigned long", "unsigned int") and n in ("Zero", "Ones"):
                m[:, :] = 0 if n == "Zero" else 1
            if n == "Identity":
                for x in range(min(sh)):
                    m[x, x] = ONE
            return Mat(m, False)
        if n in ("stod", "stoi", "stol", "stof"):
            if isinstance(v[0], str):
                m = re.match(r"\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)" if n in ("stod", "stof") else r"\s*[-+]?\d+", v[0])
                if not m:
                    raise Thrown("std::invalid_argument", n, self.where(e))
                if len(v) > 1 and v[1] is not None:
                    if not isinstance(v[1], Ptr):
                        raise Unmodelled("position handed to %s" % n)
                    v[1].r.set(len(m.group(0)))
                return num(Fr(m.group(0).strip())) if n in ("stod", "stof") else int(m.group(0))
            raise Unmodelled(n)
        if q == "std::endl" or n == "endl":
            return a[0]
        if n in ("terminate", "abort", "exit", "_Exit", "quick_exit", "__builtin_unreachable"):
            raise Thrown("!" + n, None, self.where(e))
        if n == "forward_as_tuple":
            return Tup([x if isinstance(x, Ref) else Cell(x) for x in a])
        raise Unmodelled("%s at %s" % (q, self.where(e)))

    def e_lit(self, e):
        return e["r"]

    def pick_ctor(self, c, a, e):
        """constructor of class c that make_unique forwards to, by number and kind of arguments"""
        v = [x.get() if isinstance(x, Ref) else x for x in a]
        cand = []
        for m in self.P.records[c]["methods"]:
            if not m.get("ctor") or m["deleted"]:
                continue
            if len(m["p"]) == 1 and base_t(m["p"][0]["t"]) == c:
                continue
            if len(m["p"]) < len(v) or any(p.get("def") is None for p in m["p"][len(v):]):
                continue
            if all(self.fits(x, p["t"]) for x, p in zip(v, m["p"])):
                cand.append(m["key"])
        if len(cand) == 1:
            return cand[0]
        if not cand and not v:
            return None
        raise Unmodelled("constructor of %s for make_unique (%d candidates)" % (c, len(cand)))

    def fits(self, x, t):
        b = base_t(t)
        if isinstance(x, J):
            return b.startswith("nlohmann::") or not (b in self.P.records or b.startswith(("Eigen", "std::unique_ptr")))
        if isinstance(x, Obj):
            return self.H.isa(x.cls, b) if b in self.P.records else False
        if isinstance(x, (str, SymS)):
            return "basic_string" in b or "string" in b
        if isinstance(x, Mat):
            return b.startswith("Eigen::")
        if isinstance(x, Vec):
            return b.startswith(STDV) or b.startswith("nlohmann")
        if isinstance(x, UP):
            return b.startswith(("std::unique_ptr", "std::shared_ptr"))
        if isinstance(x, bool):
            return is_scalar_t(b)
        if isinstance(x, (int, T)):
            return is_scalar_t(b) or b.startswith("enum ") or not b.startswith(("std::", "Eigen::", "nlohmann")) and b not in self.P.records
        if isinstance(x, Fn):
            return "function" in b or "(" in b
        if isinstance(x, (Ptr, PArr)) or x is None:
            return t.rstrip().endswith(("*", "*const"))
        return True

    def mathcall(self, n, v):
        x = v[0]
        if n in ("abs", "fabs"):
            if isinstance(x, int):
                return abs(x)
            if x.op == "num":
                return num(abs(x.args[0]))
            return mk("fn", "abs", x)
        x = tt(x)
        if n == "pow":
            y = tt(v[1])
            if y.op == "num":
                return power(x, y.args[0])
            return mk("fn", "pow", x, y)
        if n == "sqrt":
            return power(x, Fr(1, 2))
        if x.op == "num" and n in ("ceil", "floor", "round", "trunc"):
            f = x.args[0]
            import math
            return num({"ceil": math.ceil, "floor": math.floor, "trunc": math.trunc, "round": lambda y: math.floor(y + Fr(1, 2)) if y >= 0 else -math.floor(-y + Fr(1, 2))}[n](f))
        if n in ("isnan", "isinf"):
            return False if x.op == "num" else mk(n, x)
        if n == "isfinite":
            return True if x.op == "num" else mk(n, x)
        if x.op == "num" and x.args[0] == 0 and n in ("sin", "tan", "tanh", "atan", "asin"):
            return ZERO
        if x.op == "num" and x.args[0] == 0 and n in ("cos", "exp"):
            return ONE
        return mk("fn", n, *[tt(y) for y in v])

    def algorithm(self, e, n, q, a, v):
        ap = lambda f, *xs: (lambda r: r.get() if isinstance(r, Ref) else r)(self.apply(f, [x if isinstance(x, Ref) else Cell(x) for x in xs]))
        less = lambda f, x, y: self.decide(truthy(ap(f, x, y) if f is not None else self.binop("<", x.get(), y.get(), e)))
        if n in ("next", "prev"):
            d = as_int(v[1]) if len(v) > 1 else 1
            return self.step(v[0], d if n == "next" else -d)
        if n == "advance":
            a[0].set(self.step(v[0], as_int(v[1])))
            return None
        if n == "distance":
            return self.ptrop("-", v[1], v[0])
        if n in ("begin", "cbegin", "end", "cend", "size", "empty"):
            return self.method(e, n, q, a[0] if isinstance(a[0], Ref) else Cell(v[0]), v[0], [])
        if n in ("min", "max"):
            if len(v) >= 2:
                x, y = v[0], v[1]
                if len(v) == 3:
                    return NotImplemented
                c = self.decide(truthy(self.binop("<", y, x, e) if n == "min" else self.binop("<", x, y, e)))
                return a[1] if c else a[0]
            if isinstance(v[0], Vec):
                best = v[0].l[0].get()
                for c in v[0].l[1:]:
                    if self.decide(truthy(self.binop("<", c.get(), best, e) if n == "min" else self.binop("<", best, c.get(), e))):
                        best = c.get()
                return best
            return NotImplemented
        if n == "clamp":
            if self.decide(truthy(self.binop("<", v[0], v[1], e))):
                return a[1]
            return a[2] if self.decide(truthy(self.binop("<", v[2], v[0], e))) else a[0]
        if n == "abs":
            return self.mathcall("abs", v)
        if n == "swap":
            x, y = cp(v[0]) if not isinstance(v[0], UP) else UP(v[0].p), cp(v[1]) if not isinstance(v[1], UP) else UP(v[1].p)
            self.assign(a[0], y)
            self.assign(a[1], x)
            return None
        if n == "exchange":
            old = UP(v[0].p) if isinstance(v[0], UP) else cp(v[0])
            self.assign(a[0], v[1])
            return old
        if n == "back_inserter":
            x = Lib("back_inserter")
            x.data["c"] = v[0]
            return x
        if not isinstance(v[0], (It, PArr)):
            return NotImplemented
        if n == "fill_n":
            for i in range(as_int(v[1])):
                self.assign(self.deref(self.step(v[0], i)), v[2])
            return None
        if n == "copy_n":
            v = [v[0], self.step(v[0], as_int(v[1])), v[2]]
            n = "copy"
        rs = self.span(v[0], v[1]) if len(v) > 1 and isinstance(v[1], (It, PArr)) else None
        if rs is None:
            return NotImplemented
        at = lambda i: self.step(v[0], i)
        if n in ("find", "find_if", "find_if_not"):
            for i, r in enumerate(rs):
                c = self.generic_eq(r.get(), v[2], e) if n == "find" else ap(v[2], r)
                c = self.decide(truthy(c))
                if c != (n == "find_if_not"):
                    return at(i)
            return at(len(rs))
        if n in ("any_of", "all_of", "none_of"):
            for r in rs:
                c = self.decide(truthy(ap(v[2], r)))
                if c and n == "any_of":
                    return True
                if c and n == "none_of" or not c and n == "all_of":
                    return False
            return n != "any_of"
        if n in ("count_if", "count"):
            return sum(1 for r in rs if self.decide(truthy(ap(v[2], r) if n == "count_if" else self.generic_eq(r.get(), v[2], e))))
        if n == "for_each":
            for r in rs:
                self.apply(v[2], [r])
            return v[2]
        if n == "is_sorted":
            f = v[2] if len(v) > 2 else None
            for x, y in zip(rs, rs[1:]):
                if less(f, y, x):
                    return False
            return True
        if n == "adjacent_find":
            f = v[2] if len(v) > 2 else None
            for i, (x, y) in enumerate(zip(rs, rs[1:])):
                if self.decide(truthy(ap(f, x, y) if f is not None else self.generic_eq(x.get(), y.get(), e))):
                    return at(i)
            return at(len(rs))
        if n in ("sort", "stable_sort"):
            f = v[2] if len(v) > 2 else None
            xs = [r.get() for r in rs]
            out = []
            for x in xs:
                i = len(out)
                while i > 0 and less(f, Cell(x), Cell(out[i - 1])):
                    i -= 1
                out.insert(i, x)
            self.rewrite(v[0], rs, out)
            return None
        if n == "reverse":
            self.rewrite(v[0], rs, [r.get() for r in rs][::-1])
            return None
        if n in ("unique", "remove_if", "remove"):
            f = v[2] if len(v) > 2 else None
            out = []
            for r in rs:
                x = r.get()
                if n == "unique":
                    drop = bool(out) and self.decide(truthy(ap(f, Cell(out[-1]), r) if f is not None else self.generic_eq(out[-1], x, e)))
                elif n == "remove_if":
                    drop = self.decide(truthy(ap(f, r)))
                else:
                    drop = self.decide(truthy(self.generic_eq(x, v[2], e)))
                if not drop:
                    out.append(x)
            k = len(out)
            rest = [r.get() for r in rs][k:]
            self.rewrite(v[0], rs, out + rest)
            return at(k)
        if n in ("lower_bound", "upper_bound"):
            f = v[3] if len(v) > 3 else None
            for i, r in enumerate(rs):
                if n == "lower_bound":
                    c = not less(f, r, Cell(v[2]))
                else:
                    c = less(f, Cell(v[2]), r)
                if c:
                    return at(i)
            return at(len(rs))
        if n == "binary_search":
            return any(self.decide(truthy(self.generic_eq(r.get(), v[2], e))) for r in rs)
        if n == "accumulate":
            acc = v[2]
            for r in rs:
                acc = ap(v[3], Cell(acc), r) if len(v) > 3 else self.binop("+", acc, r.get(), e)
            return acc
        if n == "equal":
            if len(v) > 3 and isinstance(v[3], (It, PArr)):
                o = self.span(v[2], v[3])
                if len(o) != len(rs):
                    return False
            else:
                o = [self.deref(self.step(v[2], i)) for i in range(len(rs))]
            return all(self.decide(truthy(self.generic_eq(x.get(), y.get(), e))) for x, y in zip(rs, o))
        if n in ("max_element", "min_element"):
            f = v[2] if len(v) > 2 else None
            if not rs:
                return v[1]
            b = 0
            for i in range(1, len(rs)):
                if less(f, rs[b], rs[i]) if n == "max_element" else less(f, rs[i], rs[b]):
                    b = i
            return at(b)
        if n == "fill":
            for r in rs:
                self.assign(r, v[2])
            return None
        if n == "iota":
            x = v[2]
            for r in rs:
                r.set(x)
                x = self.step(x, 1)
            return None
        if n in ("copy", "copy_if", "transform"):
            if n == "transform" and len(v) == 5:
                o = [self.deref(self.step(v[2], i)) for i in range(len(rs))]
                out, res = v[3], [ap(v[4], x, y) for x, y in zip(rs, o)]
            elif n == "transform":
                out, res = v[2], [ap(v[3], x) for x in rs]
            elif n == "copy_if":
                out, res = v[2], [r.get() for r in rs if self.decide(truthy(ap(v[3], r)))]
            else:
                out, res = v[2], [r.get() for r in rs]
            if isinstance(out, Lib):
                for x in res:
                    self.method(e, "push_back", "", Cell(out.data["c"]), out.data["c"], [cp(x)])
                return out
            for i, x in enumerate(res):
                self.assign(self.deref(self.step(out, i)), x)
            return self.step(out, len(res))
        return NotImplemented

    def rewrite(self, it, rs, vals):
        c = it.c if isinstance(it, It) else None
        if isinstance(c, J) and isinstance(c.v, list):
            c.v[it.i:it.i + len(vals)] = vals
        elif isinstance(c, Vec):
            for k, x in enumerate(vals):
                c.l[it.i + k] = Cell(x)
        else:
            for r, x in zip(rs, vals):
                r.set(x)


class CharIt:
    pass


class SpValues(PArr):
    """pointer to the stored values of a sparse matrix"""

    def __init__(self, m):
        self.m = m
        self.a = SpArr(m)
        self.o = 0


class SpArr:
    def __init__(self, m):
        self.m = m

    @property
    def shape(self):
        return (len(self.keys()),)

    def keys(self):
        """what is stored where; None: unused room"""
        ks = sorted(self.m.d, key=lambda k: (k[1], k[0]))
        if not self.m.gaps:
            return ks
        out = []
        for c in range(self.m.c):
            out += [k for k in ks if k[1] == c] + [None] * (c in self.m.gaps)
        return out

    def __getitem__(self, i):
        if isinstance(i, slice):
            ks = self.keys()[i]
            return SpSlice(self.m, ks)
        k = self.keys()[i]
        return self.m.d[k] if k is not None else mk("uninit")

    def __setitem__(self, i, v):
        k = self.keys()[i]
        if k is not None:
            self.m.d[k] = v


class SpSlice:
    def __init__(self, m, ks):
        self.m, self.ks = m, ks

    def reshape(self, sh, order=None):
        return SpMatView(self.m, self.ks)


class SpMatView:
    """the stored values of a sparse matrix seen as a vector"""

    def __init__(self, m, ks):
        self.m, self.ks = m, ks
        self.shape = (len(ks), 1)
        self.size = len(ks)

    def __setitem__(self, k, v):
        if isinstance(k[0], slice):
            for i, x in enumerate(self.ks):
                if x is not None:
                    self.m.d[x] = v if not hasattr(v, "shape") else v[i, 0]
        elif self.ks[k[0]] is not None:
            self.m.d[self.ks[k[0]]] = v

    def __getitem__(self, k):
        return self.m.d[self.ks[k[0]]]

    @property
    def flat(self):
        return [self.m.d[k] for k in self.ks]


class VecArr:
    """contiguous view of a list of cells"""

    def __init__(self, l):
        self.l = l

    @property
    def shape(self):
        return (len(self.l),)

    def __getitem__(self, i):
        return self.l[i].get()

    def __setitem__(self, i, v):
        self.l[i].set(v)

    def matrix(self, o, r, c, row):
        return CellMat([[self.l[o + (i * c + j if row else j * r + i)] for j in range(c)] for i in range(r)], r, c)


class CellMat:
    def __init__(self, rows, r, c):
        self.rows, self.shape, self.size = rows, (r, c), r * c

    def __getitem__(self, k):
        if isinstance(k[0], slice) or isinstance(k[1], slice):
            i0, i1, _ = k[0].indices(self.shape[0])
            j0, j1, _ = k[1].indices(self.shape[1])
            return CellMat([r[j0:j1] for r in self.rows[i0:i1]], i1 - i0, j1 - j0)
        return self.rows[k[0]][k[1]].get()

    def __setitem__(self, k, v):
        if isinstance(k[0], slice):
            for i in range(self.shape[0]):
                for j in range(self.shape[1]):
                    self.rows[i][j].set(v[i, j] if hasattr(v, "shape") else v)
        else:
            self.rows[k[0]][k[1]].set(v)

    @property
    def flat(self):
        return [c.get() for r in self.rows for c in r]

    @property
    def T(self):
        return CellMat([[self.rows[i][j] for i in range(self.shape[0])] for j in range(self.shape[1])], self.shape[1], self.shape[0])

    def __array__(self, dtype=None, copy=None):
        a = np.empty(self.shape, dtype=object)
        for i in range(self.shape[0]):
            for j in range(self.shape[1]):
                a[i, j] = self.rows[i][j].get()
        return a


def take(u):
    """move of a unique_ptr"""
    n = UP(u.p)
    u.p = None
    return n


def truthy(v):
    if isinstance(v, bool):
        return v
    if v is TRUE:
        return True
    if v is FALSE:
        return False
    if v is None:
        return False
    if isinstance(v, int):
        return v != 0
    if isinstance(v, T):
        if v.op == "num":
            return v.args[0] != 0
        return v
    if isinstance(v, (Ptr, PArr, It, Fn)):
        return True
    if isinstance(v, UP):
        return v.p is not None
    if isinstance(v, Opt):
        return v.c is not None
    if isinstance(v, Stream):
        return True
    raise Unmodelled("condition %r" % (v,))


def merge_patch(j, o):
    for k, v in o.v.items():
        if v.v is None:
            j.v.pop(k, None)
        elif isinstance(v.v, dict) and k in j.v and isinstance(j.v[k].v, dict):
            merge_patch(j.v[k], v)
        else:
            j.v[k] = cp(v)


def subterms_have_atoms(t):
    return any(x.op not in ("num", "add", "mul") for x in subterms(t))


def int_scalar(e):
    k = eig(e.get("rc", "")) or eig(e.get("t", ""))
    return bool(k) and k[1] in ("int", "long", "unsigned long")


def emap(f, a):
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = f(a[i])
    return out


def emap2(f, a, b):
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = f(a[i], b[i])
    return out


def det(A):
    n = A.shape[0]
    if n == 0:
        return ONE
    if n == 1:
        return tt(A[0, 0])
    out = []
    for j in range(n):
        if A[0, j] is ZERO:
            continue
        M = np.delete(np.delete(A, 0, 0), j, 1)
        t = mul(tt(A[0, j]), det(M))
        out.append(t if j % 2 == 0 else neg(t))
    return add(*out) if out else ZERO


def cat(parts):
    if all(isinstance(p, (str, int)) and not isinstance(p, bool) for p in parts):
        return "".join(str(p) if not isinstance(p, str) else p for p in parts)
    return SymS("".join(p if isinstance(p, str) else "?" for p in parts)[:200])


def parse_json(s):
    return pyjson.loads(s, parse_float=lambda x: num(Fr(x)))


FLOATS = ("double", "float", "long double")
INTT = ("int", "long", "unsigned int", "unsigned long", "short", "unsigned short", "char", "unsigned char", "signed char", "bool", "long long", "unsigned long long", "__int128", "unsigned __int128")


def is_float(t):
    return base_t(t) in FLOATS and not (t or "").rstrip().endswith("*")


def is_scalar_t(t):
    return base_t(t) in FLOATS + INTT


def targs(t):
    """top-level template arguments of a type as written"""
    i = t.find("<")
    if i < 0:
        return [""]
    out, d, cur = [], 0, ""
    for ch in t[i + 1:t.rfind(">")]:
        if ch in "<(":
            d += 1
        if ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


class Outcome:
    def __init__(self, kind, value, I, known):
        self.kind, self.value, self.I, self.known = kind, value, I, known

    def __repr__(self):
        return "<%s %r | %s>" % (self.kind, self.value, ", ".join("%s=%s" % (show(c), v) for c, v in self.known.items()))


def braced(v):
    return any(x in (v.t or "") for x in ("initializer_list", "json_ref<"))


def explore(make, limit=3000, consistent=None):
    """all paths: make(known) -> (interpreter, thunk).  Yields Outcomes of kind
    ok, throw, ub, unmodelled."""
    stack = [{}]
    n = 0
    while stack:
        known = stack.pop()
        if consistent is not None and not consistent(known):
            continue
        n += 1
        if n > limit:
            raise Unmodelled("too many paths")
        I, go = make(known)
        try:
            v = go()
            yield Outcome("ok", v, I, known)
        except Fork as f:
            for b in (False, True):
                k = dict(known)
                k[f.cond] = b
                stack.append(k)
        except Thrown as t:
            yield Outcome("throw", t, I, known)
        except UB as u:
            yield Outcome("ub", str(u), I, known)
        except Unmodelled as u:
            yield Outcome("unmodelled", str(u), I, known)
        except (_Break, _Continue, _Return) as x:
            yield Outcome("unmodelled", "stray jump", I, known)
        except AnalysisBroken:
            raise
        except (TypeError, KeyError, IndexError, AttributeError, ValueError, AssertionError, ArithmeticError, NotImplementedError, RecursionError) as x:
            if os.environ.get("SHAPE_DEBUG"):
                raise
            yield Outcome("unmodelled", "%s: %s in %s" % (type(x).__name__, x, I.fn["q"] if I.fn else "?"), I, known)
