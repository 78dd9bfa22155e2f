"""Typestate of everything written to disk: directories, streams, C files.

Every operation is given all the outcomes it can have, failures included: a stream
keeps its error bits and its exception mask, a file its content, a directory whether
this very run created it."""
import re
from worlds import *
from flow import *

FAIL, BAD = "F", "B"
FS = "std::filesystem::"
FSMOD = {"create_directory", "create_directories", "rename", "copy", "copy_file", "remove", "remove_all", "resize_file", "exists", "copy_symlink", "create_symlink"}
CFILE = {"fopen", "std::fopen", "fclose", "std::fclose", "fputs", "std::fputs", "fprintf", "std::fprintf", "fwrite", "std::fwrite", "fputc", "std::fputc"}
KEEP = {"string", "c_str", "native", "generic_string", "lexically_normal", "u8string", "data", "str", "operator basic_string", "operator std::string"}


def is_out(t):
    t = (t or "").replace("const ", "")
    return t.startswith(("std::basic_ofstream", "std::basic_fstream", "std::ofstream", "std::fstream"))


def interesting(e):
    q = e.get("q", "") or ""
    if q.startswith(FS) and q[len(FS):] in FSMOD:
        return True
    if q in CFILE:
        return True
    return e.get("k") == "ctor" and is_out(e.get("rc") or e.get("t"))


_rel = {}


def callgraph(P):
    """function key -> keys it mentions (called or referred to); keys with file operations"""
    if id(P) in _rel:
        return _rel[id(P)]
    from sem import iter_nodes
    g, direct = {}, set()
    for k, f in P.functions.items():
        out = set()
        if f["b"] is not None:
            for n in iter_nodes({"b": f["b"], "i": f.get("inits")}):
                if n.get("fn"):
                    out.add(n["fn"])
                if interesting(n):
                    direct.add(k)
        g[k] = out
    rel = set(direct)
    change = True
    while change:
        change = False
        for k, o in g.items():
            if k not in rel and o & rel:
                rel.add(k)
                change = True
    _rel[id(P)] = g, direct, rel
    return _rel[id(P)]


def parts(p):
    """path value -> the chain of prefixes, longest first"""
    yield p
    while isinstance(p, tuple) and p and p[0] == "op" and p[1] in (FS + "operator/", "std::operator+") and len(p) == 4:
        p = p[2]
        yield p


def symbolic(e, W):
    f = W.fn[-1]
    return ("op", "name chosen at", f["q"], e.get("l"))


class Files(Domain):
    def __init__(self, P, contents=False, target=None):
        self.g, self.direct, self.rel = callgraph(P)
        self.contents, self.target = contents, target
        self.bad = []          # (rule, where, detail)
        self.seen = {"ops": set()}
        self.opaque = set()
        self.n = 0

    def relevant(self, f):
        return f["key"] in self.rel and f["key"] not in self.opaque

    def init(self):
        return {"created": frozenset(), "failed": frozenset()}

    def op(self, W, e, what):
        self.seen["ops"].add("%s %s" % (W.where(e), what))

    # ------------------------------------------------------------ content model
    def content(self, st, p):
        """[(state, content)], forking on what is there before the first use"""
        c = st.dom.get(("C", p))
        if c is not None:
            return [(st, c)]
        return [(with_dom1(st, ("C", p), "absent"), "absent"), (with_dom1(st, ("C", p), ("old", p)), ("old", p))]

    def put(self, W, st, e, p, c):
        """the content of p becomes c"""
        if not self.contents or p == UNK:
            return [st]
        r = []
        for s, old in self.content(st, p):
            if isinstance(old, tuple) and old[1] != self.target and old != c and not self.elsewhere(s, old, p):
                self.report("nothing-else-is-destroyed", W, e, "the previous content of %s is lost" % pshow(p))
            s = with_dom1(s, ("C", p), c)
            self.invariant(W, s, e)
            r.append(s)
        return r

    @staticmethod
    def elsewhere(st, c, p):
        return any(isinstance(k, tuple) and k[0] == "C" and k[1] != p and v == c for k, v in st.dom.items())

    def invariant(self, W, st, e):
        if self.target is None or not st.dom.get("had"):
            return
        old = ("old", self.target)
        if any(isinstance(k, tuple) and k[0] == "C" and v == old for k, v in st.dom.items()):
            return
        if st.dom.get(("C", self.target)) == "new":
            return
        self.report("old-or-new-content-on-disk", W, e, "neither the old nor the complete new content is on disk after this operation")

    def report(self, rule, W, e, detail):
        self.bad.append((rule, W.where(e), W.fn[-1]["q"] if W.fn else "", detail))

    # ------------------------------------------------------------- C11 targets
    def writes(self, W, st, e, p, what):
        self.op(W, e, what)
        if not getattr(self, "fresh_only", False):
            return
        if p == UNK or contains_unk(p):
            self.unknown_targets = getattr(self, "unknown_targets", []) + [W.where(e)]
            return
        if not any(x in st.dom["created"] for x in parts(p)):
            self.report("writes-only-into-the-new-directory", W, e, "%s: %s is not inside a directory this run created" % (what, pshow(p)))
        else:
            self.good = getattr(self, "good", set()) | {W.where(e)}

    # ------------------------------------------------------------------ streams
    def stream(self, st, obj):
        return st.dom.get(("S", obj))

    def setst(self, st, obj, **kw):
        d = dict(st.dom[("S", obj)])
        d.update(kw)
        return with_dom1(st, ("S", obj), tuple(sorted(d.items(), key=str)))

    def get(self, st, obj):
        return dict(st.dom[("S", obj)])

    def failed(self, st, p, W, e):
        return with_dom(st, failed=st.dom["failed"] | {(p, W.where(e))})

    single = True     # one fault per path: a second one changes nothing about the first being lost

    def spent(self, st):
        return self.single and bool(st.dom["failed"])

    def fails(self, W, st, e, obj, bit):
        return [] if self.spent(st) else [self.fail(W, st, e, obj, bit)]

    def fail(self, W, st, e, obj, bit):
        """the operation fails: set the bit, throw if the mask says so"""
        d = self.get(st, obj)
        st = self.setst(st, obj, bits=d["bits"] | {bit})
        st = self.failed(st, d["path"], W, e)
        if bit in d["mask"]:
            return ("throw", st, ("exc", "std::ios_base::failure"))
        return ("ok", st, obj)

    def open(self, W, st, e, obj, p, mode):
        self.writes(W, st, e, p, "open for writing")
        m = repr(mode)
        if "ios_base::in" in m and "trunc" not in m and "ios_base::out" not in m:
            return [("ok", st, obj)]
        keep = "app" in m or "ios_base::in" in m and "trunc" not in m
        st = self.setst(st, obj, path=p)
        r = self.fails(W, st, e, obj, FAIL)
        for s in ([st] if keep else self.put(W, st, e, p, "partial")):
            r.append(("ok", self.setst(s, obj, open=True, dirty=False, wrote=False), obj))
        return r

    def write(self, W, st, e, obj, v):
        d = self.get(st, obj)
        self.op(W, e, "write")
        if d["bits"]:
            return [("ok", st, obj)]
        if not d["open"]:
            return [self.fail(W, st, e, obj, BAD)]
        r = self.fails(W, st, e, obj, BAD)
        data = d["data"] | ({self.digest(v)} if v is not None else set())
        r.append(("ok", self.setst(st, obj, dirty=True, wrote=True, data=frozenset(data)), obj))
        return r

    @staticmethod
    def digest(v):
        return tuple(sorted(set(re.findall(r"'par', \d+, '(\w+)'", repr(v)))))

    def finish(self, W, st, e, obj, close):
        d = self.get(st, obj)
        self.op(W, e, "close" if close else "flush")
        if not d["open"]:
            return [self.fail(W, st, e, obj, FAIL)] if close else [("ok", st, obj)]
        if d["bits"]:
            return [("ok", self.setst(st, obj, open=not close and d["open"], dirty=False), obj)]
        s = self.setst(st, obj, open=not close, dirty=False)
        r = self.fails(W, s, e, obj, FAIL if close else BAD)
        p = d["path"]
        full = d["wrote"]
        oks = [s]
        if full and self.contents:
            oks = self.put(W, s, e, p, "new" if any(self.newdata in x for x in d["data"]) else "other") if getattr(self, "newdata", None) else self.put(W, s, e, p, "new")
        for s in oks:
            s = with_dom(s, failed=frozenset(x for x in s.dom["failed"] if x[0] != p))
            r.append(("ok", s, obj))
        return r

    # -------------------------------------------------------------------- hooks
    def ctor(self, W, st, e, vals, key):
        t = e.get("rc") or e.get("t")
        if is_out(t) and not (e.get("copy") or e.get("move")):
            obj = ("obj", "stream", key if key is not None else W.where(e))
            st = with_dom1(st, ("S", obj), tuple(sorted({"path": UNK, "mask": frozenset(), "bits": frozenset(), "open": False, "dirty": False, "wrote": False,
                                                         "data": frozenset(), "where": W.where(e)}.items(), key=str)))
            if not e.get("a"):
                return [("ok", st, obj)]
            return self.open(W, st, e, obj, self.path(vals[0]), vals[1:])
        if (t or "").replace("const ", "").startswith("std::filesystem::path"):
            v = vals[0] if vals else ("s", "")
            if v == UNK or contains_unk(v):
                return [("ok", self.forget(st, symbolic(e, W)), symbolic(e, W))]
            return [("ok", st, self.path(v))]
        return None

    def path(self, v):
        return v

    def forget(self, st, sym):
        has = lambda v: v == sym or isinstance(v, tuple) and any(has(x) for x in v)
        return St({k: v for k, v in st.env.items() if not (isinstance(k, tuple) and k[0] == "asm" and has(k[1]))},
                  {k: (frozenset(x for x in v if not has(x)) if k == "created" else v) for k, v in st.dom.items() if not (isinstance(k, tuple) and k[0] == "C" and has(k[1]))})

    def leave(self, W, st, keys):
        for k in keys:
            obj = st.env.get(k)
            if isinstance(obj, tuple) and obj[:2] == ("obj", "stream") and obj[2] == k and ("S", obj) in st.dom:
                d = self.get(st, obj)
                if d["open"] and d["dirty"]:
                    st = with_dom(st, failed=st.dom["failed"] | {(d["path"], d["where"] + " (last bytes are written by the destructor, unnoticed if that fails)")})
                st = St(st.env, {x: y for x, y in st.dom.items() if x != ("S", obj)})
        return st

    def call(self, W, st, q, e, recv, rkey, vals, keys):
        n = e.get("n") or q.split("::")[-1]
        if n == "operator bool" and isinstance(recv, bool):
            return [("ok", st, recv)]
        sobj = lambda v: isinstance(v, tuple) and v[:2] == ("obj", "stream") and ("S", v) in st.dom
        # ---- paths
        if q.startswith(FS + "path::") or q.startswith("std::basic_string"):
            if n in KEEP or n.startswith("operator basic_string"):
                return [("ok", st, recv)]
            if n in ("operator/=", "operator+=", "append", "concat"):
                v = ("op", FS + "operator/" if "/" in n or n == "append" else "std::operator+", recv, vals[0])
                if contains_unk(v):
                    v = symbolic(e, W)
                    st = self.forget(st, v)
                return [("ok", W.store(st, rkey, v), v)]
        if q in (FS + "operator/", "std::operator+"):
            v = ("op", q) + tuple(vals)
            if contains_unk(v):
                v = symbolic(e, W)
                st = self.forget(st, v)
            return [("ok", st, v)]
        if q in (FS + "absolute", FS + "canonical", FS + "weakly_canonical"):
            return [("ok", st, vals[0]), ("throw", st, ("exc", "std::filesystem::filesystem_error"))]
        # ---- streams
        if e["k"] == "opcall" and e.get("op") == "<<":
            o = recv if recv is not None else vals[0] if vals else None
            if sobj(o):
                return self.write(W, st, e, o, vals[-1] if vals else None)
        if sobj(recv):
            d = self.get(st, recv)
            if n == "exceptions" and vals:
                m = frozenset(b for b, w in ((FAIL, "failbit"), (BAD, "badbit")) if w in repr(vals[0]))
                st = self.setst(st, recv, mask=m)
                return [("throw", st, ("exc", "std::ios_base::failure"))] if m & d["bits"] else [("ok", st, None)]
            if n == "open":
                return self.open(W, st, e, recv, self.path(vals[0]), vals[1:])
            if n == "close":
                return self.finish(W, st, e, recv, True)
            if n == "flush":
                return self.finish(W, st, e, recv, False)
            if n in ("write", "put"):
                return self.write(W, st, e, recv, vals[0] if vals else None)
            if n in ("fail", "operator!"):
                return [("ok", st, bool(d["bits"]))]
            if n in ("operator bool", "good"):
                return [("ok", st, not d["bits"])]
            if n == "bad":
                return [("ok", st, BAD in d["bits"])]
            if n == "is_open":
                return [("ok", st, d["open"])]
            if n == "clear" and not vals:
                return [("ok", self.setst(st, recv, bits=frozenset()), None)]
            return [("ok", st, UNK)]
        # ---- C files
        if q in CFILE:
            return self.cfile(W, st, n, e, vals)
        # ---- file system
        if q.startswith(FS) and q[len(FS):] in FSMOD:
            return self.fs(W, st, n, e, vals, keys)
        return None

    def cfile(self, W, st, n, e, vals):
        if n == "fopen":
            p, mode = self.path(vals[0]), vals[1]
            m = mode[1] if isinstance(mode, tuple) and mode[0] == "s" else "w"
            if m.startswith("r"):
                return None
            self.writes(W, st, e, p, "fopen")
            site = W.where(e)
            obj = ("obj", "FILE", site)
            r = [("ok", with_dom(st, failed=st.dom["failed"] | {(p, site)}), ("null",))] if not self.spent(st) or any(x[0] == p for x in st.dom["failed"]) else []
            fr = frozenset(x for x in st.dom["failed"] if x != (p, site))
            for s in (self.put(W, st, e, p, "partial") if "x" not in m and "w" in m else [st]):
                r.append(("ok", with_dom1(with_dom(s, failed=fr), ("FILE", obj), False), obj))
            return r
        obj = next((v for v in vals if isinstance(v, tuple) and v[:2] == ("obj", "FILE")), None)
        if obj is None:
            return [("ok", st, UNK)]
        bad = with_dom(st, failed=st.dom["failed"] | {(UNK, W.where(e))})
        if n == "fclose":
            if not st.dom.get(("FILE", obj)):
                return [("ok", st, 0)]
            return [("ok", st, 0), ("ok", bad, -1)]
        self.op(W, e, n)
        return [("ok", with_dom1(st, ("FILE", obj), True), 1), ("ok", bad, -1)]

    def fs(self, W, st, n, e, vals, keys):
        err = ("exc", "std::filesystem::filesystem_error")
        ec = None
        if e.get("a") and "error_code" in (e["a"][-1].get("t") or "") and e.get("pr", "").endswith("r"):
            ec = keys[-1]
            vals = vals[:-1]

        def bad(s, lost=True):
            if ec is None:
                return ("throw", s, err)
            if lost:
                s = self.failed(s, self.path(vals[1] if n in ("copy", "copy_file", "rename") else vals[0]), W, e)
            return ("ok", W.store(s, ec, True), False)

        def good(s, v=True):
            return ("ok", W.store(s, ec, False) if ec is not None else s, v)
        p = self.path(vals[0])
        if n == "exists":
            if not self.contents or p == UNK:
                return [bad(st, False), good(st, UNK)]
            return [bad(st, False)] + [good(s, c != "absent") for s, c in self.content(st, p)]
        if n in ("create_directory", "create_directories"):
            self.op(W, e, n)
            r = [bad(st), good(st, False)]
            s = with_dom(st, created=st.dom["created"] | {p}) if p != UNK else st
            return r + [good(s, True)]
        self.op(W, e, n)
        if n == "rename":
            b = self.path(vals[1])
            for x in (p, b):
                self.writes(W, st, e, x, "rename")
            r = [bad(st)]
            if not self.contents:
                return r + [good(st, None)]
            for s, c in self.content(st, p):
                if c == "absent":
                    continue
                for s2, cb in self.content(s, b):
                    s3 = with_dom1(with_dom1(s2, ("C", b), c), ("C", p), "absent")
                    if isinstance(cb, tuple) and cb[1] != self.target and not self.elsewhere(s3, cb, b):
                        self.report("nothing-else-is-destroyed", W, e, "the previous content of %s is replaced" % pshow(b))
                    self.invariant(W, s3, e)
                    r.append(good(s3, None))
            return r
        if n in ("remove", "remove_all"):
            self.writes(W, st, e, p, n)
            return [bad(st)] + [good(s, UNK) for s in self.put(W, st, e, p, "absent")]
        if n in ("copy", "copy_file"):
            b = self.path(vals[1])
            self.writes(W, st, e, b, n)
            r = [bad(st)]
            if not self.contents:
                return r + [good(st, None)]
            for s, c in self.content(st, p):
                # a copy that fails half-way leaves a partial file behind
                for s2 in self.put(W, s, e, b, "partial"):
                    r.append(bad(s2))
                r += [good(s2, True) for s2 in self.put(W, s, e, b, c)]
            return r
        return None


def with_dom1(st, k, v):
    d = dict(st.dom)
    d[k] = v
    return St(st.env, d)


def pshow(p):
    if isinstance(p, tuple):
        if p[:1] == ("s",):
            return p[1]
        if p[:2] == ("op", "par"):
            return p[3]
        if p[:1] == ("op",) and p[1] in (FS + "operator/", "std::operator+"):
            return "%s%s%s" % (pshow(p[2]), "/" if "/" in p[1] else "+", pshow(p[3]))
        if p[:1] == ("op",):
            return "%s(%s)" % (p[1].split("::")[-1], ", ".join(pshow(x) for x in p[2:]))
    return str(p)


def roots(ctx):
    """functions with file operations that no other such function calls, the program's main aside"""
    g, direct, rel = callgraph(ctx.P)
    called = set()
    for k in rel:
        if ctx.P.functions[k]["q"] != "main":
            called |= g[k] - {k}
    r = [ctx.P.functions[k] for k in rel if k not in called and ctx.P.functions[k]["q"] != "main" and ctx.P.functions[k]["b"] is not None]
    return sorted(r, key=lambda f: f["q"])
