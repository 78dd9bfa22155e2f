"""Exceptions and return values as outcomes: who swallows an error."""
from flow import *
from sem import iter_nodes


class Swallow(Domain):
    """every handler that is entered is remembered with the path; calls are opaque except
    those that only compute the value to be returned"""

    def __init__(self, inline=()):
        self.inline = set(inline)

    def init(self):
        return {"caught": frozenset(), "msg": False}

    def relevant(self, f):
        return f["key"] in self.inline

    def catch(self, W, st, v, h):
        return with_dom(st, caught=st.dom["caught"] | {(W.where(h), "..." if h.get("all") else cls(h.get("ct", "")))})

    def call(self, W, st, q, e, recv, rkey, vals, keys):
        if e["k"] == "opcall" and silent(e):
            return [("ok", with_dom(st, msg=True), ("op", "stream"))]
        if q in ("printf", "std::printf", "puts", "std::puts", "fprintf", "std::fprintf", "fputs", "std::fputs", "perror"):
            return [("ok", with_dom(st, msg=True), UNK)]
        return None


def failure(v):
    """a return value that tells the caller about the failure"""
    if v is False or v == ("null",):
        return True
    if isinstance(v, int) and not isinstance(v, bool) and v != 0:
        return True
    if isinstance(v, tuple) and v[:1] == ("op",) and "nullopt" in repr(v):
        return True
    return False


def bodies(f):
    yield f["b"]
    for i in f.get("inits", []) or []:
        yield i


def optional_lookup(t):
    """a try block that does nothing but look an entry up and keep it, with handlers for its absence only"""
    for h in t["h"]:
        if h.get("all") or cls(h.get("ct", "")) not in ("nlohmann::out_of_range", "std::out_of_range"):
            return False
    for n in iter_nodes(t["b"]):
        k = n.get("k")
        if k in ("mcall", "call", "opcall", "ctor") and not n.get("mc"):
            q = n.get("q", "")
            if k == "mcall" and n.get("n") in ("at", "get", "value", "find", "c_str"):
                continue
            if k == "ctor" and ("basic_json" in q or "basic_string" in q or "allocator" in q):
                continue
            if k == "opcall" and n.get("op") == "=" and "basic_json" in q:
                continue
            return False
        if k in ("throw", "return", "new", "delete"):
            return False
    return True


def handlers(ctx, P, H):
    """every handler is followed to all its ends: an error that was intercepted must come out as an exception or a failure value"""
    reports = set()
    tries = 0
    for k, f in sorted(P.functions.items()):
        if f["b"] is None:
            continue
        ts = [n for n in iter_nodes({"b": f["b"], "i": f.get("inits")}) if n.get("k") == "try"]
        if not ts:
            continue
        tries += len(ts)
        exempt = {("%s:%s" % (f["file"], h["l"])) for t in ts if optional_lookup(t) for h in t["h"]}
        W = Walker(P, H, Swallow())
        outs = W.start(f)
        ctx.units.add(f["q"])
        sites = {}
        for t in ts:
            for h in t["h"]:
                sites["%s:%s" % (f["file"], h["l"])] = "..." if h.get("all") else cls(h.get("ct", ""))
        lost = {}
        for kind, s, v in outs:
            for w, c in s.dom["caught"]:
                if kind == "throw" or kind == "exit" and v != 0 or w in exempt:
                    continue
                if f["q"] == "main" and (v == ("op", "exitcode") or v not in (0, None)):
                    continue
                if failure(v) and f.get("rt") != "void":
                    if f["q"] != "main":
                        reports.add(k)
                    continue
                lost[w] = v
        for w, c in sorted(sites.items()):
            ctx.ob("handlers-keep-the-error", "%s catch (%s) in %s" % (w.split("/src/")[-1], c, f["q"]), w not in lost, w,
                   "the function ends normally with %s after the error was intercepted" % (lost.get(w),), key="%s|%s" % (f["q"], c))
    return reports, tries
