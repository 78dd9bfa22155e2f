"""C25: errors that are raised are not lost."""
from worlds import *
from errs import *

TECHNIQUE = "exception-flow analysis: every handler is followed to all its ends over enumerated paths; discarded results of functions that report failure and exception objects that are never thrown are found on the syntax tree"
NOTE = ("A handler may rethrow, throw, or make its function return a failure value (false, null, a non-zero status); absence of an optional entry, looked up by a throwing accessor in a try block "
        "that does nothing else, is not an error. What callers do with failure values beyond not discarding them is C05's and C06's subject.")


def run(ctx):
    P, H = ctx.P, ctx.H
    reports, tries = handlers(ctx, P, H)
    ctx.need(tries >= 8, "try blocks not found")
    # functions that turn errors into return values: nobody drops the value
    names = {P.functions[k]["key"] for k in reports}
    over = set(names)
    overs = {}
    for r in P.records.values():
        for m in r["methods"]:
            overs.setdefault(m["key"], set()).update(m.get("over", []))
    while True:
        n0 = len(over)
        for k in list(over):
            over |= overs.get(k, set())
        for k, f in P.functions.items():
            if k not in over and f["b"] is not None and f.get("rt") == "bool" and any(n.get("fn") in over for n in iter_nodes(f["b"])):
                over.add(k)
        if len(over) == n0:
            break
    reports |= over & set(P.functions)
    ctx.notes.append("report failure by value: %s" % sorted(P.functions[k]["q"] for k in reports))
    for k, f in sorted(P.functions.items()):
        if f["b"] is None:
            continue
        for n in iter_nodes(f["b"]):
            if n.get("k") == "expr":
                e = n.get("e") or {}
                while e.get("k") == "cast":
                    e = e.get("e") or {}
                if e.get("fn") in over:
                    ctx.ob("failure-results-are-used", "%s:%s in %s" % (f["file"].split("/src/")[-1], n["l"], f["q"]), False, "%s:%s" % (f["file"], n["l"]),
                           "the result of %s is discarded" % e.get("q"), key="%s|%s" % (f["q"], e.get("q")))
                if e.get("k") in ("ctor", "init") and excp(H, P, e.get("rc") or e.get("t", "")) and not e.get("copy"):
                    ctx.ob("exceptions-are-thrown", "%s:%s in %s" % (f["file"].split("/src/")[-1], n["l"], f["q"]), False, "%s:%s" % (f["file"], n["l"]),
                           "an exception object of class %s is created and dropped" % (e.get("rc") or e.get("t")), key="%s|%s" % (f["q"], e.get("rc") or e.get("t")))
            if n.get("fn") in over and n.get("k") in ("call", "mcall"):
                ctx.ob("failure-results-are-used", "%s:%s in %s" % (f["file"].split("/src/")[-1], n["l"], f["q"]), True)
            if n.get("k") == "throw" and n.get("e"):
                ctx.ob("exceptions-are-thrown", "%s:%s in %s" % (f["file"].split("/src/")[-1], n["l"], f["q"]), True)
            if n.get("k") == "decl":
                for d in n["d"]:
                    if "id" in d and excp(H, P, d.get("t", "")) and not any(x.get("k") == "var" and x.get("id") == d["id"] for x in iter_nodes(f["b"])):
                        ctx.ob("exceptions-are-thrown", "%s:%s in %s" % (f["file"].split("/src/")[-1], n["l"], f["q"]), False, "%s:%s" % (f["file"], n["l"]),
                               "the exception %s is never thrown" % d["n"], key="%s|%s" % (f["q"], d["n"]))
    # the function behind gthrow never returns
    builders = [f for f in P.functions.values() if f["n"] == "exception_builder" and f["b"] is not None]
    ctx.need(builders, "exception_builder not found")
    for f in builders:
        W = Walker(P, H, Swallow())
        outs = W.start(f)
        ctx.ob("gthrow-throws", f["q"], all(k == "throw" for k, _, _ in outs), "%s:%d" % (f["file"], f["l"]), "exception_builder can return normally", key=f["q"])
    ctx.floor("handlers-keep-the-error", 10)
    ctx.floor("exceptions-are-thrown", 20)


def excp(H, P, t):
    c = cls(t)
    return Walker(P, H, Domain()).isa(c, "std::exception")


run.explanation = ("Each function with a try block is followed over all paths, every call in it ending normally or by an exception; a path that entered a handler must end in an exception or a failure value. "
                   "Results of the functions that report failure by value are not discarded anywhere, exception objects are thrown, and the function behind gthrow never returns.")
