"""C11: a run never overwrites results of an earlier run."""
from c12 import *

TECHNIQUE = "typestate analysis of the file system operations of a run: every path written to must lie in a directory whose creation was observed to succeed on that path"
NOTE = ("create_directory is atomic and reports whether it created the directory: that is the file system's guarantee. The directory that holds all outputs may exist already. "
        "Writes whose target cannot be determined are listed as undecided, not reported.")


def run(ctx):
    f = one(ctx, "grazer::run")
    dom = Files(ctx.P)
    dom.fresh_only = True
    W = Walker(ctx.P, ctx.H, dom)
    outs = W.start(f)
    ctx.need(any(k == "ok" for k, _, _ in outs), "run has no successful path")
    for rule, where, q, detail in dict.fromkeys(dom.bad):
        ctx.ob(rule, "%s in %s" % (where_short(where), q), False, where, detail, key="%s|%s" % (q, rule))
    badw = {w for _, w, _, _ in dom.bad}
    for w in sorted(getattr(dom, "good", set()) - badw):
        ctx.ob("writes-only-into-the-new-directory", "%s in %s" % (where_short(w), W_fn(ctx, w)), True, w)
    for w in sorted(set(getattr(dom, "unknown_targets", ()))):
        ctx.ob("writes-only-into-the-new-directory", "%s in %s" % (where_short(w), W_fn(ctx, w)), False, w, terms=(mk("unknown", w),))
    ctx.units |= W.walked
    ctx.floor("writes-only-into-the-new-directory", 3)


def one(ctx, q):
    fs = [f for f in ctx.P.functions.values() if f["q"] == q and f["b"] is not None]
    ctx.need(len(fs) == 1, "%s not found" % q)
    return fs[0]


run.explanation = ("All paths of grazer::run through the functions that touch the file system are enumerated; directory creation has the outcomes created, already there and error. "
                   "Each file opened for writing, copied, renamed or removed must lie under a directory created on that very path.")
