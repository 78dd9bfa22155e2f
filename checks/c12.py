"""C12: a write that fails is reported as an error."""
from files import *

TECHNIQUE = "typestate analysis with an explicit fault model: every stream, C file and file system operation is followed through success and failure, exceptions through their handlers"
NOTE = ("Data counts as written when the stream was closed or flushed and its state was checked, by exceptions or by a test; losses below the operating system's interface are out of sight. "
        "Output to the console is not considered. Functions are analysed from the entry points main calls and from every writing function that has no other caller.")


def run(ctx):
    rs = roots(ctx)
    ctx.need(len(rs) >= 3, "no functions that write files found")
    for f in rs:
        dom = Files(ctx.P)
        W = Walker(ctx.P, ctx.H, dom)
        outs = W.start(f)
        lost = {}
        for k, s, v in outs:
            if k == "throw" or k == "exit" and v != 0:
                continue
            for p, w in s.dom["failed"]:
                lost.setdefault(w, p)
        ops = {o.split(" ")[0] for o in dom.seen["ops"]}
        for w in sorted(ops | {x.split(" ")[0] for x in lost}):
            hit = [x for x in lost if x.split(" ")[0] == w]
            ctx.ob("failed-writes-are-errors", "%s in %s" % (where_short(w), f["q"]), not hit, w,
                   "%s can end without an error although writing %s failed at %s" % (f["q"], pshow(lost[hit[0]]) if hit else "", hit[0] if hit else ""), key="%s|%s" % (f["q"], W_fn(ctx, w)))
        ctx.units |= W.walked
    ctx.floor("failed-writes-are-errors", 15)


def where_short(w):
    return w.split("/src/")[-1]


def W_fn(ctx, w):
    """the function a source line lies in"""
    file, _, line = w.split(" ")[0].rpartition(":")
    best = None
    for f in ctx.P.functions.values():
        if f.get("file") == file and line.isdigit() and f["l"] <= int(line) and (best is None or f["l"] > best["l"]):
            best = f
    return best["q"] if best else file


run.explanation = ("All paths of every function that writes files are enumerated over the outcomes of each operation (open, write, flush, close, C file calls, copy, rename, remove, create); "
                   "a path on which one of them failed and which still ends normally is a violation.")
