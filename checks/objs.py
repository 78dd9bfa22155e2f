"""Shared: the network's objects on the shape engine."""
from shape import *


def interp(ctx, known=None):
    I = Interp(ctx.P, ctx.H, known)
    I.ctx = ctx
    return I


def ctor(P, cls, n=None):
    fs = [f for f in P.functions.values() if f.get("ctor") and f.get("rc") == cls and f["b"] is not None and not f.get("copy") and (n is None or len(f["p"]) == n)]
    fs = [f for f in fs if not (len(f["p"]) == 1 and base_t(f["p"][0]["t"]) == cls)]
    if len(fs) != 1:
        raise AnalysisBroken("%s: %d constructors" % (cls, len(fs)))
    return fs[0]


def new(I, cls, *args):
    o = Obj(cls)
    I.call(ctor(I.P, cls, len(args)), o, args)
    return o


def ups(objs):
    return Vec([Cell(UP(Ptr(Cell(o)))) for o in objs])


def target(p):
    """object behind a pointer, None for null"""
    if isinstance(p, Ref):
        p = p.get()
    if isinstance(p, UP):
        p = p.p
    if p is None:
        return None
    if isinstance(p, Ptr):
        return p.r.get()
    raise Unmodelled("pointer expected: %r" % (p,))


def val(r):
    return r.get() if isinstance(r, Ref) else r


def plist(v):
    if isinstance(v, Ref):
        v = v.get()
    return [target(c) for c in v.l]


def at(ctx, q):
    f = next((f for f in ctx.P.functions.values() if f["q"] == q and f["b"] is not None), None)
    return "%s:%d" % (f["file"], f["l"]) if f else q


def decide(ctx, go, judge, limit=400, setup=None):
    """(number of paths, what is wrong, what could not be followed, functions)"""
    n, bad, lost, units = 0, None, None, set()

    def make(known):
        I = interp(ctx, known)
        if setup:
            setup(I)
        return I, lambda: go(I)
    try:
        for o in explore(make, limit):
            n += 1
            units |= o.I.units
            if o.kind == "unmodelled":
                lost = lost or str(o.value)
                continue
            try:
                w = judge(o)
            except (Unmodelled, UB, Thrown) as x:
                lost = lost or "result not understood: %s" % (x,)
                continue
            if w:
                bad = w
                break
    except Unmodelled as u:
        lost = str(u)
    return n, bad, lost, units


def conclude(ctx, rule, inst, where, key, res):
    n, bad, lost, units = res
    ctx.units |= units
    if bad is not None:
        return ctx.ob(rule, inst, False, where, bad, key=key or inst)
    if lost is not None:
        return ctx.ob(rule, inst, False, where, lost, key=key or inst, terms=(mk("unknown", lost),))
    if n == 0:
        return None
    return ctx.ob(rule, inst, True, where)


def prove(ctx, rule, inst, go, judge, where, key=None, limit=400, setup=None):
    """go(I) -> value on every path; judge(outcome) -> None if fine, else what is wrong.
    A path that could not be followed makes the obligation undecided."""
    return conclude(ctx, rule, inst, where, key, decide(ctx, go, judge, limit, setup))


def prove_all(ctx, jobs):
    """jobs: (rule, inst, go, judge, where, key), independent of each other; spread over the processors"""
    import os, pickle, tempfile, traceback
    jobs = list(jobs)
    k = max(1, min(8, os.cpu_count() or 1, len(jobs) // 4))
    if k == 1:
        for j in jobs:
            prove(ctx, *j)
        return
    files, pids = [], []
    for i in range(k):
        fd, name = tempfile.mkstemp(prefix="grazer-check-")
        os.close(fd)
        files.append(name)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                out = [(j, decide(ctx, jobs[j][2], jobs[j][3])) for j in range(i, len(jobs), k)]
                with open(name, "wb") as h:
                    pickle.dump(out, h)
                code = 0
            except AnalysisBroken as x:
                with open(name, "wb") as h:
                    pickle.dump(str(x), h)
                code = 3
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        pids.append(pid)
    res, broken = {}, None
    for pid, name in zip(pids, files):
        _, st = os.waitpid(pid, 0)
        try:
            with open(name, "rb") as h:
                d = pickle.load(h)
        except (EOFError, pickle.UnpicklingError):
            d = "an analysis process failed (%s)" % st
        os.unlink(name)
        if isinstance(d, str):
            broken = d
        else:
            res.update(dict(d))
    if broken:
        raise AnalysisBroken(broken)
    for i, j in enumerate(jobs):
        conclude(ctx, j[0], j[1], j[4], j[5], res[i])


def said(o):
    """outcome in words"""
    if o.kind == "throw":
        return "exception %s" % o.value.cls
    if o.kind == "ub":
        return "undefined behaviour: %s" % o.value
    return "normal return"
