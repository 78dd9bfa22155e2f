"""C28: both ways of filling a derivative matrix give the same matrix."""
import itertools
from objs import *

TECHNIQUE = ("abstract interpretation of both matrix handlers, in both orientations, on all short sequences of entries with symbolic values, on fresh and on already filled matrices (a model of the sparse matrix's "
             "stored coefficients that keeps the unused room an insertion leaves); the matrices are compared with the sums of the delivered entries")
NOTE = "2x3 and 3x3 matrices, up to four entries in the quick tier's generations (repeated places included), up to three generations of refilling with changing patterns."
TRI, REF_ = "Aux::Triplethandler", "Aux::Coeffrefhandler"


def handlers(P):
    """class names by (kind, transposed)"""
    out = {}
    for f in P.functions.values():
        if f.get("ctor") and f["b"] is not None and f.get("rc", "").startswith((TRI, REF_)):
            a = f["rc"].split("<", 1)[1].rstrip(">") if "<" in f["rc"] else ""
            out[TRI if f["rc"].startswith(TRI) else REF_, a not in ("", "0", "false", "Aux::Regular")] = f
    return out


def member(I, o, name, *args):
    f = next((f for b in I.H.bases(o.cls) for f in I.P.functions.values() if f["n"] == name and f.get("rc") == b and f["b"] is not None), None)
    if f is None:
        raise Unmodelled("%s::%s" % (o.cls, name))
    return I.call(f, o, list(args))


def fill(I, hs, kind, transposed, m, entries):
    f = hs[kind, transposed]
    h = Obj(f["rc"])
    I.call(f, h, [Cell(m)])
    for i, j, v in entries:
        member(I, h, "add_to_coefficient", i, j, v)
    member(I, h, "set_matrix")


def wanted(entries, transposed):
    d = {}
    for i, j, v in entries:
        k = (j, i) if transposed else (i, j)
        d[k] = add(d.get(k, num(0)), v)
    return d


def compare(m, want):
    for k in set(m.d) | set(want):
        a, b = tt(m.d.get(k, num(0))), want.get(k, num(0))
        if a is not b and not equal(a, b):
            return "entry %s is %s instead of %s" % (k, show(a), show(b))


def run(ctx):
    hs = handlers(ctx.P)
    ctx.need(len(hs) == 4, "matrix handlers not found: %s" % sorted(hs))
    wh = {k: at(ctx, f["q"]) for k, f in hs.items()}
    jobs = []
    places = [(i, j) for i in range(2) for j in range(3)]
    n = 4 if ctx.thorough else 3
    for t in (False, True):
        for kind in (TRI, REF_):
            for k in range(0, n + 1):
                seqs = list(itertools.product(places, repeat=k)) if k < 3 or ctx.thorough else [s for s in itertools.product(places[:3] + places[4:5], repeat=k)]
                for c in chunks(seqs, 40):
                    jobs.append(job(ctx, hs, kind, t, c, wh[kind, t]))
        small = [(0, 0), (1, 0), (1, 1), (2, 2), (0, 2)]
        subsets = [s for k in range(0, 4) for s in itertools.combinations(small, k)]
        for c in chunks([(a, b) for a in subsets for b in subsets], 60):
            jobs.append(generations(hs, t, c, wh[REF_, t]))
    for kind in (TRI, REF_):
        jobs.append(outside(hs, kind, wh[kind, False]))
    prove_all(ctx, jobs)
    ctx.floor("entries-add-up", 8), ctx.floor("refilled-from-zero", 4)


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def named(places, g):
    return [(i, j, mk("sym", "%s%d" % (g, k))) for k, (i, j) in enumerate(places)]


def job(ctx, hs, kind, t, seqs, where):
    def go(I):
        for s in seqs:
            m = Sp(3, 2) if t else Sp(2, 3)
            e = named(s, "v")
            if kind == REF_:
                # the matrix to be refilled holds values from before at some of the places
                for i, j in ((0, 0), (1, 1), (1, 2)):
                    m.d[(j, i) if t else (i, j)] = mk("sym", "old%d%d" % (i, j))
            fill(I, hs, kind, t, m, e)
            r = compare(m, wanted(e, t))
            if r:
                return "entries at %s: %s" % (list(s), r)

    def judge(o):
        return said(o) if o.kind != "ok" else o.value
    return ("entries-add-up", "%s%s, %d sequences from %s" % (kind.split("::")[1], ", transposed" if t else "", len(seqs), list(seqs[0])), go, judge, where, "%s %s" % (kind, t))


def generations(hs, t, pairs, where):
    """built once, then refilled twice with other places"""
    def go(I):
        for a, b in pairs:
            m = Sp(3, 3)
            for g, (kind, s) in enumerate(((TRI, a), (REF_, b), (REF_, a), (REF_, tuple(reversed(b))))):
                e = named(s, "g%d_" % g)
                fill(I, hs, kind, t, m, e)
                r = compare(m, wanted(e, t))
                if r:
                    return "built with entries at %s, then refilled at %s and so on: after filling %d %s" % (list(a), list(b), g + 1, r)

    def judge(o):
        return said(o) if o.kind != "ok" else o.value
    return ("refilled-from-zero", "%s, %d pairs from %s" % ("transposed" if t else "regular", len(pairs), list(pairs[0])), go, judge, where, "refill %s" % t)


def outside(hs, kind, where):
    def go(I):
        out = []
        for t in (False, True):
            for i, j in ((1, 2), (0, 2), (1, 0)):
                m = Sp(3, 2) if t else Sp(2, 3)
                fill(I, hs, kind, t, m, named([(i, j)], "v"))
                out.append(m)

    def judge(o):
        return said(o) if o.kind != "ok" else None
    return ("entries-add-up", "%s, corners of matrices that are not square" % kind.split("::")[1], go, judge, where, "%s corners" % kind)


run.explanation = ("Each handler is interpreted with one symbol per delivered entry; the matrix must hold, at every place, the sum of the entries delivered to it (rows and columns exchanged for the transposed variant) and nothing left from before.")
