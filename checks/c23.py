"""C23: the constraint Jacobian's structure matches its storage."""
import itertools
from optworld import *

TECHNIQUE = ("abstract interpretation of the constraint Jacobian on all small time grids with symbolic entries: announced count, index lists, column blocks, the dense copy, assignment between owned and mapped storage, "
             "and the wrapper's requests are compared with each other and with the set of control-constraint pairs that can influence each other")
NOTE = "All constraint and control grids on up to six points (seven in the thorough tier) with up to three constraints and controls per time; storage exactly as large as announced, so any access beyond it is seen."
CJ, MJ = "Optimization::ConstraintJacobian", "Optimization::MappedConstraintJacobian"
BASE = "Optimization::ConstraintJacobian_Base"


def grids(thorough):
    top = 5 if thorough else 4
    for n in range(1, top + 1):
        for G in itertools.combinations(range(1, top + 1), n):
            for m in range(1, top + 3):
                for C in itertools.combinations((-1,) + tuple(range(0, top + 2)), m):
                    if C[0] > 0 or C[-1] < G[-1]:
                        continue
                    if not thorough and len(C) not in (2, 3, 4, 5):
                        continue
                    yield G, C


def run(ctx):
    w = at(ctx, BASE + "::supply_indices")
    jobs, k = [], 0
    all_ = list(grids(ctx.thorough))
    sizes = ((1, 1), (2, 1), (1, 2), (2, 3), (3, 2))
    # grids that put the blocks in the same places are grouped; every group meets every block size
    seen = {}
    # spacings other than one
    odd = lambda t: Fr(t) if t <= 0 else Fr((0, Fr(1, 3), Fr(5, 12), 2, Fr(17, 8), 6, 7, 8)[t])
    all_ = [(tuple(map(odd, G)), tuple(map(odd, C))) if k % 2 else (G, C) for k, (G, C) in enumerate(all_)]
    for G, C in all_:
        s = tuple(tuple(g > c for c in C) for g in G)
        t = seen.setdefault(s, 0)
        if t < len(sizes) or ctx.thorough:
            jobs.append((G, C) + sizes[t % len(sizes)])
        seen[s] += 1
    # constraint times just after, at and just before control times
    for e in (Fr(1, 40), Fr(1, 300), Fr(1, 10 ** 5), Fr(1, 10 ** 7), Fr(1, 10 ** 10)):
        for G, C in (((1 + e, 2), (0, 1, 2)), ((1 - e, 2), (0, 1, 2)), ((1, 2), (0, 1 + e, 2)), ((1, 2), (0, 1 - e, 2)), ((1 - e, 1, 1 + e, 2), (0, 1, 2)), ((1, 2, 3), (0, 1 - e, 1, 1 + e, 3)), ((2 * e, 1), (0, e, 1)), ((1, 1 + e), (0, 1, 1 + e))):
            for s in sizes[:5 if ctx.thorough else 2]:
                jobs.append((tuple(map(Fr, G)), tuple(map(Fr, C))) + s)
    for G, C in (((1, 2), (0, 2)), ((2,), (0, 1, 3)), ((1, 3, 4), (0, 1, 3, 4))):
        for s in sizes:
            jobs.append((G, C) + s)
    prove_all(ctx, [job(j, w) for j in chunks(list(dict.fromkeys(jobs)), 12)])
    ww = at(ctx, WRAP + "::eval_jac_g")
    prove_all(ctx, [wrapper(T_, C, G, n, ww) for T_ in ((0, 1, 3, 4), (0, 1), (0, 2, 3)) for C in ((0, T_[-1]), T_, (0, 2, 5), (-1, 1, 2, 7)) for G in (T_[1:], T_[-1:], T_[1:2]) for n in ((1, 1), (2, 1), (1, 2))])
    prove_all(ctx, [different(a, b, at(ctx, BASE + "::assignment_helper")) for a, b in (
        (((1, 2), (0, 2), 1, 1), ((1, 2), (0, 2), 2, 1)), (((1, 2), (0, 2), 1, 1), ((1, 2), (0, 2), 1, 2)), (((1, 2), (0, 2), 1, 1), ((1, 2), (0, 1, 2), 1, 1)),
        (((1, 2, 3), (0, 1, 3, 4), 1, 1), ((1, 2, 3), (0, 2, Fr(5, 2), 4), 1, 1)), (((1, 2, 3), (0, 1, 3), 1, 1), ((1, 2, 3), (0, 2, 3), 1, 1)), (((1, 2), (0, 2), 1, 2), ((1, 2), (0, 2), 2, 1)), (((2,), (0, 2), 1, 1), ((1, 2), (0, 2), 1, 1)))])
    ctx.floor("one-matrix", 20), ctx.floor("as-announced", 20), ctx.floor("different-structures", 3)


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def jacobian(I, G, C, h, w):
    f = next(f for f in I.P.functions.values() if f.get("ctor") and f.get("rc") == CJ and f["b"] is not None and len(f["p"]) == 4)
    o = Obj(CJ)
    I.call(f, o, [h, w, Cell(vec([num(x) for x in G])), Cell(vec([num(x) for x in C]))])
    return o


def mapped(I, G, C, h, w, n):
    f = next(f for f in I.P.functions.values() if f.get("ctor") and f.get("rc") == MJ and f["b"] is not None and len(f["p"]) == 6)
    o, store = Obj(MJ), PArr(np.array([mk("sym", "m%d" % i) for i in range(n)] + [None], dtype=object)[:n], 0)
    I.call(f, o, [store, n, h, w, Cell(vec([num(x) for x in G])), Cell(vec([num(x) for x in C]))])
    return o, store


def member(I, o, name, *args, q=None):
    fs = [f for b in I.H.bases(o.cls) for f in I.P.functions.values() if f["n"] == name and f.get("rc") == b and f["b"] is not None and len(f["p"]) == len(args)]
    if q:
        fs = [f for f in fs if q(f)]
    if not fs:
        raise AnalysisBroken("%s::%s not found" % (o.cls, name))
    return I.call(fs[0], o, list(args))


def assign(I, o, p):
    fs = [f for f in I.P.functions.values() if f["n"] == "operator=" and f.get("rc") == o.cls and f["b"] is not None and f["p"][0]["t"].replace("const", "").replace("&", "").strip().split("::")[-1] == p.cls.split("::")[-1]]
    if not fs:
        raise Unmodelled("assignment of %s to %s" % (p.cls, o.cls))
    I.call(fs[0], o, [Cell(p)])


def column(t):
    return [show(tt(x)) for x in val(t).a.flat]


def job(group, where):
    def one(I, G, C, h, w):
        o = jacobian(I, G, C, h, w)
        n = as_int(member(I, o, "nonZeros"))
        R, K = len(G) * h, len(C) * w
        s = ["s%d" % i for i in range(n)]
        all_ = val(member(I, o, "allvalues"))
        if all_.a.size != n:
            return "%d entries are announced, %d stored" % (n, all_.a.size)
        for i in range(n):
            all_.a[i, 0] = mk("sym", s[i])
        idx = [Mat(np.full((n, 1), None, dtype=object), True) for _ in range(2)]
        member(I, o, "supply_indices", Cell(idx[0]), Cell(idx[1]))
        try:
            rows, cols = [[as_int(x) for x in m.a.flat] for m in idx]
        except (TypeError, AttributeError):
            return "an index is left unset"
        if any(not 0 <= r < R for r in rows) or any(not 0 <= c < K for c in cols):
            return "an entry lies outside the %dx%d matrix" % (R, K)
        places = list(zip(rows, cols))
        if len(set(places)) != n:
            return "an entry is listed twice"
        for k, c in enumerate(C):
            for l, g in enumerate(G):
                if k == 0 or g > C[k - 1]:
                    for i in range(h):
                        for j in range(w):
                            if (l * h + i, k * w + j) not in set(places):
                                return "control time %s influences the constraint at %s, but the entry is left out" % (c, g)
        whole = val(member(I, o, "whole_matrix"))
        if whole.a.shape != (R, K):
            return "the matrix is %s instead of %s" % (whole.a.shape, (R, K))
        at_ = {p: mk("sym", y) for p, y in zip(places, s)}
        for i in range(R):
            for j in range(K):
                if tt(whole.a[i, j]) is not at_.get((i, j), num(0)):
                    return "entry (%d, %d) is %s in the whole matrix, %s by the index lists" % (i, j, show(tt(whole.a[i, j])), show(at_.get((i, j), num(0))))
        for const in (True, False):
            for k in range(len(C)):
                b = val(member(I, o, "get_column_block", k, q=lambda f: bool(f.get("mc")) == const)).a
                want = [[at_.get((i, k * w + j)) for j in range(w)] for i in range(R)]
                want = [r for r in want if r[0] is not None]
                if [[show(tt(x)) for x in r] for r in b] != [[show(x) for x in r] for r in want]:
                    return "column block %d holds %s instead of %s" % (k, [[show(tt(x)) for x in r] for r in b], [[show(x) for x in r] for r in want])
        m, store = mapped(I, G, C, h, w, n)
        assign(I, m, o)
        if [show(tt(x)) for x in store.a] != s:
            return "assigned to mapped storage the entries are %s" % [show(tt(x)) for x in store.a]
        other, second = jacobian(I, G, C, h, w), PArr(np.array([mk("sym", "t%d" % i) for i in range(n)] + [None], dtype=object)[:n], 0)
        member(I, m, "replace_storage", second, n)
        assign(I, other, m)
        if column(member(I, other, "allvalues")) != ["t%d" % i for i in range(n)] or [show(tt(x)) for x in store.a] != s:
            return "after the storage is replaced the entries are %s" % column(member(I, other, "allvalues"))
        member(I, m, "setZero")
        if [show(tt(x)) for x in second.a] != ["0"] * n:
            return "setZero leaves %s" % [show(tt(x)) for x in second.a]

    def go(I):
        for g in group:
            r = one(I, *g)
            if r:
                return "constraints at %s, controls at %s, %d constraint(s), %d control(s): %s" % (g + (r,))

    def judge(o):
        return said(o) if o.kind != "ok" else o.value
    return ("one-matrix", "%d grids from constraints at %s, controls at %s, %d constraint(s), %d control(s)" % ((len(group),) + group[0]), go, judge, where, "structure")


def wrapper(T_, C, G, n, where):
    def go(I):
        w = OptWorld(I, T_, C, G, 1, n[0], n[1])
        w.wrap()
        size = w.size()
        return w, size, w.structure(), w.request("jac_g", w.controls("a"), True)

    def judge(o):
        if o.kind != "ok":
            return said(o)
        w, size, (ok, r, c), (okv, v) = o.value
        if ok is not True or okv is not True:
            return "a request fails although nothing failed"
        if size[:2] != [len(C) * n[0], len(G) * n[1]]:
            return "%d controls and %d constraints are announced" % tuple(size[:2])
        if any(not 0 <= i < size[1] for i in r) or any(not 0 <= j < size[0] for j in c):
            return "an entry lies outside the matrix"
        if len(set(zip(r, c))) != size[2]:
            return "an entry is listed twice"
        if any(show(x).startswith("unset") for x in v):
            return "an announced entry is not given a value"
    return ("as-announced", "states at %s, controls at %s, constraints at %s, %d control(s), %d constraint(s)" % ((T_, C, G) + n), go, judge, where, "wrapper")


def different(a, b, where):
    def go(I):
        o, p = jacobian(I, *a), jacobian(I, *b)
        m, _ = mapped(I, *b, as_int(member(I, p, "nonZeros")))
        k = as_int(member(I, o, "nonZeros"))
        for x in (o, p):
            member(I, x, "setZero")
        assign(I, m, o)
        return k

    def judge(o):
        return None if o.kind == "throw" else "%s when a matrix of another structure is assigned" % said(o)
    return ("different-structures", "%s := %s" % (b, a), go, judge, where, "assignment")


run.explanation = ("Each grid's Jacobian is built by the interpreted constructors, its storage filled with one symbol per entry; index lists, whole matrix, column blocks and copies must place each symbol alike, "
                   "and every pair of a constraint time and a control time that can influence it must have an entry.")
