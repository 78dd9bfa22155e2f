"""C06: optimizer answers belong to the controls they were asked for."""
import itertools
from optworld import *

TECHNIQUE = ("abstract interpretation of the optimizer, its state cache and the Ipopt wrapper over all short sequences of requests, with free symbols for the model, "
             "simulations that may fail (leaving partly filled states) and factorizations and solves that may fail; every answer is compared with the answer of a fresh optimizer to the same request")
NOTE = ("Sequences of up to three requests (four in the thorough tier) over two sets of controls, every kind of request, honest and over-cautious new_x flags, one failure anywhere; "
        "three state times, two control times, two constraint times, one state, control and constraint each (two in the thorough tier). The Ipopt library itself, which sets new_x, is trusted to set it when the controls change.")
KINDS = ("f", "grad_f", "g", "jac_g")
T_, C, G = (0, 1, 2), (0, 2), (1, 2)


def same(a, b):
    return len(a) == len(b) and all(x is y or show(x) == show(y) or equal(x, y) for x, y in zip(a, b))


def run(ctx):
    base = {}
    wh = {k: at(ctx, "%s::eval_%s" % (WRAP, k)) for k in KINDS}
    for k in KINDS:
        for u in "ab":
            fresh(ctx, base, k, u, wh[k])
    sequences(ctx, base, wh)
    final(ctx, base)
    for r, n in (("fresh-answer", 8), ("answer-after-history", 90), ("failure-is-no-success", 40), ("final-values", 6)):
        ctx.floor(r, n)


def foreign(w, u, values):
    """a symbol in the values that does not belong to these controls"""
    own = ",".join("%s%d_0" % (u, k) for k in range(len(C)))
    for v in values:
        for x in subterms(v):
            if x.op != "sym":
                continue
            n = x.args[0]
            if n.startswith("unset"):
                return "an entry is left unset"
            if "!failed" in n:
                return "uses the states of a failed simulation: %s" % n[:80]
            for other in "ab":
                if other != u and any(y in n for y in ("@%s0" % other, ";%s0_" % other, ";%s1_" % other, "*%s0_" % other, "*%s1_" % other)):
                    return "uses %s" % n[:80]
    return None


def fresh(ctx, base, k, u, where):
    def go(I):
        w = OptWorld(I, T_, C, G)
        w.wrap()
        ok, v = w.request(k, w.controls(u), True)
        return w, ok, v

    def judge(o):
        if o.kind != "ok":
            return said(o)
        w, ok, v = o.value
        if ok is not True:
            return "is answered with failure although nothing failed"
        if [tuple(show(x) for x in s) for s, _ in w.sims] != [tuple(show(x) for x in w.controls(u))] * len(w.sims) or not w.sims:
            return "simulates %s" % [[show(x) for x in s] for s, _ in w.sims]
        f = foreign(w, u, v)
        if f:
            return f
        base[k, u] = v
    prove(ctx, "fresh-answer", "%s of controls %s" % (k, u), go, judge, where, key=k)


def plans(ctx):
    """(sequence of (kind, controls), flags honest?, simulation outcomes, failing factorization or solve)"""
    def outcomes(n):
        yield (), None
        for i in range(n):
            yield tuple(j != i for j in range(i + 1)), None
        yield (False,) * n, None
        for what in ("factorize", "solve"):
            for j in (0, 1, 2, 3):
                yield (), (what, j)
    two = list(itertools.product(itertools.product(KINDS, "ab"), repeat=2))
    two = [s for s in two if s[0][1] == "a"]
    for s in two:
        for out, lu in outcomes(2):
            if lu and not any(k in ("grad_f", "jac_g") for k, _ in s):
                continue
            yield s, True, out, lu
    for us in ("aaa", "aba", "abb", "aab"):
        for ks in itertools.product(KINDS, repeat=3):
            s = tuple(zip(ks, us))
            if ctx.thorough:
                for out, lu in outcomes(3):
                    if lu and not any(k in ("grad_f", "jac_g") for k in ks):
                        continue
                    yield s, True, out, lu
                yield s, False, (), None
            elif us in ("aba", "aab"):
                yield s, True, (), None
                if len(set(ks)) == 3:
                    yield s, True, (True, False), None
                    yield s, True, (False, True), None
    for ks in itertools.product(KINDS, repeat=2):
        yield tuple(zip(ks, "aa")), False, (), None
        yield tuple(zip(ks, "aa")), False, (True, False), None
    if ctx.thorough:
        for ks in itertools.product(KINDS, repeat=4):
            yield tuple(zip(ks, "abab")), True, (), None


def sequences(ctx, base, wh):
    prove_all(ctx, [sequence(ctx, base, wh, *p) for p in plans(ctx)])


def sequence(ctx, base, wh, s, honest, out, lu):
    def go(I):
        w = OptWorld(I, T_, C, G, outcomes=out, lu=lu)
        w.wrap()
        log, last = [], None
        for k, u in s:
            n = len(w.sims)
            before = w.lu_failed()
            r = w.request(k, w.controls(u), True if not honest else u != last)
            log.append((k, u, r, w.sims[n:], w.lu_failed() and not before))
            last = u
        return w, log
    text = ", ".join("%s(%s)" % x for x in s) + ("" if honest else ", always new") + (", simulations %s" % ["fails", "works"][out[0]] + "".join("/" + ("fails", "works")[x] for x in out[1:]) if out else "") + \
        (", %s %d fails" % (lu[0], lu[1]) if lu else "")
    bad = bool(lu) or not all(out)
    
    def judge(o):
        if o.kind != "ok":
            return said(o)
        w, log = o.value
        good = set()
        for i, (k, u, (ok, v), sims, lufail) in enumerate(log):
            if ok is True:
                if any(not x for _, x in sims):
                    return "request %d (%s) succeeds although its simulation failed" % (i + 1, k)
                if lufail:
                    return "request %d (%s) succeeds although a %s failed" % (i + 1, k, lu[0])
                f = foreign(w, u, v)
                if f:
                    return "request %d (%s of %s) %s" % (i + 1, k, u, f)
                if (k, u) in base and not same(v, base[k, u]):
                    j = next((j for j, (x, y) in enumerate(zip(v, base[k, u])) if not same([x], [y])), 0)
                    return "the answer to request %d (%s of %s) is not the one of these controls: entry %d is %s instead of %s" % (
                        i + 1, k, u, j, show(v[j])[:150] if j < len(v) else "missing", show(base[k, u][j])[:150] if j < len(base[k, u]) else "none")
            elif ok is not False:
                return "request %d gives %r" % (i + 1, ok)
    return ("failure-is-no-success" if bad else "answer-after-history", text, go, judge, wh[s[-1][0]], "%s|%s" % (s[-1][0], "fails" if bad else "history"))
    
    
def final(ctx, base):
    """the values reported with the solution are those of the solution"""
    q = WRAP + "::finalize_solution"
    where = at(ctx, q)
    f = next((f for f in ctx.P.functions.values() if f["q"] == q and f["b"] is not None), None)
    ctx.need(f is not None, "%s not found" % q)
    for before in ("", "a", "b", "ab"):
        for out in ((), (False,) if not before else (True,) * len(before) + (False,)):
            def go(I):
                w = OptWorld(I, T_, C, G, outcomes=out)
                w.wrap()
                for u in before:
                    w.request("f", w.controls(u), True)
                n, m, nnz = w.size()
                sol = np.array(w.controls("a") + [None], dtype=object)[:n]
                g = np.array([mk("sym", "gsol%d" % i) for i in range(m)] + [None], dtype=object)[:m]
                args = []
                doubles = 0
                for p in f["p"]:
                    t = p["t"]
                    if "SolverReturn" in t:
                        args.append(0)
                    elif p["n"] in ("x", "g"):
                        args.append(PArr(sol if p["n"] == "x" else g, 0))
                    elif t.replace("const ", "").startswith(("int", "Ipopt::Index")):
                        args.append(n if doubles == 0 else m)
                        doubles += 1
                    elif "*" in t:
                        args.append(None)
                    else:
                        args.append(mk("sym", "objective"))
                I.call(f, w.w, args)
                get = lambda n: w.method("get_best_" + n, cls=WRAP, obj=w.w)
                c, p = tt(get("cost_value")), tt(get("penalty_value"))
                return w, c, p, [tt(x) for x in get("solution").a.flat], tt(get("objective_value")), [tt(x) for x in get("constraints").a.flat]

            def judge(o):
                if o.kind != "ok":
                    return said(o)
                w, c, p, sol, obj, con = o.value
                if [show(x) for x in sol] != [show(x) for x in w.controls("a")]:
                    return "the reported solution is %s" % [show(x) for x in sol]
                if show(obj) != "objective":
                    return "the reported objective is %s" % show(obj)
                if [show(x) for x in con] != ["gsol%d" % i for i in range(len(con))]:
                    return "the reported constraints are %s" % [show(x) for x in con]
                if out and not out[-1]:
                    # the simulation at the solution fails where it is repeated: no value may be reported
                    if w.sims and not w.sims[-1][1] and any(x.op == "num" for x in (c, p)):
                        return "cost and penalty are reported as %s, %s although the simulation failed" % (show(c), show(p))
                    return foreign(w, "a", [c, p])
                f_ = foreign(w, "a", [c, p])
                if f_:
                    return "the reported cost and penalty: %s" % f_
                if ("f", "a") in base and not same([add(c, p)], base["f", "a"]):
                    return "reported cost and penalty do not add up to the objective of the solution: %s + %s" % (show(c)[:100], show(p)[:100])
            prove(ctx, "final-values", "after %s%s" % (",".join(before) or "nothing", ", simulation fails" if out else ""), go, judge, where, key="final")


run.explanation = ("The Ipopt wrapper, the implicit optimizer and its state cache are interpreted on sequences of requests; an answer counts as right if it is, symbol by symbol, the answer a fresh optimizer "
                   "gives to the same request, and no request during which a simulation, factorization or solve failed may succeed.")
