"""C39: the objective is the time integral of the costs; constraints are those of the simulated states."""
from optworld import *
import comptypes
import c07
import c36

TECHNIQUE = ("abstract interpretation of the optimizer with symbolic controls and opaque costs, penalties, constraints and simulated states: the values handed to Ipopt are compared, as rational expressions, "
             "with the trapezoidal rule over the state times and with the constraints at the constraint times; the cost of a compressor is compared with its definition")
NOTE = ("Grids as in C07: two to six state times, control times finer than, equal to, coarser than, offset from and close to them, every placement of constraint times. What the costs of the network's components add up to is C09's subject.")


def run(ctx):
    wh = {"f": at(ctx, IO + "::evaluate_objective"), "g": at(ctx, IO + "::evaluate_constraints")}
    jobs = []
    for g in c07.grids(ctx.thorough):
        jobs += [job(k, g, wh[k]) for k in ("f", "g") if k == "f" or g[5]]
    prove_all(ctx, jobs)
    compressor(ctx)
    ctx.floor("objective", 40), ctx.floor("constraints", 40), ctx.floor("compressor-cost", 2)


def weight(T_, k):
    return (Fr(T_[min(k + 1, len(T_) - 1)]) - Fr(T_[k - 1])) / 2


def job(k, g, where):
    T_, C, G, nx, nu, ng = g

    def go(I):
        w = OptWorld(I, T_, C, G, nx, nu, ng)
        w.wrap()
        u = w.controls("a")
        return w, u, w.request(k, u, True)

    def judge(o):
        if o.kind != "ok":
            return said(o)
        w, u, (ok, f) = o.value
        if ok is not True:
            return "the request fails although nothing failed"
        R = c07.Reference(w, u)
        place = lambda i: (tname(num(Fr(T_[i]))), tuple(w.state(i, j, tuple(u)) for j in range(nx)), tuple(R.interpolated(T_[i])))
        if k == "f":
            want = [add(*[scale(weight(T_, i), add(w.value("cost", place(i)), w.value("penalty", place(i)))) for i in range(1, len(T_))])]
        else:
            want = [w.value("g%d" % j, place(T_.index(t))) for t in G for j in range(ng)]
        if len(f) != len(want):
            return "%d values instead of %d" % (len(f), len(want))
        F = c07.Field()
        for i, (a, b) in enumerate(zip(f, want)):
            try:
                if not F.same(a, b):
                    return "%s is %s instead of %s" % ("the objective" if k == "f" else "constraint %d at time %s" % (i % ng, G[i // ng]), show(a)[:300], show(b)[:300])
            except c07.NoValue as x:
                raise Unmodelled("value of %s" % x)
    return ("objective" if k == "f" else "constraints", "states at %s, controls at %s, constraints at %s; %d state(s), %d control(s), %d constraint(s)" % tuple(g), go, judge, where, k)


def compressor(ctx):
    """a positive multiple of the square of the control; no penalty"""
    cls = "Model::Gas::Compressorstation"
    for name in ("evaluate_cost", "evaluate_penalty"):
        def go(I):
            c36.calm(I)
            e = new(I, cls, Cell(to_j({"id": "s", "from": "a", "to": "b"})), Cell(ups(c36.ends(I))))
            n = as_int(comptypes.method(I, e, "set_state_indices", 1))
            c = as_int(comptypes.method(I, e, "set_control_indices", 2))
            if c != 3:
                return None
            return tt(val(comptypes.method(I, e, name, mk("sym", "t"), Cell(c36.vec("x", n + 2)), Cell(c36.vec("u", 4)))))

        def judge(o):
            if o.kind != "ok":
                return said(o)
            if o.value is None:
                return "a compressor has not one control"
            u = mk("sym", "u2")
            if name == "evaluate_penalty":
                return None if is_zero(o.value)[0] else "%s instead of 0" % show(o.value)[:200]
            k = canon(div(o.value, mul(u, u)))
            if k.op != "num" or k.args[0] <= 0:
                return "%s is no positive multiple of the square of the control" % show(o.value)[:200]
        prove(ctx, "compressor-cost", name, go, judge, at(ctx, cls + "::" + name), key=name)


run.explanation = ("Objective and constraints are requested from the interpreted optimizer for symbolic controls on every grid; cost, penalty and constraint values are opaque functions of time, state and controls, so the expression handed over "
                   "shows which were asked for, where, and with which weights.")
