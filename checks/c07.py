"""C07: objective gradient and constraint Jacobian are the exact derivatives of what is evaluated."""
import itertools
from optworld import *
from modp import Field, NoValue

TECHNIQUE = ("abstract interpretation of the optimizer with free symbols for the model's values and derivatives: the gradient and the Jacobian it hands to Ipopt are compared, as rational expressions, "
             "with the chain rule applied to the objective and constraints it hands to Ipopt (states differentiated through the model's step equations)")
NOTE = ("Grids of two to six state times with control times finer than, equal to, coarser than and offset from them and every placement of the constraint times, one and two states, controls and constraints per time. "
        "The equality of two rational expressions is decided in a prime field of 127 bits. The model's own derivatives are the subject of C01, C02 and C03.")


def grids(thorough):
    """(state, control, constraint times), numbers per time"""
    T4 = (0, 1, 3, 4)
    out = []
    for C in ((0, 4), (0, 2, 4), (0, 1, 3, 4), (0, 3, 4), (0, 2, 3, 5), (-1, 2, 4), (0, 1, 2, 3, 4), (-2, -1, 5)):
        for n in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2)):
            for G in ((1, 3, 4), (4,)) if n != (1, 1, 1) else ((1, 3, 4), (4,), (1,), (3,), (1, 4), (1, 3), (3, 4)):
                out.append((T4, C, G) + n)
    for T_ in ((0, 1), (0, 2, 3), (0, 1, 2, 4, 7), (0, 1, 2, 3, 4, 5)):
        for C in ((0, T_[-1]), T_, (0, 2, T_[-1] + 1) if T_[-1] > 1 else (0, 2)):
            for G in (T_[1:], (T_[-1],), (T_[1],), (T_[-2],) if len(T_) > 2 else (T_[1],)):
                out.append((T_, C, G, 1, 1, 1))
    out += [(T4, (0, 2, 4), (1, 4), 2, 2, 2), ((0, 2, 3), (0, 3), (2, 3), 2, 2, 2), ((0, 2, 3), (0, 1, 4), (3,), 2, 2, 1)]
    out += [(T4, (0, 2, 4), (1, 4), 1, 1, 0), (T4, (0, 2, 4), (3, 4), 2, 2, 0)]
    h = Fr(1, 3)
    out += [((0, h, 2 * h, 4, 7), (0, h, 5, 9), (2 * h, 7), 1, 1, 1), ((0, h, 2 * h, 4, 7), (-h, Fr(1, 2), 7), (h, 4), 1, 2, 2)]
    # control times just before and just after state times
    for e in (Fr(1, 40), Fr(1, 300), Fr(1, 10 ** 5), Fr(1, 10 ** 7)):
        for s in (e, -e):
            out += [((0, 1, 2, 3), (0, 1 + s, 2 - s, 3), (1, 3), 1, 1, 1), ((0, 1, 2), (-e, 1 + s, 2 + e), (1, 2), 1, 2, 1), ((0, 1, 2), (0, 2 * e, 2), (1, 2), 1, 1, 1)]
    if thorough:
        for T_ in (T4, (0, 1, 2, 3, 5)):
            for k in range(1, len(T_)):
                for G in itertools.combinations(T_[1:], k):
                    for C in ((0, T_[-1]), (0, 2, T_[-1]), T_, (-1, 1, 2, T_[-1] + 1)):
                        for n in ((2, 2, 2), (1, 2, 2), (2, 1, 3)):
                            out.append((T_, C, G) + n)
    return list(dict.fromkeys(out))


def run(ctx):
    wh = {k: at(ctx, "%s::%s" % (IO, n)) for k, n in (("gradient", "evaluate_objective_gradient"), ("jacobian", "evaluate_constraint_jacobian"))}
    jobs = []
    for g in grids(ctx.thorough):
        for k in ("gradient", "jacobian"):
            if k == "gradient" or g[5]:
                jobs.append(job(k, g, wh[k]))
    prove_all(ctx, jobs)
    ctx.floor("gradient", 40), ctx.floor("jacobian", 40)


class Reference:
    def __init__(self, w, controls):
        self.w, self.u, self.D = w, controls, {}

    def du(self, t):
        return [diff(t, y) for y in self.u]

    def interpolated(self, time):
        """the controls at a time"""
        w, C = self.w, self.w.C
        time = Fr(time)
        k = next((k for k, c in enumerate(C) if c >= time), len(C) - 1)
        row = lambda k: self.u[k * w.nu:(k + 1) * w.nu]
        if C[k] == time or k == 0:
            return row(k)
        l = (time - C[k - 1]) / Fr(C[k] - C[k - 1])
        return [add(scale(l, a), scale(1 - l, b)) for a, b in zip(row(k), row(k - 1))]

    def dx(self, k):
        """derivatives of the states at time k, a row per state"""
        w, n = self.w, len(self.u)
        if k == 0:
            return [[num(0)] * n for _ in range(w.nx)]
        if k in self.D:
            return self.D[k]
        x = lambda k: tuple(w.state(k, i, tuple(self.u)) for i in range(w.nx))
        c = tuple(self.interpolated(w.T[k]))
        p = (tname(num(w.T[k - 1])), tname(num(w.T[k])), x(k - 1), x(k), c)
        E = lambda n, cols: [[w.entry(n, i, j, p) for j in range(cols)] for i in range(w.nx)]
        new, last, Eu = E("E_new", w.nx), E("E_last", w.nx), E("E_u", w.nu)
        before, dc = self.dx(k - 1), [self.du(y) for y in c]
        rhs = [[neg(add(*[mul(last[i][l], before[l][j]) for l in range(w.nx)], *[mul(Eu[i][l], dc[l][j]) for l in range(w.nu)])) for j in range(n)] for i in range(w.nx)]
        if w.nx == 1:
            r = [[div(y, new[0][0]) for y in rhs[0]]]
        else:
            det = sub(mul(new[0][0], new[1][1]), mul(new[0][1], new[1][0]))
            r = [[div(sub(mul(new[1][1], rhs[0][j]), mul(new[0][1], rhs[1][j])), det) for j in range(n)],
                 [div(sub(mul(new[0][0], rhs[1][j]), mul(new[1][0], rhs[0][j])), det) for j in range(n)]]
        self.D[k] = r
        return r

    def derivative(self, t):
        """of a value handed to Ipopt"""
        w, n = self.w, len(self.u)
        out = [num(0)] * n
        syms = {x for x in subterms(t) if x.op == "sym"}
        states = {w.state(k, i, tuple(self.u)): (k, i) for k in range(1, len(w.T)) for i in range(w.nx)}
        for s in sorted(syms, key=show):
            f = diff(t, s)
            if f is num(0):
                continue
            if s in self.u:
                d = self.du(s)
            elif s in states:
                d = self.dx(states[s][0])[states[s][1]]
            elif s in w.known:
                name, p = w.known[s]
                x, c = p[-2:]
                base, i = (name[0], int(name[1:])) if name[0] == "g" and name[1:].isdigit() else (name, 0)
                dx, dc = [self.derivative(y) for y in x], [self.derivative(y) for y in c]
                d = [add(*[mul(w.entry(base + "_x", i, l, p), dx[l][j]) for l in range(w.nx)], *[mul(w.entry(base + "_u", i, l, p), dc[l][j]) for l in range(w.nu)]) for j in range(n)]
            elif show(s).startswith("x0_"):
                continue
            else:
                raise Unmodelled("derivative of %s" % show(s)[:80])
            out = [add(a, mul(f, b)) for a, b in zip(out, d)]
        return out


def job(k, g, where):
    T_, C, G, nx, nu, ng = g

    def go(I):
        w = OptWorld(I, T_, C, G, nx, nu, ng)
        w.wrap()
        u = w.controls("a")
        if k == "gradient":
            return w, u, w.request("f", u, True), w.request("grad_f", u, False), None
        s = w.structure()
        return w, u, w.request("g", u, True), w.request("jac_g", u, False), s

    def judge(o):
        if o.kind != "ok":
            return said(o)
        w, u, (ok, f), (okd, d), s = o.value
        if ok is not True or okd is not True:
            return "a request fails although nothing failed"
        R, F = Reference(w, u), Field()
        if k == "gradient":
            rows = [d]
        else:
            if s[0] is not True:
                return "the structure is refused"
            rows = [[num(0)] * len(u) for _ in f]
            if any(not (0 <= r < len(f) and 0 <= c < len(u)) for r, c in zip(s[1], s[2])):
                return "the structure names an entry outside the matrix"
            for r, c, v in zip(s[1], s[2], d):
                rows[r][c] = add(rows[r][c], v)
        what = lambda i: "of the objective" if k == "gradient" else "of constraint %d at time %s" % (i % w.ng, w.G[i // w.ng])
        try:
            for i, (y, row) in enumerate(zip(f, rows)):
                want = R.derivative(y)
                for j, (a, b) in enumerate(zip(row, want)):
                    if not F.same(a, b):
                        return "the derivative %s with respect to control %d at time %s is handed over as %s; the chain rule gives %s" % (
                            what(i), j % w.nu, w.C[j // w.nu], show(a)[:300], show(b)[:300])
        except NoValue as x:
            raise Unmodelled("value of %s" % x)
    return (k, "states at %s, controls at %s, constraints at %s; %d state(s), %d control(s), %d constraint(s)" % tuple(g), go, judge, where, k)


run.explanation = ("Objective, gradient, constraints, Jacobian and its structure are requested from the interpreted optimizer for symbolic controls. The reference derivative differentiates the returned objective and constraints "
                   "themselves: direct dependence, dependence through the interpolated controls, and dependence through the states, whose derivatives satisfy E_new dx_k + E_last dx_(k-1) + E_u du_k = 0.")
