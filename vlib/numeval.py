"""Identity testing of terms: the value of a term of vlib.alg at a point (an
assignment of numbers to its atoms).  The terms are abstractions extracted from
the source; no code of the program is run.  Used to confirm that a difference
the normal form could not cancel really is a difference."""
import random
import mpmath
from alg import *

mp = mpmath.mp
mp.dps = 60
FN = {"sin": mpmath.sin, "cos": mpmath.cos, "tan": mpmath.tan, "exp": mpmath.exp, "log": mpmath.log,
      "sinh": mpmath.sinh, "cosh": mpmath.cosh, "tanh": mpmath.tanh, "atan": mpmath.atan, "asin": mpmath.asin,
      "acos": mpmath.acos, "atan2": mpmath.atan2, "ceil": mpmath.ceil, "floor": mpmath.floor, "round": mpmath.nint,
      "log10": mpmath.log10, "sqrt": mpmath.sqrt, "cbrt": mpmath.cbrt, "abs": abs, "min": min, "max": max, "pow": mpmath.power, "trunc": lambda x: mpmath.floor(x) if x >= 0 else mpmath.ceil(x)}


class Undefined(Exception):
    pass


class Point:
    def __init__(self, rng, scale, fixed=None):
        self.rng, self.scale, self.v = rng, scale, dict(fixed or {})

    def atom(self, t):
        r = self.v.get(t)
        if r is None:
            x = self.rng
            m = x.random()
            if m < 0.05:
                r = mpmath.mpf(0)
            elif m < 0.5:
                r = mpmath.mpf(x.uniform(-3, 3))
            else:
                r = mpmath.mpf(10) ** mpmath.mpf(x.uniform(*self.scale)) * (1 if x.random() < 0.7 else -1)
            self.v[t] = r
        return r

    def batom(self, t):
        r = self.v.get(t)
        if r is None:
            r = self.v[t] = self.rng.random() < 0.5
        return r


def value(t, pt, memo):
    if t in memo:
        return memo[t]
    r = _value(t, pt, memo)
    memo[t] = r
    return r


def _value(t, pt, memo):
    o = t.op
    V = lambda x: value(x, pt, memo)
    if o == "num":
        return mpmath.mpf(t.args[0].numerator) / t.args[0].denominator
    if o == "true":
        return True
    if o == "false":
        return False
    if o == "add":
        s = mpmath.mpf(t.args[0].numerator) / t.args[0].denominator
        for k, c in t.args[1]:
            s += V(k) * (mpmath.mpf(c.numerator) / c.denominator)
        return s
    if o == "mul":
        p = mpmath.mpf(1)
        for b, e in t.args:
            x = V(b)
            if e.denominator != 1 and x < 0:
                raise Undefined()
            if x == 0 and e <= 0:
                raise Undefined()
            p *= x ** (int(e) if e.denominator == 1 else mpmath.mpf(e.numerator) / e.denominator)
        return p
    if o == "fn":
        a = [V(x) for x in t.args[1:]]
        if t.args[0] not in FN:
            return pt.atom(t)
        try:
            r = FN[t.args[0]](*a)
        except (ValueError, ZeroDivisionError, OverflowError):
            raise Undefined()
        if isinstance(r, mpmath.mpc):
            raise Undefined()
        return r
    if o == "ite":
        return V(t.args[1]) if V(t.args[0]) else V(t.args[2])
    if o in ("and", "or"):
        f = all if o == "and" else any
        return f(V(x) for x in t.args)
    if o == "not":
        return not V(t.args[0])
    if o in ("lt", "le"):
        a, b = V(t.args[0]), V(t.args[1])
        if isinstance(a, bool) or isinstance(b, bool):
            return pt.batom(t)
        return a < b if o == "lt" else a <= b
    if o == "eq":
        if any(x.op in ("addr", "nullptr", "str", "enumc", "deref", "dyncast", "m") for x in t.args):
            return pt.batom(t)
        a, b = V(t.args[0]), V(t.args[1])
        return a == b
    if o in ("exists", "forall", "nonempty", "exc"):
        return pt.batom(t)
    if o == "elt" and t.args[0].op == "m" and t.args[0].args[0] == "solve" and t.args[1].op == "num":
        s = t.args[0]
        key = ("solve", s)
        if key not in memo:
            A, b = s.args[1], s.args[2]
            while A.op == "m":
                A = A.args[1]
            n = len(b.args) if b.op == "vec" else 0
            ent = A.args if A.op == "vec" else (A.args[2] if A.op == "mat2" else ())
            if n and len(ent) == n * n:
                M = mpmath.matrix(n, n)
                for i in range(n * n):
                    M[i // n, i % n] = V(ent[i])
                rhs = mpmath.matrix([V(x) for x in b.args])
                try:
                    memo[key] = mpmath.lu_solve(M, rhs)
                except ZeroDivisionError:
                    raise Undefined()
            else:
                memo[key] = None
        if memo[key] is not None:
            return memo[key][int(t.args[1].args[0])]
        return pt.atom(t)
    return pt.atom(t)


def differs(t, seed=1, points=240, guards=()):
    """None if t evaluates to zero (relative to its magnitude) at every sampled
    point where it is defined, else a description of a point where it does not"""
    rng = random.Random(seed)
    tested = 0
    scales = [(-1, 1), (-3, 3), (0, 4), (-6, 8), (1, 3)]
    gates = sorted({a for c in conds_of(t) for a in _lits(c) if a.op in ("lt", "le")}, key=skey)
    for i in range(points):
        pt = Point(rng, scales[i % len(scales)])
        memo = {}
        if gates and i % 2:
            aim(gates[rng.randrange(len(gates))], pt, rng)
        try:
            if any(not value(g, pt, memo) for g in guards):
                continue
            v = value(t, pt, memo)
            mag = magnitude(t, pt, memo)
        except (Undefined, ZeroDivisionError, OverflowError, ValueError):
            continue
        if isinstance(v, bool):
            continue
        tested += 1
        if abs(v) > mag * mpmath.mpf(10) ** -14 and abs(v) > 0:
            w = {show(k)[:60]: (x if isinstance(x, bool) else mpmath.nstr(x, 6)) for k, x in pt.v.items()}
            return {"difference": mpmath.nstr(v, 8), "at": w}, tested
    return None, tested


def _lits(c):
    if c.op in ("and", "or", "not"):
        return [a for x in c.args for a in _lits(x)]
    return [c]


def aim(g, pt, rng):
    """move one atom of the gate so that both sides of its threshold are visited"""
    d = sub(g.args[0], g.args[1])
    try:
        value(d, pt, {})
    except (Undefined, ZeroDivisionError, OverflowError, ValueError):
        return
    at = [a for a, x in pt.v.items() if not isinstance(x, bool) and contains(d, a)]
    if not at:
        return
    at.sort(key=skey)
    a = at[rng.randrange(len(at))]
    prev = None
    sgn = 1 if rng.random() < 0.7 else -1
    for k in range(-36, 37):
        x = sgn * mpmath.mpf(10) ** (mpmath.mpf(k) / 4)
        pt.v[a] = x
        try:
            y = value(d, pt, {})
        except (Undefined, ZeroDivisionError, OverflowError, ValueError):
            prev = None
            continue
        if prev is not None and (prev[1] < 0) != (y < 0):
            pt.v[a] = prev[0] + (x - prev[0]) * mpmath.mpf(rng.random())
            return
        prev = (x, y)
    pt.v[a] = mpmath.mpf(rng.uniform(-3, 3))


def magnitude(t, pt, memo):
    """sum of absolute values of the summands (scale for the comparison)"""
    def m(t, d=0):
        if t.op == "add":
            return abs(mpmath.mpf(t.args[0].numerator) / t.args[0].denominator) + sum(
                (abs(mpmath.mpf(c.numerator) / c.denominator) * m(k, d + 1) for k, c in t.args[1]), mpmath.mpf(0))
        if t.op == "ite" and d < 40:
            return m(t.args[1] if value(t.args[0], pt, memo) else t.args[2], d + 1)
        if t.op == "mul" and d < 40:
            p = mpmath.mpf(1)
            for b, e in t.args:
                if e > 0 and e.denominator == 1:
                    p *= m(b, d + 1) ** int(e)
                else:
                    x = abs(value(b, pt, memo))
                    p *= x ** (mpmath.mpf(e.numerator) / e.denominator)
            return p
        return abs(value(t, pt, memo))
    return m(t)
