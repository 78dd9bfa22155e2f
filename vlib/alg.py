"""Hash-consed terms, light canonicalisation of arithmetic, an exact rational
normal form over opaque atoms, and syntax-directed differentiation.

Nothing here runs the program under analysis: terms are abstractions of source
expressions produced by vlib.sem."""
from fractions import Fraction as Fr
import itertools

_tab = {}


class T:
    __slots__ = ("op", "args", "id", "_key")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return skey(self) < skey(o)


def mk(op, *args):
    k = (op,) + args
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.id, t._key = op, args, len(_tab), None
        _tab[k] = t
    return t


def skey(t):
    """run-independent ordering key"""
    if t._key is None:
        t._key = show(t)
    return t._key


def num(x):
    return mk("num", Fr(x))


ZERO, ONE = num(0), num(1)
TRUE, FALSE = mk("true"), mk("false")


def is_num(t):
    return t.op == "num"


def sym(name):
    return mk("sym", name)


def fn(name, *args):
    return mk("fn", name, *args)


# ---------------------------------------------------------------- arithmetic
# 'add': args = (const Fraction, ((term, coef), ...)) sorted by term id
# 'mul': args = ((base, exp Fraction), ...)

def _split(t):
    if t.op == "num":
        return t.args[0], ()
    if t.op == "add":
        return t.args
    return Fr(0), ((t, Fr(1)),)


def _mkadd(const, d):
    items = tuple(sorted(((k, c) for k, c in d.items() if c != 0), key=lambda kc: kc[0].id))
    if not items:
        return num(const)
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("add", const, items)


def add(*ts):
    const, d = Fr(0), {}
    for t in ts:
        c, its = _split(t)
        const += c
        for k, co in its:
            d[k] = d.get(k, 0) + co
    return _mkadd(const, d)


def scale(c, t):
    c = Fr(c)
    if c == 0:
        return ZERO
    k, its = _split(t)
    return _mkadd(k * c, {a: b * c for a, b in its})


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, neg(b))


def _mulsplit(t):
    """-> coef, dict base->exp"""
    if t.op == "num":
        return t.args[0], {}
    if t.op == "mul":
        return Fr(1), dict(t.args)
    if t.op == "add" and t.args[0] == 0 and len(t.args[1]) == 1:
        k, c = t.args[1][0]
        cc, d = _mulsplit(k)
        return c * cc, d
    return Fr(1), {t: Fr(1)}


def mul(*ts):
    coef, d = Fr(1), {}
    for t in ts:
        c, f = _mulsplit(t)
        coef *= c
        for b, e in f.items():
            d[b] = d.get(b, Fr(0)) + e
    if coef == 0:
        return ZERO
    items = tuple(sorted(((b, e) for b, e in d.items() if e != 0), key=lambda be: be[0].id))
    if not items:
        return num(coef)
    if len(items) == 1 and items[0][1] == 1:
        return scale(coef, items[0][0])
    return scale(coef, mk("mul", *items))


def power(t, e):
    e = Fr(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    if t.op == "num":
        if e.denominator == 1 and (t.args[0] != 0 or e > 0):
            return num(t.args[0] ** int(e))
        return mk("mul", (t, e)) if t.args[0] != 0 else (ZERO if e > 0 else mk("mul", (t, e)))
    if e.denominator == 1:
        c, d = _mulsplit(t)
        if len(d) > 1 or c != 1 or t.op == "mul":
            items = [(b, x * e) for b, x in d.items()]
            r = num(c ** int(e))
            for b, x in items:
                r = mul(r, _pw(b, x))
            return r
    return _pw(t, e)


def _pw(b, e):
    if e == 1:
        return b
    if e == 0:
        return ONE
    if b.op == "num" and e.denominator == 1:
        return num(b.args[0] ** int(e))
    return mk("mul", (b, e))


def div(a, b):
    return mul(a, power(b, -1))


# ------------------------------------------------------------------ booleans
def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "and":
        return bor(*[bnot(x) for x in a.args])
    if a.op == "or":
        return band(*[bnot(x) for x in a.args])
    if a.op == "exists":
        return mk("forall", a.args[0], bnot(a.args[1]))
    if a.op == "forall":
        return mk("exists", a.args[0], bnot(a.args[1]))
    return mk("not", a)


def band(*xs):
    s = set()
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            s.update(x.args)
        else:
            s.add(x)
    for x in s:
        if bnot(x) in s:
            return FALSE
    # unit propagation: (A or B) with not A in s -> B
    changed = True
    while changed:
        changed = False
        for x in list(s):
            if x.op == "or":
                if any(y in s for y in x.args):
                    s.discard(x)
                    changed = True
                    break
                ys = [y for y in x.args if bnot(y) not in s]
                if len(ys) != len(x.args):
                    s.discard(x)
                    n = bor(*ys)
                    if n is FALSE:
                        return FALSE
                    if n.op == "and":
                        s.update(n.args)
                    elif n is not TRUE:
                        s.add(n)
                    changed = True
                    break
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk("and", *sorted(s, key=lambda t: t.id))


def bor(*xs):
    s = set()
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == "or":
            s.update(x.args)
        else:
            s.add(x)
    for x in s:
        if bnot(x) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    # absorption: A or (not A and B) -> A or B ; A or (A and B) -> A
    changed = True
    while changed:
        changed = False
        for x in list(s):
            if x.op == "and":
                if any(y in s for y in x.args):
                    s.discard(x)
                    changed = True
                    break
                ys = [y for y in x.args if bnot(y) not in s]
                if len(ys) != len(x.args):
                    s.discard(x)
                    n = band(*ys) if ys else TRUE
                    if n is TRUE:
                        return TRUE
                    if n.op == "or":
                        s.update(n.args)
                    else:
                        s.add(n)
                    changed = True
                    break
        else:
            # (A and X) or (not A and X) -> X
            ands = [x for x in s if x.op == "and"]
            for i, a in enumerate(ands):
                for b in ands[i + 1:]:
                    sa, sb = set(a.args), set(b.args)
                    da, db = sa - sb, sb - sa
                    if len(da) == 1 and len(db) == 1 and bnot(next(iter(da))) in db:
                        s.discard(a)
                        s.discard(b)
                        n = band(*(sa & sb))
                        if n is TRUE:
                            return TRUE
                        s.update(n.args if n.op == "or" else (n,))
                        changed = True
                        break
                if changed:
                    break
    if len(s) == 1:
        return next(iter(s))
    for x in s:
        if bnot(x) in s:
            return TRUE
    return mk("or", *sorted(s, key=lambda t: t.id))


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    if a is TRUE:
        return bor(c, b)
    if a is FALSE:
        return band(bnot(c), b)
    if b is TRUE:
        return bor(bnot(c), a)
    if b is FALSE:
        return band(c, a)
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.op == b.op and a.op in ("vec", "tup") and len(a.args) == len(b.args):
        return mk(a.op, *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    if a.op == "mat2" and b.op == "mat2" and a.args[:2] == b.args[:2]:
        return mk("mat2", a.args[0], a.args[1], tuple(ite(c, x, y) for x, y in zip(a.args[2], b.args[2])))
    if a.op == "obj" and b.op == "obj" and a.args[0] == b.args[0] and [n for n, _ in a.args[1]] == [n for n, _ in b.args[1]]:
        return mk("obj", a.args[0], tuple((n, ite(c, x, y)) for (n, x), (_, y) in zip(a.args[1], b.args[1])))
    return mk("ite", c, a, b)


def cmp_eq(a, b):
    if a is b:
        return TRUE
    if is_num(a) and is_num(b):
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a.op in ("str", "num", "enumc") and b.op == a.op:
        return FALSE
    if a.op == "enumc" and is_num(b):
        return TRUE if a.args[1] == b.args[0] else FALSE
    if b.op == "enumc" and is_num(a):
        return TRUE if b.args[1] == a.args[0] else FALSE
    if a.op == "nullptr" and b.op in ("addr", "newobj") or b.op == "nullptr" and a.op in ("addr", "newobj"):
        return FALSE
    if a.op == "addr" and b.op == "addr" and a.args[0].op == "glob" and b.args[0].op == "glob":
        return FALSE
    if a in (TRUE, FALSE):
        a, b = b, a
    if b is TRUE:
        return a
    if b is FALSE:
        return bnot(a)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def cmp_lt(a, b):
    if is_num(a) and is_num(b):
        return TRUE if a.args[0] < b.args[0] else FALSE
    if a is b:
        return FALSE
    return mk("lt", a, b)


def cmp_le(a, b, integral=False):
    if is_num(a) and is_num(b):
        return TRUE if a.args[0] <= b.args[0] else FALSE
    if integral:
        return bnot(cmp_lt(b, a))
    return mk("le", a, b)


# ------------------------------------------------------------------ traversal
def children(t):
    if t.op == "add":
        return [k for k, _ in t.args[1]]
    if t.op == "mul":
        return [b for b, _ in t.args]
    return [a for a in t.args if isinstance(a, T)] + \
           [b for a in t.args if isinstance(a, tuple) for b in _tupterms(a)]


def _tupterms(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _tupterms(x)


def subterms(t, seen=None):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def contains(t, x):
    return any(s is x for s in subterms(t))


def subst(t, f, memo=None):
    """rebuild t bottom-up, f: term -> replacement or None (checked first)"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = f(t)
    if r is None:
        r = _rebuild(t, lambda x: subst(x, f, memo))
    memo[t] = r
    return r


def _rtuple(a, g):
    return tuple(g(x) if isinstance(x, T) else (_rtuple(x, g) if isinstance(x, tuple) else x) for x in a)


def _rebuild(t, g):
    if t.op == "num":
        return t
    if t.op == "add":
        return add(num(t.args[0]), *[scale(c, g(k)) for k, c in t.args[1]])
    if t.op == "mul":
        return mul(*[power(g(b), e) for b, e in t.args])
    if t.op == "and":
        return band(*[g(x) for x in t.args])
    if t.op == "or":
        return bor(*[g(x) for x in t.args])
    if t.op == "not":
        return bnot(g(t.args[0]))
    if t.op == "ite":
        return ite(*[g(x) for x in t.args])
    if t.op == "eq":
        return cmp_eq(*[g(x) for x in t.args])
    if t.op == "lt":
        return cmp_lt(*[g(x) for x in t.args])
    if t.op == "le":
        return cmp_le(*[g(x) for x in t.args])
    n = _rtuple(t.args, g)
    if n == t.args:
        return t
    return mk(t.op, *n)


# --------------------------------------------------------------------- print
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x) for x in t) + ")"
        return str(t)
    if d > 40:
        return "…"
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if o == "num":
        return str(a[0])
    if o in ("sym", "glob"):
        return str(a[0])
    if o == "str":
        return '"%s"' % a[0]
    if o == "enumc":
        return a[0]
    if o == "par":
        return a[1] or "par%d" % a[0]
    if o == "var":
        return a[1]
    if o == "this":
        return "this"
    if o in ("true", "false"):
        return o
    if o == "it":
        return "#%s" % a[0]
    if o == "fld":
        return s(a[0]) + "." + a[1]
    if o == "elt":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "deref":
        return "*" + s(a[0])
    if o == "add":
        r = [] if a[0] == 0 else [str(a[0])]
        for k, c in a[1]:
            r.append(s(k) if c == 1 else "%s*%s" % (c, s(k)))
        return "(" + " + ".join(r) + ")"
    if o == "mul":
        return "*".join(s(b) if e == 1 else "%s^%s" % (s(b), e) for b, e in a)
    if o == "ite":
        return "(%s ? %s : %s)" % tuple(map(s, a))
    if o == "not":
        return "!" + s(a[0])
    if o in ("and", "or"):
        return "(" + (" %s " % o).join(map(s, a)) + ")"
    if o == "eq":
        return "(%s == %s)" % (s(a[0]), s(a[1]))
    if o == "lt":
        return "(%s < %s)" % (s(a[0]), s(a[1]))
    if o == "le":
        return "(%s <= %s)" % (s(a[0]), s(a[1]))
    if o in ("fn", "m"):
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))


# ======================================================================
# exact normal form:  polynomial = dict {monomial: Fraction}
# monomial = tuple of (atom, int exponent>0) sorted by atom id
# value = (num poly, den: dict{poly-key(frozenset): int exponent})
# ======================================================================
class TooBig(Exception):
    pass


LIMIT = 20000
PONE = {(): Fr(1)}


def _padd(p, q, c=1):
    r = dict(p)
    for m, k in q.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def _mmul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items(), key=lambda xe: xe[0].id))


def _pmul(p, q):
    if len(p) * len(q) > LIMIT * 20:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    r = _reduce(r)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def _reduce(p):
    """apply root^q -> base and abs^2 -> base^2 and sin^2 -> 1-cos^2"""
    for m in p:
        for a, e in m:
            if (a.op == "root" and e >= a.args[1]) or (a.op == "fn" and a.args[0] in ("abs", "sin") and e >= 2):
                break
        else:
            continue
        break
    else:
        return p
    r = {}
    for m, c in p.items():
        for a, e in m:
            if a.op == "root" and e >= a.args[1]:
                q = a.args[1]
                rest = tuple((x, y) for x, y in m if x is not a)
                if e - q:
                    rest = _mmul(rest, ((a, e - q),))
                n, d = nf(a.args[0])
                if d:
                    raise TooBig()
                r = _padd(r, _pmul({rest: c}, n))
                break
            if a.op == "fn" and a.args[0] == "abs" and e >= 2:
                rest = tuple((x, y) for x, y in m if x is not a)
                if e - 2:
                    rest = _mmul(rest, ((a, e - 2),))
                n, d = nf(a.args[1])
                if d:
                    raise TooBig()
                r = _padd(r, _pmul({rest: c}, _pmul(n, n)))
                break
            if a.op == "fn" and a.args[0] == "sin" and e >= 2:
                rest = tuple((x, y) for x, y in m if x is not a)
                if e - 2:
                    rest = _mmul(rest, ((a, e - 2),))
                cs = fn("cos", a.args[1])
                r = _padd(r, _pmul({rest: c}, {(): Fr(1), ((cs, 2),): Fr(-1)}))
                break
        else:
            r = _padd(r, {m: c})
    return r


def _ppow(p, n):
    r = PONE
    for _ in range(n):
        r = _pmul(r, p)
    return r


_nfmemo = {}


def _monic(p):
    """-> (coefficient, key) with the canonical leading coefficient 1"""
    lead = min(p, key=lambda m: tuple((skey(a), e) for a, e in m))
    c = p[lead]
    return c, frozenset((m, k / c) for m, k in p.items())


def _cancel(n, d):
    """cancel denominators that are single atoms (monomials)"""
    if not n:
        return {}, {}
    out = {}
    for key, e in d.items():
        if e == 0:
            continue
        if len(key) == 1:
            (m, k), = key
            # key is monic so k == 1; m is a single monomial
            for a, x in m:
                need = x * e
                have = min(dict(mm).get(a, 0) for mm in n)
                cut = min(need, have)
                if cut:
                    nn = {}
                    for mm, c in n.items():
                        dd = dict(mm)
                        dd[a] -= cut
                        nn[tuple(sorted(((y, z) for y, z in dd.items() if z), key=lambda yz: yz[0].id))] = c
                    n = nn
                    need -= cut
                if need:
                    kk = frozenset([(((a, 1),), Fr(1))])
                    out[kk] = out.get(kk, 0) + need
        else:
            # try exact equality with numerator multiples
            while e > 0:
                c, nk = _monic(n)
                if nk == key:
                    n = {(): c}
                    e -= 1
                else:
                    break
            if e:
                out[key] = out.get(key, 0) + e
    return n, out


def _recip(n, d):
    """1/(n/d)"""
    if not n:
        raise ZeroDivisionError
    rn = PONE
    for k, e in d.items():
        rn = _pmul(rn, _ppow(dict(k), e))
    c, key = _monic(n)
    rd = {}
    if key == frozenset([((), Fr(1))]):
        return {m: v / c for m, v in rn.items()}, {}
    # abs atom in a monomial denominator: 1/|x| = |x|/x^2
    if len(key) == 1:
        (m, _), = key
        for a, e in m:
            if a.op == "fn" and a.args[0] == "abs":
                bn, bd = nf(a.args[1])
                if bd:
                    raise TooBig()
                for _ in range(e):
                    rn = _pmul(rn, {((a, 1),): Fr(1)})
                    c2, k2 = _monic(bn)
                    rn = {mm: v / (c2 * c2) for mm, v in rn.items()}
                    rd[k2] = rd.get(k2, 0) + 2
            else:
                k1 = frozenset([(((a, 1),), Fr(1))])
                rd[k1] = rd.get(k1, 0) + e
    else:
        rd[key] = 1
    return _cancel({m: v / c for m, v in rn.items()}, rd)


def _nadd(a, b):
    n1, d1 = a
    n2, d2 = b
    if not d1 and not d2:
        return _padd(n1, n2), {}
    L = dict(d1)
    for k, e in d2.items():
        L[k] = max(L.get(k, 0), e)
    for k, e in L.items():
        x = e - d1.get(k, 0)
        if x:
            n1 = _pmul(n1, _ppow(dict(k), x))
        y = e - d2.get(k, 0)
        if y:
            n2 = _pmul(n2, _ppow(dict(k), y))
    return _cancel(_padd(n1, n2), L)


def _nmul(a, b):
    n = _pmul(a[0], b[0])
    d = dict(a[1])
    for k, e in b[1].items():
        d[k] = d.get(k, 0) + e
    return _cancel(n, d)


def nf(t):
    r = _nfmemo.get(t)
    if r is None:
        r = _nf(t)
        _nfmemo[t] = r
    return r


def _atom(t):
    return {((t, 1),): Fr(1)}, {}


def _nf(t):
    if t.op == "num":
        return ({(): t.args[0]} if t.args[0] else {}), {}
    if t.op == "add":
        r = ({(): t.args[0]} if t.args[0] else {}), {}
        for k, c in t.args[1]:
            n, d = nf(k)
            r = _nadd(r, ({m: v * c for m, v in n.items()}, d))
        return r
    if t.op == "mul":
        r = PONE, {}
        for b, e in t.args:
            if e.denominator == 1:
                x = nf(b)
                if e < 0:
                    x = _recip(*x)
                for _ in range(abs(int(e))):
                    r = _nmul(r, x)
            else:
                q = e.denominator
                base = canon(b)
                at = mk("root", base, q)
                p = e.numerator
                # write p = q*k + s with 0 <= s < q
                k, s_ = divmod(p, q)
                x = nf(base)
                if k < 0:
                    x = _recip(*x)
                for _ in range(abs(k)):
                    r = _nmul(r, x)
                if s_:
                    r = _nmul(r, ({((at, s_),): Fr(1)}, {}))
        return r
    if t.op == "fn":
        name = t.args[0]
        args = [canon(a) if isinstance(a, T) else a for a in t.args[1:]]
        if name in ("abs", "sin", "cos") and len(args) == 1:
            a = args[0]
            if is_num(a) and name == "abs":
                return nf(num(abs(a.args[0])))
            n, d = nf(a)
            if not n:
                return nf({"abs": ZERO, "sin": ZERO, "cos": ONE}[name])
            lead = min(n, key=lambda m: tuple((skey(x), e) for x, e in m))
            if n[lead] < 0:
                a = canon(neg(a))
                at = fn(name, a)
                if name == "sin":
                    return {((at, 1),): Fr(-1)}, {}
                return _atom(at)
            return _atom(fn(name, a))
        if name == "exp" and is_num(args[0]) and args[0].args[0] == 0:
            return nf(ONE)
        if name == "log" and is_num(args[0]) and args[0].args[0] == 1:
            return nf(ZERO)
        if name == "pow" and len(args) == 2:
            base, ex = args
            c, its = _split(ex)
            if not its:
                return nf(power(base, c))
            k = c.numerator // c.denominator
            if k:
                rest = sub(ex, num(k))
                return nf(mul(fn("pow", base, rest), power(base, k)))
        return _atom(fn(name, *args))
    if t.op == "ite":
        c, a, b = t.args
        return _atom(ite(c, canon(a), canon(b)))
    if t.op in ("elt",):
        return _atom(mk("elt", t.args[0], canon(t.args[1])))
    if t.op == "sum":
        return _atom(mk("sum", t.args[0], canon(t.args[1])))
    return _atom(t)


def _poly_term(p):
    ts = []
    for m, c in p.items():
        ts.append(scale(c, mul(*[power(a, e) for a, e in m])))
    return add(*ts) if ts else ZERO


def canon(t):
    if t.op in ("num", "str", "sym", "par", "this", "var", "it", "enumc"):
        return t
    try:
        n, d = nf(t)
    except (TooBig, ZeroDivisionError):
        return t
    r = _poly_term(n)
    for k, e in sorted(d.items(), key=lambda ke: sorted(str([(skey(a), x) for a, x in m]) for m, _ in ke[0])):
        r = mul(r, power(_poly_term(dict(k)), -e))
    return r


def conds_of(t):
    """innermost conditions of ite atoms"""
    s = []
    for x in subterms(t):
        if x.op == "ite" and x.args[0] not in s:
            s.append(x.args[0])
    return s


def _atoms_of_cond(c):
    if c.op in ("and", "or", "not"):
        r = []
        for x in c.args:
            r += _atoms_of_cond(x)
        return r
    return [c]


def assume(t, asg):
    """substitute boolean atoms by constants (first matching ite outermost)"""
    def f(x):
        if x in asg:
            return asg[x]
        return None
    return subst(t, f)


def _consistent(asg):
    """cheap interval contradiction test on lt/le with one shared side"""
    lo, hi = {}, {}
    for c, v in asg.items():
        if c.op not in ("lt", "le"):
            continue
        a, b = c.args
        if v is FALSE:
            a, b = b, a  # not(a<b) -> b<=a
        d = sub(b, a)  # d >= 0
        k, its = _split(d)
        key = tuple(its)
        if not its:
            continue
        s = its[0][1]
        nkey = tuple((x, y / abs(s)) for x, y in its)
        k = k / abs(s)
        # nkey . x + k >= 0
        strict = (c.op == "lt") == (v is TRUE)
        pos = nkey
        ng = tuple((x, -y) for x, y in nkey)
        # pos >= -k ; check against ng >= k' i.e. pos <= k'
        if ng in lo:
            k2, s2 = lo[ng]
            if -k > k2 or (-k == k2 and (strict or s2)):
                return False
        if pos not in lo or -lo[pos][0] < -k:
            lo[pos] = (k, strict)
    return True


def is_zero(t, assumptions=None, depth=0):
    """True if t is identically zero in the rational normal form, for every
    assignment of the gate conditions it contains.  Returns (bool, witness)."""
    asg = dict(assumptions or {})
    if asg:
        t = assume(t, asg)
    conds = []
    for c in conds_of(t):
        for a in _atoms_of_cond(c):
            if a not in conds and a not in asg:
                conds.append(a)
    # prefer conditions that are not nested inside others
    if not conds:
        n, d = nf(t)
        return (not n), asg
    if depth > 14:
        raise TooBig()
    conds.sort(key=lambda c: len(list(subterms(c))))
    c = conds[0]
    for v in (TRUE, FALSE):
        a2 = dict(asg)
        a2[c] = v
        if not _consistent(a2):
            continue
        ok, w = is_zero(t, a2, depth + 1)
        if not ok:
            return False, w
    return True, asg


def equal(a, b, assumptions=None):
    if a is b:
        return True
    try:
        return is_zero(sub(a, b), assumptions)[0]
    except (TooBig, ZeroDivisionError):
        return False


# ------------------------------------------------------------ differentiation
class NoDerivative(Exception):
    pass


def diff(t, x, memo=None):
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = _diff(t, x, memo)
    memo[t] = r
    return r


def _diff(t, x, memo):
    if t is x:
        return ONE
    if not contains(t, x):
        return ZERO
    D = lambda u: diff(u, x, memo)
    if t.op == "add":
        return add(*[scale(c, D(k)) for k, c in t.args[1]])
    if t.op == "mul":
        rs = []
        for i, (b, e) in enumerate(t.args):
            db = D(b)
            if db is ZERO:
                continue
            rest = [power(bb, ee) if j != i else ONE for j, (bb, ee) in enumerate(t.args)]
            rs.append(mul(num(e), power(b, e - 1), db, *rest))
        return add(*rs) if rs else ZERO
    if t.op == "ite":
        c, a, b = t.args
        return ite(c, D(a), D(b))
    if t.op == "sum":
        return mk("sum", t.args[0], D(t.args[1])) if D(t.args[1]) is not ZERO else ZERO
    if t.op == "fn":
        n = t.args[0]
        a = t.args[1]
        if len(t.args) == 2:
            da = D(a)
            if n == "sin":
                return mul(fn("cos", a), da)
            if n == "cos":
                return neg(mul(fn("sin", a), da))
            if n == "tan":
                return mul(add(ONE, power(t, 2)), da)
            if n == "exp":
                return mul(t, da)
            if n == "log":
                return div(da, a)
            if n == "abs":
                return mul(div(t, a), da)
            if n == "atan":
                return div(da, add(ONE, power(a, 2)))
            if n == "sinh":
                return mul(fn("cosh", a), da)
            if n == "cosh":
                return mul(fn("sinh", a), da)
            if n == "tanh":
                return mul(sub(ONE, power(t, 2)), da)
        if n == "pow" and len(t.args) == 3:
            e = t.args[2]
            if not contains(e, x):
                return mul(e, div(t, a), D(a))
            return mul(t, add(mul(D(e), fn("log", a)), div(mul(e, D(a)), a)))
        if n in ("min", "max") and len(t.args) == 3:
            b = t.args[2]
            c = cmp_lt(a, b) if n == "min" else cmp_lt(b, a)
            return ite(c, D(a), D(b))
    raise NoDerivative("cannot differentiate %s" % show(t)[:300])
