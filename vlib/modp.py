"""Identity of rational expressions, decided in a large prime field: each symbol stands for a
pseudo-random element determined by its name.  Unequal values prove the expressions different;
equal values at several points leave an error probability below 2^-100."""
import hashlib
from alg import T, mk, show

P = (1 << 127) - 1


class NoValue(Exception):
    pass


def value(t, memo, salt=0):
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "num":
        r = t.args[0].numerator * pow(t.args[0].denominator, -1, P) % P
    elif t.op == "sym":
        r = int.from_bytes(hashlib.sha256(("%d|%s" % (salt, t.args[0])).encode()).digest()[:15], "big")
    elif t.op == "add":
        c = t.args[0]
        r = c.numerator * pow(c.denominator, -1, P)
        for x, k in t.args[1]:
            r += value(x, memo, salt) * k.numerator % P * pow(k.denominator, -1, P)
        r %= P
    elif t.op == "mul":
        r = 1
        for x, e in t.args:
            if e.denominator != 1:
                raise NoValue(show(t)[:80])
            b = value(x, memo, salt)
            if e < 0 and b == 0:
                raise NoValue("division by zero")
            r = r * pow(b, int(e), P) % P
    else:
        raise NoValue(t.op)
    memo[t] = r
    return r


class Field:
    def __init__(self, rounds=2):
        self.memos = [{} for _ in range(rounds)]

    def same(self, a, b):
        return all(value(a, m, s) == value(b, m, s) for s, m in enumerate(self.memos))
