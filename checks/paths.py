"""Lazy case analysis over the boolean atoms of a guarded trace.

An assignment maps atoms to TRUE/FALSE.  Terms are resolved from the outside in:
a case distinction is decided before its branches are looked at, so that only the
atoms that matter on a path are ever asked for; atoms are looked up after their own
parts were resolved, so that equal comparisons on the same path are the same atom."""
from worlds import *
from alg import _rebuild


class Need(Exception):
    def __init__(self, atom):
        self.atom = atom


class Resolver:
    def __init__(self, asg):
        self.asg, self.memo = asg, {}

    def __call__(self, x):
        if not isinstance(x, T):
            return x
        r = self.memo.get(x)
        if r is not None:
            return r
        if x in self.asg:
            r = self.asg[x]
        elif x.op == "ite":
            r = self(x.args[1] if self.truth(x.args[0]) else x.args[2])
        else:
            r = _rebuild(x, self)
            if r is not x and r in self.asg:
                r = self.asg[r]
        self.memo[x] = r
        return r

    def truth(self, c):
        if c in self.asg:
            return self.asg[c] is TRUE
        if c.op == "true":
            return True
        if c.op == "false":
            return False
        if c.op == "not":
            return not self.truth(c.args[0])
        if c.op in ("and", "or"):
            stop = c.op == "or"
            need = None
            for x in c.args:
                try:
                    if self.truth(x) is stop:
                        return stop
                except Need as e:
                    need = need or e
            if need:
                raise need
            return not stop
        if c.op == "ite":
            return self.truth(c.args[1] if self.truth(c.args[0]) else c.args[2])
        r = self(c)
        if r is TRUE or r is FALSE:
            return r is TRUE
        if r is not c and r.op in ("not", "and", "or", "ite"):
            return self.truth(r)
        raise Need(r)

    def pc(self, pc):
        """truth of a path condition; conditions are tried in order"""
        need = None
        for c in ([pc] if isinstance(pc, T) else pc):
            try:
                if not self.truth(c):
                    return False
            except Need as e:
                need = need or e
        if need:
            raise need
        return True


def holds(pc, asg):
    """True / False / None (undecided)"""
    try:
        return Resolver(asg).pc(pc)
    except Need:
        return None


def split(f, asg=None, limit=20000, consistent=None):
    """all extensions of the assignment on which f(resolver) needs no further atom;
    yields (assignment, f's result)"""
    stack = [asg or {}]
    n = 0
    while stack:
        a = stack.pop()
        try:
            r = f(Resolver(a))
        except Need as e:
            for v in (TRUE, FALSE):
                b = dict(a)
                b[e.atom] = v
                if consistent is None or consistent(b, e.atom):
                    stack.append(b)
            continue
        n += 1
        if n > limit:
            raise AnalysisBroken("too many paths")
        yield a, r


def leaves(pcs, asg=None, limit=20000, consistent=None):
    """assignments that decide every path condition in the list"""
    for a, _ in split(lambda R: [R.pc(p) for p in pcs], asg, limit, consistent):
        yield a


def under(t, asg):
    """the term on this path (all its case distinctions must be decided)"""
    try:
        return Resolver(asg)(t)
    except Need as e:
        raise AnalysisBroken("case not decided: %s" % show(e.atom)[:200])


def decide(t, asg):
    """extensions of the assignment that resolve the term, with its value"""
    def f(R):
        v = R(t)
        if v.op in ("and", "or", "not"):
            v = TRUE if R.truth(v) else FALSE
        return v
    return split(f, asg)
