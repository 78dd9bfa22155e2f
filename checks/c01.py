"""C01: every equation Jacobian entry is the derivative of its residual row."""
from worlds import *

TECHNIQUE = "abstract interpretation over gated value terms; exact rational normal form of entry minus syntactic derivative"
NOTE = ("Decided for every value of states, controls, times and physical parameters; grid sizes 2..4 (5 thorough) and up to 3 attached "
        "edges are enumerated. Points where the residual is not differentiable (gate thresholds) are excluded. Real arithmetic, not "
        "rounding.")


def run(ctx):
    total = 0
    for w, what in worlds(ctx):
        for n in what:
            for iface, o in equations(w, n):
                rows, _ = residual(w, o, iface)
                cls = w.cls(o)
                for meth, vec, cnt in DERIV[iface]:
                    C, calls = jacobian(w, o, iface, meth)
                    m = w.ncontrol if vec is CT else w.nstate
                    for r in sorted(set(rows) | {k[0] for k in C}):
                        val = rows.get(r)
                        for c in range(m):
                            x = mk("elt", vec, num(c))
                            got = C.get((r, c), ZERO)
                            f = w.impl(cls, iface, meth)
                            inst = "%s::%s in %s: row %d, d/d %s[%d]" % (cls, meth, w.desc, r, vec.args[0][1:], c)
                            key = "%s::%s" % (cls, meth)
                            where = sites(calls, r, c) or "%s:%d" % (f["file"], f["l"])
                            if val is None:
                                ctx.zero("no-spurious-row", inst, got, where, key=key)
                                continue
                            try:
                                d = diff(val, x)
                            except NoDerivative as e:
                                # a dependence the algebra cannot differentiate: the
                                # entry must at least exist
                                ctx.ob("entry-present", inst, got is not ZERO, where, str(e), key=key)
                                continue
                            ctx.zero("entry-is-derivative", inst, sub(d, got), where, key=key)
                    for (r, c) in C:
                        inst = "%s::%s in %s: (%d,%d)" % (cls, meth, w.desc, r, c)
                        ctx.ob("position-in-range", inst, 0 <= r < w.nstate and 0 <= c < m, sites(calls, r, c), key="%s::%s" % (cls, meth))
        ctx.used(w.ev)
    ctx.floor("entry-is-derivative", 1000)


run.explanation = ("Each concrete component class is instantiated in small networks (every class, every orientation, 0..3 attached edges, "
                   "several grid sizes) with all physical parameters, states, controls and times symbolic. Its residual rows and its Jacobian "
                   "contributions are computed from the source by abstract interpretation over gated terms; every entry is compared with the "
                   "syntactic derivative of the row by exact rational normal form under each gate assignment.")
