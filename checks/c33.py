"""C33: a pressure constraint limits the node's pressure in bar."""
from c02 import *
from c26 import pq

TECHNIQUE = "abstract interpretation of the constraint value in every small network; exact comparison with the reported pressure of an attached edge"
NOTE = ("The pressure of the attached edges is what get_boundary_p_qvol_bar reports; that all of them agree at a node is C26. A constraint node without any edge has no pressure "
        "and is not covered.")


def run(ctx):
    H = ctx.H
    for w, what in worlds(ctx):
        for o in w.all:
            c = w.cls(o)
            if not (H.isa(c, CONS) and H.isa(c, "Model::Gas::Gasnode")) or not attached(w, o):
                continue
            vals = values(w, lambda n, *a: w.call(o, CONS, n, *a), "evaluate_constraint", True)
            ps = []
            for k, d in (("get_starting_edges", "start"), ("get_ending_edges", "end")):
                v, _ = w.call(o, NODE, k, commit=False)
                for e in v.args:
                    e = e.args[0]
                    if not H.isa(w.cls(e), "Model::Gas::Gasedge"):
                        continue
                    ps.append((w.cls(e), pq(w, e, d)[0]))
            for r, v in sorted(vals.items()):
                where = where_of(w, c, CONS, "evaluate_constraint")
                inst = "%s in %s" % (c, w.desc)
                key = "%s|%s" % (c, r)
                ok = any(is_zero(sub(v, p))[0] for _, p in ps)
                ctx.ob("constraint-is-the-pressure", inst, ok, where, "constrained value %s; pressures %s" % (show(v)[:150], [show(p)[:100] for _, p in ps]), key=key)
        ctx.used(w.ev)
    ctx.floor("constraint-is-the-pressure", 20)


run.explanation = "The value a constraint node writes is compared with the pressure in bar of the edges attached to it, for every class, orientation and number of edges."
