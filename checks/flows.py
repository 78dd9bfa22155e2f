"""Matrix handler objects: on which matrix, which derivative functions write through them."""
from sem import *
from alg import *
from program import AnalysisBroken


def mentions(f, what):
    return f["b"] is not None and any(what in str(n.get("t", "")) or what in str(n.get("q", "")) for n in iter_nodes(f["b"]) if isinstance(n, dict))


def handler_kind(obj):
    """obj(Aux::Triplethandler<0>, ((matrix, addr(loc)),...)) -> (kind, transposed, matrix)"""
    if obj.op != "obj":
        return None
    c = str(obj.args[0])
    if "Triplethandler<" in c or "Coeffrefhandler<" in c:
        tr = c.split("<", 1)[1].rstrip("> ")
        m = None
        for k, v in obj.args[1]:
            if isinstance(v, T) and v.op == "addr" and m is None:
                m = v.args[0]
        return ("fresh" if "Triplethandler" in c else "refill", tr, m)
    return None


def base_obj(t):
    """strip havoc layers: out(call, i, obj, ...) -> obj"""
    while t.op in ("out", "mut"):
        nx = [x for x in t.args if isinstance(x, T) and x.op in ("obj", "out", "mut")]
        if not nx:
            return t
        t = nx[0]
    return t


def handler_flows(ctx):
    """every handler object built in the solver and optimizer classes"""
    P, H = ctx.P, ctx.H
    out = []
    ks = [k for k, f in P.functions.items() if (mentions(f, "Triplethandler<") or mentions(f, "Coeffrefhandler<")) and "Matrixhandler/" not in f["file"]]
    ctx.need(len(ks) >= 4, "uses of the matrix handlers not found")
    for k in sorted(ks):
        f = P.functions[k]
        ev = Evaluator(P, H, opaque=lambda g: g["n"].startswith("d_evaluate") or (g.get("rc") or "").startswith("Aux::Interpol"))
        s = ev.run(k)
        ctx.used(ev)
        per = {}
        for e in s.effs:
            if e.kind != "call" or not str(e.d.get("name", "")).startswith("d_evaluate"):
                continue
            h = base_obj(e.d["args"][0])
            hk = handler_kind(h)
            if hk is None:
                continue
            kind, tr, m = hk
            if m is None:
                raise AnalysisBroken("matrix of a handler not determined at %s" % (e.where(),))
            if Evaluator.root(m).op != "this":
                continue   # a helper working on a parameter; seen at its callers
            d = per.setdefault((kind, tr, m), {"owner": f.get("rc") or f["q"], "matrix": show(m), "kind": kind, "transposed": tr, "calls": set(),
                                               "fn": f["q"], "where": str(e.where()), "events": []})
            d["calls"].add(e.d["name"])
            d["events"].append(e)
        out += list(per.values())
    return out
