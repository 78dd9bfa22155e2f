"""C24: evaluating a model changes nothing but the requested output."""
from worlds import *

TECHNIQUE = "interprocedural side-effect (mod-ref) analysis of every evaluation entry point and everything it calls"
NOTE = ("Decides that no evaluation can write to anything but its output argument: object fields (also mutable ones), objects reached through "
        "stored pointers, globals and function-local statics. Calls into the standard library and Eigen are taken to modify only non-const "
        "receivers and arguments.")


def entry_points(ctx):
    H = ctx.H
    for iface in (EQ, CO, COST, CONS):
        for m in H.rec[iface]["methods"]:
            if m["virt"] and (m["n"].startswith("evaluate") or m["n"].startswith("d_evaluate")):
                yield iface, m
    np_ = "Model::Networkproblem"
    for m in H.rec[np_]["methods"]:
        if m["n"].startswith("evaluate") or m["n"].startswith("d_evaluate"):
            yield np_, m


def run(ctx):
    H, P = ctx.H, ctx.P
    work = []
    for iface, m in entry_points(ctx):
        for cls in sorted(H.concrete(iface)):
            k, c = H.final_overrider(cls, m["key"])
            if k in P.functions and P.functions[k]["b"] is not None:
                work.append((k, cls, m["n"]))
    for m in H.rec[IVB]["methods"]:
        if m["n"] == "operator()":
            for cls in sorted(set(H.concrete(IVB))):
                k, c = H.final_overrider(cls, m["key"])
                if k is None:
                    k = m["key"]
                if k in P.functions and P.functions[k]["b"] is not None:
                    work.append((k, cls, m["n"]))
    ctx.need(len(work) >= 60, "evaluation entry points not found (%d)" % len(work))
    seen = set()
    while work:
        k, cls, why = work.pop()
        f = P.functions[k]
        if (k, cls) in seen:
            continue
        seen.add((k, cls))
        ev = Evaluator(P, H)
        s = ev.run(k, this_cls=cls)
        ctx.used(ev)
        outs = [mk("par", i, p["n"]) for i, p in enumerate(f["p"]) if p["by"] in ("r", "p") or (is_view(p["t"]) and "<const" not in p["t"])]
        bad = []
        for e in s.effs:
            if e.kind in ("store", "outarg"):
                r = Evaluator.root(e.d["loc"] if e.d["loc"].op != "seg" else e.d["loc"].args[0])
                if r.op != "var" and r not in outs:
                    bad.append((e, "writes %s" % show(e.d["loc"])[:120]))
            elif e.kind == "staticlocal":
                if any(x.op in ("par", "this", "elt", "fld", "m") for x in subterms(e.d["init"])):
                    bad.append((e, "keeps a value of its first call in a static variable"))
            elif e.kind == "call":
                rc = e.d.get("recv")
                if rc is not None and isinstance(rc, T) and not e.d.get("mc"):
                    r = Evaluator.root(rc) if rc.op != "seg" else Evaluator.root(rc.args[0])
                    if r.op == "deref":
                        t = [x for x in subterms(r) if x.op in ("this", "par", "glob")]
                    if r.op != "var" and r not in outs and e.d.get("name") not in ("setZero",) or (r.op not in ("var",) and r not in outs):
                        if not isstream(r):
                            bad.append((e, "calls non-const %s on %s" % (e.d.get("q") or e.d.get("name"), show(rc)[:120])))
                # virtual callees kept opaque are followed
                key = e.d.get("key")
                if key in H.method_by_key:
                    for c2 in H.derived(H.method_by_key[key][0]):
                        if H.rec[c2]["abstract"]:
                            continue
                        k2, _ = H.final_overrider(c2, key)
                        if k2 in P.functions and P.functions[k2]["b"] is not None and P.functions[k2].get("mc"):
                            work.append((k2, c2, "called by " + f["q"]))
                elif key in P.functions and P.functions[key]["b"] is not None and P.functions[key] is not f:
                    pass
        ctx.ob("evaluation-is-pure", "%s on %s" % (f["q"], cls), not bad, bad[0][0].where() if bad else "%s:%d" % (f["file"], f["l"]),
               "; ".join(sorted({b for _, b in bad})[:4]), key=f["q"])
    ctx.floor("evaluation-is-pure", 60)


def isstream(r):
    return r.op == "glob" and str(r.args[0]) in ("std::cout", "std::cerr", "std::clog")


run.explanation = "For every concrete component class and the network problem, every evaluation and derivative function is interpreted with all callees inlined; each write effect is traced to the object it modifies."
