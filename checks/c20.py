"""C20: the network graph is consistent."""
import itertools
from objs import *

TECHNIQUE = "abstract interpretation of the edge, node and network constructors and of the network factory over all small topologies with opaque ids, plus effect analysis of who registers and unregisters edges"
NOTE = ("Topologies with up to 3 nodes and 2 edges, all patterns of equal and different ids (the code only compares ids). Component types stand for themselves by a node and an edge type without further data; "
        "that every concrete component hands its own description to the node or edge constructor is checked on the constructors' initialisers.")
N, E_, NET = "Network::Node", "Network::Edge", "Network::Net"


def lists(I, n):
    return plist(I.call(I.find(N + "::get_starting_edges"), n)), plist(I.call(I.find(N + "::get_ending_edges"), n))


def consistent(I, nodes, edges, want):
    """want: list of (from id, to id) per edge; nodes: id -> object"""
    for e, (a, b) in zip(edges, want):
        s, t = target(I.call(I.find(E_ + "::get_starting_node"), e)), target(I.call(I.find(E_ + "::get_ending_node"), e))
        if s is not nodes[a]:
            return "an edge described as starting at %s does not start there" % a
        if t is not nodes[b]:
            return "an edge described as ending at %s does not end there" % b
    for i, n in nodes.items():
        st, en = lists(I, n)
        for e, (a, b) in zip(edges, want):
            k, l = sum(x is e for x in st), sum(x is e for x in en)
            if k != (a == i):
                return "an edge from %s to %s is registered %d times as starting at %s" % (a, b, k, i)
            if l != (b == i):
                return "an edge from %s to %s is registered %d times as ending at %s" % (a, b, l, i)
        if len(st) + len(en) != sum((a == i) + (b == i) for a, b in want):
            return "node %s has unknown edges registered" % i
    return None


def run(ctx):
    edge_ctor(ctx)
    net_ctor(ctx)
    whole(ctx)
    registrars(ctx)
    handed(ctx)
    for r, n in (("edge-attached-once", 20), ("bad-edge-rejected", 8), ("net-checks", 4), ("network-as-described", 20), ("duplicate-rejected", 10), ("only-the-edge-registers", 1),
                 ("description-handed-on", 10)):
        ctx.floor(r, n)


def edge_ctor(ctx):
    w = at(ctx, "Network::Edge::Edge")
    for k in (1, 2, 3):
        ids = "abc"[:k]
        for perm in itertools.permutations(ids):
            for ends in itertools.product(itertools.product(ids + "z", repeat=2), repeat=1 if k == 3 else 2):
                def go(I):
                    ns = {x: new(I, N, to_j({"id": x})) for x in perm}
                    V = Cell(ups([ns[x] for x in perm]))
                    es = [new(I, E_, to_j({"id": "e%d" % j, "from": a, "to": b}), V) for j, (a, b) in enumerate(ends)]
                    return ns, es
                ok = all(a in ids and b in ids and a != b for a, b in ends)
                inst = "nodes %s, edges %s" % ("".join(perm), " ".join("%s->%s" % x for x in ends))

                def judge(o):
                    if not ok:
                        return None if o.kind == "throw" else "%s for an edge that names an unknown node or one node twice" % said(o)
                    if o.kind != "ok":
                        return said(o)
                    return consistent(o.I, o.value[0], o.value[1], ends)
                prove(ctx, "edge-attached-once" if ok else "bad-edge-rejected", inst, go, judge, w)


def net_ctor(ctx):
    w = at(ctx, "Network::Net::Net")

    def build(I, extra=None):
        a, b, c = [new(I, N, to_j({"id": x})) for x in "abc"]
        V = Cell(ups([a, b, c]))
        e = new(I, E_, to_j({"id": "e", "from": "a", "to": "b"}), V)
        f = new(I, E_, to_j({"id": "f", "from": "b", "to": "c"}), V)
        return a, b, c, e, f

    def net(I, ns, es):
        return new(I, NET, ups(ns), ups(es))

    def good(I):
        a, b, c, e, f = build(I)
        n = net(I, [a, b, c], [e, f])
        return n, a, b, c, e, f

    def judge(o):
        if o.kind != "ok":
            return said(o)
        n, a, b, c, e, f = o.value
        fs = [x for x in o.I.P.functions.values() if x["q"] in (NET + "::get_nodes", NET + "::get_edges") and x["b"] is not None]
        for x in fs:
            r = plist(o.I.call(x, n))
            want = [a, b, c] if x["q"].endswith("nodes") else [e, f]
            if len(r) != len(want) or any(sum(y is z for z in r) != 1 for y in want):
                return "%s does not give the network's own objects, each once" % x["q"]
        return consistent(o.I, {"a": a, "b": b, "c": c}, [e, f], [("a", "b"), ("b", "c")])
    prove(ctx, "net-checks", "consistent network", good, judge, w)
    for miss in range(3):
        def bad(I):
            a, b, c, e, f = build(I)
            return net(I, [x for j, x in enumerate((a, b, c)) if j != miss], [e, f])
        prove(ctx, "net-checks", "node %s missing" % "abc"[miss], bad, lambda o: None if o.kind == "throw" else "%s although an edge's node is not part of the network" % said(o), w)
    for which in (0, 1):
        for end in ("starting", "ending"):
            def bad(I):
                a, b, c, e, f = build(I)
                x = (e, f)[which]
                n = target(I.call(I.find(E_ + "::get_%s_node" % end), x))
                I.call(I.find(N + "::remove_edge"), n, [Ptr(Cell(x))])
                return net(I, [a, b, c], [e, f])
            prove(ctx, "net-checks", "edge %s not registered at its %s node" % ("ef"[which], end), bad,
                  lambda o: None if o.kind == "throw" else "%s although an edge is not registered at its node" % said(o), w)


def factory(I, nodetypes, edgetypes):
    """type maps whose types build plain nodes and edges"""
    AN, AE = "Model::Componentfactory::AbstractNodeType", "Model::Componentfactory::AbstractEdgeType"
    f = Obj("Model::Componentfactory::Componentfactory")

    def node(I, this, a, e):
        j = a[0].get() if isinstance(a[0], Ref) else a[0]
        o = new(I, N, j)
        I.made.append(o)
        return UP(Ptr(Cell(o)))

    def edge(I, this, a, e):
        j = a[0].get() if isinstance(a[0], Ref) else a[0]
        o = new(I, E_, j, a[1])
        I.made.append(o)
        return UP(Ptr(Cell(o)))
    I.made = []
    I.hooks[AN + "::make_instance"], I.hooks[AE + "::make_instance"] = node, edge
    C = f.cls
    f.f[(C, "node_type_map")] = Cell(MapV({t: Cell(UP(Ptr(Cell(Obj(AN))))) for t in nodetypes}))
    f.f[(C, "edge_type_map")] = Cell(MapV({t: Cell(UP(Ptr(Cell(Obj(AE))))) for t in edgetypes}))
    return f


def whole(ctx):
    w = at(ctx, "Model::build_net")
    cases = []
    # two nodes of one type, third of another; edges of two types; ids in all orders
    for order in itertools.permutations("abc"):
        for es in ([], [("S", "e", "a", "b")], [("S", "e", "a", "b"), ("S", "f", "b", "c")], [("S", "f", "c", "a"), ("R", "e", "a", "c")], [("S", "f", "b", "a"), ("S", "e", "a", "b")]):
            cases.append(([("T", order[0]), ("T", order[1]), ("U", order[2])], es))
    bad = []
    base = [("T", "a"), ("T", "b"), ("U", "c")]
    for i, j in ((0, 1), (0, 2), (1, 2)):
        d = list(base)
        d[j] = (d[j][0], d[i][1])
        bad.append((d, [], "two nodes share an id"))
        bad.append((d, [("S", "e", d[0][1], d[1][1])], "two nodes share an id"))
    for t in ("S", "R"):
        for n in "abc":
            bad.append((base, [(t, n, "a", "b")], "an edge has the id of a node"))
        bad.append((base, [("S", "e", "a", "b"), (t, "e", "b", "c")], "two edges share an id"))
        bad.append((base, [("S", "e", "a", "b"), (t, "e", "a", "b")], "two edges share an id"))

    def doc(ns, es):
        top = {"nodes": {}, "connections": {}}
        for t, i in ns:
            top["nodes"].setdefault(t, []).append({"id": i})
        for t, i, a, b in es:
            top["connections"].setdefault(t, []).append({"id": i, "from": a, "to": b})
        return to_j({"topology_json": top, "boundary_json": {"nodes": {}, "connections": {}}})

    def go_for(ns, es):
        def go(I):
            f = factory(I, "TU", "RS")
            o = I.call(I.find("Model::build_net", 2), None, [Cell(doc(ns, es)), Cell(f)])
            return target(o)
        return go
    for ns, es in cases:
        def judge(o):
            if o.kind != "ok":
                return said(o)
            I, n = o.I, o.value
            nd = plist(n.f[(NET, "nodes")]) if (NET, "nodes") in n.f else None
            gets = [x for x in I.P.functions.values() if x["q"] in (NET + "::get_nodes", NET + "::get_edges") and x["b"] is not None]
            got = {x["q"].rsplit("_", 1)[1]: plist(I.call(x, n)) for x in gets}
            idf = I.find("Network::Idobject::get_id")
            byid = {val(I.call(idf, x)): x for x in got["nodes"]}
            if sorted(byid) != sorted(i for _, i in ns) or len(got["nodes"]) != len(ns):
                return "nodes %s instead of %s" % (sorted(byid), sorted(i for _, i in ns))
            ee = {val(I.call(idf, x)): x for x in got["edges"]}
            if sorted(ee) != sorted(x[1] for x in es) or len(got["edges"]) != len(es):
                return "edges %s instead of %s" % (sorted(ee), sorted(x[1] for x in es))
            return consistent(I, byid, [ee[x[1]] for x in es], [x[2:] for x in es])
        prove(ctx, "network-as-described", "nodes %s, edges %s" % (ns, es), go_for(ns, es), judge, w)
    for ns, es, why in bad:
        prove(ctx, "duplicate-rejected", "nodes %s, edges %s" % (ns, es), go_for(ns, es), lambda o: None if o.kind == "throw" else "%s although %s" % (said(o), why), w)
    for es, why in (([("S", "e", "a", "z")], "an edge names an unknown node"), ([("S", "e", "z", "a")], "an edge names an unknown node"), ([("R", "e", "b", "b")], "an edge leads from a node to itself"),
                    ([("S", "d", "a", "b"), ("R", "e", "b", "b")], "an edge leads from a node to itself")):
        prove(ctx, "bad-edge-rejected", "build_net: edges %s" % (es,), go_for(base, es), lambda o: None if o.kind == "throw" else "%s although %s" % (said(o), why), w)


def registrars(ctx):
    """attaching is done by the edge constructor only, nothing in the library takes edges off"""
    from sem import iter_nodes
    P = ctx.P
    callers = {}
    for f in P.functions.values():
        for root in [f["b"]] + [i.get("e") for i in f.get("inits") or ()]:
            if root is None:
                continue
            for n in iter_nodes(root):
                k = n.get("fn")
                if k and k in P.functions:
                    callers.setdefault(P.functions[k]["q"], set()).add(f["q"])
    for q in ("attach_starting_edge", "attach_ending_edge", "remove_edge"):
        # transitive callers must all lead to the edge constructor
        seen, todo, roots = set(), [N + "::" + q], set()
        while todo:
            c = todo.pop()
            for x in callers.get(c, ()):
                if x in seen or x == "Network::Edge::Edge":
                    continue
                seen.add(x)
                if not callers.get(x):
                    roots.add(x)
                todo.append(x)
        ctx.ob("only-the-edge-registers", q, not roots, at(ctx, N + "::" + q), "also reached from %s" % sorted(roots)[:3], key=q)


def handed(ctx):
    """each component's constructor hands its own description on to Node or Edge"""
    P = ctx.P
    for f in sorted(P.functions.values(), key=lambda f: f["q"]):
        if not f.get("ctor") or f["b"] is None or not f.get("rc") or f["rc"] in (N, E_) or f.get("copy"):
            continue
        for i in f.get("inits") or ():
            if "base" not in i or i["e"].get("k") != "ctor":
                continue
            b = base_t(i["base"])
            if b not in P.records or not (b in (N, E_) or ctx.H.isa(b, N) or ctx.H.isa(b, E_)):
                continue
            if i["e"].get("inherited"):
                ctx.ob("description-handed-on", "%s -> %s" % (f["q"], b), True, "%s:%d" % (f["file"], f["l"]))
                continue
            a = i["e"].get("a") or []
            par = {p["id"]: p for p in f["p"]}
            ok = bool(a) and a[0].get("k") == "var" and a[0].get("id") in par
            und = not ok
            if (b == E_ or ctx.H.isa(b, E_)) and ok:
                ok = len(a) > 1 and a[1].get("k") == "var" and a[1].get("id") in par
                und = not ok
            ctx.ob("description-handed-on", "%s -> %s" % (f["q"], b), ok, "%s:%d" % (f["file"], f["l"]), "the arguments are not the constructor's own", key=f["q"],
                   terms=(mk("unknown", "arguments"),) if und else ())


run.explanation = ("Edge::Edge, Node, Net and build_net are interpreted on every topology of the stated size with opaque ids, including every pattern of duplicate, unknown and equal end ids. After a successful build each edge must "
                   "be registered exactly once, in its direction, at the two nodes of its description; every defective description must end in an exception. Call-graph analysis shows that only the edge constructor registers edges.")
