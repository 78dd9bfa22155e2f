"""The network problem over a small concrete network, component methods opaque."""
from worlds import *

NP, NET = "Model::Networkproblem", "Network::Net"


def mixes(ctx):
    """component lists: nothing, every concrete node and edge class once, some twice"""
    H = ctx.H
    nodes = sorted(c for c in H.concrete(NODE))
    edges = sorted(c for c in H.concrete(EDGE))
    ctx.need(len(nodes) >= 10 and len(edges) >= 5, "component classes not found")
    yield "empty network", [], []
    yield "every class once", nodes, edges
    yield "every class twice", nodes + nodes[::-1], edges[::-1] + edges
    for c in nodes:
        yield "only a %s" % c, [c], []
    for c in edges:
        yield "only a %s" % c, [], [c]


class NetWorld:
    """the problem is constructed by interpreting its own constructor on a
    network whose get_nodes()/get_edges() deliver the given components"""

    def __init__(self, P, H, nodes, edges):
        self.P, self.H = P, H
        self.ev = Evaluator(P, H)
        self.ev.unroll = 200
        self.st = State()
        self.ev.cur = Frame({"q": "<world>", "n": "<world>", "file": "", "p": [], "rt": "", "l": 0}, None, None, None)
        self.comps = []
        for i, c in enumerate(nodes):
            self.comps.append(self.obj("n%d" % i, c))
        for i, c in enumerate(edges):
            self.comps.append(self.obj("e%d" % i, c))
        self.nodes, self.edges = self.comps[:len(nodes)], self.comps[len(nodes):]
        self.net = self.obj("net", NET)
        self.np = self.obj("problem", NP)
        cs = set(self.comps)
        self.ev.keep = lambda loc, f: loc in cs
        # the network: its own accessors are interpreted over its own members
        for n, lst in (("get_nodes", self.nodes), ("get_edges", self.edges)):
            self.fill(n, lst)
        ctor = [f for k, f in P.functions.items() if f.get("rc") == NP and f.get("ctor") and f["b"] is not None]
        if len(ctor) != 1:
            raise AnalysisBroken("constructor of %s not found" % NP)
        self.call_f(ctor[0], mk("addr", self.net))

    def obj(self, n, c):
        l = mk("glob", "@" + n)
        self.ev.dyntype[l] = c
        return l

    def fill(self, getter, lst):
        """find the member the getter reads and fill it"""
        ks = [f for k, f in self.P.functions.items() if f.get("rc") == NET and f["n"] == getter]
        if not ks:
            raise AnalysisBroken("%s::%s not found" % (NET, getter))
        s = Evaluator(self.P, self.H).run(ks[0]["key"], this_cls=NET)
        fields = {t for t in subterms(s.val) if t.op == "fld" and t.args[0] is mk("this")}
        if len(fields) != 1:
            raise AnalysisBroken("%s::%s does not read one member: %s" % (NET, getter, [show(x) for x in fields]))
        fl = fields.pop()
        self.st.env[mk("fld", self.net, fl.args[1])] = mk("list", *[mk("addr", l) for l in lst])

    def call_f(self, f, *args, st=None):
        st = st or self.st
        n0 = len(self.ev.effs)
        v, fr = self.ev.call_function(f, self.np, NP, list(args), st, 0)
        if st.dead:
            raise AnalysisBroken("%s cannot return normally" % f["q"])
        return v, self.ev.effs[n0:]

    def call(self, iface, name, *args, commit=True, nparams=None):
        H = self.H
        m, c = H.find_method(iface, name, nparams)
        if m is None:
            raise AnalysisBroken("%s::%s not found" % (iface, name))
        k, _ = H.final_overrider(NP, m["key"])
        if k not in self.P.functions:
            raise AnalysisBroken("%s::%s is not implemented by %s" % (iface, name, NP))
        return self.call_f(self.P.functions[k], *args, st=self.st if commit else self.st.copy())
