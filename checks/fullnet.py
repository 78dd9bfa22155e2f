"""A network problem holding fully interpreted components."""
from networld import *


class FullNet:
    """the network problem of world `w`: constructed by its own constructor on a
    network delivering the world's nodes and edges; the components are those of
    the world (their index ranges are already set)"""

    def __init__(self, w):
        self.w, self.P, self.H, self.ev, self.st = w, w.P, w.H, w.ev, w.st
        self.nodes = [o for o in w.all if w.H.isa(w.cls(o), NODE)]
        self.edges = [o for o in w.all if w.H.isa(w.cls(o), EDGE)]
        self.net, self.np = self.obj("net", NET), self.obj("problem", NP)
        for n, lst in (("get_nodes", self.nodes), ("get_edges", self.edges)):
            NetWorld.fill(self, n, lst)
        ctor = [f for f in self.P.functions.values() if f.get("rc") == NP and f.get("ctor") and f["b"] is not None]
        if len(ctor) != 1:
            raise AnalysisBroken("constructor of %s not found" % NP)
        self.call_f(ctor[0], mk("addr", self.net))

    obj = NetWorld.obj
    call_f = NetWorld.call_f
    call = NetWorld.call
