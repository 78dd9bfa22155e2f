"""Instantiation of component objects for the abstract interpreter.

A World is a small object graph (nodes, edges, the connecting power plant)
whose *shape* is fixed (which classes, how many attached edges, how many grid
points) while every physical parameter and every state value stays a free
symbol.  Fields are located through the public accessors of the classes (the
location a getter reads), never through private names.  No program code is
executed: functions are interpreted over the term domain of vlib.alg."""
from alg import *
from sem import *

EQ, ST, CO = "Model::Equationcomponent", "Model::Statecomponent", "Model::Controlcomponent"
COST, CONS = "Model::Costcomponent", "Model::Constraintcomponent"
NODE, EDGE = "Network::Node", "Network::Edge"
IVB = "Aux::InterpolatingVector_Base"
F, LS, NS, CT, LT, NT = (mk("glob", "@" + n) for n in ("F", "last_state", "new_state", "control", "last_time", "new_time"))
J = mk("glob", "@J")


class World:
    def __init__(self, P, H, opaque=None):
        self.P, self.H = P, H
        ivb = set(H.derived(IVB)) | set(H.bases(IVB))
        self.ev = Evaluator(P, H, opaque=opaque or (lambda f: f.get("rc") in ivb))
        self.st = State()
        self.ev.cur = Frame({"q": "<world>", "n": "<world>", "file": "", "p": [], "rt": "", "l": 0}, None, None, None)
        self.objs = {}

    def new(self, name, cls):
        loc = mk("glob", "@" + name)
        self.objs[name] = (loc, cls)
        self.ev.dyntype[loc] = cls
        # containers and links start out empty; every parameter stays symbolic
        for c in self.H.bases(cls):
            for f in self.P.records.get(c, {"fields": []})["fields"]:
                t = strip_cv(f["t"])
                if t.startswith("std::vector<"):
                    self.st.env[mk("fld", loc, f["n"])] = mk("list")
                elif t.rstrip().endswith("*") and f.get("init"):
                    self.st.env[mk("fld", loc, f["n"])] = mk("nullptr")
        return loc

    def cls(self, loc):
        return self.ev.dyntype[loc]

    # ---------------------------------------------------------------- access
    def key(self, iface, name, nparams=None):
        m, c = self.H.find_method(iface, name, nparams)
        if m is None:
            raise AnalysisBroken("%s::%s not found" % (iface, name))
        return m["key"]

    def impl(self, cls, iface, name):
        k, c = self.H.final_overrider(cls, self.key(iface, name))
        if k is None or k not in self.P.functions:
            raise AnalysisBroken("no implementation of %s::%s for %s" % (iface, name, cls))
        return self.P.functions[k]

    def call(self, loc, iface, name, *args, commit=True):
        """interpret loc->name(args); returns (value, effects)"""
        f = self.impl(self.cls(loc), iface, name)
        st = self.st if commit else self.st.copy()
        n0 = len(self.ev.effs)
        v, fr = self.ev.call_function(f, loc, self.cls(loc), list(args), st, 0)
        self.last = st
        if st.dead:
            raise AnalysisBroken("%s on %s cannot return normally" % (f["q"], self.cls(loc)))
        return v, self.ev.effs[n0:]

    def learn(self, cls, iface, getter):
        """location (relative to `this`) whose value the getter returns"""
        f = self.impl(cls, iface, getter)
        s = Evaluator(self.P, self.H).run(f["key"], this_cls=cls)
        v = s.val
        if not Evaluator.is_loc(v) or Evaluator.root(v).op not in ("this", "deref"):
            raise AnalysisBroken("%s of %s does not return a stored field: %s" % (getter, cls, show(v)[:100]))
        return v

    def put(self, obj, cls, iface, getter, val):
        l = self.learn(cls, iface, getter)
        loc = subst(l, lambda t: obj if t is mk("this") else None)
        self.st.env[loc] = val

    # ----------------------------------------------------------- construction
    def connect(self, edge, a, b):
        c = self.cls(edge)
        self.put(edge, c, EDGE, "get_starting_node", mk("addr", a))
        self.put(edge, c, EDGE, "get_ending_node", mk("addr", b))

    def attach(self, node, starting, ending):
        c = self.cls(node)
        self.put(node, c, NODE, "get_starting_edges", mk("list", *[mk("addr", e) for e in starting]))
        self.put(node, c, NODE, "get_ending_edges", mk("list", *[mk("addr", e) for e in ending]))

    def build(self, nodes, edges, points=3):
        """nodes: [(name, class)], edges: [(name, class, from, to)]"""
        for n, c in nodes:
            self.new(n, c)
        for n, c, a, b in edges:
            self.new(n, c)
            self.connect(self.objs[n][0], self.objs[a][0], self.objs[b][0])
        for n, c in nodes:
            self.attach(self.objs[n][0], [self.objs[e][0] for e, _, a, _ in edges if a == n],
                        [self.objs[e][0] for e, _, _, b in edges if b == n])
        locs = [self.objs[n][0] for n, *_ in nodes + edges]
        for l in locs:
            if self.H.isa(self.cls(l), "Model::Equation_base"):
                self.call(l, "Model::Equation_base", "setup")
        self.nstate = self.ncontrol = self.nconstraint = 0
        self.range = {}
        for l in locs:
            a = self.nstate
            self.nstate = self.number(l, "state", self.nstate, points)
            self.range[l] = (a, self.nstate)
        for l in locs:
            self.ncontrol = self.number(l, "control", self.ncontrol, points)
        for l in locs:
            self.nconstraint = self.number(l, "constraint", self.nconstraint, points)
        self.all = locs
        return self

    def number(self, loc, which, start, ints):
        """state / control / constraint indices through the virtual setter; integer
        parameters the index arithmetic depends on are instantiated from `ints`"""
        iface, name = {"state": (ST, "set_state_indices"), "control": (CO, "set_control_indices"),
                       "constraint": (CONS, "set_constraint_indices")}[which]
        if not self.H.isa(self.cls(loc), iface):
            return start
        for _ in range(4):
            v, _e = self.call(loc, iface, name, num(start), commit=False)
            if is_num(v):
                v, _e = self.call(loc, iface, name, num(start))
                return int(v.args[0])
            free = [t for t in subterms(v) if t.op == "fld" and Evaluator.root(t) is loc]
            free = [t for t in free if t not in self.st.env]
            if not free:
                break
            for t in free:
                self.st.env[t] = num(ints)
        raise AnalysisBroken("%s of %s: size not determined (%s)" % (name, self.cls(loc), show(v)[:80]))


def rows_written(st, vec=F):
    """{row: value} of the entries of `vec` in the final state"""
    out = {}
    for k, v in st.env.items():
        if k.op == "elt" and k.args[0] is vec:
            i = k.args[1]
            if is_num(i):
                out[int(i.args[0])] = v
            else:
                raise AnalysisBroken("row index not determined: %s" % show(k)[:100])
        elif k is vec or (k.op in ("fld", "elt", "tget") and Evaluator.root(k) is vec):
            raise AnalysisBroken("unsupported write to the residual: %s" % show(k)[:100])
    return out


def coefficients(effs, handler=J):
    """{(row, col): value} summed over the handler calls, plus the list of calls"""
    out, calls = {}, []
    for e in effs:
        if e.kind == "call" and e.d.get("name") == "add_to_coefficient" and e.d.get("recv") is handler:
            r, c, v = e.d["args"]
            r, c = canon(r), canon(c)
            if e.loops:
                raise AnalysisBroken("coefficient written in a loop whose length is not determined at %s" % (e.where(),))
            if not is_num(r) or not is_num(c):
                raise AnalysisBroken("coefficient position not determined: (%s,%s) at %s" % (show(r)[:60], show(c)[:60], e.where()))
            calls.append((int(r.args[0]), int(c.args[0]), v, e))
            k = (int(r.args[0]), int(c.args[0]))
            out[k] = add(out.get(k, ZERO), ite(band(*e.core), v, ZERO))
        elif e.kind == "call" and e.d.get("recv") is handler:
            raise AnalysisBroken("unmodelled Matrixhandler call %s at %s" % (e.d.get("name"), e.where()))
    return out, calls
