"""Dense linear algebra over matrices of known shape, entry by entry.

Values: vec (a column, or any one-dimensional object), mat2(rows, cols, entries by
row), sp(rows, cols, ((i, j, value), ...)) for sparse matrices.
Views: view(storage, offset, rows, cols, rowstride, colstride) is a location inside
the storage's linear (row by row) sequence of entries; ptr(storage, offset) the
address of one of them."""
import sem
from sem import *

sem.VIEW = re.compile(r"Eigen::(?:Ref|Block|VectorBlock|Map)<")
MATT = re.compile(r"Eigen::Matrix<[\w ]+, (-?\d+), (-?\d+), (\d+)")
MAPT = re.compile(r"Eigen::(?:Map|Ref)<(?:const )?Eigen::Matrix<[\w ]+, (-?\d+), (-?\d+), (\d+)")
SPT = "Eigen::SparseMatrix<"
LUT = "Eigen::SparseLU<"


def I(t):
    """integer value of a number term"""
    return int(t.args[0]) if is_num(t) and t.args[0].denominator == 1 else None


class DenseEvaluator(Evaluator):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.vectors = True
        self.nfac = 0
        self.solver_ok = None   # called for every factorization: a boolean term

    # -------------------------------------------------------------- values
    @staticmethod
    def known(v):
        return v.op in ("vec", "mat2", "sp", "list")

    def shape(self, v):
        if v.op in ("vec", "list"):
            return len(v.args), 1
        if v.op in ("mat2", "sp"):
            return v.args[0], v.args[1]
        return None

    def entries(self, v):
        if v.op in ("vec", "list"):
            return list(v.args)
        if v.op == "mat2":
            return list(v.args[2])
        out = [ZERO] * (v.args[0] * v.args[1])
        for i, j, x in v.args[2]:
            out[i * v.args[1] + j] = add(out[i * v.args[1] + j], x)
        return out

    @staticmethod
    def make(r, c, ent):
        return mk("vec", *ent) if c == 1 else mk("mat2", r, c, tuple(ent))

    def with_entries(self, v, ent):
        """the same storage with other entries"""
        if v.op in ("vec", "list"):
            return mk(v.op, *ent)
        if v.op == "mat2":
            return mk("mat2", v.args[0], v.args[1], tuple(ent))
        return mk("sp", v.args[0], v.args[1], tuple((i, j, x) for (i, j, _), x in zip(v.args[2], ent)))

    def linear(self, v):
        return [x for _, _, x in v.args[2]] if v.op == "sp" else self.entries(v)

    # ------------------------------------------------------------- locations
    @staticmethod
    def is_loc(r):
        return r.op == "view" or Evaluator.is_loc(r)

    def val(self, st, x):
        return self.read_any(st, x) if x.op == "view" else super().val(st, x)

    def read_any(self, st, loc):
        if loc.op == "view":
            s, off, r, c, rs, cs = loc.args
            v = super().read_any(st, s)
            if not self.known(v):
                return loc
            e = self.linear(v)
            idx = [off + i * rs + j * cs for i in range(r) for j in range(c)]
            if any(not 0 <= k < len(e) for k in idx):
                return mk("unknown", "index", str(idx))
            return self.make(r, c, [e[k] for k in idx])
        if loc.op == "seg":
            w = self.view_of(loc, st)
            if w is not None:
                return self.read_any(st, w)
        if loc.op == "elt" and loc.args[0].op == "view":
            k = self.elt_of_view(loc.args[0], loc.args[1])
            if k is not None:
                return self.read_any(st, k)
        if loc.op == "elt" and I(loc.args[1]) is not None:
            v = super().read_any(st, loc.args[0]) if Evaluator.is_loc(loc.args[0]) else None
            if v is not None and v.op == "mat2" and 0 <= I(loc.args[1]) < len(v.args[2]):
                return v.args[2][I(loc.args[1])]
        return super().read_any(st, loc)

    def elt_of_view(self, w, key):
        s, off, r, c, rs, cs = w.args
        if key.op == "pair":
            i, j = I(key.args[0]), I(key.args[1])
        else:
            i = I(key)
            i, j = (i, 0) if c == 1 else (0, i) if r == 1 else (None, None)
        if i is None or j is None or not (0 <= i < r and 0 <= j < c):
            return None
        return mk("view", s, off + i * rs + j * cs, 1, 1, 1, 1)

    def view_of(self, loc, st):
        """the location as a view, None if its shape is not known"""
        if loc.op == "view":
            return loc
        if loc.op == "seg":
            b = self.view_of(loc.args[0], st)
            o, n = I(loc.args[1]), I(loc.args[2])
            if b is None or o is None or n is None:
                return None
            s, off, r, c, rs, cs = b.args
            return mk("view", s, off + o * (rs if c == 1 else cs), n, 1, rs if c == 1 else cs, 1)
        if not Evaluator.is_loc(loc):
            return None
        v = super().read_any(st, loc)
        if not self.known(v) or v.op == "sp":
            return None
        r, c = self.shape(v)
        return mk("view", loc, 0, r, c, c, 1)

    def sub(self, w, r0, c0, nr, nc):
        s, off, r, c, rs, cs = w.args
        if not (0 <= r0 and 0 <= c0 and r0 + nr <= r and c0 + nc <= c and nr >= 0 and nc >= 0):
            return None
        return mk("view", s, off + r0 * rs + c0 * cs, nr, nc, rs, cs)

    def write(self, st, loc, val, line=0, emit=True):
        if st.dead:
            return
        if loc.op == "seg":
            w = self.view_of(loc, st)
            if w is not None:
                loc = w
        if loc.op == "elt" and loc.args[0].op in ("view", "seg"):
            w = self.view_of(loc.args[0], st)
            k = self.elt_of_view(w, loc.args[1]) if w is not None else None
            if k is not None:
                loc = k
        if loc.op == "elt" and I(loc.args[1]) is not None and Evaluator.is_loc(loc.args[0]):
            v = super().read_any(st, loc.args[0])
            if v.op == "mat2" and 0 <= I(loc.args[1]) < len(v.args[2]):
                loc = mk("view", loc.args[0], I(loc.args[1]), 1, 1, 1, 1)
        if loc.op == "view":
            s, off, r, c, rs, cs = loc.args
            v = super().read_any(st, s)
            idx = [off + i * rs + j * cs for i in range(r) for j in range(c)]
            if not self.known(v):
                self.notes.add("write through a view of unknown storage")
                super().write(st, s, mk("unknown", "view", loc, val), line, emit)
                return
            e = self.linear(v)
            if self.known(val) and len(self.entries(val)) == len(idx):
                new = self.entries(val)
            elif val.op == "zeros":
                new = [ZERO] * len(idx)
            elif len(idx) == 1 and not self.known(val):
                new = [val]
            else:
                new = [mk("unknown", "shape", val)] * len(idx)
            if any(not 0 <= k < len(e) for k in idx):
                super().write(st, s, mk("unknown", "index", str(idx)), line, emit)
                return
            for k, x in zip(idx, new):
                e[k] = x
            super().write(st, s, self.with_entries(v, e), line, emit)
            return
        if self.known(val) and val.op != "list" and Evaluator.is_loc(loc):
            # assignment to a matrix keeps its orientation where it is a vector
            old = st.env.get(loc)
            if old is not None and old.op == "mat2" and self.shape(old) != self.shape(val) and 1 in self.shape(old) and 1 in self.shape(val) \
                    and len(self.entries(old)) == len(self.entries(val)):
                val = mk("mat2", *self.shape(old), tuple(self.entries(val)))
        super().write(st, loc, val, line, emit)

    def deref(self, st, v):
        if v.op == "ptr":
            return mk("view", v.args[0], v.args[1], 1, 1, 1, 1)
        return super().deref(st, v)

    def call_function(self, f, this, thiscls, argv, st, line, toplevel=False, closure=None):
        # views are passed by alias
        argv = list(argv)
        for i, (p, a) in enumerate(zip(f["p"], argv)):
            if a.op == "view" and (p["by"] in ("r", "c", "m") or is_view(p["t"])):
                argv[i] = a
            elif a.op == "seg":
                w = self.view_of(a, st)
                if w is not None:
                    argv[i] = w
        return super().call_function(f, this, thiscls, argv, st, line, toplevel, closure)

    # ------------------------------------------------------------- arithmetic
    def binop(self, op, x, y, tx=None, ty=None):
        kx, ky = x.op in ("vec", "mat2", "sp"), y.op in ("vec", "mat2", "sp")
        if x.op == "ptr" and op in "+-" and I(y) is not None:
            return mk("ptr", x.args[0], x.args[1] + (I(y) if op == "+" else -I(y)))
        if op in ("==", "!=") and "ptr" in (x.op, y.op) and "nullptr" in (x.op, y.op):
            return FALSE if op == "==" else TRUE
        if not (kx or ky):
            return super().binop(op, x, y, tx, ty)
        if op in ("+", "-") and kx and ky:
            if len(self.entries(x)) == len(self.entries(y)) and (self.shape(x) == self.shape(y) or 1 in self.shape(x) and 1 in self.shape(y)):
                f = add if op == "+" else sub
                return self.make_like(x, [f(a, b) for a, b in zip(self.entries(x), self.entries(y))])
            return mk("unknown", op, x, y)
        if op == "*" and kx and ky:
            (r, k), (k2, c) = self.shape(x), self.shape(y)
            if k != k2:
                return mk("unknown", "product", x, y)
            a, b = self.entries(x), self.entries(y)
            return self.make(r, c, [add(*[mul(a[i * k + q], b[q * c + j]) for q in range(k)]) if k else ZERO for i in range(r) for j in range(c)])
        if op in ("*", "/") and not self._structured(y if kx else x):
            m, s = (x, y) if kx else (y, x)
            if op == "/":
                if not kx:
                    return mk("unknown", op, x, y)
                s = power(s, -1)
            return self.make_like(m, [mul(a, s) for a in self.entries(m)])
        if op in ("==", "!=") and kx and ky:
            if self.shape(x) != self.shape(y):
                return FALSE if op == "==" else TRUE
            c = band(*[Evaluator.binop(self, "==", a, b) for a, b in zip(self.entries(x), self.entries(y))])
            return c if op == "==" else bnot(c)
        return super().binop(op, x, y, tx, ty)

    def make_like(self, x, ent):
        return mk("mat2", x.args[0], x.args[1], tuple(ent)) if x.op in ("mat2", "sp") else mk("vec", *ent)

    def negv(self, v, e=None):
        if v.op == "sp":
            return self.make(v.args[0], v.args[1], [neg(x) for x in self.entries(v)])
        return super().negv(v, e)

    def advance(self, v, d):
        if v.op == "ptr":
            return mk("ptr", v.args[0], v.args[1] + I(d))
        return super().advance(v, d)

    def size_of(self, c, st):
        v = self.val(st, c) if self.is_loc(c) else c
        if v.op == "mat2":
            return num(v.args[0] * v.args[1])
        if c.op == "view":
            return num(c.args[2] * c.args[3])
        return super().size_of(v if v.op != "unknown" else c, st)

    def advance_elt(self, cont, i):
        if cont.op == "view":
            return self.elt_of_view(cont, num(i))
        return super().advance_elt(cont, i)

    def read(self, st, loc):
        if loc.op == "view":
            return self.read_any(st, loc)
        return super().read(st, loc)

    @staticmethod
    def _structured(v):
        return v.op == "sp" or Evaluator._structured(v)

    # ----------------------------------------------------------- construction
    def fresh(self, t, dims):
        m = MATT.match(t)
        r, c = int(m.group(1)), int(m.group(2))
        if len(dims) == 1:
            r, c = (1, dims[0]) if r == 1 else (dims[0], 1)
        else:
            r, c = dims
        if r * c > 4096:
            return None
        ent = [mk("uninit", num(i)) for i in range(r * c)]
        return mk("mat2", r, c, tuple(ent)) if r == 1 and c != 1 or int(m.group(2)) != 1 else mk("vec", *ent)

    def e_ctor(self, e, st, declloc=None):
        t = strip_cv(e.get("t", ""))
        if t.startswith("Eigen::") and not (e.get("copy") or e.get("move")):
            if MAPT.match(t) and t.startswith("Eigen::Map<"):
                a = [self.rvalue(x, st) for x in e["a"]]
                m = MAPT.match(t)
                if a and a[0].op == "addr" and a[0].args[0].op == "elt" and I(a[0].args[0].args[1]) is not None:
                    a[0] = mk("ptr", a[0].args[0].args[0], I(a[0].args[0].args[1]))
                if a and a[0].op == "ptr" and all(I(x) is not None for x in a[1:3]):
                    s, off = a[0].args
                    n = [I(x) for x in a[1:3]]
                    if len(n) == 1:
                        return mk("view", s, off, n[0], 1, 1, 1) if m.group(1) != "1" else mk("view", s, off, 1, n[0], 1, 1)
                    if len(n) == 2:
                        rowmajor = int(m.group(3)) & 1
                        return mk("view", s, off, n[0], n[1], n[1] if rowmajor else 1, 1 if rowmajor else n[0])
                if a and a[0].op == "spptr":
                    s = a[0].args[0]
                    return mk("view", s, 0, len(self.read_any(st, s).args[2]), 1, 1, 1)
            elif t.startswith(SPT):
                a = [self.rvalue(x, st) for x in e["a"]]
                if len(a) == 2 and all(I(x) is not None for x in a):
                    return mk("sp", I(a[0]), I(a[1]), ())
                if not a:
                    return mk("sp", 0, 0, ())
            elif MATT.match(t):
                a = [self.rvalue(x, st) for x in e["a"]]
                if a and len(a) <= 2 and all(I(x) is not None for x in a) and all(is_scalar(x.get("t", "")) for x in e["a"]):
                    v = self.fresh(t, [I(x) for x in a])
                    if v is not None and small_dims(t) is None:
                        return v
                if len(a) == 1 and self.known(a[0]):
                    return self.into(t, a[0])
                if len(a) == 2 and a[0].op == "ptr" and I(a[1]) is not None:
                    return self.read_any(st, mk("view", a[0].args[0], a[0].args[1], I(a[1]), 1, 1, 1))
            elif t.startswith("Eigen::Triplet<"):
                a = [self.rvalue(x, st) for x in e["a"]]
                if len(a) == 3:
                    return mk("tup", *a)
        return super().e_ctor(e, st, declloc)

    def into(self, t, v):
        m = MATT.match(t)
        if v.op == "sp":
            return self.make(v.args[0], v.args[1], self.entries(v))
        if v.op == "list":
            return mk("vec", *v.args)
        if m and v.op == "vec" and m.group(1) == "1" and m.group(2) != "1":
            return mk("mat2", 1, len(v.args), v.args)
        if m and v.op == "mat2" and m.group(2) == "1" and v.args[0] == 1:
            return mk("vec", *v.args[2])
        return v

    def external(self, e, st, q, recv, argv, pr):
        name = q.split("::")[-1]
        if "Eigen" in q and name in ("Zero", "Ones", "Constant"):
            vals = tuple(self.val(st, a) if self.is_loc(a) else a for a in argv)
            dims = vals[:-1] if name == "Constant" else vals
            if dims and all(I(x) is not None for x in dims):
                x = ZERO if name == "Zero" else ONE if name == "Ones" else vals[-1]
                m = MATT.search(strip_cv(e.get("t", "")))
                d = [I(y) for y in dims]
                r, c = d if len(d) == 2 else (1, d[0]) if m and m.group(1) == "1" else (d[0], 1)
                if r * c <= 4096:
                    ent = [x] * (r * c)
                    return mk("mat2", r, c, tuple(ent)) if len(d) == 2 or r == 1 and c != 1 else mk("vec", *ent)
        return super().external(e, st, q, recv, argv, pr)

    # ---------------------------------------------------------------- methods
    def ext_operator(self, e, st, op):
        t0 = strip_cv(e["a"][0].get("t", ""))
        if op in ("[]", "()") and t0.startswith("Eigen::"):
            base = self.expr(e["a"][0], st)
            if base is not None and base.op in ("view", "seg"):
                w = self.view_of(base, st)
                idx = [canon(self.rvalue(x, st)) for x in e["a"][1:]]
                if w is not None:
                    k = self.elt_of_view(w, idx[0] if len(idx) == 1 else mk("pair", *idx))
                    return k if k is not None else mk("unknown", "index", *idx)
            if base is not None and not self.is_loc(base) and self.known(base):
                idx = [canon(self.rvalue(x, st)) for x in e["a"][1:]]
                r, c = self.shape(base)
                k = [I(x) for x in idx]
                if None not in k:
                    p = k[0] if len(k) == 1 else k[0] * c + k[1]
                    en = self.entries(base)
                    return en[p] if 0 <= p < len(en) else mk("unknown", "index", *idx)
        if op in ("+=", "-=", "*=", "/=", "=") and t0.startswith("Eigen::"):
            y = self.rvalue(e["a"][1], st)
            loc = self.expr(e["a"][0], st)
            if st.dead:
                return loc
            if loc is not None and self.is_loc(loc):
                w = loc if loc.op != "seg" else self.view_of(loc, st) or loc
                if op == "=":
                    self.write(st, w, self.into(t0, y) if self.known(y) and w.op != "view" else y, e["l"])
                else:
                    self.write(st, w, self.binop(op[0], self.read_any(st, w), y, t0, e["a"][1].get("t")), e["l"])
                return loc
        return super().ext_operator(e, st, op)

    def ext_method(self, e, st, loc):
        name = e.get("n") or ""
        t0 = strip_cv(e["e"].get("t", ""))
        line = e["l"]
        if t0.startswith("std::vector<") and name == "data" and self.is_loc(loc):
            return mk("ptr", loc, 0)
        if not t0.startswith("Eigen::"):
            return super().ext_method(e, st, loc)
        if t0.startswith(LUT) or "SparseLUTransposeView" in t0:
            r = self.lu(e, st, loc, name, line)
            if r is not None:
                return r
        isloc = self.is_loc(loc)
        v = self.read_any(st, loc) if isloc else loc
        known = v.op in ("vec", "mat2", "sp")
        if name in ("noalias", "array", "matrix", "eval", "derived"):
            return loc
        if name == "resize" and isloc and (t0.startswith(SPT) or MATT.match(t0)):
            a = [I(self.rvalue(x, st)) for x in e["a"]]
            if None not in a:
                self.emit("call", st, line, name=name, q=e.get("q"), recv=loc, args=(), key=e.get("fn"), res=mk("void"), mc=False, locs=(), node=e)
                nv = mk("sp", a[0], a[1], ()) if t0.startswith(SPT) else self.fresh(t0, a)
                self.write(st, loc, nv, line, emit=False)
                return mk("void")
        if not known:
            return super().ext_method(e, st, loc)
        r, c = self.shape(v)
        en = self.linear(v)
        if name == "size" and not e["a"]:
            return num(r * c)
        if name == "rows":
            return num(r)
        if name == "cols":
            return num(c)
        if name == "nonZeros":
            return num(len(en))
        if name == "data" and isloc:
            if loc.op == "view":
                return mk("ptr", loc.args[0], loc.args[1])
            if loc.op == "seg":
                w = self.view_of(loc, st)
                return mk("ptr", w.args[0], w.args[1]) if w is not None else mk("unknown", "data")
            return mk("ptr", loc, 0)
        if name == "valuePtr" and isloc and v.op == "sp":
            return mk("spptr", loc)
        if name in ("setZero", "setOnes", "setConstant", "fill") and isloc:
            self.emit("call", st, line, name=name, q=e.get("q"), recv=loc, args=(), key=e.get("fn"), res=mk("void"), mc=False, locs=(), node=e)
            if v.op == "sp":
                if name == "setZero":   # removes the entries
                    self.write(st, loc, mk("sp", r, c, ()), line, emit=False)
                    return loc
            else:
                x = ZERO if name == "setZero" else ONE if name == "setOnes" else self.rvalue(e["a"][0], st)
                self.write(st, loc, self.make(r, c, [x] * (r * c)) if v.op == "mat2" and c == 1 else self.make_like(v, [x] * (r * c)), line, emit=False)
                return loc
        if name == "isZero":
            return band(*[cmp_eq(x, ZERO) for x in en])
        if name in ("coeff", "coeffRef") and len(e["a"]) == 2 and v.op == "sp" and isloc:
            i, j = [I(canon(self.rvalue(x, st))) for x in e["a"]]
            k = [n for n, (a, b, _) in enumerate(v.args[2]) if (a, b) == (i, j)]
            if not k and i is not None and j is not None:
                if name == "coeff":
                    return ZERO
                ent = tuple(sorted(v.args[2] + ((i, j, ZERO),), key=lambda x: (x[1], x[0])))
                self.emit("newentry", st, line, loc=loc, pos=(i, j))
                self.write(st, loc, mk("sp", r, c, ent), line, emit=False)
                k = [n for n, (a, b, _) in enumerate(ent) if (a, b) == (i, j)]
            if k:
                return mk("view", loc, k[0], 1, 1, 1, 1)
        if name == "setFromTriplets" and v.op == "sp" and isloc:
            a = [self.rvalue(x, st) for x in e["a"]]
            if len(a) == 2 and all(x.op == "iter" for x in a) and a[0].args[0] is a[1].args[0]:
                lst = self.val(st, a[0].args[0])
                lo, hi = I(a[0].args[1]), I(a[1].args[1])
                if lst.op == "list" and lo is not None and hi is not None:
                    acc = {}
                    for t in lst.args[lo:hi]:
                        t = self.val(st, t)
                        p = t.args[1:] if t.op == "new" else t.args
                        if len(p) != 3 or I(p[0]) is None or I(p[1]) is None:
                            acc = None
                            break
                        k = (I(p[0]), I(p[1]))
                        acc[k] = add(acc[k], p[2]) if k in acc else p[2]
                    if acc is not None:
                        bad = [k for k in acc if not (0 <= k[0] < r and 0 <= k[1] < c)]
                        self.emit("call", st, line, name=name, q=e.get("q"), recv=loc, args=(), key=e.get("fn"), res=mk("void"), mc=False, locs=(), node=e)
                        nv = mk("unknown", "index", str(bad)) if bad else mk("sp", r, c, tuple((i, j, acc[i, j]) for i, j in sorted(acc, key=lambda x: (x[1], x[0]))))
                        self.write(st, loc, nv, line, emit=False)
                        return mk("void")
        a = None
        if name in ("block", "leftCols", "rightCols", "middleCols", "topRows", "bottomRows", "middleRows", "row", "col", "segment", "head", "tail"):
            a = [I(canon(self.rvalue(x, st))) for x in e["a"]]
            if not a or None in a:
                a = None
        if a:
            box = {"block": lambda: tuple(a) if len(a) == 4 else None, "leftCols": lambda: (0, 0, r, a[0]), "rightCols": lambda: (0, c - a[0], r, a[0]),
                   "middleCols": lambda: (0, a[0], r, a[1]) if len(a) == 2 else None, "topRows": lambda: (0, 0, a[0], c), "bottomRows": lambda: (r - a[0], 0, a[0], c),
                   "middleRows": lambda: (a[0], 0, a[1], c) if len(a) == 2 else None, "row": lambda: (a[0], 0, 1, c), "col": lambda: (0, a[0], r, 1),
                   "segment": lambda: ((a[0], 0, a[1], 1) if c == 1 else (0, a[0], 1, a[1])) if len(a) == 2 else None,
                   "head": lambda: (0, 0, a[0], 1) if c == 1 else (0, 0, 1, a[0]), "tail": lambda: (r - a[0], 0, a[0], 1) if c == 1 else (0, c - a[0], 1, a[0])}[name]()
            if box is not None:
                if not isloc:
                    l2 = self.newvar("tmp")
                    st.env[l2] = v
                    loc = l2
                w = self.view_of(loc, st)
                w = self.sub(w, *box) if w is not None else None
                return w if w is not None else mk("unknown", "block", str(box), v)
        if name == "transpose":
            en = self.entries(v)
            return mk("mat2", c, r, tuple(en[i * c + j] for j in range(c) for i in range(r))) if r != 1 or c == 1 and r != 1 else self.make(c, r, en)
        if name in ("maxCoeff", "minCoeff") and not e["a"] and len(en) == 1:
            return en[0]
        if name == "operator=":
            x = self.rvalue(e["a"][0], st)
            if isloc:
                self.write(st, loc, self.into(t0, x) if self.known(x) and loc.op != "view" else x, line)
            return loc
        return super().ext_method(e, st, loc)

    # ----------------------------------------------------- linear solver model
    def lu(self, e, st, loc, name, line):
        a = [self.rvalue(x, st) for x in e["a"]]
        if name in ("analyzePattern", "factorize", "compute") and self.is_loc(loc):
            self.emit("call", st, line, name=name, q=e.get("q"), recv=loc, args=tuple(a), key=e.get("fn"), res=mk("void"), mc=False, locs=(), node=e)
            if name != "analyzePattern":
                ok = mk("sym", "factorized%d" % self.nfac)
                self.nfac += 1
                self.write(st, loc, mk("lu", a[0], ok), line, emit=False)
            return mk("void")
        v = self.read_any(st, loc) if self.is_loc(loc) else loc
        if name == "info":
            if v.op == "lu":
                return ite(v.args[1], ZERO, ONE)
            return mk("m", "info", v)
        if name == "solve" and len(a) == 1:
            if v.op == "lu" and self.known(v.args[0]) and self.known(a[0]):
                x = self.solve(v.args[0], a[0])
                if x is not None:
                    return x
            return mk("unknown", "solve", v, *a)
        return None

    def solve(self, A, b):
        n, m = self.shape(A)
        r, c = self.shape(b)
        if n != m or r != n or n > 3:
            return None
        a, y = self.entries(A), self.entries(b)
        M = [a[i * n:(i + 1) * n] for i in range(n)]

        def det(M):
            if not M:
                return ONE
            return add(*[mul(num((-1) ** j), M[0][j], det([row[:j] + row[j + 1:] for row in M[1:]])) for j in range(len(M))])
        d = power(det(M), -1)
        cols = []
        for k in range(c):
            rhs = [y[i * c + k] for i in range(n)]
            cols.append([mul(d, det([row[:j] + [rhs[i]] + row[j + 1:] for i, row in enumerate(M)])) for j in range(n)])
        return self.make(r, c, [cols[k][i] for i in range(n) for k in range(c)])
