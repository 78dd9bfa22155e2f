"""C19: read-only and identity objects cannot be altered or duplicated by client code."""
import subprocess
import tempfile
import os
from worlds import *
from flow import *
import program
import objs
from shape import PArr, Obj as SObj
import numpy as np

TECHNIQUE = "compile-fail witnesses: a generated translation unit of static assertions over the repository's own classes; plus an effect analysis of constant operations and a rule against casts that drop constness"
NOTE = ("Decided by the C++ type system. Client code that casts constness away itself is outside the property. Networks may be moved (their nodes and edges stay where they are); nodes and edges may not. "
        "The writable-access operations a read-only series inherits compile on a non-constant object and are shown to end with an error on every path.")

VIEWS = "Aux::InterpolatingVector_Base"

PRELUDE = r"""
#include <type_traits>
#include <utility>
#include <string>
template <class T, class = void> struct w_coeff : std::false_type {};
template <class T> struct w_coeff<T, std::void_t<decltype(std::declval<T &>().coeffRef(0) = 1.0)>> : std::true_type {};
template <class T, class = void> struct w_index : std::false_type {};
template <class T> struct w_index<T, std::void_t<decltype(std::declval<T &>()[0] = 1.0)>> : std::true_type {};
template <class T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
template <class T> struct owns : std::integral_constant<bool, std::is_base_of_v<Eigen::PlainObjectBase<T>, T>> {};
template <class T, class = void> struct plain : std::false_type {};
template <class T> struct plain<T, std::enable_if_t<std::is_base_of_v<Eigen::EigenBase<T>, T>>> : owns<T> {};
template <class T, class = void> struct eigen : std::false_type {};
template <class T> struct eigen<T, std::enable_if_t<std::is_base_of_v<Eigen::EigenBase<T>, T>>> : std::true_type {};
// does a value of type R, as returned by a function, give write access to something that outlives it?
template <class R> constexpr bool writable() {
  using B = bare<R>;
  if (std::is_lvalue_reference_v<R> && !std::is_const_v<std::remove_reference_t<R>>) return true;
  if (std::is_pointer_v<B>) return !std::is_const_v<std::remove_pointer_t<B>>;
  if (eigen<B>::value && !plain<B>::value) return w_coeff<B>::value || w_index<B>::value;
  return false;
}
"""


def args(m):
    return ", ".join("std::declval<%s>()" % p["t"] for p in m["p"])


def run(ctx):
    P, H = ctx.P, ctx.H
    R = P.records
    ids = [c for c in H.derived("Network::Idobject") if c in R]
    views = [c for c in H.derived(VIEWS) if c in R]
    ctx.need(len(ids) >= 15, "classes of identified objects not found")
    ctx.need(len(views) >= 4, "interpolating vectors not found")
    asserts = []   # (rule, instance, key, where, condition)
    for c in sorted(ids):
        w = "%s:%d" % (R[c]["file"], R[c].get("l", 0))
        for rule, cond in (("not-copyable", "!std::is_copy_constructible_v<%s>" % c), ("not-copyable", "!std::is_constructible_v<%s, %s &>" % (c, c)),
                           ("not-copyable", "!std::is_copy_assignable_v<%s>" % c), ("not-movable", "!std::is_move_constructible_v<%s>" % c),
                           ("not-movable", "!std::is_constructible_v<%s, %s const &&>" % (c, c)), ("not-movable", "!std::is_move_assignable_v<%s>" % c),
                           ("not-movable", "!std::is_assignable_v<%s &, %s const &&>" % (c, c))):
            if R[c]["abstract"] and "constructible" in cond:
                continue
            asserts.append((rule, "%s: %s" % (c, cond), c, w, cond))
    owners = [x for x in ("Network::Net", "Model::Networkproblem") if x in R]
    ctx.need(len(owners) == 2, "network and problem classes not found")
    for c in sorted(["Network::Idobject"] + views):
        for m in R[c]["methods"]:
            if m["static"] or m["deleted"] or m.get("ctor") or m["n"].startswith("~") or m["acc"] != 0:
                continue
            if not m["const"] and c != "Network::Idobject":
                continue
            if m["n"].startswith("operator "):
                continue
            obj = "std::declval<%s %s&>()" % (c, "const " if m["const"] else "")
            asserts.append(("constant-access-is-read-only", "%s::%s(%s)" % (c, m["n"], ", ".join(p["n"] for p in m["p"])), "%s::%s" % (c, m["n"]), "%s:%d" % (R[c]["file"], m["l"]),
                            "!writable<decltype(%s.%s(%s))>()" % (obj, m["n"], args(m))))
    for c in sorted(views):
        asserts.append(("constant-series-not-assignable", c, c, R[c]["file"], "!std::is_assignable_v<%s const &, %s const &>" % (c, VIEWS)))
        if any("Eigen::Map" in f["t"] for f in R[c]["fields"]):
            asserts.append(("storage-is-not-shared-silently", "%s is not copy constructible from a constant object" % c, c, R[c]["file"],
                            "!std::is_copy_constructible_v<%s> || !writable<decltype(std::declval<%s &>().mut_timestep(0))>() || std::is_constructible_v<%s, Aux::Interpolation_data, Eigen::Index, double const *, Eigen::Index>" % (c, c, c)))
            ro = any("Eigen::Map<const" in f["t"] for f in R[c]["fields"])
            if not ro:
                for first in ("Aux::Interpolation_data", "std::vector<double>", "Eigen::Ref<Eigen::VectorXd const> const &"):
                    asserts.append(("read-only-storage-needs-a-read-only-view", "%s from %s and double const*" % (c, first), c, R[c]["file"],
                                    "!std::is_constructible_v<%s, %s, Eigen::Index, double const *, Eigen::Index>" % (c, first)))
    witness(ctx, asserts)
    must_not_compile(ctx, [(c, how, code % {"c": c}) for c in owners for how, code in
                           (("copy construction", "void w(%(c)s const &a) { %(c)s b(a); }"), ("copy assignment", "void w(%(c)s const &a, %(c)s &b) { b = a; }"))])
    # nothing mutable, no public data, no cast that drops constness
    for c in sorted(ids) + sorted(views) + ["Network::Net", "Model::Networkproblem"]:
        bad = [f["n"] for f in R[c]["fields"] if f.get("mutable")]
        ctx.ob("no-mutable-data", c, not bad, R[c]["file"], "field %s can be changed through constant references" % bad, key=c)
    for c in ["Network::Idobject"] + sorted(views):
        bad = [f["n"] for f in R[c]["fields"] if f["acc"] == 0 and not f["t"].startswith("const ")]
        ctx.ob("no-public-data", c, not bad, R[c]["file"], "field %s can be assigned" % bad, key=c)
    effects(ctx, ["Network::Idobject"] + sorted(views))
    casts(ctx, ids, views)
    throws(ctx, views)
    untouched(ctx, views)


def witness(ctx, asserts):
    P = ctx.P
    srcs, hdrs, incs = program.source_files(P.repo)
    fl = program.pch(program.flags(incs, P.repo)) or program.flags(incs, P.repo)
    files = sorted({P.records[k]["file"] for k in P.records if any(k == a[2] or a[2].startswith(k + "::") for a in asserts)})
    tmp = tempfile.mkdtemp(prefix="c19w")
    try:
        src = os.path.join(tmp, "witness.cpp")
        with open(src, "w") as f:
            f.write("#include <Eigen/Dense>\n#include <Eigen/Sparse>\n")
            for h in files:
                if h.endswith((".hpp", ".h")):
                    f.write('#include "%s"\n' % h)
            f.write(PRELUDE)
            for i, a in enumerate(asserts):
                f.write('static_assert(%s, "C19#%d#");\n' % (a[4], i))
        r = subprocess.run(["clang++", "-fsyntax-only", src] + fl, capture_output=True, text=True)
        err = [l for l in r.stderr.splitlines() if ": error:" in l or "fatal error" in l]
        failed, other = set(), []
        for l in err:
            if "C19#" in l:
                failed.add(int(l.split("C19#")[1].split("#")[0]))
            else:
                other.append(l)
        ctx.need(not other, "the witness does not compile: %s" % "; ".join(other[:3]))
        for i, (rule, inst, key, where, cond) in enumerate(asserts):
            ctx.ob(rule, inst, i not in failed, where, "a program relying on the contrary compiles: static assertion fails: %s" % cond, key=key)
    finally:
        for x in os.listdir(tmp):
            os.unlink(os.path.join(tmp, x))
        os.rmdir(tmp)


def must_not_compile(ctx, cases):
    """whole programs that have to be rejected (members hide the error from type traits)"""
    P = ctx.P
    srcs, hdrs, incs = program.source_files(P.repo)
    fl = program.pch(program.flags(incs, P.repo)) or program.flags(incs, P.repo)
    tmp = tempfile.mkdtemp(prefix="c19w")
    try:
        ps = []
        for i, (c, how, code) in enumerate(cases + [(cases[0][0], "control", "void w(%s &a) { (void)&a; }" % cases[0][0])]):
            src = os.path.join(tmp, "w%d.cpp" % i)
            with open(src, "w") as f:
                for h in sorted({P.records[x]["file"] for x in (c, "Network::Node", "Network::Edge", "Network::Net")}):
                    f.write('#include "%s"\n' % h)
                f.write(code + "\n")
            ps.append((c, how, code, subprocess.Popen(["clang++", "-fsyntax-only", src] + fl, stderr=subprocess.PIPE, text=True)))
        for c, how, code, p in ps:
            err = p.communicate()[1]
            if how == "control":
                ctx.need(p.returncode == 0, "the control program does not compile: %s" % err[:300])
            else:
                ctx.ob("not-copyable", "%s: %s" % (c, how), p.returncode != 0, P.records[c]["file"], "this program compiles: %s" % code, key=c)
    finally:
        for x in os.listdir(tmp):
            os.unlink(os.path.join(tmp, x))
        os.rmdir(tmp)


def effects(ctx, classes):
    """operations on constant objects write nothing that belongs to the object"""
    P, H = ctx.P, ctx.H
    n = 0
    for c in classes:
        for m in P.records[c]["methods"]:
            if m["static"] or m.get("ctor") or m["n"].startswith("~") or m["deleted"] or m["pure"]:
                continue
            if not m["const"] and c != "Network::Idobject":
                continue
            if m["key"] not in P.functions or P.functions[m["key"]]["b"] is None:
                continue
            if m["n"] == "operator=":
                continue
            targets = [c] if not P.records[c]["abstract"] else [d for d in H.concrete(c)][:4]
            for t in targets:
                f = P.functions[m["key"]]
                ev = Evaluator(P, H)
                s = ev.run(m["key"], this_cls=t)
                ctx.used(ev)
                n += 1
                bad = []
                for e in s.effs:
                    if e.kind in ("store", "outarg"):
                        r = Evaluator.root(e.d["loc"] if e.d["loc"].op != "seg" else e.d["loc"].args[0])
                        if any(x.op == "this" for x in subterms(r)):
                            bad.append((e, "writes %s" % show(e.d["loc"])[:120]))
                    elif e.kind == "call" and isinstance(e.d.get("recv"), T) and not e.d.get("mc"):
                        r = Evaluator.root(e.d["recv"] if e.d["recv"].op != "seg" else e.d["recv"].args[0])
                        if any(x.op == "this" for x in subterms(r)) and not e.d.get("const"):
                            bad.append((e, "calls non-const %s on %s" % (e.d.get("q") or e.d.get("name"), show(e.d["recv"])[:100])))
                ctx.ob("constant-operations-write-nothing", "%s on %s" % (f["q"], t), not bad, bad[0][0].where() if bad else "%s:%d" % (f["file"], f["l"]),
                       "; ".join(b for _, b in bad[:3]), key=f["q"])
    ctx.floor("constant-operations-write-nothing", 12)


def casts(ctx, ids, views):
    """constness is not cast away inside the operations of these classes, nor from their data elsewhere"""
    P = ctx.P
    prot = set(ids) | set(views)
    n = 0
    for k, f in sorted(P.functions.items()):
        if f["b"] is None:
            continue
        c = f.get("rc") or ""
        n += 1
        for x in iter_nodes({"b": f["b"], "i": f.get("inits")}):
            hit = None
            if x.get("k") == "constcast":
                t = str(x.get("t", ""))
                if c in prot and f.get("mc") or c == "Aux::ConstMappedInterpolatingVector" or any(p in t for p in prot) or "string" in t:
                    if not (c in prot and not f.get("mc") and c not in views and "string" not in t):
                        hit = "const_cast to %s" % t
            elif str(x.get("q", "")).endswith("::const_cast_derived"):
                if c in prot:
                    hit = "const_cast_derived"
            if hit:
                ctx.ob("constness-is-not-cast-away", "%s in %s" % (hit, f["q"]), False, "%s:%s" % (f["file"], x.get("l", f["l"])), hit, key=f["q"])
    ctx.ob("constness-is-not-cast-away", "%d function bodies searched" % n, True)
    # C-style and reinterpret casts: the compiler's own diagnosis on the implementation files
    srcs, hdrs, incs = program.source_files(P.repo)
    fl = [x for x in program.flags(incs, P.repo) if x != "-w"]
    mine = sorted({f["file"] for f in P.functions.values() if f.get("rc") in (set(views) | {"Network::Idobject", "Network::Node", "Network::Edge", "Network::Net"}) and f["file"].endswith(".cpp")})
    ctx.need(len(mine) >= 2, "implementation files not found")
    ps = [(s, subprocess.Popen(["clang++", "-fsyntax-only", "-Wno-everything", "-Wcast-qual", s] + fl, stderr=subprocess.PIPE, text=True)) for s in mine]
    for s, p in ps:
        err = p.communicate()[1]
        bad = [l for l in err.splitlines() if "-Wcast-qual" in l]
        ctx.ob("constness-is-not-cast-away", os.path.basename(s), not bad, s, "; ".join(bad[:3]), key=os.path.basename(s))


def throws(ctx, views):
    """writable access to a read-only series always ends with an error"""
    P, H = ctx.P, ctx.H
    for c in sorted(views):
        if not any("Eigen::Map<const" in f["t"] for f in P.records[c]["fields"]):
            continue
        for m in P.records[c]["methods"]:
            if m["n"] == "allvalues" and not m["const"]:
                f = P.functions.get(m["key"])
                ctx.need(f is not None and f["b"] is not None, "%s::allvalues not found" % c)
                W = Walker(P, H, Domain())
                outs = W.start(f)
                bad = [k for k, _, _ in outs if k == "ok"]
                ctx.ob("write-access-to-read-only-data-is-an-error", "%s::allvalues()" % c, not bad, "%s:%d" % (f["file"], f["l"]), "some path returns writable access", key=c)
                ctx.units.add(f["q"])
    ctx.floor("write-access-to-read-only-data-is-an-error", 1)


def untouched(ctx, views):
    """every modifying operation a read-only series has, run on abstract values: the data stay as they are, and only the operations of the view itself end normally"""
    P, H = ctx.P, ctx.H
    n = 0
    for c in sorted(views):
        if not any("Eigen::Map<const" in f["t"] for f in P.records[c]["fields"]):
            continue
        ms = [(b, m) for b in H.bases(c) if b in P.records for m in P.records[b]["methods"]
              if not m["static"] and not m.get("ctor") and not m["n"].startswith("~") and not m["deleted"] and not m["pure"] and not m["const"]
              and m["key"] in P.functions and P.functions[m["key"]]["b"] is not None]
        if not ms:
            raise AnalysisBroken("%s: modifying operations not found" % c)
        for b, m in ms:
            f = P.functions[m["key"]]

            def go(I, f=f, c=c, m=m):
                def view(tag):
                    g = next(g for g in P.functions.values() if g.get("ctor") and g.get("rc") == c and g["b"] is not None and len(g["p"]) == 4 and "std::vector" in g["p"][0]["t"])
                    o, store = SObj(c), PArr(np.array([objs.mk("sym", tag + str(i)) for i in range(6)] + [None], dtype=object)[:6], 0)
                    I.call(g, o, [objs.Cell(objs.Vec([objs.Cell(objs.num(x)) for x in (0, 1, 3)])), 2, store, 6])
                    return o, store
                o, store = view("v")
                a = []
                for p in m["p"]:
                    t = p["t"].replace("const", "").replace("&", "").strip()
                    if t.endswith("InterpolatingVector_Base") or t == c or t.endswith("ConstMappedInterpolatingVector"):
                        a.append(objs.Cell(view("w")[0]))
                    elif "*" in t:
                        a.append(PArr(np.array([objs.mk("sym", "x%d" % i) for i in range(6)] + [None], dtype=object)[:6], 0))
                    elif "Matrix" in t or "VectorXd" in t or "Ref<" in t:
                        k = 2 if len(m["p"]) > 1 else 6
                        a.append(objs.Cell(column(k)))
                    elif t == "double":
                        a.append(objs.num(1))
                    elif t in ("long", "int", "Eigen::Index", "unsigned long", "std::size_t"):
                        a.append(6 if "number" in p["n"] else 1)
                    else:
                        raise objs.Unmodelled("argument of type %s" % t)
                try:
                    I.call(f, o, a)
                    how = None
                except objs.Thrown as x:
                    how = x
                left = [objs.show(objs.tt(x)) for x in store.a]
                return left, how

            def judge(o, b=b, c=c, m=m):
                if o.kind == "throw":
                    raise objs.Unmodelled("constructing the view fails")
                if o.kind == "ub":
                    return "undefined behaviour: %s" % (o.value,)
                left, how = o.value
                if left != ["v%d" % i for i in range(6)]:
                    return "the data read %s afterwards" % left
                if how is None and b != c and m["acc"] == 0 and not m["n"].startswith("operator"):
                    return "writable access to read-only data ends without an error"
                return None
            n += 1
            objs.prove(ctx, "read-only-data-stay-as-they-are", "%s::%s(%s) on %s" % (b, m["n"], ", ".join(p["n"] for p in m["p"]), c), go, judge, "%s:%d" % (f["file"], f["l"]), key="%s::%s" % (b, m["n"]))
    ctx.floor("read-only-data-stay-as-they-are", 5)


def column(k):
    from optworld import vec
    return vec([objs.mk("sym", "x%d" % i) for i in range(k)])


run.explanation = ("Every class of identified objects and every time series class is put under static assertions in a generated translation unit compiled against the current headers: no copy, no move, no writable result from a constant operation; "
                   "the effect analysis interprets every constant operation; each non-constant access of the read-only series is followed to an error on every path.")
