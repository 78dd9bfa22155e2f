"""C17: failures end the program with a non-zero exit status."""
from worlds import *
from errs import *

TECHNIQUE = "exception-flow analysis of main and of the commands it registers; all ends of main are enumerated with the event that led there"
NOTE = ("CLI11 ignores what callbacks return and passes their exceptions on; App::exit prints the message and returns a non-zero status for every parse error (help and version requests aside). "
        "An exception that leaves main ends the program through std::terminate, which is unsuccessful.")


class Main(Swallow):
    EVENTS = ("CLI::ParseError", "std::bad_alloc", "std::invalid_argument", "nlohmann::parse_error", "char const *")

    def init(self):
        return {"caught": frozenset(), "msg": False, "event": None}

    def call(self, W, st, q, e, recv, rkey, vals, keys):
        if q.endswith("App::parse"):
            return [("ok", with_dom(st, event="done"), None)] + [("throw", with_dom(st, event=x), ("exc", x)) for x in self.EVENTS]
        if q.endswith("App::exit"):
            return [("ok", with_dom(st, msg=True), ("op", "exitcode"))]
        r = super().call(W, st, q, e, recv, rkey, vals, keys)
        if r is not None:
            return r
        if q.startswith("std::exception::") or q.startswith("std::basic_") or q.startswith("std::operator"):
            return [("ok", st, UNK)]
        return [("ok", st, UNK)] + ([("throw", with_dom(st, event="std::bad_alloc"), ("exc", "std::bad_alloc"))] if st.dom["event"] is None else [])


def run(ctx):
    P, H = ctx.P, ctx.H
    mains = [f for f in P.functions.values() if f["q"] == "main" and f["b"] is not None and "/Grazer/" in f["file"]]
    ctx.need(len(mains) == 1, "main not found")
    m = mains[0]
    W = Walker(P, H, Main())
    outs = W.start(m)
    seen = {}
    for k, s, v in outs:
        ev = s.dom["event"]
        if k == "throw":
            seen.setdefault(ev, []).append((True, True, "terminate"))
            continue
        zero = v in (0, None) or v is False
        code = v if not (v == ("op", "exitcode")) else "exit code of the parse error"
        if ev == "done":
            seen.setdefault(ev, []).append((zero, True, code))
        elif ev is None:
            seen.setdefault(ev, []).append((not zero, True, code))
        else:
            ok = not zero and (v != ("op", "exitcode") or ev == "CLI::ParseError") and v != UNK
            seen.setdefault(ev, []).append((ok, s.dom["msg"], code))
    where = "%s:%d" % (m["file"], m["l"])
    for ev, rs in sorted(seen.items(), key=str):
        if ev is None:
            for ok, _, c in rs:
                ctx.ob("status-follows-the-outcome", "main ends before the command was run", ok, where, "returns %s" % (c,), key="main|none")
            continue
        what = "main after %s" % ("the command ended normally" if ev == "done" else "an error of class " + ev)
        for ok, msg, c in rs:
            ctx.ob("status-follows-the-outcome", what, ok, where, "returns %s" % (c,), key="main|" + str(ev))
            ctx.ob("errors-are-reported", what, msg, where, "no message", key="main|" + str(ev))
    ctx.need("done" in seen and len(seen) >= 5, "main does not run the parser")
    # the commands: failure only by exception, since their results are ignored
    cmds = set()
    lams = [n for n in iter_nodes(m["b"]) if n.get("k") == "lambda"]
    called = set()
    for n in iter_nodes(m["b"]):
        if n.get("fn") in P.functions and n.get("in"):
            called.add(n["fn"])
    ints = {k for k, f in P.functions.items() if f.get("rt") == "int" and f["b"] is not None and ("/Grazer/" in f["file"] or "/json_schema/" in f["file"])}
    for k in sorted(called):
        f = P.functions[k]
        if f["b"] is None:
            continue
        cmds.add(f["q"])
        W = Walker(P, H, Swallow(ints - {k}))
        outs = W.start(f)
        ctx.units |= W.walked
        bad = [v for kind, s, v in outs if kind in ("ok", "exit") and v not in (0, None) and not (kind == "exit")]
        ctx.ob("commands-fail-by-exception", f["q"], all(v == UNK or isinstance(v, tuple) for v in bad), "%s:%d" % (f["file"], f["l"]),
               "returns %s, which the command line parser ignores" % bad[:3], key=f["q"], terms=())
        quiet = [s for kind, s, v in outs if kind == "exit" and v == 0]
        ctx.ob("no-quiet-exit", f["q"], not quiet, "%s:%d" % (f["file"], f["l"]), "exits with status zero", key=f["q"])
    ctx.need(len(cmds) >= 3, "commands not found")
    # nothing on the way keeps an error for itself
    _, tries = handlers(ctx, P, H)
    ctx.need(tries >= 8, "try blocks not found")
    # errors inside the callbacks themselves
    for l in lams:
        for t in (n for n in iter_nodes(l["b"]) if n.get("k") == "try"):
            ends = any(x.get("k") == "throw" for h in t["h"] for x in iter_nodes(h["b"]))
            ctx.ob("callbacks-pass-errors-on", "callback in main, line %s" % t["l"], ends, "%s:%s" % (m["file"], t["l"]), "the handler in the callback swallows the error", key="lambda")
        ctx.ob("callbacks-pass-errors-on", "callback in main, line %s" % l["l"], True)
    # nobody ends the program successfully on the way
    for k, f in sorted(P.functions.items()):
        if f["b"] is None:
            continue
        for n in iter_nodes(f["b"]):
            if n.get("k") == "call" and n.get("q") in ("exit", "std::exit", "_exit", "std::quick_exit", "quick_exit", "std::_Exit", "_Exit"):
                a = n["a"][0] if n.get("a") else {}
                ctx.ob("no-quiet-exit", "%s:%s" % (f["file"].split("/src/")[-1], n["l"]), not (a.get("k") == "int" and a.get("v") == "0"), "%s:%s" % (f["file"], n["l"]),
                       "the program ends with status zero from inside %s" % f["q"], key=f["q"])
    ctx.units.add("main")
    ctx.floor("status-follows-the-outcome", 5)


run.explanation = ("main is followed over all paths; running the parser can end normally or with a parse error, standard exceptions, json exceptions or anything else, and each end of main is compared "
                   "with the event. The commands called from the callbacks return nothing but success, since their results are ignored, so that they can fail by exception only. Every handler in the program is followed to all its ends: it must end in an exception or a failure value.")
