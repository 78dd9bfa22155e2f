"""C13: rewriting a json file never loses its previous content."""
from c11 import *

TECHNIQUE = "typestate analysis with a content model of the file system: old, partial and new contents are followed through every operation and its failure; the state after each operation is a crash point"
NOTE = ("rename is atomic and a successful close means the content is on disk (no fsync model). Concurrent writers are not considered. A copy can stop half-way.")


def jsonish(t):
    return "basic_json" in t or "json" in t.lower()


def run(ctx):
    g, direct, rel = callgraph(ctx.P)
    fs = []
    for k in sorted(rel):
        f = ctx.P.functions[k]
        if f["b"] is None:
            continue
        pp = [p for p in f["p"] if "std::filesystem::path" in p["t"]]
        jj = [p for p in f["p"] if jsonish(p["t"])]
        if pp and jj and "json" in f["file"].lower() and writes_param(ctx, f, pp):
            fs.append((f, pp, jj))
    ctx.need(fs, "no function that rewrites a json file found")
    entries = set()
    for f, pp, jj in fs:
        for p in pp:
            i = f["p"].index(p)
            target = ("op", "par", i, p["n"])
            for had in (True, False):
                dom = Files(ctx.P, contents=True, target=target)
                dom.newdata = jj[0]["n"]
                dom.single = False
                W = Walker(ctx.P, ctx.H, dom)
                d = dom.init()
                d["had"] = had
                d[("C", target)] = ("old", target) if had else "absent"
                outs = W.start(f, dom=d)
                inst = "%s, %s" % (f["q"], "file present" if had else "no file")
                ctx.need(any(k == "ok" for k, _, _ in outs), "%s has no successful path" % f["q"])
                bad = list(dict.fromkeys(dom.bad))
                for rule, where, q, detail in bad:
                    ctx.ob(rule, inst, False, where, detail, key="%s|%s" % (q, rule))
                for r in ("old-or-new-content-on-disk", "nothing-else-is-destroyed"):
                    if not any(b[0] == r for b in bad):
                        ctx.ob(r, inst, True, "%s:%d" % (f["file"], f["l"]))
                notnew = [s for k, s, v in outs if k == "ok" and s.dom.get(("C", target)) != "new"]
                ctx.ob("success-means-new-content", inst, not notnew, "%s:%d" % (f["file"], f["l"]),
                       "a normal return leaves %s under the file's name" % (notnew[0].dom.get(("C", target)) if notnew else "",), key=f["q"])
                # after an error the previous content is under the file's name or another one: no crash point lost it
                ctx.units |= W.walked
        entries.add(f["key"])
    # nobody else rewrites a json file it has read
    for k in sorted(rel):
        f = ctx.P.functions[k]
        if f["b"] is None or k in entries or not any(e in g[k] for e in entries):
            continue
        dom = Files(ctx.P)
        dom.opaque = entries
        W = Walker(ctx.P, ctx.H, dom)
        W.start(f)
        hit = sorted(o for o in dom.seen["ops"] if "open for writing" in o or "fopen" in o or " remove" in o or " rename" in o)
        ctx.ob("only-through-the-safe-rewrite", f["q"], not hit, "%s:%d" % (f["file"], f["l"]), "also touches files directly: %s" % hit[:3], key=f["q"])
        ctx.units |= W.walked
    for r, n in (("old-or-new-content-on-disk", 2), ("success-means-new-content", 2)):
        ctx.floor(r, n)


def writes_param(ctx, f, pp):
    from sem import iter_nodes
    ids = {p["id"] for p in pp}
    return any(interesting(n) and any(x.get("k") == "var" and x.get("id") in ids for x in iter_nodes({"a": n.get("a")})) for n in iter_nodes(f["b"]))


run.explanation = ("Every function that writes a json value to a path it is given is followed over all outcomes of its file operations, once with and once without a file there. After each operation "
                   "the old content must be complete under some name or the new content complete under the file's name; no other file's content may be destroyed.")
