"""Obligations, known findings, evidence and the exit-code protocol."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from alg import *
from program import AnalysisBroken, REPO


# a loop whose turns were not determined, a mutation or expression not modelled
NOTFOLLOWED = {"fold", "loopvar", "havoc", "mut", "unknown", "while"}


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.obs = 0
        self.rules = {}
        self.violations = []
        self.undecided = []
        self.samples = []
        self.units = set()
        self.notes = []
        self.assumptions = []
        self.weak = 0
        self._P = None

    @property
    def P(self):
        if self._P is None:
            import program
            self._P = program.load()
        return self._P

    @property
    def H(self):
        if getattr(self, "_H", None) is None:
            from sem import Hierarchy
            self._H = Hierarchy(self.P)
        return self._H

    def analysed(self, *names):
        self.units.update(names)

    def used(self, ev):
        """record the functions an evaluator went through"""
        for k in ev.inlined:
            f = self.P.functions.get(k)
            self.units.add(f["q"] if f else str(k))

    def ob(self, rule, instance, ok, where="", detail="", key=None, witness=None, terms=()):
        """one obligation.  `key` identifies a failing instance independently of
        line numbers.  An obligation that does not hold because its `terms` contain
        constructs the interpreter could not follow is undecided, not violated."""
        self.obs += 1
        if not ok:
            why = next((x for t in terms if isinstance(t, T) for x in subterms(t) if x.op in NOTFOLLOWED), None)
            if why is not None:
                self.undecided.append({"rule": rule, "instance": instance, "where": str(where), "construct": show(why)[:200]})
                return False
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            r[1] += 1
            if r[1] <= 2:
                self.samples.append({"rule": rule, "instance": instance, "verdict": "holds", "where": str(where)})
        else:
            self.violations.append({"rule": rule, "instance": instance, "where": str(where), "detail": str(detail)[:2000],
                                    "key": "%s|%s" % (rule, key if key is not None else instance), "witness": witness})
        return ok

    def zero(self, rule, instance, term, where="", detail="", key=None, guards=()):
        """obligation: the term is identically zero"""
        how, wit = decide_zero(term, guards, self.seed, 600 if self.thorough else 240)
        if how == "identity-test":
            self.weak += 1
        return self.ob(rule, instance, how != "nonzero", where,
                       detail or ("terms differ: " + json.dumps(wit)[:900]) if how == "nonzero" else "", key, wit, terms=(term,))

    def incomplete(self, e):
        """the analysis met code it cannot model.  What was decided before stands (a
        violation is reported, the rest is recorded as undecided); without anything
        decided there is no answer at all"""
        self.undecided.append({"rule": "the rest of the analysis", "instance": str(e)[:300], "where": "", "construct": type(e).__name__})
        return bool(self.violations) or sum(b for a, b in self.rules.values()) > 0

    def need(self, cond, what):
        if not cond:
            raise AnalysisBroken(what)

    def floor(self, rule, n):
        """a rule must have matched at least n instances"""
        got = self.rules.get(rule, [0, 0])[0] + sum(u["rule"] == rule for u in self.undecided)
        if got < n:
            raise AnalysisBroken("rule %s matched %d instances, expected at least %d" % (rule, got, n))


def decide_zero(t, guards=(), seed=1, points=240):
    from numeval import differs
    if t is ZERO:
        return "nf", None
    try:
        asg = {}
        for g in guards:
            for c in (g.args if g.op == "and" else (g,)):
                asg[c.args[0] if c.op == "not" else c] = FALSE if c.op == "not" else TRUE
        ok, w = is_zero(t, asg)
        if ok:
            return "nf", None
    except (TooBig, RecursionError, ZeroDivisionError):
        w = None
    r, n = differs(t, seed, points, guards)
    if r is None:
        return "identity-test", None
    return "nonzero", r


def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                f = l[len("known: "):]
                pid = f.split("property=")[1].split()[0]
                key = f.split("key=<")[1].split(">")[0]
                what = f.split(">", 1)[1].strip()
                out.append((pid, key, what))
    return out


def main(run, pid, title, tier, seed):
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    try:
        run(ctx)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        if not ctx.incomplete(e):
            return 3
    except Exception as e:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s %s: %s" % (pid, type(e).__name__, e))
        if not ctx.incomplete(e):
            return 3
    known = [(k, w) for p, k, w in load_known() if p == pid]
    new, seen = [], set()
    for v in ctx.violations:
        m = [(k, w) for k, w in known if k == v["key"]]
        if m:
            if m[0] not in seen:
                seen.add(m[0])
                print("KNOWN-FINDING: property=%s %s" % (pid, m[0][1]))
        else:
            new.append(v)
    discharged = sum(b for a, b in ctx.rules.values())
    lvl, expl = getattr(run, "level", "other"), getattr(run, "explanation", title)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": lvl,
          "coverage": {"explanation": expl,
                       "obligations": ctx.obs, "discharged": discharged,
                       "rules": {k: {"instances": a, "hold": b} for k, (a, b) in sorted(ctx.rules.items())},
                       "functions_analysed": sorted(ctx.units)[:400],
                       "functions_analysed_count": len(ctx.units),
                       "discharged_by_identity_testing": ctx.weak, "undecided": len(ctx.undecided), "undecided_examples": ctx.undecided[:10],
                       "program": {"functions": len(ctx.P.functions), "records": len(ctx.P.records), "units": len(ctx.P.units)},
                       "samples": ctx.samples[:12], "notes": ctx.notes[:40],
                       "checker_cmd": "./check %s --%s" % (pid, tier), "trusted_base": TRUSTED},
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    if new:
        d = os.path.join(HERE, "build", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + ".json")
        with open(path, "w") as f:
            json.dump({"property": pid, "title": title, "violations": new}, f, indent=1, default=str)
        for v in new[:25]:
            print("  %s: %s [%s] at %s\n      %s" % (v["rule"], v["instance"], "broken", v["where"], str(v["detail"])[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for u in ctx.undecided[:5]:
        print("  undecided: %s: %s at %s (%s)" % (u["rule"], u["instance"], u["where"], u["construct"]))
    print("OK property=%s obligations=%d discharged=%d functions=%d wall=%.1fs" % (pid, ctx.obs, discharged, len(ctx.units), time.time() - t0))
    return 0


TRUSTED = ["clang 18 front end (AST of /repo's translation units)", "tool/export.cpp", "vlib/sem.py abstract interpreter",
           "vlib/alg.py normal form"]
