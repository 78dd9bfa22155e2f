"""Development aid: apply small edits to a scratch copy of /repo/src and run the
checks on it.  Each mutant names the properties that must be reported ([] = an
edit that keeps the behaviour: every check must stay quiet).
usage: run.py [-c C01,C26] [-a] [name substring ...]"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
S = "/tmp/grazer-selftest"
sys.path.insert(0, HERE)
from mutants import MUTANTS

args = sys.argv[1:]
only, every = None, False
if "-c" in args:
    i = args.index("-c")
    only = args[i + 1].split(",")
    del args[i:i + 2]
if "-a" in args:
    every = True
    args.remove("-a")
os.makedirs(S + "/src", exist_ok=True)
have = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
env = dict(os.environ, GRAZER_REPO=S, VERIF_TUCACHE="/tmp/grazer-selftest-tu")
for d in ("Randutils", "CLI11", "pcg-cpp"):
    if os.path.isdir("/repo/" + d) and not os.path.exists(S + "/" + d):
        os.symlink("/repo/" + d, S + "/" + d)
bad = 0
for name, edits, expect in MUTANTS:
    if args and not any(a in name for a in args):
        continue
    if only and expect and not set(only) & set(expect):
        continue
    subprocess.run(["rsync", "-a", "--delete", "/repo/src/", S + "/src/"], check=True) if shutil.which("rsync") else (
        shutil.rmtree(S + "/src", ignore_errors=True), shutil.copytree("/repo/src", S + "/src"))
    ok = True
    for f, old, new in edits:
        p = S + "/src/" + f
        t = open(p).read()
        if t.count(old) < 1:
            print("STALE", name, f)
            ok = False
            break
        open(p, "w").write(t.replace(old, new, 1))
    if not ok:
        bad += 1
        continue
    ids = only or (have if every or not expect else [e for e in expect if e in have])
    out = []
    for c in ids:
        r = subprocess.run([V + "/check", c, "--quick"], capture_output=True, text=True, env=env, timeout=900)
        v = r.returncode == 1 and ("VIOLATION property=%s" % c) in r.stdout
        if r.returncode not in (0, 1):
            out.append(c + ":BROKEN " + (r.stdout + r.stderr).strip()[-400:])
        elif "ANALYSIS-BROKEN" in r.stdout and not v:
            out.append(c + ":BROKEN " + r.stdout.strip()[-400:])
        elif v:
            out.append(c)
            if not expect:
                out.append(r.stdout[:1500])
    good = (not out) if not expect else (any(o in expect for o in out) and not any("BROKEN" in o for o in out))
    bad += not good
    print("ok  " if good else "FAIL", name, "expected", expect, "got", out, flush=True)
print("failures:", bad)
