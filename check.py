"""check.py <property> [--quick|--thorough]"""
import importlib
import json
import os
import resource
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "vlib"), os.path.join(HERE, "checks")]
sys.setrecursionlimit(60000)
threading.stack_size(1 << 29)


def go():
    pid = [a for a in sys.argv[1:] if not a.startswith("--")][0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if "--quick" in sys.argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import framework
    mod = importlib.import_module(pid.lower())
    title = [json.loads(l)["title"] for l in open(os.path.join(HERE, "properties.jsonl")) if json.loads(l)["id"] == pid][0]
    return framework.main(mod.run, pid, title, tier, seed)


rc = [4]


def wrap():
    try:
        rc[0] = go()
    except BaseException:
        import traceback
        traceback.print_exc()


t = threading.Thread(target=wrap)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
