"""Front end: builds the exporter, parses every translation unit of /repo/src
with clang and merges the dumps into one resolved Program."""
import hashlib, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GRAZER_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class AnalysisBroken(Exception):
    pass


def _lib(cands):
    for c in cands:
        if os.path.exists(c):
            return c
    raise AnalysisBroken("library not found: %s" % cands)


def build_tool():
    src = os.path.join(VERIF, "tool", "export.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "grazer-export-" + h)
    if os.path.exists(out):
        return out
    clangcpp = _lib(["/usr/lib/llvm-18/lib/libclang-cpp.so.18.1",
                     "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1",
                     "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18"])
    llvm = _lib(["/usr/lib/llvm-18/lib/libLLVM-18.so",
                 "/usr/lib/llvm-18/lib/libLLVM.so.18.1"])
    tmp = out + ".%d" % os.getpid()
    cmd = ["clang++", "-std=c++17", "-O0", "-fno-rtti", "-w",
           "-I/usr/lib/llvm-18/include", "-D__STDC_CONSTANT_MACROS",
           "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src,
           "-o", tmp, clangcpp, llvm]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build exporter: " + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def source_files(repo=REPO):
    srcs, hdrs, incs = [], [], set()
    for d, _, fs in os.walk(os.path.join(repo, "src")):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith((".cpp", ".cc", ".cxx")):
                srcs.append(p)
            elif f.endswith((".hpp", ".h", ".hh", ".tpp", ".ipp")):
                hdrs.append(p)
                incs.add(d)
    return sorted(srcs), sorted(hdrs), sorted(incs)


def flags(incs, repo):
    fl = ["-std=c++17", "-DNDEBUG", "-DHAVE_CSTDDEF", "-w", "-ferror-limit=0",
          "-include", os.path.join(VERIF, "stubs", "analysis_prefix.hpp"),
          "-resource-dir", subprocess.run(["clang++", "-print-resource-dir"], capture_output=True, text=True).stdout.strip()]
    for i in incs:
        fl += ["-I", i]
    for i in ("Randutils/include", "CLI11/include", "pcg-cpp/include", "_build/_deps/json-src/single_include"):
        i = os.path.join(repo, i)
        if os.path.isdir(i):
            fl += ["-isystem", i]
    fl += ["-isystem", os.path.join(VERIF, "stubs")]
    for i in ("/usr/include/eigen3", "/opt/vp/ipopt/include/coin-or",
              "/opt/vp/ipopt/include/coin", "/usr/include/coin", "/opt/vp/cmake/json/include"):
        if os.path.isdir(i):
            fl += ["-isystem", i]
    return fl


def pch(fl):
    """precompiled third-party headers (speed only); None if it cannot be built"""
    k = fl.index("-include")
    fl = fl[:k] + fl[k + 2:]
    src = os.path.join(VERIF, "stubs", "analysis_pch.hpp")
    h = hashlib.sha256()
    h.update("\0".join(fl).encode())
    for n in ("analysis_pch.hpp", "analysis_prefix.hpp"):
        h.update(open(os.path.join(VERIF, "stubs", n), "rb").read())
    out = os.path.join(BUILD, "third-party-%s.pch" % h.hexdigest()[:16])
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        r = subprocess.run(["clang++", "-x", "c++-header", "-Xclang", "-emit-pch", "-fpch-instantiate-templates", src, "-o", tmp] + fl,
                           capture_output=True, text=True)
        if r.returncode or not os.path.exists(tmp):
            return None
        os.replace(tmp, out)
    return fl + ["-include-pch", out]


class Program:
    def __init__(self):
        self.functions = {}
        self.records = {}
        self.globals = {}
        self.units = []
        self.files = set()
        self.errors = {}


def _resolve(o, T):
    """replace type indices by type strings, in place"""
    if isinstance(o, list):
        for x in o:
            if isinstance(x, (dict, list)):
                _resolve(x, T)
    elif isinstance(o, dict):
        for k in ("t", "rc", "rt", "sig", "ct", "at", "base"):
            v = o.get(k)
            if isinstance(v, int) and not isinstance(v, bool):
                o[k] = T[v]
        for v in o.values():
            if isinstance(v, (dict, list)):
                _resolve(v, T)


def load(repo=REPO, verbose=False):
    srcs, hdrs, incs = source_files(repo)
    if not srcs:
        raise AnalysisBroken("no sources found under %s/src" % repo)
    fl = flags(incs, repo)
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(build_tool), ex.submit(pch, fl)
        tool, pfl = a.result(), b.result()
    # cache key: everything that is parsed
    h = hashlib.sha256()
    h.update(tool.encode())
    h.update(repo.encode())
    h.update("\0".join(fl).encode())
    for f in sorted(srcs + hdrs) + [os.path.join(VERIF, "stubs", "analysis_prefix.hpp"),
                                    os.path.join(VERIF, "stubs", "nlohmann", "json-schema.hpp")]:
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    cdir = os.path.join(BUILD, "cache")
    os.makedirs(cdir, exist_ok=True)
    cfile = os.path.join(cdir, h.hexdigest()[:24] + ".json")
    P = Program()
    if os.path.exists(cfile) and not os.environ.get("VERIF_NOCACHE"):
        try:
            d = json.load(open(cfile))
            P.functions, P.records, P.globals = d["functions"], d["records"], d["globals"]
            P.units, P.files, P.errors = d["units"], set(d["files"]), d["errors"]
            P.srcs, P.hdrs, P.repo = srcs, hdrs, repo
            return P
        except Exception:
            pass
    tmp = tempfile.mkdtemp(prefix="gexp")
    # a unit of its own that includes every header, so that header-only code
    # (and anything no translation unit instantiates) is parsed, too
    allh = os.path.join(tmp, "all_headers.cpp")
    with open(allh, "w") as f:
        for x in hdrs:
            f.write('#include "%s"\n' % x)

    def one(i_src):
        i, s = i_src
        out = os.path.join(tmp, "%d.json" % i)
        if tuc:  # development aid: reuse the dump of an unchanged unit
            hk = hashlib.sha256((hh + ("all" if s == allh else s)).encode() + open(s, "rb").read()).hexdigest()[:24]
            c = os.path.join(tuc, hk)
            if os.path.exists(c):
                return s, c, None
            s2, out, r = two(s, out)
            if os.path.exists(out):
                shutil.copy(out, c)
            return s, out, r
        return two(s, out)

    tuc = os.environ.get("VERIF_TUCACHE")
    if tuc:
        os.makedirs(tuc, exist_ok=True)
        hx = hashlib.sha256((tool + "\0".join(fl)).encode())
        for f in sorted(hdrs):
            hx.update(f.encode() + open(f, "rb").read())
        hh = hx.hexdigest()

    def two(s, out):
        r = subprocess.run([tool, os.path.join(repo, "src") + "/", out, s] + (pfl or fl),
                           capture_output=True, text=True)
        if pfl and not os.path.exists(out):
            r = subprocess.run([tool, os.path.join(repo, "src") + "/", out, s] + fl,
                               capture_output=True, text=True)
        return s, out, r

    try:
        with ThreadPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
            res = list(ex.map(one, enumerate(srcs + [allh])))
        for s, out, r in res:
            if not os.path.exists(out):
                raise AnalysisBroken("exporter failed on %s: %s" % (s, r.stderr[-1500:]))
            d = json.load(open(out))
            if d["errors"]:
                P.errors[s] = r.stderr[-3000:] if r else "errors"
            T = d["types"]
            for sec in ("functions", "records", "globals"):
                _resolve(d[sec], T)
            for k, v in d["functions"].items():
                if k not in P.functions:
                    P.functions[k] = v
            for k, v in d["records"].items():
                if k not in P.records:
                    P.records[k] = v
                else:  # later TU may have more instantiated member templates
                    have = {m["key"] for m in P.records[k]["methods"]}
                    for m in v["methods"]:
                        if m["key"] not in have:
                            P.records[k]["methods"].append(m)
            for k, v in d["globals"].items():
                if v is not None and (k not in P.globals or ("init" in v and "init" not in P.globals[k])):
                    P.globals[k] = v
            P.units.append(s)
            P.files |= set(d["files"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    P.srcs, P.hdrs, P.repo = srcs, hdrs, repo
    try:
        t2 = cfile + ".%d" % os.getpid()
        json.dump({"functions": P.functions, "records": P.records, "globals": P.globals,
                   "units": P.units, "files": sorted(P.files), "errors": P.errors}, open(t2, "w"))
        os.replace(t2, cfile)
        old = sorted((os.path.getmtime(os.path.join(cdir, x)), x) for x in os.listdir(cdir))
        for _, x in old[:-6]:
            os.unlink(os.path.join(cdir, x))
    except OSError:
        pass
    return P


if __name__ == "__main__":
    import time
    t = time.time()
    P = load()
    print(len(P.functions), len(P.records), len(P.globals), len(P.units), len(P.files), "errors:", {k: v[:800] for k, v in P.errors.items()}, time.time() - t)
    missing = set(P.srcs + P.hdrs) - P.files
    print("unparsed", missing)


def instance(e, fn=None):
    """the instance of a (generic) lambda expression that a call uses; None if that is not known"""
    if not e.get("generic"):
        return None if "generic" in e else e
    for i in e.get("insts", []):
        if fn and i["fn"] == fn:
            return {**e, "p": i["p"], "b": i["b"]}
    return None
