"""Shared: the component types the factories offer, on the shape engine."""
from objs import *

CF = "Model::Componentfactory::"
BASE = CF + "Componentfactory"
VALIDATE, DEFAULTS = "Aux::schema::validate_json", "Aux::schema::apply_defaults"


def factories(ctx):
    return sorted(r for r in ctx.P.records if r != BASE and ctx.H.isa(r, BASE))


def make_factory(I, cls, defaults=None):
    return new(I, cls, Cell(to_j(defaults or {})))


def typemap(I, f, kind):
    return f.f[(BASE, kind + "_type_map")].get()


def concrete(t):
    """component class of a NodeType<...> / EdgeType<...> object"""
    m = re.search(r"(?:Node|Edge)Type<(.*)>$", t.cls)
    return m.group(1).strip() if m else None


def static(P, H, cls, name):
    """static member function of a class or the base that provides it"""
    todo = [cls]
    while todo:
        c = todo.pop(0)
        fs = [f for f in P.functions.values() if f["q"] == "%s::%s" % (c, name) and f["b"] is not None and f.get("static", True)]
        if fs:
            return fs[0]
        todo += [base_t(b["t"]) for b in P.records.get(c, {}).get("bases", ())]
    return None


def method(I, o, name, *args):
    """virtual call by name"""
    for c in I.H.bases(o.cls):
        fs = [f for f in I.P.functions.values() if f["q"] == "%s::%s" % (c, name) and f["b"] is not None and len(f["p"]) == len(args)]
        if fs:
            return val(I.call(fs[0], o, list(args)))
    raise AnalysisBroken("%s::%s not found" % (o.cls, name))


def opt(v):
    """contents of an optional or None"""
    if isinstance(v, Opt):
        return v.c.get() if v.c else None
    return v


def norm(j):
    """order of a list of required keys does not matter"""
    if isinstance(j.v, dict):
        return J({k: J(sorted((norm(x) for x in v.v), key=show_json)) if k == "required" and isinstance(v.v, list) else norm(v) for k, v in j.v.items()})
    if isinstance(j.v, list):
        return J([norm(x) for x in j.v])
    return j


def same(a, b):
    return isinstance(a, J) and isinstance(b, J) and show_json(norm(a)) == show_json(norm(b))


# ------------------------------------------------------------- documents a schema accepts
def from_pattern(p):
    """a string that matches a simple pattern: first alternative of every group, optional parts left out"""
    s = p[1:] if p.startswith("^") else p
    s = s[:-1] if s.endswith("$") else s

    def alt(s):
        d, parts, cur = 0, [], ""
        i = 0
        while i < len(s):
            c = s[i]
            if c == "\\":
                cur += s[i:i + 2]
                i += 2
                continue
            d += (c in "([") - (c in ")]")
            if c == "|" and d == 0:
                parts.append(cur)
                cur = ""
            else:
                cur += c
            i += 1
        return parts + [cur]

    def gen(s):
        out, i = "", 0
        s = alt(s)[0]
        while i < len(s):
            c = s[i]
            if c == "(":
                d, j = 1, i + 1
                while d:
                    d += (s[j] == "(") - (s[j] == ")")
                    j += 1
                item = gen(s[i + 1:j - 1])
                i = j
            elif c == "[":
                j = s.index("]", i)
                item = s[i + 1]
                i = j + 1
            elif c == "\\":
                item = s[i + 1]
                i += 2
            else:
                item = c
                i += 1
            if i < len(s) and s[i] in "*?":
                item = ""
                i += 1
            elif i < len(s) and s[i] == "+":
                i += 1
            out += item
        return out
    t = gen(s)
    if not re.search(p, t):
        raise Unmodelled("no string found for %s" % p)
    return t


class Gen:
    """documents accepted by a schema: the smallest one, and one more for every optional
    key, alternative and list length"""

    def __init__(self):
        self.n = 0

    def sym(self, path):
        self.n += 1
        return mk("sym", "doc" + path)

    def deflt(self, s, path):
        s = s.v if isinstance(s, J) else s
        return s

    def variants(self, s, path=""):
        """list of (description, J); first is minimal"""
        d = s.v
        if d is None or not isinstance(d, dict):
            return [("", J(self.sym(path)))]
        if "const" in d:
            return [("", cp(d["const"]))]
        if "enum" in d:
            return [("%s=%s" % (path, show_json(x)), cp(x)) for x in d["enum"].v]
        if "oneOf" in d or "anyOf" in d:
            out = []
            for i, a in enumerate((d.get("oneOf") or d.get("anyOf")).v):
                m = {k: v for k, v in d.items() if k not in ("oneOf", "anyOf")}
                for k, v in a.v.items():
                    if k == "properties" and k in m:
                        m[k] = J({**m[k].v, **v.v})
                    elif k == "required" and k in m:
                        m[k] = J(m[k].v + v.v)
                    else:
                        m[k] = v
                for t, x in self.variants(J(m), path):
                    out.append((t + " alternative %d" % i if i else t, x))
            return out
        t = d["type"].v if "type" in d else None
        if isinstance(t, list):
            out = []
            for x in t:
                out += self.variants(J({**d, "type": x}), path)
            return out
        if t is None:
            t = "object" if "properties" in d else "array" if "items" in d else None
            if t is None:
                return [("", J(self.sym(path))), ("%s is text" % path, J("text")), ("%s is null" % path, J(None))]
        if t in ("number", "integer"):
            if t == "integer":
                lo = d.get("minimum")
                lo = as_int(lo.v) if lo is not None else 0
                return [("", J(max(lo, 2)))]
            return [("", J(self.sym(path)))]
        if t == "string":
            if "pattern" in d:
                return [("", J(from_pattern(d["pattern"].v)))]
            return [("", J("text" + path.replace("/", "_")))]
        if t == "boolean":
            return [("", J(False)), ("%s true" % path, J(True))]
        if t == "null":
            return [("", J(None))]
        if t == "array":
            lo = as_int(d["minItems"].v) if "minItems" in d else 0
            hi = as_int(d["maxItems"].v) if "maxItems" in d else None
            items = d.get("items", J({}))
            need = []
            for a in (d["allOf"].v if "allOf" in d else []):
                if "contains" in a.v:
                    need.append(a.v["contains"])
            its = self.variants(items, path + "[]")

            def one(i, v=None):
                x = renamed(v if v is not None else its[0][1], i)
                if i < len(need) and isinstance(x.v, dict):
                    for k, sub in (need[i].v.get("properties") or J({})).v.items():
                        x.v[k] = self.satisfy(sub, x.v.get(k), path, i)
                return x
            out = []
            base = max(lo, len(need))
            for n in sorted({base, base + 1, base + 2}):
                if hi is not None and n > hi:
                    continue
                if n < lo:
                    continue
                out.append(("" if not out else "%s has %d entries" % (path, n), J([one(i) for i in range(n)])))
            m = max(base, 1)
            if hi is None or m <= hi:
                for tx, v in its[1:]:
                    out.append((tx, J([one(i, v) for i in range(m)])))
            return out
        if t == "object":
            props = d.get("properties", J({})).v
            req = [x.v for x in d["required"].v] if "required" in d else []
            vs = {k: self.variants(props[k], path + "/" + k) if k in props else [("", J(self.sym(path + "/" + k)))] for k in list(props) + [r for r in req if r not in props]}
            filled = {k for k in props if isinstance(props[k].v, dict) and "default" in props[k].v}
            mini = {k: vs[k][0][1] for k in vs if k in req and k not in filled}
            for k in filled:
                mini[k] = props[k].v["default"]
            out = [("", J({k: cp(v) for k, v in mini.items()}))]
            rest = [k for k in vs if k not in mini]
            if len(rest) > 1:
                out.append(("%s complete" % path, J({**{a: cp(b) for a, b in mini.items()}, **{k: cp(vs[k][0][1]) for k in rest}})))
            for k in vs:
                if k in mini and k not in filled:
                    for tx, v in vs[k][1:]:
                        out.append((tx, J({**{a: cp(b) for a, b in mini.items()}, k: cp(v)})))
                elif k not in mini:
                    for tx, v in vs[k]:
                        out.append(("%s/%s given%s" % (path, k, ", " + tx if tx else ""), J({**{a: cp(b) for a, b in mini.items()}, k: cp(v)})))
            return out
        raise Unmodelled("schema type %r" % (t,))

    def satisfy(self, sub, old, path, i):
        d = sub.v
        if "const" in d:
            return cp(d["const"])
        if "minimum" in d and "maximum" in d and show_json(d["minimum"]) == show_json(d["maximum"]):
            return cp(d["minimum"])
        return old if old is not None else J(self.sym(path))


def renamed(j, i):
    """list entries get symbols of their own"""
    if isinstance(j.v, dict):
        return J({k: renamed(x, i) for k, x in j.v.items()})
    if isinstance(j.v, list):
        return J([renamed(x, i) for x in j.v])
    if isinstance(j.v, T) and j.v.op == "sym":
        return J(mk("sym", "%s#%d" % (j.v.args[0], i)))
    return J(j.v)


def matches(p, s):
    """as the validator does: a search, and $ stands for the very end"""
    if p.endswith("$") and not p.endswith("\\$"):
        p = p[:-1] + r"\Z"
    try:
        return re.search(p, s) is not None
    except re.error as x:
        raise Unmodelled("pattern %s: %s" % (p, x))


def whole(v):
    v = tt(v)
    return v.op != "num" or v.args[0].denominator == 1


def schema_ok(s, j):
    """does the document satisfy the schema?  (the part of json schema used here)"""
    d = s.v
    if not isinstance(d, dict):
        return True
    k = j.kind()
    if "type" in d:
        ts = [x.v for x in d["type"].v] if isinstance(d["type"].v, list) else [d["type"].v]
        if not any(t == k or t == "integer" and k == "number" and whole(j.v) for t in ts):
            return False
    if k == "number":
        v = tt(j.v)
        if v.op == "num":
            v = v.args[0]
            lim = {x: tt(d[x].v).args[0] for x in ("minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf") if x in d and not isinstance(d[x].v, bool)}
            if ("minimum" in lim and v < lim["minimum"] or "maximum" in lim and v > lim["maximum"] or "exclusiveMinimum" in lim and v <= lim["exclusiveMinimum"]
                    or "exclusiveMaximum" in lim and v >= lim["exclusiveMaximum"] or "multipleOf" in lim and (v / lim["multipleOf"]).denominator != 1):
                return False
    if k == "object":
        if any(r.v not in j.v for r in (d["required"].v or [] if "required" in d else [])):
            return False
        pr = d["properties"].v or {} if "properties" in d else {}
        if any(not schema_ok(pr[x], j.v[x]) for x in j.v if x in pr):
            return False
        if "additionalProperties" in d and d["additionalProperties"].v is False and any(x not in pr for x in j.v):
            return False
    if k == "array":
        if "minItems" in d and len(j.v) < as_int(d["minItems"].v) or "maxItems" in d and len(j.v) > as_int(d["maxItems"].v):
            return False
        if "items" in d and any(not schema_ok(d["items"], x) for x in j.v):
            return False
    if k == "string" and isinstance(j.v, str) and ("minLength" in d and len(j.v) < as_int(d["minLength"].v) or "maxLength" in d and len(j.v) > as_int(d["maxLength"].v)):
        return False
    if k == "string" and "pattern" in d and isinstance(j.v, str) and not matches(d["pattern"].v, j.v):
        return False
    if "enum" in d and not any(show_json(x) == show_json(j) for x in d["enum"].v):
        return False
    if "const" in d and show_json(d["const"]) != show_json(j):
        return False
    if "anyOf" in d and not any(schema_ok(a, j) for a in d["anyOf"].v) or "not" in d and schema_ok(d["not"], j):
        return False
    if k == "object" and ("minProperties" in d and len(j.v) < as_int(d["minProperties"].v) or "maxProperties" in d and len(j.v) > as_int(d["maxProperties"].v)):
        return False
    for a in d["allOf"].v if "allOf" in d else []:
        if not schema_ok(a, j):
            return False
    if "oneOf" in d and sum(schema_ok(a, j) for a in d["oneOf"].v) != 1:
        return False
    return True
