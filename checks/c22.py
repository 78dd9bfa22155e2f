"""C22: units are converted correctly and unambiguously."""
from comptypes import *

TECHNIQUE = ("abstract interpretation of every measure's schema and of Measure::parse_to_si on a symbolic value, for every unit text over the vocabulary of all SI prefixes, all unit names of the repository and all shapes of the optional number; compared with a table of physical units")
NOTE = ("Unit texts are enumerated: every SI prefix (and none) times every unit of the measure times several shapes of leading numbers, the units of the other measures, and malformed texts. Numbers are sampled by shape (integer, fraction, leading point, exponents), "
        "the conversion is uniform in them; numbers outside the range of double are not considered. The value is symbolic, double arithmetic is taken as exact. The schema is evaluated by this check's own reading of type, required, properties, pattern and oneOf, not by the validator library's code.")
PARSE = "Aux::unit::Measure::parse_to_si"

PREFIX = {"Y": 24, "Z": 21, "E": 18, "P": 15, "T": 12, "G": 9, "M": 6, "k": 3, "h": 2, "da": 1, "": 0, "d": -1, "c": -2, "m": -3,
          "mu": -6, "µ": -6, "u": -6, "n": -9, "p": -12, "f": -15, "a": -18, "z": -21, "y": -24, "R": 27, "Q": 30, "r": -27, "q": -30}
SI = {k: v for k, v in PREFIX.items() if k not in ("R", "Q", "r", "q", "u", "µ")}
# unit -> (kind, factor, offset, powers a prefix may have, relative tolerance of the customary rounding)
X = Fr(1, 10 ** 9)
UNITS = {
    "m": ("length", 1, 0, (1,), X), "in": ("length", Fr("0.0254"), 0, (1,), X), "ft": ("length", Fr("0.3048"), 0, (1,), X),
    "yd": ("length", Fr("0.9144"), 0, (1,), X), "mi": ("length", Fr("1609.344"), 0, (1,), X), "nmi": ("length", 1852, 0, (1,), X),
    "m^2": ("area", 1, 0, (2,), X), "ac": ("area", Fr("4046.8564224"), 0, (1,), Fr(12, 10 ** 6)), "acre": ("area", Fr("4046.8564224"), 0, (1,), Fr(12, 10 ** 6)),
    "ha": ("area", 10 ** 4, 0, (1,), X),
    "m^3": ("volume", 1, 0, (3,), X), "L": ("volume", Fr("0.001"), 0, (1,), X), "l": ("volume", Fr("0.001"), 0, (1,), X),
    "Pa": ("pressure", 1, 0, (1,), X), "bar": ("pressure", 10 ** 5, 0, (1,), X), "atm": ("pressure", 101325, 0, (1,), X),
    "psi": ("pressure", Fr("6894.757293168"), 0, (1,), Fr(1, 10 ** 6)), "torr": ("pressure", Fr(101325, 760), 0, (1,), X),
    "Hz": ("frequency", 1, 0, (1,), X), "per_s": ("frequency", 1, 0, (1,), X), "per_min": ("frequency", Fr(1, 60), 0, (1,), X), "per_minute": ("frequency", Fr(1, 60), 0, (1,), X),
    "per_hour": ("frequency", Fr(1, 3600), 0, (1,), X),
    "N": ("force", 1, 0, (1,), X), "W": ("power", 1, 0, (1,), X), "PS": ("power", Fr("735.49875"), 0, (1,), X),
    "g": ("mass", Fr("0.001"), 0, (1,), X), "t": ("mass", 1000, 0, (1,), X), "oz": ("mass", Fr("0.028349523125"), 0, (1,), X), "lb": ("mass", Fr("0.45359237"), 0, (1,), X),
    "m_cube_per_s": ("volume_flux", 1, 0, (3,), X), "m_cube_per_hour": ("volume_flux", Fr(1, 3600), 0, (3,), X),
    # thousands of cubic metres: what a prefix in front of the number belongs to is anyone's guess
    "1000m_cube_per_hour": ("volume_flux", Fr(1000, 3600), 0, (1, 3), X),
    "K": ("temperature", 1, 0, (1,), X), "C": ("temperature", 1, Fr("273.15"), (1,), X), "Celsius": ("temperature", 1, Fr("273.15"), (1,), X),
    "F": ("temperature", Fr(5, 9), Fr("459.67") * 5 / 9, (1,), X), "Fahrenheit": ("temperature", Fr(5, 9), Fr("459.67") * 5 / 9, (1,), X),
}
NUMBERS = ("", "1 ", "2 ", "0.5 ", ".25 ", "12.75 ", "1e4 ", "1e-3 ", "2.5e2 ", "007 ")
NUMBER = re.compile(r"(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?\Z")
JUNK = ("", " ", "  ", "1", "1 ", "k", "k ", "1 k", "e3 ", "e3 {}", ". {}", "1. {}", "1e {}", "e {}", "1e+3 {}", "-1 {}", "+1 {}", "-{}", " {}", "  {}", "\t{}", "{} ", "{}\n", "1  {}", "1 1 {}", "1{}", "12 k {}", "1k {}",
        "0x10 {}", "1,5 {}", "inf {}", "nan {}", "1.2.3 {}", "1e3.5 {}", "k k{}", "kk{}", "mk{}", "x{}", "{}x", "{}{}", "{} {}", "1/{}", "{}/s", "{}^2", "{}2", "1e-3{}", "k1 {}", "|{}", "({})", "\\{}")


def readings(text, kind):
    """all ways to read a unit text: (number, power of ten of the prefix, unit)"""
    out = []
    num, rest = Fr(1), text
    if " " in text:
        n, rest = text.split(" ", 1)
        if not NUMBER.match(n):
            return out
        num = Fr(n)
    for p, e in SI.items():
        u = rest[len(p):]
        if rest.startswith(p) and u in UNITS and UNITS[u][0] == kind:
            out.append((num, e, u))
    return out


def run(ctx):
    P, H = ctx.P, ctx.H
    ms = sorted(q for q, g in P.globals.items() if base_t(g["t"]) == "Aux::unit::Measure")
    ctx.need(ms, "no measure found")
    ctx.need([f for f in P.functions.values() if f["q"] == PARSE], "Measure::parse_to_si not found")
    for q in ms:
        measure(ctx, q)
    for r, n in (("converted", 180), ("unit-accepted", 20), ("single-reading", 9), ("no-unit-rejected", 9), ("shape-required", 9)):
        ctx.floor(r, n)


def get(ctx, q):
    """the measure, its schema and the names of its units"""
    I = interp(ctx, {})
    m = I.e_var({"g": q, "n": q}).get()
    s = method(I, m, "get_schema")
    names = []
    for (_, n), c in m.f.items():
        v = c.get()
        if isinstance(v, MapV):
            names += [k for k in v.d if isinstance(k, str)]
    ctx.units |= I.units
    return s, sorted(set(names))


def measure(ctx, q):
    kind = q.split("::")[-1]
    w = at(ctx, PARSE)
    try:
        s, names = get(ctx, q)
    except (Unmodelled, UB, Thrown, AnalysisBroken) as x:
        ctx.ob("converted", q, False, w, str(x), key=q, terms=(mk("unknown", str(x)),))
        return
    for u in names:
        if u not in UNITS:
            ctx.ob("converted", "%s %s" % (q, u), False, w, "unit %s is not in the table of units" % u, key="%s/%s" % (q, u), terms=(mk("unknown", u),))
        elif UNITS[u][0] != kind:
            ctx.ob("converted", "%s %s" % (q, u), False, w, "%s is offered as a unit of %s" % (u, kind), key="%s/%s" % (q, u))
    own = [u for u in names if u in UNITS and UNITS[u][0] == kind]

    def go(I, text, doc=None):
        I.hooks[VALIDATE] = validate
        m = I.e_var({"g": q, "n": q}).get()
        I.schema = s
        return val(I.call(I.find(PARSE), m, [Cell(to_j({"value": mk("sym", "v"), "unit": text} if doc is None else doc))]))

    def validate(I, this, a, e):
        d, t = val(a[0]), val(a[1])
        try:
            ok = schema_ok(t, d)
        except (KeyError, TypeError, AttributeError) as x:
            raise Unmodelled("schema: %r" % (x,))
        if not ok:
            raise Thrown("std::runtime_error", "schema", I.where(e) if e else "")

    memo, const = {}, {}

    def outcome(text, doc=None):
        if text in memo and doc is None:
            return memo[text]

        def make(known):
            I = interp(ctx, known)
            # the schema of a measure is the same for every text
            I.globals.update(const)
            I.hooks["Aux::unit::Measure::get_schema"] = lambda I, this, a, e: cp(s)
            return I, lambda: go(I, text, doc)
        outs = list(explore(make, 20))
        for o in outs:
            ctx.units |= o.I.units
            const.update({g: c for g, c in o.I.globals.items() if ctx.P.globals.get(g, {}).get("const")})
        if doc is None:
            memo[text] = outs
        return outs

    def verdict(rule, key, tests, w=w):
        """tests: (text, allowed values or None for must be rejected, may be rejected, doc)"""
        lost = None
        for text, allowed, maybe, doc in tests:
            for o in outcome(text, doc):
                if o.kind == "unmodelled":
                    lost = lost or o.value
                    continue
                bad = None
                if o.kind == "ub":
                    bad = said(o)
                elif o.kind == "throw":
                    if allowed is not None and not maybe:
                        bad = "is rejected"
                    elif o.value.cls.startswith("!"):
                        bad = said(o)
                else:
                    v = o.value
                    if allowed is None:
                        bad = "is accepted and converted to %s" % show(v)
                    else:
                        c = affine(v)
                        if c is None:
                            lost = lost or "%s becomes %s" % (text, show(v))
                        elif not any(near(c[0], f, t) and near(c[1], b, t) for f, b, t in allowed):
                            bad = "is converted to %s*value + %s instead of %s*value + %s" % (float(c[0]), float(c[1]), float(allowed[0][0]), float(allowed[0][1]))
                if bad:
                    ctx.ob(rule, key, False, w, '%s: "%s" %s' % (kind, text if doc is None else doc, bad), key=key)
                    return
        if lost is not None:
            ctx.ob(rule, key, False, w, lost, key=key, terms=(mk("unknown", lost),))
        else:
            ctx.ob(rule, key, True, w)

    def values(text):
        return [(n * Fr(10) ** (e * x) * UNITS[u][1], Fr(UNITS[u][2]), UNITS[u][4]) for n, e, u in readings(text, kind) for x in UNITS[u][3]]

    # every prefix, unit and number
    for p in SI:
        ts = [(n + p + u, values(n + p + u), True, None) for u in own for n in NUMBERS]
        verdict("converted", "%s with prefix '%s'" % (kind, p), ts)
    for u in own:
        verdict("unit-accepted", "%s %s" % (kind, u), [(n + u, values(n + u), False, None) for n in NUMBERS if "E" not in n] + [(p + u, values(p + u), False, None) for p in SI])
    # one reading only
    amb = [(t, r) for t, r in ((p + u, readings(p + u, kind)) for u in own for p in SI) if len({(e * UNITS[x][3][0], UNITS[x][1]) for _, e, x in r if x in own}) > 1]
    amb = [(t, r) for t, r in amb if not all(o.kind == "throw" for o in outcome(t))]
    ctx.ob("single-reading", kind, not amb, w, "%s can be read as %s" % (amb[0][0], " and as ".join("10^%d %s" % (e, x) for _, e, x in amb[0][1])) if amb else "", key=kind)
    # texts that do not name a unit of this measure
    other = [p + u for u in UNITS for p in list(SI) + ["R", "u"] if not readings(p + u, kind)]
    other = [n + t for t in other for n in ("", "1 ")]
    junk = [j.replace("{}", u) for u in own for j in JUNK]
    junk = [t for t in junk if not readings(t, kind)]
    nums = [t for t in (n + u for u in own for n in ("1e ", "e1 ", ". ", "-1 ", "x ")) if not readings(t, kind)]
    verdict("no-unit-rejected", kind, [(t, None, False, None) for t in dict.fromkeys(other + junk + nums)])
    good = own[0] if own else "m"
    v = mk("sym", "v")
    verdict("shape-required", kind, [("", None, False, d) for d in (
        {"unit": good}, {"value": v}, {"value": v, "unit": 1}, {"value": "1", "unit": good}, {}, {"value": None, "unit": good}, {"value": [v], "unit": good})])


def affine(v):
    """(factor, offset) of an affine function of the value with rational coefficients"""
    x = mk("sym", "v")

    def at_(n):
        r = subst(v, lambda t: num(n) if t == x else None)
        r = canon(r)
        return Fr(r.args[0]) if is_num(r) else None
    b, a, c = at_(0), at_(1), at_(2)
    if b is None or a is None or c is None:
        return None
    a -= b
    return (a, b) if c - b == 2 * a else None


def near(x, y, t):
    return abs(x - y) <= t * max(abs(x), abs(y))
