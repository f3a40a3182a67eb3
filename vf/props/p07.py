"""P07: comparisons and equality."""
from ..common import *
from ..engine import Suite

OPS = "< > = <= >= != LT GT Q LE GE NE #= #< #> == CM".split()
KEYS = [(s, 2) for s in OPS]
CHAINABLE = [s for s in OPS if s not in ("==", "CM")]


def value(d, near=None):
    g = Gen(d)
    if near is not None and d.chance(55):
        return d.pick(NEAR)(d, near)
    if d.chance(6):
        return tuple(d.many(1, 3, lambda: g.value(d.pick("PPnsR0N"))))
    return g.value(d.weighted([(5, "n"), (4, "s"), (3, "N"), (2, "T"),
                               (2, "L"), (2, "R"), (1, "G"), (1, "P"),
                               (1, "0"), (1, "Q")]))


def _same(d, v):
    return v


def _padded(d, v):
    if isinstance(v, str):
        return d.pick([v + "0", "0" + v, v + ".0", " " + v, v + " ", v + "x",
                       v.upper(), v[:-1], v + "."])
    return v


def _tweak(d, v):
    if isinstance(v, tuple) and v:
        i = d.below(len(v))
        return v[:i] + (value(d, v[i]),) + v[i + 1:]
    if isinstance(v, Rng):
        if v.hi is not None and d.chance(60):
            return tuple(V.items(v))
        return Rng(v.lo, None if v.hi is None else v.hi + d.int(-1, 1))
    if isinstance(v, Pat):
        return v.raw if d.chance(50) else Pat(v.raw, v.flags ^ d.pick([2, 8, 16, 256, 258]))
    return v


def _cut(d, v):
    if isinstance(v, tuple):
        return v[:-1] if d.chance(50) else v + (value(d),)
    if isinstance(v, str) and v:
        return v[: d.below(len(v))]
    return v


NEAR = [_same, _padded, _tweak, _cut]


def gen(d):
    a = value(d)
    b = value(d, a)
    x, y = lit(a), lit(b)
    lines = []
    if d.chance(75):
        k = d.below(3)
        for sym in (OPS if k == 0 else d.many(2, 6, lambda: d.pick(OPS))):
            lines.append(f"P RP ({x} {sym} {y})")
            if d.chance(40):
                lines.append(f"P RP ({y} {sym} {x})")
    else:
        # chains: every part is evaluated once and all links must hold
        n = d.int(2, 4)
        parts = [lit(value(d, a)) for i in range(n + 1)]
        parts = [p if not d.chance(30) else f"(P {p})" for p in parts]
        s = parts[0]
        for p in parts[1:]:
            s += f" {d.pick(CHAINABLE)} {p}"
        lines.append(f"P RP ({s})")
    return {"code": "\n".join(lines) + "\n()"}


def laws(d):
    g = Gen(d)
    kind = d.pick("nsNTSnG")
    vs = [value(d) if d.chance(10) else g.value(kind) for _ in range(3)]
    if d.chance(60):
        vs[1] = value(d, vs[0])
    if d.chance(40):
        vs[2] = value(d, vs[1])
    scalars = all(isinstance(v, str) for v in vs)
    flat = all(isinstance(v, tuple) and all(isinstance(x, str) for x in v)
               for v in vs)
    return {"vals": [lit(v) for v in vs],
            "kind": "scalars" if scalars else "flat" if flat else "mixed"}


def law_check(case, ctx):
    """Trichotomy, opposites, symmetry and transitivity, without the model."""
    a, b, c = case["vals"]
    pairs = [(a, b), (b, a), (b, c), (a, c)]
    ops = ["<", "=", ">", "<=", ">=", "!=", "LT", "Q", "GT", "LE", "GE", "NE",
           "CM", "#<", "#=", "#>"]
    code = "\n".join(f"P RP ({x} {o} {y})" for x, y in pairs for o in ops)
    r = T.run(None, ["-e", code + "\n()"])
    if r.status != "ok":
        raise Violation(f"{code!r}: {r.status} {r.detail}")
    got = r.out.split()
    n = len(ops)
    t = {(i, o): got[i * n + k] for i in range(4) for k, o in enumerate(ops)}

    def need(cond, what):
        if not cond:
            raise Violation(f"{what} fails for {case['vals']}: "
                            f"{ {k: v for k, v in t.items()} }")
    for i in range(4):
        for eq, ne in (("=", "!="), ("Q", "NE")):
            need({t[i, eq], t[i, ne]} == {"0", "1"}, f"{eq}/{ne} opposites")
        for lt, eq, gt, le, ge in (("<", "=", ">", "<=", ">="),
                                   ("LT", "Q", "GT", "LE", "GE")):
            need(not (t[i, lt] == "1" and t[i, gt] == "1"), "asymmetry")
            if case["kind"] == "scalars":
                need([t[i, lt], t[i, eq], t[i, gt]].count("1") == 1,
                     "trichotomy")
                need(t[i, le] == str(1 - int(t[i, gt])), "<= is not >")
                need(t[i, ge] == str(1 - int(t[i, lt])), ">= is not <")
                cm = {"<": "-1", "=": "0", ">": "1"}
                if lt == "<":
                    need(t[i, "CM"] == next(cm[o] for o in cm
                                            if t[i, o] == "1"), "CM")
    for o, p in (("<", ">"), ("=", "="), ("!=", "!="), ("<=", ">="),
                 ("LT", "GT"), ("Q", "Q"), ("NE", "NE"), ("LE", "GE"),
                 ("#<", "#>"), ("#=", "#=")):
        need(t[0, o] == t[1, p], f"{o} mirrors {p}")
    for o in ("<", "<=", "=", "LT", "LE", "Q", ">", "GT", "#<", "#="):
        if case["kind"] != "mixed" and t[0, o] == "1" == t[2, o]:
            ctx.tag("transitive " + o)
            need(t[3, o] == "1", f"transitivity of {o}")
    ctx.nontrivial()


def functions(d):
    """Functions are equal only if their code is."""
    near = d.int(0, len(FUNCTIONS) - 1)
    one = lambda: d.pick(FUNCTIONS) if d.chance(30) else FUNCTIONS[
        min(len(FUNCTIONS) - 1, max(0, near + d.int(-2, 2)))]
    out = []
    for _ in range(d.int(1, 4)):
        x, y = one(), one()
        if d.chance(30):
            y = x
        op = d.pick(["Q", "NE", "=", "!=", "=="])
        k = d.below(4)
        l, r = [(f"[{x}]", f"[{y}]"), (f"[1;{x}]", f"[1;{y}]"),
                (f"[[{x}]]", f"[[{y}]]"), (f"[{x};2]", f"[{y};2]")][k]
        if op == "==":
            l, r = x, y
        if d.chance(15):
            r = d.pick([y, "[]", "[[]]", "1"])
        out.append(f"P RP ({l} {op} {r})")
    return {"code": "\n".join(out) + "\n()"}


def suite():
    return Suite("P07", [
        sweep_family(KEYS),
        Family("pairs", gen, diff_check(), 12000),
        Family("functions", functions, diff_check(), 1500),
        Family("laws", laws, law_check, 4000),
        op_family(KEYS, 6000, rule=lambda c, e: not e.warns),
    ], "Pairs of values, the second often a near-copy of the first (padding, "
       "one item changed, prefix, range turned into list), under every "
       "comparison, chains with side effects, and algebraic laws over triples; "
       "non-trivial: distinct program text or triple.", BASE_ASSUMPTIONS)
