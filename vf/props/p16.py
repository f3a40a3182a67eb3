"""P16: operators applied to functions build functions."""
from ..common import *
from ..engine import Suite

LAM = {a: sorted(s for s in S.OPS[a] if S.OPS[a][s].lam and (s, a) in HINTS and
                 (s, a) not in G.IMPURE and HINTS[s, a] and
                 (s, a) not in (("?", 3), ("\\?", 3)))
       for a in (1, 2, 3)}
LAM[3] = LAM[3] or []
KEYS = [(s, a) for a in (1, 2, 3) for s in LAM[a] if (s, a) not in G.BIG]
NOFN = {k: [(x, r) for x, r in HINTS[k] if not set(x) & set("Bbf")]
        for k in KEYS}
KEYS = [k for k in KEYS if NOFN[k]]
RESULT = {}
for _k in KEYS:
    for _x, _r in NOFN[_k]:
        for _w in {_r, "*"} | ({"S"} if _r in "ns" else set()) | \
                ({"L", "I"} if _r in "NTG" else set()):
            RESULT.setdefault(_w, []).append((_k, _x))


def template(d, kind, depth, g, hole):
    """Expression text with holes (\\0) of kind hole."""
    if (depth <= 0 or d.chance(20)) and (kind == hole or kind in "*SIL" or
                                         d.chance(60)):
        return "\0" if d.chance(70) else lit(g.value(kind))
    prods = RESULT.get(kind)
    if depth <= 0 or not prods:
        return lit(g.value(kind))
    key, args = d.pick(prods)
    xs = [template(d, a, depth - 1, g, hole) for a in args]
    if key[1] == 1 and d.chance(8):
        return f"({key[0]}* {xs[0]})"
    if key[1] == 2 and d.chance(6) and S.OPS[2][key[0]].assoc != "C" and \
            key[0] not in ("J", "JW", "X", "WR", "RL"):
        return f"({d.pick(['$', chr(92) + '$'])}{key[0]} ({xs[0]} AL {xs[1]}))"
    return build(key[0], xs)


def substitution(d):
    g = Gen(d, {}, 8)
    hole = d.weighted([(5, "n"), (4, "s"), (3, "N"), (2, "T"), (2, "L"),
                       (1, "R"), (1, "*")])
    for _ in range(4):
        t = template(d, d.pick("nsNTL*"), d.int(1, 4), g, hole)
        if "\0" in t and t != "\0":
            break
    return {"t": t, "vals": [lit(g.value(hole)) for _ in range(d.int(1, 3))],
            "how": d.below(7)}


def substitution_check(case, ctx):
    """(E with _ ; v) is E with v."""
    t, vals = case["t"], case["vals"]
    if "\0" not in t or t == "\0":
        raise Discard
    fn = t.replace("\0", "_")
    how = case["how"]
    # the operand _ in each of its spellings
    if how == 1:
        fn = t.replace("\0", "{a}")
    elif how == 2:
        fn = t.replace("\0", "{b:a b}")
    elif how == 3:
        fn = t.replace("\0", "(V\"_\")")
    lines = [f"$f:{fn}"]
    if how == 4:
        uses = [f"([{v}] MU: $f)".replace("MU:", "M") + "@0" for v in vals]
        uses = [f"(($f M [{v}])@0)" for v in vals]
    elif how == 5:
        uses = [f"($f V [{v}])" for v in vals]
    else:
        uses = [f"($f;{v})" for v in vals]
    one = "\n".join(lines + ["P RP " + u for u in uses] + ["()"])
    two = "\n".join(["P RP " + t.replace("\0", v) for v in vals] + ["()"])
    e = D.expected({"code": two})
    D.expected({"code": one})
    a, b = T.run(one, ["-w", "--"]), T.run(two, ["-w", "--"])
    if b.status != e.status:
        raise Violation(f"{two!r}: {b}")
    if "Indexing into empty" in a.err + b.err:
        raise Discard       # an empty value and an empty variable differ here
    if (a.out, a.status, bool(D.clean(a.err))) != \
            (b.out, b.status, bool(D.clean(b.err))):
        raise Violation(f"{one!r}\n  gives {a}\n  {two!r}\n  gives {b}")
    if not a.err:
        ctx.nontrivial()


def compositions(d):
    """f op g at v is f(v) op g(v), whatever f and g are."""
    g = Gen(d, {}, 6)
    key = d.pick([k for k in KEYS if k[1] == 2])
    args = d.pick(NOFN[key])[0]
    fs = []
    for a in args:
        fs.append(d.pick(["{", "{", "{", "{", "{O a;", "{$c:$c+1;", "{I a{O 1}", "{b:a;"]) +
                  g_body(d, a) + "}")
    return {"op": key[0], "fs": fs, "v": lit(g.value(d.pick("nnsN")))}


def g_body(d, kind):
    pools = {"n": ["a*2", "a+1", "#a", "a", "3", "-a"],
             "s": ['a." x"', '"k".a', "RV a", "a", '"abc"'],
             "N": ["[a;a]", "a,5", "[1;a;3]", ",4"]}
    return d.pick(pools.get(kind) or sum(pools.values(), []) +
                  ["[]", "`b`", "()", "f", "g", "{a}"])


def compositions_check(case, ctx):
    (f, g), op, v = case["fs"], case["op"], case["v"]
    one = f"$c:0\n$f:{f}\n$g:{g}\n$h:($f {op} $g)\nP RP ($h;{v}) P$c\n()"
    e, _ = D.diff({"code": one}, ctx)
    # without side effects it is the same as calling both
    if "O" in f + g or "$c" in f + g or "b:" in f + g or "{a}}" in f + g or \
            "f}" in f + g or "g}" in f + g:
        ctx.tag("with statements")
    else:
        two = f"$c:0\n$f:{f}\n$g:{g}\nP RP (($f;{v}) {op} ($g;{v})) P$c\n()"
        b = T.run(two, ["-w", "--"])
        a = T.run(one, ["-w", "--"])
        if (a.out, a.status) != (b.out, b.status):
            raise Violation(f"{one!r} gives {a}\n  {two!r} gives {b}")
    if not e.warns:
        ctx.nontrivial()


def sweep(tier):
    """Every operator with _ in every operand position."""
    vals = {"n": ["5", "-2", "2.5"], "s": ['"abc"', '"1x"'],
            "N": ["[3;1;2]", "[]"]}
    rest = ["2", '"ab"', "[1;2]", "`b`", "(1,3)"]
    allv = [v for vs in vals.values() for v in vs] + ["()", "`a`", "(,3)"]
    cases = []
    for s in LAM[1]:
        big = (s, 1) in G.BIG
        ex = [f"(({s} _);{v})" for v in (allv[:2] if big else allv)]
        ex += [f"({s} _)", f"({s} {{a.b}})", f"({s} {{P a}})"]
        cases += [{"exprs": c} for c in chunks(ex, 12)]
    for s in LAM[2]:
        big = (s, 2) in G.BIG
        use = ["5", "3"] if big else allv
        ex = [f"((_ {s} _);{v})" for v in use]
        for r in (rest[:1] if big else rest):
            ex += [f"((_ {s} {r});{v})" for v in use]
            ex += [f"(({r} {s} _);{v})" for v in use]
        ex += [f"(_ {s} {r})" for r in rest[:2]] + [f"(_ {s} {{b}})"]
        cases += [{"exprs": c} for c in chunks(ex, 12)]
    for s in LAM[3]:
        ex = [f"((_ {s} {r};{q});{v})" for r in rest[:3] for q in rest[:3]
              for v in allv[:6]]
        ex += [f"(({q} {s} _;{r});{v})" for r in rest[:3] for q in rest[:3]
               for v in allv[:6]]
        ex += [f"(({q} {s} {r};_);{v})" for r in rest[:3] for q in rest[:3]
               for v in allv[:6]]
        cases += [{"exprs": c} for c in chunks(ex, 12)]
    return cases


def higher(d):
    """Built functions handed to the higher-order operators."""
    g = Gen(d, {}, 6)
    t = template(d, d.pick("nnsN"), d.int(1, 3), g, "n").replace("\0", "_")
    op = d.pick(["M", "FI", "SK", "MS", "MJ", "FN", "MF", "FJ", "DK"])
    lines = [f"P RP ({t} {op} {lit(g.value(d.pick('NNTR')))})"]
    k = d.below(6)
    if k < 2:
        lines.append(f"u:{t} v:(u {d.pick(['+', '.', '*', 'AE', '<', 'Q'])} "
                     f"{d.pick(['u', '_', '{a}', '2'])}) P RP v "
                     f"P RP (v {lit(g.num())})")
    elif k < 4:
        lines.append(f"u:{t} P RP (u M: [1;2;3]) P RP u".replace(
            "(u M: [1;2;3])", "({u;a} M [1;2;3])"))
    else:
        lines.append(f"u:[{t};_;5] P RP u P RP ((u@0) {lit(g.num())})")
    return {"code": "\n".join(lines) + "\n()"}


def statements(d):
    """Functions of several statements, with effects, under a series of
    operators of every kind; each stage may be kept and is shown to be
    unchanged by what is built from it."""
    g = Gen(d, {}, 5)
    n = [0]

    def block(kind):
        parts = []
        for _ in range(d.weighted([(2, 0), (3, 1), (3, 2), (2, 3), (1, 5)])):
            n[0] += 1
            parts.append(d.pick([f"O\"{n[0]},\"", "b:a", "$c+:1", "b:b.1",
                                 f"O {n[0]}", "a", "c:$_", "I a {O 0}",
                                 "L 2 $c+:1", "d:{a}", f"P {n[0]}"]))
        if d.chance(92):
            parts.append(g_body(d, kind))
        return "{" + ";".join(parts) + "}"

    lines = ["$c:0"]
    kind = d.pick("nsN")
    lines.append(f"x:{block(kind)}")
    cur = "x"
    for i in range(d.int(1, 4)):
        k = d.below(12)
        if k < 2:
            e = f"({d.pick(['$', chr(92) + '$'])}{d.pick('+*.-<M'[:5])} {cur})"
        elif k < 3:
            e = f"({d.pick(['-', '#', 'RV', 'RP', '+'])}* {cur})"
        elif k < 6:
            key = d.pick([q for q in KEYS if q[1] == 1])
            e = build(key[0], [cur])
        elif k < 10:
            key = d.pick([q for q in KEYS if q[1] == 2])
            args = list(d.pick(NOFN[key])[0])
            j = d.below(2)
            args[j] = cur
            args[1 - j] = d.pick(["_", block(d.pick("nsN")), "x"]) if \
                d.chance(40) else lit(g.value(args[1 - j]))
            e = build(key[0], args)
        elif k < 11 and LAM[3]:
            key = d.pick([q for q in KEYS if q[1] == 3])
            args = [lit(g.value(t)) for t in d.pick(NOFN[key])[0]]
            args[d.below(3)] = cur
            if d.chance(30):
                args[d.below(3)] = block("s")
            e = build(key[0], args)
        else:
            e = f"[{cur};{block('n')}]@{d.below(2)}"
        if d.chance(50):
            v = "yzuv"[i]
            lines.append(f"{v}:{e}")
            cur = v
        else:
            cur = e
    vs = [lit(g.value(d.pick([kind, "N", "n", "*"])))
          for _ in range(d.int(1, 2))]
    lines.append(f"w:{cur}")
    lines.append("P RP w")
    for v in vs:
        lines.append(d.pick([f"P RP (w;{v})", f"P RP (w M [{v};{v}])",
                             f"P RP (w {v};2)".replace(";2", " 2"),
                             f"P RP (w V [{v}])"]))
        lines.append("P [$c]")
    lines.append(f"P RP x;P RP (x;{vs[0]})")
    return {"code": ";\n".join(lines) + ";\n()"}


def suite():
    sw = Family("sweep", enum=sweep, check=batch_check)
    sw.split = split_batch
    return Suite("P16", [
        sw,
        Family("substitution", substitution, substitution_check, 14000),
        Family("compositions", compositions, compositions_check, 6000),
        Family("higher", higher, diff_check(substantial), 6000),
        Family("statements", statements, diff_check(substantial), 6000),
    ], "Expressions with _ (or other functions) as operands, applied to "
       "values, against the same expression with the value written in "
       "(metamorphic); every operator with _ in every operand position "
       "against a reference; compositions of two functions, statements and "
       "side effects included; built functions in higher-order operators; "
       "non-trivial: no nonfatal error.", BASE_ASSUMPTIONS)
