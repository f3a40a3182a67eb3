"""P04: the display of a function is source text of the same function."""
from ..common import *
from ..engine import Suite
from . import p02

MARK = "==|=="


def plain(e):
    """The tree without parentheses and with interpolation expanded."""
    if isinstance(e, tuple) and e and e[0] == "paren":
        return plain(e[1])
    if isinstance(e, tuple) and e[:2] == ("lit", "esc"):
        inner = S.interpolate(e[2])
        return plain(inner) if inner != e else e
    if isinstance(e, (tuple, list)):
        return tuple(plain(x) for x in e)
    return e


def tree(text):
    try:
        return plain(S.parse(S.lex(text)))
    except (S.Bad, S.Incomplete):
        raise Violation(f"{text!r} is displayed but is not an expression")


def show_twice(fn, pre=""):
    """Run: display of fn, display of what that text evaluates to."""
    code = (pre + "\n" if pre else "") + \
        f"$f:{fn}\n$s:RP$f\nP$s\nP\"{MARK}\"\nP RP V$s\nP\"{MARK}\"\n" \
        f"P RP$f\nP\"{MARK}\"\n$f"
    r = T.run(code, ["-w", "-p", "--"])
    if r.status != "ok":
        raise Violation(f"{code!r}: {r}")
    parts = r.out.split(f"\n{MARK}\n")
    # values built into a function (negative numbers, Ranges) are operations
    # when read again, and then displayed with spaces
    if len(parts) != 4 or parts[0] != parts[2] or \
            parts[0] != parts[1] and tree(parts[0]) != tree(parts[1]) or \
            parts[0][:1] in "{[" and parts[3][:-1] != parts[0]:
        raise Violation(f"{code!r}: the displays differ: {parts} {r.err}")
    return parts[0]


def body(d):
    k = d.below(10)
    if k < 4:
        return p02.gen(d)["code"][1:]
    if k < 6:
        p = P.Prog(d, budget=7)
        return "{" + ";".join(p.statement() for _ in range(d.int(1, 4))) + "}"
    g = Gen(d, {"*": ["a", "b", "x"], "n": ["a"], "s": ["b"], "N": ["g"],
                "L": ["g", "l"]}, 10)
    if k < 9:
        return "{" + g.expr(d.pick("nsNTLGR*P"), d.int(1, 4)) + "}"
    return "{" + literal(d) + d.pick([" . a", "", ";b", "X a"]) + "}"


ESCAPED = ["a", "x", "y", "\\", '"', "`", "'", "é", "\n", "AA", "QZ", "VV", " ",
           "\\\\", "b", "1", "$", "(", ";", "}", "_", "  ", "n", "\\`"]


def literal(d):
    text = "".join(d.pick(ESCAPED) for _ in range(d.int(0, 6)))
    k = d.below(6)
    if k < 2:
        return '"' + text.replace('"', "'") + '"'
    if k < 4:
        # \" ... \"  with interpolation
        t = text.replace('\\"', "").rstrip("\\")
        return '\\"' + t + '\\"'
    if k < 5:
        t = text.replace("\\", "").replace("`", "\\`")
        return "`" + t + "`"
    return "'" + (text[:1] or "q")


def parsed(text):
    try:
        tree = S.parse(S.lex(text))
    except (S.Incomplete, S.Bad, RecursionError):
        raise Discard
    if len(tree) != 1 or tree[0][0] != "block":
        raise Discard
    return tree[0]


def literals(case, ctx):
    """The displayed text is the same function: same tree, same display."""
    want = parsed(case["fn"])
    shown = show_twice(case["fn"])
    try:
        got = parsed(shown)
    except Discard:
        raise Violation(f"{case['fn']!r} is displayed as {shown!r}, which is "
                        f"not a function")
    if plain(got) != plain(want):
        raise Violation(f"{case['fn']!r} is displayed as {shown!r}, a "
                        f"different function")
    if len(shown) > 12:
        ctx.nontrivial()


def made(d):
    """A function computed by the program: from _, operators, values, V."""
    g = Gen(d, {}, 8)
    k = d.below(10)
    pre = []
    if k < 6:
        n = d.int(1, 3)
        e = "_"
        for _ in range(n):
            key = d.pick(G.PURE)
            alts = HINTS[key]
            if not alts or key[0] in "|&" or key[0] in ("\\|", "\\&"):
                continue
            args = d.pick(alts)[0]
            xs = [g.expr(x, d.int(0, 1)) for x in args]
            hole = d.below(len(xs))
            if args[hole] in "Bbf":
                hole = len(xs) - 1
            xs[hole] = e
            if d.chance(25):
                other = d.below(len(xs))
                if args[other] not in "Bbf":
                    xs[other] = d.pick(["_", "_*2", "(_ . 1)", "$x"])
                    if xs[other] == "$x":
                        pre = ["$x:" + lit(g.value("*"))]
            e = build(key[0], xs)
        fn = e
    elif k < 7:
        fn = f"({d.pick(['$', chr(92) + '$'])}{d.pick(p02.BIN)} " \
             f"({d.pick(['_', '_*2', '(_,5)'])} {d.pick(['AL', ',', '+'])} " \
             f"{lit(g.small())}))"
    elif k < 8:
        fn = f"({d.pick(['-', '#', '$+', '!', 'RV', 'J'])}* " \
             f"({d.pick(['_', '_^@2', '(_ CH 2)'])}))"
    elif k < 9:
        pre = [f"$g:{g.block(d.pick('Bbf'))}"]
        fn = d.pick(["($g . _)", "($g+_)", "(_,$g)", "[$g]", "($g=_)",
                     "($g?_ 1)", "(_ = $g)", "[_;$g;[_+1]]", "(- $g)",
                     "{$g _}"])
    else:
        fn = f"(V RP {body(d)})"
    return {"fn": fn, "pre": "\n".join(pre)}


def values(case, ctx):
    text = f"{case['pre']} {case['fn']}"
    if "P a" in text or "P RP" in text:
        raise Discard
    try:
        S.parse(S.lex(text))
    except (S.Incomplete, S.Bad):
        raise Discard
    D.diff({"code": f"{case['pre']}\nP RP {case['fn']}\n()"}, ctx)
    shown = show_twice(case["fn"], case["pre"])
    if "{" not in shown:
        ctx.tag("not a function")
        raise Discard
    ctx.nontrivial()


def behave(d):
    g = Gen(d)
    fn = body(d) if d.chance(60) else made(d)["fn"]
    k = d.below(10)
    args = [lit(g.value(d.weighted([(4, "n"), (3, "s"), (2, "N"), (2, "L"),
                                    (1, "R"), (1, "P"), (1, "0")])))
            for _ in range(d.int(0, 3))]
    pre = f"x:{lit(g.scalar())}\ny:{lit(g.value('N'))}\nl:[1;\"b\"]"
    use = f"($f;{';'.join(args)})" if args else "(V $f)"
    if k < 2:
        use = f"($f M {lit(g.value('N'))})"
    elif k < 3:
        use = f"($f FI {lit(g.value('T'))})"
    return {"fn": fn, "pre": pre, "use": use}


def behaviour(case, ctx):
    """The function its display evaluates to does the same."""
    tail = "\n" + "\n".join(f"P RP {v}" for v in "xyls")
    one = {"code": f"{case['pre']}\n$f:{case['fn']}\nP RP{case['use']}{tail}"}
    e = D.expected(one)
    two = f"{case['pre']}\n$f:V RP{case['fn']}\nP RP{case['use']}{tail}"
    a, b = T.run(one["code"], ["-w", "--"]), T.run(two, ["-w", "--"])
    if a.status != e.status:
        raise Violation(D.explain(one, "ends differently", e.status, a))
    if (a.out, a.status, bool(D.clean(a.err))) != \
            (b.out, b.status, bool(D.clean(b.err))):
        raise Violation(
            f"the displayed function behaves differently\n  original: "
            f"{one['code']!r} gives {a}\n  displayed: {two!r} gives {b}")
    if a.status == "ok" and not a.err:
        ctx.nontrivial()


def suite():
    return Suite("P04", [
        Family("literals", lambda d: {"fn": body(d)}, literals, 12000),
        Family("values", made, values, 8000),
        Family("behaviour", behave, behaviour, 8000),
    ], "Functions written as blocks (every operator, command and literal "
       "form) and functions computed from _, operators, meta-operators and "
       "values: the display, evaluated again, is displayed alike, has the "
       "reference parser's same tree, and behaves alike when called; "
       "non-trivial: a display of more than 12 characters / a computed "
       "function / a call without nonfatal errors.", BASE_ASSUMPTIONS)
