"""P05: RP gives source text that evaluates back to the value."""
from ..common import *
from ..engine import Suite

MARK = "==|=="
CHARS = ["a", "'", '"', "\\", "`", "\n", " ", "1", "-", ".", "é", "\t", "\x00",
         "\r", "{", "}", "[", "]", "(", ")", ";", "\x85", "\u2028", "😀", "\\\"",
         "x", "A", "~", "\x1b", "\\n", "$", "_", "0", "e+", "日", "\x7f"]


def nasty(d):
    if d.chance(4):
        ps = [d.pick(CHARS) for _ in range(d.int(1, 4))]
        return "".join(d.pick(ps) for _ in range(d.int(9, 140)))
    return "".join(d.pick(CHARS) for _ in range(Gen(d).length(7)))


def numberish(d):
    g = Gen(d)
    return d.pick(["", "", "-", " ", "0", "+", "."]) + g.num() + \
        d.pick(["", "", "", " ", ".", "e", "e+5", "-", "x", ".5", "e-3"])


def value(d, depth=3):
    g = Gen(d)
    k = d.below(20)
    if k < 5:
        return nasty(d)
    if k < 8:
        return numberish(d)
    if k < 10:
        return g.value("S")
    if k < 11:
        return None
    if k < 13:
        ends = [None, 0, 1, -1, 3, -7, 10 ** 20]
        return Rng(d.pick(ends), d.pick(ends))
    if k < 14:
        body = "".join(c for c in (nasty(d) if d.chance(50) else
                                   d.pick(Gen.PATS)) if c not in "\\`(){}[]+")
        return Pat(d.pick(["", "\\d", "a|b", "(c)?", "\\.", "`", "`a`b`",
                           "`" * d.int(1, 9)]) + body,
                   d.weighted([(5, 0), (2, 2), (1, 8), (1, 16), (1, 256),
                               (1, 26), (1, 282)]))
    if k < 16 or depth <= 0:
        return g.value("N")
    return tuple(value(d, depth - 1) for _ in range(
        g.length(4) if depth < 3 or d.chance(96) else d.int(9, 40)))


def source(v):
    """Source text of v written by this harness, without any literal tricks:
    text is spelled as character codes where needed."""
    if isinstance(v, str):
        if v and all(c.isalnum() and c.isascii() or c in " .-" for c in v):
            return '"' + v + '"'
        if not v:
            return '""'
        return "(J (C* [" + ";".join(str(ord(c)) for c in v) + "]))"
    if v is None:
        return "()"
    if isinstance(v, tuple):
        return "[" + ";".join(source(x) for x in v) + "]"
    if isinstance(v, Rng):
        ends = ["()" if x is None else f"({x})" for x in (v.lo, v.hi)]
        return f"({ends[0]},{ends[1]})"
    if isinstance(v, Pat):
        e = f"(X {source(v.src)})" if False else lit(v)
        return e
    raise ValueError(v)


def probe(expr, pre=""):
    """[display, text of value, display of re-evaluated, its text, same?]"""
    code = (pre + "\n" if pre else "") + \
        f"$v:{expr}\n$s:RP$v\nP$s\nP\"{MARK}\"\n$w:V$s\nP RP$w\n" \
        f"P\"{MARK}\"\nP$v==$w\nP\"{MARK}\"\n" + \
        ("$v" if expr[:1] == "[" else "()")
    r = T.run(code, ["-w", "-p", "--"])
    if r.status != "ok":
        raise Violation(f"{code!r}: {r}")
    p = r.out.split(f"\n{MARK}\n")
    if len(p) != 4:
        raise Violation(f"{code!r}: {r}")
    return code, p, r


def written(d):
    return {"expr": source(value(d))}


def check(case, ctx):
    code, p, r = probe(case["expr"])
    if D.clean(r.err):
        raise Violation(f"{code!r} reports {r.err!r}")
    if p[1] != p[0]:
        raise Violation(f"{case['expr']} is displayed as {p[0]!r}, which "
                        f"evaluates to something displayed as {p[1]!r}")
    infinite = "()," in case["expr"] or ",())" in case["expr"]
    if p[2] != "1" and not infinite and "{" not in p[0]:
        raise Violation(f"{case['expr']} is displayed as {p[0]!r}, which "
                        f"evaluates to a different value (== gives {p[2]})")
    # -p shows containers as RP does
    if p[3][:-1] != p[0] and p[0][:1] == "[":
        raise Violation(f"{case['expr']}: -p prints {p[3]!r}, RP {p[0]!r}")
    ctx.tag("list" if p[0][:1] == "[" else "text" if p[0][:1] in "\"'\\" else
            "other")
    if len(p[0]) > 2:
        ctx.nontrivial()


def known(case, ctx):
    """The value displayed is the value written, character by character."""
    v = case["codes"]
    text = "".join(map(chr, v))
    src = "[" + ";".join(map(str, v)) + "]"
    code = f"$v:J(C*{src})\n$s:RP$v\n$w:V$s\nP A*^$w\nP #$w\nP A*^$v\n()"
    r = T.run(code, ["-w", "-p", "--"])
    lst = "[" + ";".join(map(str, v)) + "]"
    want = f"{lst}\n{len(v)}\n{lst}\n"
    if r.out != want or r.status != "ok" or r.err:
        raise Violation(f"the Scalar {text!r} does not come back from its "
                        f"display: {code!r} gives {r}")
    ctx.nontrivial()


def chars(d):
    n = d.int(1, 6)
    if d.chance(5):
        return {"codes": [ord(c) for c in nasty(d) + d.pick(CHARS)][:200]}
    return {"codes": [ord(d.pick(CHARS)[0]) if d.chance(70) else
                      d.int(1, 0x24F) if d.chance(80) else
                      d.pick([d.int(0x250, 0xD7FF), d.int(0xE000, 0x1FFFF)])
                      for _ in range(n)]}


def each_char(tier):
    return [{"codes": x} for c in range(1, 0x180)
            for x in ([c], [97, c], [c, 97], [49, c], [c, 34, 39], [92, c],
                      [34, c], [c, 92], [34, 92, c])]


def computed(d):
    g = Gen(d, {}, 12)
    keys_ = [k for k in G.PURE if HINTS[k]]
    e = g.focus(keys_, d.int(0, 2))
    return {"expr": e}


def computed_check(case, ctx):
    if "P a" in case["expr"] or "P RP" in case["expr"]:
        raise Discard
    # the reference decides what is finite and quick enough to run
    e = D.expected({"code": f"P RP {case['expr']}\n()"})
    if "{" in e.out:
        raise Discard       # functions: property P04
    code, p, r = probe(case["expr"])
    if p[1] != p[0]:
        raise Violation(f"{case['expr']} is displayed as {p[0]!r}, which "
                        f"evaluates to something displayed as {p[1]!r}")
    if not same_value(p, e):
        raise Violation(f"{case['expr']} is displayed as {p[0]!r}, which "
                        f"evaluates to a different value")
    if len(p[0]) > 2:
        ctx.nontrivial()


def same_value(p, e):
    if p[2] == "1":
        return True
    # infinite ranges are not compared by ==; nan is not equal to itself
    return ",()" in p[0] or "nan" in p[0] or "inf" in p[0]


def suite():
    f = Family("each character", enum=each_char, check=known)
    return Suite("P05", [
        f,
        Family("characters", chars, known, 8000),
        Family("values", written, check, 12000),
        Family("computed", computed, computed_check, 14000),
    ], "Scalars of arbitrary characters (every character up to U+017F in nine "
       "surroundings), number-like text, Lists, Ranges, Patterns with flags, "
       "nil, nested, and the results of every operator: RP text evaluated "
       "with V gives an equal value with the same RP text; -p prints the same "
       "text; non-trivial: a display longer than two characters.",
       BASE_ASSUMPTIONS)
