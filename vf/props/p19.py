"""P19: string operators."""
from ..common import *
from ..engine import Suite

U = keys("|| |> <| TM LC UC SC TC IC A C J ^ ST # RV", 1)
B = keys(". X J JW ^ RM DC WR || |> <| TM AE ~ @? N", 2)
TERN = keys("R RA TR", 3)
T3 = ["0", "2", '""', '"b"', '"abcab"', '["a";"b"]', "[1;-1]", '["X";""]',
      "()", "(1,3)", "{a.a}", "`b`", '"xyz"', "[97;98]"]


def text(d):
    g = Gen(d)
    k = d.below(10)
    if k < 4:
        return "".join(d.many(0, 10, lambda: d.pick("aabbc ,.X1")))
    if k < 6:
        return g.string()
    if k < 8:
        return d.pick([" ", "  ", "\n", "\t", "", ",", ".", "ab"]) + \
            g.string() + d.pick(["", " ", "\n ", ".", "x", ",,"])
    return g.num()


def bit(d):
    return "".join(d.many(0, 3, lambda: d.pick("ab ,.X1c\n")))


def codes(d):
    """Character codes of every width."""
    c = lambda: d.pick([65, 97, 128, 255, 256, 0x3bb, 0x20ac, 0xfffd, 0xffff,
                        0x10000, 0x1f600, 0x10ffff, 0x110000, 0]) \
        + d.pick([0, 0, 0, 1, -1])
    if d.chance(30):
        lo = d.pick([65, 250, 0xfffd, 0x10000, 0x1f600])
        return f"({lo},{lo + d.int(1, 5)})"
    return "[" + ";".join(lit(str(c())) for _ in range(d.int(1, 4))) + "]"


STRIPS = "|| |> <|".split()


def strip(d):
    """Pieces repeated at the ends, as text, Pattern or several of them."""
    ps = d.many(1, 2, lambda: "".join(d.many(1, 2, lambda: d.pick("abX1 "))))
    end = lambda: "".join(d.many(0, 4, lambda: d.pick(ps)))
    s = end() + d.pick(["", "c", "cab", "c c", "b", "."]) + end()
    p = ps[0]
    p = d.pick([lit(p), f"`{p}`", f"`[{p}]`", f"`{p}?`", f"(-`{p}`)",
                f"`{p[0]}|{ps[-1]}`", f"`{p}+`", f"`{p}|`",
                "[" + ";".join(lit(x) for x in ps) + "]",
                "[" + ";".join(f"`{x}`" for x in ps) + "]"])
    s = lit(s) if d.chance(80) else f"[{lit(s)};{lit(end())}]"
    return f"({s} {d.pick(STRIPS)} {p})"


def gen(d):
    out = []
    for _ in range(d.int(1, 3)):
        s = lit(text(d)) if d.chance(80) else lit(tuple(
            d.many(0, 3, lambda: text(d))))
        t, u = lit(bit(d)), lit(bit(d))
        L = "[" + ";".join(d.many(0, 3, lambda: lit(bit(d)))) + "]"
        M = "[" + ";".join(d.many(0, 3, lambda: lit(bit(d)))) + "]"
        n = lit(Gen(d).small())
        e = d.pick([
            f"({s} R {t};{u})", f"({s} R {L};{M})", f"({s} R {L};{u})",
            f"({s} TR {t};{u})", f"({s} TR {lit(text(d))};{lit(text(d))})",
            f"({s} TR {t};{L})", f"({s} TR {t};{codes(d)})", f"({s} RA {n};{t})",
            f"({s} RA [{n};{lit(Gen(d).small())}];{L})",
            f"({s} RA {lit(Gen(d).rng())};{t})", f"({s} ^ {t})",
            f"(({s} ^ {t}) J {t})", f"({s} J {t})", f"({s} JW {t})",
            f"({s} || {t})", f"({s} |> {t})", f"({s} <| {t})",
            f"({s} || {L})", f"({s} TM {n})", f"({s} TM {lit(Gen(d).rng())})",
            f"({s} RM {t})", f"({s} RM {L})", f"({s} DC {t})",
            f"({s} X {n})", f"({s} WR {t})", f"({s} . {t})", f"({t} . {s})",
            f"(|| {s})", f"(|> {s})", f"(<| {s})", f"(TM {s})", f"(LC {s})",
            f"(UC {s})", f"(SC {s})", f"(TC {s})", f"(IC {s})", f"(A {s})",
            f"(C {lit(str(d.int(0, 400)))})", f"(A (C {d.int(0, 2000)}))",
            f"(A* {s})", f"(J {s})", f"(RV {s})", f"(# {s})",
            f"({s} R {t};{{a . {u}}})", f"({s} JW {L})", f"({s} J {L})",
            f"({s} R {t};{lit(Gen(d).value('n'))})"])
        if d.chance(12):
            e = strip(d)
        out.append("P RP " + e)
        if d.chance(10):
            out[-1] = f"u:{s}\n" + out[-1].replace(s, "u") + "\nP RP u"
    return {"code": "\n".join(out) + "\n()"}


def suite():
    return Suite("P19", [
        sweep_family(U + B),
        sweep_family(TERN, third=T3, name="ternary sweep"),
        Family("texts", gen, diff_check(substantial), 24000),
        op_family(U + B + TERN, 8000),
        large_family(U + B + TERN, 2000),
    ], "String operators over short texts full of the separators, affixes and "
       "replaced pieces they look for, lists of texts, and boundary counts; "
       "exhaustive pool sweeps; non-trivial: distinct text without nonfatal "
       "errors and with some non-empty result.", BASE_ASSUMPTIONS)
