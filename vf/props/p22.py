"""P22: sorting, extremes, unique."""
import functools

from ..common import *
from ..engine import Suite

KEYS = keys("SN SS DN DS UQ MX MN", 1) + keys("SK DK", 2) + keys("CM", 2)


def items(d):
    """Item texts with many near-equal keys."""
    n = Gen(d).length(7)
    k = d.below(6)
    if k < 2:
        f = lambda: str(d.int(-3, 12))
    elif k < 3:
        f = lambda: d.pick(["1", "1.0", "01", "2", "10", "9", "-1", "-1.5",
                            "0", "0.0", "", "a", "1a", " 1", "1e1", "-0"])
    elif k < 4:
        f = lambda: "".join(d.many(0, 3, lambda: d.pick("abAB1")))
    else:
        f = lambda: Gen(d).scalar()
    return tuple(f() for _ in range(n))


def container(d):
    k = d.below(12)
    xs = items(d)
    if k < 6:
        return lit(xs)
    if k < 8:
        return lit(tuple(tuple(items(d)[:d.int(0, 3)]) for _ in xs[:6]))
    if k < 9:
        return lit("".join(x for x in xs))
    if k < 10:
        return lit(Gen(d).rng())
    if k < 11:
        mixed = tuple(Gen(d).value(d.pick("nsNR0PL")) for _ in xs[:6])
        return lit(mixed)
    # equal scalars written differently, patterns and ranges
    return lit(tuple(d.pick(["1", "1.0", "a", None, Rng(None, 2), ("0", "1"),
                             Pat("a"), Pat("a", 2), (), "", Rng(0, 2)])
                     for _ in range(d.int(0, 6))))


KEYFN = ["{a}", "{#a}", "{-a}", "{a%3}", "{LCa}", "{a@0}", "{a/2}", "{0}",
         "{RVa}", "{P a}", "(_%2)", "LC_", "(#_)", "{a<3}", "{b}", "{()}",
         "{[a%2;#a]}", "{i:i+1;-i}", "{AB a}", "{`a`}", "{a N a}"]


def gen(d):
    out = []
    for _ in range(d.int(1, 3)):
        c = container(d)
        op = d.pick(["SN", "SS", "DN", "DS", "UQ", "MX", "MN", "SK", "DK"])
        if op in ("SK", "DK"):
            f = d.pick(KEYFN)
            e = f"({f} {op} {c})" if d.chance(75) else f"({c} {op} {f})"
        else:
            e = f"({op} {c})"
        if d.chance(20):
            out += [f"u:{c}", "P RP " + e.replace(c, "u"), "P RP u"]
        else:
            out.append("P RP " + e)
    return {"code": "\n".join(out) + "\n()"}


def laws(d):
    xs = items(d)
    return {"xs": [lit(x) for x in xs if "\n" not in x and "\t" not in x]}


def law_check(case, ctx):
    """Permutation, order and stability, judged by the operators < and LT of
    the interpreter only on neighbours, and by position numbers."""
    xs = case["xs"]
    n = len(xs)
    lst = "[" + ";".join(xs) + "]"
    # pair every item with its position, sort the positions by the item
    code = "\n".join([
        f"u:{lst}", f"v:,{n}",
        "w:({u@a} SK v)", "P RP w", "P RP (SN u)", "P RP ({u@a} M w)",
        "P RP ({(SN u)@a = u@(w@a)} M v)",
        "z:({u@a} DK v)", "P RP z", "P RP (DN u)",
        "P RP ({(DN u)@a = u@(z@a)} M v)",
        "s:SS u", f"P RP ({{s@a LE s@(a+1)}} M ,({n}-1))",
        "t:DS u", f"P RP ({{t@a GE t@(a+1)}} M ,({n}-1))",
        f"P RP ({{u@(w@a) <= u@(w@(a+1))}} M ,({n}-1))",
        f"P RP ({{u@(z@a) >= u@(z@(a+1))}} M ,({n}-1))",
        "P RP ((SN w) == (FA v))", "P RP ((SN z) == (FA v))",
        "x:UQ u", "P RP ({a N x} M u)", "P RP ({a N x} M x)",
        "P RP ((UQ x) == x)", "P RP ((SS s) == s)", "P RP ((DS s) == t)",
        "P RP ($+ ({a N u} M x) = #u)", "P RP ((#s) = #u & (#t) = #u)",
        "P RP ($& ({a N u = a N s} M u))", "P RP ((MX u) = (MX SN u))",
        f"P RP ($& ({{(MX u) >= a}} M u))", f"P RP ($& ({{(MN u) <= a}} M u))",
    ])
    if n < 2:
        raise Discard
    r = T.run(None, ["-e", code + "\n()"])
    if r.status != "ok":
        raise Violation(f"{code!r}: {r.status} {r.detail}")
    L = r.out.rstrip("\n").split("\n")
    ones = "[" + ";".join("1" * n) + "]"
    less = "[" + ";".join("1" * (n - 1)) + "]"

    def need(i, want, what):
        if L[i] != want:
            raise Violation(f"{what} for {lst}: {L[i]} (want {want})")
    need(3, ones, "SN disagrees with SK")
    need(6, ones, "DN disagrees with DK")
    for i, w in ((7, "SS"), (8, "DS"), (9, "SK"), (10, "DK")):
        need(i, less, f"{w} is not in order")
    need(11, "1", "SK loses items")
    need(12, "1", "DK loses items")
    need(13, ones, "UQ loses or repeats items")
    u = L[14].strip("[]").split(";")
    if any(x != "1" for x in u):
        raise Violation(f"UQ of {lst} keeps repeats: {L[14]}")
    for i, w in ((15, "UQ twice"), (16, "SS twice"), (17, "DS of SS"),
                 (18, "counts of unique items"), (19, "size"),
                 (20, "SS keeps items"), (21, "MX"), (22, "MX bound"),
                 (23, "MN bound")):
        need(i, "1", w)
    # stability: equal keys stay in their order
    for pos, name in ((0, "SK"), (4, "DK")):
        order = [int(x) for x in L[pos].strip("[]").split(";")]
        code2 = "\n".join([f"u:{lst}"] + [
            f"P (u@{a} = u@{b})" for a, b in zip(order, order[1:])])
        eq = T.run(None, ["-e", code2 + "\n()"]).out.split()
        for a, b, e in zip(order, order[1:], eq):
            if e == "1" and a > b:
                raise Violation(f"{name} of {lst} by value is not stable: "
                                f"positions {order}")
            if e == "1":
                ctx.tag("stable pair")
    ctx.nontrivial()


def functions(d):
    """Functions are the same only if their code is."""
    near = d.int(0, len(FUNCTIONS) - 1)
    one = lambda: d.pick(FUNCTIONS) if d.chance(40) else FUNCTIONS[
        min(len(FUNCTIONS) - 1, max(0, near + d.int(-2, 2)))]
    items = d.many(2, 7, lambda: one() if d.chance(80) else
                   f"[{one()}]" if d.chance(70) else
                   lit(Gen(d).small()))
    e = "UQ[" + ";".join(items) + "]"
    lines = ["P RP " + e]
    if d.chance(40):
        lines = ["u:[" + ";".join(items) + "]", "P RP UQu", "P #UQ(u AL u)"]
    return {"code": "\n".join(lines) + "\n()"}


def suite():
    return Suite("P22", [
        sweep_family(KEYS),
        Family("containers", gen, diff_check(substantial), 22000),
        Family("functions", functions, diff_check(), 1500),
        Family("laws", laws, law_check, 3000),
        op_family(KEYS, 6000),
        large_family(KEYS, 2000),
    ], "Lists with many equal or differently written keys, strings, ranges "
       "and nested or mixed lists under every sort, MX, MN and UQ; laws: "
       "permutation, order of neighbours, stability, idempotence; "
       "non-trivial: distinct text with a non-empty result and no nonfatal "
       "errors.", BASE_ASSUMPTIONS)
