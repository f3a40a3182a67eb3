"""P02: how expressions are grouped."""
import re

from ..common import *
from ..engine import Suite

UN = sorted(S.OPS[1], key=lambda s: (S.OPS[1][s].prec, s))
BIN = sorted(S.OPS[2], key=lambda s: (S.OPS[2][s].prec, s))
TERN = sorted(S.OPS[3], key=lambda s: (S.OPS[3][s].prec, s))
ATOMS = ["a", "b", "c", "x", "y", "1", "2", '"s"', "`p`", "()", "[a;b]", "{a}",
         "$x", "(f a b)", "[]", "[a]", "'c", "(a)", "(a+b)", "{a+1}"]


def operand(d, depth):
    k = d.below(20)
    if k < 12 or depth <= 0:
        return d.pick(ATOMS)
    if k < 14:
        return "(" + expr(d, depth - 1) + ")"
    if k < 16:
        return "[" + ";".join(d.many(1, 3, lambda: expr(d, depth - 1))) + "]"
    if k < 18:
        return "{" + ";".join(d.many(1, 2, lambda: statement(d, depth - 1))) \
            + "}"
    return "(" + d.pick("fgab") + " " + ";".join(
        d.many(1, 3, lambda: expr(d, depth - 1))) + ")"


def prefix(d):
    out = ""
    while d.chance(35):
        k = d.below(12)
        if k < 8:
            out += " " + d.pick(UN)
        elif k < 10:
            out += " $" + d.pick(BIN)
        else:
            out += " \\$" + d.pick(BIN)
        if d.chance(15):
            out += "*"
        if d.chance(6):
            out += ":"
    return out + " "


def expr(d, depth, ops=None):
    out = prefix(d) + operand(d, depth)
    while d.chance(62):
        k = d.below(20)
        if k < 17:
            op = d.pick(BIN)
        elif k < 19:
            op = d.pick([s for s in BIN if S.OPS[2][s].assoc in "RC"])
        else:
            op = None
        if op is None:
            op = d.pick(TERN)
            out += f" {op} {expr(d, depth - 1)};" if d.chance(70) else \
                f" {op} {operand(d, 0)} "
        else:
            out += f" {op}"
            if d.chance(8):
                out += ":"
        out += prefix(d) + operand(d, depth)
    return out


def statement(d, depth):
    k = d.below(24)
    if k < 18 or depth < 0:
        return expr(d, depth)
    if k < 19:
        return f"I {expr(d, depth)};{{{expr(d, depth)}}}" + d.pick(
            ["", f"EL{{{expr(d, 0)}}}", f"EI {expr(d, 0)};{expr(d, 0)}"])
    if k < 20:
        return f"{d.pick('WT')} {expr(d, depth)};{statement(d, depth - 1)}"
    if k < 21:
        return f"L {expr(d, depth)};{{{statement(d, depth - 1)}}}"
    if k < 22:
        return f"LR {expr(d, 0)};{expr(d, 0)};{statement(d, depth - 1)}"
    if k < 23:
        return "WG"
    return f"F {d.pick(['x', '[x y]', '[x;[y z]]'])} {expr(d, depth)};" \
           f"{statement(d, depth - 1)}"


def gen(d):
    body = ";".join(d.many(1, 2, lambda: statement(d, d.int(0, 2))))
    # squeeze out the optional separators now and then
    if d.chance(20):
        body = body.replace(";", " ")
    body = re.sub(" +", " ", body).replace("@*", "@ *")
    return {"code": "P{" + body + "}"}


def check(case, ctx):
    e, r = D.diff(case, ctx)
    if e.status == "ok" and e.out.count("(") > 1:
        ctx.nontrivial()


def pairs(tier):
    """Every pair of operators next to each other, without parentheses."""
    cases = []
    bins = [(s, "") for s in BIN] + [("+", ":"), ("M", ":"), ("<", ":")]
    for s, ms in bins:
        ex = []
        for t, mt in bins:
            ex.append(f"{{a {s}{ms} b {t}{mt} c}}")
        for t in TERN:
            ex += [f"{{a {s}{ms} b {t} c;d}}", f"{{a {t} b {s}{ms} c;d}}",
                   f"{{a {t} b;c {s}{ms} d}}"]
        for t in UN:
            ex += [f"{{{t} a {s}{ms} b}}", f"{{a {s}{ms} {t} b}}"]
        for t in ("$+", "\\$.", "$+*", "-*", "-:", "$*:"):
            ex += [f"{{{t} a {s}{ms} b}}", f"{{a {s}{ms} {t} b}}"]
        cases += [{"exprs": c} for c in chunks(ex, 30)]
    for s in UN:
        ex = [f"{{{s} {t} a}}" for t in UN]
        ex += [f"{{{s} a {t} b;c}}" for t in TERN] + \
              [f"{{a {t} {s} b;c}}" for t in TERN] + \
              [f"{{a {t} b;{s} c}}" for t in TERN]
        ex += [f"{{{s} * a {t} b}}" for t in BIN[::4]]
        cases += [{"exprs": c} for c in chunks(ex, 30)]
    for s in TERN:
        ex = [f"{{a {s} b;c {t} d;e}}" for t in TERN] + \
             [f"{{a {s} b {t} c;d;e}}" for t in TERN]
        cases.append({"exprs": ex})
    for s in BIN:
        ex = [f"{{{m}{s}{x} a {t} b}}" for m in ("$", "\\$")
              for x in ("", "*", ":", "*:") for t in ("+", "M", "@", "=", "?")
              if t != "?"]
        cases.append({"exprs": ex})
    return cases


def pairs_check(case, ctx):
    """One display per line."""
    for part in chunks(case["exprs"], 30):
        D.diff({"code": "\n".join("P" + x for x in part) + "\n()"}, ctx)
    ctx.nontrivial()


NUMOPS = ["+", "-", "*", "/", "%", "//", "**", "=", "<", ">", "!=", ",", ".",
          "BA", "BO", "AE", "X", "RL", "J", "&", "|", "Q", "LT", "<>", "@",
          "FB", "TB", "N", "AL", "RM", "Z", "CM", "<=", "@?", "#=", "\\|"]
NUMUN = ["-", "#", "!", "/", ",", "RV", "J", "SG", "AB", "^", "+", "MX",
         "SN", "U", "ST", "RP", "$+", "$*", "$.", "\\$+", "-*", "#*", "$AE"]


def values(d):
    """An expression and the same with every grouping spelled out."""
    out = ""
    for i in range(d.int(2, 5)):
        if i:
            out += " " + d.pick(NUMOPS)
        while d.chance(25):
            out += " " + d.pick(NUMUN)
        out += " " + (str(d.int(0, 12)) if d.chance(70) else d.pick(
            ["x", "[3;4]", '"ab"', "y", "1.5", "[[1;2];[3;4]]"]))
        if i == 1 and d.chance(15):
            out += f" ? {d.int(1, 9)};{d.int(1, 9)}"
    return {"expr": re.sub(" +", " ", out).strip()}


def values_check(case, ctx):
    tree = S.parse(S.lex("P RP (" + case["expr"] + ")"))
    full = S.render_program(tree)
    pre = "x:7;y:[1;2;3]\n"
    D.expected({"code": pre + full})
    a = T.run(pre + "P RP (" + case["expr"] + ")\nP[x;y]")
    b = T.run(pre + full + "\nP[x;y]")
    if a.key() != b.key():
        raise Violation(f"{case['expr']!r} gives {a}, but spelled out "
                        f"{full!r} gives {b}")
    if full.count("(") > 2 and a.out.split("\n")[0] not in ("()", "[]"):
        ctx.nontrivial()


def suite():
    f = Family("pairs", enum=pairs, check=pairs_check)
    f.split = split_batch
    return Suite("P02", [
        f,
        Family("displays", gen, check, 16000),
        Family("spelled out", values, values_check, 8000),
    ], "Exhaustive: every pair of operators (binary, unary, ternary, with "
       "meta-operators) side by side without parentheses; random expressions "
       "and statements without parentheses, grouping read off the display of a "
       "function; values equal those of the fully parenthesised text; "
       "non-trivial: two or more groups.", BASE_ASSUMPTIONS)
