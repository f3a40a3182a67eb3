"""P06: scalar arithmetic."""
from fractions import Fraction
import math

from ..common import *
from ..engine import Suite

BIN = "+ - * / % // ** E EE RT AB AD AT BA BO BX |< >| RZ RN CM"
UN = ("+ - / % HV HU DB SQ ** E EE RT EX LN LB LD BN SI CO TA SE CS CT AT RD "
      "DG BL |< >| RZ RN U D ++ -- AB SG")
KEYS = [(s, 2) for s in BIN.split() if s in S.OPS[2]] + \
       [(s, 1) for s in UN.split()]


def operand(d):
    g = Gen(d)
    k = d.below(10)
    if k < 7:
        return lit(g.num())
    if k < 8:
        # numeric prefixes and non-numeric text
        return lit(d.pick(["", " ", "-"]) + g.num() +
                   d.pick(["", "x", " 1", "e", ".", "-", "\n", "e+", "e5"]))
    if k < 9:
        return lit(g.string())
    return lit(str(d.int(-10 ** 6, 10 ** 6)))


def gen(d):
    lines, exprs = [], []
    for _ in range(d.int(1, 4)):
        sym, ar = d.pick(KEYS)
        exprs.append(build(sym, [operand(d) for _ in range(ar)]))
    if d.chance(30):
        # a longer computation
        e = operand(d)
        for _ in range(d.int(1, 4)):
            sym, ar = d.pick(KEYS)
            e = build(sym, [e] if ar == 1 else
                      [e, operand(d)] if d.chance(50) else [operand(d), e])
        exprs.append(e)
    return {"code": "\n".join("P RP " + e for e in exprs) + "\n()"}


# whole-number arithmetic computed with Python's own integers
def _near(a, b):
    return round(Fraction(a, abs(b))) * abs(b) if b else a


def _to(f):
    return lambda a, b: f(Fraction(a, abs(b))) * abs(b) if b else a


WHOLE2 = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
    "//": lambda a, b: a // b if b else None,
    "%": lambda a, b: a % b if b else None, "AD": lambda a, b: abs(a - b),
    "BA": lambda a, b: a & b, "BO": lambda a, b: a | b,
    "BX": lambda a, b: a ^ b, "CM": lambda a, b: (a > b) - (a < b),
    "|<": _to(math.floor), ">|": _to(math.ceil), "RZ": _to(math.trunc),
    "RN": _near, "=": lambda a, b: int(a == b), "<": lambda a, b: int(a < b),
    "!=": lambda a, b: int(a != b), ">=": lambda a, b: int(a >= b),
}
WHOLE1 = {
    "+": lambda a: a, "-": lambda a: -a, "AB": abs, "DB": lambda a: 2 * a,
    "SQ": lambda a: a * a, "HV": lambda a: a // 2,
    "HU": lambda a: -(-a // 2), "%": lambda a: a % 2, "BN": lambda a: ~a,
    "BL": lambda a: a.bit_length(), "SG": lambda a: (a > 0) - (a < 0),
    "|<": lambda a: a, ">|": lambda a: a, "RZ": lambda a: a,
    "RN": lambda a: a,
}


def whole(d):
    k = d.below(6)
    if k < 2:
        return d.int(-40, 40)
    if k < 4:
        return d.pick([1, -1]) * (d.pick([2, 10]) ** d.int(1, 120) +
                                  d.int(-3, 3))
    if k < 5:
        return d.int(-10 ** 18, 10 ** 18)
    return d.int(-10 ** 400, 10 ** 400)


def gen_whole(d):
    rows = []
    for _ in range(d.int(2, 6)):
        a, b = whole(d), whole(d)
        if d.chance(65):
            rows.append([d.pick(sorted(WHOLE2)), str(a), str(b)])
        elif d.chance(80):
            rows.append([d.pick(sorted(WHOLE1)), str(a)])
        else:
            rows.append([d.pick(["**", "E"]), str(d.int(-30, 30)),
                         str(d.int(0, 90))])
    return {"rows": rows}


def check_whole(case, ctx):
    lines, want = [], []
    for sym, *xs in case["rows"]:
        vals = [int(x) for x in xs]
        lines.append(wrap_show(build(sym, [lit(x) for x in xs])))
        v = (WHOLE1 if len(xs) == 1 else WHOLE2)[sym](*vals) \
            if sym not in ("**", "E") else vals[0] ** vals[1]
        want.append("()" if v is None else str(v))
    r = run_lines(lines + ["()"])
    got = [x.strip('"') for x in r.out.split("\n")[:-1]]
    if r.status != "ok" or got != want:
        raise Violation(f"{lines} gives {got} ({r.status}), not {want}")
    if any(len(w) > 16 for w in want):
        ctx.nontrivial()


def suite():
    return Suite("P06", [
        sweep_family(KEYS),
        Family("arithmetic", gen, diff_check(substantial), 24000),
        op_family(KEYS, 12000),
        large_family(KEYS, 1500),
        Family("whole", gen_whole, check_whole, 5000),
    ], "Expressions over numeric and non-numeric Scalars built from every "
       "arithmetic, rounding, bitwise and elementary-function operator, plus "
       "every operator on every pair of a boundary pool; non-trivial: no "
       "nonfatal error and some line that is not nil/empty, distinct program "
       "text (sweep: distinct batch).", BASE_ASSUMPTIONS)
