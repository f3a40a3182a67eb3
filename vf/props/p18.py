"""P18: list restructuring."""
from fractions import Fraction
import math

from ..common import *
from ..engine import Suite

U = keys("RV R RF PZ QR QP FL FA EN <> CH ^ WV UW Z ZD ZJ UQ #", 1)
B = keys("AE AL PE RL Z ZD ZJ WV UW <> CH ^@ J JW", 2)


def gen(d):
    """Round trips and size laws, computed by the interpreter itself."""
    g = Gen(d)
    kind = d.pick("NTLGsR")
    v = g.value(kind)
    n = d.int(1, 9)
    cuts = [d.int(-6, 9) for _ in range(d.int(0, 4))]
    return {"val": lit(v), "n": n, "neg": d.chance(20),
            "cuts": "[" + ";".join(lit(str(c)) for c in cuts) + "]"}


def check(case, ctx):
    v, n, cuts = case["val"], case["n"], case["cuts"]
    if "\n" in v:
        raise Discard
    k = lit(str(-n if case["neg"] else n))
    same = ["v", "RV RV v", f"($AL {'RV ' * case['neg']}(v <> {k}))", f"($AL (v CH {n}))",
            f"($AL (v ^@ {cuts}))",
            f"(WV (v UW {n}))" if not case["neg"] else "v",
            f"((v AE {k}) @< (-1))", f"((v PE {k}) @> 1)",
            f"((v AL [{k};7]) @< (-2))", "((_@1) M (EN v))",
            f"((v RL {n}) @< (#v))", "((RF v) @< (#v))",
            "RV ((RF v) @> (#v))"]
    sizes = ["[#v]", "[#(PZ v)]", f"[#(v CH {n})]", f"({{#a}} M (v CH {n}))",
             f"({{#a}} M (v <> {n}))", "({#a} M (EN v))"]
    code = "\n".join([f"u:{v}", "v:({a} M u)"] +
                     ["P RP " + x for x in same + sizes]) + "\n()"
    r = T.run(None, ["-e", code])
    if r.status != "ok":
        raise Violation(f"{code!r}: {r.status} {r.detail}")
    L = r.out.rstrip("\n").split("\n")
    if len(L) != len(same) + len(sizes):
        raise Violation(f"{code!r}: {len(L)} lines {L}")
    size, pz, pieces, chop, group, en = [
        [int(x) for x in t.strip("[]").split(";") if x]
        for t in L[len(same):]]
    size = size[0]
    if size == 0:
        raise Discard
    for e, got in zip(same, L):
        if got != L[0]:
            raise Violation(f"{e} with v:{L[0]} gives {got}, not v; n={n}")
    if pieces != [n] or len(chop) != n:
        raise Violation(f"CH {n} of {L[0]} made {pieces} pieces")
    if max(chop) - min(chop) > 1 or sum(chop) != size:
        raise Violation(f"CH {n} of {L[0]}: lengths {chop}")
    if any(x != n for x in group[:-1]) or not 0 < group[-1] <= n:
        raise Violation(f"<> {n} of {L[0]}: lengths {group}")
    if pz != [2 * size - 1]:
        raise Violation(f"PZ of {L[0]} has length {pz}")
    if en != [2] * size:
        raise Violation(f"EN of {L[0]} has lengths {en}")
    ctx.nontrivial()


def gen_parts(d):
    """Pieces of a size (or a number of pieces) that is no whole number."""
    size = d.pick(["0.1", "0.2", "0.3", "0.7", "1.1", "1.5", "2.3", "3.3",
                   "0.01", "0.6", "0.9", "4.7", "1.25", "2.75"]) \
        if d.chance(60) else f"{d.int(0, 6)}.{d.int(1, 99):02}"
    return {"n": d.int(1, 30), "size": size, "neg": d.chance(30),
            "op": d.pick(["<>", "CH"]), "kind": d.pick("lrs")}


def check_parts(case, ctx):
    n, size, op = case["n"], Fraction(case["size"]), case["op"]
    if op == "CH":
        size = Fraction(n) / size
    letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ"[:n]
    whole = {"l": "[" + ";".join(f'"{x}"' for x in letters) + "]",
             "r": f"(,{n})", "s": f'"{letters}"'}[case["kind"]]
    k = lit("-" * case["neg"] + case["size"])
    count = math.ceil(n / size)
    edges = [min(math.floor(i * size), n) for i in range(count)] + [n] \
        if not case["neg"] else \
        [n] + [max(math.ceil(n - i * size), 0) for i in range(1, count)] + [0]
    want = [abs(b - a) for a, b in zip(edges, edges[1:])]
    pieces = f"({whole} {op} {k})"
    joined = "1" if case["kind"] == "s" else \
        f"(($AL ({'RV ' * case['neg']}{pieces})) = ({{a}} M {whole}))"
    r = run_lines([f"P ({{#a}} M {pieces})", "P " + joined, "()"], "p")
    got = r.out.split("\n")
    if r.status != "ok" or got[0] != "[" + ";".join(map(str, want)) + "]":
        raise Violation(f"{whole} {op} {k}: {r.status}, lengths {got[0]}, "
                        f"not {want}")
    if got[1] != "1":
        raise Violation(f"{whole} {op} {k}: the pieces do not make up the "
                        f"whole: {got}")
    if n > 2:
        ctx.nontrivial()


def suite():
    return Suite("P18", [
        sweep_family(U + B),
        Family("laws", gen, check, 4000),
        op_family(U + B, 22000),
        large_family(U + B, 2000),
        Family("parts", gen_parts, check_parts, 3000),
    ], "Restructuring operators over strings, lists, nested lists and ranges: "
       "exhaustive pool sweep, random programs, and round trips (reverse, "
       "group, chop, split-at, weave/unweave, append/prepend, reflect) computed "
       "by the interpreter itself; non-trivial: distinct case with a "
       "non-empty result and no nonfatal error.", BASE_ASSUMPTIONS)
