"""P20: bases and digits."""
from ..common import *
from ..engine import Suite

KEYS = both("TB FB TD FD BL")


def number(d):
    k = d.below(61)
    if k == 60:
        return d.pick([1, -1]) * d.pick([2, 3, 10, 36, 7]) ** d.int(
            13, 800) + d.int(-1, 1)
    k %= 6
    if k < 3:
        return d.int(-300, 300)
    if k < 5:
        b = d.pick([2, 3, 10, 16, 36])
        return d.pick([1, -1]) * (b ** d.int(0, 12) + d.int(-1, 1))
    return d.int(-10 ** 30, 10 ** 30)


def laws(d):
    return {"n": number(d), "b": d.int(2, 36), "big": d.pick(
        [2, 10, 37, 100, 256, 1000, 10 ** 6, 10 ** 20])}


def check(case, ctx):
    n, b, big = case["n"], case["b"], case["big"]
    N = lit(str(n))
    code = "\n".join(f"P RP {e}" for e in [
        f"({N} TB {b})", f"(({N} TB {b}) FB {b})", f"({N} TD {b})",
        f"(({N} TD {b}) FD {b})", f"({N} TD {big})",
        f"(({N} TD {big}) FD {big})", f"((TB {N}) FB 2)", f"(FB (TB {N}))",
        f"(FD (TD {N}))", f"((LC ({N} TB {b})) FB {b})"]) + "\n()"
    r = T.run(None, ["-e", code])
    if r.status != "ok":
        raise Violation(f"{code!r}: {r.status} {r.detail}")
    L = r.out.split("\n")
    text = L[0].strip('"')
    ok = all(L[i] == str(n) for i in (1, 3, 5, 6, 7, 8, 9))
    try:
        ok = ok and int(text, b) == n and text == text.upper() and \
            (text.lstrip("-")[0] != "0" or n == 0)
    except ValueError:
        ok = False
    for i, base in ((2, b), (4, big)):
        ds = [int(x) for x in L[i].strip("[]").split(";") if x]
        total = 0
        for x in ds:
            total = total * base + x
            ok = ok and 0 <= (x if n >= 0 else -x) < base
        ok = ok and total == n and (not ds or ds[0] != 0)
    if not ok:
        raise Violation(f"conversion of {n} in base {b} or {big}: {L}")
    if abs(n) >= b:
        ctx.nontrivial()


def gen(d):
    out = []
    for _ in range(d.int(1, 3)):
        b = lit(str(d.pick([2, 10, 16, 36, 3, 7, 35, 0, 1, -2, 37, 64, 100])))
        if d.chance(10):
            b = lit(Gen(d).value(d.pick("ns*")))
        n = lit(str(number(d)))
        t = "".join(d.many(0, 6, lambda: d.pick("0123456789abzABZ-._ ")))
        ds = "[" + ";".join(d.many(0, 5, lambda: lit(
            str(d.int(-12, 40)) if d.chance(85) else Gen(d).num()))) + "]"
        out.append("P RP " + d.pick([
            f"({n} TB {b})", f"({n} TD {b})", f"({lit(t)} FB {b})",
            f"({ds} FD {b})", f"({ds} TB {b})", f"({ds} TD {b})",
            f"(FB {lit(t)})", f"(TB {n})", f"(TD {n})", f"(FD {ds})",
            f"(BL {n})", f"({lit(Gen(d).num())} TB {b})",
            f"({lit(Gen(d).num())} TD {b})", f"(({n} TB {b}) FB {b})",
            f"({lit(Gen(d).num())} FD {b})", f"(,4 FD {b})"]))
    return {"code": "\n".join(out) + "\n()"}


def enum(tier):
    top = 40 if tier == "quick" else 200
    cases = []
    for b in list(range(-2, 40)):
        ex = [f"({lit(str(n))} TB {lit(str(b))})" for n in range(-top, top, 3)]
        ex += [f"({lit(str(n))} TD {lit(str(b))})" for n in range(-top, top, 3)]
        ex += [f'("{t}" FB {lit(str(b))})' for t in
               ("0", "1", "10", "Z", "z", "19", "-1a", "A0", "0b1", "0x1",
                "0o7", "1_0", "_1", " 1", "", "+1", "--1", "1.0", "8")]
        cases += [{"exprs": c} for c in chunks(ex, 24)]
    return cases


def suite():
    f = Family("bases", enum=enum, check=batch_check)
    f.split = split_batch
    return Suite("P20", [
        f, sweep_family(KEYS),
        Family("laws", laws, check, 8000),
        large_family(KEYS, 1500),
        Family("conversions", gen, diff_check(substantial), 14000),
    ], "Integers of either sign around powers of the base, every base from -2 "
       "to 39 and larger, digit strings and digit lists, valid or not; "
       "round-trip laws checked against Python's int(); non-trivial: more "
       "than one digit, or distinct program without nonfatal errors.",
        BASE_ASSUMPTIONS)
