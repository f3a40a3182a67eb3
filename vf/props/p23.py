"""P23: membership, counting and searching."""
from ..common import *
from ..engine import Suite

KEYS = keys("N NI @? @* RM", 2)


def stack(d):
    """A container and things found in it (or almost)."""
    g = Gen(d)
    k = d.below(10)
    if k < 4:
        hay = "".join(d.pick("aab1 ") for _ in range(g.length(8)))
        pick = lambda: d.pick(["a", "b", "ab", "aa", "aba", "", "1", "x",
                               hay[:2], hay[-2:], hay, hay + "a", hay[1:3]])
        return lit(hay), lambda: lit(pick())
    if k < 8:
        pool = d.pick([["1", "2", "1.0", "01", "3"], ["a", "ab", "", "b"],
                       ["1", "a", "", "0", "0.0"]])
        hay = tuple(d.pick(pool) if d.chance(85) else d.pick(
            [None, ("1",), (), Rng(None, 2), Pat("a"), ("0", "1"), Pat("a", 2)])
            for _ in range(g.length(5)))
        return lit(hay), lambda: lit(
            d.pick(hay) if hay and d.chance(60) else d.pick(pool + [
                None, ("1",), ("1", "2"), (), Rng(None, 2), Pat("a")]))
    if k < 9:
        r = g.rng() if d.chance(80) else g.value("Q")
        lo = r.lo or 0
        hi = r.hi if r.hi is not None else lo + 8
        return lit(r), lambda: lit(str(d.int(lo - 2, max(lo, hi) + 2)) if
                                   d.chance(80) else d.pick(
            ["1.5", "a", "", "2.0", "-0", Rng(None, 2), None, ("1", "2"),
             "02", " 2", "1e0"]))
    n = g.num()
    return lit(n), lambda: lit(d.pick([n[:1], n[-1:], "0", ".", n]))


def gen(d):
    out = []
    for _ in range(d.int(1, 3)):
        h, f = stack(d)
        x, y = f(), f()
        e = d.pick([f"({x} N {h})", f"({x} NI {h})", f"({h} @? {x})",
                    f"({h} @* {x})", f"({h} RM {x})", f"({h} RM [{x};{y}])",
                    f"({h} @? [{x};{y}])", f"({h} @* [{x};{y}])",
                    f"({h} @* [[{x}];{y}])", f"([{x};{y}] N {h})",
                    f"(_ N {h} FI [{x};{y}])", f"({x} N [{h};{h};{x}])",
                    f"([{h};{x}] @? {x})", f"({h} = {x})", f"(#({h} @* {x}))",
                    f"(({h} @? {x}) >= 0)", f"({h} @ ({h} @? {x}))",
                    f"({{a N {h}}} M [{x};{y}])", f"({h} @? {x} = 0)"])
        if d.chance(25):
            out += [f"u:{h}", "P RP " + e.replace(h, "u")]
        else:
            out.append("P RP " + e)
    return {"code": "\n".join(out) + "\n()"}


def laws(d):
    k = d.below(3)
    if k == 0:
        hay = "".join(d.pick("ab") for _ in range(Gen(d).length(10)))
        need = "".join(d.pick("ab") for _ in range(d.int(1, 3)))
    else:
        pool = ["1", "2", "3", "a", "b", "ab"]
        hay = [d.pick(pool) for _ in range(Gen(d).length(7))]
        need = d.pick(pool)
    return {"hay": hay, "need": need}


def law_check(case, ctx):
    hay, need = case["hay"], case["need"]
    n = len(need)
    if isinstance(hay, str):
        at = [i for i in range(len(hay)) if hay.startswith(need, i)]
        spans, i = [], 0
        while (i := hay.find(need, i)) >= 0:
            spans.append(i)
            i += n
        count, rest = len(spans), '"' + hay.replace(need, "") + '"'
        where = [spans, at]
        H = lit(hay)
    else:
        at = [i for i, x in enumerate(hay) if x == need]
        count = len(at)
        rest = V.show(tuple(x for x in hay if x != need))
        where = [at]
        H = lit(tuple(hay))
    N = lit(need)
    code = "\n".join(f"P RP {e}" for e in [
        f"({N} N {H})", f"({N} NI {H})", f"({H} @? {N})", f"({H} @* {N})",
        f"({H} RM {N})"]) + "\n()"
    r = T.run(None, ["-e", code])
    got = r.out.rstrip("\n").split("\n")
    shown = ["[" + ";".join(map(str, w)) + "]" for w in where]
    first = str(at[0]) if at else "()"
    bad = r.status != "ok" or got[1] != str(int(not count)) or \
        got[2] != first or got[3] not in shown or got[4] != rest or \
        got[0] not in {str(len(w)) for w in where}
    if bad:
        raise Violation(f"{code!r}: {got}; want {count}, {first}, {shown}, "
                        f"{rest}")
    if at:
        ctx.nontrivial()


def functions(d):
    """Functions are found only where their code is the same."""
    near = d.int(0, len(FUNCTIONS) - 1)
    one = lambda: d.pick(FUNCTIONS) if d.chance(30) else FUNCTIONS[
        min(len(FUNCTIONS) - 1, max(0, near + d.int(-2, 2)))]
    items = d.many(1, 6, one)
    x = d.pick(items) if d.chance(50) else one()
    h = "[" + ";".join(f"[{i}]" for i in items) + "]"
    f = "[" + ";".join(items) + "]"
    return {"code": "P RP " + d.pick([
        f"([[{x}]] N {h})", f"([{x}] N {h})", f"({h} @? [[{x}]])",
        f"({h} @* [[{x}]])", f"({f} RM [{x}])", f"({h} RM [[{x}]])",
        f"([{x}] NI {f})", f"({f} @? [{x}])", f"({f} @* [{x}])",
        f"([{x}] N {f})"]) + "\n()"}


def suite():
    return Suite("P23", [
        sweep_family(KEYS),
        Family("haystacks", gen, diff_check(substantial), 24000),
        Family("functions", functions, diff_check(), 1500),
        Family("laws", laws, law_check, 5000),
        op_family(KEYS, 6000),
        large_family(KEYS, 2000),
    ], "Needles drawn from the haystack or near misses of its items, in "
       "strings, lists (with nested, nil, Pattern and Range items), finite and "
       "infinite ranges, under N NI @? @* RM; laws compare with Python's own "
       "search; non-trivial: distinct text with a non-nil result and no "
       "nonfatal errors.", BASE_ASSUMPTIONS)
