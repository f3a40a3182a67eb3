"""P10: indexing and slicing."""
from ..common import *
from ..engine import Suite

CONT = ['""', '"a"', '"ab"', '"abc"', '"abcd"', "[]", "[7]", "[7;8]",
        "[7;[8;9];\"x\"]", "[5;6;7;8]", "(0,0)", "(,1)", "(,3)", "(2,6)",
        "(-2,1)", "((),2)", "(3,())", "[[1;2];[3;4];[5;6]]"]


def enum(tier):
    span = 7 if tier == "quick" else 11
    cases = []
    for c in CONT:
        ix = [lit(str(i)) for i in range(-span, span + 1)]
        ex = [f"({c} @ {i})" for i in ix]
        for op in ("@<", "@>", "H", "S"):
            ex += [f"({c} {op} {i})" for i in ix]
        ex += [f"({op} {c})" for op in ("@", "@<", "@>", "H", "S")]
        w = 5 if tier == "quick" else 8
        b = ["()"] + [str(i) for i in range(-w, w + 2)]
        ex += [f"({c} @ ({lo},{hi}))" for lo in b for hi in b]
        ex += [f"({c} @ [{i};{j}])" for i in (0, -1, 3) for j in (1, -2, 9)]
        cases += [{"exprs": x} for x in chunks(ex, 16)]
        # the same through a variable, whose items are references
        cases += [{"pre": f"u:{c}", "exprs": [e.replace(c, "u", 1)
                                              for e in x]}
                  for x in chunks(ex, 16)]
    return cases


def deep(d):
    """Nested containers reached by several indices in different notations."""
    g = Gen(d)
    v = d.pick([lambda: g.value("G"), lambda: g.value("L"),
                lambda: tuple(g.value("G") for _ in range(d.int(1, 3))),
                lambda: g.value("T"), lambda: g.string(),
                lambda: g.value("N")])()
    lines = [f"u:{lit(v)}"]
    for _ in range(d.int(1, 4)):
        e = "u" if d.chance(70) else lit(v)
        if d.chance(30):
            ixs = [lit(g.small()) if d.chance(70) else
                   lit(g.value(d.pick("RNis"))) for _ in range(d.int(1, 3))]
            e = "(" + " ".join([e] + ixs) + ")"
        else:
            for _ in range(d.int(1, 3)):
                k = d.below(12)
                if k < 7:
                    op, ix = "@", lit(g.small())
                elif k < 9:
                    op, ix = "@", lit(g.rng())
                elif k < 10:
                    op, ix = d.pick(["@<", "@>", "H", "S"]), lit(g.small())
                elif k < 11:
                    op, ix = d.pick(["@", "@<", "@>", "H", "S"]), \
                        lit(g.value(d.pick("NRLG")))
                else:
                    op, ix = "@", lit(g.value(d.pick("nsP0")))
                e = f"({e} {op} {ix})" if d.chance(88) else f"({op} {e})"
        if d.chance(20):
            e = d.pick(["(# %)", "(% . 1)", "[%;%]", "(% AE 1)", "(J %)",
                        "(% = %)", "(RV %)", "({a} %)"]).replace("%", e)
        lines.append("P RP " + e)
    return {"code": "\n".join(lines) + "\n()"}


def tall(d):
    """One item many levels down, reached by as many indices."""
    n = d.int(4, 40)
    v = lit(Gen(d).value(d.pick("nsNR")))
    path = []
    for _ in range(n):
        k = d.int(1, 3)
        at = d.below(k)
        path.append(d.pick([at, at, at, at - k]))
        v = "[" + ";".join(v if i == at else str(d.below(9))
                           for i in range(k)) + "]"
    if d.chance(25):
        path = path[:d.int(1, n)]
    elif d.chance(20):
        path.append(d.int(-1, 2))
    ix = [f"({i})" if i < 0 else str(i) for i in path]
    k = d.below(5)
    if k == 0:
        e = "(u " + " ".join(ix) + ")"
    elif k == 1:
        e = "(u;" + ";".join(ix) + ")" if d.chance(50) else \
            f"((u {' '.join(ix[:-1])}) @ {ix[-1]})" if len(ix) > 1 else "u"
    elif k == 2:
        e = "(u@" + "@".join(ix) + ")"
    elif k == 3:
        m = d.below(len(ix))
        e = "(" + "@".join(["u"] + ix[:m + 1]) + ")"
        if ix[m + 1:]:
            e = f"({e} {' '.join(ix[m + 1:])})"
    else:
        e = "({u@" + "@".join(ix) + "} 1)"
    lines = [f"u:{v}", "P RP " + e]
    if d.chance(50):
        lines += ["(u@" + "@".join(ix) + "):\"Z\"", "P RP u"]
    return {"code": "\n".join(lines) + "\n()"}


def laws(d):
    g = Gen(d)
    v = g.value(d.pick("sNLTR"))
    return {"val": lit(v), "i": d.int(-12, 12), "j": d.int(-6, 12)}


def law_check(case, ctx):
    """Slices and items of a container agree (no reference involved)."""
    v, i, j = case["val"], case["i"], case["j"]
    code = "\n".join([
        f"u:{v}", "n:#u", "P n", "P RP u",
        f"P RP (u@({i}))", f"P RP (u@(({i})+n))", f"P RP (u@(({i})%n))",
        f"P RP [(u@<({j}));(u@((),{j}))]", f"P RP [(u@>({j}));(u@({j},()))]",
        f"P RP FA [(u@((),{j}));(u@({j},()))]",
        f"P RP {{u@a}} M (,n)", "P RP (FA u@((),()))"])
    r = T.run(None, ["-e", code + "\n()"])
    if r.status != "ok":
        raise Violation(f"{code!r}: {r.status} {r.detail}")
    if "\\n" in r.out or r.out.count("\n") != 10 or '"' in r.out:
        raise Discard
    L = r.out.split("\n")
    n = int(L[0])
    if n:
        if not L[2] == L[3] == L[4]:
            raise Violation(f"indices do not wrap: {code!r} -> {L}")
        ctx.nontrivial()


def suite():
    f = Family("small scope", enum=enum, check=batch_check)
    f.split = split_batch
    keys = both("@ @< @> H S")
    return Suite("P10", [
        f,
        sweep_family([k for k in keys]),
        Family("nested", deep, diff_check(substantial), 16000),
        Family("many levels", tall, diff_check(substantial), 600),
        op_family(keys + both("PK RA"), 8000),
        large_family(keys + both("PK RA"), 2000),
        Family("wrap", laws, law_check, 3000),
    ], "Exhaustive: every container of a pool (length 0-4; strings, lists, "
       "ranges; literal and variable) with every index in -7..7 and every "
       "slice bound in -5..6 or nil. Random: nested containers reached "
       "through several indices, and items up to 40 levels down. Non-trivial: distinct text without nonfatal "
       "errors.", BASE_ASSUMPTIONS)
