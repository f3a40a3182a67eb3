"""P09: ranges."""
from ..common import *
from ..engine import Suite

RPOOL = ["(,0)", "(,1)", "(,4)", "(2,6)", "(-3,2)", "((),3)", "(5,2)",
         "(-4,-1)", "(2,())", "((),())", "(-2,())", "(0,5)", "((),-2)",
         "(1\\,3)", "(\\,3)", "(\\,())", "(100000000000000000000 , "
         "100000000000000000003)", "(1000000,1000004)"]
OTHER = ["0", "1", "2", "(-1)", "3", "7", "1.5", '""', '"ab"', "()",
         "[]", "[1;2;3]", "[0;2]", "(,3)", "(1,3)", "(-2,())", "(1,())",
         "{a}", "{a+b}", "`\\d`", "((),-1)", "[[1;2]]", "(-1,3)"]
U = [k for k in G.PURE if k[1] == 1 and k not in (("PM", 1),)]
B = [k for k in G.PURE if k[1] == 2]


def sweep_enum(tier):
    ex = [build(s, [r]) for s, _ in U for r in RPOOL]
    cases = chunks(ex, 12)
    for s, _ in B:
        ex = [build(s, [r, o]) for r in RPOOL for o in OTHER]
        if tier != "quick" or s in RIGHT:
            ex += [build(s, [o, r]) for r in RPOOL for o in OTHER]
        cases += chunks(ex, 20)
    return [{"exprs": c} for c in cases]

# expressions over endless ranges that come to an end ({r}: endless)
ENDLESS = [
    '"abcabc"TR{r}{q}', '"abcabc"TR{r}"xyz"', '"a\n"TR"ab"{r}',
    '"ab"TR[97;98]{r}', '"ab"TR{r}[98;99]', "['a;'b]TR{r}{q}", '#{r}',
    '$+{r}', '$*{r}', '$<{r}', '$.{r}', '\\$+{r}', '\\$<{r}', 'RV{r}',
    'QP{r}', 'QR{r}', 'EN{r}', 'UW{r}', '{r}UW3', '#[{r};{q}]',
    'SN[{r};5;{q}]', '{{a}}SK[{r};5]', 'DN[{r};5]', '{{a}}DK[{r};5]', '{r}@5',
    '{r}@-1', '{r}@(,4)', '{r}@((),3)', '{r}@(-3,())', '{r}@{q}', '{r}@<3',
    '{r}@>2', '{r}H3', '{r}S3', '{r}@[0;2;9]', '7N{r}', '-1N{r}', '"a"N{r}',
    '1.5N{r}', '{r}={q}', '{r}!={q}', '{r}<{q}', '{r}Q{q}', '{r}#={q}',
    '{r}#>{q}', '{r}#<{q}', '{r}CM{q}', '[1;2]#<{r}', '{r}@?7', '{r}@?-2',
    '{r}@?"a"', '{r}@?[3;4]', '{r}RA1 5', 'RP{r}', '[{r}]', 'ST{r}', '!{r}',
    '{r}?1 2', '{r}|1', '{r}&1', '0|{r}', '{r}+3', '3+{r}', '{r}-2',
    '"abc"@{r}', '"abcdef"@(2,())', '[1;2;3]@{r}', '"abc"RA{r}"x"',
    '[1;2;3]RA{r}9', '{r}Z[1;2]', '[1;2]Z{r}', 'PK{r}', '({r}PK1)',
    '{{a}}MU[{r}]', '{{a+b}}MU[{r}]', 'LC{r}', 'UC{r}', '"abcdef"TM{r}',
    '"abcdef"TM(1,())', 'UQ{r}', '{r}=*5', '{r}N{q}', '[{r}]N[[{q}]]',
    '[{r};{q}]@?[{r}]', '{r}===5', '{r}#=3', '{r}|{q}', '{r}&{q}', '({r}{q})',
    '({r}5)', '({r}5 6)', '[{r};{q}]@1@2', '{q}@?{r}', '{q}@*9', '{r}==={q}',
    '{r}=={q}', '{r}NI{q}', '$Q[{r};{q}]', '$|[0;{r}]', '$={r}', '$^{r}',
    '$AL{r}', 'UQ[{r};{q};{r}]', '[{r};{q}]RM[{r}]', '[{r}]@*[{q}]',
    'RV[{r};1]', '[{r};1]RL2', '[{r}]J"-"', "'xN{r}", 'U[{r};{q}]@1',
    '{r}@7.9', '{r}@"3x"', '{r}@[-1;2]', '{r}@[(1,4);2]', '{r}@()', '{r}@`a`',
    '{r}TR"a""b"']


def endless(tier):
    rs = ["(0,())", "(5,())", "((),())", "(-3,())", "(2\\,())"]
    qs = rs + ["(2,6)", "(4,2)", "((),7)", "(-3,1)"]
    ex = [t.format(r=r, q=q) for t in ENDLESS for r in rs
          for q in (qs if "{q}" in t else [""])]
    cases = [{"exprs": ["(" + x + ")" for x in c]} for c in chunks(ex, 8)]
    for r in rs:
        for use in ["L u{O 1}", "POu", "DQu", "u PK 2", "u PK -1", "u PU 5",
                    "u PB 5", "u@0:9", "u@(1,3):[]", "u@-1:3", "++u", "u+:2",
                    "u-:7", "u@7:()", "[x;y]:u", "[x;[y;z]]:[u;u]", "U u",
                    "u RA:2 3", "u@<:4", "u@>:3", "RV:u", "{a}SK:[u]", "Fx[u]{Px@4}",
                    "u@@:3", "u|:4", "u&:4", "u:u@(2,())", "u@(3,()):5",
                    "({x:a;x@2:9;x}u)", "W u{O u@3;u:0}", "I u{P 4}"]:
            use = use if use[0] in "LFWI" else f"P RP ({use})"
            cases.append({"pre": f"u:{r};\n{use};", "exprs": ["u", "[x;y;z]"]})
    return cases


HUGE = ["(,999999999999)", "(5,10000000000000)"]
HOTHER = ["0", "3", "(-1)", "1.5", '""', '"abc"', "()", "[]", "[1;2;3]",
          "(,3)", "(2,())", "{a}", "{a+b}", "`\\d`", "[[1;2]]"]


def huge(tier):
    """Operations on ranges too long to list; those that do need every item
    are left out by the limits of the reference."""
    ex = []
    h = HUGE[0]
    for s in ["@?", "@*", "N", "NI", "RM", "TB", "FB", "UW", "@", "@<", "#=",
              "#<", "#>", "=", "<", ">", "!=", "Q", "==", "CM", "&", "|",
              "AL", "AE", "FI", "MU"]:
        if s not in ("AL", "UW", "RM"):
            ex += [build(s, [h, o]) for o in HOTHER]
        elif s == "UW":
            ex += [build(s, [h, o]) for o in ["0", "(-1)", "()", "[]", '""']]
        if s not in ("@", "=", "<", ">", "!=", "Q", "AL", "FI", "MU", "TB",
                     "FB", "@<", "UW"):
            ex += [build(s, [o, h]) for o in ["()", "[]", "[1;2;3]",
                                              "[[1;2]]", "(,3)", "{a}"]
                   if o != "(,3)" or s in ("#=", "#<", "#>", "==", "&", "|")]
        if s in ("@?", "@*", "N", "NI", "RM", "==", "AE"):
            ex += [build(s, [o, f"[{h}]"]) for o in
                   ["[1;2;3]", "[[1;2]]", f"[{h};1]", f"[[{h}]]"]]
    ex += ["(" + t.format(r=r, q=q) + ")" for t in ENDLESS for r in HUGE
           for q in (HUGE + ["(2,6)", "(0,())"] if "{q}" in t else [""])]
    ex += [x for r in HUGE for x in (
        f"([x;y]:{r})", f"([x;[y;z]]:[1;{r}])", f"({r}:5)", f"([x]:[1;{r}])",
        f"(x::{r})", f"([x;y]::{r})", f"((u:{r})@9)", f"((u:{r})@-1)")]
    return [{"exprs": [x]} for x in ex]


def huge_check(case, ctx):
    x, = case["exprs"]
    code = f"P RP {x}\n()"
    D.diff({"code": code}, ctx)
    ctx.nontrivial()


RIGHT = set("+ - * N NI M ME MP MU FI SK Z CP AE AL J @ , = < CM == FE MZ "
            "@? ~= # || AD BA".split())
def bounds(d):
    lo = d.pick([None, 0, 1, 2, -1, -3, 5, 10 ** 20, -10 ** 20])
    n = d.int(0, 6)
    if d.chance(8):
        n = -d.int(1, 3)
    base = lo or 0
    return lo, base + n


def suite():
    f = Family("sweep", enum=sweep_enum, check=batch_check)
    f.split = split_batch
    return Suite("P09", [
        f,
        Family("histories", history, diff_check(), 9000),
        Family("indexing", indexing, diff_check(), 6000),
        Family("operators", range_ops, diff_check(substantial), 14000),
        endless_family(),
        Family("huge", enum=huge, check=huge_check),
        large_family(G.PURE, 2500, need="R"),
    ], "Finite, empty, negative, huge and infinite ranges under every pure "
       "operator (exhaustive over a pool), random expressions with a Range "
       "operand, indexing and slicing, and histories of in-place updates of "
       "a range variable; non-trivial: distinct program text.",
        BASE_ASSUMPTIONS)


def endless_family():
    f = Family("endless", enum=endless, check=batch_check)
    f.split = split_batch
    return f


def rsrc(d):
    lo, hi = bounds(d)
    if d.chance(15):
        hi = None
    b = lambda x: "()" if x is None else lit(str(x))
    k = d.below(5)
    if k == 0 and lo is None:
        return f"(,{b(hi)})"
    if k == 1:
        return f"({b(lo)} \\, {b(None if hi is None else hi - 1)})"
    if k == 2 and lo in (None, 1):
        return f"(\\, {b(hi)})"
    if k == 3:
        g = Gen(d)
        lo = d.pick([None, 0, -2, 3, 1])
        return f"({b(lo)} , {lit(g.num() if d.chance(70) else g.string())})"
    return f"({b(lo)} , {b(hi)})"


def indexing(d):
    g = Gen(d)
    src = rsrc(d)
    lines = [f"u:{src}"]
    for _ in range(d.int(1, 5)):
        k = d.below(10)
        ix = lit(g.small()) if k < 4 else lit(g.rng()) if k < 6 else \
            d.pick(["(1,())", "((),-1)", "(-2,())", "(0,())", "((),())",
                    "(-3,-1)", "(2,2)", "(3,1)"]) if k < 8 else \
            lit(g.value(d.pick("NLsn")))
        op = d.pick(["@", "@", "@", "@<", "@>", "H", "S", "@?", "N", "NI",
                     "PK"]) if k != 6 else "@"
        v = "u" if d.chance(60) and op != "PK" or op == "PK" and \
            d.chance(50) else src
        lines.append(f"P RP ({v} {op} {ix})")
        if op == "PK":
            lines.append("P RP u")
    return {"code": "\n".join(lines) + "\n()"}


def range_ops(d):
    g = Gen(d)
    lines = []
    for _ in range(d.int(1, 3)):
        key = d.pick(G.PURE)
        alts = HINTS[key] or [("*" * key[1], "*")]
        args = list(d.pick(alts)[0])
        xs = [g.expr(a, d.int(0, 1)) for a in args]
        xs[d.below(len(xs))] = rsrc(d)
        lines.append("P RP " + build(key[0], xs))
    return {"code": "\n".join(lines) + "\n()"}


def history(d):
    """In-place updates of a variable holding a range."""
    g = Gen(d)
    lines = [f"u:{rsrc(d)}"]
    if d.chance(30):
        lines.append("v:u")
    for _ in range(d.int(1, 6)):
        k = d.below(12)
        i = lit(g.small())
        lines.append([
            "P RP (PO u)", "P RP (DQ u)", f"P RP (u PK {i})",
            f"(u PU {i})", f"(u PB {i})", f"(u @ {i}) : {lit(g.num())}",
            f"(u + : {i})".replace("+ :", "+:"), f"(u -: {i})",
            f"u : (u @ {lit(g.rng())})", f"([x;y;z] : u)",
            f"(u @ {lit(g.rng())}) : {lit(g.value('N'))}",
            "(RV: u)"][k])
        lines.append("P RP u")
        if d.chance(25):
            lines.append(d.pick(["P # u", "F x u@((),4) {O x;O s}", "P RP v",
                                 "P RP [x;y;z]", "P (u N 2)", "P RP (u@0)",
                                 "P RP (u @? 3)", "P RP (u , 3)"]))
    return {"code": "\n".join(lines) + "\n()"}
