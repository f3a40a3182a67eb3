"""P24: output formats."""
from ..common import *
from ..engine import Suite

FMTS = [None, "p", "P", "s", "S", "n", "l"]
POOL = POOL1 + ["[[[1;2];3];[4;[5]]]", "[(,3);[(1,2);\"a\"]]", "[(1,());2]",
                "[[];()]", "[();()]", "[{a};`b`;[`c`;{b}]]", '["a\nb";"c"]',
                '["";""]', '[["";""];""]', "[[[]]]", "[1;()]", "[();[();1]]",
                "[(0,0)]", "[[(0,0);(0,2)]]", "[-1;[-2.0;1.50]]", "(_+1)",
                "[\"-\";[\"'\";'\"]]", "(-`a`)", "((),3)", "[((),3)]"]
SHOW = ["P {}", "O {}", "{}", "P ST {}", "O [{};{}]", "P RP ST {}",
        "P \"<\".ST {}", "P ({}).\">\"", "x:{};x", "(O {}).1", "F x,2{{P {}}}",
        "P {};O {};P {}", "P {{{}}}0", "P # ST {}", "[P {};1]", "P [{}]",
        "O {};O \"|\"", "{};3", "({{O a}} {})", "P P {}", "P x:{}"]


def enum(tier):
    return [{"fmt": f, "code": s.replace("{}", v).replace("{{", "{")
             .replace("}}", "}") + e}
            for f in FMTS for v in POOL for s in SHOW[:(7 if tier == "quick"
                                                       else 99)]
            for e in ([""] if tier == "quick" else ["", "\n()"])]


def code(d, v):
    s = d.pick(SHOW)
    return s.replace("{}", v).replace("{{", "{").replace("}}", "}")


def value(d, depth=3):
    g = Gen(d)
    if depth <= 0 or d.chance(40):
        return lit(g.value(d.weighted([(5, "n"), (6, "s"), (3, "0"), (3, "R"),
                                       (1, "Q"), (2, "P")])))
    if d.chance(8):
        return g.block("B")
    return "[" + ";".join(value(d, depth - 1)
                          for _ in range(g.length(3))) + "]"


def gen(d):
    out = [code(d, value(d)) for _ in range(d.int(1, 3))]
    if d.chance(30):
        out.insert(0, d.pick(["x:[1;[2;3]]", "y:(,2)", "F i,2{O i}"]))
    if d.chance(20):
        out.append(d.pick(["x", "i", "P x;()", "()", "{}", "[]", '""']))
    return {"fmt": d.pick(FMTS), "code": "\n".join(out)}


def rule(case, e):
    return case["fmt"] is not None and len(e.out.strip()) > 1


# ---------------------------------------------- from the documented meaning

def tree(d, depth):
    """Nested lists of scalars, nil (None) and Ranges ({"range": bounds})."""
    g = Gen(d)
    if depth <= 0 or d.chance(35):
        k = d.below(8)
        if k < 5:
            return g.scalar()
        if k < 6:
            return None
        lo = d.pick([0, 1, -2])
        return {"range": [lo, lo + d.int(0, 4)]}
    return [tree(d, depth - 1) for _ in range(d.int(0, 4))]


def source(t):
    if isinstance(t, dict):
        return "({},{})".format(*t["range"])
    return "[" + ";".join(map(source, t)) + "]" if isinstance(t, list) \
        else lit(t)


def flat(t, sep):
    """A nested list's items joined on sep at every level."""
    if isinstance(t, dict):
        t = [str(i) for i in range(*t["range"])]
    if isinstance(t, list):
        return sep.join(flat(x, sep) for x in t)
    return "" if t is None else t


def documented(rows, fmt):
    if fmt == "n":
        return flat(rows, "\n")
    if fmt == "s":
        return flat(rows, " ")
    if fmt == "l":
        return "\n".join(flat(x, "") for x in rows)
    if fmt == "S":
        return "\n".join(flat(x, " ") for x in rows)
    return flat(rows, "")


def laws(d):
    return {"list": [tree(d, d.int(0, 3)) for _ in range(Gen(d).length(3))]}


def law_check(case, ctx):
    v = source(case["list"])
    for f in FMTS:
        argv = ["-" + f] if f else []
        r = T.run(v, argv)
        if r.status != "ok":
            raise Violation(f"{v} with {argv}: {r}")
        if f == "p":
            want = T.run(f"x:{v};P RP x;()", []).out
        elif f == "P":
            # (printing an empty list gives an empty line)
            want = T.run(f"x:{v};F i x{{P RP i}}", []).out or "\n"
        else:
            want = documented(case["list"], f) + "\n"
        if r.out != want:
            raise Violation(f"{v} with {argv} prints {r.out!r}, not {want!r}")
    ctx.nontrivial()


# ------------------------------------- formats do not change what is computed

KEYS = [k for k in G.PURE if k[0] not in ("ST", "P", "O") and HINTS[k]]


def same_gen(d):
    return op_program(d, KEYS, 2)


def same_check(case, ctx):
    e = D.expected(case)
    base = T.run(case["code"], ["-w"])
    for f in FMTS[1:]:
        if D.expected(dict(case, fmt=f)).out != e.out:
            raise Discard       # it uses the displayed form (ST)
        r = T.run(case["code"], ["-w", "-" + f])
        if (r.out, r.status) != (base.out, base.status):
            raise Violation(f"{case['code']!r} computes other values with "
                            f"-{f}: {r}\n  without: {base}")
    if substantial(case, e):
        ctx.nontrivial()


# --------------------------------------------------------------- long outputs

SIZES = [1000, 4095, 4096, 8192, 8193, 20001, 65535, 65536, 65537, 131073,
         300000]


def long_gen(d):
    n = d.pick(SIZES) + d.int(-2, 2)
    s = d.pick(['"a"', '"ab"', '"xyz-"', '"\n"', '"a\n"'])
    v = f"({s} X {n})"
    k = d.below(6)
    if k == 1:
        v = f"({s} X {n // 2}).(\"{d.pick('pqr')}\" X {n // 2})"
    elif k == 2:
        v = f"(,{min(n, 20000)})"
    elif k == 3:
        v = f"[({s} X {n // 2});({s} X {n // 2})]"
    elif k == 4:
        v = f"({s} RL {min(n, 30000)})"
    elif k == 5:
        v = f"([1;{s};()] RL {min(n, 8000)})"
    code = d.pick(["P {}", "O {}", "{}", "O {};O \"|\"", "P {};P 1",
                   "P ST {}", "x:{};P # ST x;x"]).replace("{}", v)
    return {"fmt": d.pick(FMTS), "code": code}


def longest(tier):
    return [{"fmt": f, "n": n, "s": x, "how": how}
            for n in (1000, 1 << 20)
            for f, x, how in ((None, "ab", "P"), ("n", "abc", "P"),
                              ("s", "a\n", "O"), (None, "ab-", ""))]


def longest_check(case, ctx):
    """Repeated text, which needs no reference."""
    how, x, n = case["how"], case["s"], case["n"]
    code = f"{how} (" + lit(x) + f" X {n}){';O 1' * (how == 'O')}\n" + \
        "()" * (how != "")
    r = T.run(code, ["-" + case["fmt"]] if case["fmt"] else [])
    want = x * n + ("1" if how == "O" else "")
    if r.status != "ok" or r.out.rstrip("\n") != want.rstrip("\n"):
        raise Violation(f"{code!r}: {r.status}, {len(r.out)} characters "
                        f"instead of {len(want)}")
    ctx.nontrivial()


def long_check(case, ctx):
    e, _ = D.diff(case, ctx)
    if len(e.out) > 900:
        ctx.nontrivial()


def suite():
    return Suite("P24", [
        Family("every value", enum=enum, check=diff_check(rule)),
        Family("outputs", gen, diff_check(rule), 18000),
        Family("documented", laws, law_check, 4000),
        Family("unaffected", same_gen, same_check, 1500),
        Family("long", long_gen, long_check, 150),
        Family("longest", enum=longest, check=longest_check),
    ], "Values of every type, nested to depth 3, and outputs of up to 3000000 "
       "characters and items, output by P, O, ST, "
       "concatenation and as the program's result under each of the seven list "
       "formats, compared with the reference and with the formats' "
       "documentation; programs showing their values by RP must print the "
       "same under all formats; non-trivial: a format flag and output of more "
       "than one character.", BASE_ASSUMPTIONS)
