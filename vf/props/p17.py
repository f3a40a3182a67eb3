"""P17: mapping, filtering, keyed sorting."""
from ..common import *
from ..engine import Suite

KEYS = keys("M MC ME MJ MM MP MS MU MF FI FN FE FU FX FJ SK DK", 2) + \
    keys("FI FN FU FX FJ", 1) + keys("MR MZ", 3)
FPOOL = ["{a}", "{b}", "{a+b}", "{a.b}", "{P a;a}", "{#g}", "{a%2}", "{a@0}",
         "{}", "(_*2)", "(_<B)", "{[a;b]}", "{a<2?a+1()}", "{x:x.a;x}", "{g}",
         "{I a{x:a}}", "LC_", "(#_)"]
DATA = ['""', '"abc"', "[]", "[1;2;3]", "[3;1;2;1]", '["b";"a"]',
        "[[1;2];[3;4]]", "[[1;2;3];[4];[]]", "[();1]", '[0;"a";[1];()]',
        "(,3)", "(2,5)", "(5,2)", "()", "`a`", "7", '["";"x"]', "(-2,2)",
        '["abc";"de"]', "[{a};2]", "[0;1;0;2]"]


def enum(tier):
    cases = []
    for s, a in KEYS:
        if a == 1:
            ex = [build(s, [x]) for x in DATA]
        elif a == 2:
            ex = [build(s, [f, x]) for f in FPOOL for x in DATA] + \
                 [build(s, [x, f]) for f in FPOOL[:6] for x in DATA]
        elif s == "MZ":
            ex = [build(s, [f, x, y]) for f in FPOOL[:5]
                  for x in DATA for y in DATA[::2]]
        else:
            ex = [build(s, [f, p, x]) for f in ("{a}", "{b}", "{g}", "{$0.a}")
                  for p in ("`.`", "`(b)(c)?`", '"a"', "`z`", "2")
                  for x in DATA]
        cases += [{"op": s, "exprs": c} for c in chunks(ex, 12)]
    return cases


def fbody(d, two):
    """A function with visible effects, so order and number of calls show."""
    g = Gen(d, {"n": ["a"] + (["b"] if two else []), "*": ["a", "b", "g"],
                "s": ["b"] if two else ["a"]}, 5)
    pre = d.pick(["", "", "", "P a;", "O [a;b];", "x:x.a;", "++i;", "P #g;",
                  "a:a+1;", "y PB a;", "P $0;", "I a<2{P b}", "F c,2{O c}",
                  "$x:a;"])
    return "{" + pre + g.expr(d.pick("nnsN*"), d.int(0, 2), local=True) + "}"


def gen(d):
    g = Gen(d)
    out = []
    for _ in range(d.int(1, 3)):
        s, a = d.pick(KEYS)
        two = s in ("MC", "ME", "MP", "MU", "FE", "FU", "FX", "MR", "MZ")
        f = fbody(d, two) if d.chance(75) else g.block("b" if two else "B")
        if d.chance(6):
            f = lit(g.value("*"))
        kind = "G" if s in ("MU", "FU", "MM") else d.pick("NNLsTRG")
        data = lit(g.value(kind)) if d.chance(90) else g.expr(kind, 2)
        if a == 1:
            e = build(s, [data])
        elif s == "MC":
            e = build(s, [f, d.pick([lit(g.nat()), f"[{d.int(0, 3)};"
                                     f"{d.int(0, 3)}]", data])])
        elif s == "MR":
            rx = lit(g.value("P")) if d.chance(80) else lit(g.string())
            e = build(s, d.pick([[f, rx, lit(g.string())],
                                 [f, lit(g.string()), rx],
                                 [rx, f, lit(g.string())],
                                 [rx, lit(g.string()), f],
                                 [lit(g.string()), rx, f],
                                 [lit(g.string()), f, rx],
                                 [f, f if d.chance(30) else fbody(d, two),
                                  d.pick([rx, lit(g.string())])]]))
        elif a == 3:
            e = build(s, [f, data, lit(g.value(d.pick("NLsTRGQ")))])
        else:
            e = build(s, [f, data] if d.chance(70) else [data, f])
        if d.chance(15):
            out += [f"u:{data}", e.replace(data, "u") if data not in
                    ("0", "1") else e, "P RP u"]
            out[-2] = "P RP " + out[-2]
        else:
            out.append("P RP " + e)
    out.append("P RP [x;y;i]")
    return {"code": "\n".join(out) + "\n()"}


def suite():
    f = Family("sweep", enum=enum, check=batch_check)
    f.split = split_batch
    return Suite("P17", [
        f,
        Family("effects", gen, diff_check(substantial), 18000),
        op_family(KEYS, 8000),
        large_family(KEYS, 2000),
    ], "Mapping, filtering and keyed-sort operators with generated functions "
       "(many with visible side effects) over every kind of iterable, either "
       "operand order; exhaustive function x data sweep; non-trivial: distinct "
       "text without nonfatal errors.", BASE_ASSUMPTIONS)
