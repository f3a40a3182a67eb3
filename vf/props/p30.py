"""P30: random operations."""
from ..common import *
from ..engine import Suite
from . import p25, p35


def shown(code, argv=()):
    r = T.run(code, ["--"] + list(argv))
    if r.status != "ok":
        raise Violation(f"{code!r}: {r}")
    return r.out.split("\n")[:-1]


# ----------------------------------------------------------------- validity

def draws(d):
    g = Gen(d)
    k = d.below(8)
    seed = lit(d.pick([str(d.int(0, 10 ** 6)), g.string(), g.num()])
               .replace("\n", " "))
    if k < 2:
        lo, n = d.int(-20, 20), d.int(1, 12)
        form = d.below(4)
        if form == 0:
            lo = 0
        e = [f"RR {n}", f"{lit(str(lo))} RR {lit(str(lo + n))}",
             f"RC ({lit(str(lo))},{lit(str(lo + n))})",
             f"(SH ({lit(str(lo))},{lit(str(lo + n))}))@0"][form]
        return {"kind": "int", "e": e, "set": [str(lo + i) for i in range(n)],
                "seed": seed}
    if k < 3:
        xs = [d.pick(["1", "a", "", "b", "3.5", "xy"]) for _ in
              range(d.int(1, 6))]
        nest = d.chance(30)
        src = "[" + ";".join(("[" + lit(x) + "]") if nest else lit(x)
                             for x in xs) + "]"
        return {"kind": "item", "e": d.pick(["RC u", "(SH u)@0", "RC RV u"]),
                "pre": "u:" + src, "seed": seed,
                "set": [V.show((x,)) if nest else V.show(x) for x in xs]}
    if k < 4:
        s = "".join(d.pick("abcXY1") for _ in range(d.int(1, 6)))
        return {"kind": "char", "e": "RC " + lit(s), "seed": seed,
                "set": [V.show(c) for c in s]}
    if k < 6:
        t = d.pick(["s", "N", "T", "R", "L", "G", "n"])
        v = g.value(t)
        return {"kind": "shuffle", "v": lit(v), "seed": seed, "text":
                isinstance(v, str),
                "items": [V.show(x) for x in (
                    list(v) if isinstance(v, (str, tuple)) else V.items(v))]}
    if k < 7:
        return {"kind": "unit", "seed": seed, "e": d.pick(
            ["r", "(r)", "{r}V[]", "(r|0)", "r+0"])}
    n = d.int(2, 5)
    return {"kind": "each", "seed": seed, "n": n, "k": d.int(2, 4)}


COUNT = 160


def draws_check(case, ctx):
    kind = case["kind"]
    head = f"r:{case['seed']};" + case.get("pre", "") + "\n"
    if kind in ("int", "item", "char"):
        # enough draws for every outcome to turn up (the chance of missing one
        # of 12 outcomes in 160 draws is below 2e-5; then many more are made)
        e = case["e"]
        got = shown(f"{head}L {COUNT}{{P RP ({e})}}\n()")
        want = set(case["set"])
        if not set(got) <= want or len(got) != COUNT:
            raise Violation(f"{head!r} {e}: drew {sorted(set(got) - want)}, "
                            f"not in {sorted(want)}")
        if set(got) != want:
            got = shown(f"{head}L 6000{{P RP ({e})}}\n()")
            if set(got) != want:
                raise Violation(f"{head!r} {e}: never draws "
                                f"{sorted(want - set(got))} in {len(got)}")
        if len(want) > 1:
            ctx.nontrivial()
    elif kind == "shuffle":
        v = case["v"]
        got = shown(f"{head}u:{v}\nF i(SH u){{P RP i}}\nP RP \"==\"\n"
                    f"F i u{{P RP i}}\nP RP \"==\"\nP RP (#SH u)\n()")
        if "\n" in v:
            raise Discard
        k = len(case["items"])
        want = sorted(case["items"])
        if sorted(got[:k]) != want or got[k:] != \
                ['"=="'] + case["items"] + ['"=="', str(k)]:
            raise Violation(f"{head!r} SH {v} gives {got}")
        if len(set(case["items"])) > 1:
            out = shown(f"{head}u:{v}\nL 60{{P RP SH u}}\n()")
            if len(set(out)) < 2:
                raise Violation(f"{head!r} SH {v} is always {out[0]}")
            ctx.nontrivial()
    elif kind == "unit":
        got = shown(f"{head}L 60{{P RP ({case['e']})}}\n()")
        vals = [float(x.strip('"')) for x in got]    # 1e-5 shows quoted
        if not all(0 <= x < 1 for x in vals) or len(set(got)) < 50 or \
                not any(x < .5 for x in vals) or not any(x > .5 for x in vals):
            raise Violation(f"{head!r} {case['e']}: {got}")
        ctx.nontrivial()
    else:
        # item by item: separate draws
        n, k = case["n"], case["k"]
        got = shown(f"{head}L 60{{P (RR [{n};{n};{n * 100}])J\" \";"
                    f"P (RR (,{k}+1)@>1)J\" \";P ([0;5] RR {n}+5)J\" \"}}\n()")
        a = [[int(x) for x in t.split()] for t in got[::3]]
        c = [[int(x) for x in t.split()] for t in got[2::3]]
        if not all(len(x) == 3 and 0 <= x[0] < n and 0 <= x[1] < n and
                   0 <= x[2] < 100 * n for x in a) or \
                all(x[0] == x[1] for x in a) or \
                not all(len(x) == 2 and 0 <= x[0] < n + 5 and
                        5 <= x[1] < n + 5 for x in c):
            raise Violation(f"{head!r} RR item by item: {got}")
        ctx.nontrivial()


# ------------------------------------------------------------------ seeding

def seeded(d):
    lines = []
    for _ in range(d.int(2, 6)):
        lines.append(d.pick([
            "P r", "P RR 1000", "P RP SH (,8)", "P RP RC \"abcdefgh\"",
            "P RP (RR M (,4)+9)", "P 5 RR 500", "P SH \"abcdefg\"", "x:r P x",
            "P RP ({RC a} M [,9;\"xyzuvw\"])", "L 3{P RR 77}", "P RP (RR* [9;99;999])",
            "P RP [r;r]", "r:4", "r:r", "P r*2"]))
    g = Gen(d)
    s = d.pick([str(d.int(-5, 10 ** 9)), g.string(), g.num(), "0.5"])
    if d.chance(25):
        s = g.value(d.pick("NTLRP0G"))
    return {"code": "\n".join(lines), "seed": lit(s)}


def seeded_check(case, ctx):
    """The same seed gives the same numbers; different draws differ."""
    code = f"r:{case['seed']}\n" + case["code"] + "\n()"
    a = T.run(code, [])
    T.run("P r L 5{RR 9};r:99 SH,9", [])
    b = T.run("L 3{RR 1000}\n" + code, [])
    if a.status != "ok" or a.key() != b.key():
        raise Violation(f"{code!r}: {a}; again: {b}")
    c = T.run(f"{code}\nr:{case['seed']}\n{case['code']}\n()", [])
    if c.out != a.out * 2:
        raise Violation(f"{code!r} twice in one program: {c}; once {a}")
    with_fn = T.run(f"{{r:{case['seed']}}}V[]\n{case['code']}\n()", [])
    if with_fn.out != a.out:
        raise Violation(f"{code!r} seeded in a function: {with_fn}; {a}")
    if len(a.out) > 6:
        ctx.nontrivial()


def batch(d):
    return {"cases": d.many(20, 40, lambda: seeded(d)),
            "v": d.below(len(p35.VARIANTS))}


def batch_check(case, ctx):
    """The same seed gives the same numbers in another process."""
    cases = [{"code": f"r:{c['seed']}\n{c['code']}\n()"}
             for c in case["cases"]]
    for c, got in zip(cases, p35.elsewhere(cases, p35.VARIANTS[case["v"]])):
        here = p35.once(c)
        if list(here.key()) != got:
            raise Violation(f"{c['code']!r}: {here.key()}; in a process "
                            f"with {p35.VARIANTS[case['v']]}: {got}")
    ctx.nontrivial()


def unseeded(d):
    return {"e": d.pick(["r", "RR 1000000000", "SH,20", "RC,1000000000"]),
            "n": d.below(1000)}


def unseeded_check(case, ctx):
    """Without a seed, separate runs draw separately."""
    with p25.Scratch() as s:
        got = [p25.process(["-p", "-e", case["e"]], "", s.dir)
               for _ in range(3)]
    if len({o for o, _, _ in got}) < 2 or any(rc or e for _, e, rc in got):
        raise Violation(f"{case['e']} in three processes: {got}")
    ctx.nontrivial()


# ----------------------------------------------------- what cannot be drawn

ERR = ["RR 0", "RR (-3)", "5 RR 5", "5 RR 2", "RC []", "RC \"\"", "RC ,0",
       "RR ()", "RR `a`", "RC ()", "RC `a`", "SH ()", "SH `a`",
       "RC (3,())", "5 RR ()", "5 RR `a`", "\"\" RR 0", "RC (2,1)", "RR \"\"",
       "RR 0.5"]
FINE = ["RR 2.9", "() RR 1", "\"0.5\" RR 1", "SH \"\"", "SH []", "SH ,0", "RR 1",
        "RC [()]", "RC 7", "SH 7", "SH [[]]", "0.9 RR 1.9", "(-1) RR 0"]
# RR, RC and SH used with other language features, where only one outcome
# is possible
MORE = {"$RR []": "0", "\\$RR []": "[]", "$RR [5]": "5", "$RR [3;4]": "3",
        "\\$RR [3;4]": "[3;3]", "$RR (3,3)": "0", "$RR (4,5)": "4",
        "RC* [[5];\"aa\"]": '[5;"a"]', "SH* [\"aa\";[1]]": '["aa";[1]]',
        "RR* [1;1]": "[0;0]", "[1;1] RR [2;2]": "[1;1]", "0 RR [1;1]": "[0;0]",
        "[2;2] RR 3": "[2;2]", "(1,3) RR [2;3]": "[1;2]",
        "RC* \"aa\"": '["a";"a"]', "{3} RR {4}": "{3 RR 4}",
        "((3 RR _) 4)": "3", "((RC _) \"aa\")": '"a"', "((SH _) \"aa\")": '"aa"',
        "({RC a} M [1;\"b\"])": '[1;"b"]', "RR [1;[1;1]]": "[0;[0;0]]",
        "RR (1,2)": "[0]", "SH [[1;1]]": "[[1;1]]", "RC [[1;2]]": "[1;2]",
        "$RR [3;[4;4]]": "[3;3]", "RR 1.5": "0", "SH 33": "33", "SH* ,3": "[0;1;2]",
        "RC* ,3": "[0;1;2]", "(RR _)": "{RR a}", "_ RR 5": "{a RR 5}",
        "({a RR b} 4 5)": "4"}
FINE += [k for k in MORE]
FINE_IS = ["", "0", "0", '""', "[]", "[]", "0", "()", "7", "7", "[[]]", "0", "-1"]
FINE_IS += MORE.values()


def odd(tier):
    return [{"e": e, "is": None} for e in ERR] + \
        [{"e": e, "is": i} for e, i in zip(FINE, FINE_IS)]


def odd_check(case, ctx):
    e = case["e"]
    r = T.run(f"P RP ({e})\nP RP [{e}]\n()", ["-w"])
    L = r.out.split("\n")
    if case["is"] is None:
        ok = r.out == "()\n[()]\n" and r.err.strip()
    elif case["is"]:
        ok = r.out == f"{case['is']}\n[{case['is']}]\n" and not r.err
    else:
        ok = L[0] in ("0", "1") and not r.err
    if r.status != "ok" or not ok:
        raise Violation(f"{e}: {r}")
    ctx.nontrivial()


def suite():
    return Suite("P30", [
        Family("odd operands", enum=odd, check=odd_check),
        Family("draws", draws, draws_check, 2600),
        Family("seeds", seeded, seeded_check, 5000),
        Family("elsewhere", batch, batch_check, 40, 400),
        Family("processes", unseeded, unseeded_check, 24, 200),
    ], "RR, RC, SH and r over generated bounds, lists, strings and ranges "
       "under generated seeds: every draw must be possible, every possible "
       "outcome must turn up, shuffles must be permutations, the same seed "
       "must repeat and unseeded processes must differ; non-trivial: more "
       "than one outcome possible.", BASE_ASSUMPTIONS[2:])
