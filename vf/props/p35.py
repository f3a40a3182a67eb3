"""P35: runs are independent of one another and repeatable."""
import json
import os
import subprocess
import sys

from ..common import *
from ..engine import Suite
from . import p13, p14, p27

KEYS = p27.KEYS


def program(d):
    k = d.below(12)
    if k < 4:
        return op_program(d, KEYS, 2, 20)
    if k < 7:
        c = {"code": P.Prog(d, wild=15, budget=9).program(6)}
        c["args"] = d.many(0, 3, lambda: Gen(d).scalar())
        return c
    if k < 8:
        return p13.gen(d)
    if k < 9:
        return p27.gen(d)
    if k < 10:
        return {"code": "\n".join(d.pick(p27.BAD) for _ in range(
            d.int(1, 3))) + "\nP RP [x;y;l;i;h]", "args": ["3"]}
    if k < 11:
        return {"code": d.pick(FATALS), "args": ["1", "x"]}
    return p14.gen(d)


FATALS = ["L 3{O 1;x:5}V f", "f V g", "x:7 (", "[1;2", "{f a}V 1", "P 1 )",
          "x:{1", "\"abc", "F i,9{V\"(\"}", "l:[1;2];x:l;(f l)", "1 2 +",
          "W 1{x.:\"}\";V x}", "z:3;h:4;i:5;_:8;B:2;G:7;\"unfinished",
          "XD:`b`;AZ:9;PI:3;VW:[];o:5;(f)", "({f a+1}0)"]


def fatal(d):
    c = program(d)
    if "fmt" not in c and d.chance(40):
        c["fmt"] = d.pick("pPsSnl")
    return c


def argv(case, warn=True):
    return (["-w"] if warn else []) + \
        ([D.FLAG[case["fmt"]]] if case.get("fmt") else []) + \
        [f for f in ("-r", "-x") if case.get(f[1])] + \
        ["--"] + list(case.get("args", ()))


def once(case):
    return T.run(case["code"], argv(case, case.get("w", True)),
                 "".join(x + "\n" for x in case.get("stdin", ())))


def pairs(d):
    b = fatal(d)
    others = d.many(1, 3, lambda: fatal(d))
    for c in [b] + others:
        if d.chance(30):
            c["w"] = False
    return {"b": b, "others": others, "repl": d.chance(25)}


def ends(case):
    """Discard programs that the reference does not finish."""
    if "r" in case.get("code", "") and "RR" in case["code"]:
        raise Discard
    return D.expected({k: case[k] for k in case if k != "w"})


def pairs_check(case, ctx):
    e = ends(case["b"])
    first = once(case["b"])
    ran = 0
    for c in case["others"]:
        try:
            ends(c)
        except Discard:
            continue
        if case["repl"] and "q" not in c["code"]:
            T.run(None, ["-R"] + argv(c)[:-1 - len(c.get("args", ()))],
                  c["code"] + "\n")
        else:
            once(c)
        ran += 1
    again = once(case["b"])
    if first.key() != again.key():
        raise Violation(f"{case['b']}\n  first: {first}\n  after "
                        f"{case['others']}: {again}")
    if ran and len(e.out) > 3:
        ctx.nontrivial()


# ------------------------------------------------- in the course of a program

def repeated(d):
    k = d.below(4)
    if k < 1:
        body = op_program(d, KEYS, 2, 10)["code"].rsplit("\n", 1)[0]
    elif k < 3:
        body = P.Prog(d, wild=8, budget=8).program(5)
    else:
        g = Gen(d)
        # updates of literals: each evaluation must give a fresh value
        v = d.pick(["[1;2;3]", '["a";[4;5]]', "[[1;2];[3;4]]", '"abc"', "[]",
                    "(,4)", "[x;[y;x]]", "[(,2);\"q\"]", "{[1;2]}V[]", "z",
                    "l", "[l;l]", "`ab`", "{a}", "_", "ZG3"])
        n = d.pick(["x", "$v", "a", "s"])
        body = f"{n}:{v}\n" + "\n".join(
            d.pick(["({n} PU 3)", "({n} PB 1)", "({n}@0:7)", "++{n}",
                    "(PO {n})", "({n} AE: 5)", "({n} AL: {n})", "U{n}",
                    "({n}@0@0:9)", "({n}@(,2):[8;9])", "({n}:{n}.1)",
                    "(DQ {n})", "({n} .: \"k\")", "F i {n}{{i:3}}",
                    "({{a@0:4;a PU 2;a}} {n})", "({n} X: 2)", "SN{n}", "RV{n}",
                    "({n} RI 0)", "P RP (++*{n})", "({n}@1 +: 1)",
                    "({{a PU 6}} M {n})", "P RP {n}"]).format(n=n)
            for _ in range(d.int(1, 5))) + f"\nP RP [{n};{v}]"
    args = "[" + ";".join(lit(g) for g in d.many(
        0, 3, lambda: Gen(d).scalar())) + "]"
    return {"body": body, "args": args, "n": d.int(2, 4), "form": d.below(4),
            "fmt": d.pick([None, "p"])}


def repeated_check(case, ctx):
    body, a = case["body"], case["args"]
    def code(n):
        f = case["form"]
        if f == 0:
            s = f"L {n}{{({{{body}\n()}}V {a});WG}}"
        elif f == 1:
            s = f"({{({{{body}\n()}}V {a});WG}} M ,{n})"
        elif f == 2:
            s = "\n".join([f"({{{body}\n()}}V {a});WG"] * n)
        else:
            # the function kept where WG does not reach: a local variable
            s = f"a:{{{body}\n()}};" + f"(a V {a});WG;" * n
        return {"code": s + "\n()", "fmt": case["fmt"]}
    e = D.expected(code(1))
    if e.status != "ok" or not e.out:
        raise Discard
    one, many = once(code(1)), once(code(case["n"]))
    if one.status != "ok" or many.status != "ok" or \
            many.out != one.out * case["n"] or \
            D.clean(many.err).strip() != "" and \
            len(D.clean(many.err).split("\n")) - 1 != case["n"] * (
                len(D.clean(one.err).split("\n")) - 1):
        raise Violation(f"once: {code(1)['code']!r}: {one}\n"
                        f"  {case['n']} times: {many}")
    if len(one.out) > 3:
        ctx.nontrivial()


# ----------------------------------------------------------- other processes

VARIANTS = [["PYTHONHASHSEED=0"], ["PYTHONHASHSEED=1"], ["PYTHONHASHSEED=77"],
            ["PYTHONHASHSEED=random", "-O"], ["-O"], ["-OO"],
            ["PYTHONHASHSEED=4242", "HOME=/nonexistent", "TZ=Asia/Tokyo"],
            ["COLUMNS=20", "LC_ALL=C.UTF-8", "PYTHONUTF8=1"],
            ["-X", "dev"], ["PYTHONMALLOC=debug"], ["-B", "-s"],
            ["-X", "int_max_str_digits=20000"]]


def batch(d):
    return {"cases": d.many(12, 30, lambda: fatal(d)), "v": d.below(
        len(VARIANTS)), "order": d.below(3)}


def job(c):
    return {"code": c["code"], "argv": argv(c),
            "stdin": "".join(x + "\n" for x in c.get("stdin", ()))}


def elsewhere(cases, variant):
    env = dict(os.environ, PYTHONPATH=engine_root())
    opts = []
    for v in variant:
        if "=" in v and not v.startswith("int"):
            k, x = v.split("=")
            env[k] = x
        else:
            opts.append(v)
    p = subprocess.run([sys.executable] + opts + ["-m", "vf.runmany"],
                       input=json.dumps(
                           [[job(x) for x in c] if isinstance(c, list)
                            else job(c) for c in cases]),
                       capture_output=True, text=True, env=env,
                       cwd=engine_root(), timeout=600)
    if p.returncode:
        raise Violation(f"the interpreter broke down: {p.stderr[-800:]}")
    return json.loads(p.stdout)


# ------------------------------------------------------ each one on its own

RX = ["a", "b", "a.b", "[ab]", "^a", "(a)|(b)", "b$", "a b", ".", "B"]
FLAGS = ["", "-", ".", ",", "A", "-,", "C", "K", "+"]
TEXTS = ["aAb", "a\nb", "ab a", "B\na", "", "a.b"]
LITS = ["[1;2]", "[\"a\";[3]]", "(,3)", "\"ab\"", "12", "`ab`", "[]", "{a.1}",
        "(1,4)", "{++a}", "'a", "0.5"]


def clash(d):
    """Small expressions which share their texts but not their meanings."""
    k = d.below(10)
    if k < 6:
        p = "".join(reversed(d.pick(FLAGS))) + "`" + d.pick(RX) + "`"
        s = lit(d.pick(TEXTS))
        return d.pick([f"({s}~({p}))", f"({s}~=({p}))", f"({s}@({p}))",
                       f"({s}R({p});'-)", f"(({p})N{s})", f"({s}@*({p}))",
                       f"({s}^({p}))", f"({s}~({p})?$0 8)", f"({p})",
                       f"({s}R({p});{{UCa}})", f"({s}||({p}))"])
    if k < 8:
        v = d.pick(LITS)
        return d.pick([f"{{a PU 7;a}}({v})", f"{{a@0:9;a}}({v})", f"{{++a}}({v})",
                       f"{{a AL:3;a}}({v})", f"({v})", f"{{Ua;a}}({v})",
                       f"{{b:a;b@0:8;a}}({v})", f"RV({v})", f"{{POa;a}}({v})",
                       f"{{a.:1;a}}({v})", f"({v}.1)", f"({v} AE 4)",
                       f"({v} M[1;2])", f"{{c:{v};{{c PB 2}};c}}()",
                       f"{{F e a{{++e}}a}}({v})", f"V RP({v})"])
    o = d.pick("+-*/.,<=JX")
    x = d.pick(["[1;2;3]", "[5;3;8]", "[[1;2];[3;4]]", "(,4)", "342"])
    return d.pick([f"($" + o + x + ")", "(\\$" + o + x + ")",
                   f"({x}{o}*2)", f"({x}{o}3)", f"(2{o}*{x})", f"({{a{o}b}}MU[[1;2]])",
                   f"({x} FD {{a{o}b}})", f"{{a{o}:2;a}}({x})", f"({o}*{x})",
                   f"{{a{o}*:2;a}}({x})", f"({x} {o} {x})", f"({x}{o}**{x})"])


def closed(d):
    return "P RP " + (clash(d) if d.chance(75) else
                      "(" + Gen(d, {}, 25).expr("*", 2) + ")")


def alones(d):
    return {"parts": d.many(8, 24, lambda: closed(d))}


def alone_check(case, ctx):
    """Statements that have nothing to do with one another do the same in one
    program, in a sequence of runs, and each in a process of its own."""
    good, many = [], []
    for c in case["parts"]:
        c = {"code": c + "\n()"}
        try:
            e = D.expected(c)
        except Discard:
            continue
        if e.status == "ok":
            good.append(c)
    if not good:
        raise Discard
    for k in range(0, len(good), 5):
        many.append({"code": ";\n".join(c["code"][:-3]
                                        for c in good[k:k + 5]) + ";\n()"})
    out = elsewhere([[c] for c in good] + [good] + [[c] for c in many], [])
    alone = [x[0] for x in out[:len(good)]]
    for c, a, b in zip(good, alone, out[len(good)]):
        if a != b:
            raise Violation(f"{c['code']!r} alone: {a}\n  after others: {b}")
    for k, c, (b,) in zip(range(0, len(good), 5), many, out[len(good) + 1:]):
        a = "".join(x[0] for x in alone[k:k + 5])
        if a != b[0] or b[2] != "ok":
            raise Violation(f"{c['code']!r} in one program: {b}\n"
                            f"  one by one: {a!r}")
    if len(good) > 5:
        ctx.nontrivial()


def engine_root():
    return os.path.dirname(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))


def batch_check(case, ctx):
    good = []
    for c in case["cases"]:
        try:
            ends(c)
            good.append(c)
        except Discard:
            pass
    if case["order"] == 1:
        good.reverse()
    elif case["order"] == 2:
        good = good[::2] + good[1::2]
    there = elsewhere(good, VARIANTS[case["v"]])
    for c, got in zip(good, there):
        here = once(dict(c, w=True))
        if list(here.key()) != got:
            raise Violation(f"{c}\n  here: {here.key()}\n  with "
                            f"{VARIANTS[case['v']]}: {got}")
    if len(good) > 5:
        ctx.nontrivial()


def suite():
    return Suite("P35", [
        Family("pairs", pairs, pairs_check, 9000),
        Family("repeated", repeated, repeated_check, 9000),
        Family("elsewhere", batch, batch_check, 150, 1500),
        Family("alone", alones, alone_check, 130, 2000),
    ], "Random programs (many ending in fatal errors, with any output format, "
       "in the REPL too) run before and after others in the same process; "
       "functions run several times in one program with WG in between; "
       "batches run in other processes with other hash seeds, optimisation "
       "levels and environments; small expressions which share texts but "
       "not meanings one after the other, in one program and each in a process "
       "of its own; non-trivial: something other than nil was "
       "shown.", BASE_ASSUMPTIONS[2:])
