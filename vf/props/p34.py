"""P34: the initial state: preset variables, arguments, WG and the input."""
import os

from ..common import *
from ..engine import Suite

# name -> how RP displays the initial value (kept apart from the reference)
INITIAL = {
    "h": "100", "i": "0", "k": '", "', "l": "[]", "m": "1000", "n": '"\n"',
    "o": "1", "p": '"()"', "s": '" "', "t": "10", "u": "()", "v": "-1",
    "w": "`\\s+`", "x": '""', "y": '""',
    "z": '"' + "".join(map(chr, range(97, 123))) + '"',
    "AZ": '"' + "".join(map(chr, range(65, 91))) + '"',
    "CZ": '"bcdfghjklmnpqrstvwxyz"', "PI": "3.141592653589793",
    "VW": '"aeiou"', "VY": '"aeiouy"', "XC": "`[bcdfghjklmnpqrstvwxyz]`",
    "XD": "`\\d`", "XI": "`-?\\d+`", "XL": "`[a-z]`",
    "XN": "`-?\\d+(?:\\.\\d+)?`", "XU": "`[A-Z]`", "XV": "`[aeiou]`",
    "XW": "`\\w`", "XX": "`.`", "XY": "`[aeiouy]`", "XA": "-`[a-z]`",
}
PRINTABLE = "".join(map(chr, range(32, 127)))
UNSET = ["$a", "$x_1", "XZ", "ZZ", "QQ", "$_", "b", "$n0"]
ROUTES = ["P RP {}", "P RP ({{{}}} V[])", "F $i,1{{P RP {}}}",
          'P RP V"{}"', "P RP [{}]@0", "P RP ({{x:9;l:8;a}};{})",
          "I1{{P RP {}}}", "W !$w {{P RP {}; $w:1}}", "P RP ({{{}}} M ,1)@0",
          "P RP (_;{})"]
# ways to change every variable
SPOIL = ["{n}:5", "({n} AE: 7)", "({n} PU 3)", "({n} .: 'z)", "++{n}",
         "({n} PB 1)", "[{n};$q]:[3;4]", "F {n} ,3{{}}", "({n} :: $zz)",
         "(PO {n})", "({n} AL: [1])", "U{n}", "({n}@0:`a`)", "DQ{n}",
         "({{{n}:9}} V[])", "({n}@(0,9):[])", "({n} X: 3)"]


def table(tier):
    cases = []
    for n in list(INITIAL) + ["PA"]:
        for pre in [None, "WG"] + SPOIL:
            for post in (["WG"] if pre else [None]):
                for a in ([], ["6", "x y"]):
                    if pre and a:
                        continue
                    for r in ROUTES if not pre or pre == "WG" else ROUTES[:2]:
                        cases.append({"n": n, "pre": pre, "post": post,
                                      "args": a, "route": r})
    return cases


def table_check(case, ctx):
    n = case["n"]
    lines = [s.format(n=n) for s in (case["pre"], case["post"]) if s]
    use = case["route"].format(n)
    if n == "PA":
        use = use.replace("RP", "RP ST")
    want = INITIAL[n] if n != "PA" else "'" + PRINTABLE + "'"
    r = T.run(";\n".join(lines + [use, "()"]), ["--"] + case["args"])
    if n == "PA":
        # both kinds of quotes occur in it: displayed as an escaped string
        want = None
        ok = r.out.startswith('\\"') and r.out.endswith('\\"\n') and \
            r.out[2:-3].replace("\\\\", "\\") == PRINTABLE
    else:
        ok = r.out == want + "\n"
    if not ok or r.status != "ok" or r.err:
        raise Violation(f"{lines + [use]}: {r}; expected {want!r}")
    ctx.nontrivial()


def functions(tier):
    """_ B and G return the first, second and all arguments; \\f is the
    program; VN and VD are what -V prints."""
    return [{"e": e, "is": i, "pre": p} for p in ("", "_:3;B:4;G:5;WG;",
                                                  "WG;")
            for e, i in [("RP _", "{a}"), ("RP B", "{b}"), ("RP G", "{g}"),
                         ("(_;4;5;6)", "4"), ("RP (B;4;5;6)", "5"),
                         ("RP (G;4;5)", "[4;5]"), ("RP (_ M [7;8])", "[7;8]"),
                         ("RP (G M [7;8])", "[[7];[8]]"), ("RP (B M [7;8])", "[();()]"),
                         ("RP (B ME [7;8])", "[7;8]"), ("RP (B FI [1;1])", "[]"),
                         ("RP (_+1)", "{a+1}"), ("RP (_+B)", "{a+b}"),
                         ("RP (#G)", "{#g}"), ("(#G;4;5;6)", "3"),
                         ("(B-_;4;50)", "46"), ("(_.G;4;50)", "44450"),
                         ("RP (G@1;4;5)", "5"), ("RP (B;4)", "()")]] + \
        [{"version": w} for w in (0, 1)] + \
        [{"tao": e, "pre": p} for p in ("", "PIP:3;", "WG;", "PIP.:5;WG;",
                                        "({PIP}0);", "DQPIP;", "U PIP;")
         for e in ("P PIP", "P({PIP}V[])", "O PIP;P x", "P[PIP]@0", "x:PIP;Px",
                   "P V\"PIP\"", "P PIP@,9999", 
                   "P(PIP^n)J n", "P ({a} PIP)")] + \
        [{"unset": n, "pre": p} for n in UNSET for p in ("", "WG;")] + \
        [{"outer": n, "args": a} for n in range(7)
         for a in list(range(8)) + [9, 10, 11, 25, 26, 27, 40, 150]]


def functions_check(case, ctx):
    if "version" in case:
        code = "_:5\nVN:3;VD:4;WG\n" * case["version"] + \
            'P "Pip ".VN." (updated ".VD.")"\n()'
        a, b = T.run(code, []), T.run(None, ["-V"])
        if a.key() != b.key():
            raise Violation(f"{code!r}: {a}; -V: {b}")
    elif "tao" in case:
        # PIP is the Tao of Pip, whatever was done to it
        with open(os.path.join(T.REPO, "Tao of Pip.txt")) as f:
            tao = f.read().strip()
        code = case["pre"] + case["tao"] + ";\n()"
        want = tao
        if "9999" in case["tao"]:
            want = (tao * (9999 // len(tao) + 1))[:9999]
        r = T.run(code, [])
        if r.status != "ok" or r.out != want + "\n" or r.err:
            raise Violation(f"{code!r}: {r}")
    elif "unset" in case:
        code = case["pre"] + f"P RP {case['unset']}\nP RP [{case['unset']}]\n()"
        r = T.run(code, ["-w"])
        if case["unset"] in "$_":
            ok = True
        else:
            ok = r.err.strip() != ""
        if r.status != "ok" or r.out.split("\n")[0] != "()" or \
                not ok or r.out.count("\n") != 2:
            raise Violation(f"{code!r}: {r}")
    elif "outer" in case:
        n = case["outer"]
        args = [f"v{i}" for i in range(case["args"])]
        name = "abcde"[n] if n < 5 else "g" if n == 5 else "a"
        shown = "[" + ";".join(f'"{x}"' for x in args) + "]" if n == 5 else \
            f'"v{n % 6}"' if n % 6 < len(args) else "()"
        if n == 6:
            shown = f'"v0"' if args else "()"
        code = (f"P RP \\{name}\nP RP {name}\nP RP ({{\\{name}}} 9)\n"
                f"\\{name}:3\nP RP {name}\nP RP \\{name}\n{name}:4\n"
                f"P RP \\{name}\nWG\nP RP \\{name}\nP RP {name}\n()")
        want = [shown] * 4 + ["3"] * 2 + [shown, "4"]
        r = T.run(code, ["--"] + args)
        if r.status != "ok" or r.out != "\n".join(want) + "\n":
            raise Violation(f"{code!r} {args}: {r}; expected {want}")
    else:
        code = case["pre"] + "P " + case["e"] + "\n()"
        r = T.run(code, [])
        if r.status != "ok" or r.out.replace(" ", "") != \
                case["is"] + "\n" or r.err:
            raise Violation(f"{code!r}: {r}; expected {case['is']!r}")
    ctx.nontrivial()


# ---------------------------------------------------------------- WG anywhere

NAMES = [n for n in INITIAL] + ["PA", "\\a", "\\b", "\\g", "\\e"]


def wiped(d):
    """A program, WG, and then every global shown; or WG in the midst."""
    k = d.below(4)
    lines = []
    if k < 3:
        lines = P.Prog(d, budget=8).program(5).split("\n")
        if k == 2:
            for _ in range(d.int(1, 2)):
                lines.insert(d.int(0, len(lines)), "WG")
    for _ in range(d.int(0, 4)):
        n = d.pick(NAMES + UNSET)
        if n == "C":
            continue
        lines.append(d.pick(SPOIL).format(n=n))
    lines.append(d.pick(["WG", "WG", "I1{WG}", "{WG}V[]", "L2{WG}", 'V"WG"',
                         "F x,2{WG}", "({WG;a} M ,2)", "W x{WG}", "WG;WG",
                         "x:{WG;x};(x;3)", "I i{WG}EL{WG}"]))
    names = NAMES + ["$x", "$ab_1", "AA", "QZ", "a", "b", "g", "x", "l"]
    for _ in range(d.int(3, 12)):
        lines.append("P RP " + d.pick(names))
    if d.chance(20):
        lines.append("P RP (" + d.pick(["\\f", "\\f@0"]) + "=1)")
    case = {"code": "\n".join(lines) + "\n()"}
    case["args"] = d.many(0, 3, lambda: Gen(d).scalar())
    return case


def wiped_rule(case, e):
    return len(set(e.out.split("\n"))) > 4


def fresh_check(case, ctx):
    """Whatever a program did, after WG a function behaves as at the start."""
    probe = ["P RP [" + ";".join(n for n in INITIAL) + ";\\a;\\b;\\g;PA;VN;VD]",
             "P RP [_;B;G]"] + case["uses"] + ["()"]
    a = T.run("\n".join(probe), ["--"] + case["args"])
    code = "\n".join(case["lines"] + ['O "<<<>>>";', case["wg"]] + probe)
    D.expected({"code": "\n".join(case["lines"]), "args": case["args"]})
    b = T.run(code, ["--"] + case["args"])      # it ends, says the reference
    if a.status != "ok":
        raise Discard
    if b.status == "fatal" and "<<<>>>" not in b.out:
        raise Discard
    if b.status != "ok" or b.out.split("<<<>>>")[-1] != a.out:
        raise Violation(f"after {case['lines']} and {case['wg']}: {b}; "
                        f"at the start: {a}")
    ctx.nontrivial()


def fresh(d):
    lines = P.Prog(d, budget=10, locals_=()).program(6).split("\n")
    for _ in range(d.int(1, 5)):
        n = d.pick(NAMES[:-4] + ["_", "B", "G", "VN", "VD", "\\a", "\\g"])
        lines.append(d.pick(SPOIL[:12]).format(n=n))
    uses = [f"({{{d.pick(['a', 'x', 'a+h', 'l AE a', 'z@a', '[a;x;t]'])}}};"
            f"{d.int(0, 5)})"] * d.below(2)
    uses = ["P RP " + u for u in uses]
    for _ in range(d.int(0, 2)):
        uses.append("P RP " + d.pick(
            ["(l AE 1)", "(z@,3)", "\"ab1\"R XD 'x", "(x.1)", "(i+t)",
             "[1;2]J k", "1J n", "(_*t M ,3)", "\"aXb\"@?XU", "l PU 3",
             "(s X 3)", "\"a b\"^s", "(m/h)", "(v*o)", "\"a  b\"^w", "PI//1"]))
    return {"lines": lines, "uses": uses, "wg": d.pick(
        ["WG", "{WG}V[]", 'V"WG"', "I 1{WG}", "L 1{WG}"]),
        "args": d.many(0, 3, lambda: Gen(d).scalar())}


# -------------------------------------------------------------------- input

LINES = ["", " ", "a", "5", "-3.50", "a b", "\t", "é", "'", '"x"', "[1;2]",
         "q", "\\n", "x;y", "  z  ", "`a`", "0", "  two", "%", "\x0b!", "\x1c.",
         "\x85,", "\u2028-"]
READS = ["P RP q", "P RP [q;q]", "P RP q.q", "P RP (q|q)", "P RP (q&q)",
         "P RP (q ? 1 0)", "x:q P RP [x;x]", "F $i,3{P RP q}", "P RP ({q}M,2)",
         "P RP (q@0)", "P RP #q", "W#x:q{P RP x}", "P RP (q~`\\d`)",
         "P RP ({a.a};q)", "P RP ({q}V[])", "P RP [q]", "P RP (q+1)",
         "[x;y]:[q;q] P RP [x;y]", "P RP V q", "I q{P RP q}EL{P RP [q;q]}",
         "P RP (q=q)", "P RP (q<q<q)", "T q{O 1}", "L 2{O q}", "O q",
         "P RP (q^s)", "P RP (q J q)", "l PU q P RP l", "x.:q P RP x",
         "P RP (q;1)", "P RP (q X 2)", "P RP ({a}MS q)", "F c q{P RP c}",
         "P RP (#*[q;q])", "P RP (A*q)", "P RP [q \" \" q]", "q", "P RP (q:5)",
         "P RP (q.:5)", "P RP ++q", "P RP ($.[q;q;q])", "P RP (q V 3)",
         "P RP (q?q q)", "U q P RP q", "P RP \"<\\q\\>\"", "(q::x)P RP x",
         "P RP (q AL [q])", "P RP q@q", "P RP (q RL 2)", "$a:q P RP $a", "P RP qq"]


def reads(d):
    lines = [d.pick(READS) for _ in range(d.int(1, 4))]
    return {"code": ";\n".join(lines) + d.pick(["\n()", ";\nP RP q;P RP q\n()"]),
            "stdin": d.many(0, 7, lambda: d.pick(LINES) if d.chance(70) else
                            Gen(d).string().replace("\n", "").replace(
                                "\r", "")),
            "args": d.many(0, 1, lambda: "arg")}


def reads_rule(case, e):
    return len(case["stdin"]) > 1 and len(e.out) > 5


def lines(d):
    g = Gen(d)
    ls = d.many(0, 6, lambda: d.pick(LINES) if d.chance(60) else
                g.string().replace("\n", ""))
    ls = [x.replace("\r", "") for x in ls]
    return {"lines": ls, "last": d.below(2), "extra": d.int(0, 2),
            "form": d.below(6), "read": d.int(0, 3)}


def lines_check(case, ctx):
    """Each reading of q takes one whole line; after the last it is nil."""
    ls = case["lines"]
    text = "\n".join(ls) + ("\n" if case["last"] and ls else "")
    if not case["last"] and ls and ls[-1] == "":
        ls = ls[:-1]
    n = len(ls) + case["extra"]
    form = ["L {n} {{P RP q}}", "F $i,{n} {{x:q;P RP x}}",
            "({{P RP q}} M ,{n})", "f:{{I a>0 {{P RP q;(f a-1)}}}} (f {n})",
            "$n:0;W $n<{n} {{P RP q;++$n}}", "F x ({{q}} M ,{n}) {{P RP x}}"]
    code = form[case["form"]].format(n=n) + "\n()"
    r = T.run(code, ["-w"], text)
    want = [V.show(x) for x in ls] + ["()"] * case["extra"]
    if r.out != "".join(w + "\n" for w in want) or r.status != "ok":
        raise Violation(f"{code!r} reading {text!r}: {r}; expected {want}")
    if len(set(ls)) > 1:
        ctx.nontrivial()


def suite():
    return Suite("P34", [
        Family("preset variables", enum=table, check=table_check),
        Family("preset functions", enum=functions, check=functions_check),
        Family("wiped", wiped, diff_check(wiped_rule), 5000),
        Family("as at the start", fresh, fresh_check, 4000),
        Family("reads", reads, diff_check(reads_rule), 6000),
        Family("lines", lines, lines_check, 3000),
    ], "Every preset variable in several positions, before and after being "
       "changed and wiped, against a table; random programs followed by WG "
       "against the reference and against a fresh start; generated input "
       "lines read by q in every kind of expression; non-trivial: several "
       "different values shown.", BASE_ASSUMPTIONS)
