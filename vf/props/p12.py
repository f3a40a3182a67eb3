"""P12: values are independent: an update through one name never shows
through another."""
from ..common import *
from ..engine import Suite

MUT = ["({0}@0):99", "(({0}@0)@0):98", "(({0}@-1)@0) .: \"z\"", "({0} PU 97)",
       "({0} PB 96)", "(PO {0})", "(DQ {0})", "({0}@(0,2)):[95;94]",
       "(({0}@0) PU 93)", "((({0}@0)@0)@0):92", "({0} PK 1)", "({0} AE: 91)",
       "(({0}@1) AL: [90])", "(RV:{0})", "(++({0}@0))", "({0}@-1):[{0}]",
       "(({0}@1)@(0,1)):[]", "({0}@0)::({0}@1)", "(PO ({0}@0))",
       "((({0}@1)@0) PU {0})"]
KEYS = [k for k in G.PURE if HINTS[k] and k[0] not in ("RP", "ST")]


def values(d, g):
    if d.chance(3):
        big = Large(d, 120)
        return lit(big.value(d.pick("GLNT")))
    return lit(g.value(d.weighted([(6, "G"), (5, "L"), (3, "N"), (2, "T"),
                                   (2, "R"), (1, "s"), (1, "n")]), 3))


def through_operators(d):
    """w is the result of an operation on u and v; then one of them changes."""
    g = Gen(d, {}, 10)
    key = d.pick(KEYS)
    args = d.pick(HINTS[key])[0]
    names = ["u", "v", "t"][:len(args)]
    lines, xs = [], []
    for n, a in zip(names, args):
        e = g.expr(a, 0) if d.chance(60) or a in "Bbf" else values(d, g)
        if a == "n" and d.chance(50):
            e = values(d, g)
        lines.append(f"{n}:{e}")
        xs.append(n)
    e = build(key[0], xs)
    if d.chance(15):
        e = f"[{e};{xs[0]}]"
    lines += [f"w:{e}", "P RP w"]
    allv = "P RP [" + ";".join(["w"] + names) + "]"
    for _ in range(d.int(1, 3)):
        lines.append(d.pick(MUT).format(d.pick(["w", "w"] + names)))
        lines.append(allv)
    return {"code": "\n".join(lines) + "\n()"}


def large(d):
    """The same with dozens or hundreds of items."""
    g = Gen(d, {}, 6)
    key = d.pick([k for k in KEYS if k[0] not in GROWING])
    args = d.pick(HINTS[key])[0]
    names = ["u", "v", "t"][:len(args)]
    lines = []
    for n, a in zip(names, args):
        big = d.pick([50, 64, 65, 100, 101, 128, 150]) + d.int(-1, 1)
        rows = "[" + ";".join(d.pick(
            [f"[{i};[{i % 7}]]", f"[{i % 5};2]", f"[\"a\";{i}]", "7"]
            if i > 1 else ["[[1];2]", "[3;[4]]"]) for i in range(big)) + "]"
        if a in "GL*I" or a in "N" and d.chance(50) or d.chance(10):
            lines.append(f"{n}:{rows}" if d.chance(85) else
                         f"{n}:([[1;[2]];3] RL {big})")
        else:
            lines.append(f"{n}:{g.expr(a, 0)}")
    e = build(key[0], names)
    if d.chance(30):
        e = d.pick(["u", "[u;u]", "(u|0)", "u@(0,())", "(u AE 1)", "(u AL u)",
                    "({a} u)", "(FL[u])", "({g PU 1 g} V u)", "({a PU 5 a} u)",
                    "(_ M u)", "(UQ u)", "({a@0} V[u])", "u@(0,60)"])
    lines += [f"w:{e}"]
    for _ in range(d.int(1, 2)):
        lines.append(d.pick([m for m in MUT if m.count("{0}") == 1]).format(
            d.pick(["w", "w"] + names)))
    lines.append("P RP [" + ";".join(["w"] + names) + "]")
    return {"code": "\n".join(lines) + "\n()"}


ROUTES = [
    "v:u", "v:[u;u]", "v:u w:v", "[v;w]:[u;u]", "v:[] v PU u v PB u",
    "v:[1;2;3] (v@1):u w:v", "v::u", "v:[u] w:v@0 t:v", "v:{{a@0:55;a}}u w:u",
    "f:{{a}} v:(f u) w:(f v)", "v:{{b:a b@0:54 [a;b]}}u", "(v:(w:u))",
    "F v u {{M1}} w:v", "F v [u;u] {{M1}}", "v:({{a@0:53 a}} M u)",
    "v:({{g PU 52 g}}u)", "v:({{g}}u) w:v@0", "f:{{$x:a}} (f u) v:$x",
    "f:{{a PU 1 a}} v:(f u) w:(f u)", "f:{{x:[1;[2;3]] (x@1@0):a x}} v:(f 7) w:(f 8)",
    "f:{{[[1;2];3]}} v:(f) (v@0@0):9 w:(f)", "v:[] L 3 {{t:[1;[2]] (t@1)PU 5 v PU t}}",
    "t:[0;[1]] v:[] L 3 {{(t@1)PU 5 v PU t}}", "v:u;u w:$_ ", "(V \"v:u\") w:u",
    "(v w):(u u) ", "v:[u;[u;[u]]] w:v@1@1@0", "v:u|0 w:0|u", "v:u&u w:1?u 0",
    "v:(u RL 3) w:v@0", "v:u@(0,()) w:u@>0", "v:+u w:u AL []", "v:FL u w:UQ u",
    "v:(u?u 0) w:[v]@0", "Y u v:y w:y", "v:Y u", "v:({{a}} MS [u;u]) w:(u J u)",
    "v:(u WV u) w:v@0", "v:[u u]@1 w:[u u]Z[u u]", "f:{{I a {{b:a b PU 3 b}}}} v:(f u)",
    "f:{{a-> }} v:u", "v:({{x:a x PU 1 RE:0 x}} FI u)", "l:u v:l l PU 4 w:l",
    "f:{{c:u c@0:33 c}} v:(f) w:u", "v:f:u w:f", "v:[u;1] w:v (v@0):w t:v",
    "t:[[1;2];[3]] F v t {{v PU 9 w:v}}", "t:[[1;2];[3]] F v t {{t PU 9 w:v}}",
    "W !w {{w:u v:w M2}}", "v:$*u w:\\$+u", "v:(u AE u) w:v@-1", "v:u R u w",
    "t:{{a@0}} v:(t u) w:(t [u])", "f:{{a@1:7 b}} v:(f u u) w:(f u v)",
    "t:u v:(t ME t) w:(t AL t)", "v:u::[1;2] w:v", "v:($_:u) w:$_",
    "f:{{(f2 a)}} v:u", "f:{{$f:a {{$f}}}} v:((f u)) w:$f", "v:{{[a;b]}} V [u;u] w:v",
    "f:{{a@0:5 a}} v:f V [u] w:f V [v]", "v:RA u w:u", "v:(u RA 0 9) w:(u RA 0 u)",
    "v:H u w:S u", "v:[u] (v@0@0):6 w:v", "v:u@0 w:@u", "v:u (v@0)::(u@1) w:v",
    "[v w]:u", "[[v] w]:[[u] u]", "v:EN u w:v@0", "v:Z[u u] w:v@0", "v:Z u w:CP u",
    "v:(u^@1) w:v@0", "v:(u<>2) w:v@0", "v:SN u w:RV u", "v:CG 2 w:v",
    "v:(u SK 0) w:(u FI u)", "v:({{1}} FI u) w:v", "v:({{a}} M u) w:v@0",
]


def route(d):
    r = d.pick(ROUTES)
    g = Gen(d)
    lines = ["u:" + values(d, g)]
    step = r.replace("{{", "{").replace("}}", "}")
    step = step.replace("M1", d.pick(MUT).format("v")) \
               .replace("M2", d.pick(MUT).format("v"))
    lines += [step, "P RP [u;v;w;t]"]
    if d.chance(40):
        lines += [d.pick(ROUTES).replace("{{", "{").replace("}}", "}")
                  .replace("M1", "").replace("M2", ""), "P RP [u;v;w;t]"]
    for _ in range(d.int(1, 3)):
        lines += [d.pick(MUT).format(d.pick("uvwt")), "P RP [u;v;w;t]"]
    return {"code": "\n".join(lines) + "\n()"}


PATHS = ["u", "u@0", "u@1", "u@0@0", "u@-1", "u@1@0", "u@0@1", "(u)", "(u@0)",
         "u@(0,2)", "u@(0,())", "u@[0;1]", "u@>0", "u@<2", "u@0@(0,())",
         "u@0@>0", "u|0", "(1?u@0 0)", "(0|u@0)", "(1&u@0)", "[u@0]@0", "u@0AL[]",
         "v", "v@0", "($_)", "(V \"u@0\")", "(Y u@0)", "(w:u@0)", "({a} u@0)",
         "(f)", "(f)@0", "({a@0} u)", "Z(u@0)"]
LOOPS = ["F i {p} {{P RP i;{m}}}", "F i {p} {{{m};P RP i}}",
         "F[i;k] {p} {{P RP [i;k];{m}}}", "P RP ({{{m};a}} M {p})",
         "P RP ({{{m};1}} FI {p})", "P RP ({{{m};a}} MJ {p})",
         "P RP ({{{m};[a;b]}} ME {p})", "P RP ({{{m};a}} MU {p})",
         "P RP (${{{m};[a;b]}} {p})", "P RP ({{{m};a}} SK {p})",
         "P RP ({{{m};[a;b]}} MS {p})", "P RP ({{{m};a}} MC 2)",
         "P RP [{p};({m});{p}]", "P RP ({p} AE ({m}))", "P RP ({p} AL ({m}))",
         "P RP (({m}) AL {p})", "P RP ({p} ? ({m});0)", "P RP ({{[a;b]}} {p} ({m}))",
         "P RP ({{{m};[a;b]}} {p} {p})", "P RP ({{{m};$_}} V {p})",
         "P RP ({{{m};[a;b]}} V {p})", "v:({p});{m};P RP v", "w:[{p};{p}];{m};P RP w",
         "F i {p} {{F k {p} {{{m};P RP [i;k]}}}}", "L ({p}@0) {{{m};P RP {p}}}",
         "W !w {{w:{p};{m};P RP w;w:1}}", "P RP ({p} WV ({m}))",
         "P RP ({p} = ({m}) = {p})", "P RP ({p} RL 2 AE ({m}))",
         "({p}@0):{p};{m};P RP {p}", "I {p} {{{m};P RP {p}}}",
         "P RP ({{{m};a}} M*{p})", "P RP (_ M {p} AE ({m}))",
         "F i EN {p} {{{m};P RP i}}", "F i {p} {{h:{p};{m};P RP [h;i]}}"]


def iterating(d):
    """A sequence is looped over, mapped, folded or held as an operand while
    the variable it was taken from is updated."""
    g = Gen(d)
    u = d.pick(["[[1;2;3];[4;5];[6]]", "[[1;2];3]", "[\"abc\";[1;[2;3]]]",
                "[[[1;2];[3]];[[4]]]", "[,3;\"xyz\"]", "[[[1];2];7;[8;[9]]]"]) \
        if d.chance(70) else lit(g.value(d.pick("GLNT"), 2))
    # (no update may double the value: it can run dozens of times)
    m = d.pick([x.format("u") for x in MUT if x.count("{0}") == 1] + [
        "(u@0@1:88)", "(u@1:87)", "(u@0@0:86)", "(u@0PU 85)", "(u@0@0PB 84)", "(PO u@0)", "(u@0@(0,())):[83;82]", "(u:81)", "(v@0:80)",
        "(v@0@1:79)", "(w@0:78)", "({u@0@0:77}_)", "(h 0)", "(u@0::u@1)",
        "(DQ u@0)", "(u@0@1+:1)", "(++u@0@0)", "(u@0:u@1)", "(u@0.:5)"])
    p = d.pick(PATHS)
    if p == "(f)" or p == "(f)@0":
        p = p.replace("f", "f 0")
    loop = d.pick(LOOPS).format(p=p, m=m)
    code = [f"u:{u};", "v:u;", "w:u@0;", "h:{u@0@0:76};", "f:{u@0};",
            loop + ";", "P RP [u;v;w]", "()"]
    return {"code": "\n".join(code)}


class Alias(P.Prog):
    """Programs whose statements copy values around and update the copies."""

    def copy(self):
        d = self.d
        a, b = self.known(), self.name()
        self.note(b, self.kinds[a])
        k = d.below(12)
        if k < 4:
            return f"{b}:{a}"
        if k < 6:
            return f"{b}:[{a};{self.known()};{a}]"
        if k < 7:
            return f"({b} PU {a})"
        if k < 8:
            return f"[{b};{self.known()}]:[{a};{a}]"
        if k < 9:
            m = d.pick(MUT).format("a")
            return f"{b}:({{{m};a}} {a})"
        if k < 10:
            m = d.pick(MUT).format(b)
            return f"F {b} {a} {{{m}}}"
        if k < 11:
            return f"({b}@{lit(self.g.small())}):{a}"
        return f"{b}:({a} {d.pick(['AE', 'AL', 'WV', '|', '&', 'RL', '@>'])}" \
               f" {self.known() if d.chance(70) else '1'})"

    def statement(self):
        d = self.d
        self.left -= 1
        if len(self.kinds) < 2 or d.chance(12):
            n = self.name()
            self.note(n, "L")
            return f"{n}:{values(d, self.g)}"
        k = d.below(10)
        if k < 4:
            return self.copy()
        if k < 8:
            return d.pick(MUT).format(self.known())
        if k < 9:
            return super().statement()
        return "P RP [" + ";".join(sorted(self.kinds)) + "]"


def alias(d):
    return {"code": Alias(d, wild=5, depth=1, budget=d.int(5, 16)).program(16)}


ARGS = ["\\a", "\\g", "\\b", "a", "g", "b", "u", "v"]
TAKE = ["u:\\a", "u:\\g", "u:a", "u:g", "v:\\g@0", "v:g@0", "u:[a;\\a]", "\\a:g",
        "g:\\g", "\\g:g", "a:\\a", "\\b:\\a", "v:(\\f=1)", "u:$_", "a::b",
        "\\a::\\b", "g@0:a", "\\g@0:\\a", "g PU g", "WG", "{WG}0", "F u g{}",
        "F u \\g{}", "v:_ V g", "v:(G V g)", "v:_ M g", "u:({g} V \\g)",
        "u:({a@0:5;g} V g)", "u:({g@0@0:5;[a;g]} V \\g)", "u:({g@0@0:5;a} \\a)",
        "u:({\\a@0:6;a} \\a)", "u:({a@0:7;[\\a;g]} a)", "({a PU 7;g} a)"]


def arguments(d):
    """The arguments of the program and of functions, under several names."""
    lines = []
    for _ in range(d.int(2, 7)):
        lines.append(d.pick(TAKE) if d.chance(50) else
                     d.pick(MUT).format(d.pick(ARGS)))
        if d.chance(60):
            lines.append("P RP [\\a;\\b;\\g;a;b;g;u;v]")
    lines = "\n".join(lines + ["WG", "P RP [\\a;\\b;\\g;a;b;g;u;v]"] *
                      d.int(1, 2)).split("\n")
    args = [d.pick(["abc", "12", "a b", "x", "[1;2]", "5.5", ""])
            for _ in range(d.int(1, 4) if d.chance(97) else d.int(40, 130))]
    k = d.below(4)
    case = {"args": args, "code": ";\n".join(lines) + "\n()"}
    if k == 1:
        case["x"] = 1
    if k == 2:
        body = ";\n".join(x for x in lines)
        case["code"] = "h:{" + body + "};(" + d.pick(
            ["h a b", "h \\a;[1;[2;3]]", "h \\g;g", "h g@0;\\g"]) + \
            ");\nP RP [\\a;\\b;\\g;a;b;g]\n()"
    return case


def rule(case, e):
    return e.out.count("\n") > 1 and e.out.strip("()[];\n") != ""


def large_rule(case, e):
    return len(e.out) > 50


def suite():
    return Suite("P12", [
        Family("operators", through_operators, diff_check(rule), 14000),
        Family("routes", route, diff_check(rule), 9000),
        Family("iterating", iterating, diff_check(rule), 12000),
        Family("histories", alias, diff_check(rule), 7000),
        Family("arguments", arguments, diff_check(rule), 7000),
        Family("large", large, diff_check(large_rule), 2500),
    ], "Programs that make a second reference to a value by every route the "
       "language has (assignment, list items, arguments, loop variables, "
       "results of every operator, pushes, swaps, yank, history) and then "
       "update one of them in place; all variables are shown and compared "
       "with a reference on immutable values; non-trivial: distinct program "
       "printing some value.", BASE_ASSUMPTIONS)
