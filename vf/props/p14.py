"""P14: commands and short-circuiting run exactly the right code, in order."""
from ..common import *
from ..engine import Suite

CONDS = ["0", "1", "\"\"", "\"0\"", "\"0.0\"", "\".\"", "[]", "[0]", "()",
         "(,0)", "(,1)", "((),0)", "``", "`a`", "{}", "{0}", "00", "0.0", "5",
         "\"a\"", "(-1)", "[[]]", "[();1]", "\"00\"", "\"-\"", "\"0x\"", "2.5",
         "(1,1)", "(3,1)", "(5,())"]


def deep(d, body):
    """The statements in a function, run some calls deep."""
    n = d.pick([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17])
    b = "\n".join(body)
    return [d.pick([
        f"$deep:{{I a>0 {{($deep a-1)}} EL {{\n{b}\n}}}}\n($deep {n})",
        f"$deep:{{a>0 ? (f a-1) (${{\n{b}\n}})}}\n($deep {n})".replace(
            "(${", "({").replace("})}", "};0)}"),
        f"$body:{{\n{b}\n}}\n$deep:{{$body () ? 1 0;0}}\n"
        f"$deep:{{a>0 ? (f a-1) ($body a)}}\n($deep {n})",
        f"$deep:{{\n{b}\nI a>0 (f a-1)}}\n($deep {min(n, 3)})"])]


class Flow:
    """Programs of nested commands leaving a trace: every executed piece
    prints a distinct number; loops are bounded by construction."""

    def __init__(self, d):
        self.d, self.g, self.n = d, Gen(d, {}, 4), 0
        self.vars = ["x", "y"]
        self.counters = 0
        self.left = 14

    def mark(self):
        self.n += 1
        return f"O\"{self.n},\""

    def value(self, kind=None):
        return lit(self.g.value(kind or self.d.pick("nsNTLRG0")))

    def cond(self, depth=1):
        """A condition whose evaluation leaves a trace."""
        d = self.d
        k = d.below(16)
        if k < 5:
            return d.pick(self.vars)
        if k < 8:
            return d.pick(CONDS)
        self.n += 1
        t = f"(t {self.n} {d.pick(CONDS + self.vars)})"
        if k < 10 or depth <= 0:
            return t
        a, b = self.cond(depth - 1), self.cond(depth - 1)
        if k < 13:
            return f"({a} {d.pick(['&', '|'])} {b})"
        if k < 14:
            return f"(!{a})"
        if k < 15:
            return f"({a} ? {b} {self.cond(depth - 1)})"
        return f"({a} {d.pick(['<', '=', '>', 'Q', '!='])} {b} " \
               f"{d.pick(['<', '>', '<='])} {self.cond(0)})"

    def block(self, depth):
        d = self.d
        if d.chance(8):
            return "{}"
        if d.chance(12):
            # a single statement needs no braces
            return d.pick([self.mark, self.assign])()
        return "{" + ";".join(self.statement(depth) for _ in range(
            d.weighted([(3, 1), (4, 2), (2, 3)]))) + "}"

    def assign(self):
        d = self.d
        v = d.pick(self.vars)
        return d.pick([f"{v}:{self.value()}", f"({v} . : 1)".replace(" . :", ".:"),
                       f"{v}:{d.pick(self.vars)}", f"(++{v})",
                       f"({v} AE: {self.n})", f"({v}:{self.cond(0)})"])

    def show(self):
        return f"O RP {self.d.pick(self.vars)}"

    def statement(self, depth):
        d = self.d
        self.left -= 1
        k = d.below(32)
        if depth <= 0 or self.left < 0 or k < 6:
            return self.mark()
        if k < 9:
            return self.assign()
        if k < 11:
            return self.show()
        if k < 17:
            s = f"I {self.cond()} {self.block(depth - 1)}"
            while d.chance(35):
                s += f" EI {self.cond()} {self.block(depth - 1)}"
            if d.chance(55):
                s += f" EL {self.block(depth - 1)}"
            return s
        if k < 22:
            v = d.pick(self.vars + ["i", "k"])
            if d.chance(20):
                v = f"[{v};{d.pick('ikmn')}]"
            it = d.pick(self.vars) if d.chance(30) else self.value(
                d.pick("NRsTLG"))
            return f"F {v} {it} {self.block(depth - 1)}"
        if k < 26:
            c = str(d.int(0, 4)) if d.chance(50) else d.pick(
                [self.value("u"), "x", "y", "\"2x\"", "[7;8]", "(,3)", "(-1)",
                 "()", "1.9", "\"ab\"", "[]", "(2,5)"])
            return f"L {c} {self.block(depth - 1)}"
        if k < 28:
            p = d.pick(["`\\d`", "`a|b`", "`(.)(b)?`", "\"a\"", "``", "`x*`",
                        "x", "5"])
            return f"LR {p};{d.pick(self.vars + ['\"a1b2ab\"', '1234'])} " \
                   "{O RP $0;" + self.statement(depth - 1) + "}"
        self.counters += 1
        c = f"$c{self.counters}"
        n = d.int(0, 4)
        body = self.block(depth - 1)
        body = body[1:-1] if body[0] == "{" else body
        if d.chance(20):
            # everything happens in the condition
            op = d.pick(["(++$K)", "($K+:1)", "(++$K)"])
            op = op.replace("$K", c)
            t = d.pick([f"({op}<{n})", f"((t {self.n} {op})<{n})",
                        f"({op}<{n} & {self.cond(0)})"])
            s = d.pick([f"W {t} {{}}", f"T !{t} {{}}", f"W {t} {{()}}",
                        f"T !{t} {self.mark()}", f"W {t} {self.mark()}"])
            return f"{c}:0;{s};O {c}"
        if d.chance(50):
            w = c if d.chance(60) else f"({c} & {self.cond()})"
            return f"{c}:{n};W {w} {{(--{c});{body}}}"
        w = f"(!{c})" if d.chance(60) else f"((!{c}) | {self.cond()})"
        return f"{c}:{n};T {w} {{(--{c});{body}}}"

    def program(self):
        d = self.d
        # t prints its first argument and returns the second
        lines = ["t:{O a.\"?\" b}"]
        for v in self.vars:
            lines.append(f"{v}:{d.pick(CONDS) if d.chance(40) else self.value()}")
        body = [self.statement(d.int(1, 4)) for _ in range(d.int(1, 4))]
        if d.chance(25):
            lines += deep(d, body)
        else:
            lines += body
        lines += ["P RP [x;y]", "()"]
        return "\n".join(lines)


def gen(d):
    return {"code": Flow(d).program()}


# ------------------------------------------------------------ short circuits

LOGIC = ["&", "|", "\\&", "\\|", "?", "\\?"]


def logic(d):
    """An expression of lazy operators over traced operands, and the trace and
    value computed here, independently of the reference interpreter."""
    n = [0]

    def leaf():
        n[0] += 1
        v = d.pick(["0", "1", "()", "[]", '"a"', "5", '""', "[0]", '"0"'])
        return ("leaf", n[0], v)

    def scalar():
        n[0] += 1
        return ("leaf", n[0], d.pick(["0", "0", "5", '"a"']))

    def tree(depth):
        if depth <= 0 or d.chance(25):
            return leaf()
        k = d.below(10)
        if k < 3:
            return ("&", tree(depth - 1), tree(depth - 1))
        if k < 6:
            return ("|", tree(depth - 1), tree(depth - 1))
        if k < 8:
            return ("?", tree(depth - 1), tree(depth - 1), tree(depth - 1))
        if k < 9:
            return ("!", tree(depth - 1))
        return ("<", scalar(), scalar(), scalar())
    return {"tree": tree(d.int(1, 4))}


def falsy(v):
    return v in ("0", "()", "[]", '""')


def logic_src(t):
    if t[0] == "leaf":
        return f"(t;{t[1]};{t[2]})"
    if t[0] == "!":
        return f"(!{logic_src(t[1])})"
    if t[0] == "?":
        return f"({logic_src(t[1])} ? {logic_src(t[2])};{logic_src(t[3])})"
    if t[0] == "<":
        return f"({logic_src(t[1])} Q {logic_src(t[2])} Q {logic_src(t[3])})"
    return f"({logic_src(t[1])} {t[0]} {logic_src(t[2])})"


def logic_run(t, trace):
    if t[0] == "leaf":
        trace.append(t[1])
        v = t[2]
        return {'"a"': '"a"', '"0"': "0"}.get(v, v)
    if t[0] == "!":
        return "1" if falsy(logic_run(t[1], trace)) else "0"
    if t[0] == "?":
        c = logic_run(t[1], trace)
        return logic_run(t[3] if falsy(c) else t[2], trace)
    if t[0] == "<":
        # a chain evaluates its operands left to right, each exactly once
        a, b, c = [logic_run(x, trace) for x in t[1:]]
        return "1" if a == b == c else "0"
    a = logic_run(t[1], trace)
    if t[0] == "&":
        return a if falsy(a) else logic_run(t[2], trace)
    return logic_run(t[2], trace) if falsy(a) else a


def tuples(t):
    return tuple(tuples(x) if isinstance(x, (list, tuple)) else x for x in t)


def logic_check(case, ctx):
    t = tuples(case["tree"])
    trace = []
    v = logic_run(t, trace)
    code = "t:{O a.\",\" b}\nr0:1".replace("\nr0:1", "") + \
        f"\n$r:{logic_src(t)}\nP\"\" P RP$r\n()"
    want = "".join(f"{n}," for n in trace) + "\n" + v + "\n"
    r = T.run(code, ["--"])
    if r.status != "ok" or r.out != want:
        raise Violation(f"{code!r}\n  expected {want!r}\n  observed {r}")
    if len(trace) > 1:
        ctx.nontrivial()


# ------------------------------------------------------------- loop counting

def loops(tier):
    cases = []
    for c in CONDS + ["x", "\"abc\"", "[1;2;3]", "(2,6)", "10", "3.99"]:
        if c in ("(5,())", "((),0)"):
            continue
        ex = [f"n:0 L {c} {{++n}} P RP n", f"n:0 F i {c} {{n:n AE i}} P RP n",
              f"n:0 I {c} {{n:1}} EL {{n:2}} P RP n",
              f"n:0 i:{c} W i {{n:n+1 i:n<3&i}} P RP n",
              f"n:0 i:{c} T i {{n:n+1 i:n>3}} P RP n",
              f"P RP ({c} & 7)", f"P RP ({c} | 7)", f"P RP ({c} ? 7 8)",
              f"P RP !{c}", f"P RP ({{a}} FI [{c};1])",
              f"n:0 L {c} {{n:n+1 I n=2 {{L {c} {{n:n+10}}}}}} P RP n",
              f"F i {c} {{P RP i}} P RP i", f"i:9 L {c} {{P RP i}} P RP i",
              f"I 0 {{P 1}} EI {c} {{P 2}} EL {{P 3}}",
              f"I {c} {{P 1}} EI {c} {{P 2}} EL {{P 3}}",
              f"F[i;k] [{c};{c}] {{P RP [i;k]}}",
              f"s:{c} F i s {{s:5 P RP i}} P RP s",
              f"s:{c} L s {{s:5 P RP s}} P RP s"]
        cases += [{"exprs": [], "stmts": x} for x in chunks(ex, 6)]
    return cases


def loops_check(case, ctx):
    D.diff({"code": "\n".join(case["stmts"]) + "\n()"}, ctx)
    ctx.nontrivial()


# ------------------------------------------------------- long and deep code

NAMES = ["x", "y", "k", "m", "n", "o", "p", "u", "v", "w", "z", "$a", "$bc",
         "$d_1", "AA", "XY", "Z", "QQ", "e", "g"]


def names_and_items(d, names, depth):
    """A list of names, perhaps nested, and items to give them."""
    ns, xs = [], []
    for n in names:
        if depth and d.chance(8):
            a, b = names_and_items(d, names[:d.int(1, 3)], depth - 1)
            ns.append(a)
            xs.append(b)
        else:
            ns.append(n)
            xs.append(str(d.int(0, 99)))
    if d.chance(20):
        xs = xs[:d.int(1, len(xs))] if d.chance(50) else xs + ["7"]
    return "[" + d.pick([";", " "]).join(ns) + "]", "[" + ";".join(xs) + "]"


def many(d):
    k = d.below(7)
    if k == 0:
        names = NAMES[:d.int(2, len(NAMES))]
        ns, x = names_and_items(d, names, 2)
        ys = [x] + [names_and_items(d, names, 2)[1]
                    for _ in range(d.int(0, 3))]
        code = f"F {ns} [{';'.join(ys)}] {{P RP [{';'.join(names)}]}}"
    elif k == 1:
        n = d.int(3, 40)
        conds = [d.pick(["0", "0", "0", "(t %d 0)" % i, '""', "()", "x=%d" % i])
                 for i in range(n)]
        if d.chance(80):
            conds[d.below(n)] = "(t 77 1)"
        code = f"x:{d.int(-3, 40)}\nI " + " EI ".join(
            f"{c} {{P {i}}}" if d.chance(70) else f"{c} P {i}"
            for i, c in enumerate(conds)) + d.pick(["", " EL {P \"e\"}",
                                                    " EL P x"])
    elif k == 2:
        n = d.int(4, 40)
        s = "P RP [x;i];++x"
        for i in range(n):
            c = d.pick(["I 1", "L 1", "I x", "F i [3]", "F i (x,x+1)", "I x>0",
                        "I 0 P 5 EL", "W x<2", "T x>1", "LR \"a\";\"a\""])
            s = f"{c} {{{s}}}" if d.chance(80) or ";" in s else f"{c} {s}"
        code = "x:1\n" + s + "\nP RP [x;i]"
    elif k == 3:
        n = d.pick([50, 99, 100, 101, 128, 255, 256, 257, 300, 500])
        n += d.int(-1, 1)
        code = d.pick([
            f"L {n} {{x+:i++i}} P x", f"W x<{n} {{++x}} P x",
            f"T x={n} {{x+:1}} P x", f"F i,{n} {{x:x+i*i}} P x",
            f"LR `.`;\"a\"X{n} {{++x}} P x P $(", f"F i \"ab\"X{n} {{s.:i}} P # s",
            f"F i,{n} {{l PU i}} P RP l", f"L {n} L 2 ++x P x",
            f"F i,{n} {{I i%7 {{x+:1}} EI i%3 {{x+:100}} EL {{x+:10000}}}} P x",
            f"W 1>#l&x<{n} {{++x}} P x"])
        code = "x:0 s:\"\" l:[]\n" + code
    elif k == 4:
        n = d.int(20, 150)
        code = "x:0\n" + d.pick(["\n", ";", " ; "]).join(
            d.pick([f"x:x+{i}", f"O {i}", "++x", "P x", f"I x%2 {{O {i}}}",
                    f"F i,2 {{x+:i}}", "O x"]) for i in range(n))
        code += "\nP x"
    elif k == 5:
        n = d.int(5, 60)
        op = d.pick("&|")
        xs = [f"(t {i} {d.pick(['1', '5', '[0]']) if op == '&' else '0'})"
              for i in range(n)]
        if d.chance(70):
            xs[d.below(n)] = f"(t 99 {'0' if op == '&' else '7'})"
        code = "P RP (" + op.join(xs) + ")"
    else:
        n = d.int(3, 40)
        xs = [f"(t {i} {i // d.int(1, 2) if d.chance(4) else i})"
              for i in range(n)]
        code = "P (" + d.pick(["<", "<=", "!=", "LT", "<"]).join(xs) + ")"
    if d.chance(20):
        # (the loop variables and counters are all global)
        code = deep(d, [code])[0] + "\nP RP [x;i;s;l]"
    return {"code": "t:{O a.\",\" b}\n" + code + "\n()"}


def many_rule(case, e):
    return len(e.out) > 5


def rule(case, e):
    return e.out.count(",") > 1


def suite():
    lp = Family("every condition", enum=loops, check=loops_check)
    lp.split = lambda c: [{"stmts": [x]} for x in c["stmts"]]
    return Suite("P14", [
        lp,
        Family("flow", gen, diff_check(rule), 20000),
        Family("lazy", logic, logic_check, 10000),
        Family("long", many, diff_check(many_rule), 2500),
    ], "Nested if/else-if/else, for (with destructuring), loop, loop-regex, "
       "while and till over values of every type, each executed piece and "
       "each evaluated condition leaving a printed trace, compared with a "
       "reference; lazy & | ? and chains against a trace computed "
       "independently; up to 40 arms, levels or names and 500 rounds; "
       "non-trivial: at least two trace marks.",
       BASE_ASSUMPTIONS)
