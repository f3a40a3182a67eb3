"""P13: functions: arguments, local scope, recursion, history variables."""
from ..common import *
from ..engine import Suite

LOCALS = ["a", "b", "c", "d", "e", "f", "g", "$_", "$__", "$___"]
OUTER = ["\\a", "\\b", "\\c", "\\d", "\\e", "\\g"]
GLOB = ["x", "y", "u", "v", "$n", "AA"]


class Fns:
    """Programs made of functions that call each other."""

    def __init__(self, d):
        self.d, self.g = d, Gen(d, {}, 5)
        self.fns, self.depth = [], 0

    def atom(self):
        d = self.d
        k = d.below(20)
        if k < 9:
            return d.pick("aaabbcc") if d.chance(85) else d.pick("de")
        if k < 10:
            return d.pick(LOCALS[5:])
        if k < 14:
            return d.pick(GLOB)
        if k < 15:
            return d.pick(OUTER)
        return lit(self.g.value(d.pick("innsN")))

    def args(self):
        d = self.d
        n = d.weighted([(3, 1), (5, 2), (1, 0), (4, 3), (3, 5), (1, 7)])
        return [self.expr(1) if d.chance(30) else self.atom()
                for _ in range(n)]

    def call(self, fn=None):
        d = self.d
        fn = fn or (d.pick(self.fns) if self.fns and d.chance(75) else
                    d.pick(["{a}", "{a+b}", "{b}", "{g}", "{b.a}", "{[a;b;c]}", "(_+1)",
                            "{f}", "{$_}", "{x:a}", "{a:b}", "{V g}", "x"]))
        xs = self.args()
        k = d.below(12)
        if k < 7:
            return f"({fn};{';'.join(xs)})" if xs else f"({fn} V [])"
        if k < 8:
            return f"({fn} {' '.join(xs)})" if xs else f"({fn} V [])"
        if k < 9:
            return f"({fn} V [{';'.join(xs)}])"
        if k < 10:
            return f"({fn} M [{';'.join(xs)}])"
        if k < 11:
            return f"({fn} MS {self.atom()})"
        return f"({fn} {d.pick(['FI', 'MU', 'ME', 'V', 'FJ'])} " \
               f"[{';'.join(xs)}])"

    def expr(self, depth):
        d = self.d
        k = d.below(20)
        if depth <= 0 or k < 4:
            return self.atom()
        if k < 8:
            return "(" + self.expr(depth - 1) + d.pick(
                [" + ", " . ", " * ", " - ", " AE ", " ; ", " > ", " | "]
            ).replace(" ; ", " AL ") + self.expr(depth - 1) + ")"
        if k < 10:
            return "[" + ";".join(d.many(1, 3, lambda: self.expr(
                depth - 1))) + "]"
        if k < 12:
            return f"({self.expr(0)} ? {self.expr(depth - 1)} " \
                   f"{self.expr(depth - 1)})"
        if k < 13:
            return self.function(depth - 1)
        if k < 14:
            return f"({d.pick('abx')} : {self.expr(depth - 1)})"
        if k < 15:
            return f"({d.pick('abx')} {d.pick(['+', '.', 'AE'])}: " \
                   f"{self.expr(depth - 1)})"
        return self.call()

    def statement(self, depth):
        d = self.d
        k = d.below(24)
        if k < 6:
            n = d.pick("abcdefg") if d.chance(60) else d.pick(GLOB)
            return f"{n}:{self.expr(depth)}"
        if k < 8:
            return f"({d.pick('abcdgx')} {d.pick(['+', '.', 'AE', 'AL'])}: " \
                   f"{self.atom()})"
        if k < 10:
            return f"({d.pick(['++', '--', 'PO', 'U'])} {d.pick('abcgx')})"
        if k < 13:
            return f"P RP {self.atom()}"
        if k < 15:
            return f"I {self.atom()} {{{self.body(depth - 1, 2)}}}" + (
                f" EL {{{self.body(depth - 1, 2)}}}" if d.chance(40) else "")
        if k < 16:
            return f"F {d.pick('abcdxg')} {lit(self.g.value('N'))} " \
                   f"{{{self.body(depth - 1, 2)}}}"
        if k < 17:
            return f"[{d.pick('abx')};{d.pick('bcg')}]:" + self.expr(depth)
        if k < 18:
            return f"({d.pick('abx')} :: {d.pick('bcy')})"
        if k < 21:
            return self.expr(depth)
        return "P RP " + self.call()

    def body(self, depth, n=3):
        return ";".join(self.statement(depth) for _ in range(self.d.int(1, n)))

    def function(self, depth):
        d = self.d
        self.depth += 1
        k = d.below(12)
        if k < 2 and self.depth < 3:
            # bounded recursion: $k counts down
            c = d.pick(["(f a-1)", "(RE a-1)", "(f;a-1;b)", "(f V[a-1 c])",
                        "(f;a;a)", "(f a . 1 x)", "(RE[a-1])",
                        "(f;b)", "(f AL g a)", "(f M[a b])"])
            pre = self.body(0, 1) + ";" if d.chance(40) else ""
            fn = f"{{{pre}$k:$k-1;{d.pick('bcd')}:($k>0 ? {c} " \
                 f"{self.atom()});{self.body(depth - 1, 2)};" \
                 f"{self.expr(1)}}}"
        else:
            fn = "{" + self.body(depth - 1, 3) + \
                (";" + self.expr(depth) if d.chance(70) else "") + "}"
        self.depth -= 1
        return fn

    def program(self):
        d = self.d
        lines = []
        for n in GLOB[:d.int(3, 6)]:
            lines.append(f"{n}:{lit(self.g.value(d.pick('nsN')))}")
        for n in ["h", "i", "k"][:d.int(1, 3)]:
            lines.append(f"{n}:{self.function(2)}")
            self.fns.append(n)
        for _ in range(d.int(1, 4)):
            lines.append(f"$k:{d.int(1, 5)}")
            lines.append(self.statement(2) if d.chance(40) else
                         "P RP " + self.call())
        lines += [f"P RP {v}" for v in d.pick(
            [["a", "b", "g"], ["x", "u", "$n"], ["$_", "$__", "$___"],
             ["a", "x", "y", "v"], ["c", "d", "e"]])]
        return "\n".join(lines)


def gen(d):
    case = {"code": Fns(d).program()}
    if d.chance(85):
        case["args"] = d.many(2, 6, lambda: Gen(d).scalar())
    return case


# ---------------------------------- textbook recursions against their results

def fact(n):
    return 1 if n < 1 else n * fact(n - 1)


def fib(n):
    a, b = 0, 1
    for _ in range(n):
        a, b = b, a + b
    return a


def ack(m, n):
    return n + 1 if m == 0 else ack(m - 1, 1) if n == 0 else \
        ack(m - 1, ack(m, n - 1))


def gcd(a, b):
    return a if b == 0 else gcd(b, a % b)


def collatz(n):
    return 0 if n == 1 else 1 + collatz(n // 2 if n % 2 == 0 else 3 * n + 1)


def hanoi(n, a, b, c):
    return "" if n == 0 else hanoi(n - 1, a, c, b) + a + c + " " + \
        hanoi(n - 1, b, a, c)


def perms(s):
    return [""] if not s else [s[i] + p for i in range(len(s))
                               for p in perms(s[:i] + s[i + 1:])]


def qsort(xs):
    return sorted(xs)


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


def power(b, n):
    return b ** n


def binom(n, k):
    return fact(n) // fact(k) // fact(n - k) if 0 <= k <= n else 0


def show(v):
    if isinstance(v, list):
        return "[" + ";".join(show(x) for x in v) + "]"
    if isinstance(v, str):
        return v if v.isdigit() else '"' + v + '"'
    return str(v)


SELF = ["f", "h", "RE"]


def textbook(d):
    s = d.pick(SELF)
    # RE takes one argument; several are passed as a list of arguments
    r1 = lambda x: f"(RE {x})" if s == "RE" else f"({s} {x})"
    s = "f" if s == "RE" else s
    rn = lambda *xs: "(" + s + ";" + ";".join(xs) + ")"
    num = lambda lo, hi: d.int(lo, hi)
    k = d.below(12)
    if k == 0:
        n = num(0, 12)
        return [f"{{a<1?1 a*{r1('a-1')}}}", [n], fact(n)]
    if k == 1:
        n = num(0, 11)
        return [f"{{a<2?a {r1('a-1')}+{r1('a-2')}}}", [n], fib(n)]
    if k == 2:
        m, n = num(0, 2), num(0, 3)
        return [f"{{a?(b?{rn('a-1', rn('a', 'b-1'))} {rn('a-1', '1')}) b+1}}",
                [m, n], ack(m, n)]
    if k == 3:
        a, b = num(0, 300), num(0, 300)
        return [f"{{b?{rn('b', 'a%b')} a}}", [a, b], gcd(a, b)]
    if k == 4:
        n = num(1, 20)
        return [f"{{a=1?0 1+{r1('(a%2?3*a+1 a//2)')}}}", [n], collatz(n)]
    if k == 5:
        n = num(0, 4)
        return [f"{{a?{rn('a-1', 'b', 'd', 'c')}.b.d.s.{rn('a-1', 'c', 'b', 'd')} \"\"}}",
                [n, "A", "B", "C"], hanoi(n, "A", "B", "C")]
    if k == 6:
        xs = [num(0, 20) for _ in range(num(0, 9))]
        return [f"{{#a<1?[] {{c:b b:c@0 ({s} ({{a<h0}} FI (c@>1))) AL [b] AL "
                f"({s} ({{a>=h0}} FI (c@>1)))}}}}" if False else
                f"{{b:@a c:a@>1 #a?{r1('$<b_FIc').replace('$<b_FIc', '(c@(c@?<b))')} []}}"
                if False else
                f"{{#a?({r1('(a@>1)')}AE@a) []}}", [xs], xs[::-1]]
    if k == 7:
        x = [num(0, 9), [num(0, 9), [num(0, 9)], []], num(0, 9)]
        return [f"{{a=+a&!(#a@0)?[a] 0}}" if False else
                f"{{b:[] F c a {{b AL: c@<1=[c]@0@<1 & #c=1 ? [c] (f c)}} b}}"
                if False else
                f"{{a>0?{r1('a-1')} . a \"\"}}", [x[0]],
                "".join(str(i) for i in range(1, x[0] + 1))]
    if k == 8:
        b, n = num(-4, 9), num(0, 9)
        return [f"{{b<1?1 (b%2?a 1)*{rn('a*a', 'b//2')}}}", [b, n], b ** n]
    if k == 9:
        n, r = num(0, 7), num(0, 7)
        return [f"{{b<1|b=a?b<=a {rn('a-1', 'b-1')}+(b<a?{rn('a-1', 'b')} 0)}}",
                [n, r], binom(n, r)] if r <= n else \
            [f"{{a+b}}", [n, r], n + r]
    if k == 10:
        n = num(0, 30)
        return [f"{{a=0?1 (k a-1)}} k:{{a=0?0 (h a-1)}}", [n], int(n % 2 == 0)]
    w = "".join(d.pick("abc") for _ in range(num(0, 8)))
    return [f"{{#a<2?1 (a@0=a@-1&@a Q a@-1)&{r1('a@(1,-1)')}}}", [w],
            int(w == w[::-1])]


def textbook_gen(d):
    fn, args, want = textbook(d)
    xs = [lit(show(a)) if not isinstance(a, (str, list)) else show(a)
          for a in args]
    xs = [x if x[0] != "-" else f"({x})" for x in xs]
    k = d.below(4)
    # locals of the caller must come back untouched
    pre = "a:71 b:\"bb\" c:[3;4]"
    use = f"(h;{';'.join(xs)})" if k < 2 else f"(h V [{';'.join(xs)}])" \
        if k < 3 else f"({{a:(h;{';'.join(xs)}) a}})" if False else \
        f"({{d:5 x:(h;{';'.join(xs)}) d=5?x 0}} 1)"
    return {"code": f"h:{fn}\n{pre}\nP RP {use}\nP RP [a;b;c]\n()",
            "want": show(want) + '\n[71;"bb";[3;4]]\n'}


def textbook_check(case, ctx):
    r = T.run(case["code"], ["-w", "--"])
    if r.out != case["want"] or r.status != "ok" or r.err:
        raise Violation(f"{case['code']!r}\n  expected {case['want']!r}\n"
                        f"  observed {r}")
    ctx.nontrivial()


# ------------------------------------------------------------ deep recursion

def deep(d):
    n = d.int(40, 140)
    k = d.below(3)
    fn = ["{a?1+(f a-1) 0}", "{I a{b:a c:(RE a-1)} $x+:a x}", "{a?(h a-1)+1 0}"]
    return {"n": n, "fn": fn[k]}


def deep_check(case, ctx):
    n = case["n"]
    code = f"h:{case['fn']}\nx:{n} P (h {n}) P RP a ()"
    r = T.run(code, ["--"])
    if (r.out, r.err, r.status) != (f"{n}\n()\n", "", "ok"):
        raise Violation(f"{code!r} should print {n}: {r}")
    ctx.nontrivial()


# ------------------------------------------------------------ many arguments

def wide(d):
    """Calls with more arguments than there are names for them."""
    g = Gen(d)
    n = d.pick([5, 6, 8, 9, 16, 17, 20, 21, 32, 33, 64, 100]) + d.int(-1, 1)
    xs = [lit(g.value(d.pick("iiinsN"))) for _ in range(n)]
    fn = d.pick(["{g}", "{#g}", "{[#g;a;b;c;d;e]}", "{g@-1}", "{$+#*g}",
                 "{b:9 [b;#g;@>g]}", "{#g>5?(f V g@>5).\"|\".#g #g}",
                 "{(h V g)}", "{RV g}", "{{#g} V g}", "{PO g g}",
                 "{g AL g}", "{a:#g g@<a=g}"])
    call = d.pick([f"(k;{';'.join(xs)})", f"(k {' '.join(xs)})",
                   f"(k V [{';'.join(xs)}])", f"(k V u)",
                   f"(({fn}) V u)", f"({fn};{';'.join(xs)})"])
    return {"code": "\n".join([
        f"k:{fn}", "h:{#g}", f"u:[{';'.join(xs)}]", "P RP " + call,
        "P RP [a;b;g]", "P RP u", "()"]), "args": ["1", "2"]}


def rule(case, e):
    return e.out.strip("()[];\n") != ""


def suite():
    return Suite("P13", [
        Family("functions", gen, diff_check(rule, fuel=5000), 20000),
        Family("textbook", textbook_gen, textbook_check, 6000),
        Family("many arguments", wide, diff_check(rule), 1200),
        Family("deep", deep, deep_check, 60),
    ], "Programs of functions calling each other with too few, enough and too "
       "many arguments (up to 101), assigning locals and globals, recursing through f, RE "
       "and names, reading g, history variables and the outer \\a..\\g, "
       "compared with a reference; textbook recursive algorithms against "
       "results computed by Python; non-trivial: some value is printed.",
       BASE_ASSUMPTIONS)
