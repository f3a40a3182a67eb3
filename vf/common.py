"""Case families shared by the properties."""
from . import diff as D
from . import gen as G
from . import prog as P
from . import syntax as S
from . import target as T
from . import values as V
from .engine import Discard, Family, Violation
from .gen import HINTS, Gen, build, lit
from .values import Blk, Pat, Rng

BASE_ASSUMPTIONS = [
    "The reference interpreter in vf/model.py is the oracle; it shares no code "
    "with /repo and works on immutable values.",
    "Floating-point digits beyond a relative error of 1e-9 are not compared.",
    "Runs happen in-process through pip.pip()/pip.main(); only standard "
    "output, standard error and the way the run ends are observed.",
]

# literal operands for the exhaustive operator sweeps
POOL1 = ["0", "1", "2", "5", "(-1)", "(-3)", "7.5", "(-2.5)", "0.0", '".5"',
         "10", "255", "100000000000000000000", '""', '"abc"',
         '"Hello, World"', '"a1b22"', '"-4x"', '"3e+2"', '" 12"', '"\n"',
         '"a\nb"', "\"'\"", '"aab"', '"0.0"', '"-0"', "007", "`a`", "`\\d+`",
         "`(b)(c)?`", "(-`B`)", "``", "()", "[]", "[1;2;3]", "[3;1;2;1]",
         '["a";"b"]', "[[1;2];[3;4]]", "[[1;2;3];[4]]", "[();1]",
         '["abc";"de"]', '[0;"a";[1];()]', "[`a`;2]", "[[];[]]", "(0,0)",
         "(,3)", "(2,5)", "(-2,2)", "((),4)", "(5,2)", "(3,())", "((),())",
         "{a}", "{a+b}", "{}", "{1}", "{X:a;a+1}", "[{a};2]", '["";"x"]',
         '[1.5;"2";"10"]', '"aBc"', '["a";"B";"a"]', '[(2,5);(,2)]', "(1.0)",
         '"racecar"', "(-0.5)", "2.675", '"x y  z"', "[0;0.0;\"00\"]",
         "9007199254740993", "36", '"Zz"']
POOL2 = ["0", "1", "2", "(-1)", "(-3)", "2.5", "(-0.5)", "10", "16",
         "9007199254740993", '""', '"a"', '"abcabc"', '"ab1 B2"', '"-4x"', "()",
         "[]", "[3;1;2;1]", '["b";"a";"b"]', "[[1;2];[3;4;5]]",
         '[0;"a";[1];()]', "(,3)", "(2,5)", "(-2,2)", "(3,())", "((),-1)",
         "`b`", "`[a-c]`", "`(b)(c)?`", "(-`B`)", "{a}", "{a.b}", "{b}",
         "[1;0]", "[-1;1]", '"b"', "5", '["abc";"de"]', "((),2)", "12.75"]


# functions that differ from one another in one place
FUNCTIONS = ["{a}", "{b}", "{}", "{()}", "{a;a}", "{b;a}", "{Fi,3Pi}",
             "{Fi,4Pi}", "{Fk,3Pi}", "{Fi,3Pi;4}",
             "{Fi,4Pi;4}", "{Fi,3Pi;5}", "{Wx{}}", "{Wy{}}", "{Ix1}",
             "{Ix1EL2}", "{Ix1EL3}", "{Lx1}", "{Px}", "{x}", "{Px;x}",
             "{Py;x}", "{Px;y}", "{x:1}", "{x:2}", "{x:1;2}", "{x:2;2}",
             "{a+1}", "{a-1}", "{1+a}", "{a+1.0}", "(_+1)", "{(a+1)}",
             "{[a;1]}", "{[a;2]}", "{{a}}", "{{b}}", "{{a;b}}",
             '{"a"}', "{'a}", "{`a`}", "{WG}", "{a<b<a}", "{a<b>a}",
             "{a?1 2}", "{a?1 3}", "(_.B)", "(_.b)", "($+_)", "{$+a}",
             "{$*a}", "{\\$+a}", "{-*a}", "{/*a}", "{x+:1}", "{x-:1}"]


def wrap_show(expr):
    return "P RP " + expr


def diff_check(rule=None, warn=True, fuel=20000):
    """A check comparing program and reference; rule(case, e) says whether the
    case counts as non-trivial."""
    def check(case, ctx):
        e, _ = D.diff(case, ctx, warn, fuel)
        if rule is None or rule(case, e):
            ctx.nontrivial()
    return check


def substantial(case, e):
    """Some line of output is neither nil nor empty, and nothing warned."""
    return not e.warns and any(x not in ("()", "", "[]", '""')
                               for x in e.out.split("\n"))


def batch_check(case, ctx):
    """case['exprs']: expressions shown one per line by one program."""
    prog = {"code": "\n".join([case.get("pre", "")] * bool(case.get("pre")) +
                              ["P RP " + x for x in case["exprs"]]) + "\n()"}
    try:
        D.diff(prog, ctx)
    except Discard:
        if len(case["exprs"]) == 1:
            raise
        for x in case["exprs"]:
            try:
                batch_check(dict(case, exprs=[x]), ctx)
            except Discard:
                pass
        return
    ctx.nontrivial()


def split_batch(case):
    return [dict(case, exprs=[x]) for x in case["exprs"]]


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def sweep_family(keys, pool1=POOL1, pool2=POOL2, third=None, name="sweep"):
    """Exhaustive: every operator of `keys` on every (pair of) pool value(s)."""
    keys = list(keys)

    def enum(tier):
        p2 = pool2 if tier == "quick" else pool1
        cases = []
        for sym, ar in keys:
            if ar == 1:
                ex = [build(sym, [x]) for x in pool1]
            elif ar == 2:
                ex = [build(sym, [x, y]) for x in p2 for y in p2]
            else:
                q = third or p2[::3]
                ex = [build(sym, [x, y, z]) for x in q for y in q for z in q]
            cases += [{"op": sym, "exprs": c} for c in chunks(ex, 12)]
        return cases

    def check(case, ctx):
        ctx.tag("sweep " + case["op"])
        batch_check(case, ctx)
    f = Family(name, enum=enum, check=check)
    f.split = split_batch
    return f


def op_program(d, keys, depth=2, wild=12, lines=(1, 3)):
    """A program applying operators of `keys` in varied surroundings."""
    g = Gen(d, {}, wild)
    out = []
    for _ in range(d.int(*lines)):
        key = d.pick(keys)
        alts = HINTS[key]
        args = d.pick(alts)[0] if alts else "**"[:key[1]]
        sym, ar = key
        dep = d.int(0, depth)
        xs = [g.expr(a, d.int(0, dep)) for a in args]
        k = d.below(20)
        if k < 11:
            out.append(wrap_show(build(sym, xs)))
        elif k < 14:
            names = ["u", "v", "w"][:ar]
            out += [f"{n}:{x}" for n, x in zip(names, xs)]
            out.append(wrap_show(build(sym, names)))
            out += [wrap_show(n) for n in names]
        elif k < 16:
            names = "abc"[:ar]
            f = "{" + build(sym, list(names)) + "}"
            out.append(wrap_show(f"({f};{';'.join(xs)})"))
        elif k < 17:
            # one operand left to a lambda
            hole = d.below(ar)
            ys = [("_" if i == hole else x) for i, x in enumerate(xs)]
            out.append(wrap_show(f"({build(sym, ys)};{xs[hole]})"))
        elif k < 18:
            hole = d.below(ar)
            ys = [("a" if i == hole else x) for i, x in enumerate(xs)]
            seq = "[" + ";".join([xs[hole], g.expr(args[hole], 0)]) + "]"
            out.append(wrap_show(f"({{{build(sym, ys)}}} M {seq})"))
        elif k < 19 and ar == 2:
            out += [f"u:{xs[0]}", wrap_show(f"(u {sym}: {xs[1]})"),
                    wrap_show("u")]
        else:
            out += [f"u:{xs[0]}"]
            out.append(wrap_show(build(sym, ["u"] + xs[1:])))
            out.append(wrap_show("u"))
    return {"code": "\n".join(out) + "\n()"}


def op_family(keys, quick, depth=2, wild=12, name="operators", lines=(1, 3),
              rule=substantial):
    keys = [k for k in keys if HINTS[k]]

    def gen(d):
        return op_program(d, keys, depth, wild, lines)

    def check(case, ctx):
        e, _ = D.diff(case, ctx)
        if rule(case, e):
            ctx.nontrivial()
    return Family(name, gen, check, quick)


def program_family(quick, ops=None, name="programs", rule=None, fmt=True,
                   **kw):
    def gen(d):
        p = P.Prog(d, ops=ops, **kw)
        case = {"code": p.program()}
        if fmt and d.chance(20):
            case["fmt"] = d.pick("psPSnl")
        if d.chance(30):
            case["args"] = d.many(1, 3, lambda: Gen(d).scalar())
        return case
    return Family(name, gen, diff_check(rule or substantial), quick)


def keys(text, arity):
    return [(s, arity) for s in text.split()]


def both(text):
    """Every arity each symbol exists in."""
    return [(s, a) for s in text.split() for a in (1, 2, 3) if s in S.OPS[a]]


def each_keys():
    return [(s, a) for a in (1, 2) for s in S.OPS[a]
            if S.OPS[a][s].each and HINTS[s, a]]


# ---------------------------------------------------- running small programs

def run_lines(lines, fmt=None, argv=(), warn=False, stdin=""):
    """Output of a program given as statements (no comparison)."""
    code = "\n".join(lines)
    return T.run(None, (["-w"] if warn else []) +
                 (["-" + fmt] if fmt else []) + ["-e", code, "--"] +
                 list(argv), stdin)


# ------------------------------------------------------------ large operands

GROWING = {"CP", "CB", "PM", "MC", "EX", "EY", "BX", "RL", "CG", "ZG", "OG",
           "E", "EE", "**", "E10", "X"}
MEDIUM = [10, 11, 16, 17, 26, 27, 32, 33, 36, 37, 50, 64, 65, 99, 100, 101,
          127, 128, 129, 150, 200, 255, 256, 257, 300]


class Large(Gen):
    """Operands of a size that samples of small values never reach."""

    def __init__(self, d, top=300):
        Gen.__init__(self, d, {}, 0)
        self.top = top

    def length(self, top=4):
        d = self.d
        return min(d.pick(MEDIUM) if d.chance(60) else d.int(9, 320),
                   self.top)

    def num(self):
        d = self.d
        k = d.below(10)
        if k < 4:
            return Gen.num(self)
        if k < 6:
            return str(d.int(-2, 9) * 10 ** d.int(15, 70) + d.int(-3, 3))
        if k < 7:
            return str(2 ** d.int(30, 200) + d.int(-2, 2))
        return str(d.int(-10 ** 6, 10 ** 6))

    def small(self):
        d = self.d
        return str(d.pick(MEDIUM) * d.pick([1, -1]) + d.int(-1, 1)) \
            if d.chance(70) else Gen.small(self)

    def nat(self):
        d = self.d
        return str(d.pick(MEDIUM) + d.int(-1, 1)) if d.chance(60) \
            else Gen.nat(self)

    def string(self):
        d = self.d
        chars = d.pick(["ab", "abc ", WORDS, "01", "0123456789",
                        "".join(map(chr, range(32, 127))), "x\n", "aB,"])
        return "".join(d.pick(chars) for _ in range(self.length()))

    def rng(self):
        d = self.d
        if d.chance(50):
            return Rng(None, self.length())
        lo = d.int(-300, 300)
        return Rng(lo, lo + self.length())

    def distinct(self):
        """A list of many distinct numbers or texts, some of them twice."""
        d = self.d
        n = self.length() if d.chance(60) else min(d.int(200, 700), self.top * 2)
        lo, step = d.int(-50, 50), d.pick([1, 2, -1, 7])
        xs = [str(lo + step * i) for i in range(n)]
        if d.chance(30):
            xs = [d.pick("ab-") + x for x in xs]
        k = d.below(4)
        if k == 1:
            xs += xs[:d.int(1, 60)]
        elif k == 2:
            xs = xs[::2] + xs[1::2]
        elif k == 3:
            xs += xs[::-1]
        return tuple(xs)

    def value(self, kind, depth=2):
        d = self.d
        if kind == "L" and d.chance(25):
            return self.distinct()
        if kind in "TGL" and len(kind) == 1:
            if kind == "G":
                a, b = self.length(), d.int(1, 5)
                if d.chance(50):
                    a, b = b, a
                return tuple(tuple(str(d.int(0, 12)) for _ in range(b))
                             for _ in range(min(a, 120)))
            g = Gen(d)
            top = self.length()
            pool = [g.string() if kind == "T" else g.value(d.pick("nsnsN0"))
                    for _ in range(d.int(1, 12))]
            return tuple(d.pick(pool) for _ in range(top))
        if kind == "N" and d.chance(25):
            return self.distinct()
        if kind == "N":
            g = Gen(d)
            f = d.pick([g.num, lambda: str(d.int(-9, 9)),
                        lambda: str(d.int(-999, 999)), lambda: str(d.below(2))])
            return tuple(f() for _ in range(self.length()))
        if kind == "0":
            return None
        return Gen.value(self, kind, depth)


WORDS = "abcdefghij XYZ019-,."


def large_program(d, keys, need=""):
    """One operator with at least one large operand."""
    key = d.pick(keys)
    args = d.pick([a for a, _ in HINTS[key] if not need or
                   set(need) & set(a)])
    sym, ar = key
    big = Large(d, 12 if sym in GROWING else 330)
    g = Gen(d, {}, 0)
    must = d.pick([i for i, a in enumerate(args) if a in need]) if need \
        else d.below(ar)
    xs = []
    for i, a in enumerate(args):
        if a in "BbfF":
            xs.append(g.block(d.pick("Bbf") if a == "F" else a, 0))
        else:
            xs.append(lit((big if i == must or d.chance(40) else g).value(a)))
    names = "uvw"[:ar]
    lines = [f"{n}:{x};" for n, x in zip(names, xs)]
    return {"code": "\n".join(lines + [wrap_show(build(sym, list(names)))]) +
            "\n()"}


def large_family(keys, quick, name="large", need=""):
    keys = [k for k in keys if k[0] not in ("V", "RR", "EX") and
            any(not need or set(need) & set(a) for a, _ in HINTS[k])]

    def gen(d):
        return large_program(d, keys, need)

    def check(case, ctx):
        e, _ = D.diff(case, ctx)
        if not e.warns and len(e.out) > 3:
            ctx.nontrivial()
    return Family(name, gen, check, quick)
