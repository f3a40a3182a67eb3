"""P11: updates through lvalues change exactly what they name."""
from ..common import *
from ..engine import Suite

NAMES = ["x", "y", "l", "s", "u", "$ab_1", "QZ"]


class Updates(P.Prog):
    """Programs made almost only of assignments, each followed by a look at
    every variable."""

    def value(self):
        d = self.d
        return self.g.value(d.weighted(
            [(8, "L"), (4, "N"), (3, "T"), (8, "G"), (3, "s"), (1, "n"),
             (2, "R"), (1, "P"), (1, "0")]), 3)

    def index(self):
        d = self.d
        k = d.below(16)
        if k < 9:
            return lit(self.g.small())
        if k < 11:
            return lit(self.g.value("R"))
        if k < 13:
            return d.pick(["(1,())", "((),-1)", "(-2,())", "()", "(-3,-1)",
                           "(0,2)", "(,0)", "(1,1)", "((),2)", "(5,9)", "\"1\"",
                           "1.5", "(-9,2)", "[1;0]", "[0;0]", "[-1;0;1]"])
        if k < 15:
            return "[" + ";".join(lit(self.g.small()) for _ in range(
                d.int(1, 3))) + "]"
        return self.expr("i", 1)

    def place(self):
        d = self.d
        n = self.known()
        k = d.below(20)
        if k < 3:
            return n
        if k < 9:
            return f"({n} @ {self.scalar_index()})"
        if k < 12:
            return f"(({n} @ {self.scalar_index()}) @ {self.index()})"
        if k < 13:
            return f"((({n}@{self.scalar_index()})@{self.scalar_index()})@" \
                   f"{self.index()})"
        if k < 16:
            return f"({n} @ {self.index()})"
        if k < 17:
            return f"({n} {d.pick(['@<', '@>', 'H', 'S'])} " \
                   f"{lit(self.g.small())})"
        if k < 18:
            return f"({d.pick(['@', '@<', '@>', 'H', 'S'])} {n})"
        if k < 19:
            return f"({n} {lit(self.g.small())} {lit(self.g.small())})"
        return f"({n} {lit(self.g.small())} {self.index()})"

    def scalar_index(self):
        if self.d.chance(7):
            # found by something that can be seen to happen once, in turn
            return self.d.pick(["q", "(++i)", "(i+:1)", "(PO t)", "(O 1)",
                                "(--i)", "(t PK 0)", "{++i;0}()" * 0 or
                                "({++i} 7)", "(DQ t)"])
        return lit(self.g.small()) if self.d.chance(85) else \
            self.expr("i", 1)

    def source(self):
        d = self.d
        k = d.below(10)
        if k < 5:
            return lit(self.value())
        if k < 8:
            return self.place()
        return self.expr("*", 1)

    OPS = ["+", "-", "*", ".", "AE", "PE", "AL", "X", "RM", "%", "//", "BX",
           "^", "J", "RL", "||", "@", "M", "<", "CM", "WV", "Z", "??"]

    def step(self):
        d = self.d
        k = d.below(40)
        t = self.place()
        if k < 12:
            return f"({t} : {self.source()})"
        if k < 17:
            op = d.pick(self.OPS[:-1])
            arg = lit(self.g.nat()) if op in ("X", "RL") else \
                self.g.block("B") if op == "M" else self.source()
            return f"({t} {op}: {arg})"
        if k < 20:
            return f"({d.pick(['+', '-', 'RV', 'UQ', 'SN', 'FL', 'LC', 'UC', '#', '!', 'J', '^', 'EN', '$+', '$.', 'Z', 'RP', '-*', '#*'])}: {t})"
        if k < 24:
            return f"({d.pick(['++', '--', 'U', 'D', 'PO', 'DQ'])} {t})"
        if k < 27:
            return f"({t} {d.pick(['PU', 'PB'])} {self.source()})"
        if k < 29:
            return f"({t} PK {self.index()})"
        if k < 31:
            return f"({t} :: {self.place()})"
        if k < 36:
            ts = d.many(1, 3, self.target)
            return f"([{';'.join(ts)}] {d.pick([':', ':', '::'])} " + \
                (self.source() if d.chance(60) else
                 "[" + ";".join(self.place() for _ in ts) + "]") + ")"
        if k < 38:
            v = self.target()
            return f"F {self.known()} {lit(self.value())} {{{self.inner()}}}"
        return f"({{{self.inner()}}} M {self.known()})"

    def target(self):
        return self.place() if self.d.chance(85) else \
            f"[{self.place()};{self.place()}]"

    def inner(self):
        return f"{self.place()} : {self.source()}"


def gen(d):
    p = Updates(d, wild=6, depth=1)
    lines = ["t:[0;1;2;-1;1;0]"] if d.chance(50) else []
    for n in NAMES[:d.int(1, 3)]:
        v = p.value()
        lines.append(f"{n}:{lit(v)}")
        p.note(n, "L")
    every = "P RP [" + ";".join(sorted(p.kinds)) + "]"
    for _ in range(d.weighted([(4, 1), (4, 2), (2, 3), (2, 5), (1, 8)])):
        s = p.step()
        lines.append(s if s[:2] == "F " or d.chance(30) else "P RP " + s)
        lines.append(every)
    case = {"code": "\n".join(lines + ["P RP [i;t]"]) + "\n()"}
    if "q" in case["code"]:
        case["stdin"] = [str(d.int(-2, 3)) for _ in range(6)]
    return case


def rule(case, e):
    return e.out.count("\n") > 1 and e.out.strip("()[];\n") != ""


# ------------------------------------------------- several places at once

MANY = ["x", "y", "l", "s", "u", "v", "w", "z", "o", "t", "h", "k", "m", "i",
        "$ab", "$c", "$a_1", "QZ", "AA", "BZ", "a", "b", "c", "d", "e"]


def several(d):
    """Lists of up to thirty places, nested and repeated, under everything
    that can be done to a place."""
    p = Updates(d, wild=6, depth=1)
    pool = MANY[:d.weighted([(3, 2), (3, 4), (2, 9), (2, len(MANY))])]
    lines = [f"{n}:{lit(p.value()) if d.chance(35) else p.g.small()}"
             for n in pool]
    for n in pool:
        p.note(n, "L")

    def group(deep=1):
        if len(pool) > 8 and deep and d.chance(50):
            xs = pool[:d.int(9, len(pool))] if d.chance(50) else \
                [d.pick(pool) for _ in range(d.int(9, 30))]
        else:
            xs = [p.place() if d.chance(25) else d.pick(pool)
                  for _ in range(d.int(1, 4))]
        if deep:
            xs = [group(0) if d.chance(10) else x for x in xs]
        return "[" + ";".join(xs) + "]"

    def place():
        t = group()
        k = d.below(9)
        if k < 5:
            return t
        i = d.pick(["0", "1", "-1", "2", "(0,2)", "(1,())", "(-2,())",
                    "((),-1)", "7", "[0;1]", "(,0)", p.index()])
        return f"({t}@{i})" if k < 8 else \
            f"({d.pick(['@', '@<', '@>', 'H', 'S'])} {t})"

    def source():
        k = d.below(8)
        if k < 3:
            return "[" + ";".join(p.place() if d.chance(30) else d.pick(pool)
                                  for _ in range(d.int(1, 12))) + "]"
        if k < 5:
            return d.pick([",30", "(3,9)", "z", "()", "7", "[]", "(1,())",
                           '"abcdefghijklmnop"', "{a}", "`a`", ",0"])
        return group() if k < 7 else lit(p.value())

    for _ in range(d.int(1, 3)):
        t = place()
        k = d.below(20)
        if k < 7:
            e = f"({t} : {source()})"
        elif k < 9:
            e = f"({t} :: {place()})"
        elif k < 12:
            e = f"({d.pick(['PO', 'DQ', '++', '--', 'U', 'D', 'Y'])} {t})"
        elif k < 14:
            e = f"({t} {d.pick(['PU', 'PB'])} {source()})"
        elif k < 15:
            e = f"({t} PK {d.pick(['0', '1', '-1', '5'])})"
        elif k < 18:
            e = f"({t} {d.pick(['+', '.', 'AE', '-', 'AL', 'RL', '@', 'PE'])}:" \
                f" {d.pick(['1', '2', '[1;2]', ',3', source()])})"
        elif k < 19:
            e = f"({d.pick(['RV', 'UQ', '+', '$+', 'SN', '#', '-*', 'FL'])}: {t})"
        else:
            e = f"F {group()} [[1;2;3];[4];(5,7);8] {{P RP [{';'.join(pool)}]}}"
        lines += [e if e[0] == "F" or d.chance(40) else "P RP " + e,
                  "P RP [" + ";".join(pool) + "]"]
    return {"code": ";\n".join(lines) + "\n()"}


# ---------------------------------------------- op: is assignment of op

BINOPS = sorted(s for s in S.OPS[2] if (s, 2) in HINTS and
                (s, 2) not in G.IMPURE and s != "RR")
UNOPS = sorted(s for s in S.OPS[1] if (s, 1) in HINTS and
               (s, 1) not in G.IMPURE and s not in ("RR", "RC", "SH", "RE",
                                                    "SQ", "ST", "RP"))


def compound(d):
    g = Gen(d, {}, 8)
    init = lit(g.value(d.pick("NLGTsn")))
    place = d.pick(["u", "u", f"(u@{g.small()})",
                    f"((u@{g.small()})@{g.small()})", "(u@(1,3))",
                    f"(u@<{g.nat()})"])
    if d.chance(65):
        sym = d.pick(BINOPS)
        alts = HINTS[sym, 2]
        arg = d.pick(alts)[0][1] if alts else "*"
        arg = g.expr(arg, d.int(0, 1))
        one, two = f"({place} {sym}: {arg})", f"({place} : ({place} {sym} {arg}))"
    else:
        sym = d.pick(UNOPS)
        if d.chance(30):
            sym = d.pick(["$+", "$.", "\\$+", "$<", sym + "*"])
        one, two = f"({sym}: {place})", f"({place} : ({sym} {place}))"
    return {"init": init, "one": one, "two": two}


def compound_check(case, ctx):
    progs = [f"u:{case['init']}\nw:u\nP RP {x}\nP RP u\nP RP w\n()"
             for x in (case["one"], case["two"])]
    D.expected({"code": progs[0]})
    D.expected({"code": progs[1]})
    a, b = (T.run(p, ["-w", "--"]) for p in progs)
    if (a.out, a.status) != (b.out, b.status) or \
            bool(D.clean(a.err)) != bool(D.clean(b.err)):
        raise Violation(f"op: is not assignment of the result:\n  "
                        f"{progs[0]!r} gives {a}\n  {progs[1]!r} gives {b}")
    if not a.err:
        ctx.nontrivial()


# ------------------------------------------------- frame condition sweep

def frames(tier):
    inits = ["[1;[2;3;[4;5]];\"abc\";(2,6);()]", '"abcdef"', "[[1;2];[3;4]]",
             "(1,5)", "12345", "[]", '""', "[`a`;{a};(1,())]", "()",
             "[1;2;3]"]
    idx = ["0", "1", "2", "3", "(-1)", "(-2)", "7", "(-9)", "(0,2)", "(1,())",
           "((),-1)", "(,0)", "(-2,())", "(4,2)", "(6,9)", "[0;-1]", "[1;1]",
           "()", '"x"', "1.7", "[]"]
    vals = ["9", "()", '"xy"', "[7;8]", "u", "[]", "(0,3)"]
    ex = []
    for i in inits:
        for x in idx:
            for v in vals:
                ex.append(f"u:{i} w:u (u@{x}):{v} P RP[u;w]")
            for f in ("++(u@%s)", "(u@%s)+:10", "(u@%s)PU 5", "(PO(u@%s))",
                      "(u@%s) .: \"z\"", "(u@%s)::w", "(u@%s)@0:8",
                      "(u@1@%s):6", "(u@0@%s)+:6", "(u PK %s)", "(u H %s):3",
                      "(u S %s):3", "(u@<%s):4", "(u@>%s):[4;5]", "(RV:(u@%s))",
                      "[(u@%s);y]:[1;2]", "y:8 (u@%s)::y P y", "(u@%s) AL: w",
                      "(u@%s) PB w", "(DQ(u@%s))"):
                ex.append(f"u:{i} w:u P RP " * ("P y" not in f) +
                          f"u:{i} w:u " * ("P y" in f) + f % x +
                          " P RP[u;w]")
    return [{"stmts": c} for c in chunks(ex, 14)]


def frames_check(case, ctx):
    prog = {"code": "\n".join(case["stmts"]) + "\n()"}
    try:
        D.diff(prog, ctx)
    except Discard:
        if len(case["stmts"]) == 1:
            raise
        for x in case["stmts"]:
            try:
                frames_check({"stmts": [x]}, ctx)
            except Discard:
                pass
        return
    ctx.nontrivial()


def suite():
    fr = Family("frames", enum=frames, check=frames_check)
    fr.split = lambda c: [{"stmts": [x]} for x in c["stmts"]]
    return Suite("P11", [
        fr,
        Family("histories", gen, diff_check(rule), 16000),
        Family("several", several, diff_check(rule), 8000),
        Family("compound", compound, compound_check, 8000),
    ], "Histories of assignments, compound assignments, swaps, destructuring, "
       "pushes and pops through variables, items, nested items and slices, "
       "all variables shown after each step and compared with a reference "
       "on immutable values; a sweep of 200+ targets x 27 updates; op: against "
       "assignment of op; non-trivial: distinct program that prints values.",
       BASE_ASSUMPTIONS)
