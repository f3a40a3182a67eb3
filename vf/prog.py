"""Generator of whole programs: variables, lvalues, control flow, functions.

Programs are source text.  Every loop is bounded by construction, so a program
the reference finishes must finish in the interpreter too.
"""
from . import gen as G
from .gen import Gen, build, lit

GLOBALS = ["x", "y", "z", "i", "o", "l", "s", "t", "u", "v", "w", "m", "n",
           "h", "k", "p", "$x", "$ab_1", "AA", "QZ", "VV"]


class Prog:
    """One program.  vars: kind -> names usable as that kind (best effort)."""

    def __init__(self, d, wild=8, depth=2, ops=None, budget=14, cmds=True,
                 fnbody=False, locals_=("a", "b", "c", "d", "e"), loops=True):
        self.d = d
        self.vars = {}
        self.kinds = {}
        self.wild, self.depth, self.ops = wild, depth, ops
        self.left = budget
        self.cmds, self.locals, self.loops = cmds, list(locals_), loops
        self.reserved = set()
        self.g = Gen(d, self.vars, wild)

    # -- variables
    def note(self, name, kind):
        for k in self.vars.values():
            if name in k:
                k.remove(name)
        self.kinds[name] = kind
        for k in {kind, "*"} | ({"S"} if kind in "nsiu" else set()) | \
                ({"L", "I"} if kind in "NTGL" else set()) | \
                ({"I"} if kind in "sR" else set()) | \
                ({"n"} if kind in "iu" else set()):
            self.vars.setdefault(k, []).append(name)

    def name(self):
        d = self.d
        while True:
            pool = GLOBALS if d.chance(75) or not self.locals else self.locals
            n = d.pick(pool)
            if n not in self.reserved:
                return n
            self.reserved_hit = True
            return next(x for x in GLOBALS if x not in self.reserved)

    def known(self, kinds=None):
        names = [n for n, k in self.kinds.items()
                 if (kinds is None or k in kinds) and n not in self.reserved]
        return self.d.pick(names) if names else None

    def expr(self, kind, depth=None):
        return self.g.expr(kind, self.d.int(0, self.depth)
                           if depth is None else depth)

    def index(self):
        d = self.d
        k = d.below(12)
        if k < 7:
            return lit(self.g.small())
        if k < 9:
            return lit(self.g.value("R"))
        if k < 10:
            return d.pick(["(1,())", "((),-1)", "(-2,())", "()"])
        return self.expr("i", 1)

    def lvalue(self):
        """(text, kind or None) of an assignable place."""
        d = self.d
        n = self.known("NTGLs") if d.chance(75) else self.known()
        if n is None or d.chance(20):
            return self.name(), None
        k = d.below(14)
        if k < 4:
            return n, None
        if k < 8:
            return f"({n} @ {lit(self.g.small())})", None
        if k < 10:
            return f"(({n} @ {lit(self.g.small())}) @ {self.index()})", None
        if k < 11:
            return f"({n} @ {self.index()})", None
        if k < 12:
            return f"({n} {d.pick(['@<', '@>', 'H', 'S'])} " \
                   f"{lit(self.g.small())})", None
        if k < 13:
            return f"({d.pick(['@', '@<', '@>', 'H', 'S'])} {n})", None
        return f"({n} {lit(self.g.small())} {lit(self.g.small())})", None

    # -- statements
    def block(self, n=3):
        out = []
        for _ in range(self.d.int(1, n)):
            if self.left > 0:
                out.append(self.statement())
        return "{" + ";".join(out) + "}"

    def assign(self):
        d = self.d
        kind = d.weighted([(6, "n"), (4, "s"), (5, "N"), (3, "T"), (3, "L"),
                           (2, "G"), (2, "R"), (1, "P"), (1, "0"), (2, "F")])
        src = self.expr(kind)
        name = self.name()
        self.note(name, kind)
        return f"({name} : {src})" if d.chance(30) else f"{name}:{src}"

    def update(self):
        d = self.d
        k = d.below(20)
        tgt, _ = self.lvalue()
        if k < 7:
            return f"({tgt} : {self.expr('*')})"
        if k < 11:
            op = d.pick(["+", "-", "*", ".", "AE", "PE", "AL", "X", "RM", "%",
                         "//", "BX", "^", "J", "RL", "||", "\\|", "M", "@"])
            arg = {"X": "u", "RL": "u", "M": "B", "//": "n", "@": "i"}.get(op)
            return f"({tgt} {op}: {self.expr(arg or 'S')})"
        if k < 13:
            op = d.pick(["+", "-", "RV", "UQ", "SN", "FL", "LC", "UC", "#",
                         "!", "J", "^", "EN", "$+", "$."])
            return f"({op}: {tgt})"
        if k < 16:
            return f"({d.pick(['++', '--', 'U', 'D', 'PO', 'DQ'])} {tgt})"
        if k < 18:
            return f"({tgt} {d.pick(['PU', 'PB'])} {self.expr('*', 1)})"
        if k < 19:
            return f"({tgt} PK {lit(self.g.small())})"
        other, _ = self.lvalue()
        return f"({tgt} :: {other})"

    def destructure(self):
        d = self.d
        names = [self.name() for _ in range(d.int(1, 3))]
        for n in names:
            self.note(n, "*")
        if d.chance(40):
            n = self.known("NTGL")
            if n:
                names[0] = f"({n} @ {lit(self.g.small())})"
        return f"([{';'.join(names)}] {d.pick([':', ':', '::'])} " + \
            (self.expr(d.pick("NTLs")) if d.chance(70) else
             "[" + ";".join(self.name() for _ in names) + "]") + ")"

    def show(self):
        n = self.known()
        if n and self.d.chance(60):
            return f"P RP {n}"
        return f"P RP {self.expr('*')}" if self.d.chance(85) else \
            f"{self.d.pick(['P', 'O', 'YP', 'YO'])} {self.expr('*')}"

    def command(self):
        d = self.d
        k = d.below(12)
        if k < 4:
            s = f"I {self.expr(d.pick('nS*'), 1)} {self.block()}"
            if d.chance(60):
                s += f" EL {self.block()}"
            elif d.chance(30):
                s += f" EI {self.expr('n', 1)} {self.block(2)}" + \
                     (f" EL {self.block(2)}" if d.chance(50) else "")
            return s
        if k < 7:
            v = self.name()
            self.note(v, "*")
            if d.chance(15):
                v2 = self.name()
                self.note(v2, "*")
                v = f"[{v};{v2}]" if d.chance(70) else f"[{v} [{v2}]]"
                return f"F {v} {self.expr('G', 1)} {self.block()}"
            return f"F {v} {self.expr(d.pick('NRsTL'), 1)} {self.block()}"
        if k < 9:
            n = str(d.int(0, 4)) if d.chance(60) else lit(
                self.g.value(d.pick("uNsR0")))
            return f"L {n} {self.block()}"
        if k < 10:
            return f"LR {self.expr('P', 0)};{self.expr('s', 1)} {self.block()}"
        # bounded while/till: a reserved counter counts down
        c = next((x for x in ("$w", "$ww", "$www") if x not in self.reserved),
                 None)
        if c is None or not self.loops:
            return self.show()
        self.reserved.add(c)
        n = d.int(0, 4)
        if d.chance(50):
            cond = f"{c}" if d.chance(50) else f"({c} & {self.expr('n', 1)})"
            s = f"{c}:{n};W {cond} {{{c}:{c}-1;{self.block(2)[1:-1]}}}"
        else:
            cond = f"(!{c})" if d.chance(50) else \
                f"((!{c}) | {self.expr('n', 1)})"
            s = f"{c}:{n};T {cond} {{{c}:{c}-1;{self.block(2)[1:-1]}}}"
        self.reserved.discard(c)
        return s

    def call(self):
        d = self.d
        n = self.known("F")
        if n and d.chance(70):
            f = n
        else:
            f = self.g.block(d.pick("Bbf"))
        k = d.below(6)
        if k < 4:
            args = " ".join(self.expr(d.pick("nsN*"), 1)
                            for _ in range(d.int(0, 3)))
            return f"P RP ({f};{args})" if args and d.chance(50) else \
                f"P RP ({f} {args})" if args else f"P RP (V {f})"
        if k < 5:
            return f"P RP ({f} V {self.expr('L', 1)})"
        return f"P RP ({f} M {self.expr('N', 1)})"

    def function(self):
        """Define a function with its own body statements."""
        d = self.d
        name = self.name()
        sub = Prog(d, self.wild, min(self.depth, 1), self.ops, 3, self.cmds,
                   True)
        sub.note("a", "n")
        sub.note("b", "*")
        sub.reserved = self.reserved
        sub.loops = False
        body = [sub.statement() for _ in range(d.int(0, 2))]
        k = d.below(10)
        if k < 2:
            # bounded recursion through f or RE
            c = d.pick(["(f a - 1)", "(RE a - 1)", "(f;a - 1;b)"])
            body = [f"a:a BA 3"] + body + [
                f"(a ? ({c} {d.pick(['+', '.', 'AE'])} a) {lit(self.g.small())})"
                if d.chance(50) else f"I a {{P a;{c}}}"]
        else:
            body.append(sub.expr("*"))
        self.note(name, "F")
        return f"{name}:{{{';'.join(body)}}}"

    def statement(self):
        d = self.d
        self.left -= 1
        k = d.below(100)
        if self.ops and k < 25:
            return "P RP " + self.g.focus(self.ops, d.int(0, self.depth))
        if k < 30 or not self.kinds:
            return self.assign()
        if k < 52:
            return self.update()
        if k < 57:
            return self.destructure()
        if k < 72 and self.cmds:
            return self.command()
        if k < 77:
            return self.function()
        if k < 84:
            return self.call()
        return self.show()

    def program(self, n=8):
        d = self.d
        out = []
        for _ in range(d.int(1, n)):
            if self.left > 0:
                out.append(self.statement())
        names = sorted(self.kinds)
        out += [f"P RP {n}" for n in names[:8]]
        if d.chance(15):
            out.append(self.expr("*"))
        return "\n".join(out)
