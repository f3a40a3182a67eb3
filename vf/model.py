"""Reference interpreter for Pip (the oracle).

Written from the language's documented behaviour over immutable values; shares
no code with /repo.  `Interp.warns` counts the non-fatal errors the program
runs into, `Interp.out` collects the output.
"""
from fractions import Fraction
import itertools
import math
import re

from . import syntax as S
from .values import *          # noqa: F401,F403
from .values import NoItem
from . import values as V

_CON = "bcdfghjklmnpqrstvwxyz"


def constants():
    name = lambda n: Blk((), ("name", n))
    return {
        "_": name("a"), "h": "100", "i": "0", "k": ", ", "l": (), "m": "1000",
        "n": "\n", "o": "1", "p": "()", "s": " ", "t": "10", "u": None,
        "v": "-1", "w": Pat(r"\s+"), "x": "", "y": "",
        "z": "abcdefghijklmnopqrstuvwxyz", "B": name("b"), "G": name("g"),
        "AZ": "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "CZ": _CON,
        "PA": "".join(map(chr, range(32, 127))), "PI": "3.141592653589793",
        "VW": "aeiou", "VY": "aeiouy", "XA": Pat("[a-z]", I),
        "XC": Pat("[" + _CON + "]"), "XD": Pat(r"\d"), "XI": Pat(r"-?\d+"),
        "XL": Pat("[a-z]"), "XN": Pat(r"-?\d+(?:\.\d+)?"), "XU": Pat("[A-Z]"),
        "XV": Pat("[aeiou]"), "XW": Pat(r"\w"), "XX": Pat("."),
        "XY": Pat("[aeiouy]"),
    }


class LV:
    """A reference to (part of) a variable, or a tuple of references."""
    __slots__ = ("base", "path", "cache")

    def __init__(self, base, path=(), cache=None):
        self.base, self.path, self.cache = base, tuple(path), cache

    def sub(self, index):
        if isinstance(self.base, tuple):
            return LV(cut(self.base, index.start, index.stop))
        return LV(self.base, self.path + (index,), self.cache)


LITS = {
    "num": lambda t: t,
    "str": lambda t: t[1:-1],
    "chr": lambda t: t[1],
    "pat": lambda t: Pat(t[1:-1].replace("\\`", "`")),
    "esc": lambda t: t[2:-2].replace("\\\\", "\\"),
    "nil": lambda t: None,
}
OPF = {1: {}, 2: {}, 3: {}}


def op(sym, *arities):
    def deco(f):
        for a in arities:
            assert sym not in OPF[a], (sym, a)
            OPF[a][sym] = f
        return f
    return deco


def alias(new, a_new, old, a_old):
    OPF[a_new][new] = OPF[a_old][old]


class Interp:
    def __init__(self, args=(), fmt=None, stdin=(), fuel=20000, main=None):
        self.fmt, self.args, self.main = fmt, tuple(args), main
        self.stdin = list(stdin)
        self.out, self.warns, self.fuel = [], 0, fuel
        self.scopes = [{}]
        self.fns = [None]
        self.wipe()

    def wipe(self):
        self.vars = constants()
        self.vars["\\g"] = self.args
        for n, a in zip("abcde", self.args):
            self.vars["\\" + n] = a
        self.vars["\\f"] = self.main

    # -- helpers ---------------------------------------------------------
    def warn(self, *_):
        self.warns += 1

    def bad(self, *_):
        self.warns += 1
        return None

    def burn(self, n=1):
        self.fuel -= n
        if self.fuel < 0:
            raise Skip("too many steps")

    def text(self, v):
        return V.text(v, self.fmt)

    def emit(self, s):
        self.out.append(s)
        self.burn(len(s) // 50)

    def output(self):
        return "".join(self.out)

    # -- programs --------------------------------------------------------
    def run(self, stmts, args=None):
        if args is not None:
            self.args = tuple(args)
        if not stmts:
            return
        self.main = from_ast(stmts)
        self.wipe()
        self.print(self.call(self.main, list(self.args)))

    def print(self, v):
        if v is not None:
            self.emit(self.text(v) + "\n")

    def call(self, fn, args):
        self.burn()
        if len(self.scopes) > 60:
            raise Skip("deep recursion")
        args = [self.deref(a) for a in args]
        scope = dict(zip("abcde", args))
        scope["f"], scope["g"] = fn, tuple(args)
        self.scopes.append(scope)
        self.fns.append(fn)
        for st in fn.stmts:
            val = self.statement(st)
            if st[0] != "cmd":
                self.remember(val)
        result = self.rv(fn.ret)
        self.scopes.pop()
        self.fns.pop()
        return result

    def remember(self, val):
        scope = self.scopes[-1]
        if "$_" in scope:
            if "$__" in scope:
                scope["$___"] = scope["$__"]
            scope["$__"] = scope["$_"]
        scope["$_"] = val

    def statement(self, st):
        self.burn()
        if st[0] == "cmd":
            return getattr(self, "cmd_" + st[1])(*st[2])
        return self.rv(st)

    def body(self, stmts):
        for st in stmts:
            self.statement(st)

    # -- variables -------------------------------------------------------
    def table(self, name):
        if len(name) == 1 and name in "abcdefg" or \
                name.startswith("$_") and set(name[1:]) == {"_"}:
            return self.scopes[-1]
        return self.vars

    def rv(self, node):
        """Value of an expression."""
        return self.deref(self.ev(node))

    def deref(self, x):
        """Value of a reference (values pass through)."""
        if not isinstance(x, LV):
            return x
        if isinstance(x.base, tuple):
            return tuple(self.deref(b) for b in x.base)
        if x.base == "q":
            if x.cache is None:
                x.cache = [self.stdin.pop(0) if self.stdin else None]
            v = x.cache[0]
        elif x.base == "r":
            raise Skip("random")
        else:
            t = self.table(x.base)
            if x.base not in t:
                if x.base in ("VD", "VN"):
                    raise Skip("version")
                return self.bad("uninitialised")
            v = t[x.base]
        for index in x.path:
            v = self._step(v, index)
            if v is NOPE:
                return None
        return v

    def _step(self, v, index):
        if not isinstance(v, ITERABLE):
            self.warn()
            return NOPE
        try:
            return get(v, index)
        except NoItem:
            self.warn()
            return NOPE

    def assign(self, lv, val):
        self.burn()
        if isinstance(lv.base, tuple):
            if isinstance(val, Blk):
                return self.warn()
            if isinstance(val, Pat):
                vals = list(val.raw)
            elif val is None:
                vals = []
            elif isinstance(val, Rng) and not val.finite:
                vals = [str(val.base + k) for k in range(len(lv.base) + 1)]
            else:
                vals = items(val)
            for k, target in enumerate(lv.base):
                if k < len(vals):
                    self.assign(target, vals[k])
                else:
                    self.warn()
                    self.assign(target, None)
            if len(vals) > len(lv.base):
                self.warn()
            return
        if lv.base == "q":
            return self.warn()
        if lv.base == "r":
            if lv.path:
                return self.warn()
            raise Skip("random")
        t = self.table(lv.base)
        if not lv.path:
            t[lv.base] = val
            return
        if lv.base not in t:
            return self.warn()
        cur = t[lv.base]
        if isinstance(cur, Rng):
            if not cur.finite:
                return self.warn()
            try:
                t[lv.base] = self._put(tuple(items(cur)), lv.path, val)
            except NoItem:
                self.warn()
            return
        if not isinstance(cur, (tuple, str)):
            return self.warn()
        try:
            t[lv.base] = self._put(cur, lv.path, val)
        except NoItem:
            self.warn()

    def _put(self, cur, path, val):
        """cur with the item/slice at path replaced by val (else NoItem)."""
        index, rest = path[0], path[1:]
        if rest:
            if cur is None:
                return self._put(None, rest, val)
            if not isinstance(cur, ITERABLE):
                raise NoItem
            inner = get(cur, index)
            new = self._put(inner, rest, val)
            if isinstance(cur, tuple) and isinstance(index, int):
                k = index % len(cur)
                return cur[:k] + (new,) + cur[k + 1:]
            return cur              # a slice or character is a copy: no effect
        if isinstance(cur, tuple):
            if isinstance(index, int):
                if not cur:
                    raise NoItem
                k = index % len(cur)
                return cur[:k] + (val,) + cur[k + 1:]
            if isinstance(val, Blk):
                raise NoItem
            new = list(cur)
            new[index] = ([] if val is None else list(val.raw)
                          if isinstance(val, Pat) else items(val))
            return tuple(new)
        if isinstance(cur, str):
            if isinstance(index, int):
                if not cur:
                    raise NoItem
                k = index % len(cur)
                return cur[:k] + self.text(val) + cur[k + 1:]
            new = list(cur)
            new[index] = list(self.text(val))
            return "".join(new)
        raise NoItem

    # -- expressions -----------------------------------------------------
    def ev(self, e):
        """Evaluate to a value or a reference."""
        self.burn()
        k = e[0]
        if k == "lit":
            return LITS[e[1]](e[2])
        if k == "name":
            return LV(e[1])
        if k in ("val", "ref"):
            return e[1]
        if k == "paren":
            return self.ev(e[1])
        if k == "block":
            return from_ast(e[1])
        if k == "list":
            got = [self.ev(x) for x in e[1]]
            if got and all(isinstance(g, LV) for g in got):
                return LV(tuple(got))
            return tuple(self.deref(g) for g in got)
        if k == "send":
            return self.send([self.ev(x) for x in e[1]])
        if k == "chain":
            return self.chain(list(e[1]))
        return self.apply(e[1], list(e[2]))

    def send(self, got):
        head, tail = got[0], got[1:]
        hv = self.deref(head)
        if isinstance(hv, Blk):
            return self.call(hv, tail)
        if isinstance(head, LV) or isinstance(head, ITERABLE):
            for index in tail:
                head = at_op(self, head, index)
            return head
        return self.bad()

    def chain(self, parts):
        parts = [p if isinstance(p, S.Op) else self.rv(p) for p in parts]
        if any(isinstance(p, Blk) for p in parts):
            stmts, out = [], []
            for p in parts:
                if isinstance(p, Blk):
                    stmts.extend(p.stmts)
                    out.append(p.ret)
                else:
                    out.append(p if isinstance(p, S.Op) else ("val", p))
            return Blk(stmts, ("chain", out))
        result = "1"
        for i in range(1, len(parts), 2):
            result = self.apply(parts[i], [("val", parts[i - 1]),
                                           ("val", parts[i + 1])])
            if not truthy(result):
                break
        return result

    def apply(self, op, args):
        """Apply operator op to argument expressions."""
        self.burn()
        if op.assign:
            lv = self.ev(args[0])
            node = ("ref", lv) if isinstance(lv, LV) else ("val", lv)
            result = self.apply(op.but(assign=False), [node] + args[1:])
            return assign_op(self, lv, result)
        if op.map:
            return self.mapmeta(op, args[0])
        if op.fold or op.scan:
            return self.foldmeta(op, args[0])
        info = op.info
        if info.mode == "lazy":
            return OPF[info.arity][op.sym](self, *args)
        if info.mode == "rv":
            got = [self.rv(a) for a in args]
        else:
            got = [self.ev(a) for a in args]
        # functions among the operands: build a new function
        if info.lam:
            vals = [self.deref(g) for g in got]
            if any(isinstance(v, Blk) for v in vals):
                stmts, new = [], []
                for v in vals:
                    if isinstance(v, Blk):
                        stmts.extend(v.stmts)
                        new.append(v.ret)
                    else:
                        new.append(("val", v))
                return Blk(stmts, ("op", op, new))
        if info.each:
            kinds = (tuple, Rng) if info.each == "range" else (tuple,)
            mask = [isinstance(g, kinds) for g in got]
            one = lambda *vs: self.apply(op, [("val", v) for v in vs])
            if any(mask):
                if len(got) == 1:
                    return self.sized(tuple(one(x) for x in items(got[0])))
                if len(got) == 2:
                    l, r = got
                    if mask == [True, True]:
                        l, r = items(l), items(r)
                        n = min(len(l), len(r))
                        return self.sized(tuple(
                            [one(x, y) for x, y in zip(l, r)]
                            + l[n:] + r[n:]))
                    if mask[0]:
                        return self.sized(tuple(one(x, r) for x in items(l)))
                    return self.sized(tuple(one(l, x) for x in items(r)))
        try:
            out = OPF[info.arity][op.sym](self, *got)
        except BadRegex:
            out = self.bad()
        return self.sized(out)

    def sized(self, out):
        """Charge for the size of a result (parts may be shared)."""
        if isinstance(out, str):
            self.burn(len(out) // 50)
        elif isinstance(out, tuple):
            seen = {}

            def weigh(v):
                if not isinstance(v, tuple):
                    return 1
                n = seen.get(id(v))
                if n is None:
                    n = seen[id(v)] = 1 + sum(map(weigh, v))
                return n
            self.burn(weigh(out) // 50)
        return out

    def mapmeta(self, op, arg):
        v = self.rv(arg)
        if isinstance(v, Blk):
            return Blk(v.stmts, ("op", op, [v.ret]))
        if isinstance(v, ITERABLE):
            inner = op.but(map=False)
            return tuple(self.deref(self.apply(inner, [("val", x)]))
                         for x in items(v))
        return None if v is None else self.bad()

    def foldmeta(self, op, arg):
        v = self.rv(arg)
        if isinstance(v, Blk):
            return Blk(v.stmts, ("op", op, [v.ret]))
        if v is None:
            return None
        if not isinstance(v, ITERABLE):
            return self.bad()
        if isinstance(v, Rng) and not v.finite:
            return self.bad()
        xs = items(v)
        info = S.OPS[2][op.sym]
        if not xs:
            return () if op.scan else info.default
        inner = S.Op(op.sym, 2)
        acc = []
        if info.assoc == "C":
            acc.append("1")
            for n in range(2, len(xs) + 1):
                if op.fold and n < len(xs):
                    continue
                parts = [("val", xs[0])]
                for x in xs[1:n]:
                    parts += [inner, ("val", x)]
                acc.append(self.chain(parts))
        elif info.assoc == "L":
            acc.append(xs[0])
            for x in xs[1:]:
                acc.append(self.apply(inner, [self.node(acc[-1]), ("val", x)]))
        else:
            acc.append(xs[-1])
            for x in xs[-2::-1]:
                acc.append(self.apply(inner, [("val", x), self.node(acc[-1])]))
        if op.fold:
            return acc[-1]
        acc = [self.deref(a) for a in acc]
        return tuple(acc if info.assoc != "R" else acc[::-1])

    @staticmethod
    def node(x):
        return ("ref", x) if isinstance(x, LV) else ("val", x)

    # -- commands --------------------------------------------------------
    def cmd_F(self, var, seq, code):
        var, seq = self.ev(var), self.rv(seq)
        if isinstance(seq, Blk):
            return self.warn()
        for x in ([] if seq is None else list(seq.raw)
                  if isinstance(seq, Pat) else items(seq)):
            self.assign(var, x)
            self.body(code)

    def cmd_I(self, cond, code, other):
        self.body(code if truthy(self.rv(cond)) else other)

    def cmd_L(self, count, code):
        n = self.rv(count)
        if n is None:
            return
        if isinstance(n, str):
            n = int_of(n)
        elif isinstance(n, (tuple, Rng)):
            n = size(n)
        else:
            return self.warn()
        for _ in range(n):
            self.burn()
            self.body(code)

    def cmd_LR(self, regex, string, code):
        regex, string = self.rv(regex), self.rv(string)
        regex, string = self.regex_pair(regex, string)
        if not (isinstance(regex, Pat) and isinstance(string, str)):
            return self.warn()
        try:
            found = self.matches(regex, string)
        except BadRegex:
            return self.warn()
        for m in found:
            self.set_match(m)
            self.body(code)

    def cmd_T(self, cond, code):
        while not truthy(self.rv(cond)):
            self.body(code)

    def cmd_W(self, cond, code):
        while truthy(self.rv(cond)):
            self.body(code)

    def cmd_WG(self):
        self.wipe()

    # -- regexes ---------------------------------------------------------
    def regex_pair(self, regex, string):
        if isinstance(regex, str) and isinstance(string, Pat):
            return string, regex
        if isinstance(regex, str):
            return self.to_pattern(regex), string
        return regex, string

    def matches(self, pat, string):
        self.burn(1 + len(string) // 10)
        return list(pat.regex().finditer(string))

    def set_match(self, m):
        groups = list(m.groups())
        g = self.vars
        g["$$"] = tuple(groups)
        allg = [m.group()] + groups
        for i in range(10):
            g["$%d" % i] = allg[i] if i < len(allg) else None
        g["$("], g["$)"] = str(m.start()), str(m.end())
        g["$`"], g["$'"] = m.string[:m.start()], m.string[m.end():]
        g["$["] = tuple(str(m.start(i + 1)) for i in range(len(groups)))
        g["$]"] = tuple(str(m.end(i + 1)) for i in range(len(groups)))
        return allg

    def to_pattern(self, v):
        if isinstance(v, Pat):
            return v
        if isinstance(v, str):
            return Pat(re.escape(v)).wrapped()
        if isinstance(v, Rng):
            return Pat("|".join(re.escape(x) for x in items(v))).wrapped()
        if isinstance(v, tuple):
            return Pat("|".join(self.text(self.to_pattern(x))
                                for x in v)).wrapped()
        return self.bad()


NOPE = object()


# ======================================================================
# Operators
# ======================================================================

def isnum(*vs):
    return all(isinstance(v, str) for v in vs)


def numeric(sym, f, arity=1):
    """Operator on Scalars taken as numbers; anything else is nil."""
    def run(m, *vs):
        if not isnum(*vs):
            return m.bad()
        nums = [num_of(v) for v in vs]
        try:
            r = f(*nums)
        except ZeroDivisionError:
            return m.bad()
        except (OverflowError, ValueError):
            return m.bad()
        return m.bad() if r is None else sc(r)
    OPF[arity][sym] = run


def floor_(x):
    return math.floor(x)


numeric("AB", abs)
numeric("AD", lambda a, b: abs(a - b), 2)
numeric("AT", math.atan)
numeric("AT", math.atan2, 2)
numeric("CS", lambda a: 1 / math.sin(a))
numeric("CO", math.cos)
numeric("CT", lambda a: 1 / math.tan(a))
numeric("SE", lambda a: 1 / math.cos(a))
numeric("SI", math.sin)
numeric("TA", math.tan)
numeric("LB", lambda a: math.log2(a) if a > 0 else None)
numeric("LD", lambda a: math.log10(a) if a > 0 else None)
numeric("LN", lambda a: math.log(a) if a > 0 else None)
numeric("DG", lambda a: a / math.pi * 180)
numeric("RD", lambda a: a / 180 * math.pi)
numeric("DB", lambda a: a * 2)
numeric("SQ", lambda a: a * a)
numeric("EX", math.exp)
numeric("HV", lambda a: math.floor(a // 2))
numeric("HU", lambda a: math.ceil(-(-a // 2)))
numeric("/", lambda a: 1 / a)
numeric("/", lambda a, b: a / b, 2)
numeric("//", lambda a, b: a // b, 2)
numeric("%", lambda a, b: a % b, 2)
numeric("%", lambda a: a % 2)
numeric("SG", lambda a: (a > 0) - (a < 0))
numeric("RT", lambda a: None if a < 0 else a ** 0.5)


def _pow(a, b):
    if abs(a) > 1 and isinstance(a, int) and isinstance(b, int) and b > 0 \
            and b * abs(a).bit_length() > 12000:
        raise Skip("huge power")
    if a == 0 and b < 0:
        return None
    if a < 0 and b != int(b):
        return None
    return a ** b


def _ten(a, b):
    if b > 3000 and isinstance(b, int):
        raise Skip("huge power")
    return a * 10 ** b


def _root(n, x):
    if n == 0 or x < 0 and int(1 / n) != 1 / n or x == 0 and n < 0:
        return None
    if isinstance(x, int) and isinstance(n, float) and abs(n) < 1e-3:
        raise Skip("huge power")
    return x ** (1 / n)


numeric("**", _pow, 2)
numeric("**", lambda a: _pow(2, a))
numeric("E", lambda a: _pow(2, a))
numeric("E", _pow, 2)
numeric("EE", _ten, 2)
numeric("EE", lambda a: _ten(1, a))
numeric("RT", _root, 2)


def _bits(sym, f, arity):
    def run(m, *vs):
        return sc(f(*map(int_of, vs))) if isnum(*vs) else m.bad()
    OPF[arity][sym] = run


_bits("BA", lambda a, b: a & b, 2)
_bits("BO", lambda a, b: a | b, 2)
_bits("BX", lambda a, b: a ^ b, 2)
_bits("BN", lambda a: -a - 1, 1)
_bits("BL", lambda a: len(bin(abs(a))) - 2 if a else 0, 1)


def rounding(sym, whole, multiple):
    def run(m, a, b="1"):
        if not isnum(a, b):
            return m.bad()
        prec = abs(num_of(b))
        if prec == 0:
            return a
        x = num_of(a)
        if isinstance(x, int) and isinstance(prec, int):
            # whole numbers are exact at any size
            return sc(whole(Fraction(x, prec)) * prec)
        try:
            return sc(whole(x) if prec == 1 else multiple(x, prec))
        except (OverflowError, ValueError, ZeroDivisionError):
            return m.bad()
    OPF[1][sym] = OPF[2][sym] = run


rounding("|<", math.floor, lambda x, p: math.floor(x / p) * p)
rounding(">|", math.ceil, lambda x, p: math.ceil(x / p) * p)
rounding("RZ", math.trunc, lambda x, p: math.trunc(x / p) * p)


def _nearest(x):
    """Nearest integer; a tie goes to the even one's side as IEEE remainder."""
    if isinstance(x, Fraction):
        return round(x)
    return math.floor(x) if math.remainder(x, 1) > 0 else math.ceil(x)


rounding("RN", _nearest, lambda x, p: x - math.remainder(x, p))


@op("+", 2)
def add(m, l, r):
    if isinstance(l, Rng) and isinstance(r, str):
        l, r = r, l
    if isnum(l, r):
        return arith(m, lambda a, b: a + b, l, r)
    if isinstance(l, str) and isinstance(r, Rng):
        if num_of(l) == int_of(l):
            d = int_of(l)
            return Rng(r.base + d, None if r.hi is None else r.hi + d)
        return tuple(arith(m, lambda a, b: a + b, l, x) for x in items(r))
    if isinstance(l, Pat) and isinstance(r, Pat):
        l, r = l.wrapped(), r.wrapped()
        return Pat(l.raw + r.raw, l.flags | r.flags)
    return m.bad()


def arith(m, f, l, r):
    try:
        return sc(f(num_of(l), num_of(r)))
    except (OverflowError, ValueError):
        return m.bad()


@op("-", 2)
def sub(m, l, r):
    if isnum(l, r):
        return arith(m, lambda a, b: a - b, l, r)
    if isinstance(l, Rng) and isinstance(r, str):
        if num_of(r) == int_of(r):
            d = int_of(r)
            return Rng(l.base - d, None if l.hi is None else l.hi - d)
        return tuple(arith(m, lambda a, b: a - b, x, r) for x in items(l))
    if isinstance(l, str) and isinstance(r, Rng):
        return tuple(arith(m, lambda a, b: a - b, l, x) for x in items(r))
    return m.bad()


@op("*", 2)
def mul(m, l, r):
    if isinstance(l, str) and isinstance(r, Pat):
        l, r = r, l
    if isnum(l, r):
        return arith(m, lambda a, b: a * b, l, r)
    if isinstance(l, Pat) and isinstance(r, str):
        l = l.wrapped()
        return Pat((l.raw or "(?:)") + "{" + str(int_of(r)) + "}", l.flags)
    return m.bad()


@op("-", 1)
def neg(m, v):
    if isinstance(v, str):
        return sc(-num_of(v))
    return Pat(v.raw, v.flags ^ I) if isinstance(v, Pat) else m.bad()


@op("+", 1)
def pos(m, v):
    if isinstance(v, str):
        return sc(num_of(v))
    if isinstance(v, Rng):
        return v
    if isinstance(v, Pat):
        v = v.wrapped()
        return Pat((v.raw or "(?:)") + "+", v.flags)
    return m.bad()


def step(delta):
    def run(m, x):
        v = m.deref(x)
        o = S.Op("+" if delta > 0 else "-", 2)
        r = m.apply(o, [("val", v), ("val", "1")])
        if isinstance(x, LV):
            m.assign(x, r)
            return x
        m.warn()
        return r
    return run


OPF[1]["U"] = OPF[1]["++"] = step(1)
OPF[1]["D"] = OPF[1]["--"] = step(-1)


# ---- logic

@op("!", 1)
def not_(m, v):
    return "0" if truthy(v) else "1"


@op("&", 2)
def and_(m, l, r):
    v = m.rv(l)
    return m.rv(r) if truthy(v) else v


@op("|", 2)
def or_(m, l, r):
    v = m.rv(l)
    return v if truthy(v) else m.rv(r)


@op("?", 3)
def ifte(m, c, t, f):
    return m.ev(t if truthy(m.rv(c)) else f)


OPF[1]["\\!"] = not_
OPF[2]["\\&"] = lambda m, l, r: r if truthy(l) else l
OPF[2]["\\|"] = lambda m, l, r: l if truthy(l) else r
OPF[3]["\\?"] = lambda m, c, t, f: t if truthy(c) else f


# ---- comparison

def b(x):
    return "1" if x else "0"


def ncmp(l, r):
    """-1/0/1 in numeric order, None when incomparable."""
    if isnum(l, r):
        x, y = num_of(l), num_of(r)
        return (x > y) - (x < y)
    if isinstance(l, Rng) and isinstance(r, Rng):
        inf = float("inf")
        x = (l.base, inf if l.hi is None else l.hi)
        y = (r.base, inf if r.hi is None else r.hi)
        return (x > y) - (x < y)
    if isinstance(l, (tuple, Rng)) and isinstance(r, (tuple, Rng)):
        xs, ys = _stream(l), _stream(r)
        for x, y in zip(xs, ys):
            c = ncmp(x, y)
            if c:
                return c
        n = lambda v: float("inf") if isinstance(v, Rng) and not v.finite \
            else size(v)
        return (n(l) > n(r)) - (n(l) < n(r))
    return None


def _stream(v):
    if isinstance(v, Rng) and not v.finite:
        return (str(i) for i in itertools.count(v.base))
    return items(v)


def neq(l, r):
    """Numeric equality."""
    if isnum(l, r):
        return num_of(l) == num_of(r)
    if isinstance(l, Rng) and isinstance(r, Rng):
        return l == r
    if isinstance(l, (tuple, Rng)) and isinstance(r, (tuple, Rng)):
        for v in (l, r):
            if isinstance(v, Rng) and not v.finite:
                return False
        return size(l) == size(r) and all(
            neq(x, y) for x, y in zip(items(l), items(r)))
    return l == r


def ncompare(sym, test, same):
    def run(m, l, r):
        c = ncmp(l, r)
        return b(test(c)) if c is not None else b(same and l == r)
    OPF[2][sym] = run


ncompare("<", lambda c: c < 0, False)
ncompare(">", lambda c: c > 0, False)
ncompare("<=", lambda c: c <= 0, True)
ncompare(">=", lambda c: c >= 0, True)
OPF[2]["="] = lambda m, l, r: b(neq(l, r))
OPF[2]["!="] = lambda m, l, r: b(not neq(l, r))
OPF[2]["=="] = lambda m, l, r: b(l == r)


@op("CM", 2)
def cmp_(m, l, r):
    return str(ncmp(l, r) or 0)


def scmp(l, r):
    if isnum(l, r):
        return (l > r) - (l < r)
    if isinstance(l, tuple) and isinstance(r, tuple):
        for x, y in zip(l, r):
            c = scmp(x, y)
            if c:
                return c
        return (len(l) > len(r)) - (len(l) < len(r))
    return None


def seq(l, r):
    if isinstance(l, (str, Pat)) and isinstance(r, (str, Pat)):
        raw = lambda v: v.raw if isinstance(v, Pat) else v
        return raw(l) == raw(r)
    if isinstance(l, tuple) and isinstance(r, tuple):
        return len(l) == len(r) and all(map(seq, l, r))
    return l == r


def scompare(sym, test, same):
    def run(m, l, r):
        c = scmp(l, r)
        return b(test(c)) if c is not None else b(same and l == r)
    OPF[2][sym] = run


scompare("LT", lambda c: c < 0, False)
scompare("GT", lambda c: c > 0, False)
scompare("LE", lambda c: c <= 0, True)
scompare("GE", lambda c: c >= 0, True)
OPF[2]["Q"] = lambda m, l, r: b(seq(l, r))
OPF[2]["NE"] = lambda m, l, r: b(not seq(l, r))


def lcompare(sym, test):
    def run(m, l, r):
        if not (isinstance(l, ITERABLE) and isinstance(r, ITERABLE)):
            return m.bad()
        n = lambda v: float("inf") if isinstance(v, Rng) and not v.finite \
            else size(v)
        return b(test(n(l), n(r)))
    OPF[2][sym] = run


lcompare("#=", lambda x, y: x == y)
lcompare("#<", lambda x, y: x < y)
lcompare("#>", lambda x, y: x > y)


# ---- assignment

def assign_op(m, l, r):
    if not isinstance(l, LV):
        m.warn()
        return r
    m.assign(l, m.deref(r))
    return l


OPF[2][":"] = assign_op


@op("::", 2)
def swap(m, l, r):
    lv, rv = m.deref(l), m.deref(r)
    for target, val in ((l, rv), (r, lv)):
        if isinstance(target, LV):
            m.assign(target, val)
        else:
            m.warn()
    return l


@op("Y", 1)
def yank(m, v):
    m.assign(LV("y"), v)
    return LV("y")


@op("O", 1)
def output(m, v):
    if v is not None:
        m.emit(m.text(v))
    return v


@op("P", 1)
def print_(m, v):
    m.print(v)
    return v


@op("YO", 1)
def yo(m, v):
    output(m, v)
    return yank(m, v)


@op("YP", 1)
def yp(m, v):
    m.print(v)
    return yank(m, v)


# ---- in-place list operations

def write_back(m, target, new):
    if isinstance(target, LV):
        if not isinstance(target.base, tuple):
            m.assign(target, new)
            return True
    else:
        m.warn()
    return False


def push(front):
    def run(m, target, item):
        item, v = m.deref(item), m.deref(target)
        if isinstance(v, (tuple, Rng)):
            xs = tuple(items(v))
            new = (item,) + xs if front else xs + (item,)
        elif isinstance(v, (str, Pat)):
            t = m.text(item)
            new = cat(m, t, v) if front else cat(m, v, t)
        elif v is None:
            new = (item,)
        else:
            new = v
        if isinstance(target, LV):
            if not isinstance(target.base, tuple):
                m.assign(target, new)
                return target
            return new
        m.warn()
        return new
    return run


OPF[2]["PU"], OPF[2]["PB"] = push(True), push(False)


def remove_one(m, target, index):
    """PO, DQ and PK: take one item out of an iterable variable."""
    v = m.deref(target)
    if not isinstance(v, ITERABLE):
        return m.bad()
    if isinstance(v, Rng):
        if v.empty():
            return m.bad()
        if index % v.size() == 0 if v.finite else index == 0:
            # the rest is still a range
            item, new = str(v.base), Rng(v.base + 1, v.hi)
            write_back(m, target, new)
            return item
        if not v.finite:
            return m.bad()
        xs = tuple(items(v))
    else:
        xs = v
    if not xs:
        return m.bad()
    k = index % len(xs)
    item, new = xs[k], xs[:k] + xs[k + 1:]
    write_back(m, target, new)
    return item


@op("PO", 1)
def pop(m, target):
    return remove_one(m, target, 0)


@op("DQ", 1)
def dequeue(m, target):
    v = m.deref(target)
    if isinstance(v, Rng) and v.finite and v.size():
        write_back(m, target, Rng(v.lo, v.hi - 1))
        return str(v.hi - 1)
    return remove_one(m, target, -1)


@op("PK", 2)
def pick(m, target, index):
    index = m.deref(index)
    if not isinstance(index, str):
        return m.bad()
    return remove_one(m, target, int_of(index))


# ---- indexing

def at_op(m, lhs, rhs=False):
    if isinstance(rhs, LV):
        rhs = m.deref(rhs)
    if rhs is False:
        index = 0
    elif isinstance(rhs, str):
        index = int_of(rhs)
    elif isinstance(rhs, Rng):
        index = slice(rhs.lo, rhs.hi)
    elif isinstance(rhs, (tuple, Pat)):
        index = rhs
    else:
        return m.bad()
    if isinstance(lhs, LV):
        if isinstance(index, (int, slice)):
            if isinstance(lhs.base, tuple):
                if isinstance(index, slice):
                    return lhs.sub(index)
                if not lhs.base:
                    return m.bad()
                return lhs.base[index % len(lhs.base)]
            return lhs.sub(index)
        lhs = m.deref(lhs)
    if isinstance(index, Pat):
        if isinstance(lhs, str):
            out = []
            for mt in m.matches(index, lhs):
                out.append(m.set_match(mt)[0])
            return tuple(out)
        if isinstance(lhs, (tuple, Rng)):
            return tuple(at_op(m, x, index) for x in items(lhs))
        return m.bad()
    if not isinstance(lhs, ITERABLE):
        return m.bad()
    if isinstance(index, tuple):
        return tuple(at_op(m, lhs, x) for x in index)
    if lhs.empty() if isinstance(lhs, Rng) else len(lhs) == 0:
        return m.bad()
    return get(lhs, index)


OPF[1]["@"] = OPF[2]["@"] = at_op


def slicer(bounds, default):
    def run(m, lhs, rhs=default):
        if isinstance(rhs, LV):
            rhs = m.deref(rhs)
        if isinstance(rhs, (tuple, Rng)):
            lhs = m.deref(lhs)
            return tuple(run(m, lhs, x) for x in items(rhs))
        if isinstance(rhs, str):
            index = bounds(int_of(rhs))
            if isinstance(lhs, LV):
                return lhs.sub(index)
            if isinstance(lhs, ITERABLE):
                return get(lhs, index)
        return m.bad()
    return run


OPF[1]["@<"] = OPF[2]["@<"] = slicer(lambda n: slice(None, n), "-1")
OPF[1]["@>"] = OPF[2]["@>"] = slicer(lambda n: slice(n, None), "1")
OPF[1]["H"] = OPF[2]["H"] = slicer(lambda n: slice(None, n), "-1")
OPF[1]["S"] = OPF[2]["S"] = slicer(
    lambda n: slice(-n, None) if n else slice(0, 0), "-1")


# ---- strings

@op(".", 2)
def cat(m, l, r):
    if isnum(l, r):
        if len(l) + len(r) > 300000:
            raise Skip("huge string")
        return l + r
    if isinstance(l, (str, Pat)) and isinstance(r, (str, Pat)):
        l, r = [Pat(v) if isinstance(v, str) else v for v in (l, r)]
        return Pat(l.raw + r.raw, l.flags | r.flags)
    return m.bad()


@op(".", 1)
def dot(m, v):
    return Pat(v.raw, v.flags ^ DOT) if isinstance(v, Pat) else v


def casing(sym, f):
    def run(m, v):
        if isinstance(v, str):
            return f(v)
        return v if v is None or isinstance(v, Rng) else m.bad()
    OPF[1][sym] = run


casing("UC", str.upper)
casing("LC", str.lower)
casing("SC", str.swapcase)
casing("TC", str.title)
casing("IC", str.capitalize)


@op("A", 1)
def asc(m, v):
    if isinstance(v, str):
        return str(ord(v[0])) if v else m.bad()
    return Pat(v.raw, v.flags ^ A) if isinstance(v, Pat) else m.bad()


def char(n):
    if 0xd800 <= n <= 0xdfff:
        raise Skip("surrogate")
    if n > 127 and chr(n).isdigit():
        raise Skip("unicode digit")
    return chr(n)


@op("C", 1)
def chr_(m, v):
    if isinstance(v, str):
        n = int_of(v)
        if not 0 <= n <= 0x10ffff:
            return m.bad()
        return char(n)
    return Pat("(" + v.raw + ")", v.flags) if isinstance(v, Pat) else m.bad()


@op("DC", 2)
def delchars(m, s, cs):
    if isnum(s, cs):
        return "".join(c for c in s if c not in cs)
    m.warn()
    return s


@op("X", 2)
def strmul(m, s, n):
    if isinstance(s, (str, Pat)) and isinstance(n, str):
        k = int_of(n)
        if abs(k) > 10 ** 9:
            raise Skip("huge count")
        k = max(k, 0)
        if k * len(s if isinstance(s, str) else s.raw) > 200000:
            raise Skip("huge string")
        return s * k if isinstance(s, str) else Pat(s.raw * k, s.flags)
    return m.bad()


@op("X", 1)
def regex(m, v):
    return m.to_pattern(v)


@op("K", 1)
def kleene(m, v):
    if isinstance(v, (str, Rng)):
        v = m.to_pattern(v)
        return Pat((v.raw or "(?:)") + "*", v.flags)
    if isinstance(v, Pat):
        v = v.wrapped()
        return Pat((v.raw or "(?:)") + "*", v.flags)
    return m.bad()


def stripper(left, right):
    def run(m, s, extra=False):
        if extra is None:
            return s
        if extra is not False and not isinstance(extra, ITERABLE + (Pat,)):
            return m.bad()
        if isinstance(s, (tuple, Rng)):
            return tuple(run(m, x, extra) for x in items(s))
        if not isinstance(s, str):
            return m.bad()
        if extra is False:
            chars = None
        elif isinstance(extra, (tuple, Rng)):
            for x in items(extra):
                s = run(m, s, x)
            return s
        elif isinstance(extra, str):
            chars = extra
        else:
            if extra.raw == "":
                return s
            extra.regex()
            if left:
                s = _strip_re(m, s, re.compile(r"\A(?:%s)" % extra.raw,
                                               extra.flags))
            if right:
                s = _strip_re(m, s, re.compile(r"(?:%s)\Z" % extra.raw,
                                               extra.flags))
            return s
        if left:
            s = s.lstrip(chars)
        if right:
            s = s.rstrip(chars)
        return s
    return run


def _strip_re(m, s, rx):
    while True:
        m.burn()
        new = rx.sub("", s)
        if new == s:
            return s
        s = new


OPF[1]["||"] = OPF[2]["||"] = stripper(True, True)
OPF[1]["|>"] = OPF[2]["|>"] = stripper(True, False)
OPF[1]["<|"] = OPF[2]["<|"] = stripper(False, True)


@op("TM", 1, 2)
def trim(m, s, extra="1"):
    if isinstance(s, Rng):
        return tuple(trim(m, x, extra) for x in items(s))
    if isinstance(extra, str):
        f = k = int_of(extra)
    elif isinstance(extra, Rng):
        f, k = extra.base, extra.hi or 0
    elif extra is None:
        return s
    else:
        return m.bad()
    if not isinstance(s, str):
        return m.bad()
    f, k = max(f, 0), max(k, 0)
    return s[f:max(len(s) - k, 0)]


@op("WR", 2)
def wrap(m, s, w):
    if isinstance(s, (str, Pat)) and isinstance(w, (str, Pat)):
        return cat(m, cat(m, w, s), w)
    return m.bad()


@op("J", 1, 2)
def join(m, v, sep=False):
    if isinstance(sep, (tuple, Rng)):
        return tuple(join(m, v, x) for x in items(sep))
    if sep is not False and not isinstance(sep, (str, Pat)):
        return m.bad()
    if not isinstance(v, ITERABLE):
        return m.bad()
    result, first = "", True
    for x in items(v):
        if isinstance(x, (tuple, Rng)):
            x = join(m, x, sep)
        if first:
            result, first = x, False
        else:
            if sep is not False:
                result = cat(m, result, sep)
            result = cat(m, result, x)
    return result


@op("JW", 2)
def joinwrap(m, v, sep):
    if isinstance(sep, (tuple, Rng)):
        return tuple(joinwrap(m, v, x) for x in items(sep))
    if not isinstance(sep, (str, Pat)):
        return m.bad()
    if not isinstance(v, ITERABLE):
        return m.bad()
    result = sep
    for x in items(v):
        if isinstance(x, (tuple, Rng)):
            x = join(m, x, sep)
        result = cat(m, cat(m, result, x), sep)
    return result


@op("^", 1, 2)
def split(m, s, sep=False):
    if sep is not False and not isinstance(sep, (str, Pat)):
        return m.bad()
    if not isinstance(s, str):
        return m.bad()
    if sep is False or sep == "" or isinstance(sep, Pat) and sep.raw == "":
        return tuple(s)
    if isinstance(sep, str):
        return tuple(s.split(sep))
    out, at = [], 0
    for mt in m.matches(sep, s):
        out.append(s[at:mt.start()])
        out.extend(mt.groups())
        at = mt.end()
    return tuple(out + [s[at:]])


@op("^@", 1, 2)
def splitat(m, v, at=False):
    raise AssertionError


@op("RM", 2)
def remove(m, l, r):
    if isinstance(l, str):
        if isinstance(r, str):
            return l.replace(r, "")
        if isinstance(r, Pat):
            return r.regex().sub("", l)
        if isinstance(r, (tuple, Rng)):
            for x in items(r):
                l = remove(m, l, x)
                if l is None:
                    m.warn()
            return "" if l is None else l
        return l if r is None else m.bad()
    if isinstance(l, (tuple, Rng)):
        return tuple(x for x in items(l) if x != r)
    return m.bad()


@op("R", 3)
def replace(m, s, old, new):
    s, old, new = [tuple(items(v)) if isinstance(v, Rng) else v
                   for v in (s, old, new)]
    if isinstance(old, str) and isinstance(new, (Pat, Blk)):
        old = m.to_pattern(old)
    if not (isinstance(s, ITERABLE) and isinstance(old, ITERABLE + (Pat,))):
        return m.bad()
    if isinstance(s, tuple):
        return tuple(replace(m, x, old, new) for x in s)
    if isinstance(old, tuple):
        for k, x in enumerate(old):
            if isinstance(new, tuple):
                s = replace(m, s, x, new[k] if k < len(new) else None)
            else:
                s = replace(m, s, x, new)
        return s
    if isinstance(old, Pat):
        out, at = [], 0
        rx = old.regex()
        if isinstance(new, Pat):
            expand(new.raw, None, rx.groups)
            fill = lambda mt: expand(new.raw, mt)
        elif isinstance(new, Blk):
            fill = lambda mt: m.text(m.call(new, m.set_match(mt)))
        else:
            t = "" if new is None else m.text(new)
            fill = lambda mt: t
        s = rx.sub(fill, s)
    else:
        s = s.replace(old, "" if new is None else m.text(new))
    if len(s) > 20000:
        raise Skip("huge string")
    return s


def expand(raw, mt, groups=None):
    """A Pattern used as replacement: \\1 is a group, & the whole match.

    Without mt: only check that the template is valid (an invalid one is an
    error even if it is never used)."""
    out, i = [], 0
    group = mt.group if mt else lambda *g: ""
    esc = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f",
           "v": "\v", "\\": "\\"}
    n = mt.re.groups if mt else groups
    while i < len(raw):
        c = raw[i]
        if c == "&":
            out.append(group())
            i += 1
        elif c == "\\" and i + 1 < len(raw):
            d = raw[i + 1]
            if d == "&":
                out.append("&")
                i += 2
            elif d in "123456789":
                j = i + 2
                if raw[j:j + 1].isdigit():
                    j += 1
                g = int(raw[i + 1:j])
                if g > n or raw[j:j + 1].isdigit():
                    raise Skip("bad replacement")
                out.append(group(g) or "")
                i = j
            elif d in esc:
                out.append(esc[d])
                i += 2
            elif d.isalnum():
                raise Skip("bad replacement")
            else:
                out.append(c + d)
                i += 2
        elif c == "\\":
            raise Skip("bad replacement")
        else:
            out.append(c)
            i += 1
    return "".join(out)


@op("RA", 3)
def replace_at(m, v, index, new):
    if isinstance(v, ITERABLE) and isinstance(index, ITERABLE):
        if isinstance(v, Rng):
            if not v.finite:
                return m.bad()
            v = tuple(items(v))
        if isinstance(index, tuple):
            if isinstance(new, tuple) and not new and index:
                return m.bad()
            for k, x in enumerate(index):
                v = replace_at(m, v, x,
                               new[k % len(new)] if isinstance(new, tuple)
                               else new)
            return v
        if isinstance(index, str):
            index = int_of(index)
        else:
            index = slice(index.lo, index.hi)
        try:
            return m._put(v, (index,), new)
        except NoItem:
            m.warn()
            return v
    if index is None:
        return v
    return m.bad()


@op("TR", 3)
def translit(m, s, old, new):
    if isinstance(s, (tuple, Rng)):
        return tuple(translit(m, x, old, new) for x in items(s))
    if not (isinstance(s, str) and isinstance(old, ITERABLE)
            and isinstance(new, ITERABLE)):
        return m.bad()
    inf = [isinstance(v, Rng) and not v.finite for v in (old, new)]
    if all(inf):
        return m.bad()
    table = {}
    a = _stream(old)
    b_ = _stream(new)
    for x, y in zip(a, b_):
        if not isinstance(x, str):
            m.warn()
            continue
        if not isinstance(y, str) and y is not None:
            m.warn()
            continue
        x = ord(x) if isinstance(old, str) else num_of(x)
        y = None if y is None else ord(y) if isinstance(new, str) \
            else int_of(y)
        table[x] = y
    out = []
    for c in s:
        y = table.get(ord(c), ord(c))
        if y is not None:
            if not 0 <= y <= 0x10ffff:
                raise Skip("invalid character code")
            out.append(char(y))
    return "".join(out)


# ---- base conversion

DIGITS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


@op("TB", 1, 2)
def tobase(m, n, base="2"):
    if not isinstance(base, str):
        return m.bad()
    k = int_of(base)
    if not 2 <= k <= 36 or not isinstance(n, str):
        return m.bad()
    n = int_of(n)
    ds = digits(abs(n), k)
    return ("-" if n < 0 else "") + ("".join(DIGITS[d] for d in ds) or "0")


def digits(n, k):
    out = []
    while n:
        n, d = divmod(n, k)
        out.append(d)
    return out[::-1]


@op("FB", 1, 2)
def frombase(m, s, base="2"):
    if not isinstance(base, str):
        return m.bad()
    k = int_of(base)
    if not 2 <= k <= 36 or not isinstance(s, str):
        return m.bad()
    if s == "":
        return "0"
    t = s.replace("_", " ").strip()
    sign = -1 if t[:1] == "-" else 1
    t = t[1:] if t[:1] in ("-", "+") else t
    # prefixes such as 0x are accepted in their own base
    if t[:2].lower() in {2: ("0b",), 8: ("0o",), 16: ("0x",)}.get(k, ()):
        t = t[2:]
    total = 0
    for c in t:
        d = DIGITS.find(c.upper()) if c.isascii() else -1
        if not c.isascii() and c.isdecimal():
            raise Skip("unicode digit")
        if d < 0 or d >= k:
            return m.bad()
        total = total * k + d
    return sc(sign * total) if t else m.bad()


@op("TD", 1, 2)
def todigits(m, n, base="2"):
    if isinstance(n, (tuple, Rng)):
        return tuple(todigits(m, x, base) for x in items(n))
    if not isinstance(base, str):
        return m.bad()
    k = int_of(base)
    if k < 2 or not isinstance(n, str):
        return m.bad()
    n = int_of(n)
    s = -1 if n < 0 else 1
    return tuple(str(s * d) for d in digits(abs(n), k))


@op("FD", 1, 2)
def fromdigits(m, ds, base="2"):
    if not isinstance(base, str):
        return m.bad()
    k = num_of(base)
    if not isinstance(ds, ITERABLE):
        return m.bad()
    total = 0
    try:
        for e, d in enumerate(reversed(items(ds))):
            if not isinstance(d, str):
                return m.bad()
            if e * math.log2(abs(k) + 2) > 12000:
                raise Skip("huge power")
            total += num_of(d) * k ** e
        return sc(total)
    except OverflowError:
        return m.bad()


# ---- ranges

@op(",", 1)
def rangeto(m, v):
    if isinstance(v, str):
        return Rng(None, int_of(v))
    if v is None:
        return Rng(None, None)
    return Pat(v.raw, v.flags ^ M) if isinstance(v, Pat) else m.bad()


@op(",", 2)
def range_(m, l, r):
    if (l is None or isinstance(l, str)) and (r is None or isinstance(r, str)):
        return Rng(None if l is None else int_of(l),
                   None if r is None else int_of(r))
    if isinstance(l, Pat) and isinstance(r, Pat):
        l, r = l.wrapped(), r.wrapped()
        return Pat(l.raw + "|" + r.raw, l.flags | r.flags)
    return m.bad()


@op("\\,", 2)
def irange(m, l, r):
    if (l is None or isinstance(l, str)) and (r is None or isinstance(r, str)):
        return Rng(None if l is None else int_of(l),
                   None if r is None else int_of(r) + 1)
    return m.bad()


@op("\\,", 1)
def irangeto(m, v):
    if v is None or isinstance(v, str):
        return Rng(1, None if v is None else int_of(v) + 1)
    return m.bad()


# ---- lists

def listy(v):
    return (v,) if v is None or isinstance(v, (str, Pat)) else v


def appender(f):
    def run(m, l, r):
        l = listy(l)
        if isinstance(l, (tuple, Rng)):
            l = tuple(items(l))
            m.burn(len(l) // 50)
            return f(l, r)
        return m.bad()
    return run


OPF[2]["AE"] = appender(lambda l, r: l + (r,))
OPF[2]["PE"] = appender(lambda l, r: (r,) + l)


@op("AL", 2)
def applist(m, l, r):
    l, r = listy(l), listy(r)
    if isinstance(l, (tuple, Rng)) and isinstance(r, (tuple, Rng)):
        l, r = items(l), items(r)
        m.burn((len(l) + len(r)) // 50)
        return tuple(l + r)
    return m.bad()


@op("RL", 2)
def replist(m, l, n):
    l = listy(l)
    if isinstance(l, (tuple, Rng)) and isinstance(n, str):
        k = int_of(n)
        if abs(k) > 10 ** 9:
            raise Skip("huge count")
        k = max(k, 0)
        xs = items(l)
        if k * len(xs) > 50000:
            raise Skip("huge list")
        return tuple(xs * k)
    return m.bad()


@op("RV", 1)
def reverse(m, v):
    if isinstance(v, str):
        return v[::-1]
    if isinstance(v, Rng) and not v.finite:
        return m.bad()
    if isinstance(v, (tuple, Rng)):
        return tuple(items(v)[::-1])
    return m.bad()


def mirror(f):
    def run(m, v):
        if isinstance(v, str):
            return f(v)
        if isinstance(v, Rng) and not v.finite:
            return m.bad()
        if isinstance(v, (tuple, Rng)):
            return f(tuple(items(v)))
        return m.bad()
    return run


reflect = OPF[1]["RF"] = mirror(lambda v: v + v[::-1])
palin = OPF[1]["PZ"] = mirror(lambda v: v + v[:-1][::-1])


def quad(f):
    def run(m, v):
        rows = f(m, v)
        return None if rows is None else tuple(f(m, x) for x in items(rows))
    return run


OPF[1]["QR"], OPF[1]["QP"] = quad(reflect), quad(palin)


@op("FL", 1)
def flatten(m, v):
    if not isinstance(v, (tuple, Rng)):
        return v
    out = []
    for x in items(v):
        out.extend(items(x) if isinstance(x, (tuple, Rng)) else [x])
    return tuple(out)


@op("FA", 1)
def flatten_all(m, v):
    if not isinstance(v, (tuple, Rng)):
        return v
    out = []
    for x in items(v):
        out.extend(flatten_all(m, x) if isinstance(x, (tuple, Rng)) else [x])
    return tuple(out)


@op("EN", 1)
def enum(m, v):
    if not isinstance(v, ITERABLE) or isinstance(v, Rng) and not v.finite:
        return m.bad()
    return tuple((str(i), x) for i, x in enumerate(items(v)))


@op("#", 1)
def length(m, v):
    if not isinstance(v, ITERABLE) or isinstance(v, Rng) and not v.finite:
        return m.bad()
    return str(size(v))


@op("UQ", 1)
def unique(m, v):
    if v is None or isinstance(v, Rng):
        return v
    if not isinstance(v, (str, tuple)):
        return m.bad()
    out = []
    for x in v:
        if x not in out:
            out.append(x)
    return "".join(out) if isinstance(v, str) else tuple(out)


def collect(v, xs):
    """Items back into the shape of v (string or list)."""
    return "".join(xs) if isinstance(v, str) else tuple(xs)


@op("UW", 1, 2)
def unweave(m, v, n=2):
    if not isinstance(v, ITERABLE) or isinstance(v, Rng) and not v.finite \
            or not isinstance(n, (int, str)):
        return m.bad()
    k = n if isinstance(n, int) else int_of(n)
    if k < 1:
        return m.bad()
    if k > 5000:
        raise Skip("huge list")
    xs = items(v)
    return tuple(collect(v, xs[i::k]) for i in range(k))


@op("WV", 1)
def weave1(m, v):
    if isinstance(v, str):
        return v
    if not isinstance(v, (tuple, Rng)):
        return m.bad()
    return interleave(m, items(v))


@op("WV", 2)
def weave2(m, l, r):
    for v in (l, r):
        if isinstance(v, (Pat, Blk)):
            return m.bad()
    return interleave(m, [l, r])


def interleave(m, vs):
    vs = ["" if v is None else v for v in vs]
    for v in vs:
        if not isinstance(v, ITERABLE):
            return m.bad()
    xs = [items(v) for v in vs]
    out = [x[i] for i in range(max(map(len, xs), default=0))
           for x in xs if i < len(x)]
    return "".join(out) if all(isinstance(v, str) for v in vs) else tuple(out)


def pieces(v, bounds):
    xs = [get(v, slice(a, z)) if size(v) else v for a, z in bounds]
    return tuple(xs)


def by_each(f):
    def run(m, v, n="2"):
        if isinstance(n, (tuple, Rng)):
            return tuple(run(m, v, x) for x in items(n))
        if not (isinstance(v, ITERABLE) and isinstance(n, str)):
            return m.bad()
        k = num_of(n)
        if k == 0:
            return m.bad()
        return f(m, v, k)
    return run


def _group(m, v, jump):
    """Consecutive pieces of length jump (from the end if negative)."""
    n, out = size(v), []
    if n > 20000:
        raise Skip("huge range")
    if abs(jump) < 1e-3:
        raise Skip("tiny step")
    pos = 0 if jump > 0 else n
    while pos < n if jump > 0 else pos > 0:
        nxt = min(pos + jump, n) if jump > 0 else max(pos + jump, 0)
        a, z = (math.floor(pos), math.floor(nxt)) if jump > 0 else \
            (math.ceil(nxt), math.ceil(pos))
        out.append((a, z))
        pos += jump
        m.burn()
    return pieces(v, out)


def _chop(m, v, chunks):
    n = size(v)
    if abs(chunks) > 2000:
        raise Skip("tiny step")
    if n == 0:
        return ()
    return _group(m, v, n / Fraction(str(chunks)))


OPF[1]["<>"] = OPF[2]["<>"] = by_each(
    lambda m, v, jump: _group(m, v, Fraction(str(jump))))
OPF[1]["CH"] = OPF[2]["CH"] = by_each(_chop)


def splitat2(m, v, at):
    if isinstance(at, str):
        idx = {int_of(at)}
    elif isinstance(at, Rng):
        idx = {int(x) for x in items(at)}
    elif isinstance(at, tuple):
        if not all(isinstance(x, str) for x in at):
            return m.bad()
        idx = {int_of(x) for x in at}
    else:
        return m.bad()
    if not isinstance(v, ITERABLE):
        return m.bad()
    n = size(v)
    cuts = [i for i in range(n) if i in idx or i - n in idx]
    return pieces(v, list(zip([0] + cuts, cuts + [None])))


del OPF[1]["^@"]
OPF[2]["^@"] = splitat2


def grid(sym, cell):
    def run(m, r, c=False):
        c = r if c is False else c
        if not isnum(r, c):
            return m.bad()
        r, c = max(int_of(r), 0), max(int_of(c), 0)
        if r * c > 20000 or r > 2000:
            raise Skip("huge grid")
        return tuple(tuple(cell(i, j) for j in range(c)) for i in range(r))
    OPF[1][sym] = OPF[2][sym] = run


grid("CG", lambda i, j: (str(i), str(j)))
grid("ZG", lambda i, j: "0")
grid("OG", lambda i, j: "1")


@op("EY", 1)
def eye(m, n):
    if not isinstance(n, str):
        return m.bad()
    n = max(int_of(n), 0)
    if n > 150:
        raise Skip("huge grid")
    return tuple(tuple(b(i == j) for j in range(n)) for i in range(n))


def lists_of(m, l, r):
    """Operand list(s) of CP and Z."""
    if r is False:
        return items(l) if isinstance(l, ITERABLE) else m.bad()
    return [l, r]


@op("CP", 1, 2)
def product(m, l, r=False):
    ls = lists_of(m, l, r)
    if ls is None:
        return None
    if any(not isinstance(x, ITERABLE) for x in ls):
        return m.bad()
    ls = [items(x) for x in ls]
    n = 1
    for x in ls:
        n *= len(x)
        if n > 5000:
            raise Skip("huge product")
    return tuple(itertools.product(*ls))


@op("Z", 1, 2)
def zip_(m, l, r=False):
    ls = lists_of(m, l, r)
    if ls is None:
        return None
    if any(not isinstance(x, ITERABLE) for x in ls):
        return m.bad()
    if ls and all(isinstance(x, Rng) and not x.finite for x in ls):
        raise Skip("infinite zip")
    return tuple(zip(*[_stream(x) for x in ls]))


@op("ZD", 1, 2)
def zipdefault(m, ls, default=""):
    if not isinstance(ls, ITERABLE):
        return m.bad()
    ls = items(ls)
    if any(not isinstance(x, ITERABLE) for x in ls):
        return m.bad()
    return tuple(itertools.zip_longest(*map(items, ls), fillvalue=default))


@op("ZJ", 1, 2)
def zipjoin(m, l, r=False):
    if r is False:
        if not isinstance(l, ITERABLE):
            return m.bad()
        lines = l.split("\n") if isinstance(l, str) else items(l)
    else:
        lines = [l, r]
    lines = [items(x) if isinstance(x, ITERABLE) else list(m.text(x))
             for x in lines]
    out = tuple(join(m, t) for t in itertools.zip_longest(*lines,
                                                          fillvalue=" "))
    return join(m, out, "\n") if r is False and isinstance(l, str) else out


@op("CB", 2)
def combos(m, v, n):
    if not (isinstance(v, ITERABLE) and isinstance(n, str)):
        return m.bad()
    k, xs = int_of(n), items(v)
    if k > 100000:
        raise Skip("huge count")
    if k < 0:
        return m.bad()
    if k <= len(xs) and math.comb(len(xs), k) > 3000:
        raise Skip("many combinations")
    return tuple(collect(v, c) for c in itertools.combinations(xs, k))


@op("PM", 1)
def perms(m, v):
    if not isinstance(v, ITERABLE):
        return m.bad()
    xs = items(v)
    if len(xs) > 6:
        raise Skip("many permutations")
    return tuple(collect(v, p) for p in itertools.permutations(xs))


# ---- searching

def contains(v, x):
    """Membership as counted by N for lists, strings and ranges."""
    if isinstance(v, tuple):
        return x in v
    if isinstance(v, str):
        return isinstance(x, str) and x in v
    return isinstance(x, str) and v.base <= num_of(x) and \
        (v.hi is None or num_of(x) < v.hi)


@op("N", 2)
def count(m, x, v):
    if isinstance(x, (tuple, Rng)) and isinstance(v, str):
        return tuple(count(m, y, v) for y in items(x))
    if isinstance(x, Pat) and isinstance(v, str):
        ms = m.matches(x, v)
        for mt in ms:
            m.set_match(mt)
        return str(len(ms))
    if x is None and isinstance(v, (str, Rng)):
        return None
    if isinstance(v, tuple):
        return str(sum(1 for y in v if y == x))
    if isinstance(v, Rng):
        return b(contains(v, x))
    if isinstance(v, str):
        return str(v.count(x)) if isinstance(x, str) else ""
    return "0"


@op("NI", 2)
def notin(m, x, v):
    if isinstance(x, (tuple, Rng)) and isinstance(v, str):
        return tuple(notin(m, y, v) for y in items(x))
    if isinstance(x, Pat) and isinstance(v, str):
        return b(not x.regex().search(v))
    return b(not (isinstance(v, ITERABLE) and contains(v, x)))


def index_all(m, v, x):
    """All indices of x in v (substrings may overlap), as ints."""
    if isinstance(v, str):
        if not isinstance(x, str):
            return None
        return [i for i in range(len(v) + 1) if v.startswith(x, i)]
    if isinstance(v, tuple):
        return [i for i, y in enumerate(v) if y == x]
    if v.finite:
        v.size()
    if isinstance(x, str) and contains(v, x) and num_of(x) == int_of(x):
        return [int_of(x) - v.base]
    return []


def finder(all_):
    def run(m, v, x):
        if isinstance(x, (tuple, Rng)) and isinstance(v, (str, Rng)):
            if isinstance(x, Rng) and not x.finite:
                return m.bad()
            return tuple(run(m, v, y) for y in items(x))
        if isinstance(x, Pat) and isinstance(v, str):
            ms = m.matches(x, v)
            if all_:
                for mt in ms:
                    m.set_match(mt)
                return tuple(str(mt.start()) for mt in ms)
            if not ms:
                return None
            m.set_match(ms[0])
            return str(ms[0].start())
        if isinstance(x, str) and isinstance(v, ITERABLE) or \
                isinstance(v, tuple):
            ix = index_all(m, v, x)
            if all_:
                return tuple(map(str, ix))
            return str(ix[0]) if ix else None
        return m.bad()
    return run


OPF[2]["@?"], OPF[2]["@*"] = finder(False), finder(True)


@op("~", 2)
def firstmatch(m, s, rx):
    if isinstance(s, Pat) and isinstance(rx, str):
        s, rx = rx, s
    elif isinstance(rx, str):
        rx = m.to_pattern(rx)
    if not (isinstance(s, str) and isinstance(rx, Pat)):
        return m.bad()
    mt = rx.regex().search(s)
    if not mt:
        return None
    m.set_match(mt)
    return mt.group()


@op("~=", 2)
def fullmatch(m, s, rx):
    if isinstance(s, Pat) and isinstance(rx, str):
        s, rx = rx, s
    elif isinstance(rx, str):
        rx = m.to_pattern(rx)
    if isinstance(s, (tuple, Rng)) and isinstance(rx, Pat):
        for x in items(s):
            if fullmatch(m, rx, x) != "1":
                return "0"
        return "1"
    if not (isinstance(s, str) and isinstance(rx, Pat)):
        m.warn()
        return "0"
    mt = rx.regex().fullmatch(s)
    if mt:
        m.set_match(mt)
    return b(mt)


# ---- ordering

def sort_key(m, v):
    if v is None or isinstance(v, (Pat, Blk)) or \
            isinstance(v, Rng) and not v.finite:
        m.warn()
    if isinstance(v, Rng) and v.finite:
        items(v)
    return tonum(v)


def ordered(m, v, keys, reverse):
    xs = items(v)
    try:
        order = sorted(range(len(xs)), key=lambda i: keys[i], reverse=reverse)
    except TypeError:
        return m.bad()
    return tuple(xs[i] for i in order)


def sorter(reverse):
    def by_number(m, v):
        if not isinstance(v, ITERABLE):
            return m.bad()
        return ordered(m, v, [sort_key(m, x) for x in items(v)], reverse)

    def by_string(m, v):
        if not isinstance(v, ITERABLE):
            return m.bad()
        r = ordered(m, v, [m.text(x) for x in items(v)], reverse)
        return collect(v, r)

    def by_key(m, f, v):
        if not isinstance(f, Blk) and isinstance(v, Blk):
            f, v = v, f
        if not (isinstance(f, Blk) and isinstance(v, ITERABLE)):
            return m.bad()
        return ordered(m, v, [sort_key(m, m.call(f, [x])) for x in items(v)],
                       reverse)
    return by_number, by_string, by_key


OPF[1]["SN"], OPF[1]["SS"], OPF[2]["SK"] = sorter(False)
OPF[1]["DN"], OPF[1]["DS"], OPF[2]["DK"] = sorter(True)


def extreme(sym, better):
    def run(m, v):
        if not isinstance(v, ITERABLE):
            return m.bad()
        xs = items(v)
        if not xs:
            return m.bad()
        best = xs[0]
        try:
            for x in xs[1:]:
                if better(tonum(x), tonum(best)):
                    best = x
        except TypeError:
            return m.bad()
        return best
    OPF[1][sym] = run


extreme("MX", lambda x, y: x > y)
extreme("MN", lambda x, y: x < y)


# ---- higher-order

def reversible(f):
    """Function and iterable may come in either order."""
    def run(m, fn, v):
        if isinstance(v, Blk) and isinstance(fn, ITERABLE):
            fn, v = v, fn
        if not (isinstance(fn, Blk) and isinstance(v, ITERABLE)):
            return m.bad()
        return f(m, fn, v)
    return run


@op("M", 2)
def map_(m, f, v):
    if isinstance(v, Blk) and isinstance(f, ITERABLE):
        f, v = v, f
    if not isinstance(v, ITERABLE):
        return m.bad()
    if isinstance(f, Blk):
        return tuple(m.call(f, [x]) for x in items(v))
    if isinstance(f, tuple):
        return tuple(map_(m, g, v) for g in f)
    return tuple(f for _ in items(v))


@op("MC", 2)
def mapcoords(m, f, dims):
    if isinstance(dims, str):
        r = c = int_of(dims)
    elif isinstance(dims, (tuple, Rng)):
        if dims.empty() if isinstance(dims, Rng) else not dims:
            return m.bad()
        r, c = at(dims, 0), at(dims, 1)
        if not isnum(r, c):
            return m.bad()
        r, c = int_of(r), int_of(c)
    else:
        return m.bad()
    if r > 0 and (r > 2000 or r * c > 5000):
        raise Skip("huge grid")
    return tuple(tuple(m.call(f, [str(i), str(j)]) if isinstance(f, Blk)
                       else f for j in range(c)) for i in range(r))


OPF[2]["ME"] = reversible(lambda m, f, v: tuple(
    m.call(f, [str(i), x]) for i, x in enumerate(items(v))))
OPF[2]["MP"] = reversible(lambda m, f, v: tuple(
    m.call(f, [x, y]) for x, y in zip(items(v), items(v)[1:])))
OPF[2]["MF"] = lambda m, f, v: flatten(m, map_(m, f, v))
OPF[2]["MJ"] = lambda m, f, v: join(m, map_(m, f, v))


@op("MM", 2)
def mapmap(m, f, v):
    if isinstance(v, Blk) and isinstance(f, ITERABLE):
        f, v = v, f
    if not isinstance(v, ITERABLE):
        return m.bad()
    return tuple(map_(m, f, x) for x in items(v))


@op("MS", 2)
def mapsum(m, f, v):
    total = "0"
    mapped = map_(m, f, v)
    if mapped is None:
        return None
    for x in mapped:
        total = m.apply(S.Op("+", 2), [("val", total), ("val", x)])
    return total


def arglist(m, x, patterns):
    """An item unpacked into function arguments."""
    if isinstance(x, Rng) and not x.finite:
        m.warn()
        return []
    if isinstance(x, ITERABLE):
        return items(x)
    if patterns and (x is None or isinstance(x, Pat)):
        return [] if x is None else list(x.raw)
    m.warn()
    return []


OPF[2]["MU"] = reversible(lambda m, f, v: tuple(
    m.call(f, arglist(m, x, True)) for x in items(v)))


@op("MR", 3)
def mapregex(m, f, rx, s):
    if isinstance(rx, Blk):
        f, rx = rx, f
    elif isinstance(s, Blk):
        f, s = s, f
    rx, s = m.regex_pair(rx, s)
    if not (isinstance(f, Blk) and isinstance(rx, Pat) and isinstance(s, str)):
        return m.bad()
    return tuple(m.call(f, m.set_match(mt)) for mt in m.matches(rx, s))


@op("MZ", 3)
def mapzip(m, f, l, r):
    if isinstance(l, Blk) and isinstance(f, ITERABLE):
        f, l = l, f
    if not (isinstance(f, Blk) and isinstance(l, ITERABLE)
            and isinstance(r, ITERABLE)):
        return m.bad()
    if all(isinstance(x, Rng) and not x.finite for x in (l, r)):
        raise Skip("infinite zip")
    return tuple(m.call(f, [x, y]) for x, y in zip(_stream(l), _stream(r)))


def filterer(sym, unary, binary):
    """unary/binary: (interp, [fn,] index, item) -> keep?"""
    def run1(m, v):
        if not isinstance(v, ITERABLE):
            return m.bad()
        return shape(m, [(i, x) for i, x in enumerate(items(v))
                         if unary(m, i, x)])

    def run2(m, f, v):
        return reversible(lambda m, f, v: shape(
            m, [(i, x) for i, x in enumerate(items(v))
                if truthy(binary(m, f, i, x))]))(m, f, v)
    shape = lambda m, kept: tuple(str(i) if sym == "FX" else x
                                  for i, x in kept)
    if unary:
        OPF[1][sym] = run1
    OPF[2][sym] = run2


filterer("FI", lambda m, i, x: truthy(x), lambda m, f, i, x: m.call(f, [x]))
filterer("FN", lambda m, i, x: not truthy(x),
         lambda m, f, i, x: "0" if truthy(m.call(f, [x])) else "1")
filterer("FX", lambda m, i, x: truthy(x),
         lambda m, f, i, x: m.call(f, [str(i), x]))
filterer("FE", None, lambda m, f, i, x: m.call(f, [str(i), x]))


def _first(m, i, x):
    if not isinstance(x, ITERABLE):
        m.warn()
        return False
    try:
        return truthy(at(x, 0))
    except NoItem:
        return False


filterer("FU", _first, lambda m, f, i, x: m.call(f, arglist(m, x, False)))
OPF[1]["FJ"] = lambda m, v: join(m, OPF[1]["FI"](m, v))
OPF[2]["FJ"] = lambda m, f, v: join(m, OPF[2]["FI"](m, f, v))


# ---- functions, evaluation, display

@op("RE", 1)
def recurse(m, v):
    if m.fns[-1] is None:
        raise Skip("recursion outside a function")
    return m.call(m.fns[-1], [v])


@op("V", 1, 2)
def evaluate(m, code, args=False):
    if isinstance(args, Blk):
        code, args = args, code
    if isinstance(code, str):
        try:
            code = from_ast(S.parse(S.lex(code)))
        except (S.Bad, S.Incomplete):
            raise Fatal("syntax")
    if isinstance(code, Blk):
        if args is False:
            for st in code.stmts:
                m.statement(st)
            return m.ev(code.ret)
        if isinstance(args, Blk):
            return m.bad()
        return m.call(code, [] if args is None else list(args.raw)
                      if isinstance(args, Pat) else items(args))
    return m.bad()


@op("RP", 1)
def repr_(m, v):
    return show(v)


@op("ST", 1)
def str_(m, v):
    return m.text(v)


def _random(m, *a):
    raise Skip("random")


for _s, _a in (("RC", 1), ("SH", 1), ("RR", 1), ("RR", 2)):
    OPF[_a][_s] = _random

OPF[1]["M"], OPF[1]["N"], OPF[1]["R"] = OPF[1]["MX"], OPF[1]["MN"], OPF[1]["RV"]

for _ar in (1, 2, 3):
    _miss = set(S.OPS[_ar]) - set(OPF[_ar])
    assert not _miss, (_ar, _miss)
    _miss = set(OPF[_ar]) - set(S.OPS[_ar])
    assert not _miss, (_ar, _miss)
