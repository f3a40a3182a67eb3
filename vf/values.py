"""Reference values of the Pip language.

Scalar -> Python str          nil  -> None
List   -> Python tuple        Range -> Rng    Pattern -> Pat    function -> Blk
All are immutable, so the reference cannot have aliasing by construction.
"""
import math
import re

from . import syntax as S


class Skip(Exception):
    """The case lies outside what the properties specify (or is too big)."""


class BadRegex(Skip):
    """A Pattern whose text is no regular expression was to be matched."""


class Fatal(Exception):
    """The program stops with a fatal error."""


class Rng:
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __eq__(self, o):
        return type(o) is Rng and (self.lo, self.hi) == (o.lo, o.hi)

    def __hash__(self):
        return hash(("R", self.lo, self.hi))

    @property
    def base(self):
        return self.lo or 0

    @property
    def finite(self):
        return self.hi is not None

    def size(self):
        if self.hi is None:
            raise Skip("length of infinite range")
        if self.hi - self.base > 1 << 62:
            raise Skip("range longer than any list can be")
        return max(0, self.hi - self.base)

    def empty(self):
        return self.hi is not None and self.hi <= self.base

    def __repr__(self):
        return f"Rng({self.lo},{self.hi})"


class Pat:
    __slots__ = ("raw", "flags")

    def __init__(self, raw, flags=0):
        self.raw, self.flags = raw, int(flags)

    def __eq__(self, o):
        return type(o) is Pat and (self.raw, self.flags) == (o.raw, o.flags)

    def __hash__(self):
        return hash(("P", self.raw, self.flags))

    def wrapped(self):
        return Pat("(?:" + self.raw + ")", self.flags) if len(self.raw) > 1 or \
            self.raw == "|" \
            else self

    def regex(self):
        try:
            return re.compile(self.raw, self.flags)
        except re.error:
            raise BadRegex("invalid regex")
        except (OverflowError, RecursionError):
            raise Skip("unusual regex")

    def __repr__(self):
        return f"Pat({self.raw!r},{self.flags})"


class Blk:
    __slots__ = ("stmts", "ret")

    def __init__(self, stmts, ret=("val", None)):
        self.stmts, self.ret = tuple(stmts), ret

    def __eq__(self, o):
        return type(o) is Blk and self.stmts == o.stmts and self.ret == o.ret

    def __hash__(self):
        return hash(show(self))

    def __repr__(self):
        return "Blk" + show(self)


def from_ast(stmts):
    """A function value from parsed statements."""
    stmts = list(stmts)
    if stmts and stmts[-1][0] != "cmd":
        return Blk(stmts[:-1], stmts[-1])
    return Blk(stmts)


ITERABLE = (str, tuple, Rng)
A, I, M, DOT = re.ASCII, re.IGNORECASE, re.MULTILINE, re.DOTALL


# ---------------------------------------------------------------- numbers

def _digits(s, i):
    j = i
    while j < len(s) and s[j].isdecimal():
        j += 1
    return j


def int_of(s):
    """Leading integer of a string (after white space), else 0."""
    s = s.lstrip()
    i = 1 if s[:1] == "-" else 0
    j = _digits(s, i)
    return int(s[:j]) if j > i else 0


def num_of(s):
    """Leading number of a string: int, float (with optional e+N), else 0."""
    s = s.lstrip()
    i = 1 if s[:1] == "-" else 0
    j = _digits(s, i)
    isfloat = False
    if s[j:j + 1] == ".":
        k = _digits(s, j + 1)
        if j > i or k > j + 1:
            isfloat, end = True, k
        else:
            end = j
    else:
        end = j
    if (isfloat or j > i) and s[end:end + 1] == "e" and s[end + 1:end + 2] in ("+", "-") \
            and s[end + 1:end + 2] != "":
        k = _digits(s, end + 2)
        if k > end + 2:
            isfloat, end = True, k
    if isfloat:
        return float(s[:end])
    return int(s[:j]) if j > i else 0


def sc(x):
    """Scalar from a Python number (or bool or str)."""
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, float):
        if math.isfinite(x) and x == int(x) and "e" not in repr(x):
            return str(int(x))
        return repr(x)
    if isinstance(x, complex):
        raise Skip("complex")
    if isinstance(x, int) and abs(x) > 10 ** 4000:
        raise Skip("huge int")
    return str(x)


def tonum(v):
    """Numeric interpretation used for sorting, minimum and maximum."""
    if isinstance(v, str):
        return num_of(v)
    if isinstance(v, tuple):
        return [tonum(x) for x in v]
    if isinstance(v, Rng):
        return [int(x) for x in items(v)] if v.finite else []
    return 0


def items(v, limit=20000):
    """The items of an iterable value."""
    if isinstance(v, str):
        return list(v)
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, Rng):
        if not v.finite:
            raise Skip("iterating an infinite range")
        if v.size() > limit:
            raise Skip("huge range")
        return [str(i) for i in range(v.base, v.hi)]
    raise TypeError(v)


def size(v):
    return v.size() if isinstance(v, Rng) else len(v)


_ZERO = re.compile(r"0+(\.0*)?|0*\.0+")


def truthy(v):
    if isinstance(v, str):
        if v.endswith("\n") and _ZERO.fullmatch(v[:-1]):
            raise Skip("zero followed by newline")
        return v != "" and not _ZERO.fullmatch(v)
    if v is None:
        return False
    if isinstance(v, tuple):
        return len(v) > 0
    if isinstance(v, Rng):
        return not v.empty()
    if isinstance(v, Pat):
        return v.raw != ""
    if isinstance(v, Blk):
        return bool(v.stmts) or v.ret != ("val", None)
    raise TypeError(v)


# ---------------------------------------------------------------- display

_NUMLIT = re.compile(r"-?[0-9]+(\.[0-9]+)?")


def show(v):
    """Display form (RP)."""
    if isinstance(v, str):
        if _NUMLIT.fullmatch(v) and not (v[0] == "-" and
                                         sc(num_of(v)) != v):
            return v
        if '"' in v:
            return '\\"' + v.replace("\\", "\\\\") + '\\"'
        return '"' + v + '"'
    if v is None:
        return "()"
    if isinstance(v, tuple):
        return "[" + ";".join(show(x) for x in v) + "]"
    if isinstance(v, Rng):
        f = lambda b: "()" if b is None else str(b)
        return f"({f(v.lo)},{f(v.hi)})"
    if isinstance(v, Pat):
        fl = "".join(c for b, c in ((A, "A"), (I, "-"), (M, ","), (DOT, "."))
                     if v.flags & b)
        return fl + "`" + v.raw.replace("`", "\\`") + "`"
    if isinstance(v, Blk):
        if v.ret == ("val", None):
            # nothing after the last statement
            return "{" + S.show_statements(v.stmts, show) + "}"
        return S.show_block(list(v.stmts) + [v.ret], show)
    raise TypeError(v)


def joined(v, sep, fmt):
    return sep.join(joined(x, sep, fmt) if isinstance(x, tuple)
                    else joined(tuple(items(x)), sep, fmt)
                    if isinstance(x, Rng) and x.finite
                    else text(x, fmt) for x in v)


def text(v, fmt=None):
    """String form (what printing shows)."""
    if isinstance(v, str):
        return v
    if v is None:
        return ""
    if isinstance(v, Pat):
        return v.raw
    if isinstance(v, Blk):
        return show(v)
    if isinstance(v, Rng):
        if not v.finite:
            return show(v)
        v = tuple(items(v))
    if not fmt:
        return "".join(text(x, fmt) for x in v)
    if fmt == "p":
        return show(v)
    if fmt == "n":
        return "\n".join(text(x, fmt) for x in v)
    if fmt == "s":
        return " ".join(text(x, fmt) for x in v)
    if fmt == "P":
        return "\n".join(show(x) for x in v)
    sep = {"l": "", "S": " "}[fmt]
    return "\n".join(joined(x, sep, fmt) if isinstance(x, tuple)
                     else joined(tuple(items(x)), sep, fmt)
                     if isinstance(x, Rng) and x.finite
                     else text(x, fmt) for x in v)


# ---------------------------------------------------------------- indexing

class NoItem(Exception):
    pass


def at(v, i):
    """Item i, wrapping around."""
    if isinstance(v, Rng):
        if v.empty():
            raise NoItem
        if not v.finite:
            return None if i < 0 else str(v.base + i)
        return str(v.base + i % v.size())
    if len(v) == 0:
        raise NoItem
    return v[i % len(v)]


def cut(v, start, stop):
    """Slice: negative bounds count from the end, others wrap around."""
    if isinstance(v, Rng):
        if v.empty():
            return v
        if not v.finite:
            if start is not None and start < 0 or stop is not None and stop < 0:
                return None
            return Rng(v.lo if start is None else v.base + start,
                       None if stop is None else v.base + stop)
        n = v.size()
        s = 0 if start is None else start
        e = n if stop is None else stop
        if s >= -n and e <= n:
            b, t, _ = slice(s, e).indices(n)
            return Rng(v.base + b, v.base + t)
        v = tuple(items(v))
    n = len(v)
    if n == 0:
        return v
    s = 0 if start is None else start
    e = n if stop is None else stop
    if s < 0:
        s += n
    if e < 0:
        e += n
    if e - s > 200000:
        raise Skip("huge slice")
    if max(abs(s), abs(e)) > 100000:
        raise Skip("huge slice bounds")
    out = [v[k % n] for k in range(s, e)]
    return "".join(out) if isinstance(v, str) else tuple(out)


def get(v, index):
    if isinstance(index, slice):
        return cut(v, index.start, index.stop)
    return at(v, index)
