"""The central oracle: run a program in the interpreter under test and in the
reference interpreter and compare everything a user can see."""
import re

from . import model as M
from . import syntax as S
from . import target as T
from . import values as V
from .engine import Discard, Violation

_NUM = re.compile(r"-?\d+(?:\.\d+)?(?:e[+-]?\d+)?")
NOTICE = "Iterating over an infinite Range"
FLAG = {"p": "-p", "P": "-P", "s": "-s", "S": "-S", "n": "-n", "l": "-l"}


def same_text(want, got):
    """Equal, allowing the last digits of non-integers to differ."""
    if want == got:
        return True
    if "." not in want:
        return False
    if _NUM.sub("#", want) != _NUM.sub("#", got):
        return False
    for w, g in zip(_NUM.findall(want), _NUM.findall(got)):
        if w == g:
            continue
        if "." not in w:
            return False
        a, b = float(w), float(g)
        if not abs(a - b) <= 1e-9 * max(abs(a), abs(b)):
            return False
    return True


def clean(err):
    return "\n".join(x for x in err.split("\n") if NOTICE not in x and
                     not x.startswith("While scanning, ignored"))


class Expected:
    __slots__ = ("out", "status", "warns")


def expected(case, fuel=20000):
    """What the reference says; Discard when it has no opinion."""
    e = Expected()
    args = tuple(case.get("args", ()))
    stdin = case.get("stdin", ())
    if case.get("r"):
        args, stdin = tuple(stdin), ()
    m = M.Interp(() if case.get("x") else args, case.get("fmt"), stdin,
                 fuel=fuel)
    e.status = "ok"
    try:
        prog = S.parse(S.lex(case["code"]))
    except (S.Bad, S.Incomplete):
        e.status, e.out, e.warns = "fatal", "", 0
        return e
    try:
        if case.get("x"):
            args = evaluated(m, args)
        m.run(prog, args)
    except (S.Bad, S.Incomplete):
        e.status = "fatal"
    except V.Skip:
        raise Discard
    except V.Fatal:
        e.status = "fatal"
    except (RecursionError, MemoryError):
        raise Discard
    except ValueError as x:
        if "string conversion" in str(x):
            raise Discard       # an integer of thousands of digits
        raise
    e.out, e.warns = m.output(), m.warns
    return e


def evaluated(m, args):
    """The values of arguments given as program text (-x)."""
    out = []
    for text in args:
        prog = S.parse(S.lex(text))
        if prog and prog[0][0] == "cmd":
            raise V.Fatal("not an expression")
        out.append(m.rv(prog[0]) if prog else None)
    return out


def actual(case, warn=True):
    argv = (["-w"] if warn else []) + \
        ([FLAG[case["fmt"]]] if case.get("fmt") else []) + \
        [f for f in ("-r", "-x") if case.get(f[1])] + \
        ["--"] + list(case.get("args", ()))
    stdin = case.get("stdin", ())
    return T.run(case["code"], argv, "".join(x + "\n" for x in stdin))


def explain(case, what, want, got):
    return f"{what}\n  program: {case['code']!r} {extras(case)}\n" \
           f"  expected: {want!r}\n  observed: {got!r}"


def extras(case):
    x = {k: v for k, v in case.items() if k != "code" and v}
    return x or ""


def diff(case, ctx, warn=True, fuel=20000):
    """Compare one program; returns (expected, actual)."""
    e = expected(case, fuel)
    r = actual(case, warn)
    if r.status != e.status:
        raise Violation(explain(case, "ends differently", e.status,
                                f"{r.status} {r.detail} err={r.err[-300:]}"))
    if e.status == "fatal":
        ctx.tag("fatal")
    if not same_text(e.out, r.out):
        raise Violation(explain(case, "wrong output", e.out, r.out))
    if e.status == "ok":
        err = clean(r.err)
        if warn:
            if bool(err.strip()) != bool(e.warns):
                raise Violation(explain(
                    case, "nonfatal errors reported",
                    "some" if e.warns else "none", err))
        elif err.strip():
            raise Violation(explain(case, "error output without -w", "",
                                    err))
    ctx.tag("warns" if e.warns else "clean")
    return e, r
