"""P33: building Patterns from smaller ones."""
import itertools
import re

from ..common import *
from ..engine import Suite

U = keys("X . K + - , A C", 1)
B = keys("X . + * , WR J", 2)
POOL = ["`a`", "`ab`", "`a|b`", "(-`B`)", "(.`.`)", "(,`^a`)", "``", "`(a)b`",
        "`(.)\\1`", '"a.b"', '"a|b"', '""', '"a"', "0", "1", "2", "(-1)",
        "2.5", "12", "()", '["a";"b|"]', "[`a`;`b`]", "(,3)", "{a}",
        "(A`\\w`)", '"("', '"\\\\"', '"`"', '" "', "[`a`;2;\"c\"]", "`\\``"]
WORDS = ["".join(w) for n in range(5) for w in itertools.product("abB", repeat=n)]
EXTRA = ["a\nb", "\n", "ab\n", ".", "a.b", "a|b", "|", "ababab", "aaaaa",
         "a+", "(a)", "^a", "a\nab", "\\", "a*", "b" * 6]
FLAG = {"-": re.I, ".": re.S, ",": re.M, "A": re.A}


SYM = {"cat": "+", "alt": ",", "raw": "."}


def tree(d, depth):
    k = d.below(20)
    if depth <= 0 or k < 4:
        if d.chance(35):
            return ["lit", "".join(d.many(0, 2, lambda: d.pick("aabB.|+(^*\\")))]
        return ["pat", d.pick(["a", "b", "ab", "a|b", ".", "[ab]", "a?", "^a",
                               "B", "", "(a)|b", "b$"])]
    s = lambda: tree(d, depth - 1)
    if k < 6:
        return ["K", s()]
    if k < 8:
        return ["plus", s()]
    if k < 10:
        return ["C", s()]
    if k < 13:
        return ["cat", s(), s()]
    if k < 15:
        return ["raw", s(), s()]
    if k < 16:
        return ["alt", s(), s()]
    if k < 17:
        return ["times", s(), d.int(0, 3)]
    if k < 18:
        return ["reps", s(), d.int(0, 3)]
    return ["flag", d.pick("-.,A"), s()]


def regex(t):
    """(python regular expression, flags)"""
    k = t[0]
    if k == "lit":
        return "(?:" + re.escape(t[1]) + ")", 0
    if k == "pat":
        return t[1], 0
    if k == "flag":
        r, f = regex(t[2])
        return r, f ^ FLAG[t[1]]
    r, f = regex(t[1])
    if k == "K":
        return f"(?:{r})*", f
    if k == "plus":
        return f"(?:{r})+", f
    if k == "C":
        return f"({r})", f
    if k == "times":
        return f"(?:{r}){{{t[2]}}}", f
    if k == "reps":
        return r * t[2], f
    r2, f2 = regex(t[2])
    if k == "cat":
        return f"(?:{r})(?:{r2})", f | f2
    if k == "alt":
        return f"(?:{r})|(?:{r2})", f | f2
    return r + r2, f | f2


def source(t):
    k = t[0]
    if k == "lit":
        return f'(X "{t[1]}")'
    if k == "pat":
        return f"`{t[1]}`"
    if k == "flag":
        return f"({t[1]} {source(t[2])})"
    a = source(t[1])
    if k in ("K", "C"):
        return f"({k} {a})"
    if k == "plus":
        return f"(+ {a})"
    if k in ("times", "reps"):
        return f"({a} {'*' if k == 'times' else 'X'} {t[2]})"
    return f"({a} {SYM[k]} {source(t[2])})"


def laws(d):
    return {"tree": tree(d, d.int(1, 3)), "words": d.many(
        8, 14, lambda: d.pick(WORDS) if d.chance(75) else d.pick(EXTRA))}


def law_check(case, ctx):
    t, words = case["tree"], case["words"]
    r, f = regex(t)
    try:
        rx = re.compile(r, f)
    except re.error:
        raise Discard
    # raw concatenation may leave a different number of groups or alternatives
    # than meant; the flat text is the meaning of "." and X
    L = lit(tuple(words))
    p = source(t)
    code = f"p:{p}\nP RP ({{a ~= p}} M {L})\nP RP ({{p N a}} M {L})\n" \
           f"P RP ({{a RM p}} M {L})\nP RP ({{a ~= {p}}} M {L})\n()"
    res = T.run(None, ["-e", code])
    if res.status != "ok":
        raise Violation(f"{code!r}: {res.status} {res.detail}")
    got = res.out.split("\n")

    def show(xs):
        return V.show(tuple(xs))
    full = show("1" if rx.fullmatch(w) else "0" for w in words)
    want = [full, show(str(sum(1 for _ in rx.finditer(w))) for w in words),
            None, full]
    rm = show(rx.sub("", w) for w in words)
    if "\n" not in rm:
        want[2] = rm
        if len(got) != 5:
            raise Violation(f"{code!r}: {got}")
        for w, g in zip(want, got):
            if w != g:
                raise Violation(f"{code!r} (python: {r!r} {f}): {g}, want {w}")
    elif got[:2] != want[:2]:
        raise Violation(f"{code!r} (python: {r!r} {f}): {got[:2]}, "
                        f"want {want[:2]}")
    if "1" in full and "0" in full:
        ctx.nontrivial()


def gen(d):
    out = []
    for _ in range(d.int(1, 3)):
        t = source(tree(d, d.int(0, 3)))
        w = lit(d.pick(WORDS + EXTRA))
        e = d.pick([t, f"({t} X {lit(Gen(d).small())})",
                    f"({t} * {lit(Gen(d).scalar())})", f"({t} WR {t})",
                    f"({t} . {lit(Gen(d).scalar())})", f"({w} WR {t})",
                    f"({lit(Gen(d).scalar())} . {t})", f"([{t};{w}] J {t})",
                    f"(X {lit(Gen(d).value(d.pick('TLnsPR')))})",
                    f"(K {lit(Gen(d).value('*'))})", f"({w} ^ {t})",
                    f"({w} R {t};\"<&>\")", f"({w} R {t};{{\"<\".a.\">\"}})",
                    f"($. [{t};{w}])", f"($+ [{t};`b`;{t}])", f"({t} Q {t})",
                    f"(- {t})", f"(-* [{t};{t}])", f"({t} @ {w})",
                    f"({w} @ {t})", f"(# {t})", f"({t} + {t})"])
        if d.chance(20):
            out += [f"u:{t}", f"(u {d.pick(['+', '.', 'WR'])}: `b`)",
                    "P RP u"]
        out.append("P RP " + e)
    return {"code": "\n".join(out) + "\n()"}


def suite():
    return Suite("P33", [
        sweep_family(U + B, pool1=POOL, pool2=POOL),
        Family("laws", laws, law_check, 14000),
        Family("built", gen, diff_check(substantial), 12000),
    ], "Random trees of Pattern-building operators (escape, star, plus, repeat, "
       "capture, concatenation, alternation text, flags) matched in full, "
       "counted and removed on all words over a small alphabet and special "
       "texts, against Python's re; display and other operands against the "
       "reference; non-trivial: some word matches and some does not, or "
       "distinct program without nonfatal errors.", BASE_ASSUMPTIONS)
