"""Laying out token lists as program text, and observing tokens."""
from . import syntax as S
from . import target as T

WS = [" ", "\n", "\t", "\r", "\f", " \n", "\n  ", "\n\n", "\t ", "\n\t", "\r\n"]
COMMENTS = ["{;c;}", "{; two  words\n;x ;}", "{;;}", "{;{;}", "{;\"`'\\;}",
            "{; } ;}", "{;5;}"]
LINES = ["  x\n", "  ;{; \"\n", "\n; y 'z\n", "\n \t;\n", "\n;{;\n", "  \n",
         "\n;}\n", "\n  ; a\n;b\n", "  P 9\n", "\n;\"\n"]


def separator(d, rich):
    """Text that must not matter between two tokens."""
    k = d.below(10)
    if not rich or k < 4:
        return " "
    if k < 6:
        return d.pick(WS)
    if k < 8:
        return d.pick(COMMENTS)
    return d.pick(LINES)


def lay_out(d, toks, rich=True, tight=35):
    """Some other text with these tokens."""
    out = ""
    if rich and d.chance(30):
        out = d.pick(LINES + WS + COMMENTS + [";c\n", "  c\n"])
    texts = [t for _, t in toks]
    for i, t in enumerate(texts):
        if i:
            sep = "" if d.chance(tight) else separator(d, rich)
            out += sep
        out += t
    if rich and d.chance(30):
        out += d.pick(WS + COMMENTS + ["  end", "\n;end", "\n", "{;c;}  c"])
    try:
        if S.lex(out) == toks:
            return out
    except S.Incomplete:
        pass
    # give up on the fancy separators that clash
    out, good = "", ""
    for i, t in enumerate(texts):
        sep = "" if not i else separator(d, rich) if d.chance(60) else " "
        try:
            ok = S.lex(out + sep + t) == toks[:i + 1]
        except S.Incomplete:
            ok = False
        out += (sep if ok else " ") + t
    try:
        if S.lex(out) == toks:
            return out
    except S.Incomplete:
        pass
    return " ".join(texts)


def listing(code):
    """(what -v says, how the run ends): nothing is executed, because the
    argument cannot be parsed."""
    r = T.run(code, ["-v", "-x", "--", "("])
    return r
