"""P01: layout, comments and literals."""
from .. import layout as L
from ..common import *
from ..engine import Suite

BITS = ["a", "i", "x", "j", "_", "$0", "$a", "$ab_1", "$_", "$__", "$___",
        "$____", "$$", "$(", "$)", "$[", "$]", "$`", "$'", "$", "\\$", "\\a",
        "\\g", "\\h", "\\", "AB", "A", "ABC", "ABCD", "PIP", "PIPA", "XPIP",
        "EL", "EI", "EIA", "AEI", "WG", "LR", "LRA", "F", "I", "W", "0", "1",
        "12", "1.5", "1.", ".5", "1.5.2", "1..2", "007", "10a", "'a", "' ",
        "''", "'\n", "'", '"a"', '""', '"a\nb"', '"  ;"', '"{;"', '"', '"\\"',
        '\\"a\\"', '\\"\\\\\\"', '\\"a\\x\\"', '\\"\n\\"', '\\"', "`a`", "``",
        "`\\``", "`\\\\`", "`a", "`", "`a\nb`", "`\\\n`", "{;c;}", "{;", ";}",
        "{; ;", "{", "}", ";", ";;", "(", ")", "[", "]", " ", "  ", "   ",
        "\n", "\n;", "\n ;", "\t", "\r", "\t ;", " \n", "\n\n;x\n", "+", "++",
        "+:", "--", "**", "*", "***", "//", "/", "<", "<=", "<>", "<|", "|>",
        "||", "|", "|||", "|<", "|>>", ">|", "#", "#=", "#<", "=", "==", "===",
        "!=", "!", "\\|", "\\&", "\\!", "\\?", "\\,", "?", "~", "~=", "@", "@<",
        "@>", "@?", "@*", "@@", "^", "^@", ":", "::", ":::", ".", ",", "%",
        "&", "é", "€", "\u00a0", "\u2003", "日", "J", "R", "SH", "RA", "&&",
        "\x00", "\x1c", "\x7f"]


def soup(d):
    return {"text": "".join(d.pick(BITS) for _ in range(Gen(d).length(9)))}


def raw(d):
    n = Gen(d).length(10)
    return {"text": "".join(chr(d.int(32, 126)) if d.chance(90) else
                            d.pick("\n\t \"'`;{}\\é") for _ in range(n))}


def tokens_check(case, ctx):
    """The token listing of -v against the reference lexer."""
    text = case["text"]
    if any(c.isdecimal() and c > "9" for c in text):
        raise Discard
    r = L.listing(text)
    head = f"{len(text.encode('utf-8'))} bytes (UTF-8), {len(text)} characters"
    if not r.out.startswith(head + "\n\n"):
        raise Violation(f"{text!r}: size line {r.out[:60]!r}, want {head!r}")
    try:
        toks = S.lex(text)
    except S.Incomplete:
        ctx.tag("incomplete")
        if r.status != "fatal" or "while scanning" not in r.err or \
                r.out != head + "\n\n":
            raise Violation(f"{text!r} ends inside a literal or comment but: "
                            f"{r}")
        return
    want = head + "\n\n" + " ".join(t for _, t in toks) + "\n\n"
    if r.status != "fatal" or "while scanning:" in r.err:
        raise Violation(f"{text!r} is rejected by the scanner: {r}")
    if not r.out.startswith(want):
        raise Violation(f"{text!r}: tokens {r.out[len(head) + 2:]!r}, want "
                        f"{want[len(head) + 2:]!r}")
    if len(toks) > 1:
        ctx.nontrivial()


def respell(d):
    """A program and another layout of its tokens."""
    if d.chance(45):
        text = op_program(d, [k for k in G.PURE if k not in G.BIG and
                              HINTS[k]], 2)["code"]
    else:
        text = P.Prog(d, budget=8).program(6)
    toks = S.lex(text)
    return {"code": text, "other": L.lay_out(d, toks),
            "tight": L.lay_out(d, toks, rich=False, tight=85)}


def respell_check(case, ctx):
    D.expected(case)         # only programs of reasonable size
    base = T.run(case["code"], ["-w"])
    for k in ("other", "tight"):
        r = T.run(case[k], ["-w"])
        if r.key() != base.key():
            raise Violation(f"layout matters: {case['code']!r} gives {base}\n"
                            f"  but {case[k]!r} gives {r}")
    if case["other"] != case["code"] != case["tight"]:
        ctx.nontrivial()


def literals(d):
    """Literals full of things that mean something outside them."""
    out = []
    for _ in range(d.int(1, 4)):
        body = "".join(d.many(0, 5, lambda: d.pick(
            [" ", "  ", "\n", "\n;", ";", "{;", ";}", "{", "}", "'", "a", "AB",
             "1", "é", "\t", "(", ")", "$", "#", "\\\\", "日本"])))
        k = d.below(6)
        if k < 2:
            out.append('"' + body + d.pick(["`", "\\", ""]) + '"')
        elif k < 3:
            out.append("`" + body.replace("\\", "\\\\").replace("(", "\\(")
                       .replace(")", "\\)").replace("$", "\\$")
                       .replace("\n", " ").replace("{", "\\{") +
                       d.pick(["", "\\`", "\\n", "\\\\"]) + "`")
        elif k < 4:
            out.append("'" + d.pick(" ;'\"`{}\n()a1\\é"))
        elif k < 5:
            out.append('\\"' + body.replace("\\\\", "\\\\ ") + d.pick(
                ["", '"', 'q"q', "\\x", "\\x\\y", "\\XY", "\\\\x", "\\AB ",
                 "\\XYZ"]) + '\\"')
        else:
            out.append(d.pick(["12", "1.50", "0.0", "007", "1.", "3 .5",
                               "1 2"]))
    lines = [f"P RP {x}" for x in out]
    if d.chance(40):
        lines = ["x:5;y:[1;2]", 'XY:"ab"'] + lines
    if d.chance(30):
        lines = ["P # " + x for x in out] + ["P RP [" + ";".join(out) + "]"]
    return {"code": "\n".join(lines)}


COUNTS = [5, 9, 15, 16, 17, 20, 21, 31, 32, 33, 40, 41, 63, 64, 65, 100, 127,
          128, 129, 255, 256, 257, 300]


def run_of(d, pieces, n=None):
    """Many of a few pieces."""
    ps = [d.pick(pieces) for _ in range(d.int(1, 3))]
    return "".join(d.pick(ps) for _ in range(n or d.pick(COUNTS)))


def long_token(d):
    k = d.below(9)
    if k == 0:
        return "$" + d.pick("abz") + run_of(d, ["a", "b1", "_", "9"])
    if k == 1:
        return run_of(d, "0123456789") + d.pick(["", "." + run_of(d, "059")])
    if k == 2:
        return '"' + run_of(d, ["a", " ", "  ", "\\", "\n", "'", "`", "{;",
                                "\n;", "é", "AB"]) + '"'
    if k == 3:
        return "`" + run_of(d, ["a", "\\`", "\\\\", " ", "  ", '"', "\\n",
                                "\\.", "é", ";}"]) + "`"
    if k == 4:
        return '\\"' + run_of(d, ["a", "\\\\", '"', " ", "\\\\x", "  ", "n",
                                  "'", "\n"]) + '\\"'
    if k == 5:
        return '\\"' + run_of(d, ["\\x", "\\XY ", "\\y-", "\\\\", "\\x\\\\y",
                                  "a", "  "]) + '\\"'
    if k == 6:
        return "".join(d.pick(["$a", "x", "'q", "'  "[:2], "1 ", '""', "``"])
                       for _ in range(d.pick(COUNTS)))
    if k == 7:
        # capitals separate into pairs
        return run_of(d, ["XY", "AB", "X", "PQ", "ZYX"])
    return "[" + ";".join(run_of(d, ["x", "y", "1", "'a"], 1)
                          for _ in range(d.pick(COUNTS))) + "]"


def filler(d):
    return d.pick([" " * d.pick(COUNTS), "\n" * d.pick(COUNTS),
                   "{;" + run_of(d, ["a", "\n", "'", "{", " ;"]) + ";}",
                   "  " + run_of(d, ["c", " ", "\"", ";}"]) + "\n",
                   "{;;}" * d.pick(COUNTS), "\n; c" * d.pick(COUNTS) + "\n"])


def long_text(d):
    return {"text": "".join(long_token(d) if d.chance(60) else
                            filler(d) if d.chance(50) else d.pick(BITS)
                            for _ in range(d.int(1, 4)))}


def long_values(d):
    lines = ["x:5", "y:\"bc\"", 'XY:"pq"']
    for _ in range(d.int(1, 3)):
        t = long_token(d)
        if t[0] in "XABPZ":
            t = t[1:] if len(t) % 2 else t
            t = f"[{t}]" if d.chance(50) else f"[XY {t}]"
            if set(t) & set("PQABZ") or "YX" in t:
                t = "'c"
        if t[0] == "$" and "$" not in t[1:]:
            lines.append(f"{t}:{d.int(1, 99)}")
            lines.append(f"{t[:-1] + d.pick('qrs')}:{d.int(1, 99)}")
        k = d.below(4)
        t = t if t[:1] != "$" and "`'".find(t[:1]) < 0 and t[0] != "x" else \
            f"[{t}]"
        lines.append((filler(d) if d.chance(30) else "") +
                     ["P RP ", "P # ", "P RP [", "x:"][k] + t +
                     ["", "", ";1]", ";P # x;x:5"][k])
    return {"code": "\n".join(lines)}


def suite():
    return Suite("P01", [
        Family("token soup", soup, tokens_check, 20000),
        Family("raw text", raw, tokens_check, 6000),
        Family("layouts", respell, respell_check, 9000),
        Family("literals", literals, diff_check(), 9000),
        Family("long text", long_text, tokens_check, 1500),
        Family("long values", long_values, diff_check(), 2500),
    ], "Texts made of token fragments, partial literals, comments and white "
       "space compared with a reference lexer through the -v listing; programs "
       "rewritten with other white space, comments, line breaks or hardly any "
       "space must behave identically; literals containing comment openers, "
       "quotes and line breaks; literals, names, runs and "
       "comments of up to 300 pieces; non-trivial: two or more tokens / layouts that "
       "differ.", BASE_ASSUMPTIONS)
