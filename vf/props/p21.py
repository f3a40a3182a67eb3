"""P21: regular-expression matching and match variables."""
import re

from ..common import *
from ..engine import Suite

KEYS = keys("~ ~= @ ^ N NI @? @* RM || |> <| X J .", 2) + keys("R MR", 3)
ATOMS = ["a", "b", "c", ".", "\\d", "[ab]", "[^a]", "\\w", "1", " ", "A",
         "[A-C]", "\\s", "x"]
VARS = ["$0", "$1", "$2", "$3", "$9", "$$", "$(", "$)", "$[", "$]", "$`",
        "$'"]


def regex(d, depth=2):
    k = d.below(14)
    if depth <= 0 or k < 5:
        return d.pick(ATOMS)
    if k < 8:
        return regex(d, depth - 1) + regex(d, depth - 1)
    if k < 10:
        return "(" + regex(d, depth - 1) + ")"
    if k < 11:
        return "(" + regex(d, depth - 1) + ")" + d.pick("?*+")
    if k < 12:
        return "(?:" + regex(d, depth - 1) + ")" + d.pick(["?", "+", "{2}"])
    if k < 13:
        return regex(d, depth - 1) + "|" + regex(d, depth - 1)
    return d.pick(["^", "\\b", "", "(?=a)"]) + regex(d, depth - 1) + \
        d.pick(["$", "", ""])


def pattern(d):
    if d.chance(20):
        return lit(Gen(d).value("P"))
    return lit(Pat(regex(d), d.weighted([(7, 0), (2, 2), (1, 16), (1, 8),
                                         (1, 256)])))


def template(d):
    """A Pattern used as a replacement."""
    return "`" + "".join(d.many(1, 4, lambda: d.pick(
        ["&", "\\1", "-", "\\&", "<", ">", "\\2", "x", "\\n", " ", "\\\\",
         "[", "\\t", "1", "0"]))) + "`"


def subject(d):
    k = d.below(10)
    if k < 8:
        n = Gen(d).length(8)
        return "".join(d.pick("aabbcA1B 2xx\n") for _ in range(n))
    return Gen(d).string() if k < 9 else Gen(d).num()


def gen(d):
    out = ['"pxyq" ~ `(x)(y)()()()()()()()`'] * d.chance(85)
    for _ in range(d.int(1, 3)):
        p, s = pattern(d), lit(subject(d))
        two = f"[{s};{lit(subject(d))}]"
        t = lit(d.pick(["", "-", "<\\0>", "[\\1]", "\\1\\1", "$0", "xy", "\\\\",
                        "\\2|\\1"]) if d.chance(80) else subject(d))
        f = d.pick(["{a}", "{b}", "{b.a}", "{#g}", "{UCa}", "{[a;b;c]}",
                    "{$0.$1}", "{$(.$)}", "{x:x.a;x}", "{P a}", "{J g}", "{}",
                    "{$`}", "{b?b a}", "{7}", "{RVa}", "{$$}"])
        e = d.pick([
            f"({s} ~ {p})", f"({p} ~ {s})", f"({s} ~= {p})", f"({p} ~= {s})",
            f"({s} @ {p})", f"({s} ^ {p})", f"({s} R {p};{t})",
            f"({s} R {p};{f})", f"({f} MR {p};{s})", f"({f} MR {s};{p})",
            f"({p} N {s})", f"({p} NI {s})", f"({s} @? {p})",
            f"({s} @* {p})", f"({s} RM {p})", f"({s} || {p})",
            f"({s} |> {p})", f"({s} <| {p})", f"({two} ~= {p})",
            f"({two} ~ {p})", f"({two} R {p};{t})", f"({two} ^ {p})",
            f"({two} @ {p})", f"({s} R [{p};{pattern(d)}];{t})",
            f"({s} R [{p};{pattern(d)}];[{f};{t}])",
            f"({s} R {p};{template(d)})", f"({s} R {p};{template(d)})",
            f"({s} ~ {lit(subject(d)[:2])})",
            f"(({s} ~ {p}) ? {d.pick(VARS)} 0)",
            f"({{a ~ {p}}} M {two})", f"({{a ~= {p}}} FI {two})",
            f"({{a @ {p}}} {s})", f"({{a N {p}}} M {two})"])
        k = d.below(20)
        if k < 15:
            out.append("P RP " + e)
        elif k < 18:
            out.append(f"u:{s}\nP RP " + e.replace(s, "u", 1))
        elif k < 19:
            body = d.pick(["P RP $0", "P RP [$(;$)]", "P RP $1;O $`",
                           "i:i+#$0", "P a"])
            out.append(f"LR {p};{s} {{{body}}}" if d.chance(50) else
                       f"LR {s};{p} {{{body}}}")
        else:
            out.append(f"I {s} ~ {p} {{P RP $0}} EL {{P 'n}}")
        if d.chance(50):
            vs = VARS if d.chance(40) else d.many(1, 3, lambda: d.pick(VARS))
            out.append(f"P RP [{';'.join(vs)}]")
    return {"code": "\n".join(out) + "\n()"}


def groups(d):
    """More groups than there are match variables for."""
    n = d.int(3, 16)
    parts, text = [], []
    for i in range(n):
        c = "abcdefghijklmnop"[i]
        parts.append(f"({c}{d.pick(['', '?', '*', '+', '?'])})" +
                     d.pick(["", "", "", "?"]))
        if d.chance(85):
            text.append(c)
    for _ in range(d.int(0, 3)):
        # back-references, of one digit and two
        i = d.int(1, n)
        parts.append(f"\\{i}" + d.pick(["", "?", "(?:)"]))
        text.append("abcdefghijklmnop"[i - 1])
    p = "".join(parts)
    s = "".join(text)
    s = lit(d.pick(["", "-"]) + s + d.pick(["", "-" + s, " " + s[::-1], s]))
    t = lit("".join(d.many(1, 4, lambda: d.pick(
        ["\\1", "\\9", "\\%d" % d.int(1, 17), "-", "\\0",
         "\\g<%d>" % d.int(0, 17)]))))
    f = d.pick(["{g}", "{#g}", "{J g}", "{[e;d]}", "{e.d}", "{J RV g}",
                "{g@-1}", "{b.$9}", "{(J g@>4).$5}"])
    out = []
    for _ in range(d.int(1, 2)):
        out.append("P RP " + d.pick([
            f"({s} R `{p}`;{f})", f"({f} MR `{p}`;{s})", f"({s} R `{p}`;{t})",
            f"({s} ~ `{p}`)", f"({s} ~= `{p}`)", f"({s} ^ `{p}`)",
            f"({s} @ `{p}`)", f"({s} R `{p}`;{f})", f"({f} MR {s};`{p}`)",
            f"({s} R `{p}`;`" + "".join(d.many(1, 4, lambda: d.pick(
                ["&", "<", f"\\{d.int(1, n)}", "\\\\", "\\&"]))) + "`)"]))
        out.append(f"P RP [{';'.join(VARS)};$4;$5;$6;$7;$8]")
    return {"code": "\n".join(out) + "\n()"}


def histories(d):
    """The same few Patterns and subjects again and again, the match
    variables and the variables that hold the Patterns changed between."""
    ps = [lit(Pat(regex(d))) for _ in range(d.int(1, 2))]
    ss = [lit(subject(d)) for _ in range(d.int(1, 2))]
    out = [f"p:{ps[0]}", f"s:{ss[0]}",
           f"f:{{{d.pick(['a~p', 'b~p', 'p N a', 'a R p;{b}', 'a@p'])}}}"]

    def pat():
        return d.pick(["p", "p"] + ps + [f"(-{ps[0]})", f"(.{ps[-1]})",
                                         f"(p+{ps[-1]})", "p"])

    def subj():
        return d.pick(["s", "s", "$0", "$`", "$'"] + ss + ss)

    for _ in range(d.int(3, 7)):
        k = d.below(16)
        if k < 6:
            op = d.pick(["({s} ~ {p})", "({s} ~ {p})", "({p} ~ {s})",
                         "({s} ~= {p})", "({s} @ {p})", "({s} N {p})",
                         "({s} R {p};{{b}})", "({s} R {p};`<&>`)",
                         "({{$0.a}} MR {p};{s})", "({s} ^ {p})",
                         "({s} @? {p})", "({s} R {p};\"-\")"])
            out.append("P RP " + op.format(s=subj(), p=pat()))
        elif k < 9:
            v = d.pick(["$0", "$1", "$2", "$$", "$(", "$)", "$[", "$`", "$'",
                        "$5"])
            out.append(v + ":" + d.pick(["7", "()", '"q"', "[1;2]", "p", "s"]))
        elif k < 10:
            out.append(d.pick(["$1", "$0"]) + d.pick(["+:1", ".:7"]))
        elif k < 12:
            out.append("P RP (f " + subj() + ")")
        elif k < 13:
            out.append(d.pick(["p", "s"]) + ":" + d.pick(ps + ss))
        elif k < 14:
            out.append(d.pick(["LR p;s {P RP [$0;$1;$(]}",
                               "I s~p {P $0} EL {P 'n}",
                               "Fi [s;s] {i~p;P RP [$0;$1]}",
                               "L 2 {P RP (s~p);$0:8}"]))
        else:
            vs = d.many(1, 4, lambda: d.pick(VARS))
            out.append(f"P RP [{';'.join(vs)}]")
    out.append(f"P RP [{';'.join(VARS)}]")
    return {"code": ";\n".join(out) + ";\n()"}


def laws(d):
    p = regex(d)
    fl = d.weighted([(6, ""), (2, "-"), (1, "."), (1, "^")])
    return {"p": p, "fl": fl, "s": subject(d).replace("\\", "")}


FL = {"": 0, "-": re.I, ".": re.S, "^": re.M}
MOD = {"": "`%s`", "-": "(-`%s`)", ".": "(.`%s`)", "^": "`%s`"}


def law_check(case, ctx):
    """Straight from Python's re, without the reference interpreter."""
    p, s, fl = case["p"], case["s"], case["fl"]
    if fl == "^":
        fl = ""
    try:
        rx = re.compile(p, FL[fl])
    except re.error:
        raise Discard
    P_ = MOD[fl] % p
    if "\n" in s or '"' in s:
        raise Discard
    S_ = '"' + s + '"'
    ms = list(rx.finditer(s))
    show = "; ".join
    lines = [f"P #({S_}@{P_})", f"P ({P_} N {S_})", f"P ({S_} RM {P_})",
             f"P #({S_}^{P_})", f"P ({S_} R {P_};`<&>`)",
             f"P ({S_} R {P_};{{\"<\".a.\">\"}})",
             f"P (({S_} @* {P_}) J \",\")", f"P ({S_} ~= {P_})",
             f"P ({{$(.\":\".$)}} MR {P_};{S_}) J \",\"",
             f"P ({S_} ~ {P_}) ? $`.$0.$' {S_}",
             f"P ({S_} ~ {P_}) ? $( . \":\" . $) 0"]
    r = T.run(None, ["-e", "\n".join(lines) + "\n()"])
    if r.status != "ok":
        raise Violation(f"{lines!r}: {r.status} {r.detail}")
    first = rx.search(s)
    truthy = first and re.search("[^0.]", first.group())
    want = [str(len(ms)), str(len(ms)), rx.sub("", s), None,
            rx.sub(r"<\g<0>>", s),
            rx.sub(r"<\g<0>>", s),
            ",".join(str(m.start()) for m in ms),
            "1" if rx.fullmatch(s) else "0",
            ",".join(f"{m.start()}:{m.end()}" for m in ms), s,
            f"{first.start()}:{first.end()}"
            if truthy else None]
    got = r.out.split("\n")
    for line, w, g in zip(lines, want, got):
        if w is not None and w != g:
            raise Violation(f"{line}: expected {w!r}, observed {g!r}")
    if ms and any(m.group() for m in ms):
        ctx.nontrivial()


def suite():
    return Suite("P21", [
        sweep_family(KEYS[:14], pool1=[
            "`a`", "`b*`", "`(b)(c)?`", "(-`B`)", "``", "`(.)(.)`", "`^a|c$`",
            '"abcabc"', '"aBc\nb"', '""', '"b"', "[\"ab\";\"c\"]", "121", "()",
            "(,3)", "[`a`;\"b\"]", "{a}", "`.`", "(.`.+`)", "`x`"],
            pool2=["`a`", "`b*`", "`(b)(c)?`", "(-`B`)", "``", "`(.)(.)`",
                   "`^a|c$`", '"abcabc"', '"aBc\nb"', '""', '"b"',
                   "[\"ab\";\"c\"]", "121", "()", "(,3)", "[`a`;\"b\"]",
                   "{a}", "`.`", "(.`.+`)", "`x`"]),
        Family("matches", gen, diff_check(substantial), 24000),
        Family("many groups", groups, diff_check(substantial), 1200),
        Family("histories", histories, diff_check(substantial), 8000),
        Family("laws", laws, law_check, 6000),
        op_family(KEYS, 6000),
        large_family(KEYS, 2000),
    ], "Random regular expressions (groups, alternatives, repeats, flags) on "
       "short texts over their own alphabet, under every operator that takes "
       "a Pattern, then the match variables; laws compare with Python's re "
       "directly; non-trivial: distinct text with a match or a non-empty "
       "result and no nonfatal errors.", BASE_ASSUMPTIONS)
