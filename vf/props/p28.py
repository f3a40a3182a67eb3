"""P28: evaluating text is running it in place."""
from ..common import *
from ..engine import Suite
from . import p02, p13

NAMES = {"$_", "$__", "$___", "f", "RE", "\\f"}


def ok(text):
    """Usable in both places (V leaves the history variables alone)."""
    try:
        toks = S.lex(text)
        S.parse(toks)
    except (S.Bad, S.Incomplete):
        return False
    return not {t for _, t in toks} & NAMES


def quote(text):
    return lit(text)


def statements(d):
    p = P.Prog(d, budget=7, locals_=("a", "b", "c"))
    sts = [p.statement() for _ in range(d.int(1, 4))]
    pre = p.known()
    k = d.below(8)
    return {"pre": [p.assign() for _ in range(d.int(0, 2))], "sts": sts,
            "vars": sorted(p.kinds)[:8] + ["$0"] * d.chance(20),
            "place": d.below(5), "how": d.below(4), "args": d.many(
                0, 3, lambda: Gen(d).scalar())}


def program(case, body, tail=()):
    look = [f"P RP {n}" for n in case["vars"]]
    inner = case["pre"] + body + look
    k = case["place"]
    if k == 0:
        return ";\n".join(inner) + "\n()"
    if k == 1:
        return "({" + ";\n".join(inner) + "\n()};" + ";".join(
            map(lit, case["args"] or ["7"])) + ")\n" + ";\n".join(look) + "\n()"
    if k == 2:
        return "F t,2{\n" + ";\n".join(inner) + "\n}\n()"
    if k == 3:
        return "I 1{\n" + ";\n".join(inner) + "\n}\n()"
    return "{\n" + ";\n".join(inner) + "\n()} M [3;4]\n()"


def place_check(case, ctx):
    text = ";\n".join(case["sts"])
    if not ok(text) or not all(map(ok, case["pre"])):
        raise Discard
    how = case["how"]
    if how == 0:
        body = ["V " + quote(text)]
    elif how == 1:
        body = ["V {" + text + "}"]
    elif how == 2:
        body = ["V V " + quote(quote(text))]
        body = ["V " + quote("V " + quote(text))]
    else:
        body = ["V " + quote(s) for s in case["sts"]]
    whole = {"code": program(case, case["sts"]), "args": case["args"]}
    e = D.expected(whole)
    argv = ["-w", "--"] + case["args"]
    a = T.run(whole["code"], argv)
    code = program(case, body)
    b = T.run(code, argv)
    if (a.out, a.status, D.clean(a.err)) != (b.out, b.status, D.clean(b.err)):
        raise Violation(f"{code!r}\n  gives {b}\n  but in place "
                        f"{whole['code']!r}\n  gives {a}")
    if len(e.out) > 4:
        ctx.nontrivial()


def expressions(d):
    g = Gen(d, {"n": ["x"], "*": ["y", "x"], "s": ["z"]}, 10)
    xs = [g.expr(d.pick("nsNTLGR*P"), d.int(0, 3))
          for _ in range(d.int(1, 3))]
    return {"xs": xs, "pre": f"x:{lit(g.num())};y:{lit(g.value('*'))}",
            "args": [lit(g.value("*")) for _ in range(d.int(0, 3))]}


def expr_check(case, ctx):
    """V of an expression's text is its value, however it gets there."""
    xs, pre = case["xs"], case["pre"]
    args = "[" + ";".join(case["args"]) + "]"
    if not all(map(ok, xs)) or not ok(pre):
        raise Discard
    plain = [f"P RP ({x})" for x in xs] + \
        ["P RP [" + ";".join(xs) + "]", f"P RP ({{{xs[0]}}} V {args})",
         f"P RP ({{[{xs[-1]};g;b]}} V {args})"]
    e = D.expected({"code": "\n".join([pre] + plain + ["()"])})
    texts = "[" + ";".join(map(quote, xs)) + "]"
    via = [[f"P RP (V {quote(x)})" for x in xs] +
           [f"P RP ({{V a}} M {texts})", f"P RP ({quote(xs[0])} V {args})",
            f"P RP ({quote('[' + xs[-1] + ';g;b]')} V {args})"],
           [f"P RP (V {{{x}}})" for x in xs] +
           ["P RP (V " + quote("[" + ";".join(xs) + "]") + ")",
            f"P RP ({args} V {{{xs[0]}}})",
            f"P RP ((V {quote('{[' + xs[-1] + ';g;b]}')}) V {args})"]]
    base = T.run("\n".join([pre] + plain + ["()"]), [])
    if base.status != "ok":
        raise Discard
    for v in via:
        code = "\n".join([pre] + v + ["()"])
        r = T.run(code, [])
        if (r.out, r.status) != (base.out, base.status):
            L, M = base.out.split("\n"), r.out.split("\n")
            raise Violation(f"{code!r}: {r}\n  but in place {plain}: {base}")
    if substantial(case, e):
        ctx.nontrivial()


def programs(d):
    """V anywhere, of good and bad text, compared with the reference."""
    g = Gen(d, {"*": ["x", "y", "a"], "n": ["x"]}, 8)
    out = []
    for _ in range(d.int(1, 4)):
        k = d.below(16)
        e = g.expr("*", d.int(0, 2))
        q = quote(e) if d.chance(75) else quote(e[:d.int(0, len(e))])
        if d.chance(25):
            q = quote(d.pick(["x:4", "++x", "a:5", "P a", "x", "x@0", "",
                              ";c", "x:1 y:2 x.y", "I x{P 5}", "F b,2{P b}",
                              "RE 3", "{a}", "g", "P x;()", "V\"x\"", "_+1",
                              "(a", "[1", "1 2 3", ")", "\"", "f", "$_", "W x{x:0}",
                              "y PU 7", "[x;y]", "\\a", "$a:3;$a", "a b",
                              "{V\"a\"}9", "2\n3", "5  c", "{;c;}7"]))
        out.append(d.pick([
            f"P RP (V {q})", f"V {q}", f"P RP ({q} V [x;y])",
            f"P RP ([3;4] V {q})", f"(V {q}):9", f"P RP ((V {q}) V [6])",
            f"P RP ({{V {q}}} 5)", f"P RP ({{V a}} {q})", f"x:V {q}",
            f"P RP (V* [{q};{q}])", f"P RP (V {{{e}}})", f"u:V {q} P RP u",
            f"P RP ({{a:2 V {q} a}} 8)", f"P RP ({{{{V {q}}} 1}} 8)",
            f"P RP (_ V [7] M [{q}])", f"P RP ($V [{q};[1]])",
            f"P RP ({q} V \"ab\")", f"P RP ({q} V (2,4))",
            f"P RP ({{a}} V {quote('zq')})", f"P RP [V {q};V {q}]",
            f"I V {q} {{P 1}} EL {{P 2}}", f"P RP (V {lit(g.value('*'))})"
            if d.chance(40) else f"(V {q}) PU 3"]))
        if d.chance(50):
            out.append("P RP [x;y]")
    return {"code": "x:3;y:[1;2];" + ";\n".join(out) + "\n()", "args": ["A", "5"]}


def prog_check(case, ctx):
    if not case["code"].isascii() or "\\\\" in case["code"]:
        raise Discard      # characters unknown to the scanner
    e, _ = D.diff(case, ctx, warn=False)
    if len(e.out) > 8:
        ctx.nontrivial()


EDGES = ["' ", "'\n", "P' ", "5' ", " 5", "5 ", "\n5", "5\n", "\n\n", " ", "\t",
         ";x", ";x\n", "\n;x\n5", " ;x", "5;", "5;\n", "5  x", "5  x\n",
         "5  x\n6", "  5", "  x\n5", "{;a;}5", "5{;a;}", "{;a;}", "  ", "\r5",
         "5\r", "\v5", "'\t", "x:' ", "[' ;' ]", "' . ", "5\n ;z", "' \n' ",
         "a.' ", "{' }3", "{a.' }3", "I1{' }", "F i' {P i.i}", "\"  \"", "`  `",
         "\"\n\"", "\" ;a\"", "5;;6", ";;\n7", "P'  ", "P'  .1", "' N\" \" ", "L2' "]


def edges(tier):
    """White space and comments at the edges of the text count as anywhere."""
    return [{"text": t, "form": f, "pre": p} for t in EDGES
            for f in ("P RP (V {})", "V {}", "P RP ({}V[4;5])", "P RP (V V {q})",
                      "f:{{P RP (V {})}};(f 3)", "P RP ((V {})AE V {})",
                      "P RP (V* [{};{}])", "P RP (V M[{}])", "L 2{{V {}}}",
                      "P RP ({{V a}} {})")
            for p in ("", "x:[1;2]")]


def edges_check(case, ctx):
    code = "\n".join([case["pre"], case["form"].replace(
        "{q}", quote(quote(case["text"]))).replace("{}", quote(case["text"]))
        .replace("{{", "{").replace("}}", "}"), "P RP [x;$_]", "()"])
    D.diff({"code": code}, ctx)
    ctx.nontrivial()


def suite():
    return Suite("P28", [
        Family("edges", enum=edges, check=edges_check),
        Family("in place", statements, place_check, 9000),
        Family("expressions", expressions, expr_check, 9000),
        Family("programs", programs, prog_check, 14000),
    ], "Generated statements and expressions evaluated from text (once or "
       "twice quoted, as a block, one by one, in functions, loops and maps) "
       "must do and give what they do and give in place; V of any text, also "
       "invalid, compared with the reference; non-trivial: some output.",
        BASE_ASSUMPTIONS)
