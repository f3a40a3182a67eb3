"""P27: warnings are only messages."""
from ..common import *
from ..engine import Suite
from . import p26

BAD = ["1/0", "x@9", "l@3:1", "(() + 1)", "5@0:7",
       "()@0", "(\"a\" FI 3)", 
       "(`a` + `b` - 1)", "(a b)", "$9", "\\e",
       "[x;y]:[1]", "[x;y]:5", "(1 , `a`)", "x@():3",
       "(2 FB 99)", "(TB `a`)", "(7 CH 0)", "(A ())", 
       "1:2", "1+:2", "++5", "PO 5", "(RC [])", "(RR 0)", 
       "(0 E (-1))", "10 E 999 * 1.5", "(MX [])", 
       "$-(,())", "(CG `a`)", "(K ())", "()~`a`",
       "(AB \"x\" %0)", "(5 // 0.0)", "W(1/0){}", 
       "q/0"]
MORE = ["u:(1,());(u@2):5", "($u@0):5", "$u@1@2:5", "b@0:3", "({a+b} MU [(1,())])",
        "({5} MU [(1,())])", "\"ab\"~`(`", "LR `*` \"ab\"{P 1}", "[u;v]:(1,())",
        "u:{a};u@0:1", "u:`a`;u@0:1", "x:();x@0:1", "u:[1;2];u@`a`:3",
        "({1/0} 3)", "LR[1]2{}", "u::5", "5::u", "(U 5)", "u:[];PO u", "q:5",
        "RC\"\"", "RR()", "(V {1/0})", "(V())", "({1}V{2})", "(D(5))", "\"a\"R`*`1",
        "[x;y]:,999999999999", "[x]:[1;,999999999999]", "(,999999999999):5",
        "[x;[y;z]]:[1;,999999999999]", "(,999999999999)UW 0"]
KEYS = [k for k in HINTS if k not in G.BIG and k[0] not in "RR RC SH V RE".split()]


def stmt(d, p):
    k = d.below(12)
    if k < 4:
        return d.pick(BAD) if d.chance(70) else d.pick(MORE)
    if k < 6:
        return f"P RP ({d.pick(BAD)})" if d.chance(70) else \
            f"{{{d.pick(BAD)}; {d.pick(BAD)}}}V[1;2]"
    if k < 9:
        return p.statement()
    g = Gen(d, {}, 40)
    key = d.pick(KEYS)
    alts = HINTS[key]
    args = d.pick(alts)[0] if alts else "**"[:key[1]]
    xs = [g.expr(a if d.chance(60) else "*", d.int(0, 1)) for a in args]
    return "P RP " + build(key[0], xs)


def gen(d):
    p = P.Prog(d, wild=35, budget=8)
    out = d.many(1, 5, lambda: stmt(d, p))
    if d.chance(40):
        out.append("P RP [x;y;l;i;$_;s]")
    case = {"code": "\n".join(out), "stdin": ["line", "2"]}
    if d.chance(30):
        case["fmt"] = d.pick("pPsSnl")
    if d.chance(20):
        case["repl"] = 1
    return case


def messages(err):
    """What is there with or without -w (the way a run ends is a message too)."""
    return [x for x in err.split("\n") if x.strip() and D.NOTICE not in x and
            not x.startswith("While scanning, ignored")]


FATAL = ("Fatal error", "Program terminated", "Execution aborted",
         "Syntax error")


def check(case, ctx):
    fmt = ["-" + case["fmt"]] if case.get("fmt") else []
    stdin = "".join(x + "\n" for x in case["stdin"])
    if case.get("repl"):
        code, stdin = None, case["code"] + "\n" + stdin
        fmt = fmt + ["-R"]
        try:
            p26.Session(stdin.split("\n")[:-1])
        except (V.Skip, RecursionError, MemoryError, ValueError):
            raise Discard
    else:
        code = case["code"]
        D.expected(case)                # a program of reasonable size
    quiet = T.run(code, fmt, stdin)
    loud = T.run(code, ["-w"] + fmt, stdin)
    if (quiet.out, quiet.status) != (loud.out, loud.status):
        raise Violation(f"{case['code']!r}: with -w it prints {loud}\n"
                        f"  without {quiet}")
    if quiet.status not in ("ok", "fatal"):
        raise Violation(f"{case['code']!r}: {quiet}")
    q, l = messages(quiet.err), messages(loud.err)
    q0 = [x for x in q if x.startswith(FATAL)]
    if quiet.status == "ok" and q != q0 or not case.get("repl") and q and \
            quiet.status == "ok":
        raise Violation(f"{case['code']!r}: messages without -w: {q}")
    it = iter(l)
    if not all(x in it for x in q):
        raise Violation(f"{case['code']!r}: without -w {q}; with -w {l}")
    if len(l) > len(q):
        ctx.nontrivial()


def one(tier):
    """Each failing operation alone: gives its value and a message."""
    return [{"code": b} for b in BAD + MORE]


def one_check(case, ctx):
    b = case["code"]
    for before, after in (("", ""), ("P 1\n", "\nP 2"), ("{", "\nP 3}V[]"),
                          ("I 1{", "\nP 4}"), ("F c,2{", "\nP c}")):
        code = f"{before}{b}{after}\nP 5\n()"
        w, q = T.run(code, ["-w"], "1\n2\n"), T.run(code, [], "1\n2\n")
        if w.status != "ok" or q.status != "ok" or w.out != q.out or \
                not w.out.endswith("5\n"):
            raise Violation(f"{code!r}: {w}; without -w {q}")
        if not messages(w.err) or messages(q.err):
            raise Violation(f"{code!r}: messages with -w {w.err!r}, without "
                            f"{q.err!r}")
    ctx.nontrivial()


def suite():
    return Suite("P27", [
        Family("each failure", enum=one, check=one_check),
        Family("programs", gen, check, 14000),
        Family("reported", gen, reported, 9000),
    ], "Programs in which about half of the operations fail, run with and "
       "without -w (also in the loop): same output and ending, messages only "
       "with -w, and then exactly when the reference meets an error; "
       "non-trivial: -w showed a message.", BASE_ASSUMPTIONS)


def reported(case, ctx):
    case = {k: v for k, v in case.items() if k != "repl"}
    e, _ = D.diff(case, ctx)
    if e.warns:
        ctx.nontrivial()
