"""P03: every text is either a program or cleanly rejected."""
from .. import target
from ..common import *
from ..engine import Suite
from . import p01, p02

TOKS = ["(", ")", "[", "]", "{", "}", ";", "$", "\\$", "EL", "EI", "*", ":",
        "a", "x", "1", '"s"', "`p`", "'c", '\\"q\\"', '\\"\\x\\"', "F", "I",
        "L", "LR", "T", "W", "WG", "()", "{}", "[]", "RC", "$+", "\\$.", "j"]


def soup(d):
    n = Gen(d).length(8)
    out = []
    for _ in range(n):
        k = d.below(10)
        out.append(d.pick(TOKS) if k < 7 else d.pick(p02.UN) if k < 8 else
                   d.pick(p02.BIN) if k < 9 else d.pick(p02.TERN))
    return {"text": d.pick([" ", "\n", ""]).join(out)}


def mutant(d):
    """A valid program with a few tokens lost, doubled, swapped or changed."""
    text = p02.gen(d)["code"][2:-1] if d.chance(50) else \
        P.Prog(d, budget=6).program(5)
    try:
        toks = [t for _, t in S.lex(text)]
    except S.Incomplete:
        toks = [text]
    for _ in range(d.int(0, 3)):
        if not toks:
            break
        i = d.below(len(toks))
        k = d.below(6)
        if k < 2:
            del toks[i]
        elif k < 3:
            toks.insert(i, d.pick(TOKS))
        elif k < 4:
            toks[i] = d.pick(TOKS)
        elif k < 5:
            toks = toks[:i]
        else:
            j = d.below(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
    text = " ".join(toks)
    if d.chance(15):
        text = text[:d.int(0, len(text))]
    return {"text": text}


def nested(d):
    n = d.pick([1, 40, 90, 250, 400, 1200, 3000])
    a, b = d.pick([("(", ")"), ("[", "]"), ("{", "}"), ("-", ""), ("1+(", ")"),
                   ("I1{", "}"), ("1?2", ""), ("F i[", "]"), ("F[", "]"), ("W1 ", ""),
                   ("a:", ""), ("1+", ""), ("$+", ""), ("(1 ", ")"), ("!", ""),
                   ("a**", ""), ("a<", ""), ("{;", ";}"), ("`", ""), ("1;", "")])
    return {"text": a * n + d.pick(["1", "", "x"]) +
            b * (n if d.chance(80) else d.int(0, n)), "deep": n > 60}


def check(case, ctx):
    text = case["text"]
    if any(c.isdecimal() and c > "9" for c in text):
        raise Discard
    r = T.run('P "ran"\n' + text, ["-x", "--", "("])
    if r.status != "fatal" or r.out:
        raise Violation(f"{text[:300]!r}: neither accepted nor rejected: {r}")
    err = [x for x in r.err.split("\n") if not x.startswith("While scanning, ig")]
    if len(err) < 3 or err[-1] or err[-2] != "Execution aborted." or \
            not err[0].startswith("Fatal error while "):
        raise Violation(f"{text[:300]!r}: unexpected report {r.err!r}")
    accepted = err[0].startswith("Fatal error while parsing argument '(':")
    if case.get("deep"):
        ctx.tag("deep", "deep accepted" if accepted else "deep rejected")
        ctx.nontrivial()
        return
    why = ""
    try:
        S.parse(S.lex('P "ran"\n' + text))
        want = True
    except S.Incomplete as x:
        want, why = False, f"incomplete: {x}"
    except S.Bad as x:
        want, why = False, f"bad: {x}"
    except RecursionError:
        raise Discard
    if want != accepted:
        raise Violation(f"{text!r} should be " +
                        (f"accepted but: {err[0]}" if want else
                         f"rejected ({why}) but it is accepted"))
    ctx.tag("accepted" if accepted else "rejected")
    if len(text) > 2:
        ctx.nontrivial()


PIECES = ["a", "x", "[]", "[ ]", "[a]", "[a;b]", "[a b]", "[1]", "[[a]]",
          "[[]]", "[a:1]", "(a)", "a@1", "()", "1", "{a}", "{}", "`a`", "+",
          ",3", "{P 1}", "P", ";", "E", "EI", "EL", "(", ")", "[", "]", "{",
          "}", "$+", "a:", "-", "?", "\"s\"", "$", ":", "q", "(a;b)", "!"]


def headers(d):
    """Commands with whatever may stand where their parts are expected."""
    def one():
        out = [d.pick(["F", "F", "I", "L", "LR", "LC", "T", "U", "W", "WG",
                       "S", "Y", "E", "EI", "RC"])]
        out += [d.pick(PIECES) for _ in range(d.int(0, 5))]
        return " ".join(out)
    out = one()
    k = d.below(5)
    if k == 0:
        out = "{" + out + "}"
    elif k == 1:
        out += d.pick([";", "", "\n"]) + " " + one()
    elif k == 2:
        out = d.pick(PIECES) + " " + out
    return {"text": out}


def endings(d):
    """main() turns a rejected program into exit status 1."""
    return {"text": soup(d)["text"], "how": d.pick(["code", "main"])}


def endings_check(case, ctx):
    text = "{ " + case["text"]      # accepted only if the text closes it
    try:
        S.parse(S.lex("P 1\n" + text))
        raise Discard
    except (S.Incomplete, S.Bad):
        pass
    r = T.run(None, None, "", entry="main",
              sysargv=["pip.py", "-e", "P 1\n" + text])
    if r.status != "exit" or r.detail != 1 or r.out or \
            "Execution aborted." not in r.err or "Traceback" in r.err:
        raise Violation(f"{text!r} should end with exit status 1 and no "
                        f"output: {r}")
    ctx.nontrivial()


def suite():
    return Suite("P03", [
        Family("soup", soup, check, 24000),
        Family("mutants", mutant, check, 16000),
        Family("fragments", p01.soup, check, 8000),
        Family("headers", headers, check, 16000),
        Family("nesting", nested, check, 300),
        Family("endings", endings, endings_check, 3000),
    ], "Token soups, programs with tokens lost, doubled, swapped or cut off, "
       "commands over arbitrary "
       "pieces, text fragments and deep nesting: accepted or rejected as the reference "
       "grammar says, with one report, no output and no crash; nothing is "
       "executed (an argument that cannot be parsed stops every accepted "
       "program); non-trivial: more than two characters.", BASE_ASSUMPTIONS)
