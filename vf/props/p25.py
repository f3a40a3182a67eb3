"""P25: the command line."""
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile

from ..common import *
from ..engine import Suite

# ------------------------------------------------------------- arguments

USES = ["P RP a", "P RP g", "P RP [a;b;c;d;e]", "P RP (g@-1)", "P #g", "P RP \\a",
        "P RP ({[a;\\a;\\b;\\g]} 5)", "F x g{P RP x}", "P RP ({$+g})",
        "a:9 P RP [a;g;\\a]", "P RP [x;y;l;i]", "P RP q", "P RP [q;q]",
        "P RP (RV g)", "g@0:7 P RP [a;g]", "P RP (a.b)", "P RP (a=b)",
        "a PU 3 P RP [a;g]", "P RP (a V [2;3])", "({g@0:1 P RP g} a) P RP g",
        "P RP [$0;$_]", "\\b", "g"]
ARGCODE = ["5", "-5", "1.50", '"a b"', "[1;2]", "[[1;2];[3]]", "()", "2,7",
           ",4", "`a+`", "{a+1}", "_*2", "x:5", "x", "x@0:7", "[x;y]",
           "x:[1;2]", "x:x.1", "i:i+1", "(++i)", "i", "P 7", "O 8", "", " ",
           "  c", "\n;c", "{;c;}", "1/0", "1;2", "1 2", "]", "(", "[1;2",
           '"a', "`a", "I1{2}", "W0{}", "F i,2{i}", "U 3", "a", "g", "\\a",
           "\\g", "f", "$0", '"ab"~`b`', "$_", "XA", "q", "PI>3", "l PU 3",
           "l", "x@5", "{x:3;x}V[]", "$+[1;2;3]", "(x 1)", "'a", '\\"a\\x\\"',
           "+", "RC", "V\"x:6\"", "EL", "1}2", "{a}"]


def arguments(d):
    g = Gen(d)
    case = {"code": "\n".join(d.many(1, 3, lambda: d.pick(USES)))}
    if d.chance(25):
        case["code"] = P.Prog(d, budget=5).program(4)
    if d.chance(50):
        case["x"] = 1
        one = lambda: d.pick(ARGCODE) if d.chance(80) else g.expr(
            "*", d.int(0, 2))
    else:
        one = lambda: g.scalar() if d.chance(75) else d.pick(
            ["-e", "--", "-", "-p", "-1", "", "  ", "a b", "'", '"', "é", ";",
             "-x", "[1;2]", "\\n", "()"])
    vals = d.many(0, 7 if d.chance(15) else 3, one)
    other = d.many(0, 2, lambda: d.pick(["1", "zz", "", " p "]))
    if d.chance(35):
        case["r"] = 1
        vals = [v.replace("\n", " ") for v in vals]
        case["stdin"], case["args"] = vals, other
    else:
        case["args"] = vals
        case["stdin"] = other if not any("q" in v for v in vals) or \
            d.chance(50) else []
    return case


def args_check(case, ctx):
    if "V" in case["code"] and "x" not in case and not re.fullmatch(
            "[A-Za-z0-9 .,;()\\[\\]\n-]*", "".join(
                case["args"] + list(case.get("stdin", ())))):
        raise Discard       # evaluating such text warns while scanning it
    diff_check(args_rule)(case, ctx)


def args_rule(case, e):
    return bool(case["args"] or case.get("stdin")) and len(e.out) > 3


# ------------------------------------- where the code and options come from

class Scratch:
    """A directory to keep program files in."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vf-p25-")
        return self

    def file(self, text, name="prog.pip"):
        p = os.path.join(self.dir, name)
        with open(p, "w", encoding="utf-8", newline="") as fh:
            fh.write(text)
        return p

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


LONG = {"-p": "--repr", "-P": "--reprlines", "-s": "--space",
        "-S": "--spacelines", "-n": "--newline", "-l": "--lines",
        "-w": "--warnings", "-v": "--verbose", "-d": "--debug",
        "-r": "--readlines", "-x": "--exec-args"}
SHORT = {"--repr": "--repr", "--reprlines": "--reprl", "--space": "--space",
         "--spacelines": "--spacel", "--newline": "--new", "--lines": "--li",
         "--warnings": "--warn", "--verbose": "--verb", "--debug": "--deb",
         "--readlines": "--read", "--exec-args": "--exec-"}


def spell(d, flags):
    """The flags in some order and notation, as a list of words."""
    flags = list(flags)
    for i in range(len(flags) - 1, 0, -1):
        j = d.int(0, i)
        flags[i], flags[j] = flags[j], flags[i]
    out = []
    while flags:
        k = d.below(4)
        f = flags.pop(0)
        if k == 0:
            out.append(f)
        elif k == 1:
            out.append(LONG[f])
        elif k == 2:
            out.append(SHORT[LONG[f]])
        else:
            while flags and d.chance(50):
                f += flags.pop(0)[1:]
            out.append(f)
    return out


def program(d):
    k = d.below(8)
    if k < 4:
        return P.Prog(d, budget=6).program(4)
    if k < 6:
        return op_program(d, [k for k in G.PURE if k not in G.BIG and
                              HINTS[k]], 2)["code"]
    if k < 7:
        return "\n".join(d.many(1, 3, lambda: d.pick(USES)))
    return d.pick(["", " ", "\n", "(", '"a', "1/0", "x@", "1\n", "\n\n5", ";c",
                   "5\n;c", "  c\n7\n", "]", "a\n\n\n", '"a\nb"', "'é", "q",
                   "P1 V5@0@1", "T0{}", "[1;[2;3]]", "W1{", "(f)", "\"日本\"",
                   "10 U", "PI", "g", "{", "[a b\n;c", "P\"x\ty\"", "'\n"])


def sources(d):
    flags = []
    if d.chance(50):
        flags.append("-" + d.pick("pPsSnl"))
    for f, c in (("-w", 40), ("-v", 12), ("-x", 12)):
        if d.chance(c):
            flags.append(f)
    if d.chance(10):
        flags = [f for f in flags if f in ("-x",)] + ["-d"]
    args = d.many(0, 3, lambda: Gen(d).scalar() if "-x" not in flags else
                  d.pick(ARGCODE))
    stdin = d.many(0, 2, lambda: d.pick(["1", "two", "", "x y"]))
    return {"code": program(d), "flags": flags, "args": args, "stdin": stdin,
            "words": [spell(d, flags) for _ in range(7)], "r": d.chance(12)}


def as_text(words):
    """A command line in one text, as typed at the interactive prompt."""
    out = []
    for w in words:
        if '"' in w and "'" in w:
            # closed and opened again: the parts join
            out.append("".join(f"'{c}'" if c == '"' else f'"{c}"' for c in w))
        elif '"' in w:
            out.append(f"'{w}'")
        elif "'" in w or " " in w or not w:
            out.append(f'"{w}"')
        else:
            out.append(w)
    return " ".join(out)


def asked(case, main, line, rest, want):
    """Started without arguments, it asks for them (and for the program)."""
    for got in (T.run(None, None, line + "\n" + rest),
                main([], line + "\n" + rest)):
        head, go, out = got.out.partition("Executing...\n")
        if not got.out.startswith("=== Welcome to Pip, version ") or \
                (out, got.err) != (want.out, want.err) or \
                bool(go) != ("Execution aborted." not in want.err) or \
                (got.status == "ok") != (want.status == "ok") or \
                got.status not in ("ok", "fatal", "exit"):
            raise Violation(f"typed after the banner: {line!r}, {rest!r}\n"
                            f"  gives {got}\n  but otherwise {want}")


def sources_check(case, ctx):
    code, args, W = case["code"], case["args"], case["words"]
    if any("\udc80" <= c <= "\udfff" or c == "\r" for c in code):
        raise Discard
    D.expected(case)              # only programs of reasonable size
    r = ["-r"] if case["r"] else []
    lines = "".join(x + "\n" for x in case["stdin"])
    tail = ["--"] + args
    base = T.run(code, case["flags"] + r + tail, lines)

    def same(name, got, base=base):
        if got.key() != base.key():
            raise Violation(f"{name}: {code!r} {case}\n  gives {got}\n"
                            f"  but from the API {base}")
    with Scratch() as s:
        path = s.file(code)
        ok = base.status if base.status != "fatal" else "exit"

        def main(words, stdin=lines):
            return T.run(entry="main", sysargv=["pip.py"] + words, stdin=stdin)

        def cli(name, got):
            if got.status != ok or ok == "exit" and got.detail != 1 or \
                    (got.out, got.err) != (base.out, base.err):
                raise Violation(f"{name}: {code!r} {case}\n  gives {got}\n"
                                f"  but from the API {base}")
        got = T.run(code, case["flags"] + r + tail, lines, entry="run")
        if (got.out, got.err, got.status) != (base.out, base.err, "ok"):
            raise Violation(f"run(): {code!r} {case}\n  gives {got}\n"
                            f"  but pip() {base}")
        same("-f", T.run(None, W[0] + r + ["-f", path] + tail, lines))
        same("file argument", T.run(None, r + W[1] + ["--", path] + args,
                                    lines))
        cli("main -f", main(["--file=" + path] + r + W[2] + tail))
        cli("main file argument", main(W[3] + r + ["--", path] + args))
        if not code.startswith("-"):
            same("-e", T.run(None, W[4] + r + ["-e", code] + tail, lines))
            cli("main -e", main(["-e", code] + r + W[5] + tail))
        same("--execute=", T.run(None, ["--execute=" + code] + r + W[5] +
                                 tail, lines))
        words = W[6] + r + ["--execute=" + code] + tail
        if "\n" not in args:
            same("typed", T.run(None, as_text(words), lines))
        # code from standard input: nothing is left there to read
        alone = T.run(code, case["flags"] + tail, "")
        if not code.endswith("\n"):
            same("-i", T.run(None, W[0] + ["-i"] + tail, code), alone)
        if not {"-v", "-d", "-x"} & set(case["flags"]) and \
                "\n" not in "".join(args):
            asked(case, main, as_text(W[1] + tail), code, alone)
            asked(case, main, as_text(W[2] + r + ["-f", path] + tail), lines,
                  base)
            words = W[3] + r + ["--execute=" + code] + tail
            if "\n" not in code:
                asked(case, main, as_text(words), lines, base)
        same("--stdin", T.run(None, ["--stdin"] + W[1] + tail,
                              code + "\n" if code else ""), alone)
    if base.out.strip():
        ctx.nontrivial()


# ---------------------------------------------------------------- options

def options(d):
    """Any options, including contradicting ones."""
    words, formats, codes, broken = [], set(), [], False
    state = {}
    for _ in range(d.int(0, 4)):
        k = d.below(16)
        if k < 5:
            f = "-" + d.pick("pPsSnl")
            formats.add(f)
            words.append(f if d.chance(60) else LONG[f])
        elif k < 8:
            f = d.pick(["-w", "-w", "-x", "-v", "-d"])
            state[f] = 1
            words.append(f)
        elif k < 12:
            f = d.pick(["-e", "-f", "-i", "-e"])
            codes.append(f)
            words += {"-e": ["-e", "CODE"], "-f": ["-f", "FILE"],
                      "-i": ["-i"]}[f]
        elif k < 13:
            words.append("-V" if d.chance(50) else "--version")
            state["-V"] = 1
        elif k < 14 and d.chance(50):
            words.append(d.pick(["-z", "--nope", "-pz", "-pP", "-ef", "--re",
                                 "-f", "-e"]) if d.chance(60) else "-h")
            state["odd"] = words[-1]
        elif k < 15:
            words += ["-f", "MISSING"]
            codes.append("missing")
    tail = d.pick([[], [], ["1"], ["FILE"], ["FILE", "2", "3"], ["MISSING"]])
    return {"words": words + ["--"] * bool(tail) + tail,
            "formats": sorted(formats), "codes": codes, "state": state,
            "tail": tail}


def options_check(case, ctx):
    """What happens is decided by which options are there."""
    code = "P [a;[1;2]] O g x@9"
    with Scratch() as s:
        path, missing = s.file(code), os.path.join(s.dir, "none.pip")
        sub = {"CODE": code, "FILE": path, "MISSING": missing}
        words = [sub.get(w, w) for w in case["words"]]
        r = T.run(entry="main", sysargv=["pip.py"] + words, stdin=code)
        if "odd" in case["state"]:
            # (its effect on the options after it is argparse's business)
            if not (r.status == "exit" and r.detail in (0, 2) or
                    r.status == "ok" or r.detail == 1):
                raise Violation(f"options {words}: {r}")
            if r.detail == 2 and (r.out or "usage:" not in r.err):
                raise Violation(f"options {words}: {r}")
            return
        tail = [sub.get(w, w) for w in case["tail"]]
        kinds = set(case["codes"]) - {"missing"}
        if "missing" in case["codes"]:
            kinds.add("-f")
        st = case["state"]
        want = None
        if len(kinds) > 1 or len(case["formats"]) > 1:
            want = "usage error"
        elif st.get("-V"):
            want = "version"
        elif kinds:
            last = case["codes"][-1]
            want = "no file" if last == "missing" else "run"
        elif not words:
            want = "prompt"
        elif not tail:
            want = "hint"
        else:
            want = "no file" if tail[0] == missing else \
                "run" if tail[0] == path else "no file"
            tail = tail[1:]
        ctx.tag(want)
        if want == "usage error":
            ok = r.status == "exit" and r.detail == 2 and not r.out and \
                "usage:" in r.err
        elif want == "version":
            ok = r.status == "ok" and not r.err and re.fullmatch(
                r"Pip \d+\.\d+\.\d+ \(updated .+\)\n", r.out)
        elif want == "no file":
            ok = r.status == "exit" and r.detail == 1 and not r.out and \
                "Could not read from file" in r.err
        elif want == "hint":
            ok = r.status == "ok" and not r.err and "-h" in r.out and \
                r.out.count("\n") == 1
        elif want == "prompt":
            ok = r.status != "crash" and r.out.startswith("=== Welcome to Pip")
        else:
            flags = case["formats"] + sorted(set(st))
            b = T.run(code, flags + ["--"] + tail)
            if st.get("-d") and case["formats"] and \
                    case["formats"] != ["-p"]:
                flags = ["-p"] + sorted(set(st))
                b = T.run(code, flags + ["--"] + tail)
            ok = (r.out, r.err) == (b.out, b.err) and \
                (r.status, b.status) in (("ok", "ok"), ("exit", "fatal"))
        if not ok:
            raise Violation(f"options {words} should be: {want}; got {r}")
        ctx.nontrivial()


# ---------------------------------------------------------------- verbose

def verbose(d):
    return {"code": program(d), "args": d.many(0, 2, lambda: Gen(d).scalar())}


def verbose_check(case, ctx):
    code = case["code"]
    D.expected(case)
    tail = ["--"] + case["args"]
    base = T.run(code, tail)
    r = T.run(code, ["-v"] + tail)
    if (r.status, r.err) != (base.status, base.err):
        raise Violation(f"{code!r}: -v changes how it runs: {r}; {base}")
    head = f"{len(code.encode())} bytes (UTF-8), {len(code)} characters\n\n"
    if not r.out.startswith(head) or not r.out.endswith(base.out):
        raise Violation(f"{code!r} with -v: {r.out!r}\n without: {base.out!r}")
    mid = r.out[len(head):len(r.out) - len(base.out)]
    try:
        toks = S.lex(code)
        S.parse(toks)
    except S.Incomplete:
        toks = None
    except S.Bad:
        toks = None
    if toks is not None:
        line = " ".join(t for _, t in toks)
        if not mid.startswith(line + "\n\n"):
            raise Violation(f"{code!r} with -v lists {mid!r}")
        if not mid[len(line) + 2:].startswith("[") or mid[-2:] != "\n\n":
            raise Violation(f"{code!r} with -v: no tree in {mid!r}")
        again = T.run(line, tail)
        if again.key() != base.key():
            raise Violation(f"{code!r}: its token listing behaves as {again}"
                            f"\n not {base}")
        ctx.nontrivial()
    d = T.run(code, ["-d"] + tail)
    e = T.run(code, ["-pvw"] + tail)
    if d.key() != e.key():
        raise Violation(f"{code!r}: -d gives {d}; -pvw {e}")


# ------------------------------------------------------ functions run away

def runaways(tier):
    from .p26 import RUNAWAY
    return [{"code": f'P [1;2]\nO "ab" P g;\n{r}\nP 8', "how": (i + k) % 4,
             "flags": f}
            for i, r in enumerate(RUNAWAY)
            for k, f in enumerate([[], ["-p"], ["-w"], ["-S"]])]


def runaway_check(case, ctx):
    """What was printed before stays; the exit status tells of the failure."""
    code, how = case["code"], case["how"]
    words = case["flags"] + ["-e", code, "5"]
    base = T.run(code.split(";\n")[0] + "\n()", case["flags"] + ["5"])
    if how == 0:
        with Scratch() as s:
            path = s.file(code)
            out, err, rc = process(case["flags"] + [path, "5"], "", s.dir)
        got = out, rc
    elif how == 1:
        r = T.run(entry="main", sysargv=["pip.py"] + words, depth=1000)
        got, err = (r.out, r.detail), r.err
    elif how == 2:
        r = T.run(None, words, depth=1000)
        got, err = (r.out, {"fatal": 1}.get(r.status)), r.err
    else:
        r = T.run(code, case["flags"] + ["5"], entry="run", depth=1000)
        got, err = (r.out, {"ok": 1}.get(r.status)), r.err
    if got != (base.out, 1) or "maximum recursion depth" not in err or \
            "Program terminated." not in err:
        raise Violation(f"{code!r} {words} way {how}: {got}, {err}\n"
                        f"  want {base.out!r} and exit status 1")
    ctx.nontrivial()


# ------------------------------------------------- arguments that are no good

BAD_ARGS = [
     "(", "[1;", "{", '"abc', ")", "]", "1+", "`a", "x:", "+*", "{;x", "(1;",
     'V"("', 'V")"', '1+V"[1"', "{V\"1+\"}V[]", '"a"&V"("', "$+",
     "({x:{(x a)};(x 0)}0)", "({y:{1+(y a+1)};[(y 0)]}0)",
     "{x:{a:1;(x V[])};(x V[])}V[]", "({x:{V\"(x a)\"};(x 1)} M ,2)",
     "({x:{x M[a]};(x 2)}0)"]
DEEP = [("(", "1", ")"), ("[", "1", "]"), ("{", "1", "}"), ("-", "1", ""),
        ("(1+", "1", ")"), ("1^", "1", ""), ("!", "1", ""), ("[", "", ""),
        ("x:", "1", ""), ("[1;", "2", "]"), ("1?", "2 3", " 4"),
        ("{I1{", "1", "}}"), ("(", "", ")")]


def bad_arguments(tier):
    out = []
    bad = BAD_ARGS + [a * n + b + c * n for a, b, c in DEEP
                      for n in ([1500] if tier == "quick" else [1200, 3000])]
    for i, b in enumerate(bad):
        for k, (pre, post) in enumerate([([], []), (["1"], []), ([], ["2"]),
                                         (["7", "[1;2]"], ["'x"])]):
            out.append({"bad": b, "pre": pre, "post": post, "how": (i + k) % 3,
                        "by": (i + k) % 2})
    return out


def bad_arguments_check(case, ctx):
    """An argument that cannot be evaluated: the program is not started, the
    message shows the argument."""
    args = case["pre"] + [case["bad"]] + case["post"]
    text = "".join(a + "\n" for a in args)
    flags = ["-x"] + ["-r"] * case["by"]
    words = flags + ["-e", 'P"started";P a'] + \
        ([] if case["by"] else ["--"] + args)
    stdin = text if case["by"] else ""
    if case["how"] == 0:
        r = T.run(entry="main", sysargv=["pip.py"] + words, depth=1000,
                  stdin=stdin)
        got = (r.out, r.detail if r.status == "exit" else r.status)
    elif case["how"] == 1:
        r = T.run(None, words, depth=1000, stdin=stdin)
        got = (r.out, {"fatal": 1}.get(r.status, r.status))
    else:
        r = T.run('P"started";P a', flags + ([] if case["by"] else
                                             ["--"] + args), depth=1000,
                  stdin=stdin)
        got = (r.out, {"fatal": 1}.get(r.status, r.status))
    if got != ("", 1) or repr(case["bad"])[1:9] not in r.err or \
            "Traceback" in r.err:
        raise Violation(f"{words}: {got}, {r.err[:2000]!r}")
    ctx.nontrivial()


# ---------------------------------------------- files and their arguments

def files(d):
    """Program files with other line ends, named like their arguments."""
    name = d.pick(["prog.pip", "5", "a b", "-5", "x.txt", "[1;2]", "é", "-"])
    code = program(d)
    if d.chance(50):
        code = "\n".join(d.many(2, 4, lambda: d.pick(USES)))
    args = d.many(1, 4, lambda: d.pick([name, name, "1", "", "zz", "5"]))
    return {"code": code, "name": name, "args": args,
            "ends": d.pick(["\n", "\r\n", "\r\n", "\r"]), "how": d.below(4)}


def files_check(case, ctx):
    code, args, name = case["code"], case["args"], case["name"]
    if "\r" in code:
        raise Discard
    D.expected(case)
    base = T.run(code, ["--"] + args)
    want = base.out, base.err, base.status
    here = os.getcwd()
    with Scratch() as s:
        s.file(code.replace("\n", case["ends"]), name)
        os.chdir(s.dir)
        try:
            word = ["--", name] if case["how"] % 2 else ["--file=" + name,
                                                         "--"]
            if case["how"] < 2:
                r = T.run(None, word + args)
            else:
                r = T.run(entry="main", sysargv=["pip.py"] + word + args)
                want = want[:2] + ({"fatal": "exit"}.get(want[2], want[2]),)
        finally:
            os.chdir(here)
    if (r.out, r.err, r.status) != want:
        raise Violation(f"{code!r} in a file with line ends {case['ends']!r}: "
                        f"{word + args} gives {r}\n  but otherwise {base}")
    if base.out.strip():
        ctx.nontrivial()


# ----------------------------------------------- how the prompt is started

def prompts(tier):
    lines = ["1/0", "[1;[2;3]]", "P[1;2]", "x@5"]
    out = []
    for w in ([], ["-w"], ["--warnings"], ["-v"], ["-d"], ["-v", "-w"], ["-dw"]):
        for f in [[]] + [["-" + c] for c in "pPsSnl"]:
            for at in range(len(w + f) + 1):
                out.append({"words": w + f, "at": at, "lines": lines,
                            "R": ["-R", "--repl"][at % 2]})
    return out


def prompt_check(case, ctx):
    """-R with other options: -w (and -d) warn, the format is the format."""
    words, text = list(case["words"]), "".join(
        x + "\n" for x in case["lines"])
    flat = "".join(w if w[1] != "-" else "-w" for w in words)
    debug, form = "d" in flat, [w for w in words if w[1:] in list("pPsSnl")]
    warns = debug or "w" in flat
    # what the same lines do as a program, shown one by one
    sub = (["-p"] if debug else form) + ["-w"] * warns
    words.insert(case["at"], case["R"])
    got = T.run(None, words, text)
    alt = T.run(entry="main", sysargv=["pip.py"] + words, stdin=text)
    if (got.out, got.err, got.status) != (alt.out, alt.err, alt.status):
        raise Violation(f"{words}: {got}\n  but main(): {alt}")
    prints = T.run("P[1;2]\n()", sub).out
    want = f">> ()\n>> [1;[2;3]]\n>> {prints}[1;2]\n>> ()\n>> Bye!\n"
    body = got.out[got.out.find(">> "):]
    if got.status != "ok" or body != want or \
            bool(got.err.strip()) != warns:
        raise Violation(f"{words} with {case['lines']}: {got}\n"
                        f"  want {want!r}, warnings: {warns}")
    ctx.nontrivial()


# --------------------------------------------------------- real processes

def process(words, stdin, cwd, interrupt=None):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8",
               PYTHONPYCACHEPREFIX=os.path.join(cwd, "pyc"), COLUMNS="80")
    p = subprocess.Popen(
        [sys.executable, "-u", os.path.join(T.REPO, "pip.py")] + words,
        stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        cwd=cwd, env=env, preexec_fn=lambda: signal.signal(
            signal.SIGINT, signal.default_int_handler))
    try:
        if interrupt:
            head = b""
            while not head.endswith(interrupt.encode()):
                c = p.stdout.read(1)
                if not c:
                    break
                head += c
            p.send_signal(signal.SIGINT)
            o, e = p.communicate(timeout=60)
            o = head + o
        else:
            o, e = p.communicate(stdin.encode("utf-8"), timeout=120)
    finally:
        p.kill()
        p.wait()
    return o.decode("utf-8"), T.unaddressed(e.decode("utf-8")), p.returncode


def processes(d):
    c = sources(d)
    c["how"] = d.below(3)
    return c


def process_check(case, ctx):
    code, args = case["code"], case["args"]
    if "\r" in code + "".join(args) + "".join(case["stdin"]) or \
            "\0" in code + "".join(args):
        raise Discard
    D.expected(case)
    lines = "".join(x + "\n" for x in case["stdin"])
    base = T.run(code, case["flags"] + ["--"] + args, lines)
    if "\r" in base.out or not all(
            x.isprintable() or x == "\n" for x in base.out):
        raise Discard
    with Scratch() as s:
        path = s.file(code)
        if case["how"] == 0 and not code.startswith("-"):
            words = case["words"][0] + ["-e", code, "--"] + args
        elif case["how"] == 1:
            words = case["words"][1] + ["-f", path, "--"] + args
        else:
            words = case["words"][2] + ["--", path] + args
        out, err, rc = process(words, lines, s.dir)
    want = {"ok": 0, "fatal": 1}.get(base.status)
    if (out, err, rc) != (base.out, base.err, want):
        raise Violation(f"python pip.py {words} gives {(out, err, rc)}\n"
                        f"  but in process {base}")
    ctx.nontrivial()


def interrupts(tier):
    return [{"code": 'P"go"' + x} for x in
            [" W1{}", " W1{x:x.1<9}", "{W1{}}V[]", " L 1{W1{}}",
             " F i 0,(){}", " T0{}", "{W1{}}M[1]", ";q",
             " W1{[1;2]@?7}"]] + [{"arg": a} for a in
            ["{P\"go\" W1{}}V[]", "({P\"go\" W1{x:a}}0)",
             "[1;{P\"go\" L9999{W1{}}}V[]]"]]


def interrupt_check(case, ctx):
    with Scratch() as s:
        if "arg" in case:
            case = dict(case, code=case["arg"])
            out, err, rc = process(["-x", "-e", 'P"started"', "--", "5",
                                    case["arg"], "6"], "", s.dir, "go\n")
            if err.startswith("Program terminated by user") and \
                    err.count("\n") == 1:
                err = "Program terminated by user."
        else:
            out, err, rc = process(["-e", case["code"]], "", s.dir, "go\n")
    if out != "go\n" or rc != 1 or \
            D.clean(err).strip() != "Program terminated by user.":
        raise Violation(f"{case['code']!r} interrupted: {(out, err, rc)}")
    ctx.nontrivial()


def suite():
    return Suite("P25", [
        Family("arguments", arguments, args_check, 16000),
        Family("sources", sources, sources_check, 2600),
        Family("options", options, options_check, 2500),
        Family("verbose", verbose, verbose_check, 3500),
        Family("runaway functions", enum=runaways, check=runaway_check),
        Family("failing arguments", enum=bad_arguments,
               check=bad_arguments_check),
        Family("files", files, files_check, 2500),
        Family("prompts", enum=prompts, check=prompt_check),
        Family("processes", processes, process_check, 320, 3000),
        Family("interrupts", enum=interrupts, check=interrupt_check),
    ], "Programs and argument lists (plain, from lines of standard input, "
       "evaluated) compared with the reference; every program also run from "
       "all code sources with the same options spelled and ordered "
       "differently, in-process and as a real process; random option "
       "combinations against the documented exclusions; -v listings; "
       "non-trivial: prints something / option set decided.",
        BASE_ASSUMPTIONS)
