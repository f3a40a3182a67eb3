"""P26: the read-eval-print loop."""
import os
import signal
import subprocess
import sys
import time

from .. import model as M
from ..common import *
from ..engine import Suite
from . import p25

HEAD = "Type ;help for more information.\n"


class Session:
    """What a session with the given lines of input looks like."""

    def __init__(self, lines, fmt=None, warnings=False, fuel=20000):
        self.m = m = M.Interp((), fmt, [], fuel=fuel)
        m.stdin.extend(lines)
        self.on = warnings
        self.events = []           # what standard error shows, coarsely
        self.inputs = self.errors = self.more = 0
        try:
            self.loop()
        except EOFError:
            pass
        m.emit("Bye!\n")

    def read(self, prompt):
        self.m.emit(prompt)
        if not self.m.stdin:
            raise EOFError
        return self.m.stdin.pop(0) + "\n"

    def event(self, e):
        if e != "warning" or self.events[-1:] != ["warning"]:
            self.events.append(e)

    def loop(self):
        m = self.m
        while True:
            code = self.read(">> ")
            while True:
                try:
                    prog = S.parse(S.lex(code))
                    break
                except S.Incomplete:
                    self.more += 1
                    code += self.read(".. ")
                except S.Bad:
                    prog = None
                    break
            self.inputs += 1
            if prog is None:
                self.errors += 1
                self.event("syntax")
                continue
            words = code[1:].lower().split()
            if code.startswith(";") and words:
                w = words[0]
                if "quit".startswith(w) or "exit".startswith(w) or w == "x":
                    return
                if "help".startswith(w):
                    m.emit("HELP\n")
                elif "warnings".startswith(w) and words[1:] in (
                        [], ["on"], ["off"]):
                    self.on = {"on": True, "off": False}.get(
                        "".join(words[1:]), not self.on)
                    self.event("on" if self.on else "off")
            try:
                for st in prog:
                    before = m.warns
                    try:
                        v = m.statement(st)
                    finally:
                        if m.warns > before and self.on:
                            self.event("warning")
                    if st[0] == "cmd":
                        continue
                    m.emit(V.show(v) + "\n")
                    m.remember(v)
            except V.Fatal:
                self.errors += 1
                self.event("fatal")
                del m.scopes[1:], m.fns[1:]


def events(err):
    out = []
    for x in D.clean(err).split("\n"):
        e = "syntax" if x.startswith("Syntax error:") else \
            "fatal" if x.startswith("Fatal error:") else \
            "on" if x == "Warnings on" else \
            "off" if x == "Warnings off" else None \
            if not x.strip() or x.startswith("While scanning, ignored") else \
            "warning"
        if e and not (e == "warning" and out[-1:] == [e]):
            out.append(e)
    return out


def settled(evs):
    """Messages may have several lines, which look like nonfatal errors."""
    return [e for i, e in enumerate(evs) if e != "warning" or
            evs[i - 1:i] not in (["syntax"], ["fatal"])]


def help_text(out):
    """Replace the help text (whatever it says) by a mark."""
    import pip
    return out.replace(pip.REPL_HELP_TEXT, "HELP") \
        if hasattr(pip, "REPL_HELP_TEXT") else out


def session_check(case, ctx):
    lines = case["lines"]
    fmt, w = case.get("fmt"), bool(case.get("warn"))
    try:
        s = Session(lines, fmt, w)
    except (V.Skip, RecursionError, MemoryError):
        raise Discard
    except ValueError as x:
        if "string conversion" in str(x):
            raise Discard
        raise
    r = T.run(None, ["-R"] + ["-" + (fmt or "w")] * bool(fmt) + ["-w"] * w,
              "".join(x + "\n" for x in lines))
    want = s.m.output()
    if r.status != "ok":
        raise Violation(f"session {lines}: {r}")
    head, sep, got = r.out.partition(HEAD)
    if not sep or not head.startswith("Pip "):
        raise Violation(f"session {lines} begins with {r.out[:80]!r}")
    got = help_text(got)
    if not D.same_text(want, got):
        raise Violation(f"session {lines} -{fmt}\n  expected: {want!r}\n"
                        f"  observed: {got!r}\n  errors: {r.err[-500:]!r}")
    if settled(events(r.err)) != settled(s.events):
        raise Violation(f"session {lines} -{fmt} w={w}\n  expected events: "
                        f"{s.events}\n  observed: {r.err!r}\n  out: {got!r}")
    if s.errors:
        ctx.tag("survived errors")
    if s.more:
        ctx.tag("continued lines")
    if s.inputs > 1 and len(want) > 30:
        ctx.nontrivial()


# ------------------------------------------------------------- generators

ODD = [")", "]", "}", "(", "[1", "{", '"ab', "`a", '\\"a', "1+", "x@", "F i",
       "I x", "W 0", "EL", "x?", "1 + +", "'", "{;", ";}", "  ;c", "LR`a`",
       "(f", ";", "; ;", "V\")\"", "x:", "#", "a b c", "5;6;7", "P1;2", "", " ",
       ";q", ";quit", ";exit", ";x", ";e", ";bye", ";qq", " ;q",
       "  ;q", "\t;q", " ;w on", "  ;w", " ;h", "{}\t;q"]
CMDS = [";w", ";w on", ";w off", ";warnings", ";WARNINGS ON", ";w x", ";h",
        ";he", ";help me", ";c", ";;", ";wa off", ";W", ";w on off", ";warn"]
WARN = ["1/0", "x@7", "zz", "a", "$3", "f", "(f 1)", "l@0:1", "5@1:2",
        "\\b", "\\g", "\\f", "g", "RE 2", "{RE 5}V[]", "()+1", "1:2"]
LOOK = ["$_", "$__", "$___", "[$_;$__;$___]", "x", "l", "[x;y;i]", "$0", "a",
        "$_+1", "($_)", "x:$_", "$_.$__", "$_:9", "q", "[q;q]", "x:q", "f", "P$_",
        "i", "{[a;$_]}4", "({5;$_} 0)", "g", "#$_", "$_ PU 1", "W i<3{++i}",
        "I x{y:1}EL{y:2}", "F a[1;2]{P a}", "a", "b:4", "b", "{a:3 b}7",
        "WG", "O 5", "P 5", "P[1;2]", "RC[4]", "{I a>9{x:x.1;(@{a}1)}}",
        "f:{a<2?1a*(f a-1)}", "(f 5)", "g:[1;2]", "g", "V\"x:8\"", "(V\"{a.x}\" 3)"]
DIES = ["{a:7;{x:@}V[]}V[]", "V\"(\"", "{V\"[\"}V[]", "{b:2;V\")\";3}9",
        "{a:5 V\"]\"}M[1;2]", "(f:{a>3?V\"(\"(f a+1)} 0)", "V\"I\"",
        "{x:66;V\"+\";x:67}1", "1;2;V\")\";3", "F i,3{P i;I i=1{V\"(\"}}",
        "{$x:{V\")\"}V[]}0", "[1;V\"(\"]", "W1{V\")\"}", "V\"\\\"\"", "x:V\"(\""]


def lines_of(d, text):
    """A statement typed on one or several lines."""
    text = text.replace("\n", " ")
    if d.chance(70):
        return [text]
    try:
        toks = [t for _, t in S.lex(text)]
    except S.Incomplete:
        return [text]
    out = [""]
    for t in toks:
        if out[-1] and d.chance(20):
            out.append("")
        out[-1] += t + " "
    return out


def session(d):
    lines = []
    p = P.Prog(d, budget=10, locals_=("a", "b", "c"))
    for _ in range(d.int(1, 8)):
        k = d.below(24)
        if k < 8:
            lines += lines_of(d, p.statement())
        elif k < 9:
            lines += lines_of(d, ";".join(d.many(2, 3, p.statement)))
        elif k < 12:
            lines += lines_of(d, Gen(d, p.vars, 8).expr("*", d.int(0, 2)))
        elif k < 17:
            lines += lines_of(d, d.pick(LOOK))
        elif k < 19:
            lines.append(d.pick(WARN))
        elif k < 20:
            lines.append(d.pick(DIES))
        elif k < 22:
            lines.append(d.pick(CMDS))
        elif k < 23 and d.chance(60):
            lines.append(d.pick(ODD))
        else:
            lines += lines_of(d, d.pick(LOOK))
    case = {"lines": lines}
    if d.chance(20):
        case["fmt"] = d.pick("pPsSnl")
    if d.chance(35):
        case["warn"] = 1
    return case


def pairs(tier):
    """Every odd input, then looks at the state."""
    after = ["x", "$_", "a", "1+1"]
    pool = ODD + CMDS + WARN + LOOK + DIES
    out = [{"lines": [a] + after} for a in pool]
    second = LOOK if tier == "quick" else pool
    out += [{"lines": ["x:5;[x]", a, b] + after[:2], "warn": 1}
            for a in pool for b in second[::(3 if tier == "quick" else 1)]]
    return out


# ------------------------------------ a session is the program it spells out

def spelled(d):
    p = P.Prog(d, budget=8, cmds=True, locals_=())
    sts = []
    for _ in range(d.int(2, 6)):
        t = p.statement() if d.chance(60) else p.expr("*")
        sts.append(t.replace("\n", " "))
    return {"sts": sts, "cut": d.below(3)}


def spelled_check(case, ctx):
    """Expressions are displayed as by P RP; commands run as in a program."""
    sts, prog = case["sts"], []
    for t in sts:
        try:
            got = S.parse(S.lex(t))
        except (S.Bad, S.Incomplete):
            raise Discard
        if len(got) != 1 or {x for _, x in S.lex(t)} & {
                "f", "g", "\\f", "\\g", "q", "RE"}:
            raise Discard       # these differ inside the main function
        prog.append(t if got[0][0] == "cmd" else f"P RP ({t})")
    code = "\n".join(prog + ["()"])
    D.expected({"code": code})
    base = T.run(code, [])
    lines = sts if case["cut"] == 0 else [";".join(sts)] \
        if case["cut"] == 1 else \
        [";".join(sts[:len(sts) // 2]), ";".join(sts[len(sts) // 2:])]
    r = T.run(None, ["-R"], "".join(x + "\n" for x in lines if x))
    if base.status != "ok" or r.status != "ok" or "error" in r.err:
        raise Discard
    got = r.out.partition(HEAD)[2].replace(">> ", "").replace(".. ", "")
    want = base.out.replace(">> ", "").replace(".. ", "") + "Bye!\n"
    if got != want:
        raise Violation(f"session {lines} shows {got!r}\n  but the program "
                        f"{code!r} prints {want!r}")
    ctx.nontrivial()


# ------------------------------------------------------------ interruptions

class _Interrupt:
    """Ctrl-C after a number of executed lines of the interpreter, once the
    program has said so by printing the mark."""

    def __init__(self, after):
        self.left, self.done, self.raised = after, False, False

    def __enter__(self):
        m = sys.monitoring
        self.tool = m.PROFILER_ID
        m.use_tool_id(self.tool, "vf")
        m.register_callback(self.tool, m.events.LINE, self.line)
        m.set_events(self.tool, m.events.LINE)
        return self

    def line(self, code, number):
        if not code.co_filename.startswith(T.REPO):
            return sys.monitoring.DISABLE
        # a request that arrives while nothing is being executed ends the
        # session instead: only interrupt what the marked line runs
        if self.done or "STARTED" not in sys.stdout.getvalue()[-4000:]:
            return
        if "STOPPED" in sys.stdout.getvalue()[-4000:]:
            self.done = True
            return
        self.left -= 1
        if self.left < 0:
            self.done = self.raised = True
            raise KeyboardInterrupt

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.tool, 0)
        m.register_callback(self.tool, m.events.LINE, None)
        m.free_tool_id(self.tool)
        m.restart_events()


LONG = ["{c:1;W1{c+:1}}V[]", "W1{y:y+1}", "{{W1{d:5}}M[1]}8", "L 1000000{a:2}",
        "f:{b:a (f a+1)*1};W1{(f V[])}", "$+,99999", "F b 1,(){c:b}",
        "(f:{a<30?(f a+1)+(f a+2) 1};0)", "{W1{}}", "({W1{b:a;x:x}} 3)",
        "{a:4;{a:5;{a:6;W1{a+:1}}9}8}7", "T0{{c:a}V[4]}",
        "L 99{[1;2]@?7}", "L 99{'b Nx;\"ab\"@?'z}", "L 99{,5@?7;[]@9;$/0}",
        "L 99{{1/0}M,2;x@0:1;TB`#`;'q*2}", "L 99{\"ab\"R`a`{V a};A[];'a<1}",
        "W1{({}0)}", "W1{({a}{b:a}4)}", "{W1{({c:a}7)}}3", "L 9999{_M[1;2;3]}",
        "W1{({a}M{({a}8)}M,3)}"]


def interrupted(d):
    return {"run": d.pick(LONG), "after": d.pick([0, 1, 7, 30, 100, 333, 1000]) +
            d.int(0, 90), "pre": d.pick(["x:3", "x:[1;2]", "a:8", "c:2;x:1",
                                         "$_"])}


def interrupted_check(case, ctx):
    """After an interruption the session goes on at its top level."""
    lines = [case["pre"], "O\"STARTED\";" + case["run"] + ";O\"STOPPED\"",
             "[a;b;c;d;e]", "{[a;b;c]}V[1]", "[a;b;c;d;e]", "6*7", "x:11",
             "[x;$_]"]
    it = _Interrupt(case["after"])
    saved = T._NoSteps
    T._NoSteps = lambda: it
    try:
        r = T.run(None, ["-R"], "".join(x + "\n" for x in lines))
    finally:
        T._NoSteps = saved
    if r.status != "ok":
        raise Violation(f"session {lines} interrupted: {r}")
    if "Execution interrupted by user." not in r.err:
        if it.raised:
            raise Violation(f"session {lines}: interruption after "
                            f"{case['after']} lines of code ignored: {r}")
        raise Discard
    outs = r.out.partition(HEAD)[2].split(">> ")
    # the locals set by the first line are all there may be
    tops = {"a:8": "[8;();();();()]", "c:2;x:1": "[();();2;();()]"}
    want = [tops.get(case["pre"], "[();();();();()]"), "[1;();()]", 0, "42", "11",
            "[11;11]", "Bye!"]
    want[2] = want[0]
    got = [x.strip() for x in outs[-len(want):]]
    if case["run"].startswith(("L ", "F b 1")):
        got[0] = got[2] = want[0]  # (these set a local of the top level)
    if got != want:
        raise Violation(f"session {lines} interrupted after {case['after']} "
                        f"lines of code: {got}, want {want}; {r.err}")
    ctx.nontrivial()


# --------------------------------------------------------- runaway functions

RUNAWAY = ["({(f a+1)} 0)", "({b:a;c:(f a+1);c} 0)", "({1+(f a)} 0)",
           "({[a;(f a)]} 0)", "({a:7;I 1{(f a)}} 0)", "({W 1{(f a)}} 0)",
           "({f M,3} 0)", "({f SK,3} 0)", "({f FI[1;a]} 0)",
           "({\"abc\"R`b`f} 0)", "({F b,3{(f b)}} 0)", "({L 2{(f V[])}} V[])",
           "({c:a;V\"(f c)\"} 4)", "y:{b:a;(y b+1)};(y 0)",
           "y:{b:3;(z a)};z:{c:4;(y a)*2};(y 1)", "({a?(f a+1)9} 1)",
           "({x:a;$+(f a)} 1)", "({(f a)|1} 0)", "({\\a:(f b)} 0)",
           "({P(f a)} 0)", "({l@(f a):2} 0)", "({U a;(f a)} 0)",
           "({T(f a){}} 0)", "({g@0:[g;(f g@0)]} 5)", "({f MM[[1]]} 0)",
           "({_+(f b)} 0)", "({(f a)N[1]} 0)", "({RP(f a).1} 0)"]


def runaways(tier):
    pres = ["a:8", "$_", "b:[1;2]", "x:3;c:x"]
    out = []
    for i, r in enumerate(RUNAWAY):
        for k in range(8 if tier == "quick" else 40):
            out.append({"pre": pres[(i + k) % 4], "run": r, "in": k,
                        "how": (i + k) % 3})
    return out


def runaway_check(case, ctx):
    """A function that calls itself for ever ends only what was typed."""
    k, run = case["in"], case["run"]
    head, sep, call = run.rpartition(";(y ")
    call = "(y " + call if sep else run
    head = head + ";" if sep else ""
    run = head + ("(" * k + call + ")" * k if case["how"] == 0 else
                  "{a:5;b:6;{c:7;" * (k // 2) + call + "}V[]}V[]" * (k // 2)
                  if case["how"] == 1 else
                  "[" * k + call + "]" * k)
    lines = [case["pre"], "O\"STARTED\";" + run + ";O\"STOPPED\"",
             "[a;b;c;d;e]", "{[a;b;c]}V[1]", "[a;b;c;d;e]", "6*7", "\\a", "$_",
             run, "[a;b;c;d;e]"]
    r = T.run(None, ["-R"], "".join(x + "\n" for x in lines), depth=1000)
    outs = r.out.partition(HEAD)[2].split(">> ")[-9:]
    top = {"a:8": "[8;();();();()]", "b:[1;2]": "[();[1;2];();();()]",
           "x:3;c:x": "[();();3;();()]"}.get(case["pre"], "[();();();();()]")
    got = [x.strip() for x in outs]
    want = [top, "[1;();()]", top, "42", got[4], got[4], got[6], top, "Bye!"]
    died = r.err.count("Fatal error: maximum recursion depth exceeded")
    if r.status != "ok" or "STOPPED" in r.out or got != want or died != 2:
        raise Violation(f"session {lines}: {got}, want {want}; {r}")
    ctx.nontrivial()


# ------------------------------------------------------------ nested deeply

NESTS = [("(", "1", ")"), ("[", "1", "]"), ("{", "1", "}"), ("-", "1", ""),
         ("(1+", "1", ")"), ("!", "1", ""), ("[1;", "2", "]"),
         ("x:", "1", ""), ("I1{", "1", "}"), ("1?", "2", " 4"), ("$+", "1", ""),
         ("W0", "{}", ""), ("{a:", "1", "}"), ("Fb,2{", "1", "}")]


def nests(tier):
    return [{"nest": list(n), "times": t, "cut": cut, "pre": pre}
            for n in NESTS for t in ([1300] if tier == "quick" else
                                     [1100, 2000, 5000])
            for cut in (0, 1, 2) for pre in ("x:5", "a:8", "$_")]


def nests_check(case, ctx):
    """Input nested too deeply for the interpreter is refused whole, and the
    session goes on."""
    a, b, c = case["nest"]
    n = case["times"]
    line = "O\"ran\";" + a * n + b + c * n
    parts = [line]
    if case["cut"]:
        i = 8 + len(a * n) // 2 // len(a) * len(a)
        if c:
            parts = [line[:i], line[i:]]
    lines = [case["pre"]] + parts + ["6*7", "x", "a", "$_"]
    if case["cut"] == 2:
        lines = lines[:1] + ["y:3"] + lines[1:]
    r = T.run(None, ["-R"], "".join(x + "\n" for x in lines), depth=1000)
    x, y = {"x:5": ("5", "()"), "a:8": ('""', "8"),
            "$_": ('""', "()")}[case["pre"]]
    head = r.out.partition(HEAD)[2]
    got = [o.strip() for o in head.split(">> ")[-5:]]
    if r.status != "ok" or "ran" in r.out or "Syntax error:" not in r.err or \
            got != ["42", x, y, y, "Bye!"]:
        raise Violation(f"session {[z[:60] for z in lines]}: {got}, "
                        f"{r.status} {r.detail}, {r.err[:300]!r}")
    ctx.nontrivial()


def prompt_interrupts(tier):
    return [{"lines": ls, "at": at} for at in (">> ", ".. ")
            for ls in ([], ["1+1"], ["x:3", "x+1"], ["{a}"], ["{P 8}V[]"])]


def prompt_interrupt_check(case, ctx):
    """Ctrl-C at the prompt, and nothing to execute: the session ends."""
    from .p25 import Scratch
    lines = case["lines"] + (["[1;"] if case["at"] == ".. " else [])
    text = "".join(x + "\n" for x in lines)
    base = T.run(None, ["-R"], "".join(x + "\n" for x in case["lines"]))
    want = base.out.removesuffix("Bye!\n") + \
        (".. " if case["at"] == ".. " else "") + "Bye!\n"
    with Scratch() as s:
        out, err, rc = at_prompt(text, len(lines), s.dir, case["at"])
    if (out, err, rc) != (want, "", 0):
        raise Violation(f"session {lines}, Ctrl-C at the prompt: "
                        f"{(out, err, rc)}; want {want!r}")
    ctx.nontrivial()


def at_prompt(text, n, cwd, last):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8",
               PYTHONPYCACHEPREFIX=os.path.join(cwd, "pyc"))
    p = subprocess.Popen(
        [sys.executable, "-u", os.path.join(T.REPO, "pip.py"), "-R"],
        stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        cwd=cwd, env=env, preexec_fn=lambda: signal.signal(
            signal.SIGINT, signal.default_int_handler))
    try:
        p.stdin.write(text.encode())
        p.stdin.flush()
        head = b""
        while head.count(b">> ") + head.count(b".. ") <= n:
            c = p.stdout.read(1)
            if not c:
                break
            head += c
        time.sleep(0.3)
        p.send_signal(signal.SIGINT)
        try:
            p.wait(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
        o, e = p.stdout.read(), p.stderr.read()
        return ((head + o).decode(), e.decode(), p.returncode)
    finally:
        p.kill()
        p.wait()
        for f in (p.stdin, p.stdout, p.stderr):
            f.close()


# --------------------------------------------------------- a real process

def real(d):
    return session(d)


def real_check(case, ctx):
    lines = case["lines"]
    if not all(x.isprintable() for x in "".join(lines)):
        raise Discard
    try:
        Session(lines)
    except (V.Skip, RecursionError, MemoryError):
        raise Discard
    text = "".join(x + "\n" for x in lines)
    base = T.run(None, ["-R"], text)
    if "\r" in base.out:
        raise Discard
    with p25.Scratch() as s:
        out, err, rc = p25.process(["-R"], text, s.dir)
    if (out, err, rc) != (base.out, base.err, 0):
        raise Violation(f"python pip.py -R with {lines}: {(out, err, rc)}\n"
                        f"  in process: {base}")
    ctx.nontrivial()


def suite():
    return Suite("P26", [
        Family("pairs", enum=pairs, check=session_check),
        Family("sessions", session, session_check, 22000),
        Family("spelled out", spelled, spelled_check, 8000),
        Family("interruptions", interrupted, interrupted_check, 3000),
        Family("runaway functions", enum=runaways, check=runaway_check),
        Family("nested deeply", enum=nests, check=nests_check),
        Family("Ctrl-C at the prompt", enum=prompt_interrupts,
               check=prompt_interrupt_check),
        Family("processes", real, real_check, 160, 2000),
    ], "Sessions of up to eight inputs (statements in one or more lines, "
       "incomplete and invalid input, errors fatal and nonfatal, commands, "
       "end of input anywhere) compared with a reference loop around the reference "
       "interpreter, and with the program they spell out; long computations "
       "interrupted at random points; non-trivial: two or more inputs and "
       "some output.", BASE_ASSUMPTIONS + [
           "Which of the two streams a message goes to is observed; the "
           "interleaving between the streams is not."])
