"""P32: truth, logic, selection, short circuits."""
from ..common import *
from ..engine import Suite

KEYS = keys("! \\!", 1) + keys("| & \\| \\&", 2) + keys("? \\?", 3)
FALSY = ["0", "0.0", '"00"', '""', "()", "[]", "(0,0)", "``", "(5,2)", "{}", '".0"',
         '"0."', "(-0.0)", "00", '"' + "0" * 25 + '"', '"0.' + "0" * 25 + '"',
         '"' + "0" * 12 + '.0"', '".' + "0" * 11 + '"', "0." + "0" * 40,
         "0" * 300]
TRUTHY = ["1", '" "', '"-0"', '"a"', "[0]", "[()]", "(0,1)", "`a`", "{0}",
          "(-1)", "0.1", '"."', '"0 "', '" 0"', "(,())", "[[]]", "(-0.5)",
          '"0x"', '"-"', '"+0"', "((),())", "(-`a`)", '"\n"',
          '"0.00001"', '"' + "0" * 20 + '1"', "0." + "0" * 40 + "1",
         '"' + " " * 20 + '"', '"' + "0" * 12 + 'x"', "[" + "0;" * 20 + "0]",
          "{Fi,3{}}", "{W0{}}", "{Wi{Px}}", "{I0{}}", "{L0{}}", "{WG}", "{P0}",
          "{x}", "{u:0}", "{{}}", "{[]}", "{[]@>0}", "[{}]", "{Ix0;()}"]


def traced(d, k):
    v = d.pick(FALSY) if d.chance(50) else d.pick(TRUTHY) if d.chance(85) \
        else lit(Gen(d).value("*"))
    c = d.below(10)
    if c < 5:
        return f'({{O "{k}";{v}}} 0)'
    if c < 7:
        return f"(u : {v})"
    if c < 8:
        return d.pick(["u", "w", "(++i)", "(--i)", "(u PU i)", "(P u)"])
    return v


def tree(d, depth, c):
    c[0] += 1
    k = d.below(16)
    if depth <= 0 or k < 2:
        return traced(d, c[0])
    s = lambda: tree(d, depth - 1, c)
    if k < 4:
        return f"({d.pick(['!', chr(92) + '!'])} {s()})"
    if k < 9:
        return f"({s()} {d.pick('|&')} {s()})"
    if k < 11:
        return f"({s()} {chr(92)}{d.pick('|&')} {s()})"
    if k < 14:
        return f"({s()} ? {s()} {s()})"
    if k < 15:
        return f"({s()} {chr(92)}? {s()} {s()})"
    return f"({d.pick(['$|', '$&', '!*', '$' + chr(92) + '|'])} " \
           f"[{';'.join(s() for _ in range(d.int(0, 3)))}])"


def program(d):
    out = ["u:7", "w:0"]
    for _ in range(d.int(1, 3)):
        e = tree(d, d.int(1, 3), [0])
        k = d.below(10)
        if k < 6:
            out.append("P RP " + e)
        elif k < 7:
            out.append(f"I {e} {{P 'y}} EL {{P 'n}}")
        elif k < 8:
            out.append(f"P RP ({{{e}}} {lit(Gen(d).small())})")
        elif k < 9:
            op = d.pick(["|", "&", "\\|", "\\&"])
            out += [f"(u {op}: {tree(d, 1, [0])})"]
        else:
            out.append(f"P RP ((_ {d.pick(['|', '&'])} {traced(d, 1)}) M "
                       f"[{d.pick(FALSY)};{d.pick(TRUTHY)}])")
        if d.chance(50):
            out.append("P RP [u;w;i]")
    return {"code": "\n".join(out) + "\n()"}


def enum(tier):
    vals = FALSY + TRUTHY
    cases = []
    for v in vals:
        ex = [f"(! {v})", f"(\\! {v})", f"({v} ? 1 0)", f"({v} \\? 1 0)",
              f"({v} | \"R\")", f"({v} & \"R\")", f"({v} \\| \"R\")",
              f"({v} \\& \"R\")", f"(#({v} FI [1]))", f"({{{v}}} FI [1;2])",
              f"({{I a{{1}}EL{{0}}}} {v})", f"((_) FI [{v};1])", f"(FI [{v};1])"]
        cases.append({"exprs": ex})
    for x in vals:
        cases += [{"exprs": e} for e in chunks(
            [f"({x} {o} {y})" for y in vals for o in
             ("|", "&", "\\|", "\\&")] +
            [f"({x} {o} {y};5)" for y in vals[::5] for o in ("?", "\\?")],
            20)]
    return cases


def law_check(case, ctx):
    """Which operands run, known from their truth alone."""
    spec = case["tree"]
    said = []

    def value(t):
        if t[0] == "v":
            said.append(str(t[1]))
            return t[2], t[3]
        a = value(t[1])
        if t[0] == "!":
            return ("0", False) if a[1] else ("1", True)
        if t[0] == "|":
            return a if a[1] else value(t[2])
        if t[0] == "&":
            return value(t[2]) if a[1] else a
        return value(t[2] if a[1] else t[3])

    def text(t):
        if t[0] == "v":
            return f"({{O \"{t[1]} \";{t[2]}}} 0)"
        if t[0] == "!":
            return f"(!{text(t[1])})"
        if t[0] == "?":
            return f"({text(t[1])} ? {text(t[2])} {text(t[3])})"
        return f"({text(t[1])} {t[0]} {text(t[2])})"
    want, _ = value(spec)
    code = f"x:{text(spec)}\nP \"\"\nP RP x\nP RP {want}\n()"
    r = T.run(None, ["-e", code])
    L = r.out.split("\n")
    if r.status != "ok" or L[0].split() != said:
        raise Violation(f"{code!r}: evaluated {L[0]!r} ({r.status} "
                        f"{r.detail}); want {said}")
    if L[1:] and "\n".join(L[1:1 + (len(L) - 2) // 2]) != \
            "\n".join(L[1 + (len(L) - 2) // 2:-1]):
        raise Violation(f"{code!r}: {L[1:]}")
    ctx.nontrivial()


def law_gen(d):
    c = [0]

    def mk(depth):
        c[0] += 1
        me = c[0]
        k = d.below(10)
        if depth <= 0 or k < 2:
            t = d.chance(50)
            return ["v", me, d.pick(TRUTHY if t else FALSY), t]
        if k < 3:
            return ["!", mk(depth - 1)]
        if k < 7:
            return [d.pick("|&"), mk(depth - 1), mk(depth - 1)]
        return ["?", mk(depth - 1), mk(depth - 1), mk(depth - 1)]
    return {"tree": mk(d.int(1, 5))}


def suite():
    f = Family("truth table", enum=enum, check=batch_check)
    f.split = split_batch
    return Suite("P32", [
        f, sweep_family(KEYS),
        Family("trees", program, diff_check(substantial), 18000),
        Family("evaluated", law_gen, law_check, 6000),
        op_family(KEYS, 6000),
    ], "Trees of logic and selection operators up to depth 5 over a pool of "
       "falsy and truthy values of every type, with operands that print, "
       "assign or increment when evaluated; the set of operands evaluated is "
       "also derived from truth alone; non-trivial: distinct program.",
        BASE_ASSUMPTIONS)
