"""P29: every operation works, or is a nonfatal error, on operands of any type."""
from ..common import *
from ..engine import Suite

TYPES = ["0", "1", "(-2)", "2.5", '"7 x"', '""', '"abc"', '"(a"', '"\n"', "`b`",
         "(-`(a)|b`)", "``", "()", "[]", "[1;2]", '["ab";()]', "[[1];[2;\"a\"]]",
         "[`a`;,2]", "[{a};5]", "(,3)", "(4,2)", "(-5,-2)", "((),-1)",
         "{a}", "{a+b}", "{}", "(_+1)", "{V \"1/0\"}", "10", "[();();()]", "(1 E 20)",
         "\"1e400\"", "(-0.0)", "`(`", "(`b`.`*`.`*`)"]
SMALL = TYPES[:5] + ['"abc"', "`b`", "()", "[]", '["ab";()]', "[[1];2]", "(,3)",
                     "{a}", "{a+b}", "`(`"]
INVALID = ["`(`", "`*`", "`[`", "`b)`", "(`b`.`*`.`*`)", "(-`(b`)", "[`(`;\"b\"]",
           "`(?z)`", "`\\1`"]
INFINITE = ["(2,())", "((),())", "(-3,())"]     # only where it may end
# these really take as long as their operands say
SLOW = {"E", "**", "EE", "X", "RL", "CB", "PM", "CP", "CG", "ZG", "OG", "EY",
        "EX", "MC"}


def pool(sym):
    return [x for x in TYPES if x not in ("(1 E 20)", '"1e400"')] \
        if sym in SLOW else TYPES


LVAL = {"PU", "PB", "PK", "PO", "DQ", "++", "--", ":", "::", "Y", "YP", "YO",
        "U", "D"}


def statements_for(sym, ar, xs):
    """Ways of applying an operator to operands."""
    if sym in LVAL and ar >= 1:
        return f"u:{xs[0]};P RP {build(sym, ['u'] + xs[1:])}"
    return "P RP " + build(sym, xs)


def ops_enum(tier):
    cases = []
    for ar in (1, 2, 3):
        for sym in sorted(S.OPS[ar]):
            if sym in ("V",) or (sym, ar) == ("RE", 1):
                continue
            p = pool(sym)
            if ar == 1:
                ss = [statements_for(sym, 1, [x]) for x in p]
            elif ar == 2:
                if tier == "quick":
                    ss = [statements_for(sym, 2, [x, y]) for i, x in
                          enumerate(p) for j, y in enumerate(p)
                          if x in SMALL or y in SMALL]
                else:
                    ss = [statements_for(sym, 2, [x, y])
                          for x in p for y in p]
            else:
                ss = [statements_for(sym, 3, [x, y, z]) for x in SMALL
                      for y in SMALL for z in SMALL[::1 if tier != "quick"
                                                    else 2]]
            cases += [{"op": sym, "sts": c} for c in chunks(ss, 16)]
    return cases


def meta_enum(tier):
    """Meta-operators, calls, indexing, commands on everything."""
    ss = []
    for sym in sorted(S.OPS[2]):
        if sym in LVAL | {"V"}:
            continue
        fold = [x for x in pool(sym) if x != "[();();()]" or sym not in
                (",", "\\,")]
        ss += [f"P RP ({m}{sym} {x})" for m in ("$", "\\$") for x in fold]
        ss += [f"u:{x};u {sym}: {y};P RP u" for x in SMALL
               for y in SMALL[::3 if tier == "quick" else 1]
               if sym not in SLOW]
    for sym in sorted(S.OPS[1]):
        if sym in LVAL | {"V", "RE"} or sym + "*" in S.OPS[2] or \
                sym + "*" in S.OPS[1]:
            continue
        ss += [f"P RP ({sym}* {x})" for x in pool(sym)]
        ss += [f"u:{x};{sym}:u;P RP u" for x in pool(sym)]
    T_ = TYPES
    for x in T_:
        ss += [f"P RP ({x} {y})" for y in T_]
        ss += [f"P RP ({y} {x} {x})" for y in SMALL]
        ss += [f"u:{x};(u@{y}):7;P RP u" for y in T_]
        ss += [f"u:{x};((u@{y})@0) .: 5;P RP u" for y in SMALL]
        ss += [f"u:{x};(u@(,2)):{y};P RP u" for y in SMALL]
        ss += [f"[u;v]:{x};P RP [u;v]", f"[u;[v]]:{x};P RP [u;v]",
               f"F u {x}{{P u;I ++i>3{{u:1/{{V\"+(\"}}}}}}"
               if x not in ("(1 E 20)", '"1e400"') else
               "", f"F [u;v] [{x}]{{P u}}", f"F u[1;2]{{P {x}}}",
               f"I {x}{{P 1}}EL{{P 2}}", f"W ++i<3&{x}{{P 1}}",
               f"T ++i>3|{x}{{P 1}}", f"LR {x} \"abab\"{{P $0}}",
               f"LR `b` {x}{{P $0}}", f"LR {x} `b`{{P 1}}", f"O {x}", f"P {x}",
               f"(RC {x})", f"(SH {x})", f"(RR {x})", f"r:{x}",
               f"P RP ({{a}} V {x})",
               f"P RP (V* [{{1}};{{2}}])", f"u:{x};{{a@0:4;P a}}u;P u",
               f"P RP (ST {x})", f"P RP (RP {x})", f"q:{x}", f"x:{x};WG;P x",
               f"P ({x}).{x}"]
        if x not in ("(1 E 20)", '"1e400"'):
            ss.append(f"L {x}{{P 1}}")
        ss += [f"P RR {x};{y}".replace("P RR ", "(").replace(";", " RR ", 1)
               + ")" for y in SMALL]
    ss = [x for x in ss if x]
    return [{"op": "meta", "sts": c} for c in chunks(ss, 16)]


def total_check(case, ctx):
    code = "\n".join("{" + s + ";()}V[]" for s in case["sts"]) + \
        "\nP \"the end\"\n()"
    r = T.run(code, ["-w", "-p"], "l1\nl2\n")
    if r.status != "ok" or not r.out.endswith("the end\n"):
        raise Violation(f"{code!r} ends with {r.status} {r.detail}: "
                        f"{r.err[-400:]} {r.out[-100:]!r}")
    ctx.nontrivial()


def split(case):
    return [dict(case, sts=[s]) for s in case["sts"]]


# ---------------------------------------------------- any composition at all

KEYS = [k for k in HINTS if k not in G.BIG and k[0] not in
        ("RR", "RC", "SH", "V", "RE")]


def wild(d):
    """Deeply wrong expressions."""
    def e(depth):
        k = d.below(12)
        if depth <= 0 or k < 2:
            return d.pick(TYPES) if d.chance(70) else \
                d.pick(INVALID) if d.chance(20) else \
                d.pick(INFINITE) if d.chance(20) else d.pick("xyulio_BG")
        if k < 10:
            sym, ar = d.pick(KEYS)
            return build(sym, [d.pick("uvxyl") if sym in LVAL and i == 0 else
                               e(depth - 1) for i in range(ar)])
        if k < 11:
            return f"({d.pick(['$', chr(92) + '$'])}" \
                   f"{d.pick(FOLDS)} {e(depth - 1)})"
        return f"({e(depth - 1)} {e(depth - 1)})"
    return {"sts": [d.pick(["P RP ", "u:", "(v@0):", "u .: ", ""]) + e(3)
                    for _ in range(d.int(1, 3))]}


FOLDS = ["+", "-", ".", "*", "<", "=", "AL", "AE", "Z", ",", "|", "#<", "Q", "@",
         "J", "R"[:0] or "N", "MX"[:0] or "CM", "/", "%", "~"]


def wild_check(case, ctx):
    code = ";\n".join(case["sts"]) + ";P RP [x;y;u;v;l]\n()"
    try:
        e = D.expected({"code": code, "stdin": ["7"]})
        diff_check(warn=True)({"code": code, "stdin": ["7"]}, ctx)
    except Discard:
        raise
    if e.warns or len(e.out) > 20:
        ctx.nontrivial()


def suite():
    f = Family("operators", enum=ops_enum, check=total_check)
    g = Family("everything else", enum=meta_enum, check=total_check)
    f.split = g.split = split
    return Suite("P29", [
        f, g,
        Family("wild", wild, wild_check, 16000),
        op_family(KEYS, 8000, wild=60, name="mistyped",
                  rule=lambda c, e: bool(e.warns)),
    ], "Every operator, meta-operator, assignment form, command and call on "
       "operands of every type (exhaustive over a pool of 34 values), each "
       "within one program that must get to its end; random compositions of "
       "wrongly typed operations compared with the reference; non-trivial: "
       "reached the end / met an error.", BASE_ASSUMPTIONS)
