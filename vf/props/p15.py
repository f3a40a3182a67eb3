"""P15: meta-operators mean what the operator written out means."""
from ..common import *
from ..engine import Suite

BINS = sorted(s for s in S.OPS[2] if (s, 2) in HINTS and
              (s, 2) not in G.IMPURE and s not in ("RR", "V"))
UNS = sorted(s for s in S.OPS[1] if (s, 1) in HINTS and
             (s, 1) not in G.IMPURE and s not in ("RR", "V", "RE", "SH", "RC"))
STRICT = [s for s in BINS if S.OPS[2][s].mode != "lazy"]


def operands(d, sym, n):
    g = Gen(d, {}, 8)
    alts = HINTS[sym, 2]
    kinds = d.pick(alts)[0] if alts else "**"
    if sym in ("X", "RL", "CP", "**", "E", "EE", "CB", "CG", "PM", "MC", "ZG",
               "OG", "TB"):
        kinds, n = "uu", min(n, 3)
    homo = kinds[0] if d.chance(60) or kinds[0] == kinds[1] else None
    out = []
    for _ in range(n):
        k = homo or d.pick(kinds)
        out.append(g.block(k) if k in "Bbf" else lit(g.value(k)))
    return out


def written_out(sym, xs):
    a = S.OPS[2][sym].assoc
    if a == "C":
        return "(" + f" {sym} ".join(xs) + ")"
    if a == "L":
        e = xs[0]
        for x in xs[1:]:
            e = f"({e} {sym} {x})"
        return e
    e = xs[-1]
    for x in xs[-2::-1]:
        e = f"({x} {sym} {e})"
    return e


def laws(d):
    sym = d.pick(BINS)
    n = d.weighted([(6, 2), (6, 3), (3, 4), (1, 6)])
    return {"sym": sym, "xs": operands(d, sym, n)}


def law_check(case, ctx):
    """$op of a list is the operator written between the items; \\$op is the
    list of its partial results; op* and op: are the map and the assignment."""
    sym, xs = case["sym"], case["xs"]
    if any("{" in x for x in xs):
        raise Discard       # functions make functions: checked by 'programs'
    assoc = S.OPS[2][sym].assoc
    lst = "[" + ";".join(xs) + "]"
    want = [written_out(sym, xs)]
    part = [xs[i:] for i in range(len(xs))] if assoc == "R" else \
        [xs[:i + 1] for i in range(len(xs))]
    scans = [written_out(sym, p) if len(p) > 1 else
             ("1" if assoc == "C" else p[0]) for p in part]
    one = [f"P RP {want[0]}", f"P RP [{';'.join(scans)}]"]
    two = [f"P RP (${sym} {lst})", f"P RP (\\${sym} {lst})"]
    for a, b in zip(one, two):
        e = D.expected({"code": a + "\n()"})
        r1 = T.run(a + "\n()", ["-w", "--"])
        r2 = T.run(b + "\n()", ["-w", "--"])
        if r1.status != e.status:
            raise Violation(f"{a!r}: {r1}")
        if (r1.out, r1.status, bool(D.clean(r1.err))) != \
                (r2.out, r2.status, bool(D.clean(r2.err))):
            raise Violation(f"{b!r} gives {r2}\n  but {a!r} gives {r1}")
        if r1.status == "ok" and not r1.err:
            ctx.nontrivial()


def mapped(d):
    g = Gen(d, {}, 8)
    k = d.below(10)
    if k < 6:
        op = d.pick(UNS)
        alts = HINTS[op, 1]
        kind = (d.pick(alts)[0] if alts else "*").translate(
            str.maketrans("Bbf", "nNs"))
    elif k < 9:
        op = d.pick(["$", "\\$"]) + d.pick(STRICT)
        kind = d.pick("NTGL")
        if op.lstrip("\\$") in ("**", "E", "EE", "CB", "X", "RL", "CP", "CG",
                                "TB", "MC"):
            op = "$+"
    else:
        op = d.pick(UNS) + "*"
        kind = d.pick("NTGR")
    n = d.int(0, 4)
    xs = [lit(g.value(kind)) for _ in range(n)]
    if d.chance(25):
        return {"op": op, "seq": lit(g.value(d.pick("sRNTG"))), "xs": None}
    return {"op": op, "seq": "[" + ";".join(xs) + "]", "xs": xs}


def map_check(case, ctx):
    op, seq, xs = case["op"], case["seq"], case["xs"]
    if S.lex(op + "* a") != S.lex(op + " a")[:-1] + S.lex("* a"):
        raise Discard       # the star joins the operator: another operator
    one = f"P RP ({op}* {seq})\n()"
    two = f"P RP ({{{op} a}} M {seq})\n()"
    three = None
    if xs is not None:
        three = "P RP [" + ";".join(f"({op} {x})" for x in xs) + "]\n()"
    for p in (one, two):
        e = D.expected({"code": p})
    runs = [T.run(p, ["-w", "--"]) for p in (one, two, three) if p]
    for r in runs[1:]:
        if (r.out, r.status, bool(D.clean(r.err))) != \
                (runs[0].out, runs[0].status, bool(D.clean(runs[0].err))):
            raise Violation(f"op* is not the map of the operator:\n  "
                            f"{[p for p in (one, two, three) if p]}\n  {runs}")
    if runs[0].status != e.status:
        raise Violation(f"{one!r}: {runs[0]}")
    if seq != "[]" and not runs[0].err:
        ctx.nontrivial()


MET = ["$+", "$-", "$*", "$.", "\\$+", "\\$-", "\\$.", "$<", "\\$<", "$AE",
       "$Q", "$**", "$?".replace("?", "|"), "$&", "\\$|", "$M", "$,", "$J",
       "$AL", "$WV", "$CM", "$@", "\\$@", "$:", "\\$:", "$::", "$>=", "$X",
       "$//", "$%", "$PE", "\\$PE", "$=", "\\$=", "$!=", "$RM", "$Z", "$>"]


def programs(d):
    """Meta-operators stacked on each other, applied to values, variables,
    functions and lists of variables."""
    g = Gen(d, {"L": ["u"], "N": ["u"], "*": ["u", "v"], "G": ["v"]}, 8)
    lines = [f"u:{lit(g.value(d.pick('NTLGR')))}", f"v:{lit(g.value(d.pick('GLN')))}"]
    for _ in range(d.int(1, 3)):
        op = d.pick(MET) if d.chance(70) else \
            d.pick(["$", "\\$"]) + d.pick(BINS) if d.chance(60) else d.pick(UNS)
        if op.lstrip("\\$") in ("**", "E", "EE", "CB", "X", "RL", "CP", "CG"):
            op = "$+"
        stars = d.weighted([(5, 0), (4, 1), (2, 2), (1, 3)])
        k = d.below(12)
        if k < 5:
            arg = d.pick(["u", "v", g.expr(d.pick("NTGL"), d.int(0, 2))])
        elif k < 7:
            arg = "[" + ";".join(d.pick(["u", "v", "1", "(v@0)", '"ab"'])
                                 for _ in range(d.int(0, 4))) + "]"
        elif k < 8:
            arg = lit(g.value(d.pick("RQ0sPn")))
        elif k < 10:
            arg = f"(u@{d.pick(['0', '(0,2)', '(1,())', '-1'])})"
        else:
            arg = d.pick(["_", "(_,4)", "{a}", "(_ AL u)"])
        asg = d.chance(25)
        if asg:
            arg = d.pick(["u", "v", "(u@0)", "(v@1)", "(u@(0,2))"])
        e = f"({op}{'*' * stars}{':' if asg else ''} {arg})"
        if k >= 10 and not asg:
            e = d.pick([f"({e} {lit(g.value('N'))})", f"({e} M v)", e])
        lines.append("P RP " + e)
    return {"code": "\n".join(lines + ["P RP [u;v]", "()"])}


def sizes(tier):
    """Every binary operator folded and scanned over lists of 0-3 items."""
    pools = ["[]", "[5]", '["ab"]', "[()]", "[[1;2]]", "[6;2]", "[6;2;1]",
             '["ab";"b"]', "[[3;1];[1]]", "[0;1;0]", "[1;1;1]", "(,0)",
             "(1,4)", '""', '"abc"', "5", "()", "[`a`;`b`]", "(2,())",
             "[3;2;1]", "[[1;2];0;1]", "``", '"a"', "[1;2;3;4]"]
    cases = []
    for s in BINS:
        small = s in ("**", "E", "EE", "CB", "X", "RL", "CP", "CG", "MC", "TB")
        for m in ("$", "\\$"):
            ex = [f"({m}{s} {p})" for p in pools
                  if not (small and "4" in p)]
            cases += [{"exprs": x} for x in chunks(ex, 12)]
    for s in UNS:
        big = s in ("PM", "CG", "ZG", "OG", "EY", "EX", "**", "E", "EE", "CP")
        ex = [f"({s}* {p})" for p in pools[:8 if big else None]]
        cases += [{"exprs": x} for x in chunks(ex, 12)]
    return cases


def long(d):
    """Folds, scans and maps over many items."""
    big, g = Large(d), Gen(d, {}, 0)
    op = d.pick(BINS)
    if op in GROWING or op in ("AL", "AE", "PE", "J", "WV", "TB", "FB"):
        big.top = 14
    k = d.below(8)
    v = big.value(d.pick("NTRRLG") if k else "s")
    if isinstance(v, tuple) and d.chance(30):   # one odd item somewhere
        i = d.below(len(v))
        v = v[:i] + (g.value(d.pick("nsN0P")),) + v[i + 1:]
    meta = d.weighted([(4, "$"), (4, "\\$")]) + op
    if k == 7:
        meta = d.pick([u for u in UNS if u not in GROWING and
                       u not in ("PM", "EX")]) + "*"
        if isinstance(v, tuple) and any(isinstance(x, (tuple, Rng))
                                        for x in v):
            v = tuple(x for x in v if isinstance(x, str))
    tail = d.pick(["", "", "", "@-1", "@(3,9)"]) if meta[0] != "$" else ""
    return {"code": f"u:{lit(v)};\nP RP (({meta} u){tail});\n()"}


def suite():
    sz = Family("sizes", enum=sizes, check=batch_check)
    sz.split = split_batch
    return Suite("P15", [
        sz,
        Family("written out", laws, law_check, 9000),
        Family("map", mapped, map_check, 6000),
        Family("programs", programs, diff_check(substantial), 12000),
        Family("long", long, diff_check(), 2500),
    ], "Every binary operator folded and scanned, every unary operator mapped "
       "over lists of 0 to 4+ items, strings, ranges and nil, compared with "
       "the expression written out in full (metamorphic) and with the "
       "reference; stacked meta-operators on values, variables, slices and "
       "functions; non-trivial: no nonfatal error / some non-empty output.",
       BASE_ASSUMPTIONS)
