"""P31: grids, combinations, permutations, products."""
import itertools

from ..common import *
from ..engine import Suite

U = keys("CG ZG OG EY PM CP", 1)
B = keys("CG ZG OG CB CP MC", 2)


def pool(d):
    g = Gen(d)
    k = d.below(8)
    if k < 3:
        return "".join(d.pick("abcab1") for _ in range(d.int(0, 6)))
    if k < 5:
        return tuple(str(d.int(0, 4)) for _ in range(d.int(0, 6)))
    if k < 6:
        lo = d.int(-2, 3)
        return Rng(d.pick([None, lo]), lo + d.int(0, 5))
    if k < 7:
        return tuple(g.value(d.pick("nsN0R")) for _ in range(d.int(0, 4)))
    return str(d.int(0, 9999))


def gen(d):
    out = []
    for _ in range(d.int(1, 3)):
        n = lit(str(d.int(-1, 7)) if d.chance(85) else
                d.pick(["2.7", "-1.5", "3x", "", "0.9"]))
        m = lit(str(d.int(-1, 13 if d.chance(20) else 6)))
        p, q = lit(pool(d)), lit(pool(d))
        f = d.pick(["{a.b}", "{a=b}", "{[a;b]}", "{a+b}", "{g}", "{P a;b}",
                    "{}", "{i:i+1}", "(_*B)", "{a<b?a b}"])
        e = d.pick([
            f"(CG {n})", f"(ZG {n})", f"(OG {n})", f"(EY {n})",
            f"({n} CG {m})", f"({n} ZG {m})", f"({n} OG {m})",
            f"({f} MC {n})", f"({f} MC [{n};{m}])", f"([{n};{m}] MC {f})",
            f"({f} MC {q})", f"({p} CB {n})", f"({p} CB {m})", f"(PM {p})",
            f"({p} CP {q})", f"(CP [{p};{q}])",
            f"(CP [{p};{q};{lit(Gen(d).value("R")) if d.chance(50) else n}])"
            if d.chance(30) else f"({q} CP {p})",
            f"(# CP [{p};{q}])", f"(PM ({p} @< 4))", f"(# ({p} CB {n}))"])
        if d.chance(20):
            # the rows are separate: changing one leaves the others alone
            x = d.pick([f"({n} ZG {m})", f"(OG {n})", f"({n} CG {m})",
                        f"(EY {n})", f"({p} CP {q})"])
            out += [f"u:{x}", f"u@{d.int(0, 2)}@{d.int(0, 2)}:9", "P RP u"]
        else:
            out.append("P RP " + e)
    if d.chance(15):
        out.append(f"i:{d.int(0, 3)};" + "P RP [i]")
    return {"code": "\n".join(out) + "\n()"}


def laws(d):
    n = d.int(0, 6)
    xs = d.many(n, n, lambda: d.pick("abcde"))
    return {"xs": xs, "str": d.chance(40), "k": d.int(0, 7),
            "ys": d.many(0, 4, lambda: d.pick("012"))}


def law_check(case, ctx):
    xs, k, ys = case["xs"], case["k"], case["ys"]
    mk = (lambda t: "".join(t)) if case["str"] else tuple
    X = lit("".join(xs)) if case["str"] else lit(tuple(xs))
    X5 = lit(mk(xs[:5]))
    Y = lit(tuple(ys))
    want = [
        tuple(mk(c) for c in itertools.combinations(xs, k)),
        tuple(mk(c) for c in itertools.permutations(xs[:5])),
        tuple(tuple(c) for c in itertools.product(xs, ys)),
        tuple(tuple(c) for c in itertools.product(xs, ys, "pq")),
        tuple(tuple((str(i), str(j)) for j in range(len(ys)))
              for i in range(k)),
        tuple(tuple("0" for j in range(len(ys))) for i in range(k)),
        tuple(tuple("1" for j in range(k)) for i in range(len(ys))),
        tuple(tuple(str(int(i == j)) for j in range(k)) for i in range(k)),
        tuple(tuple(str(i * 10 + j) for j in range(len(ys)))
              for i in range(k)),
    ]
    exprs = [f"({X} CB {k})", f"(PM {X5})", f"({X} CP {Y})",
             f'(CP [{X};{Y};"pq"])', f"({k} CG {len(ys)})",
             f"({k} ZG {len(ys)})", f"({len(ys)} OG {k})", f"(EY {k})",
             f"({{a*10+b}} MC [{k};{len(ys)}])"]
    r = T.run(None, ["-e", "\n".join("P RP " + e for e in exprs) + "\n()"])
    got = r.out.split("\n")
    for e, w, g in zip(exprs, want, got):
        if V.show(w) != g:
            raise Violation(f"{e}: {g}, want {V.show(w)}")
    if r.status != "ok":
        raise Violation(f"{exprs}: {r.status} {r.detail}")
    if xs and k:
        ctx.nontrivial()


def suite():
    return Suite("P31", [
        sweep_family(U + B),
        Family("grids", gen, diff_check(substantial), 18000),
        Family("laws", laws, law_check, 6000),
        op_family(U + B, 5000),
        large_family(U + B, 2000),
    ], "Grids of -1..13 rows and columns, combinations, permutations and "
       "products of strings, lists with repeats and ranges, functions with "
       "side effects over grids, cells assigned afterwards; laws compare with "
       "Python's itertools; non-trivial: distinct text with a non-empty "
       "result and no nonfatal errors.", BASE_ASSUMPTIONS)
