"""P08: item-wise application."""
from ..common import *
from ..engine import Suite

KEYS = each_keys()
U = [k for k in KEYS if k[1] == 1]
B = [k for k in KEYS if k[1] == 2]
ITEMS = "nnnssP0"


def item(d, g, depth=1):
    k = d.weighted([(12, "n"), (6, "s"), (1, "P"), (1, "0"), (2, "N")] +
                   ([(3, "L")] if depth else []))
    if k == "L":
        return tuple(item(d, g, depth - 1) for _ in range(d.size(3)))
    return g.value(k)


def meta(d):
    """An operator and list operands."""
    g = Gen(d)
    sym, ar = d.pick(KEYS)
    xs = [item(d, g) for _ in range(d.size(3))]
    case = {"op": sym, "xs": [lit(x) for x in xs]}
    if ar == 2:
        k = d.below(4)
        if k == 0:
            case["right"] = lit(d.pick([g.num, g.string, g.small])())
        elif k == 1:
            case["left"] = lit(d.pick([g.num, g.string, g.small])())
        else:
            case["ys"] = [lit(item(d, g)) for _ in range(d.size(3))]
    elif S.OPS[1][sym].each == "range" and d.chance(30):
        r = g.rng()
        case = {"op": sym, "range": lit(r),
                "xs": V.items(r)}
    return case


def lst(xs):
    return "[" + ";".join(xs) + "]"


def meta_check(case, ctx):
    op, xs = case["op"], case["xs"]
    if "range" in case:
        whole = build(op, [case["range"]])
        parts = [build(op, [x]) for x in map(lit, xs)]
    elif "ys" in case:
        ys = case["ys"]
        whole = build(op, [lst(xs), lst(ys)])
        n = min(len(xs), len(ys))
        parts = [build(op, [x, y]) for x, y in zip(xs, ys)] + xs[n:] + ys[n:]
    elif "right" in case:
        whole = build(op, [lst(xs), case["right"]])
        parts = [build(op, [x, case["right"]]) for x in xs]
    elif "left" in case:
        whole = build(op, [case["left"], lst(xs)])
        parts = [build(op, [case["left"], x]) for x in xs]
    else:
        whole = build(op, [lst(xs)])
        parts = [build(op, [x]) for x in xs]
    code = f"P RP {whole}\nP RP {lst(parts)}\n()"
    # only for cases the reference can finish (sizes)
    D.expected({"code": code})
    r = T.run(None, ["-e", code])
    if r.status != "ok":
        raise Violation(f"{code!r}: {r.status} {r.detail}")
    k = r.out.rstrip("\n").split("\n")
    half = len(k) // 2
    if k[:half] != k[half:]:
        raise Violation(f"not item by item: {code!r} printed {r.out!r}")
    ctx.tag("op " + op)
    if len(parts) > 1:
        ctx.nontrivial()


LPOOL = ["[]", "[1;2;3]", "[1;2]", "[[1;2];3]", "[[1];[2;3];[]]", "(,3)",
         "(2,5)", "((),2)", "(5,2)", '["a";"bc"]', "[(,2);4]", "[();1]",
         "[`a`;2]", "[[[1]];[2]]", "[(,3);[4;5]]", "2", '"a"', "()", "0",
         "[{a};1]", "{a}"]


def suite():
    return Suite("P08", [
        sweep_family(U, pool1=LPOOL),
        sweep_family(B, pool2=LPOOL, pool1=LPOOL, name="pairs"),
        Family("parts", meta, meta_check, 16000),
        op_family(KEYS, 10000),
        large_family(KEYS, 2000),
    ], "Item-wise operators on flat, nested, ragged, empty and Range operands; "
       "family 'parts' compares op applied to the whole with op applied to "
       "the parts inside the interpreter itself; non-trivial: at least two "
       "items, or a distinct differential program without nonfatal errors.",
        BASE_ASSUMPTIONS)
