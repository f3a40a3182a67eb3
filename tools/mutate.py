#!/usr/bin/env python3
"""Mutation testing of the checks (a development tool; no check uses it).

  tools/mutate.py map OUT.json [N]      which cases execute which line
  tools/mutate.py run MAP OUT.jsonl [FILE [FROM TO]]  try every mutant
"""
import ast
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from vf import engine, target  # noqa: E402

FILES = ["execution.py", "ptypes.py", "parsing.py", "scanning.py",
         "operators.py", "tokens.py", "pip.py", "errors.py"]
PROPS = [f"P{i:02}" for i in range(1, 36) if i != 35]
SRC = target.REPO
CAP = int(os.environ.get("CAP", "60"))
JOBS = int(os.environ.get("JOBS", "6"))


def suites(props=PROPS):
    return {p: importlib.import_module("vf.props." + p.lower()).suite()
            for p in props}


# ------------------------------------------------------------------ mapping

def case_of(s, fam, enums, k):
    key = (s.prop, fam.name)
    if fam.enum:
        if key not in enums:
            enums[key] = fam.enum("quick")
        return enums[key][k % len(enums[key])]
    return fam.gen(engine.Draw(engine.rng_for(1, s.prop, fam.name, k)))


def map_prop(p, n, out):
    engine._limits()
    target.load()
    s = suites([p])[p]
    n = 12 if p == "P30" else n
    lines, enums = {}, {}
    seen = set()
    m = sys.monitoring

    def line(code, number):
        f = code.co_filename
        if f.startswith(target.REPO):
            seen.add((os.path.basename(f), number))
        return m.DISABLE
    m.use_tool_id(3, "map")
    m.register_callback(3, m.events.LINE, line)
    for fam in s.families:
        if fam.enum:
            enums[s.prop, fam.name] = fam.enum("quick")
            total = len(enums[s.prop, fam.name])
            ks = range(total) if total < 3 * n else random.Random(1).sample(
                range(total), 3 * n)
        else:
            ks = range(n)
        end = time.time() + 400
        for k in ks:
            if time.time() > end:
                break
            seen.clear()
            m.set_events(3, m.events.LINE)
            m.restart_events()
            try:
                s.check_case(fam, case_of(s, fam, enums, k), engine.Ctx())
            except (engine.Violation, engine.Discard) as x:
                print(p, fam.name, k, str(x)[:300])
                continue
            finally:
                m.set_events(3, 0)
            for f, ln in seen:
                lines.setdefault(f"{f}:{ln}", []).append([fam.name, k])
    r = random.Random(p)
    for k, v in lines.items():
        if len(v) > CAP:
            lines[k] = r.sample(v, CAP)
    with open(out, "w") as fh:
        json.dump(lines, fh)


def do_map(out, n):
    todo, running = list(PROPS), {}
    tmp = tempfile.mkdtemp(prefix="map-")
    while todo or running:
        while todo and len(running) < JOBS:
            p = todo.pop(0)
            pid = os.fork()
            if pid == 0:
                try:
                    map_prop(p, n, f"{tmp}/{p}")
                except BaseException as x:
                    print(p, "failed", repr(x))
                os._exit(0)
            running[pid] = p
        pid, _ = os.wait()
        print("mapped", running.pop(pid), flush=True)
    all_ = {p: json.load(open(f"{tmp}/{p}")) for p in PROPS
            if os.path.exists(f"{tmp}/{p}")}
    json.dump(all_, open(out, "w"))
    shutil.rmtree(tmp)


# ---------------------------------------------------------------- mutations

CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"],
       ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"],
       ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+"], ast.Div: ["//"],
       ast.FloorDiv: ["/"], ast.Mod: ["//"], ast.Pow: ["*"]}


def mutants(src):
    """(line, start offset, end offset, replacement, description)"""
    tree = ast.parse(src)
    offs = [0]
    for ln in src.split("\n"):
        offs.append(offs[-1] + len(ln.encode()) + 1)
    raw = src.encode()
    out = []

    def at(n):
        return (offs[n.lineno - 1] + n.col_offset,
                offs[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = at(n)
        return raw[a:b].decode()

    def put(n, new, what, line=None):
        a, b = at(n)
        if raw[a:b].decode() != new:
            out.append((line or n.lineno, a, b, new, what))

    def walk(n, quiet, stmt):
        if isinstance(n, ast.stmt):
            stmt = n.lineno
        if isinstance(n, ast.Call):
            f = text(n.func)
            if f.endswith(("err.warn", "err.die", ".die", ".warn")):
                quiet = True
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.body and \
                isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            n.body[0].value.value = None
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = text(n.left), text(n.comparators[0])
            for o in CMP.get(type(n.ops[0]), []):
                put(n, f"({a} {o} {b})", "compare", stmt)
        elif isinstance(n, ast.BinOp) and not quiet:
            for o in BIN.get(type(n.op), []):
                put(n, f"({text(n.left)} {o} {text(n.right)})", "arith", stmt)
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + o.join(f"({text(v)})" for v in n.values) + ")",
                "and/or", stmt)
            for i in range(len(n.values)):
                o2 = " and " if isinstance(n.op, ast.And) else " or "
                put(n, "(" + o2.join(f"({text(v)})" for j, v in
                                     enumerate(n.values) if j != i) + ")",
                    "drop term", stmt)
        elif isinstance(n, ast.UnaryOp):
            put(n, f"({text(n.operand)})", "drop unary", stmt)
        elif isinstance(n, ast.Constant) and not quiet:
            v = n.value
            if v is True or v is False:
                put(n, repr(not v), "bool", stmt)
            elif isinstance(v, int):
                put(n, repr(v + 1), "int", stmt)
                put(n, f"({v - 1})", "int", stmt)
            elif isinstance(v, str):
                put(n, '""' if v else '"x"', "str", stmt)
        elif isinstance(n, ast.IfExp):
            put(n, f"({text(n.body)})", "ternary", stmt)
            put(n, f"({text(n.orelse)})", "ternary", stmt)
        elif isinstance(n, ast.Tuple) and len(n.elts) > 1 and \
                isinstance(n.ctx, ast.Load):
            for i in range(len(n.elts)):
                put(n, "(" + "".join(text(e) + ", " for j, e in
                                     enumerate(n.elts) if j != i) + ")",
                    "drop element", stmt)
        elif isinstance(n, ast.Slice):
            for part in (n.lower, n.upper, n.step):
                if part is not None:
                    put(part, "None", "slice", stmt)
        elif isinstance(n, ast.Call):
            if len(n.args) == 1 and not n.keywords and not quiet and \
                    isinstance(n.func, ast.Name) and n.func.id not in (
                        "isinstance", "len", "range", "super", "type", "print"):
                put(n, f"({text(n.args[0])})", "drop call", stmt)
            if n.keywords and not quiet:
                for i in range(len(n.keywords)):
                    kw = [text(a) for a in n.args] + [
                        text(k) for j, k in enumerate(n.keywords) if j != i]
                    put(n, f"{text(n.func)}({', '.join(kw)})", "drop keyword",
                        stmt)
            if isinstance(n.func, ast.Attribute) and not n.args and \
                    not quiet and not n.keywords:
                put(n, f"({text(n.func.value)})", "drop method", stmt)
        if isinstance(n, (ast.If, ast.While)):
            if not (isinstance(n, ast.While)):
                put(n.test, "True", "cond", stmt)
            put(n.test, "False", "cond", stmt)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Break,
                          ast.Continue, ast.Raise)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            put(n, "pass", "delete", stmt)
        if isinstance(n, ast.Return) and n.value is not None and \
                text(n.value) not in ("nil", "None"):
            put(n.value, "None", "return", stmt)
        for c in ast.iter_child_nodes(n):
            walk(c, quiet, stmt)
    walk(tree, False, 1)
    return raw, sorted(set(out))


ATTR = {"getLower": "getUpper", "getUpper": "getLower", "lower": "upper",
        "upper": "lower", "lstrip": "strip", "rstrip": "strip",
        "startswith": "endswith", "endswith": "startswith",
        "toNumber": "__int__", "start": "end", "end": "start",
        "search": "match", "fullmatch": "match", "match": "search",
        "isalpha": "isalnum", "isdigit": "isalnum", "find": "rfind",
        "_lower": "_upper", "_upper": "_lower", "finditer": "finditer",
        "floor": "trunc", "ceil": "floor", "trunc": "floor"}
CMP2 = {ast.Lt: ">", ast.LtE: ">=", ast.Gt: "<", ast.GtE: "<=",
        ast.Is: "=="}
TYPE = {"Scalar": ["PipIterable", "PipType"], "List": ["PipIterable"],
        "Range": ["PipIterable"], "PipIterable": ["List", "Scalar"],
        "Pattern": ["PipType"], "Block": ["PipType"], "Nil": ["PipType"],
        "Lval": ["PipType"]}


def mutants2(src):
    """Wrong variables, exchanged statements, arguments and branches."""
    tree = ast.parse(src)
    offs = [0]
    for ln in src.split("\n"):
        offs.append(offs[-1] + len(ln.encode()) + 1)
    raw = src.encode()
    out = []

    def at(n):
        return (offs[n.lineno - 1] + n.col_offset,
                offs[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = at(n)
        return raw[a:b].decode()

    def put(n, new, what, line):
        a, b = at(n)
        if raw[a:b].decode() != new:
            out.append((line, a, b, new, what))

    def walk(n, names, stmt, quiet):
        if isinstance(n, ast.stmt):
            stmt = n.lineno
        if isinstance(n, ast.FunctionDef):
            names = [a.arg for a in n.args.args if a.arg != "self"] + sorted(
                {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and
                 isinstance(m.ctx, ast.Store)})
        if isinstance(n, ast.Call) and text(n.func).endswith(
                ("err.warn", "err.die", "print", "FatalError")):
            quiet = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                n.id in names and not quiet and len(names) > 1:
            i = names.index(n.id)
            for j in {(i + 1) % len(names), (i - 1) % len(names)} - {i}:
                put(n, names[j], "name", stmt)
        if isinstance(n, ast.Call) and not quiet:
            if len(n.args) >= 2 and text(n.func) != "isinstance":
                put(n, f"{text(n.func)}(" + ", ".join(
                    [text(n.args[1]), text(n.args[0])] +
                    [text(a) for a in n.args[2:] + n.keywords]) + ")",
                    "swap args", stmt)
            if len(n.args) >= 2 and text(n.func) != "isinstance":
                put(n, f"{text(n.func)}(" + ", ".join(
                    [text(a) for a in n.args[:-1]]) + ")", "drop arg", stmt)
            if text(n.func) == "isinstance" and isinstance(n.args[1], ast.Name):
                for t in TYPE.get(n.args[1].id, []):
                    put(n.args[1], t, "type", stmt)
        if isinstance(n, ast.Attribute) and n.attr in ATTR and not quiet:
            put(n, f"{text(n.value)}.{ATTR[n.attr]}", "attribute", stmt)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                type(n.ops[0]) in CMP2:
            put(n, f"{text(n.left)} {CMP2[type(n.ops[0])]} "
                f"{text(n.comparators[0])}", "compare2", stmt)
        if isinstance(n, ast.BinOp) and isinstance(
                n.op, (ast.Sub, ast.Div, ast.FloorDiv, ast.Mod, ast.Add)) and \
                not quiet:
            a, b = at(n.left)[1], at(n.right)[0]
            put(n, text(n.right) + raw[a:b].decode() + text(n.left),
                "swap operands", stmt)
        if isinstance(n, ast.AugAssign):
            put(n, f"{text(n.target)} = {text(n.value)}", "augment", stmt)
        if isinstance(n, (ast.For, ast.comprehension)):
            it = text(n.iter)
            ln = stmt
            put(n.iter, f"list({it})[1:]", "iterate", ln)
            put(n.iter, f"list({it})[:-1]", "iterate", ln)
            put(n.iter, f"list({it})[::-1]", "iterate", ln)
        if isinstance(n, ast.Return):
            put(n, "pass", "no return", stmt)
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and \
                not isinstance(n.value, bool) and not quiet:
            for v in {0, 1, 2, -n.value} - {n.value}:
                put(n, f"({v})", "int2", stmt)
        if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and \
                len(n.elts) == 2 and not quiet:
            put(n, f"({text(n.elts[1])}, {text(n.elts[0])})", "swap", stmt)
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            for x, y in zip(b, b[1:]):
                if isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr)) and \
                        isinstance(y, (ast.Assign, ast.AugAssign, ast.Expr)):
                    p, q = at(x)[0], at(y)[1]
                    mid = raw[at(x)[1]:at(y)[0]].decode()
                    out.append((x.lineno, p, q, text(y) + mid + text(x),
                                "exchange"))
            if fld == "orelse" and isinstance(n, ast.If) and len(b) == 1 and \
                    isinstance(b[0], ast.If):
                p = at(b[0])[0]
                if raw[p:p + 4] == b"elif":
                    out.append((b[0].lineno, p, p + 4, "if", "elif"))
            if fld == "body" and isinstance(n, (ast.For, ast.While)) and \
                    len(b) > 1:
                # the last statement moves out of the loop
                p, q = at(b[-1])
                ind = " " * n.col_offset
                t = "\n".join(x[b[-1].col_offset - n.col_offset:] if i else
                              x for i, x in enumerate(text(b[-1]).split("\n")))
                out.append((b[-1].lineno, p - b[-1].col_offset, q, ind + t,
                            "out of loop"))
        for c in ast.iter_child_nodes(n):
            walk(c, names, stmt, quiet)
    walk(tree, [], 1, False)
    return raw, sorted(set(out))


if os.environ.get("SECOND"):
    mutants = mutants2


# ------------------------------------------------------------------ running

def try_mutant(slot, f, data, plan, allsuites, enums, secs, w):
    """In a child: returns the killing (prop, family, k) or None."""
    engine._limits()
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    target.CPU_SECONDS = 3
    target.REPO = slot
    with open(os.path.join(slot, f), "wb") as fh:
        fh.write(data)
    try:
        target.load()
    except BaseException as x:
        return ["load", repr(x)[:100]]
    end = time.time() + secs
    n = 0
    kills = []
    seen = set()
    for p, fam, k in plan:
        if time.time() > end:
            break
        if p in seen:
            continue
        s = allsuites[p]
        try:
            s.check_case(s.by_name[fam], case_of(s, s.by_name[fam], enums, k),
                         engine.Ctx())
        except engine.Violation:
            kills.append([p, fam, k])
            seen.add(p)
            if not MATRIX:
                return kills
        except BaseException as x:
            return kills or ["error", p, fam, k, repr(x)[:200]]
        n += 1
    return kills or ["survived", n]


# a file of earlier results: only try what survived
AGAIN = {(r["file"], r["a"], r["b"], r["new"]) for r in map(
    json.loads, open(os.environ["AGAIN"])) if r["res"][0] == "survived"} \
    if os.environ.get("AGAIN") else None
MATRIX = os.environ.get("MATRIX")


def do_run(mapfile, outfile, only=None, lo=0, hi=10 ** 9):
    m = json.load(open(mapfile))
    props = [p for p in m if not os.environ.get("PROPS") or
             p in os.environ["PROPS"].split()]
    allsuites = suites(props)
    enums = {}
    for p in props:
        for fam in allsuites[p].families:
            if fam.enum:
                enums[p, fam.name] = fam.enum("quick")
    base = tempfile.mkdtemp(prefix="mut-")
    slots = []
    for i in range(JOBS):
        d = f"{base}/{i}"
        shutil.copytree(SRC, d, ignore=shutil.ignore_patterns(
            ".git", "__pycache__"))
        slots.append(d)
    free, running = list(slots), {}
    per = int(os.environ.get("CASES", "12"))
    secs = float(os.environ.get("SECS", "25"))
    done = 0
    out = open(outfile, "a")

    def finish(pid):
        nonlocal done
        slot, f, mu, r, raw, t0 = running.pop(pid)
        with os.fdopen(r) as fh:
            txt = fh.read()
        res = json.loads(txt) if txt else ["died"]
        shutil.copy(f"{SRC}/{f}", f"{slot}/{f}")
        free.append(slot)
        done += 1
        out.write(json.dumps({"file": f, "line": mu[0], "a": mu[1],
                              "b": mu[2],
                              "old": raw[mu[1]:mu[2]].decode(),
                              "new": mu[3], "what": mu[4], "res": res}) + "\n")
        out.flush()

    for f in FILES:
        if only and f != only:
            continue
        src = open(f"{SRC}/{f}").read()
        raw, mus = mutants(src)
        if AGAIN:
            mus = [m for m in mus if (f, m[1], m[2], m[3]) in AGAIN]
        if os.environ.get("SAMPLE"):
            mus = [m for m in mus if random.Random(f"{f}{m}").random() <
                   float(os.environ["SAMPLE"])]
        print(f, len(mus), flush=True)
        for mu in mus[lo:hi]:
            data = raw[:mu[1]] + mu[3].encode() + raw[mu[2]:]
            try:
                compile(data, f, "exec")
            except SyntaxError:
                continue
            plan = []
            r = random.Random(f"{f}{mu}")
            for p in props:
                cs = m[p].get(f"{f}:{mu[0]}", [])
                cs = r.sample(cs, min(per, len(cs)))
                plan += [(i, p, c[0], c[1]) for i, c in enumerate(cs)]
            plan.sort(key=lambda t: t[0])
            plan = [t[1:] for t in plan]
            if not plan:
                out.write(json.dumps({"file": f, "line": mu[0], "a": mu[1],
                          "b": mu[2], "old": raw[mu[1]:mu[2]].decode(),
                          "new": mu[3], "what": mu[4],
                          "res": ["uncovered"]}) + "\n")
                continue
            while not free:
                # kill what takes too long
                pid, _ = os.waitpid(-1, os.WNOHANG)
                if pid:
                    finish(pid)
                    break
                for q, t in running.items():
                    if time.time() - t[5] > secs + 60:
                        os.kill(q, signal.SIGKILL)
                time.sleep(0.01)
            slot = free.pop()
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                try:
                    res = try_mutant(slot, f, data, plan, allsuites, enums,
                                     secs, wfd)
                except BaseException as x:
                    res = ["error", repr(x)[:200]]
                os.write(wfd, json.dumps(res).encode())
                os._exit(0)
            os.close(wfd)
            running[pid] = (slot, f, mu, rfd, raw, time.time())
    while running:
        pid, _ = os.waitpid(-1, os.WNOHANG)
        if pid:
            finish(pid)
            continue
        for q, t in running.items():
            if time.time() - t[5] > secs + 60:
                os.kill(q, signal.SIGKILL)
        time.sleep(0.05)
    shutil.rmtree(base)
    print("done", done)


if sys.argv[1] == "map":
    do_map(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 400)
else:
    do_run(sys.argv[2], sys.argv[3], *(sys.argv[4:5]),
           *map(int, sys.argv[5:7]))
