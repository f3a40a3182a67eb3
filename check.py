#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1: violated, with a
line "VIOLATION property=<id> replay=<path>".  Exit 2: the check itself failed.
"""
import argparse
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vf import engine  # noqa: E402


def load(prop):
    return importlib.import_module("vf.props." + prop.lower()).suite()


def replay(suite, path):
    with open(path) as fh:
        data = json.load(fh)
    print(f"replaying {path}")

    def go():
        ctx = engine.Ctx()
        for h in data.get("history", []):
            try:
                suite.check_case(suite.by_name[h["family"]], h["case"], ctx)
            except engine.Violation as v:
                return "(in the history) " + str(v)
        return engine.fails_here(suite, suite.by_name[data["family"]],
                                 data["case"])
    engine.target.load()
    status, msg = engine.in_child(go, 600)
    if status == "error":
        print(msg, file=sys.stderr)
        return 2
    if status == "dead":
        msg = "the process died: " + str(msg)
    if msg:
        print(msg)
        print(f"VIOLATION property={suite.prop} replay={path}")
        return 1
    print("the property holds on this case")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--stats", action="store_true")
    a = ap.parse_args()
    suite = load(a.prop)
    if a.replay:
        return replay(suite, a.replay)
    violation, errors, ev, raw = engine.run_suite(
        suite, a.tier, a.seed, a.workers, a.scale)
    ev["violations"] = 1 if violation else 0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    c = ev["coverage"]
    print(f"{a.prop}: {c['evaluations']} cases, {c['distinct_nontrivial']} "
          f"distinct non-trivial, {c['discarded']} discarded, "
          f"{ev['wall_s']} s, seed {a.seed}, {a.tier}")
    if a.stats:
        for k, v in c["families"].items():
            print(f"  family {k}: {v}")
        for k, v in c["classes"].items():
            print(f"    {k}: {v}")
    if violation:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        name = f"{a.prop}-{violation['family']}.json".replace(" ", "_")
        path = os.path.join(rdir, name)
        violation["property"] = a.prop
        with open(path, "w") as fh:
            json.dump(violation, fh, indent=1)
            fh.write("\n")
        print(f"family {violation['family']}: "
              f"{json.dumps(violation['case'], ensure_ascii=True)}")
        print(violation["message"])
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        return 2
    if raw:
        print(f"inconclusive: {raw[0]} did not fail again", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
