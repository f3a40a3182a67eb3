#!/usr/bin/env python3
"""Try planted bugs: tools/seed.py DIR... (default: all of /verif/seeded).

For each: copy /repo, apply patch.diff, compile, run the 15 tests, run demo.sh
on both trees, and run the named property's quick check on the changed copy.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True,
                          env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1",
                                   **env))


def record(name, out):
    path = os.path.join(ROOT, "tools", "seed-results.json")
    res = json.load(open(path)) if os.path.exists(path) else {}
    for x in out:
        p, how = x.split(":")
        res.setdefault(name, {})[p] = how.startswith("caught")
    with open(path, "w") as fh:
        json.dump(res, fh, indent=1, sort_keys=True)
        fh.write("\n")


def main(dirs):
    dirs = dirs or sorted(os.path.join(ROOT, "seeded", x) for x in
                          os.listdir(os.path.join(ROOT, "seeded")))
    for d in dirs:
        d = os.path.abspath(d)
        if not os.path.exists(d + "/patch.diff"):
            continue
        meta = json.load(open(d + "/meta.json"))
        w = tempfile.mkdtemp(prefix="seed-")
        try:
            a, b = w + "/clean", w + "/bug"
            for t in (a, b):
                shutil.copytree("/repo", t, ignore=shutil.ignore_patterns(
                    ".git", "__pycache__"))
            r = sh(["git", "apply", "--unsafe-paths", d + "/patch.diff"], b)
            notes = []
            if r.returncode:
                notes.append("patch: " + r.stderr)
            t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "test"],
                   b)
            t0 = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                     "test"], a)
            last = lambda r: r.stdout.strip().split("\n")[-1].split(" in ")[0]
            if last(t) != last(t0):
                notes.append("tests: " + last(t))
            demo = d + "/demo.sh"
            if sh(["bash", demo], a).returncode:
                notes.append("demo fails on the clean tree")
            if not sh(["bash", demo], b).returncode:
                notes.append("demo passes on the changed tree")
            props = sys.argv[1:] and os.environ.get("PROPS")
            out = []
            for p in (props.split() if props else [meta["property"]]):
                c = sh([sys.executable, "check.py", p], ROOT, VERIF_REPO=b,
                       VERIF_NOEVIDENCE="1")
                hit = f"VIOLATION property={p} " in c.stdout
                out.append(f"{p}:{'caught' if hit else 'MISSED'}"
                           f"(rc {c.returncode})")
            record(os.path.basename(d), out)
            print(os.path.basename(d), *notes, *out, sep=" | ", flush=True)
        finally:
            shutil.rmtree(w)


main(sys.argv[1:])
