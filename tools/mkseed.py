"""Helper for writing planted bugs: seed(id, prop, needs, breaks, edits, demo).

edits: (file, old, new) with old occurring exactly once in /repo's file;
demo: (words, stdin, expected stdout[, expected exit status]).
"""
import json
import os
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = '''"""Runs programs with the interpreter in the current directory."""
import os
import subprocess
import sys

CASES = {cases}

bad = 0
for words, stdin, want, status in CASES:
    p = subprocess.run([sys.executable, "pip.py"] + words, input=stdin,
                       capture_output=True, text=True, timeout=60,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1",
                                PYTHONIOENCODING="utf-8"))
    if p.stdout != want or p.returncode != status:
        bad += 1
        print(words, repr(stdin), "printed", repr(p.stdout), "expected",
              repr(want), "exit status", p.returncode, p.stderr[-500:])
sys.exit(bad > 0)
'''

BASE = "a0ae245"   # the repository before this project's fixes


def seed(id, prop, needs, breaks, edits, demo):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
        for f, old, new in edits:
            p = os.path.join(w, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w + "/r",
                              capture_output=True, text=True).stdout
        for f, old, new in edits:
            base = subprocess.run(["git", "show", BASE + ":" + f],
                                  cwd=w + "/r", capture_output=True,
                                  text=True).stdout.split("\n")
            n, o = set(new.split("\n")), old.split("\n")
            changed = [x for x in o if x not in n]
            if not changed or any(x not in "\n".join(base) for x in changed):
                print("NOT ORIGINAL", id, changed)
    finally:
        shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(
        '#!/bin/bash\n# run in the repository\'s root\n'
        'exec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    cases = [tuple(c) + (0,) * (4 - len(c)) for c in demo]
    body = "[\n" + "".join(f"    {c!r},\n" for c in cases) + "]"
    open(d + "/demo.py", "w").write(DEMO.replace("{cases}", body))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(d + "/meta.json", "w"), indent=1)


def E(code, want, *args, flags="-p", stdin="", status=0):
    """A demo case: run code given with -e."""
    code += "\n()"
    return [[flags, "-e", code, "--"] + list(args) if flags else
            ["-e", code, "--"] + list(args), stdin, want, status]
