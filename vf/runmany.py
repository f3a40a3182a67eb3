"""Run the cases given as JSON on standard input; print the results as JSON.

A separate process (python -m vf.runmany) so that nothing is left over from
other runs and so that the environment can be chosen.
"""
import gc
import json
import os
import sys

from . import target as T


def one(c):
    r = T.run(c["code"], c["argv"], c["stdin"])
    return [r.out, r.err, r.status]


def group(cases):
    """The same in a process that has run nothing else before."""
    r, w = os.pipe()
    child = os.fork()
    if not child:
        os.close(r)
        with os.fdopen(w, "w") as fh:
            json.dump([one(c) for c in cases], fh)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as fh:
        text = fh.read()
    os.waitpid(child, 0)
    return json.loads(text)


def main():
    cases = json.load(sys.stdin)
    T.install_alarm()
    T.load()
    gc.freeze()
    json.dump([group(c) if isinstance(c, list) else one(c) for c in cases],
              sys.stdout)


if __name__ == "__main__":
    main()
