"""Runs the interpreter under test, in this process, through pip.pip().

Only the public entry points are used (pip.pip, pip.main), and only what a
user sees is observed: standard output, standard error and how it ended.
"""
import builtins
import io
import os
import re
import signal
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")

_mod = None


class Hang(BaseException):
    """Raised inside the code under test when its time or step budget ends."""


def load():
    global _mod
    if _mod is None:
        sys.dont_write_bytecode = True
        # never trust byte code left over from another version of the tree
        sys.pycache_prefix = os.path.join("/tmp", "vf-no-pyc-%d" % os.getpid())
        sys.path.insert(0, REPO)
        import pip as m
        assert os.path.realpath(m.__file__).startswith(
            os.path.realpath(REPO) + os.sep), m.__file__
        _mod = m
    return _mod


def unaddressed(text):
    """Error messages without the memory addresses in them."""
    return re.sub(r"\bat 0x[0-9a-f]+", "at 0x", text)


class Result:
    __slots__ = ("out", "err", "status", "detail")

    def __init__(self, out, err, status, detail=None):
        self.out, self.err, self.status, self.detail = out, err, status, detail

    def key(self):
        return (self.out, self.err, self.status)

    def __repr__(self):
        d = f" {self.detail}" if self.detail else ""
        return f"<{self.status}{d} out={self.out!r} err={self.err!r}>"


class _Out(io.StringIO):
    """Collects output; refuses to grow without bound."""
    LIMIT = 4_000_000

    def write(self, s):
        if self.tell() > self.LIMIT:
            raise Hang("unbounded output")
        return super().write(s)


class _Err(io.StringIO):
    """Keeps the beginning of the messages (one may quote a huge Range)."""

    def write(self, s):
        return super().write(s) if self.tell() < _Out.LIMIT else len(s)


_active = False


def _alarm(sig, frame):
    if _active:
        raise Hang("time")


def install_alarm():
    signal.signal(signal.SIGVTALRM, _alarm)


STEP_BUDGET = None        # when set, count lines executed under REPO
CPU_SECONDS = 20


class _Steps:
    """Line-event budget: a deterministic substitute for a time-out."""

    def __init__(self, budget):
        self.left = budget

    def __enter__(self):
        m = sys.monitoring
        self.tool = m.PROFILER_ID
        m.use_tool_id(self.tool, "vf")
        m.register_callback(self.tool, m.events.LINE, self.line)
        m.set_events(self.tool, m.events.LINE)
        return self

    def line(self, code, number):
        if not code.co_filename.startswith(REPO):
            return sys.monitoring.DISABLE
        self.left -= 1
        if self.left < 0:
            raise Hang("steps")

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.tool, 0)
        m.register_callback(self.tool, m.events.LINE, None)
        m.free_tool_id(self.tool)
        m.restart_events()


class _NoSteps:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def run(code=None, argv=None, stdin="", entry="pip", sysargv=None, depth=None):
    """One run of the interpreter.  stdin is text; depth limits recursion as
    Python does by default (the checks themselves need more)."""
    global _active
    m = load()
    o, e = _Out(), _Err()
    saved = sys.stdin, sys.stdout, sys.stderr, sys.argv
    savedlimit = sys.getrecursionlimit()
    sys.stdin, sys.stdout, sys.stderr = io.StringIO(stdin), o, e
    sys.argv = sysargv or ["pip.py"]
    status, detail = "ok", None
    steps = _Steps(STEP_BUDGET) if STEP_BUDGET else _NoSteps()
    if depth:
        sys.setrecursionlimit(depth)
    if not STEP_BUDGET:
        _active = True
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_SECONDS, 0.5)
    try:
        with steps:
            if entry == "pip":
                m.pip(code, argv)
            elif entry == "run":
                m.run(code, argv)
            else:
                m.main()
    except Hang as x:
        _active = False
        status, detail = "hang", str(x)
    except SystemExit as x:
        status, detail = "exit", x.code
    except MemoryError:
        status, detail = "crash", "MemoryError"
    except Exception as x:
        if any(c.__name__ == "FatalError" for c in type(x).__mro__):
            status, detail = "fatal", str(x)
        else:
            status, detail = "crash", f"{type(x).__name__}: {x}"
    finally:
        _active = False
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        sys.stdin, sys.stdout, sys.stderr, sys.argv = saved
        sys.setrecursionlimit(savedlimit)
    return Result(o.getvalue(), unaddressed(e.getvalue()), status, detail)
