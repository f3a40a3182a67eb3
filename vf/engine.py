"""A small property-based testing engine (standard library only).

* `Draw` is a choice sequence: every random decision of a generator is one
  bounded integer that is recorded, so a failing case can be shrunk by editing
  the sequence and regenerating.
* A property is a list of families.  A random family draws `count` cases; an
  exhaustive family enumerates a finite list.
* Cases are split over worker processes.  Case k of a family depends only on
  (VERIF_SEED, property, family, k), never on timing or on the worker.
* A failure is confirmed and shrunk in a fresh process; if the case does not
  fail there alone, the cases its worker ran before it are replayed too and
  that history is minimised instead.
* The confirmed minimal case is written as a replay file.
"""
import hashlib
import json
import mmap
import os
import pickle
import random
import resource
import signal
import struct
import sys
import time
import traceback

from . import target

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


class Discard(Exception):
    """The generated case is outside the property's domain."""


class Draw:
    def __init__(self, rng=None, choices=()):
        self.rng, self.pre, self.log = rng, list(choices), []

    def below(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        i = len(self.log)
        if self.rng is None:
            v = self.pre[i] if i < len(self.pre) else 0
            v = min(v, n - 1)
        else:
            v = self.rng.randrange(n)
        self.log.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def chance(self, num, den=100):
        """True with probability num/den; shrinks towards False."""
        return self.below(den) >= den - num

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs: (weight, value); the first is the simplest."""
        total = sum(w for w, _ in pairs)
        k = self.below(total)
        for w, v in pairs:
            if k < w:
                return v
            k -= w

    def many(self, lo, hi, f):
        """A list of lo..hi results of f()."""
        return [f() for _ in range(self.int(lo, hi))]

    def size(self, top=4):
        """A length: mostly small, sometimes larger."""
        k = self.below(20)
        if k < 16:
            return self.below(top + 1)
        if k < 19:
            return self.below(2 * top + 2)
        return self.below(4 * top + 4)


class Family:
    def __init__(self, name, gen=None, check=None, quick=0, thorough=None,
                 enum=None, shrink_history=True):
        """gen(d) -> case, or enum() -> list of cases; check(case, ctx)."""
        self.name, self.gen, self.check, self.enum = name, gen, check, enum
        self.split = None          # case -> list of smaller cases
        self.quick = quick
        self.thorough = quick * 12 if thorough is None else thorough


class Ctx:
    """Counters of one worker."""

    def __init__(self):
        self.evals = self.discards = 0
        self.tags, self.nt, self.samples = {}, set(), []
        self._case = None
        self.family = None

    def tag(self, *names):
        for n in names:
            self.tags[n] = self.tags.get(n, 0) + 1

    def nontrivial(self):
        h = hashlib.blake2b(canonical(self._case).encode("utf-8", "replace"),
                            digest_size=8).digest()
        if h not in self.nt:
            self.nt.add(h)
            k = len(self.nt)
            if k < 3 or k & (k - 1) == 0 and k > 64:
                self.samples.append((self.family, self._case))


def canonical(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def rng_for(seed, prop, family, k):
    return random.Random(f"{seed}/{prop}/{family}/{k}")


class Suite:
    def __init__(self, prop, families, rule, assumptions=()):
        self.prop, self.families, self.rule = prop, families, rule
        self.assumptions = list(assumptions)
        self.by_name = {f.name: f for f in families}

    # -- evaluating one case --------------------------------------------
    def check_case(self, fam, case, ctx):
        ctx._case, ctx.family = case, fam.name
        ctx.evals += 1
        try:
            fam.check(case, ctx)
        except Discard:
            ctx.discards += 1
        except (LookupError, ValueError, TypeError, AttributeError) as x:
            if not in_check():
                raise
            raise Violation(f"{case}: the output is not of the right form: "
                            f"{type(x).__name__}: {x}")

    def plan(self, tier, scale):
        out = []
        for f in self.families:
            if f.enum:
                cases = f.enum(tier)
                out.append((f, len(cases), cases))
            else:
                n = f.quick if tier == "quick" else f.thorough
                out.append((f, max(1, int(n * scale)), None))
        return out

    def make(self, fam, cases, seed, k):
        """(case, choices)"""
        if cases is not None:
            return cases[k], None
        d = Draw(rng_for(seed, self.prop, fam.name, k))
        return fam.gen(d), d.log


# ------------------------------------------------------------------ running

def _limits():
    gb = 3 << 30
    resource.setrlimit(resource.RLIMIT_AS, (gb, gb))
    sys.setrecursionlimit(8000)
    target.install_alarm()


def in_child(f, timeout):
    """Run f() in a forked child; returns ('ok', value) / ('dead', why)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            _limits()
            data = pickle.dumps(("ok", f()))
        except BaseException:
            data = pickle.dumps(("error", traceback.format_exc()[-3000:]))
        try:
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
        except BaseException:
            code = 3
        os._exit(code)
    os.close(w)
    chunks, end = [], time.monotonic() + timeout
    import select
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return "dead", "timeout"
        if select.select([r], [], [], min(left, 1))[0]:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    try:
        return pickle.loads(b"".join(chunks))
    except Exception:
        return "dead", f"status {status}"


_SLOT = struct.Struct("qqd")
_PROPS = os.path.join(ROOT, "vf", "props") + os.sep


def in_check():
    """Did the exception being handled arise where a property's own check
    takes apart what the interpreter printed?"""
    tb = sys.exc_info()[2]
    while tb.tb_next:
        tb = tb.tb_next
    return tb.tb_frame.f_code.co_filename.startswith(_PROPS)


def _worker(suite, plan, seed, me, workers, shared, deadline, out):
    _limits()
    ctx = Ctx()
    res = {"fail": None, "error": None, "cut": False}
    per = {}
    try:
        for fi, (fam, n, cases) in enumerate(plan):
            done = 0
            for k in range(me, n, workers):
                if time.monotonic() > deadline:
                    res["cut"] = True
                    break
                shared[me * _SLOT.size:(me + 1) * _SLOT.size] = _SLOT.pack(
                    fi, k, time.monotonic())
                case, choices = suite.make(fam, cases, seed, k)
                done += 1
                try:
                    suite.check_case(fam, case, ctx)
                except Violation as v:
                    res["fail"] = (fi, k, str(v))
                    break
            per[fam.name] = done
            if res["fail"]:
                break
    except BaseException:
        res["error"] = traceback.format_exc()[-3000:]
    res.update(evals=ctx.evals, discards=ctx.discards, tags=ctx.tags,
               nt=ctx.nt, samples=ctx.samples[:40], per=per)
    with open(out, "wb") as fh:
        pickle.dump(res, fh)


def run_suite(suite, tier, seed, workers=None, scale=1.0, guard=None):
    t0 = time.monotonic()
    workers = workers or min(8, os.cpu_count() or 1)
    guard = guard or (420 if tier == "quick" else 6 * 3600)
    deadline = t0 + guard
    target.load()
    plan = suite.plan(tier, scale)
    shared = mmap.mmap(-1, _SLOT.size * workers)
    tmp = os.path.join("/tmp", f"vf-{suite.prop}-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    pids = {}
    sys.stdout.flush()
    for me in range(workers):
        pid = os.fork()
        if pid == 0:
            try:
                _worker(suite, plan, seed, me, workers, shared, deadline,
                        os.path.join(tmp, str(me)))
            finally:
                os._exit(0)
        pids[pid] = me
    results, stuck = {}, None
    while pids:
        pid, _ = os.waitpid(-1, os.WNOHANG)
        if pid:
            me = pids.pop(pid)
            path = os.path.join(tmp, str(me))
            if os.path.exists(path):
                with open(path, "rb") as fh:
                    results[me] = pickle.load(fh)
                os.unlink(path)
            else:
                fi, k, _ = _SLOT.unpack(
                    shared[me * _SLOT.size:(me + 1) * _SLOT.size])
                results[me] = {"fail": (fi, k, "worker process died"),
                               "error": None, "cut": False, "evals": 0,
                               "discards": 0, "tags": {}, "nt": set(),
                               "samples": [], "per": {}}
            if results[me]["fail"] or results[me]["error"]:
                for p in pids:
                    os.kill(p, signal.SIGKILL)
            continue
        time.sleep(0.02)
        now = time.monotonic()
        for p, me in list(pids.items()):
            fi, k, t = _SLOT.unpack(
                shared[me * _SLOT.size:(me + 1) * _SLOT.size])
            if t and now - t > 150 + 2 * target.CPU_SECONDS:
                stuck = (fi, k, "case never finished")
                os.kill(p, signal.SIGKILL)
    for me in range(workers):
        path = os.path.join(tmp, str(me))
        if os.path.exists(path):
            os.unlink(path)
    os.rmdir(tmp)

    errors = [r["error"] for r in results.values() if r["error"]]
    fails = sorted((r["fail"][0], r["fail"][1], me, r["fail"][2])
                   for me, r in results.items()
                   if r["fail"] and r["fail"][2] != "worker process died")
    died = [(r["fail"][0], r["fail"][1], me, r["fail"][2])
            for me, r in results.items()
            if r["fail"] and r["fail"][2] == "worker process died"]
    if stuck:
        died.append((stuck[0], stuck[1], stuck[1] % workers, stuck[2]))
    violation = None
    if fails:
        violation = confirm(suite, plan, seed, workers, *fails[0])
    elif died and not errors:
        # a killed sibling also ends without a result; only a death that
        # happens again in a fresh process is a finding
        for d in died:
            violation = confirm(suite, plan, seed, workers, *d)
            if violation:
                break
    summary = summarise(suite, tier, seed, plan, results, t0)
    return violation, errors, summary, (fails or died)


def summarise(suite, tier, seed, plan, results, t0):
    nt, tags, samples, per = set(), {}, [], {}
    ev = dis = 0
    cut = False
    for r in results.values():
        nt |= r["nt"]
        ev += r["evals"]
        dis += r["discards"]
        cut |= r["cut"]
        for k, v in r["tags"].items():
            tags[k] = tags.get(k, 0) + v
        for k, v in r["per"].items():
            per[k] = per.get(k, 0) + v
        samples += r["samples"]
    seen, chosen = {}, []
    for fam, c in samples:
        if seen.setdefault(fam, 0) < 4:
            seen[fam] += 1
            chosen.append({"family": fam, "case": c})
    return {
        "property": suite.prop, "tier": tier, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(nt),
            "rule": suite.rule,
            "samples": chosen[:24],
            "discarded": dis,
            "families": per,
            "exhaustive_families": [f.name for f, _, c in plan
                                    if c is not None],
            "classes": dict(sorted(tags.items())),
            "cut_short_by_time": cut,
        },
        "assumptions": suite.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
    }


# ------------------------------------------------------- confirm and shrink

def fails_here(suite, fam, case):
    """Message if the case violates the property in this process."""
    try:
        suite.check_case(fam, case, Ctx())
    except Violation as v:
        return str(v) or "violated"
    return None


def confirm(suite, plan, seed, workers, fi, k, me, msg):
    fam, n, cases = plan[fi]
    case, choices = suite.make(fam, cases, seed, k)
    st, got = in_child(lambda: fails_here(suite, fam, case), 100)
    if st == "dead":
        return {"family": fam.name, "case": case, "history": [],
                "message": "the process died: " + str(got)}
    if st == "error":
        raise RuntimeError(got)
    if got:
        best, bmsg = case, got
        for part in (fam.split(case) if fam.split else []):
            st, g2 = in_child(lambda: fails_here(suite, fam, part), 60)
            if st == "ok" and g2:
                best, bmsg = part, g2
                break
        if choices is not None:
            st, r = in_child(lambda: shrink(suite, fam, choices, got), 150)
            if st == "ok" and r:
                cand, cmsg = r
                st, again = in_child(lambda: fails_here(suite, fam, cand), 60)
                if st == "ok" and again:
                    best, bmsg = cand, again
        return {"family": fam.name, "case": best, "history": [],
                "message": bmsg}
    # not reproducible alone: replay what the worker ran before it
    hist = []
    for gi in range(fi + 1):
        g, gn, gc = plan[gi]
        hist += [(gi, j) for j in range(me, gn, workers) if gi < fi or j < k]

    def replay(h):
        ctx = Ctx()
        for gi, j in h:
            g, _, gc = plan[gi]
            try:
                suite.check_case(g, suite.make(g, gc, seed, j)[0], ctx)
            except Violation as v:
                return str(v)
        return fails_here(suite, fam, case)

    hist = hist[-4000:]
    st, got = in_child(lambda: replay(hist), 240)
    if st != "ok" or not got:
        return None
    end, size = time.monotonic() + 60, max(1, len(hist) // 2)
    while size and time.monotonic() < end:
        i = 0
        while i < len(hist) and time.monotonic() < end:
            cand = hist[:i] + hist[i + size:]
            st, g2 = in_child(lambda: replay(cand), 100)
            if st == "ok" and g2:
                hist, got = cand, g2
            else:
                i += size
        size //= 2
    return {"family": fam.name, "case": case, "message": got, "history": [
        {"family": plan[gi][0].name,
         "case": suite.make(plan[gi][0], plan[gi][2], seed, j)[0]}
        for gi, j in hist]}


def shrink(suite, fam, choices, msg, budget=2500, seconds=60):
    """Smallest failing choice sequence found; returns (case, message)."""
    end = time.monotonic() + seconds
    best = [list(choices), None, msg]
    left = [budget]
    if "hang" in msg:
        target.STEP_BUDGET = 3_000_000
        left[0] = 150

    def attempt(seq):
        if left[0] <= 0 or time.monotonic() > end:
            return False
        left[0] -= 1
        d = Draw(None, seq)
        try:
            case = fam.gen(d)
        except Exception:
            return False
        m = fails_here(suite, fam, case)
        if not m:
            return False
        log = d.log
        while log and log[-1] == 0:
            log = log[:-1]
        if (len(log), log) < (len(best[0]), best[0]):
            best[:] = [log, case, m]
            return True
        if best[1] is None:
            best[1], best[2] = case, m
        return False

    attempt(best[0])
    improved = True
    while improved and left[0] > 0 and time.monotonic() < end:
        improved = False
        for size in (64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best[0]) - size
            while i >= 0:
                s = best[0]
                if attempt(s[:i] + s[i + size:]):
                    improved = True
                elif any(s[i:i + size]) and attempt(
                        s[:i] + [0] * size + s[i + size:]):
                    improved = True
                i -= size if size > 1 else 1
                i = min(i, len(best[0]) - size)
        for i in range(len(best[0])):
            if i >= len(best[0]):
                break
            for v in (1, best[0][i] // 2, best[0][i] - 1):
                s = best[0]
                if i < len(s) and 0 <= v < s[i]:
                    if attempt(s[:i] + [v] + s[i + 1:]):
                        improved = True
    return None if best[1] is None else (best[1], best[2])
