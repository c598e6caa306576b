"""Generated-input search: suites of (strategy, oracle) run by Hypothesis in parallel shards.

A *case* is always a plain JSON value, so that a shrunk failing case is its own replay file.
`Suite.run(case)` exercises the code in /repo and compares it with the oracle. It raises
`Violation` if the property is broken, `Skip` if the oracle cannot decide the case, and returns a
short description of why the case is non-trivial (or None when it is trivial).
Any other exception is an error of the harness (exit 2), never a violation.
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import queue
import resource
import signal
import sys
import tempfile
import time
import traceback

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

_storage = os.environ.setdefault(
    "HYPOTHESIS_STORAGE_DIRECTORY", os.path.join(tempfile.gettempdir(), "verif-hyp-%d" % os.getpid())
)
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, settings  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_PROCS", "8"))


class Violation(Exception):
    """The code under test breaks the property on this case."""


class Skip(Exception):
    """The oracle allows several outcomes it cannot tell apart: the case is not judged."""


# CPU seconds (not wall time, so that a loaded machine makes no difference) a block of calls into /repo may take.
# The slowest one on the unchanged tree takes a few seconds.
HANG_S = 75.0
HANG_SHRINK_S = 25.0
MEMORY_BYTES = 6 << 30
_watch = {"on": False, "depth": 0, "limit": HANG_S, "what": ""}


def _hang(*_):
    if _watch["depth"]:
        raise Violation(f"{_watch['what']}: does not return within {_watch['limit']:.0f} s of CPU time")


def watchdog_on():
    """In a worker: what does not return, or eats the memory, is a violation and not a check without an answer."""
    signal.signal(signal.SIGVTALRM, _hang)
    _watch.update(on=True, depth=0, limit=HANG_S)
    _, hard = resource.getrlimit(resource.RLIMIT_AS)
    if hard == resource.RLIM_INFINITY or hard > MEMORY_BYTES:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_BYTES, hard))


@contextlib.contextmanager
def _watched(what):
    if not _watch["on"] or _watch["depth"]:
        yield
        return
    _watch.update(depth=1, what=what)
    signal.setitimer(signal.ITIMER_VIRTUAL, _watch["limit"])
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        _watch["depth"] = 0


@contextlib.contextmanager
def sut(what):
    """Calls into /repo on valid input: an exception escaping from there breaks the property."""
    try:
        with contextlib.redirect_stdout(io.StringIO()), _watched(what):
            yield
    except (Violation, Skip):
        raise
    except RecursionError:
        raise
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, (AttributeError, TypeError)) and tb[-1].filename.startswith(VERIF) and "NoneType" not in str(e):
            # the call itself does not fit: an internal interface was renamed, which no property forbids
            raise Skip(f"{what}: interface changed ({e})") from None
        where = [f for f in tb if "/repo/" in f.filename]
        at = f" at {os.path.relpath(where[-1].filename, '/repo')}:{where[-1].name}" if where else ""
        raise Violation(f"{what}: raised {type(e).__name__}: {e}{at}") from None


def internal(module, name):
    """A class of /repo which is not part of its public interface. Should it be gone, cases using it are not
    judged (the suites that go through the public interface still are)."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return getattr(importlib.import_module("ama_xiv_combat_sim." + module), name)
    except (ImportError, AttributeError):
        def gone(*a, **k):
            raise Skip(f"{module}.{name} is gone")
        return gone


class Suite:
    """quick/thorough: number of generated cases (over all shards)."""

    def __init__(self, name, strategy, run, quick, thorough, rule, enumerate_cases=None):
        self.name, self.strategy, self.judge = name, strategy, run
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.enumerate_cases = enumerate_cases  # callable(tier) -> list of cases, run exhaustively


    def run(self, case):
        """Results of /repo of an unexpected kind (None for a number, a row too few, ...) make the comparison itself
        fail, which is as wrong as a wrong value."""
        try:
            return self.judge(case)
        except (TypeError, ValueError, LookupError, ArithmeticError, AttributeError) as e:
            if isinstance(e, AttributeError) and "'NoneType' object" not in str(e):
                raise
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(f"what came back cannot be compared: {type(e).__name__}: {e} "
                            f"({os.path.basename(tb.filename)}:{tb.lineno})") from e


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(case):
    return int.from_bytes(hashlib.blake2b(canon(case).encode(), digest_size=8).digest(), "big")


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []

    def skip(self, why):
        self.evaluations += 1
        self.skipped += 1
        why = "not judged: " + str(why)[:100]
        self.labels[why] = self.labels.get(why, 0) + 1

    def note(self, case, res):
        self.evaluations += 1
        if res is None:
            return
        if isinstance(res, str):
            res = [res]
        for r in res:
            self.labels[r] = self.labels.get(r, 0) + 1
        if res:
            d = digest(case)
            if d not in self.nontrivial:
                self.nontrivial.add(d)
                if len(self.samples) < 2 and len(canon(case)) < 3000:
                    self.samples.append(case)


class _Enough(BaseException):
    """Ends the search of a shard at once."""


def _run_hypothesis(suite, n, seed, deadline, shrink_s, stats, stop):
    """Returns the smallest failing (case, message) or None."""
    best = [None]  # (size, case, msg)
    first_fail = [None]

    def test(case):
        now = time.time()
        if first_fail[0] is None:
            if now > deadline or stop.is_set():
                return
        elif now > first_fail[0] + shrink_s:
            raise _Enough  # shrinking budget is used up; what was found stays found
        try:
            res = suite.run(case)
        except Skip as e:
            stats.skip(e)
            return
        except Violation as v:
            stats.evaluations += 1
            if first_fail[0] is None:
                first_fail[0] = time.time()
                _watch["limit"] = HANG_SHRINK_S
                stop.set()  # the other shards need not look any further
            size = len(canon(case))
            if best[0] is None or size <= best[0][0]:
                best[0] = (size, json.loads(canon(case)), str(v))
            raise
        if first_fail[0] is None:
            stats.note(case, res)

    wrapped = hypothesis.given(suite.strategy())(test)
    wrapped = settings(
        max_examples=n, deadline=None, database=None, report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
        print_blob=False, verbosity=hypothesis.Verbosity.quiet,
    )(wrapped)
    wrapped = hypothesis.seed(seed)(wrapped)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            wrapped()
    except BaseException as e:  # noqa: BLE001
        if best[0] is None:
            raise
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
    return best[0]


def _worker(suites, tier, seed, shard, nshards, deadline, shrink_s, only, q, stop):
    try:
        sys.setrecursionlimit(5000)
        watchdog_on()
        for suite in suites:
            if only is not None and suite.name != only:
                continue
            stats = Stats()
            fail = None
            if suite.enumerate_cases is not None:
                for i, case in enumerate(suite.enumerate_cases(tier)):
                    if i % nshards != shard or time.time() > deadline or stop.is_set():
                        continue
                    try:
                        stats.note(case, suite.run(case))
                    except Skip as e:
                        stats.skip(e)
                    except Violation as v:
                        stats.evaluations += 1
                        fail = (len(canon(case)), case, str(v))
                        stop.set()
                        break
            if fail is None and suite.strategy is not None:
                total = suite.quick if tier == "quick" else suite.thorough
                n = total // nshards + (1 if shard < total % nshards else 0)
                if n > 0:
                    hseed = (seed * 1009 + shard) * 131 + sum(map(ord, suite.name))
                    fail = _run_hypothesis(suite, n, hseed, deadline, shrink_s, stats, stop)
            q.put(("suite", shard, suite.name, stats.evaluations, stats.skipped, stats.nontrivial,
                   stats.labels, stats.samples, fail))
            if fail is not None:
                break
        q.put(("done", shard))
    except BaseException:  # noqa: BLE001
        q.put(("error", shard, traceback.format_exc()))


def run_suites(suites, tier, seed, budget_s, shrink_s=25.0, only=None):
    """Runs all suites in NPROC shards. Returns dict with stats, failures and harness errors."""
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    stop = ctx.Event()
    deadline = time.time() + budget_s
    procs = [
        ctx.Process(target=_worker, args=(suites, tier, seed, s, NPROC, deadline, shrink_s, only, q, stop))
        for s in range(NPROC)
    ]
    for p in procs:
        p.start()
    out = {"suites": {}, "fails": [], "errors": []}
    pending = set(range(NPROC))
    fail_time = None
    while pending:
        try:
            m = q.get(timeout=1.0)
        except queue.Empty:
            dead = [x for x in pending if not procs[x].is_alive()]
            if dead:
                try:
                    m = q.get(timeout=3.0)  # a message may still be on its way
                except queue.Empty:
                    for x in dead:
                        out["errors"].append(f"shard {x} died with exit code {procs[x].exitcode}")
                        pending.discard(x)
                    continue
            elif fail_time is not None and time.time() > fail_time + 2 * shrink_s + 10:
                break
            else:
                continue
        if m[0] == "done":
            pending.discard(m[1])
        elif m[0] == "error":
            out["errors"].append(m[2])
            pending.discard(m[1])
        else:
            _, shard, name, ev, sk, nt, labels, samples, fail = m
            o = out["suites"].setdefault(
                name, dict(evaluations=0, skipped=0, nontrivial=set(), labels={}, samples=[]))
            o["evaluations"] += ev
            o["skipped"] += sk
            o["nontrivial"] |= nt
            for k, v in labels.items():
                o["labels"][k] = o["labels"].get(k, 0) + v
            o["samples"].extend(samples)
            if fail is not None:
                out["fails"].append((fail[0], name, fail[1], fail[2], shard))
                fail_time = fail_time or time.time()
    for p in procs:
        p.join(timeout=2)
        if p.is_alive():
            p.kill()
            p.join()
    return out
