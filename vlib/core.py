"""Run-time monitoring framework: drives workloads through the real code in /repo and records verdicts.

A property module (props/cNN.py) provides

    ID, RULE, LEVEL, ASSUMPTIONS
    cases(tier, seed) -> list of JSON-able dicts
    run_case(case, mon)        drives the real code; reports to the monitor `mon`
    REQUIRED = [counter, ...]  monitors that must have been reached, else the run is inconclusive

Verdicts are three valued: violated (exit 1), held on what was observed (exit 0), inconclusive (exit 2).
"""
import collections
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import pathlib
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = pathlib.Path(__file__).resolve().parents[1]
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
EVIDENCE = VERIF / "evidence"
KNOWN = VERIF / "known_findings.jsonl"

CASE_CPU_LIMIT_S = 240


class Violation(Exception):
    """Raised by monitors: the observed execution refutes the property."""

    def __init__(self, msg, tag=None):
        super().__init__(msg)
        self.tag = tag


class Inconclusive(Exception):
    pass


class _CpuLimit(BaseException):
    pass


class Mon:
    """Collects what the monitors actually observed during one or many executions."""

    def __init__(self):
        self.counters = collections.Counter()
        self.keys = set()
        self.notes = []

    def count(self, name, n=1):
        self.counters[name] += n

    def seen(self, *key):
        """Registers a distinct, non-trivial observation."""
        self.counters["_seen_calls"] += 1
        self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def check(self, cond, msg, name=None, tag=None):
        """One evaluation of an oracle."""
        self.counters[name or "oracle_evaluations"] += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg, tag)

    def eq(self, actual, expected, what, name=None, tag=None):
        self.check(actual == expected,
                   lambda: f"{what}: observed {short(actual)}, expected {short(expected)}", name, tag)

    def close(self, actual, expected, what, rtol=1e-9, atol=0.0, name=None):
        a, b = float(actual), float(expected)
        ok = (a == b) or (abs(a - b) <= atol + rtol * abs(b))
        self.check(ok, lambda: f"{what}: observed {a!r}, expected {b!r} (rtol={rtol}, atol={atol})", name)


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + f"...<{len(s)} chars>"


@contextlib.contextmanager
def must_raise(mon, what, *types):
    """Monitors that an unsupported request is refused rather than answered."""
    types = types or (Exception,)
    try:
        yield
    except types:
        mon.count("refusals_observed")
        return
    raise Violation(f"{what}: accepted, but must be refused")


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="hcmon_")
    try:
        yield pathlib.Path(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def chdir(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


@contextlib.contextmanager
def captured_stdout():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


@contextlib.contextmanager
def quiet_stderr():
    """Chatter of the code under test and of child processes is not a verdict."""
    sys.stderr.flush()
    saved = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    os.close(null)
    try:
        yield
    finally:
        sys.stderr.flush()
        os.dup2(saved, 2)
        os.close(saved)


def setup_paths():
    src = str(REPO / "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    warnings.filterwarnings("ignore")


def rng_of(case):
    return random.Random(json.dumps(case, sort_keys=True))


# ---------------------------------------------------------------------------------------------

_MODULE = None


def _on_cpu_limit(signum, frame):
    raise _CpuLimit()


def _init_worker(prop):
    global _MODULE
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    setup_paths()
    _MODULE = importlib.import_module(f"props.{prop.lower()}")


def _run_one(case):
    """Runs one case. Returns (case, counters, keys, verdict, message, tag)."""
    mon = Mon()
    verdict, msg, tag = "held", None, None
    limit = getattr(_MODULE, "CASE_CPU_LIMIT_S", CASE_CPU_LIMIT_S)
    old = signal.signal(signal.SIGPROF, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_PROF, limit)
    t0 = time.monotonic()
    try:
        with warnings.catch_warnings(), quiet_stderr():
            warnings.simplefilter("ignore")
            _MODULE.run_case(case, mon)
    except _CpuLimit:
        verdict = "violated"
        msg = (f"execution made no progress within {limit} CPU-seconds (such cases normally take well "
               f"under a tenth of that)")
    except Violation as ex:
        verdict, msg, tag = "violated", str(ex), ex.tag
    except Inconclusive as ex:
        verdict, msg = "inconclusive", str(ex)
    except MemoryError:
        verdict, msg = "inconclusive", "out of memory"
    except Exception as ex:
        verdict = "violated"
        msg = f"valid use raised {type(ex).__name__}: {ex}\n" + traceback.format_exc(limit=-6)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    return case, dict(mon.counters), sorted(mon.keys), verdict, msg, tag, time.monotonic() - t0


def load_known():
    """Known findings: lines {"status": "known"|"fixed", "property":..., "tag":..., "what":...}."""
    result = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            d = json.loads(line)
            if d.get("status") == "known":
                result[(d["property"], d["tag"])] = d["what"]
    return result


def run_property(prop, tier, seed, budget_s=None, replay=None):
    t0 = time.monotonic()
    setup_paths()
    scratch_dir = tempfile.mkdtemp(prefix="hcmon_run_")
    os.environ["TMPDIR"] = scratch_dir
    os.environ["MPLCONFIGDIR"] = scratch_dir
    tempfile.tempdir = scratch_dir
    try:
        return _run_property(prop, tier, seed, budget_s, replay, t0)
    finally:
        tempfile.tempdir = None
        shutil.rmtree(scratch_dir, ignore_errors=True)


def _run_property(prop, tier, seed, budget_s, replay, t0):
    EVIDENCE.mkdir(exist_ok=True)
    _init_worker(prop)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    module = _MODULE
    if replay:
        cases = [json.loads(pathlib.Path(replay).read_text())["case"]]
    else:
        cases = module.cases(tier, seed)
    if budget_s is None:
        budget_s = 600 if tier == "quick" else 3000

    counters = collections.Counter()
    keys = set()
    violations, inconclusive = [], []
    ran = 0
    slowest = (0, None)
    max_viol = int(os.environ.get("VERIF_MAXVIOL", "5"))
    truncated = False
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    if getattr(module, "SERIAL", False) or len(cases) == 1:
        workers = 1

    def absorb(r):
        nonlocal ran, slowest
        case, cnt, ks, verdict, msg, tag, dt = r
        ran += 1
        counters.update(cnt)
        keys.update(ks)
        if dt > slowest[0]:
            slowest = (dt, case)
        if verdict == "violated":
            violations.append((case, msg, tag))
        elif verdict == "inconclusive":
            inconclusive.append((case, msg))

    known = load_known()

    def unlisted():
        return [v for v in violations if (prop, v[2]) not in known]

    if workers == 1:
        for c in cases:
            absorb(_run_one(c))
            if len(unlisted()) >= max_viol or time.monotonic() - t0 > budget_s:
                truncated = ran < len(cases)
                break
    else:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(workers, initializer=_init_worker, initargs=(prop,)) as pool:
            it = pool.imap_unordered(_run_one, cases, chunksize=1)
            while True:
                try:
                    left = budget_s - (time.monotonic() - t0)
                    r = it.next(timeout=max(0.05, left))
                except StopIteration:
                    break
                except multiprocessing.TimeoutError:
                    truncated = True
                    break
                absorb(r)
                if len(unlisted()) >= max_viol:
                    truncated = True
                    break
            pool.terminate()

    fatal = None
    if not violations and not replay:
        if ran == 0:
            fatal = "no case was executed"
        missing = [n for n in getattr(module, "REQUIRED", []) if not counters.get(n)]
        if missing and not truncated:
            fatal = f"deciding monitors never reached: {missing}"
        if len(inconclusive) > len(cases) // 2:
            fatal = f"{len(inconclusive)} of {len(cases)} cases inconclusive: {inconclusive[0][1]}"

    bad = unlisted()
    seen_calls = counters.pop("_seen_calls", 0)
    sample_rng = random.Random(seed)
    coverage = {
        "evaluations": max(ran, seen_calls),
        "executions": ran,
        "distinct_nontrivial": len(keys),
        "rule": module.RULE,
        "samples": [c for c in sample_rng.sample(cases, min(5, len(cases)))] if cases else [],
        "monitor_events": {k: int(v) for k, v in sorted(counters.items())},
        "cases_generated": len(cases),
        "cases_inconclusive": len(inconclusive),
        "truncated_by_time_budget": bool(truncated),
        "slowest_case_s": round(slowest[0], 3),
    }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": module.LEVEL,
        "coverage": coverage,
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - t0, 3),
        "violations": len(bad),
    }
    if not replay:
        (EVIDENCE / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=str) + "\n")

    for (p, tag), what in sorted(known.items(), key=str):
        if p == prop and any(v[2] == tag for v in violations):
            print(f"KNOWN-FINDING: property={prop} {what}")
    if bad:
        for k, (case, msg, tag) in enumerate(bad):
            path = EVIDENCE / f"replay_{prop}_{k}.json"
            if replay:
                path = pathlib.Path(replay)
            else:
                path.write_text(json.dumps({"property": prop, "tier": tier, "seed": seed, "case": case,
                                            "message": msg}, indent=1, default=str) + "\n")
            print(f"--- case {json.dumps(case, default=str)[:1000]}\n    {msg[:3000]}", flush=True)
            print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    if fatal:
        print(f"INCONCLUSIVE property={prop} {fatal}", flush=True)
        return 2
    print(f"HELD property={prop} tier={tier} seed={seed} executions={ran}/{len(cases)} distinct={len(keys)} "
          f"events={dict(counters)} wall={evidence['wall_s']}s slowest={slowest[0]:.2f}s"
          + (" TRUNCATED" if truncated else ""), flush=True)
    return 0
