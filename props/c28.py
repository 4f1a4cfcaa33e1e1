"""C28: work accounting: a problem is reported finished exactly when a limit is reached, with consistent remaining work."""
import math
import random

from vlib.core import Violation

ID = "C28"
LEVEL = "exploration"
RULE = ("Random shot data (0 to 1e10 shots, every error fraction, exact limit boundaries) x limits; remaining work is compared with "
        "exact arithmetic, and histories of batches are replayed: work remaining never grows, finished never reverts while the "
        "rate stays above the cut. Distinct by (data, limits).")
ASSUMPTIONS = ["Estimated time assumes the observed time per shot and per error, the smaller estimate counts."]
REQUIRED = ["finished_checked", "finished_by_shots", "finished_by_errors", "finished_by_rate", "unfinished", "remaining_checked", "time_checked", "histories", "infinite_time"]


def cases(tier, seed):
    return [dict(seed=seed * 100000 + k, n=300 if tier == "quick" else 8000) for k in range(48)]


def expected(n, e, secs, ms, me, th):
    rate = 1.0 if n == 0 else e / n
    by = None
    if n >= ms:
        by = "shots"
    elif e >= me:
        by = "errors"
    elif rate >= th and n >= 10:
        by = "rate"
    if by:
        return by, 0, 0, 0
    t = math.inf
    if n:
        t = min(t, (ms - n) * secs / n)
    if e:
        t = min(t, (me - e) * secs / e)
    return None, ms - n, me - e, t


def run_case(case, mon):
    from collect_data import ShotData
    rng = random.Random(case["seed"])
    for _ in range(case["n"]):
        n = rng.choice([0, 1, 9, 10, 11, rng.randint(0, 100), int(10 ** rng.uniform(0, 10)), int(10 ** rng.uniform(0, 10)), 2 ** 53 + rng.randint(0, 9), 10 ** 18 + 1])
        e = rng.choice([0, n, n // 2, rng.randint(0, n), min(n, rng.randint(0, 20)), int(n * rng.random() ** 4)])
        ms = rng.choice([n, n + 1, max(0, n - 1), 10 ** 8, 100, 10 ** rng.randint(0, 10), 2 ** 60 + rng.randint(0, 9)])
        me = rng.choice([e, e + 1, max(0, e - 1), 1000, 1, 10 ** rng.randint(0, 6), 2 ** 57 + 1])
        th = rng.choice([.4, .48, .1, 1.0, 1.1, e / n if n else .5, 2.0])
        secs = rng.choice([0.0, 1.5, rng.random() * 1e5])
        sd = ShotData(num_shots=n, num_correct=n - e, total_processing_seconds=secs)
        w = sd.remaining_work(max_shots=ms, max_errors=me, threshold_circuit_breaker=th)
        by, rs, re_, t = expected(n, e, secs, ms, me, th)
        label = f"{n} shots, {e} errors, limits {ms} shots / {me} errors / rate {th}"
        mon.eq(bool(w.finished), by is not None, f"{label}: finished", name="finished_checked")
        mon.count(f"finished_by_{by}" if by else "unfinished")
        mon.eq(w.remaining_shots, rs, f"{label}: remaining shots", name="remaining_checked")
        mon.eq(w.remaining_errors, re_, f"{label}: remaining errors", name="remaining_checked")
        mon.close(w.remaining_time, t, f"{label}: remaining time", rtol=1e-9, name="time_checked")
        if t == math.inf:
            mon.count("infinite_time")
        mon.eq((sd.num_shots, sd.num_correct, sd.total_processing_seconds), (n, n - e, secs), "data after querying")
        mon.seen(n, e, ms, me, th)
    for _ in range(max(1, case["n"] // 30)):
        # history: the same record keeps accumulating batches
        sd = ShotData()
        ms, me, p = rng.randint(1, 5000), rng.randint(1, 50), rng.choice([0, .01, .1, .3])
        w = sd.remaining_work(max_shots=ms, max_errors=me, threshold_circuit_breaker=2.0)
        prev = None
        for _ in range(60):
            s = rng.randint(1, 200)
            c = sum(rng.random() >= p for _ in range(s))
            sd.num_shots += s
            sd.num_correct += c
            sd.total_processing_seconds += s * .01
            cur = (w.remaining_shots, w.remaining_errors, bool(w.finished))
            e = sd.num_shots - sd.num_correct
            mon.eq(cur, (0, 0, True) if sd.num_shots >= ms or e >= me else (ms - sd.num_shots, me - e, False), "remaining work after a batch")
            if prev:
                mon.check(cur[0] <= prev[0] and cur[1] <= prev[1] and (cur[2] or not prev[2]), lambda: f"remaining work grew from {prev} to {cur}")
            prev = cur
            if cur[2]:
                break
        mon.count("histories")
