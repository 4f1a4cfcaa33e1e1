"""C20: error-rate estimates and likelihood bounds are accurate at every shot count."""
import math
import random

import numpy as np

from vlib.core import Violation

ID = "C20"
LEVEL = "exploration"
RULE = ("(shots, errors) log-uniform from 1 to 1e10 with all-correct, all-wrong, one-error and half cases x likelihood ratios; "
        "returned bounds are compared with bounds computed from the exact likelihood ratio, log likelihoods with lgamma. "
        "Distinct by (shots, errors, ratio).")
ASSUMPTIONS = ["Bounds may deviate by the documented-by-construction granularity of 0.01 expected errors; log likelihood values by the "
               "Stirling approximation (0.02 absolute)."]
REQUIRED = ["bounds_checked", "log_likelihoods_checked", "zero_error_bounds", "saturated_bounds", "large_shot_counts", "repeated_bounds"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 20)
    q = tier == "quick"
    out = []
    for k in range(3000 if q else 40000):
        n = int(10 ** rng.uniform(0, rng.choice([2, 5, 8, 10])))
        r = rng.random()
        if r < .12:
            e = 0
        elif r < .2:
            e = n
        elif r < .26:
            e = n // 2
        elif r < .32:
            e = min(n, 1)
        elif r < .36:
            e = n - 1
        else:
            e = min(n, max(1, int(n * 10 ** rng.uniform(-6, 0))))
        out.append(dict(kind="bounds", n=n, e=e, ratio=rng.choice([1e-3, 1e-3, 1e-3, .1, .5, 1e-6, .01, 1e-9, 1e-15, 1e-40, .9, 10 ** rng.uniform(-8, -.01)]), again=[1e-3, 10 ** rng.uniform(-9, -.01)] if rng.random() < .1 else None))
    for k in range(1500 if q else 20000):
        n = int(10 ** rng.uniform(0, rng.choice([2, 4, 8])))
        out.append(dict(kind="logb", n=n, hits=rng.choice([0, n, rng.randint(0, n), min(n, rng.randint(0, 5))]), seed=rng.getrandbits(40)))
    for n in range(0, 40):
        for h in range(0, n + 1):
            out.append(dict(kind="logb", n=n, hits=h, seed=n * 100 + h))
    rng.shuffle(out)
    return [dict(kind="chunk", items=out[i::64]) for i in range(64)]


def dll(p, n, e):
    """log likelihood of rate p relative to the maximum likelihood."""
    r = 0.0
    if e:
        if p <= 0:
            return -math.inf
        r += e * (math.log(p) - math.log(e / n))
    if n - e:
        if p >= 1:
            return -math.inf
        r += (n - e) * (math.log1p(-p) - math.log1p(-e / n))
    return r


def solve(n, e, target, lo, hi):
    """x in [lo, hi] where dll crosses target; dll is increasing in x if lo is the far end below e/n."""
    rising = dll(lo, n, e) < dll(hi, n, e)
    for _ in range(200):
        m = (lo + hi) / 2
        if (dll(m, n, e) < target) == rising:
            lo = m
        else:
            hi = m
    return (lo + hi) / 2


def run_case(case, mon):
    for c in case["items"]:
        one(c, mon)


def one(case, mon):
    if case["kind"] == "logb":
        from probability_util import log_binomial
        rng = random.Random(case["seed"])
        n, hits = case["n"], case["hits"]
        ps = [rng.choice([0.0, 1.0, .5, hits / n if n else .3, rng.random(), 10 ** rng.uniform(-9, 0), 1 - 10 ** rng.uniform(-9, 0), -.25, 1.25]) for _ in range(6)]
        def exact(p):
            p = min(1.0, max(0.0, p))
            r = math.lgamma(n + 1) - math.lgamma(hits + 1) - math.lgamma(n - hits + 1)
            if hits:
                if p == 0:
                    return -math.inf
                r += hits * math.log(p)
            if n - hits:
                if p == 1:
                    return -math.inf
                r += (n - hits) * math.log1p(-p)
            return r
        arr = log_binomial(p=np.array(ps), n=n, hits=hits)
        mon.eq(tuple(np.shape(arr)), (6,), "broadcast shape")
        # Never or always hitting has no binomial factor: only rounding is left, even for probabilities next to 0 and 1.
        big, p = rng.choice([n, 10 ** rng.randint(9, 15)]), 10 ** rng.uniform(-19, -1)
        v, w = float(log_binomial(p=p, n=big, hits=0)), big * math.log1p(-p)
        mon.check(abs(v - w) <= 1e-6 * abs(w) + 1e-9, lambda: f"log likelihood of no hit in {big} at p={p}: {v}, exact {w}", "log_likelihoods_checked")
        for p, a in zip(ps, arr):
            s = float(log_binomial(p=p, n=n, hits=hits))
            for v in (float(a), s):
                w = exact(p)
                ok = v == w or abs(v - w) <= .02 + 1e-9 * abs(w) + 1e-12 * n * math.log(n + 2)
                mon.check(ok, lambda: f"log likelihood of {hits} hits in {n} at p={p}: {v}, exact {w}", "log_likelihoods_checked")
        return
    from collect_data import ShotData
    n, e, ratio = case["n"], case["e"], case["ratio"]
    sd = ShotData(num_shots=n, num_correct=n - e)
    mon.eq(sd.num_errors, e, "errors")
    mon.close(sd.logical_error_rate, e / n, "error rate", rtol=1e-12)
    low, high = sd.likely_error_rate_bounds(desired_ratio_vs_max_likelihood=ratio)
    mon.eq((sd.num_shots, sd.num_correct), (n, n - e), "data after computing bounds")
    mle = e / n
    mon.check(0 <= low <= mle * (1 + 1e-12) + 1e-15 and mle * (1 - 1e-12) <= high <= 1 + 1e-12, lambda: f"bounds {low}, {high} do not enclose {mle}")
    target = math.log(ratio)
    want_low = 0.0 if e == 0 else solve(n, e, target, 0.0, mle)
    want_high = 1.0 if e == n else solve(n, e, target, mle, 1.0)
    if case.get("again"):
        # Other ratios for the same counts, then the first one again: calls do not influence each other.
        for r in case["again"]:
            lo, hi = sd.likely_error_rate_bounds(desired_ratio_vs_max_likelihood=r)
            for what, got, side in (("lower", lo, (0.0, mle)), ("upper", hi, (mle, 1.0))):
                w = (0.0 if e == 0 else solve(n, e, math.log(r), *side)) if what == "lower" else 1.0 if e == n else solve(n, e, math.log(r), *side)
                d = dll(got, n, e)
                mon.check(abs(got - w) <= .0101 / n + 1e-7 * max(mle, 1 / n) or abs(d - math.log(r)) <= 1e-12 * n * math.log(n + 2) + 1e-6,
                          lambda: f"{e} errors in {n} shots, ratio {r} asked after ratio {ratio}: {what} bound {got}, exact {w}", "repeated_bounds")
        mon.eq(tuple(ShotData(num_shots=n, num_correct=n - e).likely_error_rate_bounds(desired_ratio_vs_max_likelihood=ratio)), (low, high),
               f"{e} errors in {n} shots: bounds for ratio {ratio} asked again")
    tol = .0101 / n + 1e-7 * max(mle, 1 / n)
    for what, got, want in (("lower", low, want_low), ("upper", high, want_high)):
        if abs(got - want) > tol:
            # The likelihood may be nearly flat there: accept if it is within rounding of the target ratio.
            d = dll(got, n, e)
            slack = 1e-12 * n * math.log(n + 2) + 1e-6
            mon.check(abs(d - target) <= slack, lambda: f"{e} errors in {n} shots, ratio {ratio}: {what} bound {got}, exact {want}", "bounds_checked")
        else:
            mon.count("bounds_checked")
    if e == 0:
        mon.count("zero_error_bounds")
    if e == n:
        mon.count("saturated_bounds")
    if n > 10 ** 7:
        mon.count("large_shot_counts")
    mon.seen(n, e, ratio)
