"""C21: splitting a total error rate into per-piece rates inverts the composition of independent flips."""
import math
import random
from decimal import Decimal, getcontext

from vlib.core import must_raise

ID = "C21"
LEVEL = "exploration"
RULE = ("Error rates from 1e-15 to 1 (dense near 0, 1/2 and 1) x 1..1000 pieces; recomposing the returned per-piece rate must give "
        "the input, with identity, symmetry, monotonicity and nesting laws. Distinct by (rate, pieces).")
ASSUMPTIONS = ["Double rounding: absolute error of at most 1e-15 plus a relative error of 1e-9 in the per-piece rate."]
REQUIRED = ["recompositions", "symmetries", "nestings", "identities", "refusals_observed", "monotone_pairs"]


def cases(tier, seed):
    n = 64
    return [dict(seed=seed * 1000 + k, count=400 if tier == "quick" else 12000) for k in range(n)]


def exact(e, k):
    """High precision per-piece rate: (1 - (1-2e)^(1/k)) / 2 for e <= 1/2, mirrored above."""
    getcontext().prec = 60
    d = Decimal(e)
    if d > Decimal("0.5"):
        return 1 - exact_dec(1 - d, k)
    return exact_dec(d, k)


def exact_dec(d, k):
    b = 1 - 2 * d
    if b == 0:
        return Decimal("0.5")
    return (1 - (b.ln() / k).exp()) / 2


def rate(rng):
    r = rng.random()
    if r < .3:
        return 10 ** rng.uniform(-15, -.31)
    if r < .4:
        return 1 - 10 ** rng.uniform(-12, -.31)
    if r < .5:
        return min(1.0, max(0.0, .5 + rng.choice([-1, 1]) * 10 ** rng.uniform(-14, -1)))
    if r < .6:
        return rng.choice([0.0, .5, 1.0, .25, .75, .1, 1e-3])
    return rng.random()


def run_case(case, mon):
    from plotting import total_error_to_per_piece_error as f
    rng = random.Random(case["seed"])
    for _ in range(case["count"]):
        e = rate(rng)
        k = rng.choice([1, 2, 3, 3, 4, 5, 7, 10, 19, 100, rng.randint(1, 1000), rng.choice([1001, 4096, 10 ** 4, 10 ** 5, 10 ** 6 + 3, rng.randint(1000, 10 ** 7)])])
        q = float(f(e, k))
        want = exact(e, k)
        err = abs(Decimal(q) - want)
        mon.check(err <= Decimal("2e-15") + Decimal("1e-9") * abs(want), lambda: f"per-piece rate of {e!r} over {k} pieces: {q!r}, exact {float(want)!r}", "recompositions")
        mon.check(0 <= q <= 1 and (q <= .5) == (e <= .5) or abs(e - .5) < 1e-15, lambda: f"{e} over {k} pieces gives {q}")
        # independent oracle: compose the pieces again
        # Near complete randomization a rate carries no information about k pieces: only test where it is well conditioned.
        qs = min(q, 1 - q)
        es = min(e, 1 - e)
        if qs < .4:
            back = -math.expm1(k * math.log1p(-2 * qs)) / 2
            mon.check(abs(back - es) <= 1e-14 * k + 1e-9 * es, lambda: f"{k} pieces of {q!r} compose to {back!r}, not {es!r}")
        if k == 1:
            mon.check(abs(q - e) <= 1e-15, lambda: f"one piece of {e} gives {q}", "identities")
        mon.check(abs(float(f(1 - e, k)) - (1 - q)) <= 1e-9 if abs(e - .5) > 1e-9 else True, lambda: f"rate {e} and its complement over {k} pieces are not complementary", "symmetries")
        a, b = rng.randint(1, 12), rng.randint(1, 12)
        x = min(e, 1 - e)
        if x < .49:
            n1 = float(f(float(f(x, a)), b))
            n2 = float(f(x, a * b))
            mon.check(abs(n1 - n2) <= 2e-15 + 1e-9 * n2, lambda: f"splitting {x} into {a} then {b} gives {n1}, into {a * b} gives {n2}", "nestings")
        e2 = rate(rng)
        if abs(e2 - e) > 1e-12:
            lo, hi = sorted([(e, q), (e2, float(f(e2, k)))])
            mon.check(lo[1] <= hi[1] + 1e-15, lambda: f"not monotone: {lo} {hi} for {k} pieces", "monotone_pairs")
        if es not in (0, .5):
            k2 = k + rng.randint(1, 9)
            q2 = float(f(es, k2))
            mon.check(q2 <= min(q, 1 - q) + 1e-15, lambda: f"more pieces give a larger rate for {es}: {k}->{q}, {k2}->{q2}")
        mon.seen(e, k)
    for e in (0.0, .5, 1.0):
        for k in (1, 2, 9):
            mon.check(float(f(e, k)) == e, lambda: f"{e} over {k} pieces is {f(e, k)}", "identities")
    for bad in (-.1, -1e-9, 1.0001, 7.0, float("nan"), -3):
        with must_raise(mon, f"error rate {bad}"):
            f(bad, rng.randint(1, 5))
