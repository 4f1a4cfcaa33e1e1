"""C06: experiments of any duration: exact, steady-state repetition, bounded description."""
import random

import stim

from vlib.core import Violation
from vlib.gen import STYLES, OBS, make_layout, random_noise
from vlib.ref import RefHoneycomb, read_memory_circuit, strip_noise, expand_reference_keys, Malformed
from vlib import noiseref as nr
from props.c05 import check_annotations

ID = "C06"
LEVEL = "exploration"
RULE = ("Durations log-uniform from 10 to 1e17 sub-rounds plus boundary values, x style x observable x size. The emitted loop "
        "counts are reduced (same residue of rounds mod 6) and the resulting execution is matched check by check against the "
        "protocol reference and moment by moment against the directly generated short experiment; totals are compared with closed forms. "
        "Non-trivial: duration long enough that loops were reduced; distinct by configuration.")
ASSUMPTIONS = ["A repeat block executes its body identically each time (stim semantics)."]
REQUIRED = ["loops_reduced", "totals_checked", "moments_compared"]
CASE_CPU_LIMIT_S = 120


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 6)
    q = tier == "quick"
    out = []
    for style in STYLES:
        for obs in OBS:
            for n in (2 ** 53 + 1, 3 * 2 ** 53 + 5, 10 ** 17 + 3, 3 * (10 ** 17 + 1)):
                out.append(dict(w=2, h=6, n=(n // 3 * 3 if style == "SI1000" else n) - 3 * rng.randint(0, 5), style=style, obs=obs, noise=random_noise(rng)))
    k = 0
    while len(out) < (440 if q else 5000):
        style, obs = STYLES[k % 5], OBS[(k // 5) % 2]
        k += 1
        n = int(10 ** rng.uniform(1, rng.choice([3, 6, 9, 12, 15, 17])))
        if rng.random() < .2:
            n = rng.choice([10 ** 9, 3 * 10 ** 8, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 10 ** 12, 65536, 65535, 2 ** 53, 10 ** 16, 10 ** 17, 2 ** 56, 1000, 999, 10000]) + rng.randint(-6, 6)
        if style == "SI1000":
            n = n // 3 * 3
        w, h = rng.choice([(2, 6), (4, 6), (2, 12), (6, 6), (4, 12), (8, 6)])
        if rng.random() < .05:
            w, h = rng.choice([(8, 12), (10, 18), (12, 18), (6, 30), (20, 6)])
        out.append(dict(w=w, h=h, n=n, style=style, obs=obs, noise=random_noise(rng)))
    return out


def sub_rounds_in(c, per):
    m = c.num_measurements
    if m % per:
        raise Violation(f"a repeated section measures {m} edges, not a whole number of sub-rounds of {per}")
    return m // per


def reduce_loops(c, per, target, state):
    """Lowers loop counts while keeping sub-rounds mod 6, until about `target` sub-rounds remain."""
    out = stim.Circuit()
    for op in c:
        if isinstance(op, stim.CircuitRepeatBlock):
            body = op.body_copy()
            r = sub_rounds_in(body, per)
            k = op.repeat_count
            excess = state["n"] - target
            if r and excess > 0:
                step = 1
                while step * r % 6:
                    step += 1
                drop = min(k - 1, excess // r) // step * step
                if drop > 0:
                    k -= drop
                    state["n"] -= drop * r
                    state["reduced"] += 1
            out.append(stim.CircuitRepeatBlock(k, body))
        else:
            out.append(op)
    return out


def run_case(case, mon):
    w, h, n = case["w"], case["h"], case["n"]
    c = make_layout(case).make_circuit()
    per = w * h // 2
    mon.eq(c.num_measurements, n * per + w * h, f"results reported over {n} sub-rounds")
    size = len(str(c))
    small = dict(case, n=60 + n % 6)
    ref_small = make_layout(small).make_circuit()
    mon.check(size <= 1.5 * len(str(ref_small)) + 2000 or n < 100,
              f"description grows with duration: {size} characters for {n} sub-rounds, {len(str(ref_small))} for {small['n']}")
    # Steady state: detectors, ticks per sub-round.
    if n >= small["n"]:
        extra = n - small["n"]
        assert extra % 6 == 0
        mon.eq(c.num_detectors - ref_small.num_detectors, extra * (w * h // 6),
               f"checks in {extra} additional sub-rounds")
        per6 = make_layout(dict(small, n=small["n"] + 6)).make_circuit().num_ticks - ref_small.num_ticks
        mon.eq(c.num_ticks - ref_small.num_ticks, extra // 6 * per6, f"time steps in {extra} additional sub-rounds")
    mon.eq(c.num_observables, ref_small.num_observables, "observables")
    mon.eq(c.num_qubits, ref_small.num_qubits, "qubits")
    mon.count("totals_checked")
    # The last checks carry the final time.
    if n > 30:
        last = c.get_detector_coordinates(only=[c.num_detectors - 1])[c.num_detectors - 1]
        mon.close(last[2], float(n), "time coordinate of the last check", rtol=1e-12 if n < 10 ** 9 else 1e-9, atol=0)

    state = dict(n=n, reduced=0)
    red = reduce_loops(c, per, 30, state)
    mon.count("loops_reduced", state["reduced"])
    if state["n"] > 400:
        raise Violation(f"{n} sub-rounds are written out without repetition ({state['n']} after reducing loops)")
    nr_ = state["n"]
    check_annotations(dict(case, n=nr_), strip_noise(red), mon)
    # And the noise: moment by moment identical to the short experiment generated directly.
    direct = make_layout(dict(case, n=nr_)).make_circuit()
    a, b = list(nr.moments(direct)), list(nr.moments(red))
    mon.eq(len(b), len(a), "moments after reducing loops")
    cache = {}
    for k, (x, y) in enumerate(zip(a, b)):
        cx, cy = (cached(cache, z) for z in (x, y))
        mon.check(cx == cy, lambda: f"moment {k} of the long experiment (loops reduced to {nr_} sub-rounds) differs from the short one",
                  "moments_compared")
    if state["reduced"]:
        mon.seen(case["style"], case["obs"], w, h, n)


def cached(cache, ops):
    key = "\n".join(map(str, ops))
    if key not in cache:
        per, rec = nr.canon(nr.events(ops))
        # correlated errors commute: compare as sorted sequences
        cache[key] = {q: sorted(map(str, s)) if any(e[0] in ("E", "CORRELATED_ERROR") for e in s) else s for q, s in per.items()}, rec
    return cache[key]
