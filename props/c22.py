"""C22: line fits and the projections derived from them are the least-squares answers."""
import math
import random

import numpy as np

from vlib.core import Violation, captured_stdout, must_raise
from vlib import lam
from vlib.paper import script

ID = "C22"
LEVEL = "exploration"
RULE = ("Random line-fit problems (2..8 points, slopes and noise spanning the paper's data, targets inside and far outside the data) "
        "and random shot data over all code families; answers are compared with closed-form least squares, and must not depend on "
        "the order in which the records were read. Distinct by problem; non-trivial: at least two usable points.")
ASSUMPTIONS = ["The numerical fits are iterative: half-widths are compared with a relative tolerance of 1e-3, costs with 1e-5.",
               "All records of one analysed group were taken with the same number of code cells (as the shipped problem catalogue does)."]
REQUIRED = ["slope_ranges", "output_ranges", "point_fits", "slope_fits", "scaled_fits", "searches", "intercepts", "group_fits", "lambda_ranges",
            "qubit_projections", "extrapolated_observables", "order_permutations", "refusals_observed", "qubit_ranges", "zero_error_points", "tiny_rates"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 22)
    q = tier == "quick"
    out = [dict(kind="fits", seed=rng.getrandbits(48), n=20) for _ in range(40 if q else 1500)]
    out += [dict(kind="search", seed=rng.getrandbits(48), n=100) for _ in range(16 if q else 300)]
    out += [dict(kind="group", seed=rng.getrandbits(48), n=10) for _ in range(60 if q else 2500)]
    rng.shuffle(out)
    return out


def run_case(case, mon):
    rng = random.Random(case["seed"])
    for _ in range(case["n"]):
        globals()["do_" + case["kind"]](rng, mon)


def do_fits(rng, mon):
    import probability_util as pu
    n = rng.randint(2, 8) if rng.random() < .8 else rng.randint(9, 30)
    xs = sorted(rng.sample(range(2, 33), n))
    s, i = -rng.uniform(.02, 1.5), rng.uniform(-3, 1) + rng.choice([0, 0, 0, 10 ** rng.uniform(1, 6)])
    sig = rng.choice([0, .01, .2, 1])
    ys = [s * x + i + rng.gauss(0, sig) for x in xs]
    if rng.random() < .5:
        xs, ys = ys, [float(x) for x in xs]
    if rng.random() < .3:
        ys = [-y for y in ys]
    xs, ys = [float(x) for x in xs], [float(y) for y in ys]
    if rng.random() < .5:
        perm = rng.sample(range(n), n)
        xs, ys = [xs[k] for k in perm], [ys[k] for k in perm]
    s, i, _, mx, sxx = lam.fit(xs, ys)
    if sxx < 1e-2 or abs(s) > 200:
        return
    cost = rng.choice([1, 1, .25, 4])
    ax, ay = np.array(xs), np.array(ys)
    got = tuple(float(v) for v in pu.least_squares_slope_range(xs=rng.choice([xs, ax]), ys=rng.choice([ys, ay]), cost_increase=cost))
    want = lam.slope_range(xs, ys, cost)
    h = want[2] - want[1]
    mon.check(len(got) == 3 and all(abs(a - b) <= 1e-3 * h + 1e-9 * abs(s) for a, b in zip(got, want)), lambda: f"slope range of {xs} {ys} at cost +{cost}: {got}, exact {want}", "slope_ranges")
    t = rng.choice([rng.choice(xs), mx, math.log(1e-12), rng.uniform(-40, 40), 0.0])
    got = tuple(float(v) for v in pu.least_squares_output_range(xs=rng.choice([xs, ax]), ys=rng.choice([ys, ay]), target_x=t, cost_increase=cost))
    want = lam.output_range(xs, ys, t, cost)
    h = (want[1] - want[0]) / 2
    mon.check(len(got) == 2 and all(abs(a - b) <= 1e-3 * h + 1e-9 * (abs(want[0]) + abs(want[1])) for a, b in zip(got, want)), lambda: f"output range of {xs} {ys} at {t}, cost +{cost}: {got}, exact {want}", "output_ranges")

    def cost_of(intercept, slope):
        return math.fsum((intercept + slope * x - y) ** 2 for x, y in zip(xs, ys))
    a, b = rng.uniform(-5, 5), rng.uniform(-5, 5)
    mon.close(pu.least_squares_cost(xs=ax, ys=ay, intercept=a, slope=b), cost_of(a, b), "fit cost", rtol=1e-9, atol=1e-9)
    f = pu.least_squares_with_slope(xs=ax, ys=ay, required_slope=b)
    mon.close(f.slope, b, "slope of a fixed-slope fit", rtol=1e-12)
    best = math.fsum(y - b * x for x, y in zip(xs, ys)) / n
    mon.check(cost_of(f.intercept, b) <= cost_of(best, b) * (1 + 1e-5) + 1e-5, lambda: f"fit with slope {b} through {xs} {ys}: intercept {f.intercept}, best {best}", "slope_fits")
    px, py = rng.uniform(-10, 30), rng.uniform(-20, 20)
    f = pu.least_squares_through_point(xs=ax, ys=ay, required_x=px, required_y=py)
    mon.close(f.intercept + f.slope * px, py, "fit through a point misses the point", atol=1e-7 * (1 + abs(f.slope * px)), rtol=1e-9)
    den = math.fsum((x - px) ** 2 for x in xs)
    best = math.fsum((x - px) * (y - py) for x, y in zip(xs, ys)) / den
    mon.check(cost_of(f.intercept, f.slope) <= cost_of(py - best * px, best) * (1 + 1e-5) + 1e-5, lambda: f"fit through ({px},{py}) of {xs} {ys}: slope {f.slope}, best {best}", "point_fits")
    # forced fits at any scale of the data
    kx, ky = 10 ** rng.uniform(-4, 5), 10 ** rng.uniform(-6, 9)
    bx, by = ax * kx, ay * ky
    sl = rng.uniform(-3, 3) * ky / kx
    f = pu.least_squares_with_slope(xs=bx, ys=by, required_slope=sl)
    best = math.fsum(y - sl * x for x, y in zip(bx, by)) / n
    mon.check(f.slope == sl and abs(f.intercept - best) <= 1e-2 * max(ky, abs(sl) * kx), lambda: f"fit with slope {sl} through {bx} {by}: intercept {f.intercept}, best {best}", "scaled_fits")
    qx, qy = px * kx, py * ky
    f = pu.least_squares_through_point(xs=bx, ys=by, required_x=qx, required_y=qy)
    den = math.fsum((x - qx) ** 2 for x in bx)
    num = math.fsum((x - qx) * (y - qy) for x, y in zip(bx, by))
    mon.check(abs(f.slope * den - num) <= 1e-2 * (den * ky / kx + abs(num)), lambda: f"fit through ({qx},{qy}) of {bx} {by}: slope {f.slope}, best {num / den}", "scaled_fits")
    with must_raise(mon, "cost of mismatched data"):
        pu.least_squares_cost(xs=ax, ys=np.append(ay, 1.0), intercept=0, slope=1)
    mon.seen(tuple(xs), tuple(ys), cost, t)


def do_search(rng, mon):
    import probability_util as pu
    # integer search in an ascending sequence
    n = rng.choice([1, 2, 3, 5, 10, 50])
    lo = rng.choice([0, 0, -7, rng.randint(-100, 100)])
    vals = sorted(rng.choice([rng.uniform(-3, 3), float(rng.randint(-4, 4))]) for _ in range(n))
    if rng.random() < .3:
        k = rng.randint(1, n)
        vals = [-math.inf] * (n - k) + vals[n - k:]
    t = rng.choice([rng.uniform(-4, 4), rng.choice(vals)])
    hi = lo + n - 1
    calls = []

    def func(x):
        calls.append(x)
        return vals[x - lo]
    if t == -math.inf:
        t = -50.0
    got = pu.binary_search(func=func, min_x=lo, max_x=hi, target=t)
    mon.check(all(lo <= c <= hi for c in calls), "search evaluated outside its range")
    err = lambda x: 0 if vals[x - lo] == t else abs(vals[x - lo] - t)
    mon.check(lo <= got <= hi and err(got) == min(err(x) for x in range(lo, hi + 1)), lambda: f"search for {t} in {vals}: index {got - lo}", "searches")
    # continuous intercept
    c, e = rng.uniform(-5, 5), rng.choice([1, 2, 3])
    sign = rng.choice([-1, 1])
    f = rng.choice([lambda x: sign * (x - c), lambda x: sign * (x - c) ** 3, lambda x: sign * math.sinh(max(-50, min(50, x - c)))])
    start = rng.uniform(-10, 10)
    ty = f(start + rng.choice([-1, 1]) * rng.uniform(.1, 30))
    step = (1 if (f(start + 1e-3) > f(start)) == (ty > f(start)) else -1) * rng.choice([.1, 1, 5])
    scale = max(1.0, abs(ty), abs(f(start)))
    x = pu.binary_intercept(func=f, start_x=start, step=step, target_y=ty, atol=1e-5 * scale)
    mon.check(abs(f(x) - ty) <= 1e-5 * scale, lambda: f"intercept {x}: value {f(x)}, target {ty}", "intercepts")
    if abs(f(start) - ty) > 1e-5 * scale:
        mon.check((x > start) == (step > 0), "intercept on the wrong side of the start")
    with must_raise(mon, "intercept of a function that never reaches the target"):
        pu.binary_intercept(func=lambda x: math.tanh(x), start_x=0.0, step=1.0, target_y=7.0, atol=1e-5)
    mon.seen(tuple(vals), t)


def group_key(g):
    return g.noise


def do_group(rng, mon):
    from collect_data import ProblemShotData, ShotData
    LG = script("main_render_lambda_figure").LambdaGroup
    style = rng.choice(list(lam.FAMILIES))
    decoder = rng.choice(["internal", "internal_correlated", "pymatching"])
    cells = rng.choice([3, 3, 3, 1, 5])
    truth = {}
    data = {}
    for noise in rng.sample([1e-4, 5e-4, 1e-3, 2e-3, 3e-3, 7e-3, 1e-2], rng.randint(1, 3)):
        truth[noise] = lam.random_points(rng, lam.distances(style, rng), tiny=rng.random() < .2)
        lam.populate(data, style, decoder, noise, truth[noise], cells)
    items = list(data.items())
    snapshots = []
    for attempt in range(2):
        if attempt:
            rng.shuffle(items)
            mon.count("order_permutations")
        with captured_stdout() as out:
            groups = LG.groups_from_data(ProblemShotData(dict(items)))
            mon.eq(sorted(groups), sorted(truth), "noise strengths grouped")
            for noise, pts in truth.items():
                check_group(groups[noise], noise, pts, style, cells, rng, mon, attempt)
        missing = sum((h is None) != (v is None) for pts in truth.values() for h, v in pts.values())
        if missing:
            mon.count("extrapolated_observables", missing)
            mon.check(out.getvalue().count("\n") >= missing, "extrapolating a missing observable was not reported")
    if len(items) >= 1:
        # The same distance twice for one observable cannot be plotted as one point.
        k, v = rng.choice(items)
        dup = dict(items)
        dup[k.with_changes(data_width=k.data_width + 1)] = ShotData(num_shots=10, num_correct=5)
        with must_raise(mon, "two records for one distance and observable"):
            LG.groups_from_data(ProblemShotData(dup))


def check_group(g, noise, pts, style, cells, rng, mon, attempt):
    mon.eq(g.noise, noise, "group noise")
    want = lam.combo(pts, cells)
    xs, ys = g.combo_data
    mon.eq(list(xs), [d for d, _ in want], "distances with data")
    for d, y, (_, w) in zip(xs, ys, want):
        mon.close(y, w, f"combined per-cell error rate at distance {d}", rtol=1e-9, atol=1e-15)
    if len(want) < len(pts):
        mon.count("zero_error_points")
    nh, nv = sum(h is not None for h, _ in pts.values()), sum(v is not None for _, v in pts.values())
    mon.eq(bool(g.has_low_confidence_extrapolation), min(nh, nv) < 3, "low-confidence flag")
    dq = [d for d, _ in want]
    le = [math.log(y) for y in ys]  # judged just above, up to rounding
    if ys and min(ys) < 1e-8:
        mon.count("tiny_rates")
    if len(want) < 2:
        mon.check(not g.appears_to_be_suppressing_errors, "suppression claimed from less than two points")
        mon.eq([float(v) for v in g.projected_lambda_range()], [1.0] * 3, "lambda without a fit")
        return
    s, i, *_ = lam.fit(dq, le)
    r = g.linear_fit_d_to_log_err
    mon.close(r.slope, s, "slope of log error versus distance", rtol=1e-7, atol=1e-9)
    mon.close(r.intercept, i, "intercept of log error versus distance", rtol=1e-7, atol=1e-9)
    mon.count("group_fits")
    if s < -.05 and i < -.2:
        mon.check(g.appears_to_be_suppressing_errors, "clear suppression not recognised")
    if s >= 0:
        mon.check(not g.appears_to_be_suppressing_errors, "suppression claimed although errors grow with distance")
    got = [float(v) for v in g.projected_lambda_range()]
    wr = [math.exp(-2 * v) for v in lam.slope_range(dq, le)]
    h = lam.slope_range(dq, le)[2] - s
    mon.check(len(got) == 3, "lambda range size")
    for a, b in zip(got, wr):
        mon.close(math.log(a), math.log(b), f"lambda range {got} versus {wr}", rtol=1e-9, atol=2e-3 * h + 1e-9, name="lambda_ranges")
    if abs(s) > 1e-6:
        t = 10 ** rng.uniform(-14, -1)
        d = g.projected_distance(t)
        mon.close(d, (math.log(t) - i) / s, "projected distance", rtol=1e-6, atol=1e-6 / abs(s))
        mon.close(math.log(g.projected_error(d)), math.log(t), "projected error at the projected distance", rtol=1e-6, atol=1e-6)
    if s < -.02:
        rep_q, rep_d = g.rep.num_qubits, g.rep.code_distance
        for t in (1e-12, 10 ** rng.uniform(-14, -3)):
            d = (math.log(t) - i) / s
            if d > 0 and not lam.near_int(d, 1e-6 * max(1, d)):
                q = g.projected_required_qubit_count(t, style)
                w = lam.qubits(style, rep_q, rep_d, math.ceil(d))
                mon.close(q, float(w), f"qubits needed for error {t} (distance {d}) in {style}", rtol=1e-9, name="qubit_projections")
            lo, hi = lam.output_range(le, dq, math.log(t))
            tol = 2e-3 * (hi - lo)
            if lo > 0 and not lam.near_int(lo, tol) and not lam.near_int(hi, tol) and hi < 1e5:
                q = g.projected_qubit_count_range(t, style)
                for a, dd in zip(q, (lo, hi)):
                    mon.close(a, float(lam.qubits(style, rep_q, rep_d, math.ceil(dd))), f"qubit count range {q} for distances {lo}..{hi}", rtol=1e-9, name="qubit_ranges")
    if attempt == 0:
        mon.seen(noise, tuple(want))
