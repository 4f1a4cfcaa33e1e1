"""C03: without noise every detector and the logical observable of every generated circuit is deterministic."""
import random

import numpy as np
import stim

from vlib.core import must_raise
from vlib.gen import STYLES, OBS, layout_cases, wide_and_long, make_layout, paper_layouts, fit_rounds
from vlib.ref import strip_noise

ID = "C03"
LEVEL = "exploration"
RULE = ("Random memory experiment configurations (style x observable x width x height x sub-rounds x noise) plus the paper's "
        "own sizes; each circuit is generated, its noise removed and it is executed repeatedly. Non-trivial: at least one "
        "detector and the observable were evaluated on >= 32 executions; distinct by (style, obs, width, height, rounds).")
ASSUMPTIONS = ["stim's stabilizer simulator and its non-determinism analysis are trusted."]
REQUIRED = ["detectors_observed", "observables_observed", "refusals_observed"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 3)
    q = tier == "quick"
    out = layout_cases(rng, 400 if q else 6000, max_cells=5000 if q else 30000,
                       rounds=lambda r: r.choice([r.randint(1, 12), r.randint(1, 40), r.randint(24, 90)]))
    out += layout_cases(rng, 16 if q else 300, max_cells=30000 if q else 400000, rounds=lambda r: r.randint(1, 60))
    for style in STYLES:
        for obs in OBS:
            for n in list(range(1, 31)) + [60, 61, 62, 99, 100, 101]:
                if style == "SI1000" and n % 3:
                    continue
                w, h = rng.choice([(2, 6), (4, 6), (6, 6), (2, 12), (4, 12), (10, 6)])
                out.append(dict(w=w, h=h, n=n, style=style, obs=obs, noise=0.001))
    out += wide_and_long(rng, 1 if q else 8)
    pl = paper_layouts()
    out += pl[:9] if q else pl
    for n in ([1, 2, 4, 5, 7, 10, 20, 31, 100] if q else range(1, 200)):
        if n % 3:
            out.append(dict(kind="refuse", w=4, h=6, n=n, style="SI1000", obs="V", noise=0.001))
    for n in [200 + rng.randint(0, 9), 1000, 10 ** 4, 10 ** 6, 2 ** 20, 2 ** 31 - 1, 2 ** 32, 10 ** 12, rng.randint(10 ** 3, 10 ** 5), rng.randint(10 ** 6, 10 ** 15)]:
        n += n % 3 == 0
        out.append(dict(kind="refuse", w=4, h=6, n=n, style="SI1000", obs=OBS[n % 2], noise=0.001))
    for style in STYLES:
        for n in [0, -1, -2, -3, -4, -6, -12, -rng.randint(5, 100)]:
            for obs in OBS:
                out.append(dict(kind="refuse", w=4, h=6, n=n, style=style, obs=obs, noise=0.001))
        for bad in ["X", "Z", "", "h", "HV"]:
            out.append(dict(kind="refuse", w=4, h=6, n=6, style=style, obs=bad, noise=0.001))
    for bad in ["", "SD7", "sd6", "EM3_v3", "CP3", "SI500", "honeycomb_SD6"]:
        out.append(dict(kind="refuse", w=4, h=6, n=6, style=bad, obs="H", noise=0.001))
    rng.shuffle(out)
    return out


def run_case(case, mon):
    if case.get("kind") == "refuse":
        with must_raise(mon, f"unsupported request {case}"):
            make_layout(case).make_circuit()
        return
    lay = make_layout(case)
    noisy = lay.make_circuit()
    quiet = make_layout(case, noise=0.0).make_circuit()
    for label, c in [("noise removed", strip_noise(noisy)), ("zero noise", quiet)]:
        shots = 33 if case["w"] * case["h"] * case["n"] < 20000 else 9
        m = c.compile_sampler().sample(shots)
        conv = c.compile_m2d_converter(skip_reference_sample=True)
        det, obs = conv.convert(measurements=m, separate_observables=True)
        mon.check(det.shape[1] > 0, "circuit declares no detectors")
        bad = np.flatnonzero((det != det[0]).any(axis=0))
        mon.check(bad.size == 0, lambda: f"{label}: detectors {bad[:10].tolist()} are not deterministic")
        mon.check(not (obs != obs[0]).any(), lambda: f"{label}: a logical observable is not deterministic")
        want = {"V": 0, "H": 1}[case["obs"]]
        mon.eq(c.num_observables, want + 1, f"{label}: observable count")
        mon.count("detectors_observed", int(det.size))
        mon.count("observables_observed", int(obs.size))
    # stim's own analysis raises on non-deterministic detectors or observables.
    dem = noisy.detector_error_model(decompose_errors=True)
    mon.eq(dem.num_detectors, noisy.num_detectors, "detectors in the error model")
    mon.seen(case["style"], case["obs"], case["w"], case["h"], case["n"])
