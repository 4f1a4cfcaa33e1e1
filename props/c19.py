"""C19: detection fraction records count detection events exactly."""
import math
import random

import numpy as np
import stim

from vlib.core import Violation, scratch, captured_stdout
from vlib.collect import rows, random_desc, desc_fields
from vlib.gen import STYLES, OBS, make_layout

ID = "C19"
LEVEL = "exploration"
RULE = ("Circuits with a known set of always-firing detectors (0..4500 detectors, 0..300007 shots, repeats) give exact counts; honeycomb "
        "experiments are compared with the expected detection rate from their error model (7 sigma). Distinct by circuit and shots.")
ASSUMPTIONS = []
REQUIRED = ["exact_records", "statistical_records", "fields_checked"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 19)
    q = tier == "quick"
    out = [dict(kind="exact", seed=rng.getrandbits(48)) for _ in range(400 if q else 5000)]
    # large totals: per-detector counts beyond 8 and 16 bits, and wide circuits
    out += [dict(kind="exact", big=b, seed=rng.getrandbits(48)) for b in ("shots", "detectors", "shots", "none") for _ in range(3 if q else 12)]
    out += [dict(kind="exact", big="both", seed=rng.getrandbits(48)) for _ in range(2 if q else 8)]
    for style in STYLES:
        for obs in OBS:
            for k in range(1 if q else 8):
                out.append(dict(kind="layout", w=2, h=6, n=rng.choice([6, 12, 30]), style=style, obs=obs, noise=rng.choice([.001, .01]), seed=rng.getrandbits(40)))
    return out


def run_case(case, mon):
    from collect_data import collect_detection_fraction_data, DecodingProblem
    rng = random.Random(case["seed"])
    probs, want = [], []
    shots = rng.choice([1, 2, 3, 16, 255, 1000, 1024, 2000] + [0] * (case["kind"] == "exact"))
    big = case.get("big")
    if big == "shots":
        shots = rng.choice([65535, 65537, 70000, 140001, 300007])
    elif big == "both":
        shots = rng.choice([4097, 5001, 12345])
    elif big == "detectors":
        shots = rng.choice([1, 7, 300])
    if case["kind"] == "layout":
        lay = make_layout(case)
        probs = [lay.as_decoder_problem("internal")]
    else:
        for k in range(rng.randint(0, 4) if big != "both" else 1):
            n = rng.choice([1, 2, 5, 8, 60])
            if big == "detectors":
                n = rng.choice([300, 1025, 4500])
            elif big == "both":
                n = rng.choice([4099, 4515])
            elif big == "none":
                n = rng.choice([1, 3])
            on = [rng.random() < rng.choice([0, .1, .5, 1]) for _ in range(n)]
            reps = rng.randint(1, 3) if big != "both" else 1
            body = "R " + " ".join(map(str, range(n))) + "\n"
            if any(on):
                body += "X_ERROR(1) " + " ".join(str(i) for i in range(n) if on[i]) + "\n"
            body += "M " + " ".join(map(str, range(n))) + "\n" + "".join(f"DETECTOR rec[{i - n}]\n" for i in range(n) if big != "none")
            text = body if reps == 1 else f"REPEAT {reps} {{\n{body}\n}}\n"
            if rng.random() < .4:
                text += "OBSERVABLE_INCLUDE(0) rec[-1]\n"  # observables are not detection events
            c = stim.Circuit(text)
            probs.append(DecodingProblem(desc=random_desc(rng, data_width=k + 1), circuit_maker=lambda c=c: c))
            want.append((0, 0) if big == "none" else (shots * n * reps, shots * reps * sum(on)))
    with scratch() as d:
        out = str(d / "o.csv") if rng.random() < .7 else None
        with captured_stdout() as buf:
            collect_detection_fraction_data(probs, shots=shots, out_path=out, discard_previous_data=rng.random() < .5)
        try:
            recs = rows(buf.getvalue())
            if out:
                mon.eq(rows(open(out).read()), recs, "records on disk versus printed")
        except ValueError as ex:
            raise Violation(str(ex))
    mon.eq(len(recs), len(probs), "one record per problem")
    for r, p in zip(recs, probs):
        f = desc_fields(p.desc)
        f["preserved_observable"], f["decoder"] = "-", "detection_fraction"
        mon.eq({k: r[k] for k in f}, f, "record fields", "fields_checked")
        mon.check(float(r["total_processing_seconds"]) >= 0, "negative processing time")
    if case["kind"] == "exact":
        for r, (total, fired) in zip(recs, want):
            mon.eq((int(r["num_shots"]), int(r["num_shots"]) - int(r["num_correct"])), (total, fired), "(detector samples, detection events)", "exact_records")
        if want:
            mon.seen(case["seed"])
        return
    c = probs[0].circuit_maker()
    total = int(recs[0]["num_shots"])
    mon.eq(total, shots * c.num_detectors, "detector samples")
    rate = np.ones(c.num_detectors)
    for inst in c.detector_error_model().flattened():
        if inst.type == "error":
            for t in inst.targets_copy():
                if t.is_relative_detector_id():
                    rate[t.val] *= 1 - 2 * inst.args_copy()[0]
    mean = ((1 - rate) / 2).sum()
    per = c.compile_detector_sampler(seed=5).sample(2000).sum(axis=1)
    sd = max(per.std(), .3) * math.sqrt(shots)
    fired = total - int(recs[0]["num_correct"])
    mon.check(abs(fired - shots * mean) < 7 * sd + 7, lambda: f"{fired} detection events in {shots} shots, expected {shots * mean:.1f} +- {sd:.1f}", "statistical_records")
    mon.seen(case)
