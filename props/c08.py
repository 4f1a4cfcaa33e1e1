"""C08: adding noise never changes what the circuit does: without its errors the noisy circuit is the original one."""
import random

import numpy as np
import stim

from vlib.core import Violation
from vlib.gen import STYLES, OBS, layout_cases, make_layout, random_noise
from vlib.ref import Gf2Span, rows_to_ints, strip_noise
from vlib import noiseref as nr

ID = "C08"
LEVEL = "exploration"
RULE = ("Random circuits (nested repeats, mixed-basis and inverted parity measurements, bodies touching only some qubits) x "
        "noise model, and honeycomb experiments. The noisy circuit's errors are removed and both circuits are executed; the "
        "affine GF(2) spaces of complete outcome records, record counts, annotations and moment counts are compared. "
        "Non-trivial: at least one measurement; distinct by (model, circuit).")
ASSUMPTIONS = ["stim's stabilizer simulator is trusted; spaces are identified from (bits+40) samples."]
REQUIRED = ["outcome_spaces_compared", "zero_noise_identities", "inputs_unmodified", "annotations_compared"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 8)
    q = tier == "quick"
    out = []
    for k in range(2400 if q else 30000):
        out.append(dict(kind="random", model=(STYLES + ["EM3_v2", "EM3_v2"])[k % 7], p=random_noise(rng), seed=rng.getrandbits(48)))
    for k in range(140 if q else 2000):
        out.append(dict(kind="random", model=(STYLES + ["EM3_v2", "EM3_v2"])[k % 7], p=random_noise(rng), seed=rng.getrandbits(48),
                        wide=rng.choice([20, 40, 70, 140])))
    for c in layout_cases(rng, 60 if q else 500, max_cells=1000 if q else 3000, rounds=lambda r: r.randint(1, 24)):
        out.append(dict(c, kind="layout"))
    for c in layout_cases(rng, 12 if q else 60, max_cells=30000, rounds=lambda r: r.randint(1, 12), styles=["EM3_v2"]):
        out.append(dict(c, kind="layout"))
    rng.shuffle(out)
    return out


def spaces_equal(a, b, bits, mon):
    shots = bits + 40
    ra, rb = (rows_to_ints(c.compile_sampler().sample(shots)) for c in (a, b))
    span = Gf2Span()
    for v in ra[1:]:
        span.add(v ^ ra[0])
    other = Gf2Span()
    for v in rb:
        mon.check(span.reduce(v ^ ra[0]) == 0, "with its errors removed the noisy circuit produced an outcome record the "
                                               "original circuit can never produce", "outcome_records_checked")
        other.add(v ^ rb[0])
    mon.eq(other.rank, span.rank, "dimension of the outcome distribution with errors removed")
    mon.count("outcome_spaces_compared")


def same_stream(a, b, mon, what):
    ma, mb = list(nr.moments(a)), list(nr.moments(b))
    mon.eq(len(mb), len(ma), f"{what}: moments")
    for k, (x, y) in enumerate(zip(ma, mb)):
        mon.eq(nr.canon(nr.events(y)), nr.canon(nr.events(x)), f"{what}: moment {k}")


def run_case(case, mon):
    name = case["model"] if case["kind"] == "random" else case["style"]
    if case["kind"] == "layout":
        base = make_layout(case, 0.0).make_circuit()
        noisy = make_layout(case).make_circuit()
    else:
        rng = random.Random(case["seed"])
        p = min(case["p"], 0.15)
        m = nr.model(name, p)
        gates = dict(m.gates)
        if name == "EM3_v2" and rng.random() < 0.5:
            gates = {g: 1 for g in ("MPP", "M", "R", "H", "C_XYZ")}
        base = nr.random_circuit(rng, gates, max_qubits=case.get("wide", 8))
        while not base.num_qubits or base.num_measurements > 1500:
            base = nr.random_circuit(rng, gates, max_qubits=case.get("wide", 8))
        before = str(base)
        noisy = nr.repo_model(name, p).noisy_circuit(base)
        mon.eq(str(base), before, "the circuit given to the noise model")
        mon.count("inputs_unmodified")
        zero = nr.repo_model(name, 0.0).noisy_circuit(base)
        same_stream(base, zero, mon, "zero noise")
        za, zb = nr.annotations(base), nr.annotations(zero)
        mon.eq(zb, za, "zero noise annotations")
        mon.count("zero_noise_identities")
    quiet = strip_noise(noisy)
    da, db = nr.annotations(base), nr.annotations(quiet)
    for i, what in enumerate(["detectors", "observables", "qubit coordinates", "measurement count"]):
        mon.eq(db[i], da[i], f"noisy circuit's {what}")
    mon.count("annotations_compared")
    mon.eq(quiet.num_ticks, base.num_ticks, "noisy circuit's tick count")
    bits = da[3]
    if name != "EM3_v2":
        same_stream(base, quiet, mon, "errors removed")
    if 0 < bits <= 1500:
        spaces_equal(base, quiet, bits, mon)
    elif bits:
        s = quiet.compile_sampler().sample(32)
        for c in (base, quiet):
            d = c.compile_m2d_converter(skip_reference_sample=True).convert(measurements=s, append_observables=True)
            mon.check((d == d[0]).all(), "fixed parities vary once errors are removed")
        mon.count("large_circuits")
    mon.seen(name, str(base))
