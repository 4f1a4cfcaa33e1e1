"""C10: the circuits are fault tolerant: minimum undetected fault sets match the code's distance, single faults are corrected."""
import random

import numpy as np
import stim

from vlib.core import Violation
from vlib.gen import STYLES, OBS, make_layout
from vlib.ref import flat_ops

ID = "C10"
LEVEL = "exploration"
RULE = ("Configurations of increasing size x style x observable x rounds; smallest set of graphlike faults flipping the "
        "observable undetected is searched in the emitted circuit; every single fault of the error model is injected and "
        "decoded by the shipped decoder. Distinct by configuration; non-trivial when a minimal fault set was found.")
ASSUMPTIONS = ["stim's shortest graphlike error search is exact; distance counts faults that decompose into at most two symptoms.",
               "Rounds are at least 4 (H) / 2 (V, entangling measurement styles) so that the time direction has its bulk structure."]
REQUIRED = ["minimal_fault_sets", "single_faults_injected", "idle_distances", "reported_distances"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 10)
    q = tier == "quick"
    out = []
    sizes = [(2, 6), (4, 6), (6, 6), (2, 12), (4, 12), (6, 12), (8, 12), (4, 18), (6, 18), (2, 18), (8, 6), (10, 12)]
    if not q:
        sizes += [(8, 18), (12, 18), (10, 18), (4, 24), (8, 24), (6, 30), (12, 12), (14, 6), (16, 24)]
    for w, h in sizes:
        for style in STYLES:
            for obs in OBS:
                ns = [rng.choice([6, 9, 12]), rng.choice([15, 18, 21, 24, 30])]
                if style != "SI1000":
                    ns += [rng.randint(4, 8), rng.randint(9, 26)]
                if q:
                    ns = rng.sample(ns, 2)
                for n in ns:
                    if q and w * h * n > 2200:
                        n = 6
                    out.append(dict(kind="dist", w=w, h=h, n=n, style=style, obs=obs, noise=0.001))
    for style in STYLES:
        for obs in OBS:
            w, h = rng.choice([(14, 24), (24, 36), (36, 30), (30, 24), (44, 18), (20, 48), (26, 42)])
            out.append(dict(kind="dist", w=w, h=h, n=6, style=style, obs=obs, noise=0.001))
            w, h = rng.choice([(12, 30), (16, 24), (22, 18), (10, 36)])
            out.append(dict(kind="dist", w=w, h=h, n=6, style=style, obs=obs, noise=0.001))
    for w, h in sizes[:12] if q else sizes:
        for obs in OBS:
            for n in ([4, 7, 12] if q else [4, 5, 6, 7, 8, 9, 12, 18, 25]):
                out.append(dict(kind="idle", w=w, h=h, n=n, style="EM3", obs=obs, noise=0.001))
    for obs in OBS:
        for w, h in [(20, 30), (18, 36), (24, 36)] if q else [(20, 30), (18, 36), (24, 36), (28, 42), (32, 48)]:
            out.append(dict(kind="idle", w=w, h=h, n=4, style="EM3", obs=obs, noise=0.001))
    for _ in range(10 if q else 60):
        w, h = 2 * rng.randint(1, 16), 6 * rng.randint(1, 8)
        out.append(dict(kind="idle", w=w, h=h, n=rng.choice([4, 6, 7]) if w * h < 200 else 4, style="EM3", obs=rng.choice(OBS), noise=0.001))
    for k in range(12 if q else 60):
        out.append(dict(kind="reported", part=k, parts=12 if q else 60, top=40 if q else 120, seed=rng.getrandbits(40)))
    for style in STYLES:
        for obs in OBS:
            for w, h in ([(4, 6), (4, 12)] if q else [(4, 6), (4, 12), (6, 12), (8, 12), (6, 6)]):
                for n in ([12] if q else [6, 12, 18, 30]):
                    if formula(style, obs, w, h) >= (4 if style.startswith("EM3") else 3):
                        out.append(dict(kind="single", w=w, h=h, n=n, style=style, obs=obs, noise=rng.choice([0.001, 0.003])))
    for style, w, h, n in [("SD6", 4, 6, 12), ("SI1000", 4, 6, 12), ("EM3_v2", 8, 12, 6), ("EM3", 8, 12, 6), ("PC3", 4, 6, 12)]:
        out.append(dict(kind="single", w=w, h=h, n=n, style=style, obs="V", noise=0.001))
        out.append(dict(kind="single", w=w, h=max(h, 12), n=6, style=style, obs="H", noise=0.001))
    out = [c for c in out if c["kind"] != "single" or
           formula(c["style"], c["obs"], c["w"], c["h"]) >= (4 if c["style"].startswith("EM3") else 3)]
    rng.shuffle(out)
    return out


def formula(style, obs, w, h):
    if style.startswith("EM3"):
        return h // 3 if obs == "H" else w // 2
    return h // 2 if obs == "H" else w


def run_case(case, mon):
    if case["kind"] == "reported":
        # min(w, 2h/3) is what the fault searches above measure in emitted circuits; it must be what every size records.
        rng = random.Random(case["seed"])
        sizes = [(w, h) for w in range(2, case["top"] + 1, 2) for h in range(6, case["top"] + 1, 6)]
        for w, h in sizes[case["part"]::case["parts"]] + [(2 * rng.randint(20, 300), 6 * rng.randint(1, 6)), (2 * rng.randint(1, 5), 6 * rng.randint(10, 80))]:
            style = rng.choice(STYLES)
            lay = make_layout(dict(w=w, h=h, n=rng.choice([3, 6, 9, 3 * rng.randint(2, 10 ** 5)]), style=style, obs=rng.choice(OBS), noise=0.001))
            mon.eq((lay.code_distance_1qdep, lay.as_decoder_problem_desc("internal").code_distance), (min(w, 2 * h // 3),) * 2, f"code distance of a {w}x{h} grid", name="reported_distances")
        mon.seen(case)
        return
    w, h, obs = case["w"], case["h"], case["obs"]
    if case["kind"] == "idle":
        lay = make_layout(case, 0.0)
        base = lay.make_circuit()
        noisy = stim.Circuit()
        for op in flat_ops(base):
            if op.name == "MPP":
                qs = sorted({t.value for t in op.targets_copy() if not t.is_combiner})
                noisy.append("DEPOLARIZE1", qs, 0.001)
            noisy.append(op)
        d = len(noisy.shortest_graphlike_error(ignore_ungraphlike_errors=True))
        mon.eq(d, 2 * h // 3 if obs == "H" else w, f"minimum number of idle data faults that flip observable {obs} undetected")
        mon.eq(lay.code_distance_1qdep, min(w, 2 * h // 3), "reported code distance")
        mon.eq(lay.as_decoder_problem_desc("internal").code_distance, min(w, 2 * h // 3), "recorded code distance")
        mon.count("idle_distances")
        mon.seen(case)
        return
    lay = make_layout(case)
    c = lay.make_circuit()
    if case["kind"] == "dist":
        err = c.shortest_graphlike_error(ignore_ungraphlike_errors=True)
        mon.eq(len(err), formula(case["style"], obs, w, h), f"minimum number of circuit faults that flip observable {obs} undetected")
        mon.count("minimal_fault_sets")
        mon.seen(case)
        return
    from decoding import decode_using_pymatching
    dem = c.detector_error_model(decompose_errors=False)
    rows, want = [], []
    for inst in dem.flattened():
        if inst.type != "error" or inst.args_copy()[0] == 0:
            continue
        d = np.zeros(c.num_detectors, dtype=bool)
        o = np.zeros(c.num_observables, dtype=bool)
        for t in inst.targets_copy():
            if t.is_relative_detector_id():
                d[t.val] ^= 1
            elif t.is_logical_observable_id():
                o[t.val] ^= 1
        rows.append(d)
        want.append(o)
    rng = random.Random(str(case))
    idx = list(range(len(rows)))
    if len(idx) > 2500:
        idx = rng.sample(idx, 2500)
    got = decode_using_pymatching(circuit=c, det_samples=np.array([rows[k] for k in idx]), use_correlated_decoding=False)
    bad = [k for i, k in enumerate(idx) if (got[i] != want[k]).any()]
    mon.check(not bad, lambda: f"{len(bad)} of {len(idx)} single faults are miscorrected, e.g. symptoms {np.flatnonzero(rows[bad[0]])[:8].tolist()}")
    mon.count("single_faults_injected", len(idx))
    mon.seen(case)
