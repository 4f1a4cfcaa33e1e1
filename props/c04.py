"""C04: every style's circuit realises the ideal honeycomb measurement protocol (same joint outcome distribution)."""
import random

import numpy as np

from vlib.core import Violation
from vlib.gen import STYLES, OBS, layout_cases, wide_and_long, make_layout
from vlib.ref import RefHoneycomb, Gf2Span, rows_to_ints, read_memory_circuit, strip_noise, Malformed

ID = "C04"
LEVEL = "exploration"
RULE = ("Random configurations; the real noiseless circuit and an independent ideal circuit (prepare, measure XX/YY/ZZ edge "
        "products in schedule, measure data) are both executed and the affine GF(2) spaces of their complete outcome records "
        "are compared. Non-trivial: record of >= 20 bits with rank strictly between 0 and its length; distinct by "
        "(style, obs, width, height, rounds).")
ASSUMPTIONS = ["stim's stabilizer simulator is trusted; outcome distributions of stabilizer circuits are uniform on an affine "
               "GF(2) space, identified from (bits+64) samples (error probability < 2^-60 per case)."]
REQUIRED = ["records_compared", "affine_spaces_compared"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 4)
    q = tier == "quick"
    out = []
    for style in STYLES:
        for obs in OBS:
            for n in range(1, 67 if q else 130):
                if style == "SI1000" and n % 3:
                    continue
                out.append(dict(w=2, h=6, n=n, style=style, obs=obs, noise=0.01))
    out += layout_cases(rng, 160 if q else 2500, max_cells=1500 if q else 3600,
                        rounds=lambda r: r.choice([r.randint(1, 12), r.randint(1, 30), r.randint(10, 60)]))
    out += layout_cases(rng, 24 if q else 200, max_cells=4000 if q else 8000, rounds=lambda r: r.randint(1, 30))
    out += layout_cases(rng, 50 if q else 300, max_cells=40000, rounds=lambda r: r.randint(1, 12), w_max=44, h_max=66)
    out += rng.sample(wide_and_long(rng, 1, 66, 110), 10) if q else wide_and_long(rng, 4, 66, 150)
    rng.shuffle(out)
    return out


def run_case(case, mon):
    w, h, n, obs = case["w"], case["h"], case["n"], case["obs"]
    ref = RefHoneycomb(w, h)
    ideal = ref.ideal_circuit(obs, n)
    ideal_keys = ref.ideal_records(obs, n)
    pc = case["style"] == "PC3"
    for label, c in [("zero noise", make_layout(case, 0.0).make_circuit()),
                     ("noise removed", strip_noise(make_layout(case).make_circuit()))]:
        try:
            keys, _, _, coords, _ = read_memory_circuit(c, ref, pc)
        except Malformed as ex:
            raise Violation(f"{label}: {ex}")
        index = {k: i for i, k in enumerate(keys)}
        mon.eq(len(index), len(keys), f"{label}: each scheduled result reported once")
        want = {("a" if pc and k[0] == "e" else k[0], *k[1:]) for k in ideal_keys}
        mon.check(set(index) == want,
                  lambda: f"{label}: measured {len(index)} results; missing {sorted(want - set(index))[:3]}, "
                          f"unexpected {sorted(set(index) - want)[:3]}")
        bits = len(keys)
        big = bits > 2600
        shots = 48 if big else bits + 64
        sr = c.compile_sampler().sample(shots)
        cols = np.zeros((shots, bits), dtype=bool)
        for j, k in enumerate(ideal_keys):
            if k[0] == "e" and pc:
                col = sr[:, index[("a", *k[1:])]]
                if k[1] >= 3:
                    col = col ^ sr[:, index[("a", k[1] - 3, k[2])]]
            else:
                col = sr[:, index[k]]
            cols[:, j] = col
        mon.count("records_compared", int(cols.size))
        if big:
            # Too large for exact linear algebra: every parity the ideal protocol fixes must hold with the ideal value.
            si = ideal.compile_sampler().sample(4)
            pos = {k: j for j, k in enumerate(ideal_keys)}
            for ks in list(ref.detectors(obs, n)) + [ref.observable(obs, n)]:
                ix = [pos[k] for k in ks]
                a = np.bitwise_xor.reduce(cols[:, ix], axis=1)
                b = np.bitwise_xor.reduce(si[:, ix], axis=1)
                mon.check((a == b[0]).all() and (b == b[0]).all(), lambda: f"{label}: fixed parity {sorted(map(str, ks))[:8]} broken",
                          "parities_checked")
            mon.seen(case["style"], obs, w, h, n)
            continue
        real = rows_to_ints(cols)
        idl = rows_to_ints(ideal.compile_sampler().sample(shots))
        span = Gf2Span()
        base = idl[0]
        for v in idl[1:]:
            span.add(v ^ base)
        rspan = Gf2Span()
        for v in real:
            mon.check(span.reduce(v ^ base) == 0, f"{label}: an outcome record was produced that the ideal protocol can "
                                                  f"never produce", "affine_membership_checks")
            rspan.add(v ^ real[0])
        mon.eq(rspan.rank, span.rank, f"{label}: dimension of the outcome distribution")
        mon.count("affine_spaces_compared")
        if 0 < span.rank < bits and bits >= 20:
            mon.seen(case["style"], obs, w, h, n)
