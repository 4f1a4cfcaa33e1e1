"""C09: correlated parity measurements: exact channel, exact measured parity."""
import itertools
import math
import random

import numpy as np
import stim

from vlib.core import Violation, must_raise
from vlib import noiseref as nr

ID = "C09"
LEVEL = "exploration"
RULE = ("All nine basis pairs (and inverted targets) x random mixing probabilities in [0,1] x random qubit/helper indices: the "
        "exact probability of each of the 32 error elements is computed from the emitted operations, and the operations are "
        "executed on eigenstates and sampled. Plus conversion of mixing to component probabilities for 1..9 bits, checked by "
        "full convolution. Distinct by (bases, inversion, probability, indices).")
ASSUMPTIONS = ["stim's Pauli propagation and error analysis are trusted."]
REQUIRED = ["error_elements_checked", "conversions_checked", "parity_executions", "entangled_stabilizers_compared", "refusals_observed"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 9)
    q = tier == "quick"
    out = []
    for a in "XYZ":
        for b in "XYZ":
            for k in range(12 if q else 200):
                p = [0.0, 1.0, 0.5, 1e-6, 1e-3][k] if k < 5 else (rng.random() if rng.random() < .5 else 10 ** rng.uniform(-8, 0))
                i, j, anc = rng.sample(range(rng.choice([4, 30, 30, 300, 3000])), 3)
                out.append(dict(kind="gadget", a=a, b=b, p=p, i=i, j=j, anc=anc, inv=[rng.random() < .25, rng.random() < .25] if k % 3 == 0 else [False, False],
                                seed=rng.getrandbits(30)))
    for n in range(1, 10):
        for k in range(20 if q else 100):
            p = [0.0, 1.0, 1e-9, 0.5][k] if k < 4 else rng.random() ** rng.choice([1, 4])
            out.append(dict(kind="mix", n=n, p=p))
    rng.shuffle(out)
    return out


def run_case(case, mon):
    import noise
    p = case["p"]
    if case["kind"] == "mix":
        n = case["n"]
        c = noise.mix_probability_to_independent_component_probability(p, n)
        mon.check(0 <= c <= 0.5, lambda: f"component probability {c} outside [0, 0.5]")
        # Apply each of the 2^n - 1 non-identity components independently with probability c: Walsh transform is a product.
        size = 1 << n
        w = np.ones(size)
        for v in range(1, size):
            bits = np.array([bin(u & v).count("1") & 1 for u in range(size)]) if n <= 5 else None
            if bits is None:
                break
            w *= np.where(bits == 1, 1 - 2 * c, 1.0)
        if n > 5:
            # every non-zero frequency anticommutes with exactly 2^(n-1) components
            w[1:] = (1 - 2 * c) ** (size // 2)
        for u in (range(1, size) if n <= 5 else [1, size // 2, size - 1]):
            mon.close(w[u], 1 - p, f"n={n}, mixing probability {p}: independent components mix with strength 1-", rtol=1e-9, atol=1e-12)
        mon.count("conversions_checked")
        mon.seen("mix", n, p)
        return
    T = dict(X=stim.target_x, Y=stim.target_y, Z=stim.target_z)
    i, j, anc = case["i"], case["j"], case["anc"]
    t1 = T[case["a"]](i, invert=case["inv"][0])
    t2 = T[case["b"]](j, invert=case["inv"][1])
    c = noise.parity_measurement_with_correlated_measurement_noise(t1=t1, t2=t2, ancilla=anc, mix_probability=p)
    mon.eq(c.num_measurements, 1, "results reported by a parity measurement")
    try:
        ev = list(nr.fold_gadgets(list(nr.flat_ops(c)), anc))
    except nr.GadgetError as ex:
        raise Violation(f"{case['a']}*{case['b']} at {p}: {ex}")
    mon.count("error_elements_checked", 32)
    mon.eq(len(ev), 1, "operations outside the measurement")
    name, args, tk, inv, q = ev[0]
    mon.eq(set(tk), {case["a"] + str(i), case["b"] + str(j)}, "measured parity")
    mon.eq(inv, int(case["inv"][0] != case["inv"][1]), "result inversion")
    mon.close(args[0], p, "total mixing probability", rtol=3e-5, atol=1e-8)

    # Execute on eigenstates: with the noise at zero, value and post-measurement state are those of the joint parity.
    quiet = noise.parity_measurement_with_correlated_measurement_noise(t1=t1, t2=t2, ancilla=anc, mix_probability=0.0)
    rng = random.Random(case["seed"])
    prep = stim.Circuit()
    for t, q in ((case["a"], i), (case["b"], j)):
        prep.append("R" + t, [q])
    flips = [rng.random() < .5, rng.random() < .5]
    for f, t, q in ((flips[0], case["a"], i), (flips[1], case["b"], j)):
        if f:
            prep.append("Z" if t == "X" else "X", [q])
    full = prep + quiet
    full.append("M" + case["a"], [i])
    full.append("M" + case["b"], [j])
    full.append("MPP", [T[case["a"]](i), stim.target_combiner(), T[case["b"]](j)])
    s = full.compile_sampler().sample(16)
    want = flips[0] ^ flips[1] ^ case["inv"][0] ^ case["inv"][1]
    mon.check((s[:, 0] == want).all(), "reported parity of an eigenstate is wrong", "parity_executions")
    mon.check((s[:, 1] == flips[0]).all() and (s[:, 2] == flips[1]).all(), "measuring the parity disturbed the individual values")
    # On a random state a repeated parity measurement agrees with itself.
    anyst = stim.Circuit(f"RX {i}\nRY {j}\n") + quiet
    anyst.append("MPP", [t1, stim.target_combiner(), t2])
    s = anyst.compile_sampler().sample(16)
    mon.check((s[:, 0] == s[:, 1]).all(), "repeating the parity measurement gave a different answer")
    # On halves of entangled pairs, everything that commutes with the parity survives exactly as under an ideal measurement.
    r1, r2 = [x for x in range(40) if x not in (i, j, anc)][:2]
    pairs = stim.Circuit(f"H {i} {j}\nCX {i} {r1} {j} {r2}\n")
    ideal = stim.Circuit()
    ideal.append("MPP", [t1, stim.target_combiner(), t2])
    for g in itertools.product("_XYZ", repeat=2):
        ts = [f"{b}{x}" for b, xs in zip(g, ((i, r1), (j, r2))) if b != "_" for x in xs]
        if not ts:
            continue
        probe = stim.Circuit("MPP " + "*".join(ts))
        a = (pairs + quiet + probe).compile_sampler().sample(8)[:, -1]
        b = (pairs + ideal + probe).compile_sampler().sample(8)[:, -1]
        if anticommutes(g, case["a"] + case["b"]):
            continue
        mon.check((a == b).all(), lambda: f"{'*'.join(ts)} differs after measuring {case['a']}{i}*{case['b']}{j} of entangled pairs", "entangled_stabilizers_compared")
    for bad in (-0.01, 1.01, 2.0, -1.0):
        with must_raise(mon, f"mixing probability {bad}"):
            noise.parity_measurement_with_correlated_measurement_noise(t1=t1, t2=t2, ancilla=anc, mix_probability=bad)
    # Sampled frequencies of flips.
    if 0.05 < p:
        noisy = prep + c
        shots = 4000
        f = np.count_nonzero(noisy.compile_sampler().sample(shots)[:, 0] != want)
        mu = p / 2
        mon.check(abs(f - shots * mu) < 7 * math.sqrt(shots * mu * (1 - mu)) + 7, lambda: f"{f}/{shots} flips at mixing probability {p}")
    mon.seen(case)


def anticommutes(a, b):
    return sum(x != "_" and x != y for x, y in zip(a, b)) % 2 == 1
