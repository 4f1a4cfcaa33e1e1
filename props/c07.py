"""C07: noise is applied exactly where, as strongly and as often as the error model says."""
import random

import stim

from vlib.core import Violation, must_raise
from vlib.gen import STYLES, OBS, layout_cases, make_layout, random_noise
from vlib import noiseref as nr

ID = "C07"
LEVEL = "exploration"
RULE = ("Random circuits (nested repeats, sparse qubits, all supported gates, annotations, inverted results) x noise model x "
        "strength, custom models, and complete honeycomb experiments; the noisy circuit is executed moment by moment and the "
        "per-qubit sequence of events is compared with an independent statement of the model. Non-trivial: at least one "
        "noise event expected; distinct by (model, circuit).")
ASSUMPTIONS = ["Circuits touch each qubit at most once per moment. Where a block starts or ends in the middle of a moment (generated circuits never do that) only the "
               "noise of the operations is judged, not idling."]
REQUIRED = ["moments_compared", "noise_events_expected", "refusals_observed", "layout_moments_compared", "loose_moments_compared",
            "correlated_parity_measurements", "tiny_strengths", "long_loops"]

ALL_GATES = sorted(nr.C1 | nr.C2 | set(nr.RESETS) | set(nr.MEASURES) | {"MPP"})
UNSUPPORTED = ["S", "SQRT_X", "X", "SWAP", "ISWAP", "MR", "MRX", "T" if False else "SQRT_XX", "MXX", "X_ERROR", "DEPOLARIZE1"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 7)
    q = tier == "quick"
    out = []
    for k in range(3000 if q else 40000):
        out.append(dict(kind="random", model=STYLES[k % 5], p=random_noise(rng), seed=rng.getrandbits(48),
                        qs=rng.random() < 0.15))
    for k in range(600 if q else 8000):
        out.append(dict(kind="custom", seed=rng.getrandbits(48)))
    for k in range(500 if q else 6000):
        out.append(dict(kind="custom", loose=True, seed=rng.getrandbits(48)))
    for k in range(300 if q else 4000):
        out.append(dict(kind="random", model=STYLES[k % 5], p=random_noise(rng), seed=rng.getrandbits(48), qs=rng.random() < 0.15,
                        wide=rng.choice([20, 40, 70, 140, 300])))
    for k in range(250 if q else 4000):
        out.append(dict(kind="long", model=STYLES[k % 5], p=random_noise(rng), seed=rng.getrandbits(48)))
    for k in range(60 if q else 200):
        out.append(dict(kind="refuse", model=STYLES[k % 5], seed=rng.getrandbits(48)))
    for c in layout_cases(rng, 150 if q else 1500, max_cells=3000 if q else 10000, rounds=lambda r: r.choice([r.randint(1, 15), r.randint(1, 60)])):
        out.append(dict(c, kind="layout"))
    for style in STYLES:
        for obs in OBS:
            for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 18, 21, 24, 30, 36):
                if style != "SI1000" or n % 3 == 0:
                    out.append(dict(kind="layout", w=2 if n % 2 else 4, h=6, n=n, style=style, obs=obs, noise=random_noise(rng)))
    rng.shuffle(out)
    return out


def compare(base, noisy, m, qs, mon, counter, loose=False):
    """Observes the noisy circuit against the reference semantics of model m applied to base."""
    helper = None
    base_qubits = set(range(base.num_qubits)) | set(qs)
    if m.correlated and m.gates.get("MPP"):
        helper = noisy.num_qubits - 1
        if helper in base_qubits:
            helper = None
    bm = list(nr.segmented_moments(base)) if loose else [[m_] for m_ in nr.moments(base)]
    nm = list(nr.moments(noisy))
    mon.eq(len(nm), len(bm), "number of moments")
    seen = {}
    for k, (b, n) in enumerate(zip(bm, nm)):
        key = "\n".join("\n".join(map(str, g)) for g in b) + "||" + "\n".join(map(str, n))
        if key in seen:
            mon.count(counter)
            continue
        seen[key] = 1
        want_ev = [e for g in b for e in nr.reference_noisy_events(g, m, qs)]
        nk = sum(1 for e in want_ev if e[0] in ("DEPOLARIZE1", "DEPOLARIZE2", "X_ERROR", "Z_ERROR", "MPPC"))
        mon.count("noise_events_expected", nk)
        try:
            got_ev = list(nr.fold_gadgets(n, helper)) if helper is not None else list(nr.events(n))
        except nr.GadgetError as ex:
            raise Violation(f"moment {k}: {ex}")
        mon.count("correlated_parity_measurements", sum(e[0] == "MPPC" for e in got_ev))
        want_ev = [(a, tuple(float(f"{x:.6g}") for x in b_), c, d, e) if a == "MPPC" else (a, b_, c, d, e)
                   for a, b_, c, d, e in want_ev]
        want, wrec = nr.canon(want_ev)
        got, grec = nr.canon(got_ev)
        mon.eq(grec, wrec, f"moment {k}: measurement order")
        for q in sorted(set(want) | set(got)):
            if not same(got.get(q, ()), want.get(q, ())):
                raise Violation(f"moment {k}, qubit {q}: undergoes {got.get(q, ())}, the noise model says {want.get(q, ())}")
        mon.count(counter)


def same(a, b):
    if a == b:
        return True
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if (x[0], x[2], x[3]) != (y[0], y[2], y[3]) or len(x[1]) != len(y[1]):
            return False
        if any(abs(u - v) > 2e-6 * max(abs(u), abs(v)) for u, v in zip(x[1], y[1])):
            return False
    return True


def clip(name, p):
    # Strengths must stay valid probabilities for stim's channels.
    return min(p, {"SI1000": 0.15}.get(name, 0.74))


def with_count(circuit, which, count):
    """The circuit with its which-th loop (in order of appearance) run count times."""
    seen = [0]

    def walk(c):
        out = stim.Circuit()
        for op in c:
            if isinstance(op, stim.CircuitRepeatBlock):
                mine = seen[0]
                seen[0] += 1
                out.append(stim.CircuitRepeatBlock(count if mine == which else op.repeat_count, walk(op.body_copy())))
            else:
                out.append(op)
        return out

    return walk(circuit), seen[0]


def totals(circuit):
    """How often every operation is executed, per target, without unrolling loops."""
    out = {}

    def walk(c, times):
        for op in c:
            if isinstance(op, stim.CircuitRepeatBlock):
                walk(op.body_copy(), times * op.repeat_count)
                continue
            for g in op.target_groups() or [[]]:
                key = (op.name, tuple(op.gate_args_copy()), tuple(map(repr, g)) if op.name not in ("DETECTOR", "OBSERVABLE_INCLUDE") else ())
                out[key] = out.get(key, 0) + times

    walk(circuit, 1)
    return out


def long_case(rng, case, mon):
    """What is executed grows linearly with a loop's iterations; small counts are judged moment by moment elsewhere."""
    p = clip(case["model"], case["p"])
    m, real = nr.model(case["model"], p), nr.repo_model(case["model"], p)
    loops = 0
    while not loops:
        c = nr.random_circuit(rng, m.gates, max_qubits=8)
        loops = with_count(c, -1, 1)[1] if c.num_qubits else 0
    which = rng.randrange(loops)
    big = rng.choice([100, 1000, 1025, 65537, 10 ** 6 + 7, 2 ** 20 + 1, 2 ** 31 + 3, 2 ** 32 + 5, 10 ** 9, rng.randint(10, 10 ** 5), rng.randint(10 ** 6, 10 ** 11)])
    small = []
    for n in (4, 5, 6):
        base = with_count(c, which, n)[0]
        noisy = real.noisy_circuit(base)
        compare(base, noisy, m, set(range(c.num_qubits)), mon, "moments_compared")
        small.append(totals(noisy))
    base = with_count(c, which, big)[0]
    noisy = real.noisy_circuit(base)
    got = totals(noisy)
    keys = set(got) | set(small[0]) | set(small[1])
    for key in keys:
        a, b, d = (s.get(key, 0) for s in small)
        if b - a != d - b:
            continue  # not linear (yet): nothing is predicted
        mon.eq(got.get(key, 0), b + (b - a) * (big - 5), f"number of times {key} is executed when loop #{which} runs {big} times")
    mon.eq(noisy.num_ticks, base.num_ticks, "ticks")
    mon.eq(noisy.num_measurements, base.num_measurements, "measurements")
    mon.eq(noisy.num_detectors, base.num_detectors, "detectors")
    mon.count("long_loops")
    mon.seen("long", case["model"], str(base))


def run_case(case, mon):
    kind = case["kind"]
    if kind == "long":
        return long_case(random.Random(case["seed"]), case, mon)
    if kind == "layout":
        base = make_layout(case, 0.0).make_circuit()
        noisy = make_layout(case).make_circuit()
        m = nr.model(case["style"], case["noise"])
        compare(base, noisy, m, set(range(base.num_qubits)), mon, "layout_moments_compared")
        mon.seen(case)
        return
    rng = random.Random(case["seed"])
    if kind == "refuse":
        m = nr.model(case["model"], 0.01)
        bad = sorted((set(ALL_GATES) - set(m.gates)) | set(UNSUPPORTED))
        for g in bad:
            c = stim.Circuit("H 0\nTICK\n")
            body = f"{g} " + ("X0*X1" if g == "MPP" else "0 1")
            if g in ("X_ERROR", "DEPOLARIZE1"):
                body = f"{g}(0.1) 0 1"
            c += stim.Circuit(body if rng.random() < 0.5 else f"REPEAT 3 {{\n{body}\nTICK\n}}")
            with must_raise(mon, f"{case['model']} applied to {g}, a gate it has no rule for"):
                nr.repo_model(case["model"], 0.01).noisy_circuit(c)
        return
    if kind == "custom":
        from noise import NoiseModel
        pick = lambda: rng.choice([0, 10 ** rng.uniform(-4, -1)] if rng.random() < .9 else [10 ** rng.uniform(-300, -4)])
        gates = {g: pick() for g in rng.sample(ALL_GATES, rng.randint(3, len(ALL_GATES)))}
        if "I" not in gates:
            gates["I"] = pick()
        idle, mr, corr = pick(), pick(), rng.random() < 0.4
        if case.get("loose"):
            idle = mr = 0
        if corr and gates.get("MPP"):
            gates["MPP"] = max(1e-6, gates["MPP"])  # the strengths of a correlated gadget are differences of numbers near 1/2
        kw = dict(gates)
        c1 = c2 = None
        if rng.random() < 0.3:
            c1 = pick()
        if rng.random() < 0.3:
            c2 = pick()
        real = NoiseModel(idle=idle, measure_reset_idle=mr, noisy_gates=kw, any_clifford_1=c1, any_clifford_2=c2,
                          use_correlated_parity_measurement_errors=corr)
        full = dict(gates)
        if c1 is not None:
            full = {**{g: c1 for g in nr.C1}, **full}
        if c2 is not None:
            full = {**{g: c2 for g in nr.C2}, **full}
        m = nr.Model(full, idle, mr, corr)
    else:
        p = clip(case["model"], case["p"])
        if rng.random() < .05 and case["model"] != "EM3_v2":
            p = 10 ** rng.uniform(-250, -6)
            mon.count("tiny_strengths")
        m = nr.model(case["model"], p)
        real = nr.repo_model(case["model"], p)
    c = nr.random_circuit(rng, m.gates, max_qubits=case.get("wide", 9))
    while not c.num_qubits:
        c = nr.random_circuit(rng, m.gates, max_qubits=case.get("wide", 9))
    mon.count("wide_circuits", c.num_qubits > 20)
    if case.get("loose"):
        c = nr.loosened(rng, c)
    qs = set(range(c.num_qubits))
    if case.get("qs"):
        qs = set(rng.sample(range(c.num_qubits + 3), rng.randint(1, c.num_qubits)))
        noisy = real.noisy_circuit(c, qs=set(qs))
    else:
        noisy = real.noisy_circuit(c)
    compare(c, noisy, m, qs, mon, "loose_moments_compared" if case.get("loose") else "moments_compared", case.get("loose", False))
    mon.seen(kind, case.get("model"), str(c))
