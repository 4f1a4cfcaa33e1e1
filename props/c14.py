"""C14: the reported number of correct shots is exactly the number of shots whose every observable was predicted right."""
import math
import os
import random

import numpy as np
import stim

from vlib.core import Violation, must_raise, scratch, chdir
from vlib.fakedec import FakeDecoder, same_model
from vlib.gen import STYLES, OBS, make_layout

ID = "C14"
LEVEL = "exploration"
RULE = ("Random circuits whose correctness per shot is readable from the recorded symptoms (mirrored observables plus visible "
        "spoilers), decoded through a recording external decoder; fully explained circuits through the matching decoder; "
        "deliberately mismatched model circuits; honeycomb experiments compared statistically with an independent count. "
        "Distinct by (circuit, shots, decoder).")
ASSUMPTIONS = ["Statistical comparisons use a 7 sigma band."]
REQUIRED = ["exact_counts", "partially_correct_counts", "deterministic_counts", "statistical_counts", "refusals_observed", "model_circuit_runs", "fresh_sample_sets", "large_counts", "decoder_choices", "many_observables", "bare_counts"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 14)
    q = tier == "quick"
    out = [dict(kind="mirror", seed=rng.getrandbits(48)) for _ in range(250 if q else 3000)]
    out += [dict(kind="match", seed=rng.getrandbits(48)) for _ in range(300 if q else 4000)]
    out += [dict(kind="forced", seed=rng.getrandbits(48)) for _ in range(200 if q else 2000)]
    out += [dict(kind="stat", seed=rng.getrandbits(48)) for _ in range(60 if q else 400)]
    out += [dict(kind="bare", seed=rng.getrandbits(48)) for _ in range(40 if q else 400)]
    out += [dict(kind="refuse", seed=rng.getrandbits(48)) for _ in range(20)]
    out += [dict(kind="fresh", seed=rng.getrandbits(48)) for _ in range(20 if q else 200)]
    out += [dict(kind="big", seed=rng.getrandbits(48), shots=s) for s in ((65535, 65536, 65537, 70000, 131073) if q else (65535, 65536, 65537, 70000, 131073, 300001, 1048577, 2 ** 20 + 70000))]
    for style in STYLES:
        for obs in OBS:
            out.append(dict(kind="honeycomb", w=2, h=6, n=6, style=style, obs=obs, noise=rng.choice([.002, .01, .03]), seed=rng.getrandbits(40)))
    rng.shuffle(out)
    return out


def mirror_circuit(rng, nobs, probs=None):
    """Observable o = a_o ^ b_o. Detector o reports a_o; detector nobs+o reports b_o (the spoiler)."""
    lines = []
    n = 2 * nobs
    for o in range(nobs):
        pa = rng.choice([0, 0.3, 0.45, 0.01]) if probs is None else probs
        pb = rng.choice([0, 0.02, 0.2, 0.45]) if probs is None else probs
        lines.append(f"X_ERROR({pa}) {o}")
        lines.append(f"X_ERROR({pb}) {nobs + o}")
    if n:
        lines.append("M " + " ".join(map(str, range(n))))
    for d in range(n):
        lines.append(f"DETECTOR rec[{d - n}]")
    for o in range(nobs):
        lines.append(f"OBSERVABLE_INCLUDE({o}) rec[{o - n}] rec[{nobs + o - n}]")
    if not n:
        lines += ["X_ERROR(0.3) 0", "M 0", "DETECTOR rec[-1]"]
    return stim.Circuit("\n".join(lines))


def run_case(case, mon):
    from decoding import sample_decode_count_correct as count
    rng = random.Random(case["seed"])
    kind = case["kind"]
    if kind == "mirror":
        nobs = rng.randint(0, 5) if rng.random() < .85 else rng.choice([8, 16, 33, 65, 130])
        c = mirror_circuit(rng, nobs)
        shots = rng.choice([1, 2, 3, 17, 64, 100, 257, 1000, 3001])
        dec = rng.choice(["internal", "internal_correlated"])
        kw = {}
        if rng.random() < .4:
            kw["model_circuit"] = mirror_circuit(rng, nobs, probs=0.125)
            mon.count("model_circuit_runs")
        with scratch() as d, chdir(d):
            fake = FakeDecoder(d, mode="mirror", num_obs=nobs)
            got = count(circuit=c, num_shots=shots, decoder=dec, **kw)
            log = fake.log()
        mon.eq(len(log), 1, "external decoder runs")
        mon.eq(log[0]["nshots"], shots, "shots handed to the decoder")
        flags = {"-cheap_corr", "-edge_corr", "-node_corr"} & set(log[0]["argv"])
        mon.eq(len(flags), 3 if dec == "internal_correlated" else 0, f"correlation options {flags} given to the decoder requested as {dec}", "decoder_choices")
        rows = [l.split(" ")[1:] for l in log[0]["dets"].split("\n") if l]
        want = sum(not any(int(t[1:]) >= nobs for t in r) for r in rows) if nobs else shots
        mon.eq(int(got), want, f"correct shots out of {shots} with {nobs} observables", "exact_counts")
        model = kw.get("model_circuit", c).detector_error_model(decompose_errors=True)
        mon.check(same_model(log[0]["dem"], model),
                  "the decoder was configured from a different circuit than the model circuit")
        if 0 < want < shots:
            mon.count("partially_correct_counts")
        mon.seen(str(c), shots, dec)
    elif kind == "match":
        # Every error has its own detector: minimum weight decoding is always right.
        nobs = rng.randint(0, 4)
        n = rng.randint(1, 6)
        lines = []
        for k in range(n):
            lines.append(f"E({10 ** rng.uniform(-3, -.4)}) X{k}" + "".join(f" X{n + o}" for o in range(nobs) if rng.random() < .4))
        lines.append("M " + " ".join(map(str, range(n + nobs))))
        lines += [f"DETECTOR rec[{k - n - nobs}]" for k in range(n)]
        lines += [f"OBSERVABLE_INCLUDE({o}) rec[{o - nobs}]" for o in range(nobs)]
        c = stim.Circuit("\n".join(lines))
        shots = rng.choice([1, 5, 40, 300, 1025])
        mon.eq(int(count(circuit=c, num_shots=shots, decoder="pymatching")), shots, "correct shots of a fully diagnosable circuit", "exact_counts")
        mon.seen(str(c), shots)
    elif kind == "forced":
        # Sampled circuit is deterministic; the model circuit determines what the decoder believes.
        nobs = rng.choice([1, 2, 3, 4, 4, 8, rng.randint(5, 40), rng.choice([33, 64, 65, 130, 257, 300])])
        n = nobs
        def build(flip_o, flip_d, model):
            ls = []
            for k in range(nobs):
                if model:
                    ls.append(f"E(0.2) X{k} X{nobs + k}")
                else:
                    if flip_d[k]:
                        ls.append(f"X_ERROR(1) {k}")
                    if flip_o[k]:
                        ls.append(f"X_ERROR(1) {nobs + k}")
            ls.append("M " + " ".join(map(str, range(2 * nobs))))
            ls += [f"DETECTOR rec[{k - 2 * nobs}]" for k in range(nobs)]
            ls += [f"OBSERVABLE_INCLUDE({o}) rec[{o - nobs}]" for o in range(nobs)]
            return stim.Circuit("\n".join(ls))
        fd = [rng.random() < .5 for _ in range(nobs)]
        fo = list(fd)
        if rng.random() < .6:
            k = rng.choice([rng.randrange(nobs), nobs - 1])
            fo[k] = not fo[k]
        shots = rng.choice([1, 7, 50, 300, 1024, 2500])
        got = count(circuit=build(fo, fd, False), model_circuit=build(fo, fd, True), num_shots=shots, decoder="pymatching")
        if nobs > 64:
            mon.count("many_observables")
        mon.eq(int(got), shots if fo == fd else 0, f"correct shots, truth {fo}, symptoms {fd}", "deterministic_counts")
        mon.count("model_circuit_runs")
        mon.seen(nobs, tuple(fd), tuple(fo), shots)
    elif kind == "fresh":
        # Successive calls, and calls in other processes, must not repeat each other's shots.
        c = stim.Circuit("X_ERROR(0.5) " + " ".join(map(str, range(1, 41))) + "\nM " + " ".join(map(str, range(41))) + "\n"
                         + "".join(f"DETECTOR rec[{-1 - k}]\n" for k in range(40)) + "OBSERVABLE_INCLUDE(0) rec[-41]")
        shots = rng.choice([2, 16, 100])
        seen = []
        with scratch() as d, chdir(d):
            fake = FakeDecoder(d, mode="mirror", num_obs=1)
            for _ in range(4):
                count(circuit=c, num_shots=shots, decoder="internal")
            seen = [r["dets"] for r in fake.log()]
            pid = os.fork()
            if not pid:
                try:
                    count(circuit=c, num_shots=shots, decoder="internal")
                finally:
                    os._exit(0)
            count(circuit=c, num_shots=shots, decoder="internal")
            os.waitpid(pid, 0)
            seen = [r["dets"] for r in fake.log()]
        mon.eq(len(seen), 6, "decoder runs")
        # 2 shots of 40 fair bits: a repetition by chance has probability below 2^-75.
        mon.eq(len(set(seen)), 6, "distinct sample sets in six calls", "fresh_sample_sets")
        lines = [l for s_ in seen for l in s_.split("\n") if l]
        mon.check(len(set(lines)) >= len(lines) - 1, "shots repeat", "fresh_sample_sets")
        mon.seen("fresh", case["seed"])
    elif kind == "big":
        shots = case["shots"]
        k = rng.randint(1, 3)
        c = stim.Circuit(f"X_ERROR({rng.choice([0, .01, .3])}) 0\nM 0\n" + "".join(f"OBSERVABLE_INCLUDE({o}) rec[-1]\n" for o in range(k)) + "DETECTOR rec[-1]")
        mon.eq(int(count(circuit=c, num_shots=shots, decoder="pymatching")), shots, "correct shots of a fully diagnosable circuit", "exact_counts")
        c = stim.Circuit("M 0\nOBSERVABLE_INCLUDE(0) rec[-1]\nX_ERROR(1) 0\nM 0\nDETECTOR rec[-1]")
        model = stim.Circuit("X_ERROR(.1) 0\nM 0\nOBSERVABLE_INCLUDE(0) rec[-1]\nM 0\nDETECTOR rec[-1]")
        mon.eq(int(count(circuit=c, model_circuit=model, num_shots=shots, decoder="pymatching")), 0, "correct shots when the model is always wrong", "deterministic_counts")
        mon.count("large_counts")
        mon.seen("big", shots)
    elif kind == "bare":
        # Few or no detectors, few or no observables, gaps in the numbering, few or no shots.
        nobs = rng.choice([0, 1, 2, 4])
        gap = rng.choice([1, 1, 3])
        ndet = rng.choice([0, 0, 1])
        bad = rng.random() < .5 and nobs > 0
        shots = rng.choice([0, 0, 1, 5, 300])
        dec = rng.choice(["pymatching", "pymatching", "internal"])
        ls = [f"X_ERROR(1) {rng.randrange(nobs)}"] if bad else []
        ls += [f"M {o}\nOBSERVABLE_INCLUDE({o * gap + gap - 1}) rec[-1]" for o in range(nobs)]
        ls += ["X_ERROR(.2) 50\nM 50\nDETECTOR rec[-1]"] * ndet
        c = stim.Circuit("\n".join(ls or ["M 0"]))
        model = stim.Circuit("\n".join([x for x in ls if not x.startswith("X_ERROR(1)")] or ["M 0"]))
        with scratch() as d, chdir(d):
            FakeDecoder(d, mode="none", num_obs=nobs * gap)
            got = count(circuit=c, model_circuit=model, num_shots=shots, decoder=dec)
        mon.eq(int(got), 0 if bad else shots, f"correct shots of {shots} with {ndet} detectors and observables every {gap}, {'always' if bad else 'never'} flipped", "bare_counts")
        mon.seen(str(c), shots, dec)
    elif kind == "stat":
        p = rng.uniform(.02, .48)
        nobs = rng.randint(1, 3)
        hidden = rng.randrange(nobs)
        c = stim.Circuit(f"X_ERROR({p}) {nobs}\nM " + " ".join(map(str, range(nobs + 1))) + "\n"
                         + "".join(f"OBSERVABLE_INCLUDE({o}) rec[{o - nobs - 1}]" + (" rec[-1]" if o == hidden else "") + "\n" for o in range(nobs))
                         + "X_ERROR(0.1) 20\nM 20\nDETECTOR rec[-1]")
        shots = 3000
        got = count(circuit=c, num_shots=shots, decoder="pymatching")
        mon.check(abs(got - shots * (1 - p)) < 7 * math.sqrt(shots * p * (1 - p)), lambda: f"{got}/{shots} correct at undetectable flip rate {p}", "statistical_counts")
        mon.seen(p, nobs, hidden)
    elif kind == "honeycomb":
        c = make_layout(case).make_circuit()
        shots = 600
        got = int(count(circuit=c, num_shots=shots, decoder="pymatching"))
        import pymatching
        m = pymatching.Matching.from_detector_error_model(c.detector_error_model(decompose_errors=True))
        s, o = c.compile_detector_sampler(seed=rng.getrandbits(32)).sample(shots, separate_observables=True)
        pred = m.decode_batch(s)
        mine = int(((pred[:, :o.shape[1]] == o).all(axis=1)).sum())
        f = (got + mine) / (2 * shots)
        sd = math.sqrt(max(f * (1 - f), 1 / shots) * 2 / shots)
        mon.check(abs(got - mine) / shots < 7 * sd + .05, lambda: f"{got} vs {mine} correct of {shots}", "statistical_counts")
        mon.seen(case)
    else:
        c = mirror_circuit(rng, 2)
        for dec in ["", "Internal", "pymatching2", "PyMatching", "internal_uncorrelated", None]:
            with scratch() as d, chdir(d):
                fake = FakeDecoder(d, mode="mirror", num_obs=2)
                with must_raise(mon, f"decoder {dec!r}"):
                    count(circuit=c, num_shots=3, decoder=dec)
                mon.eq(len(fake.log()), 0, f"runs of the external decoder when asked for decoder {dec!r}")
        for bad in (mirror_circuit(rng, 1), mirror_circuit(rng, 3)):
            with must_raise(mon, "model circuit with different detectors or observables"):
                count(circuit=c, model_circuit=bad, num_shots=3, decoder="pymatching")
        extra = mirror_circuit(rng, 2) + stim.Circuit("OBSERVABLE_INCLUDE(2) rec[-1]")
        with must_raise(mon, "model circuit with different observables"):
            count(circuit=c, model_circuit=extra, num_shots=3, decoder="pymatching")
