"""C27: results depend only on the request: not on history, hash seed, order, threads or aliasing."""
import hashlib
import json
import os
import random
import subprocess
import sys
import threading

import numpy as np
import stim

from vlib.core import Violation, REPO
from vlib.gen import STYLES, OBS, make_layout, fit_rounds, random_noise

ID = "C27"
LEVEL = "exploration"
RULE = ("Batches of related configurations (differing in one field, duplicates included) are generated in random order with "
        "interleaved property reads, again from 6 concurrent threads with a 10 microsecond switch interval, and again each in a pristine "
        "forked interpreter under different hash seeds; all texts must be identical. Noise insertion and decoding are repeated on "
        "(and from 6 threads at once on) "
        "shared objects. Distinct by batch; schedules counted by distinct completion orders.")
ASSUMPTIONS = ["A pristine interpreter is a fork of a process that has only imported the package."]
REQUIRED = ["pristine_comparisons", "hash_seed_comparisons", "threaded_generations", "history_generations", "noise_repeats", "decode_repeats", "mutation_probes", "concurrent_results"]

CHILD = r'''
import sys, json, os, hashlib
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
import honeycomb_layout, honeycomb_circuit, noise
cases = json.loads(sys.stdin.read())
out = []
for c in cases:
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            lay = honeycomb_layout.HoneycombLayout(data_width=c["w"], data_height=c["h"], sub_rounds=c["n"], style=c["style"], obs=c["obs"], noise=c["noise"])
            t = str(lay.make_circuit()) + repr(lay.as_decoder_problem_desc("x"))
            os.write(w, hashlib.sha256(t.encode()).hexdigest().encode())
        except BaseException as ex:
            os.write(w, ("raised " + type(ex).__name__ + str(ex))[:200].encode())
        finally:
            os._exit(0)
    os.close(w)
    s = b""
    while True:
        b = os.read(r, 4096)
        if not b:
            break
        s += b
    os.close(r)
    os.waitpid(pid, 0)
    out.append(s.decode())
print(json.dumps(out))
'''


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 27)
    q = tier == "quick"
    return [dict(kind="batch", seed=rng.getrandbits(48)) for _ in range(24 if q else 500)] + \
           [dict(kind="objects", seed=rng.getrandbits(48)) for _ in range(40 if q else 800)] + \
           [dict(kind="threads", seed=rng.getrandbits(48)) for _ in range(4 if q else 40)]


def digest(lay):
    t = str(lay.make_circuit()) + repr(lay.as_decoder_problem_desc("x"))
    return hashlib.sha256(t.encode()).hexdigest()


def batch(rng):
    out = []
    base = dict(w=2 * rng.randint(1, 5), h=6 * rng.randint(1, 2), n=rng.randint(1, 20), style=rng.choice(STYLES), obs=rng.choice(OBS), noise=random_noise(rng))
    for _ in range(10):
        c = dict(rng.choice(out + [base]))
        f = rng.choice(["w", "h", "n", "style", "obs", "noise", "none"])
        if f == "w":
            c["w"] = 2 * rng.randint(1, 4)
        elif f == "h":
            c["h"] = 6 * rng.randint(1, 3)
        elif f == "n":
            c["n"] = rng.randint(1, 20)
        elif f == "style":
            c["style"] = rng.choice(STYLES)
        elif f == "obs":
            c["obs"] = rng.choice(OBS)
        elif f == "noise":
            c["noise"] = rng.choice([0.0, random_noise(rng)])
        c["n"] = fit_rounds(c["style"], c["n"])
        out.append(c)
    # swapped-looking sizes
    out.append(dict(base, w=6, h=12, n=fit_rounds(base["style"], base["n"])))
    out.append(dict(base, w=12, h=6, n=fit_rounds(base["style"], base["n"])))
    return out


def pristine(specs, hash_seed):
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONHASHSEED",)}
    env["PYTHONHASHSEED"] = str(hash_seed)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD, str(REPO / "src")], input=json.dumps(specs), capture_output=True, text=True, env=env, timeout=200)
    if r.returncode:
        raise Violation(f"generation in a fresh interpreter failed: {r.stderr[-800:]}")
    return json.loads(r.stdout.splitlines()[-1])


def poke(lay, rng):
    """Reads public attributes in random order, as interactive use would."""
    names = [n for n in dir(type(lay)) if not n.startswith("_") and (isinstance(getattr(type(lay), n), property) or type(getattr(type(lay), n)).__name__ == "cached_property")]
    for n in rng.sample(names, rng.randint(0, len(names))):
        getattr(lay, n)


def wreck(v):
    if isinstance(v, dict):
        v[next(iter(v), 0)] = 977
        v[1234.5 + 99j] = 978
    elif isinstance(v, list):
        v.reverse()
        v.append(979)
    elif isinstance(v, set):
        v.clear()
    elif isinstance(v, tuple):
        for e in v:
            if isinstance(e, (list, dict, set)):
                wreck(e)


def spoil(lay, rng):
    """Modifies every mutable container a layout of the same or another request hands out."""
    for n in sorted(dir(type(lay))):
        if n.startswith("_"):
            continue
        a = getattr(type(lay), n)
        if isinstance(a, property) or type(a).__name__ == "cached_property":
            v = getattr(lay, n)
            wreck(v)
            wreck(getattr(v, "noisy_gates", None))
    for f, args in ((lay.obs_before_sub_round, (rng.randint(0, 8),)), (lay.obs_h_before_sub_round, (rng.randint(0, 8),)), (lay.obs_v_before_sub_round, (rng.randint(0, 8),)),
                    (lay.round_edges, (rng.randint(0, 2),)), (lay.round_hex_centers, (rng.randint(0, 2),)),
                    (lay.first_edges_around_hex, (0j,)), (lay.second_edges_around_hex, (0j,)), (lay.qubits_around_hex, (0j,)), (lay.qubit_indices_except, ([0],))):
        try:
            v = f(*args)
        except Exception:
            continue  # the layout just spoiled may not answer any more
        wreck(v)


def run_case(case, mon):
    rng = random.Random(case["seed"])
    if case["kind"] == "objects":
        return objects(rng, mon)
    if case["kind"] == "threads":
        return threads(rng, mon)
    specs = batch(rng)
    ref = pristine(specs, rng.randint(1, 2 ** 31))
    for k, s in enumerate(ref):
        mon.check(not s.startswith("raised"), lambda: f"{specs[k]}: {s}")
    mon.count("pristine_comparisons", len(specs))
    order = rng.sample(range(len(specs)), len(specs)) + [rng.randrange(len(specs)) for _ in range(4)]
    live = {}
    for k in order:
        lay = live.get(k) if rng.random() < .3 and k in live else make_layout(specs[k])
        live[k] = lay
        poke(lay, rng)
        if rng.random() < .3:
            poke(make_layout(specs[rng.randrange(len(specs))]), rng)
        if rng.random() < .3:
            spoil(make_layout(specs[rng.choice([k, rng.randrange(len(specs))])]), rng)
            mon.count("mutation_probes")
        if rng.random() < .3:
            # What a caller does with a returned circuit must not leak into later ones.
            c = lay.make_circuit()
            c.append("H", [0])
            c.clear()
            mon.count("mutation_probes")
        if rng.random() < .3:
            # Neither must what is done to a circuit that a decoding problem made.
            p = lay.as_decoder_problem("internal")
            c = p.circuit_maker()
            want = str(c)
            c.append("H", [0])
            if rng.random() < .5:
                c.clear()
            mon.check(str(p.circuit_maker()) == want, "a problem's circuit made again after the first one was modified")
            mon.count("mutation_probes")
        mon.eq(digest(lay), ref[k], f"circuit of {specs[k]} generated after others versus in a fresh interpreter", name="history_generations")
    other = pristine(specs, rng.randint(1, 2 ** 31))
    mon.eq(other, ref, "circuits under another hash seed", name="hash_seed_comparisons")
    shared = [make_layout(s) for s in specs]
    results, errors, done = [], [], []

    def work(seed):
        r = random.Random(seed)
        try:
            for k in r.sample(range(len(specs)), 4):
                lay = shared[k] if r.random() < .5 else make_layout(specs[k])
                if r.random() < .5:
                    poke(lay, r)
                results.append((k, digest(lay)))
                done.append((seed, k))
        except Exception as ex:
            errors.append(ex)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(rng.getrandbits(30),)) for _ in range(6)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if errors:
        raise Violation(f"concurrent generation raised {type(errors[0]).__name__}: {errors[0]}")
    for k, dg in results:
        mon.eq(dg, ref[k], f"circuit of {specs[k]} generated concurrently versus in a fresh interpreter", name="threaded_generations")
    mon.seen("schedule", tuple(k for _, k in done))
    mon.seen(json.dumps(specs))


def objects(rng, mon):
    from vlib.noiseref import random_circuit, repo_model, model
    import decoding
    name = rng.choice(["SD6", "PC3", "EM3_v1", "EM3_v2", "SI1000"])
    p = rng.choice([.001, .01, .05])
    m = repo_model(name, p)
    gates = set(model(name, p).gates)
    circuits = [random_circuit(rng, gates) for _ in range(3)]
    texts = [str(c) for c in circuits]
    first = [str(repo_model(name, p).noisy_circuit(c)) for c in circuits]
    for k in rng.choices(range(3), k=6):
        kw = {}
        if rng.random() < .3:
            # a larger system must not influence later calls
            m.noisy_circuit(circuits[k], qs=set(range(circuits[k].num_qubits + 3)))
        mon.eq(str(m.noisy_circuit(circuits[k])), first[k], f"{name} noise applied again", name="noise_repeats")
    mon.eq([str(c) for c in circuits], texts, "ideal circuits after adding noise")
    # decoding: predictions depend on the shot only, inputs stay untouched
    lay = make_layout(dict(w=2 * rng.randint(1, 2), h=6, n=rng.choice([3, 6, 9]), style=rng.choice(STYLES), obs=rng.choice(OBS), noise=.01))
    c = lay.make_circuit()
    t0 = str(c)
    det, obs = c.compile_detector_sampler(seed=rng.getrandbits(30)).sample(40, separate_observables=True)
    snap = det.copy()
    a = decoding.decode_using_pymatching(circuit=c, det_samples=det, use_correlated_decoding=False)
    perm = np.array(rng.sample(range(40), 40))
    # a different problem in between
    c2 = make_layout(dict(w=2, h=6, n=6, style="SD6", obs="H", noise=.02)).make_circuit()
    d2 = c2.compile_detector_sampler(seed=1).sample(5)
    decoding.decode_using_pymatching(circuit=c2, det_samples=d2, use_correlated_decoding=False)
    b = decoding.decode_using_pymatching(circuit=c, det_samples=det[perm], use_correlated_decoding=False)
    mon.check(np.array_equal(np.asarray(a)[perm], np.asarray(b)), "predictions depend on the order of the shots", "decode_repeats")
    mon.check(np.array_equal(det, snap) and str(c) == t0, "decoding changed its inputs")
    mon.seen(t0, name, p, texts[0])


def threads(rng, mon):
    """Noise insertion, model rendering and decoding in several threads at once give what they give alone."""
    from vlib.noiseref import random_circuit, repo_model, model
    from decoding import decode_using_pymatching, detector_error_model_to_nx_graph
    n = 8
    text = f"X_ERROR(0.1) {' '.join(map(str, range(n)))}\nM {' '.join(map(str, range(n)))}\n" + "".join(f"DETECTOR rec[{k - n}]\nOBSERVABLE_INCLUDE({k}) rec[{k - n}]\n" for k in range(n))
    flat = stim.Circuit(text)
    lay = make_layout(dict(w=2, h=6, n=rng.choice([6, 12]), style=rng.choice(STYLES), obs=rng.choice(OBS), noise=.01))
    real = lay.make_circuit()
    det = real.compile_detector_sampler(seed=rng.getrandbits(30)).sample(200)
    want = np.asarray(decode_using_pymatching(circuit=real, det_samples=det, use_correlated_decoding=False))
    dem = real.detector_error_model(decompose_errors=True)

    def graph():
        g = detector_error_model_to_nx_graph(dem)
        return sorted((a, b, d["error_probability"], sorted(d["qubit_id"])) for a, b, d in g.edges(data=True))
    edges = graph()
    name = rng.choice(["SD6", "PC3", "EM3_v1", "EM3_v2", "SI1000"])
    m = repo_model(name, .01)
    ideal = random_circuit(rng, set(model(name, .01).gates))
    noisy = str(m.noisy_circuit(ideal))
    bad, errors = [], []

    def work(seed):
        r = np.random.default_rng(seed)
        try:
            s = r.random((3000, n)) < .5
            if not np.array_equal(np.asarray(decode_using_pymatching(circuit=flat, det_samples=s, use_correlated_decoding=False)), s):
                bad.append("independent bits decoded concurrently")
            k = r.permutation(len(det))
            if not np.array_equal(np.asarray(decode_using_pymatching(circuit=real, det_samples=det[k], use_correlated_decoding=False)), want[k]):
                bad.append("a honeycomb experiment decoded concurrently")
            if graph() != edges:
                bad.append("a matching graph made concurrently")
            for _ in range(3):
                if str(m.noisy_circuit(ideal)) != noisy:
                    bad.append("noise added concurrently")
            mon.count("concurrent_results", 6)
        except Exception as ex:
            errors.append(ex)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(rng.getrandbits(30),)) for _ in range(6)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if errors:
        raise Violation(f"concurrent decoding raised {type(errors[0]).__name__}: {errors[0]}")
    mon.check(not bad, lambda: f"{bad[0]} differs from alone")
    mon.seen(text, noisy, str(real))
