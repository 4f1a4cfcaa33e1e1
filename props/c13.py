"""C13: matching predictions are minimum weight explanations of each shot's symptoms, for every observable."""
import heapq
import math
import random

import numpy as np
import stim

from vlib.core import Violation, must_raise
from vlib.gen import STYLES, OBS, make_layout
from props.c12 import expected_graph

ID = "C13"
LEVEL = "exploration"
RULE = ("Random small error graphs (1..8 detectors, 0..4 observables, some absent from the graph, parallel and boundary edges) "
        "as circuits; all reachable symptom patterns are decoded and compared with exhaustive minimum-weight search; batch "
        "composition is varied. Non-trivial: at least two symptom patterns decoded; distinct by circuit.")
ASSUMPTIONS = ["Weights are discretised by the matching library: predictions whose best explanation is within a 2e-3 relative "
               "weight of the optimum are accepted."]
REQUIRED = ["shots_decoded", "multi_observable_shots", "nontrivial_corrections", "refusals_observed", "honeycomb_shots", "likely_error_graphs",
            "union_parts_decoded", "shots_sharing_a_stretch", "shots_in_other_layouts", "bare_circuits"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 13)
    q = tier == "quick"
    out = [dict(kind="random", seed=rng.getrandbits(48)) for _ in range(1500 if q else 20000)]
    for style in STYLES:
        for obs in OBS:
            for k in range(3 if q else 20):
                out.append(dict(kind="honeycomb", w=2 if k % 2 else 4, h=6, n=3 * rng.randint(1, 5), style=style, obs=obs, noise=rng.choice([.0005, .002, .005]),
                                seed=rng.getrandbits(40)))
    out += [dict(kind="refuse", seed=k) for k in range(4)]
    out += [dict(kind="bare", seed=rng.getrandbits(48)) for _ in range(40 if q else 400)]
    sizes = [(10, 40), (33, 300), (40, 400), (66, 500), (70, 700), (130, 900), (260, 1100), (10 ** 9, 1500), (10 ** 9, 5000)]
    out += [dict(kind="union", obs=o, dets=d, shots=rng.choice([3, 20]), seed=rng.getrandbits(48)) for o, d in sizes * (3 if q else 30)]
    out += [dict(kind="union", obs=3, dets=12, shots=k, seed=rng.getrandbits(48)) for k in ([300, 2100] if q else [300, 5000, 40000, 140000] * 3)]
    out += [dict(kind="union", obs=8, dets=30, shots=k, seed=rng.getrandbits(48)) for k in ([1030, 2100, 2100, 4100, 4100, 9000] if q else [1030, 2100, 4100, 9000, 33000, 66000] * 3)]
    rng.shuffle(out)
    return out


def relaid(shots, rng, mon):
    """The same shots in another memory layout, and possibly read-only."""
    how = rng.choice(["plain", "plain", "columns", "strided", "backwards", "slice", "readonly"])
    out = shots
    if how == "columns":
        out = np.asfortranarray(shots)
    elif how == "strided":
        big = np.ones((2 * shots.shape[0], 3 * shots.shape[1]), dtype=bool)
        out = big[::2, ::3]
    elif how == "backwards":
        out = shots[::-1, ::-1].copy()[::-1, ::-1]
    elif how == "slice":
        big = np.ones((shots.shape[0], shots.shape[1] + 5), dtype=bool)
        out = big[:, 2:-3]
    if how in ("strided", "slice"):
        out[...] = shots
    if how == "readonly":
        out = shots.copy()
        out.flags.writeable = False
    if how != "plain":
        mon.count("shots_in_other_layouts", len(shots))
    return out


def random_graph_circuit(rng, likely=False):
    piece = random_graph(rng, likely)
    return circuit_of([piece], rng), piece[1], piece[2]


def circuit_of(pieces, rng):
    """A circuit whose error model is the disjoint union of the given error graphs."""
    n, obs = sum(p[1] for p in pieces), sum(p[2] for p in pieces)
    lines = []
    dn = do = 0
    for errors, pn, po in pieces:
        for p, dets, flips in errors:
            lines.append(f"E({p!r}) " + " ".join(f"X{t}" for t in [d + dn for d in dets] + [n + do + o for o in flips]))
        dn += pn
        do += po
    if len(pieces) > 1:
        rng.shuffle(lines)
    lines.append("M " + " ".join(map(str, range(n + obs))))
    for d in range(n):
        lines.append(f"DETECTOR rec[{d - n - obs}]")
    order = list(range(obs))
    rng.shuffle(order)
    for o in order:
        lines.append(f"OBSERVABLE_INCLUDE({o}) rec[{o - obs}]")
    return stim.Circuit("\n".join(lines))


def random_graph(rng, likely=False):
    n = rng.randint(1, 8)
    obs = rng.randint(0, 4)
    live = [o for o in range(obs) if rng.random() < .75]  # observables some error flips
    errors = []
    for _ in range(rng.randint(1, 3 * n + 2)):
        k = 1 if n == 1 or rng.random() < .35 else 2
        dets = rng.sample(range(n), k)
        flips = rng.sample(live, rng.randint(1, len(live))) if live and rng.random() < .5 else []
        p = 10 ** rng.uniform(-5, -0.4)
        if likely and rng.random() < .4:
            p = rng.choice([.9, .99, .6, rng.uniform(.51, .95)])
        errors.append((p, dets, flips))
    return errors, n, obs


def all_costs(edges, n):
    """Dijkstra over (symptoms, frame): cheapest explanation of every reachable state."""
    ops = []
    s0, f0, c0 = 0, 0, 0.0
    for dets, (p, frames, *_) in edges.items():
        s = sum(1 << d for d in dets)
        f = sum(1 << o for o in frames)
        w = math.log((1 - p) / p)
        if w < 0:
            # An error that is more likely than not: start from it having happened, and pay for it not happening.
            s0, f0, c0, w = s0 ^ s, f0 ^ f, c0 + w, -w
        ops.append((s, f, w))
    best = {(s0, f0): c0}
    heap = [(c0, s0, f0)]
    while heap:
        c, s, f = heapq.heappop(heap)
        if best[(s, f)] < c:
            continue
        for es, ef, w in ops:
            k = (s ^ es, f ^ ef)
            if c + w < best.get(k, float("inf")) - 1e-12:
                best[k] = c + w
                heapq.heappush(heap, (c + w, *k))
    return best


def run_case(case, mon):
    from decoding import decode_using_pymatching
    rng = random.Random(case["seed"])
    if case["kind"] == "refuse":
        c, n, obs = random_graph_circuit(rng)
        z = np.zeros((2, n), dtype=bool)
        with must_raise(mon, "correlated decoding by the matching decoder"):
            decode_using_pymatching(circuit=c, det_samples=z, use_correlated_decoding=True)
        with must_raise(mon, "shots with the wrong number of detectors"):
            decode_using_pymatching(circuit=c, det_samples=np.zeros((2, n + 1), dtype=bool), use_correlated_decoding=False)
        return
    if case["kind"] == "honeycomb":
        return honeycomb(case, rng, mon)
    if case["kind"] == "union":
        return union(case, rng, mon)
    if case["kind"] == "bare":
        # No errors, no detectors, observables that are numbered with gaps.
        gap, obs, n = rng.choice([1, 2, 5]), rng.randint(0, 3), rng.choice([0, 0, 2])
        ls = [f"M {o}\nOBSERVABLE_INCLUDE({o * gap + gap - 1}) rec[-1]" for o in range(obs)] + [f"M {50 + d}\nDETECTOR rec[-1]" for d in range(n)]
        if obs and n and rng.random() < .7:
            o = rng.randrange(obs)
            ls += [f"X_ERROR(.2) 90\nM 90\nDETECTOR rec[-1]\nOBSERVABLE_INCLUDE({o * gap + gap - 1}) rec[-1]"]
            n += 1
        c = stim.Circuit("\n".join(ls or ["M 0"]))
        shots = np.zeros((rng.choice([0, 1, 4]), n), dtype=bool)
        want = np.zeros((len(shots), obs * gap), dtype=bool)
        if len(shots) and "X_ERROR" in str(c):
            shots[0, -1] = want[0, o * gap + gap - 1] = True
        got = decode_using_pymatching(circuit=c, det_samples=shots, use_correlated_decoding=False)
        mon.eq(got.astype(bool).tolist(), want.tolist(), "predictions", "bare_circuits")
        mon.eq(tuple(got.shape), want.shape, "prediction shape")
        return
    likely = rng.random() < .3
    while True:
        c, n, obs = random_graph_circuit(rng, likely)
        model = c.detector_error_model(decompose_errors=True)
        edges = expected_graph(model, type(mon)())
        if all(p < 0.499 or likely and .501 < p < .9999 for p, *_ in edges.values()):
            break
    if any(p > .5 for p, *_ in edges.values()):
        mon.count("likely_error_graphs")
    scale = sum(abs(math.log((1 - p) / p)) for p, *_ in edges.values() if p > .5)
    best = all_costs(edges, n)
    synd = sorted({s for s, _ in best})
    if len(synd) > 64:
        synd = rng.sample(synd, 64)
    rng.shuffle(synd)
    shots = np.array([[(s >> d) & 1 for d in range(n)] for s in synd], dtype=bool)
    before = shots.copy()
    shots = relaid(shots, rng, mon)
    got = decode_using_pymatching(circuit=c, det_samples=shots, use_correlated_decoding=False)
    mon.check((shots == before).all(), "decoding modified the shots it was given")
    mon.eq(tuple(got.shape), (len(synd), obs), "prediction shape")
    bits = got.astype(int)
    for k, s in enumerate(synd):
        f = sum(1 << o for o in range(obs) if bits[k, o])
        opt = min(v for (a, _), v in best.items() if a == s)
        mine = best.get((s, f))
        mon.check(mine is not None and mine <= opt + 2e-3 * (1 + abs(opt) + scale),
                  lambda: f"symptoms {bin(s)}: predicted frame {bin(f)} has cost {mine}, best explanation costs {opt}", "shots_decoded")
        if f:
            mon.count("nontrivial_corrections")
        if obs > 1:
            mon.count("multi_observable_shots")
    if len(synd) > 1:
        k = rng.randrange(len(synd))
        one = decode_using_pymatching(circuit=c, det_samples=shots[k:k + 1], use_correlated_decoding=False)
        mon.check((one[0] == got[k]).all(), "a shot decoded alone gave a different prediction than within its batch")
    none = decode_using_pymatching(circuit=c, det_samples=shots[:0], use_correlated_decoding=False)
    mon.eq(tuple(none.shape), (0, obs), "prediction shape for no shots")
    if len(synd) > 1:
        mon.seen(str(c))


def union(case, rng, mon):
    """Many independent error graphs in one circuit: the best explanation is the best one of each part."""
    from decoding import decode_using_pymatching
    parts = []
    while sum(p[0][2] for p in parts) < case["obs"] and sum(p[0][1] for p in parts) < case["dets"]:
        piece = random_graph(rng)
        edges = expected_graph(circuit_of([piece], rng).detector_error_model(decompose_errors=True), type(mon)())
        if any(p > .499 for p, *_ in edges.values()):
            continue
        best = all_costs(edges, piece[1])
        opt = {}
        for (s, _), c in best.items():
            opt[s] = min(c, opt.get(s, math.inf))
        parts.append((piece, best, opt))
    rng.shuffle(parts)
    c = circuit_of([p[0] for p in parts], rng)
    n, obs = sum(p[0][1] for p in parts), sum(p[0][2] for p in parts)
    shots = np.zeros((case["shots"], n), dtype=bool)
    wanted = []
    for k in range(case["shots"]):
        at = 0
        row = []
        busy = rng.choice([.05, .5, 1])
        for (errors, pn, po), best, opt in parts:
            s = rng.choice(list(opt)) if rng.random() < busy else 0
            row.append(s)
            for d in range(pn):
                shots[k, at + d] = s >> d & 1
            at += pn
        wanted.append(row)
        if k and rng.random() < .4:
            # Repeats an earlier shot except in one stretch, so shots agree on a long prefix or suffix.
            j = rng.randrange(k)
            cut = rng.randrange(len(parts) + 1)
            late = rng.random() < .7
            at = sum(p[0][1] for p in parts[:cut])
            if late:
                shots[k, :at] = shots[j, :at]
                row[:cut] = wanted[j][:cut]
            else:
                shots[k, at:] = shots[j, at:]
                row[cut:] = wanted[j][cut:]
            mon.count("shots_sharing_a_stretch")
    got = decode_using_pymatching(circuit=c, det_samples=relaid(shots, rng, mon), use_correlated_decoding=False)
    mon.eq(tuple(got.shape), (case["shots"], obs), "prediction shape")
    bits = got.astype(int)
    worst = max(v for _, best, _ in parts for v in best.values())
    for k, row in enumerate(wanted):
        at = 0
        for j, (s, ((errors, pn, po), best, opt)) in enumerate(zip(row, parts)):
            f = sum(1 << o for o in range(po) if bits[k, at + o])
            at += po
            mine = best.get((s, f))
            mon.check(mine is not None and mine <= opt[s] + 2e-3 * (1 + worst),
                      lambda: f"part {j} of {len(parts)}, shot {k}, symptoms {bin(s)}: predicted frame {bin(f)} has cost {mine}, best "
                              f"explanation costs {opt[s]}", "union_parts_decoded")
            if f:
                mon.count("nontrivial_corrections")
    mon.count("union_observables", obs)
    mon.count("union_detectors", n)
    mon.seen(str(c))


def honeycomb(case, rng, mon):
    """Predictions on sampled honeycomb shots are exact minimum weight explanations (pairing DP on the parity-doubled graph)."""
    from scipy.sparse import coo_matrix
    from scipy.sparse.csgraph import dijkstra
    from decoding import decode_using_pymatching
    c = make_layout(case).make_circuit()
    dem = c.detector_error_model(decompose_errors=True)
    edges = expected_graph(dem, type(mon)())
    B, o = dem.num_detectors, dem.num_observables - 1
    best = {}
    for dets, (p, frames, *_) in edges.items():
        a, b = (*dets, B)[:2] if len(dets) == 1 else tuple(dets)
        best[(min(a, b), max(a, b))] = (math.log((1 - p) / p), int(o in frames))
    rows, cols, vals = [], [], []
    for (a, b), (w, f) in best.items():
        for par in (0, 1):
            for x, y in ((a, b), (b, a)):
                rows.append(2 * x + par)
                cols.append(2 * y + (par ^ f))
                vals.append(w)
    g = coo_matrix((vals, (rows, cols)), shape=(2 * B + 2, 2 * B + 2)).tocsr()
    s, _ = c.compile_detector_sampler(seed=rng.getrandbits(32)).sample(400, separate_observables=True)
    keep = [k for k in range(len(s)) if s[k].sum() <= 10][:150]
    if not keep:
        return
    s = s[keep]
    got = decode_using_pymatching(circuit=c, det_samples=s, use_correlated_decoding=False)
    for k in range(len(s)):
        defects = np.flatnonzero(s[k]).tolist()
        m = len(defects)
        dist = dijkstra(g, indices=[2 * d for d in defects]) if m else np.zeros((0, 0))
        cost = {0: (0.0, math.inf)}
        for mask in range(1, 1 << m):
            low = (mask & -mask).bit_length() - 1
            rest = mask ^ (1 << low)
            r0, r1 = math.inf, math.inf
            options = [(rest, dist[low, 2 * B], dist[low, 2 * B + 1])]
            for j in range(low + 1, m):
                if rest >> j & 1:
                    options.append((rest ^ (1 << j), dist[low, 2 * defects[j]], dist[low, 2 * defects[j] + 1]))
            for sub, d0, d1 in options:
                c0, c1 = cost.get(sub, (math.inf, math.inf))
                r0 = min(r0, c0 + d0, c1 + d1)
                r1 = min(r1, c0 + d1, c1 + d0)
            cost[mask] = (r0, r1)
        both = cost[(1 << m) - 1]
        opt = min(both)
        mon.check(not got[k, :o].any(), "predicted a flip of an observable no error can flip")
        mine = both[int(got[k, o])]
        mon.check(mine <= opt + 2e-3 * (1 + opt), lambda: f"{m} symptoms {defects}: prediction costs {mine}, best explanation costs {opt}",
                  "honeycomb_shots")
    mon.seen(case)
