"""C12: the matching graph is a faithful rendering of the error model."""
import math
import random

import numpy as np
import stim

from vlib.core import Violation, must_raise
from vlib.gen import STYLES, layout_cases, make_layout

ID = "C12"
LEVEL = "exploration"
RULE = ("Random detector error models (nested repeats, shifts of ids and coordinates, decomposed errors, parallel edges, "
        "conflicting frames, zero-probability and undetectable errors) and models of honeycomb circuits; every edge, weight, "
        "probability, frame change, boundary edge and coordinate of the graph is compared with an independent flattening. "
        "Non-trivial: at least one edge; distinct by model text.")
ASSUMPTIONS = ["stim's flattened() and get_detector_coordinates() are trusted; probabilities are in (0, 1)."]
REQUIRED = ["edges_compared", "coords_compared", "merged_edges", "conflicting_edges", "boundary_edges", "refusals_observed",
            "pymatching_graphs", "long_repeats"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 12)
    q = tier == "quick"
    out = [dict(kind="random", seed=rng.getrandbits(48)) for _ in range(3000 if q else 40000)]
    out += [dict(kind="random", wide=True, seed=rng.getrandbits(48)) for _ in range(150 if q else 3000)]
    out += [dict(kind="random", long=True, seed=rng.getrandbits(48)) for _ in range(40 if q else 800)]
    out += [dict(kind="refuse", seed=rng.getrandbits(48)) for _ in range(60)]
    for c in layout_cases(rng, 60 if q else 600, max_cells=2000, rounds=lambda r: r.choice([r.randint(1, 15), r.randint(1, 60)])):
        out.append(dict(c, kind="layout"))
    rng.shuffle(out)
    return out


def random_model(rng, three=False, wide=False, long=False):
    n = rng.randint(1, 8)
    obs = rng.randint(0, 4)
    likely = rng.random() < .25
    most = rng.choice([3, 3, 3, 4, 9, 15, 40])
    if wide:
        n, obs = rng.choice([30, 70, 300, 2000]), rng.choice([4, 33, 70, 130])

    def prob():
        r = rng.random()
        if r < .06:
            return 0.0
        if likely and r < .25:
            return rng.choice([.6, .9, .999, 1 - 1e-9, rng.uniform(.5, .99)])
        if r < .3:
            return rng.choice([0.1, 0.01, 0.001, 0.25, 0.5])
        if r < .38:
            return 10 ** rng.uniform(-rng.choice([12, 20, 60, 300]), -7)
        return 10 ** rng.uniform(-7, -0.31)

    def component():
        k = rng.choices([0, 1, 2], [.06, .3, .64])[0]
        if three and rng.random() < .3:
            k = 3
        k = min(k, n)
        ts = [f"D{d}" for d in rng.sample(range(n), k)]
        if obs and rng.random() < .4:
            ts += [f"L{o}" for o in rng.sample(range(obs), rng.randint(1, min(rng.choice([2, 2, 6]), obs)))]
        rng.shuffle(ts)
        return " ".join(ts)

    loops = []

    def block(depth):
        lines = []
        for _ in range(rng.randint(1, 6) if not wide else rng.randint(3, 60)):
            r = rng.random()
            if depth and r < (.6 if long and not loops else .2 if not wide else .02):
                lines.append(f"repeat {rng.choice([1, 2, 3, 4, 4, 4, 25]) if not long or loops else rng.choice([257, 1001, 1025, 4097, 5000, 10007])} {{")
                loops.append(1)
                lines += block(depth - 1)
                lines.append("}")
            elif r < .35:
                co = ",".join(str(rng.choice([0, 1, 0.5, -2, 0.0009765625, 65536])) for _ in range(rng.randint(0, most)))
                lines.append(f"shift_detectors{'(' + co + ')' if co else ''} {rng.randint(0, 4)}")
            elif r < .5:
                co = ",".join(str(rng.choice([0, 1, 2.5, 7, 16777217, 2 ** 30 + 0.5, 0.0029296875, -3.125])) for _ in range(rng.randint(1, most + 1)))
                lines.append((f"detector({co}) " if rng.random() > .1 else "detector ") + f"D{rng.randint(0, n - 1)}")
            elif r < .55 and obs:
                lines.append(f"logical_observable L{rng.randrange(obs)}")
            else:
                comps = [component() for _ in range(rng.choice([1, 1, 1, 2, 3]))]
                comps = [c for c in comps if c]
                if comps:
                    lines.append(f"error({prob()!r}) " + " ^ ".join(comps))
        return lines

    return stim.DetectorErrorModel("\n".join(block(2)))


def expected_graph(model, mon):
    """{frozenset of detectors: [probability, frames, rounding allowance]} with first-kept conflict rule; built from the flattened model."""
    edges = {}
    for inst in model.flattened():
        if inst.type != "error":
            continue
        p = inst.args_copy()[0]
        comps = [[]]
        for t in inst.targets_copy():
            if t.is_separator():
                comps.append([])
            else:
                comps[-1].append(t)
        for comp in comps:
            dets = frozenset(t.val for t in comp if t.is_relative_detector_id())
            obs = frozenset(t.val for t in comp if t.is_logical_observable_id())
            if p == 0 or not dets:
                continue
            if len(dets) > 2:
                raise ValueError("hyper")
            if dets not in edges:
                edges[dets] = [p, obs, 0.0]
            elif edges[dets][1] == obs:
                q = edges[dets][0]
                edges[dets][0] = p * (1 - q) + q * (1 - p)
                # What any correct way of writing this formula may lose to rounding.
                edges[dets][2] += 1e-15 * max(p, q)
                mon.count("merged_edges")
            else:
                mon.count("conflicting_edges")
    return edges


def compare_graph(model, g, mon):
    """Matches a networkx graph with the error model; returns the expected edges."""
    want = expected_graph(model, mon)
    boundary = model.num_detectors
    mon.check(g.has_node(boundary) and g.nodes[boundary].get("is_boundary"), "there is no boundary node after the detectors")
    got = {}
    for a, b, d in g.edges(data=True):
        k = frozenset(x for x in (a, b) if x != boundary)
        got[k] = (d["error_probability"], frozenset(d["qubit_id"]), d["weight"])
    mon.check(set(got) == set(want), lambda: f"edges missing {sorted(map(sorted, set(want) - set(got)))[:4]}, extra {sorted(map(sorted, set(got) - set(want)))[:4]}")
    for k, (p, obs, slack) in want.items():
        gp, go, gw = got[k]
        mon.close(gp, p, f"probability of edge {sorted(k)}", rtol=1e-9, atol=slack)
        mon.eq(go, obs, f"observables flipped by edge {sorted(k)}")
        mon.close(gw, math.log((1 - p) / p), f"weight of edge {sorted(k)}", rtol=1e-7, atol=1e-9 + slack / (p * (1 - p)))
        mon.count("edges_compared")
        if len(k) == 1:
            mon.count("boundary_edges")
    nodes = set(g.nodes)
    mon.check(all(isinstance(v, (int, np.integer)) and 0 <= v <= boundary for v in nodes), lambda: f"unexpected nodes {sorted(nodes)}")
    annotated = {}
    for inst in model.flattened():
        if inst.type == "detector":
            for t in inst.targets_copy():
                annotated[t.val] = tuple(inst.args_copy())
    for d, xyz in annotated.items():
        mon.check(d in nodes, lambda: f"detector {d} is not in the graph")
        if not xyz:
            continue
        c = g.nodes[d].get("coords")
        mon.check(c is not None and tuple(float(v) for v in c) == tuple(map(float, xyz)), lambda: f"coordinates of detector {d}: {c}, expected {xyz}")
        mon.count("coords_compared")
    return want


def compare(model, mon):
    from decoding import detector_error_model_to_nx_graph, detector_error_model_to_pymatching_graph
    before = str(model)
    g = detector_error_model_to_nx_graph(model)
    mon.eq(str(model), before, "the model given")
    want = compare_graph(model, g, mon)
    boundary = model.num_detectors
    m = detector_error_model_to_pymatching_graph(model)
    mon.eq(m.num_fault_ids, model.num_observables, "observables predicted by the matching graph")
    mon.check(m.num_detectors >= model.num_detectors, "matching graph lacks detectors")
    mon.count("pymatching_graphs")
    bset = set(m.boundary) | {boundary, boundary + 1}
    mg = {}
    for a, b, d in m.edges():
        k = frozenset(x for x in (a, b) if x is not None and x not in bset)
        if d["weight"] > 1e6:
            continue
        mg[k] = (frozenset(d["fault_ids"]), d["weight"])
    for k, (p, obs, slack) in want.items():
        mon.check(k in mg, lambda: f"matching graph lacks edge {sorted(k)}")
        mon.eq(mg[k][0], obs, f"fault ids of matching edge {sorted(k)}")
        mon.close(mg[k][1], math.log((1 - p) / p), f"weight of matching edge {sorted(k)}", rtol=1e-5, atol=1e-6 + slack / (p * (1 - p)))
    mon.check(set(mg) <= set(want), "matching graph has edges with no error behind them")
    return len(want)


def run_case(case, mon):
    from decoding import detector_error_model_to_nx_graph
    if case["kind"] == "layout":
        model = make_layout(case).make_circuit().detector_error_model(decompose_errors=True)
        compare(model, mon)
        mon.seen(case)
        return
    rng = random.Random(case["seed"])
    if case["kind"] == "refuse":
        while True:
            model = random_model(rng, three=True)
            try:
                expected_graph(model, type(mon)())
            except ValueError:
                break
        with must_raise(mon, "an error with three symptoms"):
            detector_error_model_to_nx_graph(model)
        return
    model = random_model(rng, wide=case.get("wide", False), long=case.get("long", False))
    if case.get("long"):
        while sum(1 for i in model if i.type == "repeat") == 0 or model.num_errors > 60000 or len(model.flattened()) > 200000:
            model = random_model(rng, long=True)
        mon.count("long_repeats")
    if compare(model, mon):
        mon.seen(str(model))
