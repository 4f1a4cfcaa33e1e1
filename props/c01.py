"""C01: every supported grid size yields a valid three-coloured honeycomb torus."""
import random

from vlib.core import must_raise
from vlib.gen import STYLES, OBS, make_layout
from vlib.ref import RefHoneycomb

ID = "C01"
LEVEL = "exploration"
RULE = ("Every even width 2..W and every height 6..H (multiple of 6), crossed with styles/observables cyclically, plus "
        "unsupported sizes. A case is non-trivial when the torus built from it was walked completely; distinct by "
        "(width, height, style family).")
ASSUMPTIONS = ["The adjacency conventions (coordinates) are the ones annotated in emitted circuits."]
REQUIRED = ["edges_walked", "hexes_walked", "refusals_observed"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 1)
    wmax, hmax = (44, 60) if tier == "quick" else (96, 120)
    out = []
    k = 0
    for w in range(2, wmax + 1, 2):
        for h in range(6, hmax + 1, 6):
            out.append(dict(kind="size", w=w, h=h, n=rng.randint(1, 60), style=STYLES[k % 5], obs=OBS[(k // 5) % 2],
                            noise=0.001))
            k += 1
    for w, h in [(2, 240), (200, 6), (100, 90), (128, 66)]:
        for style in STYLES:
            out.append(dict(kind="size", w=w, h=h, n=3, style=style, obs="V", noise=0.001))
    sizes = [(rng.randrange(130, 320, 2), 6), (2, 6 * rng.randint(45, 110)), (520, 6), (6 * rng.randint(9, 20), 6 * rng.randint(12, 18)),
             (rng.randrange(46, 130, 2), 6 * rng.randint(1, 5)), (rng.randrange(4, 16, 2), 6 * rng.randint(11, 40))]
    for w, h in sizes if tier == "quick" else [(2 * rng.randint(1, 260), 6 * rng.randint(1, 14)) for _ in range(40)] + sizes:
        out.append(dict(kind="size", w=w, h=h, n=3, style=rng.choice(STYLES), obs=rng.choice(OBS), noise=0.001))
    for w in range(1, 60):
        for h in range(1, 60):
            if (w % 2 or h % 6) and rng.random() < (0.15 if tier == "quick" else 1):
                out.append(dict(kind="bad", w=w, h=h, n=6, style=STYLES[k % 5], obs=OBS[k % 2], noise=0.001))
                k += 1
    for w, h in [(0, 6), (2, 0), (0, 0), (-2, 6), (2, -6), (-2, -6), (-4, 12), (0, -6), (-2, 0), (-rng.randint(1, 40) * 2, 12),
                 (6, -6 * rng.randint(1, 20)), (-3, 6), (2, -5), (2.5, 6), (4, 7.5), (4, 6.5), (3.5, 12), (7.0, 12), (8, 15.0)]:
        for style in STYLES:
            out.append(dict(kind="bad", w=w, h=h, n=6, style=style, obs=OBS[k % 2], noise=0.001))
            k += 1
    for _ in range(60):
        w, h = rng.randint(60, 10 ** rng.randint(2, 9)), rng.randint(60, 10 ** rng.randint(2, 9))
        if w % 2 or h % 6:
            out.append(dict(kind="bad", w=w, h=h, n=6, style=STYLES[k % 5], obs=OBS[k % 2], noise=0.001))
            k += 1
    rng.shuffle(out)
    return out


def pt(c):
    return c.real, c.imag


def run_case(case, mon):
    if case["kind"] == "bad":
        with must_raise(mon, f"size {case['w']}x{case['h']}", NotImplementedError, ValueError, AssertionError):
            make_layout(case)
        return
    lay = make_layout(case)
    w, h = case["w"], case["h"]
    ref = RefHoneycomb(w, h)
    mon.count("layouts")

    # Qubits.
    data = [pt(q) for q in lay.data_qubit_coords]
    mon.eq(len(data), w * h, "number of data qubits")
    mon.eq(len(set(data)), w * h, "distinct data qubits")
    mon.eq(set(data), {(float(a), float(b)) for a, b in ref.data}, "data qubit positions")
    meas = [pt(q) for q in lay.measure_qubit_coords]
    mon.eq(len(meas), w * h * 3 // 2, "number of edge qubits")
    mon.eq(set(meas), set(ref.edges), "edge qubit positions")
    q2i = lay.q2i
    mon.eq(len(q2i), w * h * 5 // 2, "number of indexed qubits")
    mon.eq(sorted(q2i.values()), list(range(len(q2i))), "qubit indices gap-free")
    mon.eq({pt(q) for q in q2i}, set(data) | set(meas), "indexed positions")
    mon.eq([q2i[q] for q in lay.data_qubit_coords], list(lay.data_qubit_indices), "data indices")
    mon.eq([q2i[q] for q in lay.measure_qubit_coords], list(lay.measure_qubit_indices), "edge qubit indices")
    used = list(lay.used_qubit_coords)
    mon.eq({pt(q) for q in used}, set(data) if case["style"].startswith("EM3") else set(data) | set(meas),
           "positions used by the style")
    mon.eq(len(used), len(set(used)), "used positions distinct")
    mon.eq([q2i[q] for q in used], list(lay.used_qubit_indices), "used indices")
    mon.eq(lay.num_qubits, len(used), "reported qubit count")
    mon.eq(lay.coord_width, float(ref.cw), "torus circumference x")
    mon.eq(lay.coord_height, float(ref.ch), "torus circumference y")
    a, b = set(lay.data_qubit_indices_1st), set(lay.data_qubit_indices_2nd)
    mon.check(not (a & b) and (a | b) == set(lay.data_qubit_indices), "the two interleaving classes must partition the "
                                                                      "data qubits")
    mon.eq((len(lay.data_qubit_indices_1st), len(lay.data_qubit_indices_2nd)), (len(a), len(b)), "class sizes")
    some = random.Random(w * 1000 + h).sample(range(len(q2i)), min(5, len(q2i)))
    mon.eq(list(lay.qubit_indices_except(some)), [i for i in range(len(q2i)) if i not in some], "complement of indices")

    # Edges.
    seen_edges = {}
    degree = {}
    for r in range(3):
        edges = lay.round_edges(r)
        mon.eq(len(edges), w * h // 2, f"edges of colour {r}")
        for far in (3 * case["n"], 3 * 10 ** 12, 3 * (10 ** 17 + case["n"])):
            mon.check(lay.round_edges(r + far) == edges, "edges must repeat with period three")
        touched = set()
        for e in edges:
            c = pt(e.center)
            mon.count("edges_walked")
            info = ref.edges.get(c)
            mon.check(info is not None and info[0] == r, lambda: f"edge centre {c} measured in colour {r}, reference {info}")
            ends = {pt(e.left), pt(e.right)}
            mon.eq(ends, {(float(x), float(y)) for x, y in info[1:]}, f"ends of edge {c}")
            mon.check(q2i[e.left] in a and q2i[e.right] in b,
                      lambda: f"edge {c}: ends {ends} not in first/second interleaving class")
            mon.check(c not in seen_edges, lambda: f"edge {c} appears twice")
            seen_edges[c] = e
            mon.check(not (ends & touched), lambda: f"edges of colour {r} overlap at {ends & touched}")
            touched |= ends
            for q in ends:
                degree.setdefault(q, []).append(r)
        mon.eq(touched, set(data), f"colour {r} edges cover the data qubits")
    mon.eq(set(seen_edges), set(ref.edges), "edge set")
    mon.check(all(sorted(v) == [0, 1, 2] for v in degree.values()), "every data qubit needs one edge of each colour")
    mon.eq(sorted(map(str, lay.all_edges)), sorted(str(e) for e in seen_edges.values()), "all edges")

    # Hexes.
    hexes = {}
    around = {}
    edge_use = {}
    for r in range(3):
        centers = lay.round_hex_centers(r)
        mon.eq({pt(p) for p in centers}, {(float(x), float(y)) for x, y in ref.hexes_by_colour[r]}, f"hexes of colour {r}")
        mon.eq(len(centers), len(set(centers)), "distinct hexes")
        for p in centers:
            mon.count("hexes_walked")
            hexes[p] = r
            key = (int(p.real), int(p.imag))
            qs = [pt(q) for q in lay.qubits_around_hex(p)]
            mon.check(len(set(qs)) == len(qs) == 6, lambda: f"hex {p} has data qubits {qs}")
            mon.eq(set(qs), {(float(x), float(y)) for x, y in ref.hex_qubits(key)}, f"qubits around hex {p}")
            for q in qs:
                around.setdefault(q, []).append(r)
            first, second = lay.first_edges_around_hex(p), lay.second_edges_around_hex(p)
            mon.eq({pt(e.center) for e in first}, set(ref.boundary_edges(key, r + 1)), f"first edges around hex {p}")
            mon.eq({pt(e.center) for e in second}, set(ref.boundary_edges(key, r + 2)), f"second edges around hex {p}")
            mon.eq((len(first), len(second)), (3, 3), "boundary edges per colour")
            for e in tuple(first) + tuple(second):
                mon.check(seen_edges.get(pt(e.center)) == e and hash(seen_edges[pt(e.center)]) == hash(e),
                          lambda: f"boundary edge {e} of hex {p} is not one of the measured edges")
                edge_use[pt(e.center)] = edge_use.get(pt(e.center), 0) + 1
            mon.eq(set(lay.all_edges_around_hex(p)), set(first) | set(second), "all edges around hex")
    mon.eq(len(hexes), w * h // 2, "number of hexes")
    mon.check(all(sorted(v) == [0, 1, 2] for v in around.values()) and len(around) == w * h,
              "every data qubit must touch one hex of each colour")
    mon.check(all(v == 2 for v in edge_use.values()) and len(edge_use) == len(ref.edges),
              "every edge must border exactly two hexes")
    # Euler characteristic of the torus.
    mon.eq(w * h - len(seen_edges) + len(hexes), 0, "Euler characteristic")
    # Wrapping.
    rng = random.Random(w * 31 + h)
    for _ in range(5):
        x, y, i, j = rng.randrange(ref.cw), rng.randrange(2 * ref.ch) / 2, rng.randint(-3, 3), rng.randint(-3, 3)
        mon.eq(lay.wrap(complex(x + i * ref.cw, y + j * ref.ch)), complex(x, y), "wrap onto the torus")
    for r in range(6):
        for far in (0, 3 * case["n"], 3 * 10 ** 12, 3 * (10 ** 17 + case["n"])):
            mon.eq(lay.sub_round_edge_basis(r + far), "XYZ"[r % 3], "edge basis per sub-round")
    mon.seen(w, h, case["style"].startswith("EM3"))
