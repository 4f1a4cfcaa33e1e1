"""C02: the logical observables stay a valid logical qubit algebra through every sub-round."""
import random

from vlib.gen import STYLES, OBS, make_layout
from vlib.ref import RefHoneycomb, _pauli_mul

ID = "C02"
LEVEL = "exploration"
RULE = ("Grid sizes (all even widths x heights up to a bound) with sub-round indices 0..11 plus random large ones. "
        "Non-trivial: the operators of both observables at that sub-round were formed and their commutation with every "
        "check evaluated; distinct by (width, height, sub-round mod 6).")
ASSUMPTIONS = ["Operators are compared up to sign."]
REQUIRED = ["commutation_checks", "transition_checks"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 2)
    wmax, hmax = (28, 36) if tier == "quick" else (60, 78)
    out = []
    k = 0
    for w in range(2, wmax + 1, 2):
        for h in range(6, hmax + 1, 6):
            out.append(dict(w=w, h=h, n=rng.randint(1, 40), style=STYLES[k % 5], obs=OBS[(k // 5) % 2], noise=0.001,
                            seed=rng.randrange(10**9)))
            k += 1
    for w, h in [(2, 120), (80, 6), (60, 60), (152, 6), (310, 6), (2, 312), (4, 624)] + [(2 * rng.randint(70, 260), 6), (2, 6 * rng.randint(20, 90))]:
        out.append(dict(w=w, h=h, n=9, style="SD6", obs="H", noise=0.001, seed=rng.randrange(10**9)))
    rng.shuffle(out)
    return out


def pt(c):
    return c.real, c.imag


def anti(a, b):
    """True iff two operators {q: 1..3} anticommute."""
    if len(a) > len(b):
        a, b = b, a
    return sum(1 for q, p in a.items() if q in b and b[q] != p) % 2 == 1


def run_case(case, mon):
    lay = make_layout(case)
    ref = RefHoneycomb(case["w"], case["h"])
    rng = random.Random(case["seed"])
    rounds = list(range(12)) + [rng.randrange(12, 10**6) for _ in range(4)] + [case["n"]] + [rng.randrange(10**6, 10**rng.choice([9, 13, 18, 25])) for _ in range(2)]
    edges = {}
    for r in range(3):
        edges[r] = [(pt(e.center), {pt(e.left): r + 1, pt(e.right): r + 1}) for e in lay.round_edges(r)]
    hexes = [{pt(q): r + 1 for q in lay.qubits_around_hex(p)} for r in range(3) for p in lay.round_hex_centers(r)]
    paths = {"H": {pt(e.center) for e in lay.obs_h_edges}, "V": {pt(e.center) for e in lay.obs_v_edges}}
    for o in OBS:
        mon.eq(paths[o], set(ref.obs_edges(o)), f"path edges of observable {o}")

    def op(o, r):
        kind, qs = lay.obs_h_before_sub_round(r) if o == "H" else lay.obs_v_before_sub_round(r)
        qs = [pt(q) for q in qs]
        mon.check(len(set(qs)) == len(qs) and qs, lambda: f"observable {o} at {r} has support {qs}")
        mon.check(kind in "XYZ" and len(kind) == 1, lambda: f"observable {o} at {r} has basis {kind!r}")
        return {q: "_XYZ".index(kind) for q in qs}

    for r in rounds:
        ops = {}
        for o in OBS:
            cur, nxt = op(o, r), op(o, r + 1)
            ops[o] = cur
            kind, support = ref.obs_op(o, r)
            mon.eq((set(cur.values()), set(cur)),
                   ({"_XYZ".index(kind)}, {(float(x), float(y)) for x, y in support}),
                   f"observable {o} before sub-round {r}")
            for c, e in edges[r % 3]:
                mon.check(not anti(cur, e), lambda: f"observable {o} before sub-round {r} anticommutes with measured edge {c}",
                          "commutation_checks")
            for c, e in edges[(r - 1) % 3]:
                mon.check(not anti(cur, e), lambda: f"observable {o} before sub-round {r} anticommutes with the edge {c} "
                                                    f"just measured", "commutation_checks")
            for s in hexes:
                mon.check(not anti(cur, s), lambda: f"observable {o} before sub-round {r} anticommutes with stabilizer {s}",
                          "commutation_checks")
            prod = dict(cur)
            for c, e in edges[r % 3]:
                if c in paths[o]:
                    for q, p in e.items():
                        prod[q] = _pauli_mul(prod.get(q, 0), p)
            prod = {q: p for q, p in prod.items() if p}
            mon.check(prod == nxt, lambda: f"observable {o}: sub-round {r} operator times measured path edges != "
                                           f"sub-round {r + 1} operator", "transition_checks")
            later = op(o, r + 6)
            mon.check(later == cur, lambda: f"observable {o} must repeat with period six at {r}")
        # X1, Z1 = H, V now; X2, Z2 = H, V three sub-rounds later: two independent logical qubits.
        x1, z1, x2, z2 = ops["H"], ops["V"], op("H", r + 3), op("V", r + 3)
        for name, a, b, want in [("X1Z1", x1, z1, True), ("X2Z2", x2, z2, True), ("X1X2", x1, x2, False),
                                 ("X1Z2", x1, z2, False), ("Z1X2", z1, x2, False), ("Z1Z2", z1, z2, False)]:
            mon.check(anti(a, b) == want, lambda: f"logical algebra {name} wrong before sub-round {r}", "algebra_checks")
        kind, qs = lay.obs_before_sub_round(r)
        mon.eq(({pt(q) for q in qs}, kind), (set(ops[case["obs"]]), "_XYZ"[set(ops[case["obs"]].values()).pop()]),
               "selected observable")
        mon.seen(case["w"], case["h"], r % 6)
    mon.eq({pt(e.center) for e in lay.obs_edges}, paths[case["obs"]], "selected observable path")
    mon.eq(lay.obs_index, {"V": 0, "H": 1}[case["obs"]], "observable index")
    mon.eq({pt(q) for q in lay.obs_qubits},
           {(float(x), float(y)) for x, y in (set().union(*(ref.obs_op(case["obs"], k)[1] for k in range(6))))},
           "selected observable qubits")
