"""C05: detectors and observable annotations are exactly the protocol's checks, at the right space-time coordinates."""
import random

from vlib.core import Violation
from vlib.gen import STYLES, OBS, layout_cases, wide_and_long, make_layout, paper_layouts
from vlib.ref import RefHoneycomb, read_memory_circuit, strip_noise, expand_reference_keys, Malformed

ID = "C05"
LEVEL = "exploration"
RULE = ("Random configurations plus every rounds count 1..40 per style/observable plus paper sizes; the emitted circuit is "
        "executed symbolically (control flow unrolled) and each detector's/observable's record set is matched against the "
        "independently derived set of checks. Distinct by (style, obs, width, height, rounds); all are non-trivial (>= 1 detector).")
ASSUMPTIONS = ["Record identification relies on the qubit coordinates the circuit itself annotates."]
REQUIRED = ["detectors_matched", "observables_matched"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 5)
    q = tier == "quick"
    out = []
    for style in STYLES:
        for obs in OBS:
            for n in range(1, 41 if q else 100):
                if style == "SI1000" and n % 3:
                    continue
                w, h = rng.choice([(2, 6), (4, 6), (6, 6), (4, 12), (2, 18)])
                out.append(dict(w=w, h=h, n=n, style=style, obs=obs, noise=0.001))
    out += layout_cases(rng, 300 if q else 4000, max_cells=6000 if q else 40000,
                        rounds=lambda r: r.choice([r.randint(1, 12), r.randint(1, 50), r.randint(30, 150)]))
    out += layout_cases(rng, 24 if q else 400, max_cells=30000 if q else 60000, rounds=lambda r: r.randint(1, 30), w_max=44, h_max=66)
    for style in STYLES:
        for obs in OBS:
            for n in [199, 200, 201, 300, 301, 302]:
                if style == "SI1000" and n % 3:
                    continue
                out.append(dict(w=2, h=6, n=n, style=style, obs=obs, noise=0.001))
    out += wide_and_long(rng, 1 if q else 8)
    pl = paper_layouts()
    out += pl[:9] if q else pl
    rng.shuffle(out)
    return out


def run_case(case, mon):
    check_annotations(case, strip_noise(make_layout(case).make_circuit()), mon)
    mon.seen(case["style"], case["obs"], case["w"], case["h"], case["n"])


def check_annotations(case, c, mon):
    """Matches every detector/observable/coordinate the noiseless circuit declares against the protocol reference."""
    w, h, n, obs = case["w"], case["h"], case["n"], case["obs"]
    ref = RefHoneycomb(w, h)
    pc = case["style"] == "PC3"
    try:
        keys, dets, observables, coords, _ = read_memory_circuit(c, ref, pc)
    except Malformed as ex:
        raise Violation(str(ex))
    want_pos = {(float(x), float(y)) for x, y in ref.data}
    if not case["style"].startswith("EM3"):
        want_pos |= set(ref.edges)
    mon.eq({tuple(map(float, v)) for v in coords.values()}, want_pos, "annotated qubit positions")
    mon.eq(len(coords), len(want_pos), "annotated qubits")
    expected = {}
    for ks, xyz in ref.detectors(obs, n).items():
        expected[expand_reference_keys(ks, pc)] = xyz
    actual = {}
    for recs, xyz in dets:
        mon.check(all(0 <= i < len(keys) for i in recs), "detector refers to a measurement that does not exist")
        ks = frozenset(keys[i] for i in recs)
        mon.check(ks not in actual, lambda: f"check declared twice at {xyz}")
        mon.check(ks in expected, lambda: f"detector at {xyz} compares {sorted(map(str, ks))[:14]}, which is not a check of the "
                                          f"protocol (or not the one for that place and time)")
        mon.check(len(xyz) == 3 and tuple(xyz) == expected[ks],
                  lambda: f"detector coordinates {xyz}, expected {expected[ks]}")
        actual[ks] = xyz
        mon.count("detectors_matched")
    missing = [v for k, v in expected.items() if k not in actual]
    mon.check(not missing, lambda: f"{len(missing)} checks of the protocol have no detector, e.g. at {missing[:4]}")
    idx = {"V": 0, "H": 1}[obs]
    for k, recs in observables.items():
        if k != idx:
            mon.check(not recs, lambda: f"observable {k} has content but the experiment preserves observable {idx}")
    mon.check(idx in observables, lambda: f"observable {idx} is not declared")
    got = frozenset(keys[i] for i in observables[idx])
    want = expand_reference_keys(ref.observable(obs, n), pc)
    mon.check(got == want, lambda: f"observable records differ: missing {sorted(map(str, want - got))[:4]}, "
                                   f"extra {sorted(map(str, got - want))[:4]}")
    mon.count("observables_matched")
