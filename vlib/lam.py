"""Independent reference for the error-suppression (lambda / teraquop) analysis."""
import math
import random
from fractions import Fraction


def split(e, k):
    if e > .5:
        return 1 - split(1 - e, k)
    if e == .5:
        return .5
    return -math.expm1(math.log1p(-2 * e) / k) / 2


def combo(points, cells):
    """points: {distance: (errH, nH or None, errV, nV or None)} -> [(distance, rate that either observable fails per cell)]."""
    out = []
    for d in sorted(points):
        h, v = points[d]
        ph = None if h is None else Fraction(h[1], h[0]) if h[0] else Fraction(1)
        pv = None if v is None else Fraction(v[1], v[0]) if v[0] else Fraction(1)
        ph = pv if ph is None else ph
        pv = ph if pv is None else pv
        if not ph or not pv:
            continue
        a, b = split(float(ph), cells), split(float(pv), cells)
        out.append((d, a + b - a * b))
    return out


def fit(xs, ys):
    n = len(xs)
    mx = math.fsum(xs) / n
    my = math.fsum(ys) / n
    sxx = math.fsum((x - mx) ** 2 for x in xs)
    s = math.fsum((x - mx) * (y - my) for x, y in zip(xs, ys)) / sxx
    return s, my - s * mx, n, mx, sxx


def slope_range(xs, ys, cost=1):
    s, i, n, mx, sxx = fit(xs, ys)
    h = math.sqrt(cost / sxx)
    return s - h, s, s + h


def output_range(xs, ys, x, cost=1):
    s, i, n, mx, sxx = fit(xs, ys)
    h = math.sqrt(cost * (1 / n + (x - mx) ** 2 / sxx))
    y = i + s * x
    return y - h, y + h


FAMILIES = {
    "surface_SD6": "XZ", "surface_SI1000": "XZ",
    "honeycomb_SD6": "HV", "honeycomb_SI1000": "HV", "honeycomb_EM3_v2": "HV",
}


def desc(style, d, noise, obs, decoder, cells=3):
    """Descriptor in the catalogue's families: surface 2d^2-1 qubits; honeycomb d x 3d/2 data."""
    from collect_data import DecodingProblemDesc
    if style.startswith("surface"):
        w = h = d
        q = 2 * d * d - 1
    else:
        w, h = d, d * 3 // 2
        q = w * h if style.endswith("EM3_v2") else w * h * 5 // 2
    return DecodingProblemDesc(data_width=w, data_height=h, code_distance=d, num_qubits=q, rounds=cells * d, noise=noise,
                               circuit_style=style, preserved_observable=obs, decoder=decoder)


def distances(style, rng):
    pool = [3, 5, 7, 9, 11, 13, 15, 19] if style.startswith("surface") else [4, 8, 12, 16, 20]
    return sorted(rng.sample(pool, rng.randint(1, 5)))


def qubits(style, rep_q, rep_d, d):
    if style.startswith("surface"):
        return 2 * d * d - 1
    d = -(-d // 4) * 4
    return Fraction(rep_q * d * d, rep_d * rep_d)


def random_points(rng, ds, lam=None, tiny=False):
    """Random (shots, errors) for both observables with exponential suppression."""
    lam = rng.uniform(.7, 6) if lam is None else lam
    base = 10 ** rng.uniform(-2.5, -.4)
    most = 8
    if tiny:
        most, base = rng.choice([10, 12, 14]), base * 10 ** rng.uniform(-7, 0)
    pts = {}
    for d in ds:
        def one():
            n = int(10 ** rng.uniform(2, most))
            p = min(.5, base * lam ** (-d / 2) * math.exp(rng.gauss(0, .3)))
            e = round(n * p)
            r = rng.random()
            if r < .06:
                e = 0
            elif r < .1:
                e = n // 2
            elif r < .12:
                e = rng.randint(0, n)
            return n, min(n, e)
        h, v = one(), one()
        r = rng.random()
        if r < .08:
            h = None
        elif r < .16:
            v = None
        pts[d] = (h, v)
    return pts


def populate(data, style, decoder, noise, pts, cells=3):
    from collect_data import ShotData
    oh, ov = FAMILIES[style]
    for d, (h, v) in pts.items():
        if h is not None:
            data[desc(style, d, noise, oh, decoder, cells)] = ShotData(num_shots=h[0], num_correct=h[0] - h[1], total_processing_seconds=1)
        if v is not None:
            data[desc(style, d, noise, ov, decoder, cells)] = ShotData(num_shots=v[0], num_correct=v[0] - v[1], total_processing_seconds=1)


def near_int(x, tol):
    return abs(x - round(x)) < tol
