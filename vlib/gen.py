"""Workload generators shared by the property modules."""
import random

STYLES = ["SD6", "PC3", "EM3", "EM3_v2", "SI1000"]
OBS = ["H", "V"]
PAPER_NOISE = [0.0001, 0.0002, 0.0003, 0.0005, 0.0007, 0.0010, 0.0015, 0.0020, 0.0030, 0.0050, 0.0070, 0.0100, 0.0150,
               0.0200, 0.0300]


def random_noise(rng):
    k = rng.random()
    if k < 0.35:
        return rng.choice(PAPER_NOISE)
    if k < 0.7:
        return 10 ** rng.uniform(-6, -1)
    if k < 0.9:
        return rng.uniform(0.0001, 0.12)
    return rng.choice([0.125, 0.05, 0.001, 1e-5])


def fit_rounds(style, n):
    n = max(1, n)
    if style == "SI1000":
        n = max(3, (n + 1) // 3 * 3)
    return n


def layout_cases(rng, count, *, max_cells, rounds, styles=STYLES, noise=None, w_max=40, h_max=60):
    """Random memory experiment configurations with width*height*rounds bounded by max_cells."""
    out = []
    while len(out) < count:
        style = styles[len(out) % len(styles)]
        obs = OBS[(len(out) // len(styles)) % 2]
        w = 2 * _skewed(rng, w_max // 2)
        h = 6 * _skewed(rng, h_max // 6)
        n = fit_rounds(style, rounds(rng))
        if w * h * n > max_cells:
            continue
        out.append(dict(w=w, h=h, n=n, style=style, obs=obs,
                        noise=random_noise(rng) if noise is None else noise))
    return out


def wide_and_long(rng, each, lo=120, hi=200):
    """Experiments that have many columns (or rows) and many sub-rounds at once, of every style, observable and remainder."""
    out = []
    for style in STYLES:
        for obs in OBS:
            for rest in ((0,) if style == "SI1000" else (0, 1, 2)):
                for _ in range(each):
                    w, h = rng.choice([(2 * rng.randint(4, 12), 6), (2 * rng.randint(4, 8), 12), (2 * rng.randint(1, 2), 6 * rng.randint(3, 6))])
                    out.append(dict(w=w, h=h, n=3 * rng.randint(lo // 3, hi // 3) + rest, style=style, obs=obs, noise=0.001))
    return out


def _skewed(rng, top):
    """1..top, small values favoured but all reachable."""
    if rng.random() < 0.5:
        return rng.randint(1, min(4, top))
    return rng.randint(1, top)


def make_layout(case, noise=None):
    from honeycomb_layout import HoneycombLayout
    return HoneycombLayout(data_width=case["w"], data_height=case["h"], sub_rounds=case["n"], style=case["style"],
                           obs=case["obs"], noise=case["noise"] if noise is None else noise)


def paper_layouts():
    """The sizes the paper's data collection uses."""
    return [dict(w=4 * u, h=6 * u, n=36 * u, style=s, obs=o, noise=0.001)
            for u in range(1, 6) for s in ["SI1000", "SD6", "EM3_v2"] for o in OBS]
