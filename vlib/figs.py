"""Observes what is actually drawn in matplotlib figures and compares it with reference data."""
import math

import numpy as np
from matplotlib.collections import PolyCollection, PathCollection

from vlib import lam


def xy(line):
    return [(float(x), float(y)) for x, y in zip(line.get_xdata(), line.get_ydata())]


def bands(ax):
    """Filled regions: list of {x: (low, high)}."""
    out = []
    for c in ax.collections:
        if not isinstance(c, PolyCollection):
            continue
        d = {}
        for path in c.get_paths():
            for x, y in path.vertices:
                x, y = float(x), float(y)
                if math.isnan(x) or math.isnan(y):
                    continue
                lo, hi = d.get(x, (math.inf, -math.inf))
                d[x] = (min(lo, y), max(hi, y))
        out.append(d)
    return out


def scatters(ax):
    return [c for c in ax.collections if isinstance(c, PathCollection)]


def rgba(artist_color):
    import matplotlib.colors as mc
    return tuple(round(float(v), 6) for v in mc.to_rgba(artist_color)[:3])


def exact_bounds(n, e, ratio=1e-3):
    from props.c20 import solve
    t = math.log(ratio)
    lo = 0.0 if e == 0 else solve(n, e, t, 0.0, e / n)
    hi = 1.0 if e == n else solve(n, e, t, e / n, 1.0)
    return lo, hi


def series_of(data):
    """{descriptor without noise: {noise: (shots, errors)}}"""
    out = {}
    for k, v in data.items():
        key = tuple(getattr(k, f) for f in ("data_width", "data_height", "code_distance", "num_qubits", "rounds", "circuit_style", "preserved_observable", "decoder"))
        out.setdefault(key, {})[k.noise] = (v.num_shots, v.num_shots - v.num_correct)
    return out


def check_curves(ax, data, mon, what):
    """One curve and one band per problem family, sorted by noise; label, points and bounds exact."""
    want = series_of(data)
    lines = [l for l in ax.get_lines()]
    bs = bands(ax)
    mon.eq(len(lines), len(want), f"{what}: number of curves")
    expect = []
    for key, pts in want.items():
        w, h, dist, nq, rounds, *_ = key
        cells = -(-rounds // dist)
        label = f"{rounds} rounds, {w}x{h} data"
        curve = [(x, lam.split(e / n, cells)) for x, (n, e) in sorted(pts.items()) if e]
        expect.append((key, label, cells, curve, pts))
    used_b = set()
    seen_colors = {}
    for li, line in enumerate(lines):
        got = xy(line)
        hit = None
        for k, ex in enumerate(expect):
            if ex is None or ex[1] != line.get_label():
                continue
            c = ex[3]
            if len(c) == len(got) and all(a[0] == b[0] and abs(a[1] - b[1]) <= 1e-9 * b[1] + 2e-15 for a, b in zip(got, c)):
                # the band must fit as well
                for bi in candidate_bands(ax, line, li, bs, used_b):
                    if band_ok(bs[bi], ex):
                        hit = (k, bi)
                        break
            if hit:
                break
        mon.check(hit is not None, lambda: f"{what}: curve {line.get_label()!r} {got[:6]} with its band {bs[li] if li < len(bs) else None} matches no recorded series; still unmatched: "
                                           f"{[(e[1], e[3][:6]) for e in expect if e][:4]}", "curves_checked")
        mon.count("curve_points", len(got))
        mon.count("band_points", len(expect[hit[0]][4]))
        if len(expect[hit[0]][3]) < len(expect[hit[0]][4]):
            mon.count("zero_error_points")
        expect[hit[0]] = None
        used_b.add(hit[1])
    mon.eq(len(bs), len(want), f"{what}: number of likelihood bands")


def candidate_bands(ax, line, li, bs, used):
    return [i for i in ([li] if li < len(bs) else []) if i not in used]


def band_ok(band, ex):
    _, _, cells, _, pts = ex
    if set(band) != set(pts):
        return False
    for x, (n, e) in pts.items():
        lo, hi = exact_bounds(n, e)
        tol = .0102 / n + 2e-6 * max(e / n, 1 / n)
        for got, w in zip(band[x], (lo, hi)):
            a, b = lam.split(max(0.0, w - tol), cells), lam.split(min(1.0, w + tol), cells)
            if not a - 3e-15 <= got <= b + 3e-15:
                return False
    return True


def grid(fig):
    """{(row, col): axes} of all subplots."""
    out = {}
    for ax in fig.axes:
        ss = ax.get_subplotspec()
        if ss is None:
            continue
        out[(ss.rowspan.start, ss.colspan.start)] = ax
    return out


def visible(ax):
    return ax.axison


def check_ticks(ax, mon, what):
    """Every tick that is labelled with a number (or percentage) stands at that number."""
    if not ax.axison:
        return
    for axis, ticks, labels in (("x", ax.get_xticks(), ax.get_xticklabels()), ("y", ax.get_yticks(), ax.get_yticklabels())):
        for pos, text in zip(ticks, labels):
            text = text.get_text().strip().replace("\u2212", "-")
            try:
                value = float(text[:-1]) / 100 if text.endswith("%") else float(text)
            except ValueError:
                continue
            pos = float(pos)
            # Labels may be rounded to two digits, not more.
            mon.check(abs(value - pos) <= .051 * abs(pos) + 1e-12, lambda: f"{what}: the {axis} tick at {pos!r} is labelled {text!r}", "tick_labels")


def distinguishable(ax, mon, what):
    """Curves of one panel differ in colour or marker, so that the legend tells them apart."""
    seen = {}
    for line in ax.get_lines():
        k = (rgba(line.get_color()), str(line.get_marker()), str(line.get_linestyle()))
        mon.check(k not in seen, lambda: f"{what}: curves {seen[k]!r} and {line.get_label()!r} are drawn alike: {k}")
        seen[k] = line.get_label()


def style_of(artist):
    """(colour, marker) of a curve, a point set or a legend entry."""
    if hasattr(artist, "get_marker"):
        return rgba(artist.get_color()), str(artist.get_marker())
    if hasattr(artist, "get_facecolor") and hasattr(artist, "get_offsets"):
        shape = tuple(tuple(round(float(x), 4) for x in v) for v in artist.get_paths()[0].vertices)
        return rgba(artist.get_facecolor()[0]) if len(artist.get_facecolor()) else None, shape
    return None


def check_legends(fig, mon, what):
    """Every legend entry that stands for curves or points is drawn like a curve or point set with that label."""
    drawn = {}
    for ax in fig.axes:
        for a in list(ax.get_lines()) + scatters(ax):
            drawn.setdefault(a.get_label(), set()).add(style_of(a))
    for ax in fig.axes:
        lg = ax.get_legend()
        if lg is None:
            continue
        handles = getattr(lg, "legend_handles", None) or getattr(lg, "legendHandles", [])
        mon.eq(len(handles), len(lg.get_texts()), f"{what}: legend handles")
        for h, t in zip(handles, lg.get_texts()):
            st = style_of(h)
            if st is None or st[0] is None:
                continue
            t = t.get_text()
            mon.check(t in drawn and any(st[0] == d[0] and st[1] == d[1] for d in drawn[t] if d is not None),
                      lambda: f"{what}: the legend shows {t!r} as {st}, but it is drawn as {drawn.get(t)}", "legend_entries")
