"""C25: every panel of the published figures shows the data its labels say it shows."""
import math
import random

from vlib.core import Violation, scratch, chdir, captured_stdout, must_raise
from vlib import figs, lam
from vlib.paper import script, argv

ID = "C25"
LEVEL = "exploration"
RULE = ("Random record sets over all code families, decoders, observables, sizes and up to 20 noise strengths (with missing "
        "panels, missing observables and zero-error points, in random record order) are rendered by every figure function and by the "
        "command lines on CSV files; each panel's label is parsed and everything drawn in it is matched with the records. "
        "Distinct by (figure, data set).")
ASSUMPTIONS = ["Observation is at the matplotlib artists; axis limits and styling are not judged (tick labels, axis titles and legend entries are).",
               "Whether a marginal fit counts as 'suppressing errors' is only judged when clear (slope and intercept beyond the documented cut by a margin)."]
REQUIRED = ["threshold_panels", "curves_checked", "lambda_curves", "lambda_points", "teraquop_curves", "teraquop_points", "linefit_panels", "fit_lines", "scatter_points",
            "detection_curves", "command_lines", "poor_points", "empty_panels", "refusals_observed", "bands_checked", "many_noise_strengths"]
NOISES = [1e-4, 2e-4, 3e-4, 5e-4, 7e-4, 1e-3, .0015, 2e-3, 3e-3, 5e-3, 7e-3, 1e-2, .015, .02, .03]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 25)
    q = tier == "quick"
    out = []
    for kind, a, b in (("threshold", 10, 250), ("linefit", 14, 300), ("lambda", 36, 900), ("teraquop", 36, 900), ("detection", 36, 600), ("main", 6, 60)):
        out += [dict(kind=kind, seed=rng.getrandbits(48), many=k % 6 == 5, **(dict(which=("threshold", "lambda", "detection")[k % 3]) if kind == "main" else {})) for k in range(a if q else b)]
    out.sort(key=lambda c: c["kind"] not in ("main", "threshold", "linefit"))
    return out


def dataset(rng, many=False, unsup=.25):
    from collect_data import ProblemShotData
    noises = NOISES if not many else sorted({round(10 ** rng.uniform(-4, -1.6), 7) for _ in range(22)})
    if many:
        chosen = noises
    else:
        chosen = rng.sample(noises, rng.randint(1, 5))
    data = {}
    truth = {}
    fams = list(lam.FAMILIES)
    for style in fams:
        for dec in ("internal", "internal_correlated"):
            if rng.random() < .15:
                continue
            sub = chosen if not many else rng.sample(chosen, 3)
            if rng.random() < .2:
                sub = rng.sample(sub, max(1, len(sub) - 1))
            for noise in sub:
                pts = lam.random_points(rng, lam.distances(style, rng), lam=rng.uniform(.6, 1.05) if rng.random() < unsup else rng.uniform(1.3, 9))
                truth[(style, dec, noise)] = pts
                lam.populate(data, style, dec, noise, pts)
    if many:
        # every strength occurs somewhere
        style = rng.choice(fams)
        for noise in chosen:
            if (style, "internal_correlated", noise) not in truth:
                pts = lam.random_points(rng, lam.distances(style, rng), lam=2.0)
                truth[(style, "internal_correlated", noise)] = pts
                lam.populate(data, style, "internal_correlated", noise, pts)
    # unrelated records must not show up anywhere
    if rng.random() < .5:
        for noise in chosen[:2]:
            lam.populate(data, rng.choice(fams), "pymatching", noise, lam.random_points(rng, [8] if False else [4], lam=2))
    items = list(data.items())
    rng.shuffle(items)
    truth = {k: v for k, v in truth.items()}
    return ProblemShotData(dict(items)), truth


FIGURES = {
    "threshold": ("main_render_threshold_figure", "plot_thresholds"),
    "linefit": ("main_render_lambda_figure", "plot_lambda_line_fits_combo"),
    "lambda": ("main_render_lambda_figure", "plot_lambda_combo"),
    "teraquop": ("main_render_lambda_figure", "plot_teraquop_combo"),
    "detection": ("main_render_detection_fraction_figure", "plot_detection_fraction"),
}


AXIS_WORDS = {"threshold": ("physical error rate", "error rate"), "linefit": ("code distance", "error rate"), "lambda": ("physical error rate", "lambda"),
              "teraquop": ("physical error rate", "qubit"), "detection": ("code distance", "detection fraction")}


def run_case(case, mon):
    import matplotlib.pyplot as plt
    rng = random.Random(case["seed"])
    try:
        if case["kind"] == "main":
            return run_main(rng, mon, case["which"])
        if case["kind"] == "detection":
            data = detection_data(rng, case["many"])
        else:
            data, truth = dataset(rng, case["many"])
        if case["many"]:
            mon.count("many_noise_strengths")
        mod, fn = FIGURES[case["kind"]]
        f = getattr(script(mod), fn)
        with captured_stdout():
            if case["kind"] == "threshold":
                focused = rng.random() < .5
                fig = f(data, focused=focused)
                check_threshold(fig, data, mon, focused)
            elif case["kind"] == "linefit":
                focus = rng.random() < .5
                fig = f(data, focus=focus)[0]
                check_linefit(fig, data, truth, mon, focus)
            elif case["kind"] == "lambda":
                fig = f(data)[0]
                check_rates(fig, truth, mon, "lambda")
            elif case["kind"] == "teraquop":
                fig = f(data)[0]
                check_rates(fig, truth, mon, "teraquop")
            else:
                fig = f(data)
                check_detection(fig, data, mon)
            figs.check_legends(fig, mon, case["kind"])
            for ax in fig.axes:
                figs.check_ticks(ax, mon, case["kind"])
                words = AXIS_WORDS[case["kind"]]
                if figs.visible(ax):
                    for label, word in ((ax.get_xlabel(), words[0]), (ax.get_ylabel(), words[1])):
                        mon.check(not label or word in label.lower(), lambda: f"an axis showing {word!r} is labelled {label!r}", "axis_labels")
        mon.seen(case)
    finally:
        plt.close("all")


def column_styles(g):
    """Column titles (of the topmost visible panel) -> error model."""
    out = {}
    for (r, c), ax in sorted(g.items()):
        if figs.visible(ax) and c not in out and ax.get_title():
            out[c] = ax.get_title().strip()
    return out


def style_name(family, model):
    s = f"{family.lower()}_{model}"
    return s + "_v2" if model == "EM3" else s


def check_threshold(fig, data, mon, focused):
    g = figs.grid(fig)
    cols = column_styles(g)
    mon.eq(sorted(cols.values()), ["EM3", "SD6", "SI1000"], "column titles")
    shown = set()
    for (r, c), ax in g.items():
        if not figs.visible(ax):
            mon.check(not ax.get_lines() and not ax.collections, "data drawn in a switched-off panel")
            continue
        lab = g[(r, 0)].get_ylabel().split("\n")
        family, kind = lab[0].split(" ")
        obs = {"Horizontal": "H", "Vertical": "V"}.get(lab[1].split(" ")[0], lab[1].split(" ")[0])
        dec = {"(Correlated)": "internal_correlated", "(Standard)": "internal"}[kind]
        key = (style_name(family, cols[c]), obs, dec)
        mon.check(key not in shown, f"{key} is shown twice")
        shown.add(key)
        sub = {k: v for k, v in data.data.items() if (k.circuit_style, k.preserved_observable, k.decoder) == key}
        figs.check_curves(ax, sub, mon, f"panel {key}")
        mon.count("threshold_panels")
        if not sub:
            mon.count("empty_panels")
    allkeys = {(s, o, d) for s, os in lam.FAMILIES.items() for o in os for d in ("internal", "internal_correlated")}
    if focused:
        mon.eq({s for s, _, _ in shown}, set(lam.FAMILIES), "code families shown")
    else:
        mon.eq(shown, allkeys, "panels shown")


def fit_of(pts):
    w = lam.combo(pts, 3)
    if len(w) < 2:
        return None
    dq, le = [d for d, _ in w], [math.log(y) for _, y in w]
    s, i, *_ = lam.fit(dq, le)
    return dict(points=w, dq=dq, le=le, s=s, i=i)


def clearly(f):
    """True/False/None: certainly/certainly not/marginal suppression."""
    if f is None:
        return False
    s, i = f["s"], f["i"]
    if (s < -.0201 and i < -.101) or s < -1.001:
        return True
    if not ((s < -.0199 and i < -.099) or s < -.999):
        return False
    return None


def check_linefit(fig, data, truth, mon, focus):
    g = figs.grid(fig)
    cols = column_styles(g)
    mon.eq(sorted(cols.values()), ["EM3", "SD6", "SI1000"], "column titles")
    shown = set()
    color_of = {}
    for (r, c), ax in sorted(g.items()):
        if not figs.visible(ax):
            continue
        family, kind = g[(r, 0)].get_ylabel().split("\n")[0].split(" ")
        dec = {"(Correlated)": "internal_correlated", "(Standard)": "internal"}[kind]
        style = style_name(family, cols[c])
        mon.check((style, dec) not in shown, "panel shown twice")
        shown.add((style, dec))
        mine = {n: pts for (s, d, n), pts in truth.items() if (s, d) == (style, dec)}
        sc = {}
        for col in figs.scatters(ax):
            lab = col.get_label()
            mon.check(lab not in sc, f"two point sets labelled {lab}")
            sc[lab] = col
        if not mine:
            mon.count("empty_panels")
        mon.eq(sorted(sc), sorted(str(n) for n in mine), f"noise strengths shown for {style} {dec}")
        lines = ax.get_lines()
        expected_lines = []
        for n, pts in mine.items():
            want = lam.combo(pts, 3)
            got = sorted((float(x), float(y)) for x, y in sc[str(n)].get_offsets())
            mon.check(len(got) == len(want) and all(a[0] == b[0] and abs(a[1] - b[1]) <= 1e-9 * b[1] + 2e-15 for a, b in zip(got, want)),
                      lambda: f"{style} {dec} noise {n}: points {got}, expected {want}", "scatter_points")
            if len(sc[str(n)].get_facecolor()):
                col = figs.rgba(sc[str(n)].get_facecolor()[0])
            else:
                col = None
            if col is not None:
                mon.check(color_of.setdefault(n, col) == col, f"noise {n} has different colours in different panels")
            expected_lines.append((n, col, fit_of(pts)))
        unmatched = list(lines)
        for n, col, f in expected_lines:
            want = clearly(f)
            hit = None
            if f is not None:
                for l in unmatched:
                    pts = figs.xy(l)
                    if all(abs(y - math.exp(f["s"] * x + f["i"])) <= 1e-6 * y for x, y in pts) and len(pts) >= 2 and min(y for _, y in pts) < 1e-11 and max(y for _, y in pts) >= .99:
                        if col is None or figs.rgba(l.get_color()) == col:
                            hit = l
                            break
            if hit is not None:
                unmatched = [l for l in unmatched if l is not hit]
            if want is not None:
                mon.check((hit is not None) == want, lambda: f"{style} {dec} noise {n}: fit line {'missing' if want else 'drawn although errors are not suppressed'} ({f})", "fit_lines")
        mon.check(not unmatched, lambda: f"{style} {dec}: fit line {figs.xy(unmatched[0])} belongs to no data")
        mon.count("linefit_panels")
    want = {(s, d) for s in lam.FAMILIES for d in (("internal", "internal_correlated") if not focus else ("internal_correlated",))}
    mon.eq(shown, want, "panels shown")


def check_rates(fig, truth, mon, which):
    g = figs.grid(fig)
    titles = [ax.get_title() for ax in g.values()]
    mon.eq(sorted(titles), ["EM3", "SD6", "SI1000"], "panel titles")
    for ax in g.values():
        model = ax.get_title()
        want = {}
        poor = {}
        for (style, dec, noise), pts in truth.items():
            family = style.split("_")[0]
            if style_name(family, model) != style:
                continue
            label = f"{family.capitalize()} ({'Correlated' if dec == 'internal_correlated' else 'Standard'})"
            want.setdefault(label, {})[noise] = (style, pts)
        lines = {}
        order = []
        for l in ax.get_lines():
            mon.check(l.get_label() not in lines, f"two curves labelled {l.get_label()}")
            lines[l.get_label()] = dict(figs.xy(l))
            order.append(l.get_label())
            xs = [x for x, _ in figs.xy(l)]
            mon.eq(xs, sorted(xs), "curve sorted by noise")
        if not want:
            mon.count("empty_panels")
        mon.eq(sorted(lines), sorted(want), f"curves in the {model} panel of the {which} figure")
        bs = figs.bands(ax)
        nonempty = [lab for lab in order if lines[lab]]
        bs = [b for b in bs if b]
        mon.eq(len(bs), len(nonempty), f"bands in the {model} panel")
        band = dict(zip(nonempty, bs))
        poor_must, poor_may = {}, {}
        for label, byn in want.items():
            mon.count(f"{which}_curves")
            for noise, (style, pts) in byn.items():
                f = fit_of(pts)
                must = clearly(f)
                got = lines[label].get(noise)
                if must is not None:
                    mon.check((got is not None) == must, lambda: f"{which} {model} {label} noise {noise}: {'missing' if must else 'shown although errors are not suppressed'} {f}")
                if got is None:
                    continue
                y, lo, hi, tol = reference(which, style, f)
                if y is not None:
                    mon.check(abs(got - y) <= tol * y, lambda: f"{which} {model} {label} noise {noise}: drawn {got}, expected {y}", f"{which}_points")
                b = band[label].get(noise)
                mon.check(b is not None, f"{label}: no band at {noise}")
                for a, w in zip(b, (lo, hi)):
                    if w is not None:
                        mon.check(abs(a - w) <= tol * w, lambda: f"{which} {model} {label} noise {noise}: band {b}, expected {lo}..{hi}", "bands_checked")
                nh, nv = sum(h is not None for h, _ in pts.values()), sum(v is not None for _, v in pts.values())
                if min(nh, nv) < 3:
                    poor_must[(noise, got)] = 1
            for x in lines[label]:
                mon.check(x in byn, f"{label}: point at noise {x} without data")
        sc = {(float(x), float(y)) for c in figs.scatters(ax) for x, y in c.get_offsets()}
        if which == "teraquop":
            mon.eq(sc, set(poor_must), f"points highlighted as low confidence in the {model} panel", name="poor_points")
        else:
            # Either no highlighting at all or the right points.
            mon.check(sc <= set(poor_must), "well supported point highlighted as low confidence")


def reference(which, style, f):
    if which == "lambda":
        a, b, c = lam.slope_range(f["dq"], f["le"])
        return math.exp(-2 * b), math.exp(-2 * c), math.exp(-2 * a), 1e-6 + 4e-3 * (c - a)
    t = math.log(1e-12)
    d = (t - f["i"]) / f["s"]
    lo, hi = lam.output_range(f["le"], f["dq"], t)
    tol = 2e-3 * (hi - lo)

    def q(x, eps):
        if x <= 0 or lam.near_int(x, eps):
            return None
        dd = math.ceil(x)
        # qubits per distance of the family
        rep = lam.desc(style, 4 if style.startswith("honey") else 3, .1, "H", "internal")
        return float(lam.qubits(style, rep.num_qubits, rep.code_distance, dd))
    return q(d, 1e-6 * max(1, d)), q(lo, tol), q(hi, tol), 1e-9


def detection_data(rng, many):
    from collect_data import ProblemShotData, ShotData
    data = {}
    noises = NOISES if not many else sorted({round(10 ** rng.uniform(-4, -1.6), 7) for _ in range(22)})
    noises = rng.sample(noises, rng.randint(1, 6)) if not many else noises
    for style in list(lam.FAMILIES) + ["honeycomb_EM3"]:
        if rng.random() < .15:
            continue
        for noise in rng.sample(noises, rng.randint(1, len(noises))) if not many else noises:
            for d in lam.distances(style, rng):
                k = lam.desc(style if style != "honeycomb_EM3" else "honeycomb_EM3_v2", d, noise, "-", "detection_fraction")
                k = k.with_changes(circuit_style=style)
                n = int(10 ** rng.uniform(0, 8))
                data[k] = ShotData(num_shots=n, num_correct=n - int(n * rng.choice([0, rng.random() * .5, rng.random() * .5, 10 ** rng.uniform(-4, -1), 10 ** rng.uniform(-4, -1), .5 + rng.random() * .5, 1])))
    items = list(data.items())
    rng.shuffle(items)
    return ProblemShotData(dict(items))


DETECTION_TITLES = {"SD6\nSurface Code": "surface_SD6", "SI1000\nSurface Code": "surface_SI1000", "SD6\nHoneycomb Code": "honeycomb_SD6",
                    "SI1000\nHoneycomb Code": "honeycomb_SI1000", "EM3\nHoneycomb Code": "honeycomb_EM3_v2", "Tweaked EM3\nHoneycomb Code": "honeycomb_EM3"}


def check_detection(fig, data, mon):
    g = figs.grid(fig)
    shown = set()
    color_of = {}
    for ax in g.values():
        if not figs.visible(ax):
            mon.check(not ax.get_lines(), "data drawn in a switched-off panel")
            continue
        style = DETECTION_TITLES.get(ax.get_title())
        mon.check(style is not None and style not in shown, lambda: f"panel title {ax.get_title()!r}")
        shown.add(style)
        want = {}
        for k, v in data.data.items():
            if k.circuit_style == style:
                want.setdefault(str(k.noise), []).append((float(k.code_distance), (v.num_shots - v.num_correct) / v.num_shots))
        got = {}
        for l in ax.get_lines():
            mon.check(l.get_label() not in got, "two curves for one noise strength")
            got[l.get_label()] = sorted(figs.xy(l))
            col = figs.rgba(l.get_color())
            mon.check(color_of.setdefault(l.get_label(), col) == col, "one noise strength in two colours")
        mon.eq(sorted(got), sorted(want), f"noise strengths in panel {style}")
        for n in want:
            a, b = got[n], sorted(want[n])
            mon.check(len(a) == len(b) and all(x[0] == y[0] and abs(x[1] - y[1]) <= 1e-12 for x, y in zip(a, b)), lambda: f"{style} noise {n}: drawn {a}, recorded {b}", "detection_curves")
        if not want:
            mon.count("empty_panels")
    mon.eq(shown, set(DETECTION_TITLES.values()), "panels shown")


def write_csv(path, items):
    from vlib.collect import COLUMNS
    with open(path, "w") as f:
        print(",".join(COLUMNS), file=f)
        for k, v in items:
            print(",".join(str(e) for e in [k.data_width, k.data_height, k.rounds, k.noise, k.circuit_style, k.preserved_observable, k.code_distance, k.num_qubits,
                                            v.num_shots, v.num_correct, 1.5, k.decoder, 2]), file=f)


def run_main(rng, mon, which):
    """The scripts' command lines: files and directories of CSV data in, figures and figure files out."""
    import matplotlib.pyplot as plt
    from collect_data import ProblemShotData, ShotData
    mod = script({"threshold": "main_render_threshold_figure", "lambda": "main_render_lambda_figure", "detection": "main_render_detection_fraction_figure"}[which])
    if which == "detection":
        data, truth = detection_data(rng, False), None
    else:
        data, truth = dataset(rng)
    # split every record's counts over several files: they must be added up
    nfiles = rng.choice([3, 5, 12, 17])
    parts = [[] for _ in range(nfiles)]
    for k, v in data.data.items():
        e = v.num_shots - v.num_correct
        if rng.random() < .5 and v.num_shots > 3:
            a = rng.randint(1, v.num_shots - 1)
            ea = rng.randint(max(0, e - (v.num_shots - a)), min(a, e))
            i, j = rng.sample(range(nfiles), 2)
            parts[i].append((k, ShotData(a, a - ea)))
            parts[j].append((k, ShotData(v.num_shots - a, v.num_shots - a - (e - ea))))
        else:
            parts[rng.randrange(nfiles)].append((k, v))
    with scratch() as d, chdir(d):
        (d / "gen").mkdir()
        (d / "sub").mkdir()
        write_csv(d / "a.csv", parts[0])
        for k, part in enumerate(parts[1:]):
            write_csv(d / "sub" / f"{k}x.csv", part)
        (d / "sub" / "notes.txt").write_text("not data\n")
        plt.close("all")
        saved = plt.show
        plt.show = lambda *a, **k: None
        try:
            with must_raise(mon, "rendering without input files"), argv(), captured_stdout():
                mod.main()
            plt.close("all")
            with argv(*rng.sample(["a.csv", "sub"], 2)), captured_stdout():
                mod.main()
        finally:
            plt.show = saved
        for p in {"threshold": ["threshold", "threshold_all"], "lambda": ["linefits_all", "linefits", "lambda", "teraquop"], "detection": ["detectionfraction"]}[which]:
            mon.check((d / "gen" / f"{p}.pdf").read_bytes()[:4] == b"%PDF", f"{p}.pdf")
            mon.check((d / "gen" / f"{p}.png").read_bytes()[:4] == b"\x89PNG", f"{p}.png")
    fs = [plt.figure(n) for n in plt.get_fignums()]

    def kind(f):
        g = figs.grid(f)
        labels = {ax.get_ylabel() for ax in g.values()}
        for name in ("Lambda Factor", "Teraquop Qubit Count"):
            if name in labels:
                return name
        return f"{1 + max(r for r, _ in g)} rows"
    fs = {kind(f): f for f in fs}
    if which == "threshold":
        mon.eq(sorted(fs), ["2 rows", "8 rows"], "figures drawn")
        check_threshold(fs["2 rows"], data, mon, True)
        check_threshold(fs["8 rows"], data, mon, False)
    elif which == "lambda":
        mon.eq(sorted(fs), ["2 rows", "4 rows", "Lambda Factor", "Teraquop Qubit Count"], "figures drawn")
        check_linefit(fs["4 rows"], data, truth, mon, False)
        check_linefit(fs["2 rows"], data, truth, mon, True)
        check_rates(fs["Lambda Factor"], truth, mon, "lambda")
        check_rates(fs["Teraquop Qubit Count"], truth, mon, "teraquop")
    else:
        mon.eq(len(fs), 1, "figures drawn")
        check_detection(fs[kind(plt.figure(plt.get_fignums()[0]))], data, mon)
    mon.count("command_lines")
    mon.seen("main", which)
