"""C24: the standard error-rate plot shows exactly the recorded data."""
import random

from vlib.core import Violation, scratch, chdir, captured_stdout
from vlib.collect import random_desc
from vlib import figs

ID = "C24"
LEVEL = "exploration"
RULE = ("Random data sets (1..45 curves, 1..12 noise strengths, zero-error and saturated points, shot counts 1..1e7, unsorted, "
        "mixed families) are plotted; every drawn curve and likelihood band is read back and matched with the data. Distinct by data set.")
ASSUMPTIONS = ["Observation is at the matplotlib artists (what is drawn), with the Agg backend."]
REQUIRED = ["curves_checked", "curve_points", "band_points", "zero_error_points", "files_written", "many_curves", "end_to_end", "shared_axes", "legends", "tick_labels"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 24)
    q = tier == "quick"
    out = [dict(kind="rand", seed=rng.getrandbits(48), many=k % 15 == 0) for k in range(150 if q else 3000)]
    out += [dict(kind="e2e", seed=rng.getrandbits(48)) for _ in range(6 if q else 60)]
    return out


def random_data(rng, ncurves):
    from collect_data import ShotData, ProblemShotData
    data = {}
    descs = []
    base = random_desc(rng)
    while len(descs) < ncurves:
        if rng.random() < .6:
            f = rng.choice(["data_width", "data_height", "code_distance", "rounds", "num_qubits", "preserved_observable", "decoder", "circuit_style"])
            d = base.with_changes(**{f: getattr(random_desc(rng), f)})
        else:
            d = random_desc(rng)
        d = d.with_changes(noise=0.0)
        if d not in descs:
            descs.append(d)
    for d in descs:
        for noise in rng.sample([1e-4, 2e-4, 5e-4, 1e-3, .0015, 2e-3, 3e-3, 5e-3, 7e-3, 1e-2, .02, .03, 1 / 3, 2e-5, 3e-6, 1.5e-4, .1, .25], rng.randint(1, 12)):
            n = int(10 ** rng.uniform(0, 7))
            e = rng.choice([0, n, n // 2, rng.randint(0, n), int(n * 10 ** rng.uniform(-5, 0)), min(n, 1)])
            data[d.with_changes(noise=noise)] = ShotData(num_shots=n, num_correct=n - e, total_processing_seconds=1.0)
    items = list(data.items())
    rng.shuffle(items)
    return ProblemShotData(dict(items))


def run_case(case, mon):
    import matplotlib.pyplot as plt
    from plotting import plot_data
    rng = random.Random(case["seed"])
    try:
        if case["kind"] == "e2e":
            return end_to_end(rng, mon)
        data = random_data(rng, rng.randint(31, 45) if case["many"] else rng.randint(1, 8))
        before = {k: (v.num_shots, v.num_correct) for k, v in data.data.items()}
        if case["many"]:
            mon.count("many_curves")
        kw = {}
        title = rng.choice(["t", "Some title"])
        legend = rng.random() < .7
        if rng.random() < .5:
            kw["focus_on_threshold"] = rng.random() < .5
        if rng.random() < .3:
            kw["marker_offset"] = rng.choice([0, 4, 7])
        if not legend or rng.random() < .5:
            kw["legend"] = legend
        axes = None
        if rng.random() < .4:
            f0 = plt.figure()
            axes = f0.add_subplot()
            kw.update(fig=f0, ax=axes)
            mon.count("shared_axes")
        with scratch() as d, chdir(d):
            if rng.random() < .3:
                name = rng.choice(["x.png", "a.b.png", "p=0.001 d=3.5.png", "x y%d.png", "v1.2/plot.png", "\u00e9.PNG"])
                (d / name).parent.mkdir(exist_ok=True)
                kw["out_path"] = rng.choice([str(d / name), name, d / name])
                if rng.random() < .3:
                    (d / name).write_text("an older figure")
            shown = []
            if rng.random() < .3:
                kw["show"] = rng.random() < .5
            real, plt.show = plt.show, lambda *a, **k: shown.append(1)
            try:
                with captured_stdout():
                    fig, ax = plot_data(data, title=title, **kw)
            finally:
                plt.show = real
            mon.eq(len(shown), int(kw.get("show", False)), "windows shown")
            if "out_path" in kw:
                mon.eq([str(f.relative_to(d)) for f in d.rglob("*") if f.is_file()], [name], "files written")
                mon.check((d / name).read_bytes()[:4] == b"\x89PNG", "figure file")
                mon.count("files_written")
        if axes is not None:
            mon.check(ax is axes and fig is f0, "plotted elsewhere than on the given axes")
        mon.eq(ax.get_title(), title, "title")
        figs.check_curves(ax, data.data, mon, "plot")
        mon.eq({k: (v.num_shots, v.num_correct) for k, v in data.data.items()}, before, "data after plotting")
        lg = ax.get_legend()
        if legend:
            mon.eq(sorted(t.get_text() for t in lg.get_texts()), sorted(l.get_label() for l in ax.get_lines()), "legend entries")
            figs.check_legends(fig, mon, "plot")
            mon.count("legends")
        else:
            mon.check(lg is None, "a legend although none was asked for")
        figs.check_ticks(ax, mon, "plot")
        if len(data.data) and not case["many"]:
            figs.distinguishable(ax, mon, "plot")
        for axis, (lo, hi), word in (("x", ax.get_xlim(), "physical"), ("y", ax.get_ylim(), "logical")):
            mon.check(0 < lo < hi, lambda: f"{axis} axis limits {(lo, hi)}")
            label = (ax.get_xlabel() if axis == "x" else ax.get_ylabel()).lower()
            mon.check(word in label and "error rate" in label, lambda: f"{axis} axis is labelled {label!r}")
        mon.eq((ax.get_xscale(), ax.get_yscale()), ("log", "log"), "axis scales")
        mon.seen(case["seed"])
    finally:
        plt.close("all")


def end_to_end(rng, mon):
    """Layouts -> real sampling -> file -> read -> plot."""
    from collect_data import collect_simulated_experiment_data, read_recorded_data
    from honeycomb_layout import HoneycombLayout
    from plotting import plot_data
    from vlib.collect import rows
    style = rng.choice(["SD6", "EM3_v2", "EM3", "SI1000"])
    probs = [HoneycombLayout(noise=p, data_width=4, data_height=6 * u, sub_rounds=rng.choice([6, 12, 30]), style=style, obs=rng.choice("HV")).as_decoder_problem("pymatching")
             for u in (1, 2) for p in rng.sample([.001, .003, .01, .02], 2)]
    with scratch() as d, chdir(d):
        with captured_stdout():
            collect_simulated_experiment_data(probs, out_path="t.csv", discard_previous_data=True, min_shots=50, max_shots=300, min_seen_logical_errors=10)
        data = read_recorded_data("t.csv")
        tot = {}
        for r in rows(open("t.csv").read()):
            k = (r["data_height"], r["noise"], r["rounds"], r["preserved_observable"])
            a = tot.setdefault(k, [0, 0])
            a[0] += int(r["num_shots"])
            a[1] += int(r["num_correct"])
        mon.eq({(str(k.data_height), str(k.noise), str(k.rounds), k.preserved_observable): [v.num_shots, v.num_correct] for k, v in data.data.items()}, tot, "totals read back")
        with captured_stdout():
            fig, ax = plot_data(data, title="x")
    figs.check_curves(ax, data.data, mon, "end to end plot")
    mon.count("end_to_end")
    mon.seen(repr(sorted(tot.items())))
