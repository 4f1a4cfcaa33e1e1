"""C29: what was sampled is what ends up on disk, in the aggregate and in the plot, over whole campaigns."""
import os
import pickle
import random
import subprocess
import sys

from vlib.core import Violation, REPO, scratch, chdir, captured_stdout
from vlib.collect import rows, scripted_sampler
from vlib.gen import STYLES, OBS
from vlib.paper import script, argv
from vlib import figs

ID = "C29"
LEVEL = "exploration"
RULE = ("Random campaigns (layouts and catalogue problems, several files and directories, sessions that append, discard or die, "
        "aggregation of earlier files) with a ledger of every (circuit, decoder, shots, errors) the sampler was asked for, filed under "
        "the physical configuration of the circuit itself; the totals read back, the aggregate and the plotted curves must equal the ledger. "
        "The example program and the graph export program are run from start to end. Distinct by campaign ledger.")
ASSUMPTIONS = ["Scripted error counts stand in for sampling, so that every shot can be accounted for; circuits, files and figures are real.",
               "Circuits are attributed to configurations by comparing them with circuits generated from that configuration beforehand."]
REQUIRED = ["campaigns", "sessions", "crashed_sessions", "sampler_calls", "ledger_entries", "aggregations", "plots", "examples", "graph_exports", "restarts"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 29)
    q = tier == "quick"
    out = [dict(kind="campaign", seed=rng.getrandbits(48)) for _ in range(60 if q else 1500)]
    out += [dict(kind="example", seed=rng.getrandbits(48)) for _ in range(3 if q else 40)]
    out += [dict(kind="export", where=k) for k in ("scratch", "module")]
    rng.shuffle(out)
    return out


class Crash(Exception):
    pass


def identity(lay, decoder):
    """Physical configuration -> the description its data must be filed under."""
    return (lay.data_width, lay.data_height, lay.sub_rounds // 3, lay.noise, f"honeycomb_{lay.style}", lay.obs, decoder)


def problems(rng):
    from honeycomb_layout import HoneycombLayout
    pool = {}
    styles = rng.sample(STYLES, rng.randint(1, 3))
    for _ in range(rng.randint(1, 7)):
        style = rng.choice(styles)
        lay = HoneycombLayout(data_width=rng.choice([2, 4]), data_height=rng.choice([6, 6, 12]), sub_rounds=rng.choice([6, 9, 12]), style=style,
                              obs=rng.choice(OBS), noise=rng.choice([.001, .002, .003, .01]))
        dec = rng.choice(["pymatching", "pymatching", "internal", "internal_correlated"])
        pool.setdefault(identity(lay, dec), (lay, dec))
    return pool


def run_case(case, mon):
    {"campaign": campaign, "example": example, "export": export}[case["kind"]](case, mon)


def campaign(case, mon):
    import matplotlib.pyplot as plt
    from collect_data import collect_simulated_experiment_data, read_recorded_data
    from plotting import plot_data
    rng = random.Random(case["seed"])
    pool = problems(rng)
    by_circuit = {}
    for k, (lay, dec) in pool.items():
        by_circuit[str(lay.make_circuit()), dec] = k
    rate = {k: rng.choice([0, 1e-4, .01, .3, .5, 1]) for k in pool}
    ledgers = {}  # file -> {identity: [shots, errors]}
    crash_at = [None]

    def sample(*, circuit, num_shots, decoder, call):
        if crash_at[0] is not None and call >= crash_at[0]:
            raise Crash()
        k = by_circuit.get((str(circuit), decoder))
        mon.check(k is not None, lambda: f"a circuit that belongs to none of the requested problems was sampled with decoder {decoder}")
        e = sum(rng.random() < rate[k] for _ in range(num_shots)) if num_shots < 300 else min(num_shots, max(0, int(rng.gauss(num_shots * rate[k], (num_shots * rate[k]) ** .5))))
        t = ledgers[current[0]].setdefault(k, [0, 0])
        t[0] += num_shots
        t[1] += e
        mon.count("sampler_calls")
        return num_shots - e

    current = [None]
    with scratch() as d, chdir(d):
        paths = rng.choice([["a.csv", "data/b.csv", "data/deep er/c.csv"], ["data/b.csv", "data/deep er/b.csv", "other/b.csv"], ["a.csv", "data/a.csv", "data/x/y/a.csv"]])
        for p in paths:
            (d / p).parent.mkdir(parents=True, exist_ok=True)
        for s in range(rng.randint(1, 5)):
            path = rng.choice(paths)
            current[0] = path
            fresh = rng.random() < .15
            if fresh or path not in ledgers:
                ledgers[path] = {}
            else:
                mon.count("restarts")
            crash_at[0] = rng.choice([None, None, None, 1, 2, 5] + [0] * (not fresh))
            sel = rng.sample(sorted(pool), rng.randint(1, len(pool)))
            probs = [pool[k][0].as_decoder_problem(pool[k][1]) for k in sel]
            mx = rng.choice([10, 300, 5000])
            with captured_stdout(), scripted_sampler(sample):
                try:
                    collect_simulated_experiment_data(probs, out_path=path, discard_previous_data=fresh, min_shots=rng.choice([1, 25, 100]) if mx < 5000 else 100, max_shots=mx,
                                                      min_seen_logical_errors=rng.choice([1, 10, 100]), max_batch=rng.choice([None, mx // 2, mx // 5]))
                except Crash:
                    mon.count("crashed_sessions")
            mon.count("sessions")
        files = sorted(p for p in ledgers if (d / p).exists())
        truth = {}
        for f in files:
            for k, (a, b) in ledgers[f].items():
                t = truth.setdefault(k, [0, 0])
                t[0] += a
                t[1] += b
        # A session that died before its first record may leave a file without content behind; such files are not read by any command.
        files = [f for f in files if (d / f).stat().st_size]
        for p in paths:
            if (d / p).exists() and not (d / p).stat().st_size:
                (d / p).unlink()
                mon.check(not ledgers.get(p), "finished batches are missing from an empty file")
        files_in = [str(d / f) for f in files]
        data = read_recorded_data(*files_in)
        got = {}
        for k, v in data.data.items():
            i = (k.data_width, k.data_height, k.rounds, k.noise, k.circuit_style, k.preserved_observable, k.decoder)
            mon.check(i not in got, lambda: f"data of {i} is split over two descriptions")
            got[i] = [v.num_shots, v.num_shots - v.num_correct]
        mon.eq(got, truth, "shots and errors read back versus sampled", "ledger_entries")
        if files_in and truth:
            agg = script("aggregate_csv_data")
            rest = [f for f in files if not f.startswith("data/")]
            args = ([str(d / "data")] if len(rest) < len(files) else []) + [str(d / f) for f in rest]
            rng.shuffle(args)
            with captured_stdout() as buf, argv(*args):
                agg.main()
            got = {}
            for r in rows(buf.getvalue()):
                i = (int(r["data_width"]), int(r["data_height"]), int(r["rounds"]), float(r["noise"]), r["circuit_style"], r["preserved_observable"], r["decoder"])
                got[i] = [int(r["num_shots"]), int(r["num_shots"]) - int(r["num_correct"])]
            mon.eq(got, truth, "aggregate versus sampled")
            mon.count("aggregations")
            (d / "agg.csv").write_text(buf.getvalue())
            src = rng.choice([files_in, [str(d / "agg.csv")]])
            shown = read_recorded_data(*src)
            try:
                with captured_stdout():
                    fig, ax = plot_data(shown, title="t")
                ledger_data = {k: _Shots(*truth[(k.data_width, k.data_height, k.rounds, k.noise, k.circuit_style, k.preserved_observable, k.decoder)]) for k in shown.data}
                mon.eq(len(ledger_data), len(truth), "problems plotted")
                figs.check_curves(ax, ledger_data, mon, "campaign plot")
                mon.count("plots")
            finally:
                plt.close("all")
        mon.count("campaigns")
        mon.seen(repr(sorted(truth.items())))


class _Shots:
    def __init__(self, shots, errors):
        self.num_shots, self.num_correct = shots, shots - errors


def example(case, mon):
    """The README's example program: six experiments into test.csv, then a plot of exactly that file on screen."""
    import matplotlib.pyplot as plt
    import main_example
    from collect_data import read_recorded_data
    from honeycomb_layout import HoneycombLayout
    rng = random.Random(case["seed"])
    who = {}
    for d in (1, 2):
        for p in (.001, .002, .003):
            lay = HoneycombLayout(noise=p, data_width=d * 4, data_height=d * 6, sub_rounds=30, style="EM3_v2", obs="H")
            who[str(lay.make_circuit())] = (d * 4, d * 6, p)
    rate = {k: rng.choice([.02, .1, .3, .5]) for k in who.values()}
    rate[rng.choice(sorted(who.values()))] = rng.choice([0, 1e-5, 1e-3])
    ledger = {}

    def sample(*, circuit, num_shots, decoder, call):
        k = who.get(str(circuit))
        mon.check(k is not None and decoder == "pymatching", "the example samples another experiment than the documented ones")
        e = min(num_shots, max(0, int(rng.gauss(num_shots * rate[k], (num_shots * rate[k]) ** .5))))
        ledger.setdefault(k, []).append((num_shots, num_shots - e))
        return num_shots - e

    shown = []
    old = plt.show
    with scratch() as dd, chdir(dd):
        if rng.random() < .5:
            (dd / "test.csv").write_text("left over from an earlier run\n")
        plt.show = lambda *a, **k: shown.append([plt.figure(n) for n in plt.get_fignums()])
        try:
            with captured_stdout() as buf, scripted_sampler(sample):
                main_example.main()
            text = (dd / "test.csv").read_text()
            mon.eq(buf.getvalue(), text, "printed records versus test.csv")
            seqs = {}
            for r in rows(text):
                seqs.setdefault((int(r["data_width"]), int(r["data_height"]), float(r["noise"])), []).append((int(r["num_shots"]), int(r["num_correct"])))
            mon.eq(seqs, ledger, "recorded batches versus sampled ones")
            mon.eq(sorted(seqs), sorted(who.values()), "experiments run by the example")
            from props.c16 import replay_rules
            for k, seq in seqs.items():
                replay_rules(seq, dict(min_shots=10 ** 3, max_shots=10 ** 6, min_seen_logical_errors=100, max_batch=None), type(mon)(), f"example {k}")
            mon.eq(len(shown), 1, "times the plot was shown")
            mon.eq(len(shown[0]), 1, "figures shown")
            data = read_recorded_data("test.csv")
            figs.check_curves(shown[0][0].axes[0], data.data, mon, "example plot")
        finally:
            plt.show = old
            plt.close("all")
    mon.count("examples")
    mon.seen(repr(sorted(ledger.items())))


def export(case, mon):
    """The graph export program, as a fresh process started in an empty directory."""
    from honeycomb_layout import HoneycombLayout
    from props.c12 import compare_graph
    with scratch() as d:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        if case["where"] == "module":
            env["PYTHONPATH"] = str(REPO / "src")
        r = subprocess.run([sys.executable, "-W", "ignore", str(REPO / "src/paper/write_honeycomb_networkx_graph.py")], cwd=d, env=env, capture_output=True, text=True, timeout=200)
        mon.check(r.returncode == 0, lambda: f"graph export failed: {r.stderr[-800:]}")
        mon.eq([p.name for p in d.iterdir()], ["test.graph"], "files written by the graph export")
        with open(d / "test.graph", "rb") as f:
            g = pickle.load(f)
    model = HoneycombLayout(noise=.001, data_width=4, data_height=6, sub_rounds=36, style="SD6", obs="H").make_circuit().detector_error_model(decompose_errors=True)
    compare_graph(model, g, mon)
    mon.count("graph_exports")
    mon.seen(case["where"])
