"""C23: every problem's descriptor tells the truth about the circuit it samples; the collection command runs what it was asked."""
import math
import pathlib
import random

import stim

from vlib.core import Violation, Inconclusive, scratch, chdir, captured_stdout, must_raise, REPO
from vlib.collect import COLUMNS, rows, desc_fields, scripted_sampler
from vlib.gen import STYLES, OBS, random_noise, fit_rounds
from vlib.paper import script, argv
from vlib.ref import flat_ops, strip_noise
from vlib import noiseref
from props.c16 import replay_rules
from props.c05 import check_annotations

ID = "C23"
LEVEL = "exploration"
RULE = ("Problems drawn from the shipped catalogue (all code families, sizes, observables, decoders, noise strengths) and random "
        "ad-hoc problems; facts are read back from the circuit the problem actually produces (qubits, rounds, observable, error "
        "strength, distance) and compared with its descriptor; collection command lines are executed with scripted sampling. "
        "Distinct by descriptor or command line.")
ASSUMPTIONS = ["Honeycomb circuits are interpreted by the reference protocol reader used for C05; noise strength through the reference of C07."]
REQUIRED = ["honeycomb_circuits", "surface_circuits", "catalogue_listings", "command_lines", "surface_distances", "whole_catalogue_runs",
            "refusals_observed", "long_descriptions", "adhoc_problems", "legend_labels", "observable_bases", "large_grids"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 23)
    q = tier == "quick"
    out = [dict(kind="list")]
    big = 30 if q else 240
    out += [dict(kind="honey", seed=rng.getrandbits(48), small=k % 3 != 0) for k in range(big)]
    out += [dict(kind="surface", seed=rng.getrandbits(48)) for k in range(24 if q else 240)]
    out += [dict(kind="adhoc", seed=rng.getrandbits(48)) for k in range(60 if q else 1200)]
    out += [dict(kind="large", seed=rng.getrandbits(48)) for k in range(24 if q else 300)]
    out += [dict(kind="long", seed=rng.getrandbits(48)) for k in range(40 if q else 400)]
    out += [dict(kind="cli", seed=rng.getrandbits(48)) for k in range(60 if q else 600)]
    out += [dict(kind="cliall", seed=rng.getrandbits(48)) for k in range(8 if q else 60)]
    for d in ([3, 7] if q else [3, 7, 11, 15, 19]):
        for nn in ("SD6", "SI1000"):
            for obs in "XZ":
                out.append(dict(kind="sdist", d=d, nn=nn, obs=obs))
    # the slow ones first
    out.sort(key=lambda c: 0 if c["kind"] in ("honey", "sdist") else 1)
    return out


def surface_dir():
    return str(REPO / "src" / "paper" / "surface_code_circuits")


def mean_strength(circuit, allow):
    """Arguments of the single application noise instructions that directly carry the physical error rate."""
    out = set()
    for op in flat_ops(circuit):
        if op.name in allow:
            out.update(op.gate_args_copy())
    return out


def run_case(case, mon):
    k = case["kind"]
    rng = random.Random(case.get("seed", 0))
    mc = script("main_collect_all")
    globals()["do_" + k](case, rng, mc, mon)


def do_list(case, rng, mc, mon):
    hs = mc.honeycomb_problems()
    ss = mc.surface_code_problems(surface_dir())
    for name, ps in (("honeycomb", hs), ("surface", ss)):
        mon.check(len(ps) > 0, f"no {name} problems")
        ds = [p.desc for p in ps]
        mon.eq(len(set(ds)), len(ds), f"{name} problems are distinct")
        axes = [sorted({getattr(d, f) for d in ds}, key=str) for f in ("data_width", "noise", "circuit_style", "preserved_observable", "decoder")]
        mon.eq(len(ds), math.prod(len(a) for a in axes), f"{name} catalogue covers every combination of size, noise, style, observable and decoder")
        mon.eq(sorted({d.decoder for d in ds}), ["internal", "internal_correlated"], "decoders")
        mon.eq(sorted({d.preserved_observable for d in ds}), ["H", "V"] if name == "honeycomb" else ["X", "Z"], "observables")
        mon.eq(sorted({d.circuit_style for d in ds}), sorted({"honeycomb_SD6", "honeycomb_SI1000", "honeycomb_EM3_v2"} if name == "honeycomb" else {"surface_SD6", "surface_SI1000"}), "styles")
        for d in ds:
            mon.check(0 < d.noise < 1, "noise strength")
            mon.eq(math.ceil(d.rounds / d.code_distance), 3, f"number of code cells of {d}")
            if name == "surface":
                mon.eq((d.data_width, d.data_height, d.code_distance, d.num_qubits, d.rounds), (d.data_width,) * 3 + (2 * d.data_width ** 2 - 1, 3 * d.data_width), "surface code sizes")
            else:
                w, h = d.data_width, d.data_height
                mon.eq((d.code_distance, d.num_qubits), (min(w, 2 * h // 3), w * h if "EM3" in d.circuit_style else w * h * 5 // 2), f"honeycomb sizes of {d}")
        mon.seen(name)
        mon.count("catalogue_listings")
    for x in ("-", "", None):
        mon.eq(list(mc.surface_code_problems(x)), [], f"surface problems for directory {x!r}")
    noises = sorted({p.desc.noise for p in hs})
    mon.eq(sorted({p.desc.noise for p in ss}), noises, "both families use the same noise strengths")


def do_honey(case, rng, mc, mon):
    ps = mc.honeycomb_problems()
    if case["small"]:
        ps = [p for p in ps if p.desc.data_width <= 8]
    verify_honeycomb(rng.choice(ps), None, mon)
    mon.count("honeycomb_circuits")


def do_adhoc(case, rng, mc, mon):
    from honeycomb_layout import HoneycombLayout
    layouts = []
    for _ in range(3):
        style = rng.choice(STYLES)
        layouts.append(HoneycombLayout(data_width=2 * rng.randint(1, 5), data_height=6 * rng.randint(1, 3), sub_rounds=fit_rounds(style, rng.randint(1, 40)),
                                       style=style, obs=rng.choice(OBS), noise=rng.choice([random_noise(rng), 0.0])))
    probs = [l.as_decoder_problem(rng.choice(["pymatching", "internal", "internal_correlated", "anything"])) for l in layouts]
    for l, p in zip(layouts, probs):
        dec = rng.choice(["pymatching", "internal"])
        d2 = l.as_decoder_problem_desc(dec)
        mon.eq(d2, p.desc.with_changes(decoder=dec), "descriptor for another decoder")
        verify_honeycomb(p, l, mon)
        mon.count("adhoc_problems")
        lab = l.legend_label()
        mon.check(f"{l.data_width}x{l.data_height} data" in lab, lambda: f"legend label {lab!r} of {l}", "legend_labels")
        if l.noise:
            mon.check(repr(l.noise) in lab or str(l.noise) in lab, lambda: f"legend label {lab!r} does not give the noise of {l}")


def do_large(case, rng, mc, mon):
    """Grids far beyond the catalogue: the facts described are still those of the circuit."""
    from honeycomb_layout import HoneycombLayout
    style, obs = rng.choice(STYLES), rng.choice(OBS)
    w, h = 2 * rng.randint(6, 60), 6 * rng.randint(1, 20)
    lay = HoneycombLayout(data_width=w, data_height=h, sub_rounds=3, style=style, obs=obs, noise=.001)
    p = lay.as_decoder_problem("internal")
    c = p.circuit_maker()
    d = p.desc
    coords = c.get_final_qubit_coordinates()
    mon.eq(d.num_qubits, len(coords), f"qubits stated for {w}x{h} {style}")
    mon.eq(lay.num_qubits, len(coords), "qubits stated by the layout")
    mon.eq((d.data_width, d.data_height, d.preserved_observable, d.circuit_style, d.noise, d.rounds, d.decoder), (w, h, obs, f"honeycomb_{style}", .001, 1, "internal"), "described problem")
    mon.eq(d.code_distance, min(w, 2 * h // 3), f"distance stated for {w}x{h}")
    mon.count("large_grids")
    mon.seen(w, h, style)


def do_long(case, rng, mc, mon):
    """Durations too long to write out: the described rounds are those the circuit measures, to the last one."""
    from honeycomb_layout import HoneycombLayout
    style = rng.choice(STYLES)
    w, h = rng.choice([(2, 6), (4, 6), (2, 12)])
    n = fit_rounds(style, rng.choice([10 ** rng.randint(3, 17) + rng.randint(0, 5), 2 ** rng.randint(50, 58) + rng.randint(-3, 3), rng.randint(10 ** 3, 10 ** 6)]))
    p = HoneycombLayout(data_width=w, data_height=h, sub_rounds=n, style=style, obs=rng.choice(OBS), noise=.001).as_decoder_problem("pymatching")
    measured, rem = divmod(p.circuit_maker().num_measurements - w * h, w * h // 2)
    mon.eq((measured, rem), (n, 0), "sub-rounds measured")
    mon.check(p.desc.rounds == (measured + 2) // 3, lambda: f"description states {p.desc.rounds} rounds, its circuit performs {measured} sub-rounds", "long_descriptions")


def verify_honeycomb(p, lay, mon):
    from honeycomb_layout import HoneycombLayout
    d = p.desc
    style = d.circuit_style[len("honeycomb_"):]
    mon.check(d.circuit_style.startswith("honeycomb_") and style in STYLES, "circuit style")
    w, h = d.data_width, d.data_height
    c = p.circuit_maker()
    base = strip_noise(c)
    coords = c.get_final_qubit_coordinates()
    mon.eq(len(coords), d.num_qubits, f"qubits of {d}")
    # number of sub-rounds from the measurements made: every sub-round measures half as many pairs as data qubits
    total = base.num_measurements
    per = w * h // 2 * (2 if style == "PC3" else 1)
    n, rem = divmod(total - w * h, per)
    if style != "PC3":
        mon.check(rem == 0, lambda: f"{total} measurements in {d}")
        mon.eq(math.ceil(n / 3), d.rounds, f"rounds performed by the circuit of {d}")
        if lay is not None:
            mon.eq(n, lay.sub_rounds, "sub-rounds performed")
    if lay is None:
        lay = HoneycombLayout(data_width=w, data_height=h, sub_rounds=d.rounds * 3, style=style, obs=d.preserved_observable, noise=d.noise)
    mon.eq((w, h, d.preserved_observable, d.noise, d.rounds), (lay.data_width, lay.data_height, lay.obs, lay.noise, -(-lay.sub_rounds // 3)), "descriptor versus layout")
    want = lay.make_circuit()
    mon.check(c == want, lambda: f"circuit of problem {d} is not the circuit of the layout it describes")
    check_annotations(dict(w=w, h=h, n=lay.sub_rounds, style=style, obs=d.preserved_observable), base, mon)
    mon.count("observable_bases")
    # noise strength as recorded is the strength in the circuit
    m = noiseref.model({"EM3": "EM3_v1"}.get(style, style), d.noise)
    got = sorted(x for x in mean_strength(c, {"DEPOLARIZE2", "PAULI_CHANNEL_2", "DEPOLARIZE1", "X_ERROR", "Z_ERROR", "Y_ERROR"}) if x)
    if d.noise == 0:
        mon.check(not got, lambda: f"noise in a noiseless problem {d}")
    elif not style.startswith("EM3_v2"):
        vals = {v for v in list(m.gates.values()) + [m.idle, m.mr_idle] if v}
        for x in got:
            mon.check(any(abs(x - v) <= 1e-9 * v or abs(x - v * 2) <= 1e-9 * v for v in vals), lambda: f"error strength {x} in a circuit of noise {d.noise} ({style}): model has {sorted(vals)}")
    mon.seen(d)


def do_surface(case, rng, mc, mon):
    ps = mc.surface_code_problems(surface_dir())
    p = rng.choice([x for x in ps if x.desc.data_width <= rng.choice([3, 7, 11, 19])])
    verify_surface(p, mon)
    # Freshly described problem with an arbitrary noise strength.
    d = rng.choice([3, 7, 11])
    noise = random_noise(rng)
    nn, obs, dec = rng.choice(["SD6", "SI1000"]), rng.choice("XZ"), rng.choice(["pymatching", "internal"])
    if nn == "SI1000" and noise > .1:
        noise = .01
    ps = [mc.surface_code_problem(directory=surface_dir(), noise_name=nn, noise=noise, obs=obs, d=d, decoder=dec),
          mc.surface_code_problem(directory=surface_dir(), noise_name="SD6", noise=.002, obs="X", d=3, decoder="internal")]
    dd = ps[0].desc
    mon.eq((dd.noise, dd.circuit_style, dd.preserved_observable, dd.code_distance, dd.decoder), (noise, f"surface_{nn}", obs, d, dec), "surface problem descriptor")
    for p in ps:
        verify_surface(p, mon)
    with must_raise(mon, "surface code with an unknown error model"):
        mc.surface_code_problem(directory=surface_dir(), noise_name="EM3", noise=.01, obs="X", d=3, decoder="internal").circuit_maker()
    with must_raise(mon, "surface code of a distance without a circuit"):
        mc.surface_code_problem(directory=surface_dir(), noise_name="SD6", noise=.01, obs="X", d=4, decoder="internal").circuit_maker()


def verify_surface(p, mon):
    d = p.desc
    nn = d.circuit_style[len("surface_"):]
    n = d.code_distance
    c = p.circuit_maker()
    base = stim.Circuit((pathlib.Path(surface_dir()) / f"{nn.lower()}_{d.preserved_observable}" / f"d{n}_p0.0.stim").read_text())
    got, want = strip_noise(c), base
    # identity gates carry no behaviour: compare measurements, detectors and observables
    mon.eq((got.num_measurements, got.num_detectors, got.num_observables), (want.num_measurements, want.num_detectors, want.num_observables), f"shape of {d}")
    mon.eq(noiseref.annotations(got)[:2], noiseref.annotations(want)[:2], f"annotations of {d}")
    noisy = noiseref.repo_model(nn, d.noise).noisy_circuit(base)
    mon.check(c == noisy or c.flattened() == noisy.flattened(), lambda: f"circuit of {d} is not the {nn} noisy version of the stored circuit")
    used = set()
    for op in flat_ops(got):
        if op.name not in ("DETECTOR", "OBSERVABLE_INCLUDE", "SHIFT_COORDS", "TICK", "QUBIT_COORDS"):
            used.update(t.value for t in op.targets_copy() if t.is_qubit_target)
    mon.eq(len(used), d.num_qubits, f"qubits of {d}")
    mon.eq(c.num_measurements, d.rounds * (n * n - 1) + n * n, f"measurements of {d}: {d.rounds} rounds")
    for kind, flips in (("X_ERROR", d.preserved_observable == "Z"), ("Z_ERROR", d.preserved_observable == "X")):
        mon.eq(flips_observable(base, kind, n), flips, f"early {kind[0]} errors on the data flip the observable of {d}", name="observable_bases")
    st = {noiseref.rnd(x) for x in mean_strength(c, {"DEPOLARIZE2"})}
    mon.eq(st, {noiseref.rnd(d.noise)}, f"two qubit gate error strength of {d}")
    mon.count("surface_circuits")
    mon.seen(d)


def flips_observable(base, kind, n):
    out = stim.Circuit()
    ticks = 0
    ops = list(flat_ops(base))
    # data qubits: the n*n qubits measured after the last tick
    tail = []
    for op in reversed(ops):
        if op.name == "TICK":
            if len(tail) >= n * n:
                break
            tail = []
        if op.name in ("M", "MX", "MZ"):
            tail += [t.value for t in op.targets_copy()]
    data = tail
    for op in ops:
        out.append(op)
        if op.name == "TICK":
            ticks += 1
            if ticks == 2:
                out.append(kind, data, .1)
    dem = out.detector_error_model()
    return any(any(t.is_logical_observable_id() for t in i.targets_copy()) for i in dem.flattened() if i.type == "error")


def do_sdist(case, rng, mc, mon):
    p = mc.surface_code_problem(directory=surface_dir(), noise_name=case["nn"], noise=.001, obs=case["obs"], d=case["d"], decoder="internal")
    err = p.circuit_maker().shortest_graphlike_error()
    mon.eq(len(err), p.desc.code_distance, f"smallest undetected fault set of {p.desc}", name="surface_distances")


def do_cli(case, rng, mc, mon):
    """A real command line for one problem, with scripted sampling."""
    use_surface = rng.choice(["default", "-", "dir"])
    hs = mc.honeycomb_problems()
    ss = mc.surface_code_problems(surface_dir())
    probs = hs + (ss if use_surface != "-" else [])
    small = [i for i, p in enumerate(probs) if p.desc.data_width <= 7 and p.desc.num_qubits < 250]
    if rng.random() < .6:
        small = [i for i in small if probs[i].desc.num_qubits <= 60]
    mb = rng.choice([None, None, 10, 100, 2 ** 16])
    pid = rng.choice(small if mb not in (10, 100) else [i for i in small if probs[i].desc.num_qubits <= 24])
    args = ["--problem_id", str(pid)]
    if use_surface == "-":
        args += ["--surface_code_problems_directory", "-"]
    elif use_surface == "dir":
        args += ["--surface_code_problems_directory", surface_dir()]
    red = rng.choice([None, 1, 10, 1000, 1001, 2500, 20000])
    if red is not None:
        args += ["--case_reduction", str(red)]
    ms = rng.choice([None, None, 1, 24, 25, 1000, 60000])
    me = rng.choice([None, None, 0, 1, 13, 500])
    r = red or 1
    lim = dict(min_shots=25, max_shots=10 ** 8 // r, min_seen_logical_errors=10 ** 3 // r, max_batch=2 ** 15)
    if ms is not None:
        args += ["--max_shots", str(ms)]
        lim["max_shots"] = ms
    if me is not None:
        args += ["--max_errors", str(me)]
        lim["min_seen_logical_errors"] = me
    if mb is not None:
        args += ["--max_batch_size", str(mb)]
        lim["max_batch"] = mb
    rate = rng.choice([.5, .1, .01, .3])
    if lim["max_shots"] / lim["max_batch"] < 30:
        rate = rng.choice([rate, 0, 1e-4])
    elif lim["max_batch"] < 1000:
        rate = rng.choice([.5, .3])
    order = rng.sample(range(len(args) // 2), len(args) // 2)
    with scratch() as d, chdir(d):
        out = str(d / "o.csv")
        args = [x for i in order for x in args[2 * i:2 * i + 2]] + ["--out_file", out]
        before = None
        if rng.random() < .4:
            other = rng.choice(small)
            with argv("--problem_id", str(other), "--max_shots", "2", "--out_file", out, "--surface_code_problems_directory", surface_dir()), captured_stdout():
                with scripted_sampler(lambda circuit, num_shots, decoder, call: num_shots):
                    mc.main()
            before = open(out).read()
        with argv(*args), captured_stdout() as buf, scripted_sampler(lambda circuit, num_shots, decoder, call: num_shots - round(num_shots * rate)) as log:
            mc.main()
        if not log:
            raise Inconclusive("scripted sampling is not reached by this code")
        text = open(out).read()
        if before is not None:
            mon.check(text.startswith(before), "collection with an existing output file lost earlier records")
            text = before.split("\n")[0] + "\n" + text[len(before):]
        try:
            recs = rows(text)
        except ValueError as ex:
            raise Violation(str(ex))
    want = desc_fields(probs[pid].desc)
    for rec in recs:
        mon.eq({k: rec[k] for k in want}, want, f"record written by command line {args}")
    circ = probs[pid].circuit_maker()
    mon.check(all(l[0] == circ for l in log), lambda: f"command line {args} sampled another circuit")
    mon.check(all(l[2] == probs[pid].desc.decoder for l in log), "decoder used")
    replay_rules([(int(x["num_shots"]), int(x["num_correct"])) for x in recs], lim, mon, f"command line {args}")
    mon.count("command_lines")
    mon.seen("cli", tuple(args[:-2]))


def do_cliall(case, rng, mc, mon):
    """The whole catalogue, as handed to the collection loop."""
    name = "collect_simulated_experiment_data"
    if not hasattr(mc, name):
        raise Inconclusive("collection entry point not reachable")
    got = []
    saved = getattr(mc, name)
    setattr(mc, name, lambda problems, **kw: got.append((list(problems), kw)))
    mode = rng.choice(["default", "-", "empty", "dir"])
    args = {"default": [], "-": ["--surface_code_problems_directory", "-"], "empty": ["--surface_code_problems_directory", ""],
            "dir": ["--surface_code_problems_directory", surface_dir()]}[mode]
    hs = mc.honeycomb_problems()
    ss = mc.surface_code_problems(surface_dir())
    want = hs + (ss if mode in ("default", "dir") else [])
    try:
        with argv(*args), captured_stdout():
            mc.main()
        pids = [0, rng.randrange(len(want)), len(want) - 1]
        for pid in pids:
            with argv(*args, "--problem_id", str(pid)), captured_stdout():
                mc.main()
        given = {k: v for k, v in (("max_shots", rng.choice([None, 1, 100, 10 ** 7])), ("max_errors", rng.choice([None, 0, 5, 2000])), ("max_batch_size", rng.choice([None, 1, 77, 10 ** 6])),
                                   ("case_reduction", rng.choice([None, 1, 3, 7, 999, 1001, 4000, 10 ** 9]))) if v is not None}
        with argv(*args, *[x for k, v in given.items() for x in ("--" + k, str(v))]), captured_stdout():
            mc.main()
        kw = got.pop()[1]
        red = given.get("case_reduction", 1)
        for k, w in (("max_shots", given.get("max_shots", 10 ** 8 // red)), ("min_seen_logical_errors", given.get("max_errors", 10 ** 3 // red)), ("max_batch", given.get("max_batch_size", 2 ** 15)), ("min_shots", 25)):
            if k in kw:
                mon.eq(kw[k], w, f"{k} used by the command line with {given}")
        with must_raise(mon, "problem id out of range"), argv(*args, "--problem_id", str(len(want) + rng.randint(0, 5))), captured_stdout():
            mc.main()
        with must_raise(mon, "unknown command line option", Exception, SystemExit), argv("--no_such_option", "1"), captured_stdout():
            mc.main()
        with must_raise(mon, "non-numeric limit", Exception, SystemExit), argv("--max_shots", "many"), captured_stdout():
            mc.main()
    finally:
        setattr(mc, name, saved)
    with scratch() as d:
        # Collecting nothing more, of one problem or all, leaves what the output file has.
        out = d / "earlier.csv"
        earlier = ",".join(COLUMNS) + "\n" + "4,6,12,0.001,honeycomb_SD6,H,4,60,100,90,1.5,internal,2\n" * rng.randint(0, 3)
        for which in ([], ["--problem_id", str(rng.choice(pids))]):
            out.write_text(earlier)
            with argv(*args, *which, "--max_shots", "0", "--out_file", str(out)), captured_stdout():
                mc.main()
            mon.eq(out.read_text(), earlier, f"output file after collecting no further shots with {args + which}")
    mon.eq([p.desc for p in got[0][0]], [p.desc for p in want], f"problems collected with {args}")
    for k, pid in enumerate(pids):
        mon.eq([p.desc for p in got[1 + k][0]], [want[pid].desc], f"problem collected with {args} --problem_id {pid}")
    mon.eq(len(got), 4, "refused command lines must not collect")
    k = rng.choice([i for i, p in enumerate(want) if p.desc.data_width <= 8])
    mon.check(got[0][0][k].circuit_maker() == want[k].circuit_maker(), "circuit of a listed problem")
    mon.count("whole_catalogue_runs")
    mon.seen("all", mode, pids[1])
