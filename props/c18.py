"""C18: reading, aggregating, grouping and merging recorded data conserves every shot."""
import csv
import io
import random

from vlib.core import Violation, scratch, chdir, captured_stdout, must_raise
from vlib.collect import rows, desc_fields, random_desc, COLUMNS
from vlib.paper import script, argv

ID = "C18"
LEVEL = "exploration"
RULE = ("Random record sets (repeated problems, extreme counts up to 1e17, unusual noise values, many files, nested "
        "directories) are written, read, aggregated, grouped, merged and filtered; totals per problem are compared with "
        "integer bookkeeping. Distinct by record set; non-trivial: at least two records share a problem.")
ASSUMPTIONS = []
REQUIRED = ["datasets_read", "aggregations", "groupings", "merges", "filters", "nested_directories", "collected_roundtrips", "field_changes", "reread_files", "other_notations"]
FIELDS = ["data_width", "data_height", "code_distance", "num_qubits", "rounds", "noise", "circuit_style", "preserved_observable", "decoder"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 18)
    q = tier == "quick"
    out = [dict(kind="data", seed=rng.getrandbits(48)) for _ in range(700 if q else 8000)]
    out += [dict(kind="collected", seed=rng.getrandbits(48)) for _ in range(60 if q else 500)]
    out += [dict(kind="changes", seed=rng.getrandbits(48)) for _ in range(100 if q else 1000)]
    return out


def record(d, shots, correct, secs):
    return ",".join(str(e) for e in [d.data_width, d.data_height, d.rounds, d.noise, d.circuit_style, d.preserved_observable, d.code_distance,
                                     d.num_qubits, shots, correct, secs, d.decoder, 2])


def write_records(rng, mon, path, recs):
    """Writes records as the collector does, or in another way of writing the same CSV."""
    if rng.random() < .5:
        path.write_text(",".join(COLUMNS) + "\n" + "".join(record(*r) + "\n" for r in recs))
        return
    columns = list(COLUMNS) + rng.sample(["note", "host"], rng.choice([0, 0, 2]))
    if rng.random() < .5:
        rng.shuffle(columns)
    quoting = rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL, csv.QUOTE_NONNUMERIC])
    blank = rng.random() < .3
    buf = io.StringIO()
    w = csv.DictWriter(buf, columns, quoting=quoting, lineterminator=rng.choice(["\n", "\r\n"]), restval="x y, z")
    w.writeheader()
    versions = rng.choice([[2], [2], [1, 2], [1, 2, 3, 7]])
    for r in recs:
        w.writerow(dict(zip(COLUMNS, record(*r).split(",")), version=rng.choice(versions)))
        if blank and rng.random() < .3:
            buf.write("\n")
    text = buf.getvalue()
    if recs and rng.random() < .3:
        text = text.rstrip("\r\n")
    with open(path, "w", newline="") as f:
        f.write(text)
    mon.count("other_notations")


def totals(data):
    return {k: (v.num_shots, v.num_correct) for k, v in data.data.items()}


def near_desc(rng, base):
    f = rng.choice(FIELDS)
    v = getattr(base, f)
    if isinstance(v, int):
        nv = v + 1
    elif isinstance(v, float):
        nv = v * (1 + 2 ** -50) + 1e-300
    else:
        nv = v + "b"
    return base.with_changes(**{f: nv})


def run_case(case, mon):
    import collect_data as cd
    rng = random.Random(case["seed"])
    if case["kind"] == "changes":
        d = random_desc(rng)
        other = random_desc(rng)
        fs = rng.sample(FIELDS, rng.randint(0, len(FIELDS)))
        ch = {f: getattr(other, f) for f in fs}
        for f in fs:
            if rng.random() < .3:
                ch[f] = {int: 0, float: 0.0, str: ""}[type(getattr(d, f))]
        got = d.with_changes(**ch)
        for f in FIELDS:
            mon.eq(getattr(got, f), ch.get(f, getattr(d, f)), f"field {f} after changing {sorted(ch)}", "field_changes")
        mon.eq(d, random_desc(random.Random(case["seed"])), "original description")
        return
    if case["kind"] == "collected":
        return collected(rng, mon, cd)

    many = rng.random() < .06
    pool = [random_desc(rng) for _ in range(rng.randint(1, 4) if not many else rng.randint(12, 60))]
    pool += [near_desc(rng, rng.choice(pool)) for _ in range(rng.randint(0, 4))]
    recs = []
    for _ in range(rng.randint(0, 30) if not many else rng.randint(40, 300)):
        s = rng.choice([0, 1, 25, 2 ** 15, 10 ** 8, 10 ** 15 + 1, 2 ** 53 + 1, 10 ** 17 + 3, rng.randint(1, 10 ** 6)])
        recs.append((rng.choice(pool), s, rng.choice([0, s, rng.randint(0, s)]), rng.choice([0.0, 1e-6, rng.random(), 1e5, 3])))
    want, secs, order = {}, {}, []
    for d, s, c, t in recs:
        a, b = want.get(d, (0, 0))
        want[d] = (a + s, b + c)
        secs[d] = secs.get(d, 0) + t
    with scratch() as root, chdir(root):
        n = rng.randint(1, 5)
        files = []
        nested = rng.random() < .5
        for k in range(n):
            sub = root / "data"
            if nested:
                for _ in range(rng.randint(0, 3)):
                    sub = sub / rng.choice(["a", "b c", "x.csv.d", "."])
            sub.mkdir(parents=True, exist_ok=True)
            p = sub / f"f{rng.randint(0, k)}.csv"
            if p.exists():
                p = sub / f"f{k}.csv"
            p.write_text("")
            files.append(p)
        buckets = [[] for _ in files]
        for r in recs:
            buckets[rng.randrange(n)].append(r)
        for p, b in zip(files, buckets):
            write_records(rng, mon, p, b)
        data = cd.read_recorded_data(*[str(f) for f in files])
        mon.eq(totals(data), want, "totals per problem after reading")
        for d, v in data.data.items():
            mon.close(v.total_processing_seconds, secs[d], "processing seconds", rtol=1e-9, atol=1e-12)
        mon.count("datasets_read")
        sh = list(files)
        rng.shuffle(sh)
        mon.eq(totals(cd.read_recorded_data(*map(str, sh))), want, "totals when files are read in another order")
        mon.eq(totals(cd.read_recorded_data()), {}, "totals of no files")
        reread(rng, mon, cd, root / "data" / "again.data", recs)

        # Aggregation script.
        (root / "data" / "notes.txt").write_text("not data")
        (root / "data" / "f0.csv.bak").write_text("broken")
        agg = script("aggregate_csv_data")
        args = [str(root / "data")] if nested or rng.random() < .5 else [str(f) for f in files]
        if nested:
            mon.count("nested_directories")
        with captured_stdout() as buf, argv(*args):
            agg.main()
        text = buf.getvalue()
        try:
            got = rows(text)
        except ValueError as ex:
            raise Violation(f"aggregated output: {ex}")
        mon.eq(len(got), len(want), "problems in the aggregate")
        (root / "agg.csv").write_text(text)
        back = cd.read_recorded_data(str(root / "agg.csv"))
        mon.eq(totals(back), want, "totals per problem after aggregation")
        for d, v in back.data.items():
            mon.close(v.total_processing_seconds, secs[d], "aggregated seconds", rtol=1e-9, atol=1e-12)
        mon.eq(list(back.data), sorted(back.data), "order of aggregated problems")
        with captured_stdout() as buf2, argv(str(root / "agg.csv")):
            agg.main()
        mon.eq(buf2.getvalue(), text, "aggregating an aggregate")
        with argv():
            with must_raise(mon, "aggregation of nothing"):
                with captured_stdout():
                    agg.main()
        mon.count("aggregations")

    # Grouping, merging, filtering.
    snap = {k: (v.num_shots, v.num_correct, v.total_processing_seconds) for k, v in data.data.items()}
    keys = {
        "style": lambda e: e.circuit_style,
        "size": lambda e: (e.data_width, e.data_height),
        "rounds": lambda e: e.rounds,
        "index": lambda e: len(str(e.circuit_style)) * 7 + e.data_width - e.data_height,
        "noiseless": lambda e: e.with_changes(noise=0),
        "nothing": (lambda v: lambda e: v)(rng.choice([0, None, "", (), False, 0.0])),
        "truth": lambda e: e.noise > .001,
        "noise": lambda e: e.noise,
        "all": lambda e: e,
        "decoder": lambda e: e.decoder,
    }
    for name in rng.sample(sorted(keys), 3):
        key = keys[name]
        g = data.grouped_by(key)
        mon.eq(list(g), sorted(g), f"group order by {name}")
        members = [(k, d) for k, v in g.items() for d in v.data]
        mon.eq(sorted(members), sorted((key(d), d) for d in want), f"group members by {name}")
        for v in g.values():
            for d, sd in v.data.items():
                mon.eq((sd.num_shots, sd.num_correct), want[d], "shots within a group")
        mon.count("groupings")
        m = data.merged_by(key)
        exp = {}
        for d, (s, c) in want.items():
            a, b = exp.get(key(d), (0, 0))
            exp[key(d)] = (a + s, b + c)
        mon.eq({k: (v.num_shots, v.num_correct) for k, v in m.items()}, exp, f"merged totals by {name}")
        mon.eq(list(m), sorted(m), f"merge order by {name}")
        for k, v in m.items():
            mon.eq(v.num_errors, exp[k][0] - exp[k][1], "errors")
            mon.close(v.total_processing_seconds, sum(secs[d] for d in want if key(d) == k), "merged seconds", rtol=1e-9, atol=1e-12)
        mon.count("merges")
    pred = rng.choice([lambda e: e.noise > .001, lambda e: e.decoder == "internal", lambda e: False, lambda e: True, lambda e: e.data_width % 2 == 0,
                       lambda e: e.data_width % 3, lambda e: e.noise, lambda e: e.decoder[8:], lambda e: [1] * (e.rounds % 2), lambda e: None])
    f = data.filter(pred)
    mon.eq(totals(f), {d: v for d, v in want.items() if pred(d)}, "filtered data")
    mon.count("filters")
    mon.eq({k: (v.num_shots, v.num_correct, v.total_processing_seconds) for k, v in data.data.items()}, snap,
           "data after being grouped, merged and filtered")
    if len(recs) > len(want):
        mon.seen(case["seed"])


def reread(rng, mon, cd, path, recs):
    """A file that is read, changed and read again gives what it contains now."""
    text = ",".join(COLUMNS) + "\n"
    have = {}
    for _ in range(rng.randint(2, 4)):
        r = rng.random()
        if r < .3:
            text, have = ",".join(COLUMNS) + "\n", {}
        if r > .3 and have and rng.random() < .4:
            # Same size, other counts.
            text = ",".join(COLUMNS) + "\n" + record(d, 70 + rng.randint(0, 20), 30 + rng.randint(0, 9), 1.5) + "\n"
            s, c = map(int, text.split("\n")[1].split(",")[-5:-3])
            have = {d: (s, c)}
        else:
            d = random_desc(rng)
            s, c = rng.randint(70, 90), rng.randint(30, 39)
            text += record(d, s, c, 1.5) + "\n"
            a, b = have.get(d, (0, 0))
            have[d] = (a + s, b + c)
        path.write_text(text)
        mon.eq(totals(cd.read_recorded_data(str(path))), have, "totals of a file that changed since it was last read", "reread_files")
    path.unlink()


def collected(rng, mon, cd):
    """What collection writes is exactly what reading returns."""
    import stim
    probs, exp = [], {}
    for k in range(rng.randint(1, 4)):
        d = random_desc(rng, decoder="pymatching", data_width=k + 1)
        p = rng.choice([0, .1, .5])
        c = stim.Circuit(f"X_ERROR({p}) 0\nM 0\nOBSERVABLE_INCLUDE(0) rec[-1]\nX_ERROR(0.01) 1\nM 1\nDETECTOR rec[-1]")
        probs.append(cd.DecodingProblem(desc=d, circuit_maker=lambda c=c: c))
    with scratch() as root:
        out = str(root / "o.csv")
        for _ in range(rng.randint(1, 3)):
            with captured_stdout() as buf:
                cd.collect_simulated_experiment_data(probs, min_shots=7, max_shots=40, min_seen_logical_errors=3, out_path=out, discard_previous_data=False)
            for r in rows(buf.getvalue()):
                k = int(r["data_width"]) - 1
                a, b = exp.get(k, (0, 0))
                exp[k] = (a + int(r["num_shots"]), b + int(r["num_correct"]))
        data = cd.read_recorded_data(out)
        mon.eq(totals(data), {probs[k].desc: v for k, v in exp.items()}, "read back totals per problem")
    mon.count("collected_roundtrips")
