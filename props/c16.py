"""C16: collection takes exactly the amount of data asked for, in bounded batches, for every problem in order."""
import math
import random
import time

import stim

from vlib.core import Violation, Inconclusive, scratch, chdir, captured_stdout
from vlib.collect import rows, desc_fields, scripted_sampler, random_desc
from vlib.fakedec import FakeDecoder

ID = "C16"
LEVEL = "exploration"
RULE = ("Random limits (min/max shots, batch size, error target, deviation target) x error-rate scripts from 0 to 1, driven "
        "through the real collection loop with scripted sampling (up to 1e8 shots) and with real sampling/decoding; the sequence of "
        "records is replayed against the documented stopping rules. Distinct by (limits, script); non-trivial: at least one batch.")
ASSUMPTIONS = ["Scripted sampling replaces the sampler only; the loop, the limits and the records are the real code."]
REQUIRED = ["batches_observed", "stopped_by_max_shots", "stopped_by_errors", "stopped_by_saturation", "real_sampling_runs", "small_batch_runs", "empty_collections", "repeated_descriptions"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 16)
    q = tier == "quick"
    out = []
    for _ in range(1500 if q else 20000):
        out.append(dict(kind="script", seed=rng.getrandbits(48)))
    out += [dict(kind="real", seed=rng.getrandbits(48)) for _ in range(80 if q else 800)]
    rng.shuffle(out)
    return out


def replay_rules(seq, lim, mon, label):
    """Online check of the stopping specification over one problem's batches [(shots, correct)]."""
    mn, mx, mb, me, sd = lim["min_shots"], lim["max_shots"], lim["max_batch"], lim["min_seen_logical_errors"], lim.get("max_sample_std_dev", 1)
    cap = mx if mb is None else mb
    total = errs = 0
    prev = None
    mon.check(seq, f"{label}: no data was taken")
    for k, (s, c) in enumerate(seq):
        mon.count("batches_observed")
        mon.check(s >= 1, f"{label}: empty batch")
        mon.check(0 <= c <= s, f"{label}: {c} correct out of {s}")
        mon.check(s <= cap, lambda: f"{label}: batch of {s} shots exceeds the batch limit {cap}")
        if prev is not None:
            mon.check(s <= 2 * prev, lambda: f"{label}: batch jumped from {prev} to {s} shots")
        else:
            mon.check(s <= max(mn, 1), lambda: f"{label}: first batch takes {s} shots, more than the minimum of {mn}")
        prev = s
        total += s
        errs += s - c
        mon.check(total <= mx, lambda: f"{label}: {total} shots taken, limit is {mx}")
        why = None
        p = errs / total
        if total >= mx:
            why = "stopped_by_max_shots"
        elif total >= mn:
            dev = math.sqrt(p * (1 - p) / total)
            if errs >= me and dev <= sd:
                why = "stopped_by_errors"
            elif errs >= total * 0.48 and errs >= 10:
                why = "stopped_by_saturation"
        last = k == len(seq) - 1
        if last:
            mon.check(why is not None, lambda: f"{label}: stopped after {total} shots and {errs} errors although limits {lim} ask for more")
            mon.count(why)
        else:
            mon.check(why is None, lambda: f"{label}: went on after {total} shots and {errs} errors although limits {lim} were met")


def run_case(case, mon):
    from collect_data import collect_simulated_experiment_data, DecodingProblem
    rng = random.Random(case["seed"])
    real = case["kind"] == "real"
    big = not real and rng.random() < .5
    lim = dict(
        min_shots=rng.choice([1, 2, 10, 25, 100, 1000, 0, rng.randint(0, 60)] + [10 ** 5, 10 ** 6, 65537] * big if not real else [0, 1, 5, 25]),
        max_shots=rng.choice([0, 1, 10, 24, 25, 26, 100, 1000, 12345, rng.randint(0, 300)] if not big else [10 ** 5, 10 ** 6, 10 ** 7, 10 ** 8, 5 * 10 ** 9 + 1, 10 ** 12 + 7]),
        min_seen_logical_errors=rng.choice([0, 1, 5, 10, 100, 1000, 10 ** 9]),
        max_batch=rng.choice([None, 1, 7, 20, 64, 1000, 2 ** 15] if not big else [None, 2 ** 15, 10 ** 6]),
    )
    if real:
        lim["max_shots"] = rng.choice([1, 10, 24, 100, 1000])
        lim["min_seen_logical_errors"] = rng.choice([0, 1, 5, 20, 1000])
        if lim["max_batch"] in (1, 7):
            lim["max_shots"] = min(lim["max_shots"], 100)
    if lim["max_batch"] is not None and lim["max_shots"] / lim["max_batch"] > 4000:
        lim["max_batch"] = None
    kw = dict(lim)
    if rng.random() < .35:
        kw["max_sample_std_dev"] = lim["max_sample_std_dev"] = rng.choice([0, .5, .1, .05, .01, .003])
    if rng.random() < .2 and lim["max_batch"] is None:
        kw.pop("max_batch")
    if lim["max_batch"] is not None and lim["max_batch"] < lim["min_shots"]:
        mon.count("small_batch_runs")
    nprob = rng.randint(0, 4) if real or rng.random() > .04 else rng.randint(12, 40)
    descs = []
    while len(descs) < nprob:
        d = random_desc(rng, **({"decoder": "pymatching"} if real else {}))
        if d not in descs:
            descs.append(d)
    if descs and rng.random() < .3:
        # The same description again, next to the first or apart (told apart by what was sampled, or by not being adjacent).
        at = rng.randrange(len(descs))
        if not real:
            descs.insert(rng.randint(0, len(descs)), descs[at])
        elif len(descs) > 1:
            descs += [descs[0]]
        if len(descs) > nprob:
            nprob = len(descs)
            mon.count("repeated_descriptions")
    rates = [rng.choice([0, 1e-6, 1e-3, .05, .3, .45, .479, .48, .5, .52, .9, 1]) for _ in descs]
    mode = rng.choice(["random", "exact", "burst"])
    state = dict()

    def sampler(circuit, num_shots, decoder, call):
        k = next(i for i, c in enumerate(state["circuits"]) if c == circuit)
        r = rates[k]
        if mode == "burst":
            r = rng.choice([0, r, 1 if rng.random() < .05 else r])
        if mode == "random" and num_shots < 300:
            e = sum(rng.random() < r for _ in range(num_shots))
        else:
            e = min(num_shots, max(0, round(num_shots * r)))
        return num_shots - e

    def circuit(k):
        p = min(rates[k], 1.0)
        # undetectable flips with the scripted rate; one unrelated detector; distinct per problem
        return stim.Circuit(f"X_ERROR({p}) 0\nM 0 {k + 2}\nOBSERVABLE_INCLUDE(0) rec[-2]\nX_ERROR(0.01) 1\nM 1\nDETECTOR({k}) rec[-1]")
    state["circuits"] = [circuit(k) for k in range(nprob)]
    probs = [DecodingProblem(desc=d, circuit_maker=lambda k=k: circuit(k)) for k, d in enumerate(descs)]
    with scratch() as d, chdir(d):
        out = str(d / "out.csv") if rng.random() < .7 else None
        t0 = time.monotonic()
        with captured_stdout() as buf:
            if real:
                collect_simulated_experiment_data(probs, out_path=out, discard_previous_data=True, **kw)
                log = None
            else:
                with scripted_sampler(sampler) as log:
                    collect_simulated_experiment_data(probs, out_path=out, discard_previous_data=True, **kw)
        wall = time.monotonic() - t0
        try:
            recs = rows(buf.getvalue())
            if out:
                mon.eq(rows(open(out).read()), recs, "records in the file versus printed")
        except ValueError as ex:
            raise Violation(str(ex))
    if log is not None and nprob and not log and lim["max_shots"]:
        raise Inconclusive("scripted sampling is not reached by this code")
    if log is not None:
        mon.eq([(int(r["num_shots"]), int(r["num_correct"])) for r in recs], [(s, int(c)) for _, s, _, c in log], "recorded results versus sampled results")
        mon.eq([r["decoder"] for r in recs], [dc for _, _, dc, _ in log], "decoder used")
    if lim["max_shots"] == 0:
        mon.eq(recs, [], "records of a collection of no shots at all")
        mon.count("empty_collections")
        return
    k = 0
    groups = []
    sampled = None if log is None else [next(i for i, x in enumerate(state["circuits"]) if x == e[0]) for e in log]
    for i, r in enumerate(recs):
        f = {x: r[x] for x in desc_fields(descs[0])} if descs else {}
        if groups and groups[-1][0] == f and (not sampled or sampled[i] == sampled[i - 1]):
            groups[-1][1].append((int(r["num_shots"]), int(r["num_correct"])))
        else:
            groups.append((f, [(int(r["num_shots"]), int(r["num_correct"]))]))
    mon.eq([g[0] for g in groups], [desc_fields(x) for x in descs], "problems recorded, in order")
    if log is not None:
        i = 0
        for gi, (f, seq) in enumerate(groups):
            for _ in seq:
                mon.check(log[i][0] == state["circuits"][gi], "sampled a different problem's circuit")
                i += 1
    for gi, (f, seq) in enumerate(groups):
        replay_rules(seq, lim, mon, f"problem {gi}")
        if real and rates[gi] == 0:
            mon.check(all(s == c for s, c in seq), "errors recorded for an error free problem")
        if real and rates[gi] == 1:
            mon.check(all(c == 0 for s, c in seq), "successes recorded for a problem that always fails")
    secs = [float(r["total_processing_seconds"]) for r in recs]
    mon.check(all(s >= 0 for s in secs) and sum(secs) <= wall + .01, lambda: f"recorded processing time {sum(secs)} in {wall} s of wall time")
    if real:
        mon.count("real_sampling_runs")
    if groups:
        mon.seen(case["seed"])
