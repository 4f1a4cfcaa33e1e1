"""C15: exchange with the external decoder is lossless; a failing or malformed decoder never yields predictions."""
import os
import pathlib
import random
import tempfile
import threading

import numpy as np
import stim

from vlib.core import Violation, must_raise, scratch, chdir
from vlib.fakedec import FakeDecoder, hash_row, same_model
from vlib.gen import STYLES, OBS, make_layout

ID = "C15"
LEVEL = "fault_enumeration"
RULE = ("Random shots/circuits exchanged with a recording external decoder; every fault kind (crash with partial or full output, "
        "signal, no output, empty, truncation at every byte position, dropped/short/long lines, bad characters, missing binary, "
        "missing separators) is injected; binary location, temp directory with spaces and concurrent exchanges are varied. "
        "Distinct by (fault, position, shots, observables).")
ASSUMPTIONS = ["The external binary itself is not available; a recording stand-in obeying its command line takes its place."]
REQUIRED = ["exchanges", "faults_injected", "failures_reported", "repro_files_checked", "tempdirs_checked", "concurrent_exchanges",
            "locations_checked", "wide_answers"]
FAULTS = ["exit", "signal", "exit_full", "no_output", "empty", "truncate", "drop_line", "short_line", "long_line", "bad_char", "missing_separators"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 15)
    q = tier == "quick"
    out = [dict(kind="ok", seed=rng.getrandbits(48)) for _ in range(200 if q else 3000)]
    for f in FAULTS:
        for k in range(8 if q else 60):
            out.append(dict(kind="fault", fault=f, at=rng.randrange(1000), code=rng.choice([1, 2, 77, 255]), char=rng.choice(["2", " ", "x", "\t"]), seed=rng.getrandbits(48)))
    for at in range(0, 24 if q else 120):
        out.append(dict(kind="fault", fault="truncate", at=at, code=1, char="2", seed=seed * 31 + 5, fixed=True))
    for where in ["./", "src/", "../"]:
        for k in range(3):
            out.append(dict(kind="where", where=where, seed=rng.getrandbits(40)))
    out.append(dict(kind="where", where="all", seed=1))
    out += [dict(kind="missing", seed=rng.getrandbits(40)) for _ in range(6)]
    out += [dict(kind="concurrent", seed=rng.getrandbits(40)) for _ in range(6 if q else 60)]
    # wide problems: detector indices of four and five digits
    out += [dict(kind="ok", wide=n, seed=rng.getrandbits(48)) for n in ([300, 1001, 1025, 4097, 9001, 20011, 33000, 66001] if q else [300, 1001, 1025, 4097, 9001, 20011, 33000, 66001, 130003] * 4)]
    out += [dict(kind="ok", many=n, seed=rng.getrandbits(48)) for n in ([257, 1025, 5000, 33000] if q else [257, 1025, 5000, 20000, 70000] * 4)]
    # wide answers: many observables per shot
    out += [dict(kind="ok", nobs=n, seed=rng.getrandbits(48)) for n in ([9, 33, 65, 129, 257, 520, 1030, 1500] if q else [9, 17, 33, 65, 129, 257, 520, 1030, 4100] * 4)]
    for style in STYLES:
        for obs in OBS:
            out.append(dict(kind="layout", w=2, h=6, n=12, style=style, obs=obs, noise=.01, seed=rng.getrandbits(40)))
    rng.shuffle(out)
    return out


def random_problem(rng, nobs=None, shots=None, n=None):
    wide = n is not None
    n = rng.choice([0, rng.randint(1, 40), rng.randint(1, 40), rng.randint(1, 40)]) if n is None else n
    nobs = rng.randint(0, 4) if nobs is None else nobs
    lines = []
    least = rng.choice([-4, -4, -12, -40])
    for k in range(0 if not n else rng.randint(1, 30) if not wide else rng.randint(n // 2, n)):
        ts = rng.sample(range(n), min(n, rng.randint(1, 2)))
        ts += [n + o for o in range(nobs) if rng.random() < .3]
        lines.append(f"E({10 ** rng.uniform(least, -.5)!r}) " + " ".join(f"X{t}" for t in ts))
    lines.append("M " + " ".join(map(str, range(max(1, n + nobs)))))
    lines += [f"DETECTOR({k},0,1) rec[{k - n - nobs}]" for k in range(n)]
    lines += [f"OBSERVABLE_INCLUDE({o}) rec[{o - nobs}]" for o in range(nobs)]
    c = stim.Circuit("\n".join(lines))
    shots = rng.choice([0, 1, 2, 9, 33, 100]) if shots is None else shots
    dens = rng.choice([0, .05, .3, .9, 1])
    if wide:
        dens = rng.choice([.002, .3])
    s = np.array([[rng.random() < dens for _ in range(n)] for _ in range(shots)], dtype=bool).reshape(shots, n)
    return c, s, nobs


def fired(s):
    return [[f"D{k}" for k in np.flatnonzero(r)] for r in s]


def decode(c, s, corr):
    from decoding import decode_using_internal_decoder
    return decode_using_internal_decoder(circuit=c, det_samples=s, use_correlated_decoding=corr)


def check_exchange(rec, c, s, corr, mon):
    mon.check(same_model(rec["dem"], c.detector_error_model(decompose_errors=True)),
              "error model received by the decoder differs from the circuit's")
    lines = rec["dets"].split("\n")
    mon.eq(lines[-1], "", "end of shot file")
    mon.eq([l.split(" ") for l in lines[:-1]], [["shot"] + f for f in fired(s)], "shots received by the decoder")
    a = rec["argv"]
    mon.eq(a[a.index("-mode") + 1], "fi_match_from_dem", "decoder mode")
    mon.check("-ignore_distance_1_errors" in a, "distance 1 errors not ignored")
    flags = {f for f in a if f in ("-cheap_corr", "-edge_corr", "-node_corr")}
    mon.eq(flags, {"-cheap_corr", "-edge_corr", "-node_corr"} if corr else set(), f"correlation flags when correlated={corr}")
    mon.count("exchanges")


class _Temp:
    """Gives the code under test its own temp directory and checks nothing is left in it."""

    def __init__(self, d, mon, name):
        self.t = pathlib.Path(d) / name
        self.t.mkdir()
        self.mon = mon

    def __enter__(self):
        self.old = tempfile.tempdir
        self.env = os.environ.get("TMPDIR")
        tempfile.tempdir = str(self.t)
        os.environ["TMPDIR"] = str(self.t)
        return self

    def __exit__(self, *exc):
        tempfile.tempdir = self.old
        os.environ["TMPDIR"] = self.env or "/tmp"
        if exc[0] is None:
            left = sorted(p.name for p in self.t.rglob("*"))
            self.mon.check(not left, lambda: f"temporary files left behind: {left[:5]}", "tempdirs_checked")


def run_case(case, mon):
    rng = random.Random(case["seed"])
    kind = case["kind"]
    with scratch() as d:
        cwd = d / "work"
        cwd.mkdir()
        tname = rng.choice(["tmp", "a b c", "tmp-x"])
        if kind in ("ok", "layout"):
            if kind == "layout":
                c = make_layout(case).make_circuit()
                s = c.compile_detector_sampler(seed=rng.getrandbits(32)).sample(40)
                nobs = c.num_observables
            else:
                c, s, nobs = random_problem(rng, nobs=case.get("nobs"), n=case.get("wide"), shots=rng.choice([1, 3, 8]) if "wide" in case or "nobs" in case else case.get("many"))
            corr = rng.random() < .5
            idx = rng.random() < .5
            with chdir(cwd), _Temp(d, mon, tname):
                fake = FakeDecoder(cwd, mode="hash", num_obs=nobs, indexed=idx)
                before = s.copy()
                got = decode(c, s, corr)
                mon.check((s == before).all(), "shots were modified")
                log = fake.log()
                mon.eq(len(log), 1, "decoder runs")
                check_exchange(log[0], c, s, corr, mon)
                want = [hash_row(f, k, nobs, idx) for k, f in enumerate(fired(s))]
                mon.eq(tuple(got.shape), (len(s), nobs), "prediction shape")
                mon.eq([[bool(v) for v in r] for r in got], want, "predictions as answered by the decoder")
                left = sorted(p.name for p in cwd.iterdir() if p.name not in ("log", "policy.json", "internal_decoder.binary"))
                mon.eq(left, [], "files left in the working directory after a successful run")
            if nobs > 128:
                mon.count("wide_answers")
            if len(s):
                mon.seen("ok", nobs, len(s), str(c))
        elif kind == "fault":
            c, s, nobs = random_problem(rng, nobs=rng.randint(1, 3), shots=rng.choice([1, 3, 8]))
            if case.get("fixed"):
                c, s, nobs = random_problem(rng, nobs=2, shots=8)
            f = case["fault"]
            if f == "truncate":
                total = len(s) * (nobs + 1)
                if case["at"] >= total and case.get("fixed"):
                    return
            if f == "missing_separators" and len(s) * nobs == 0:
                return
            corr = rng.random() < .5
            with chdir(cwd), _Temp(d, mon, tname):
                FakeDecoder(cwd, mode="hash", num_obs=nobs, fault=f, at=case["at"], code=case["code"], char=case["char"])
                mon.count("faults_injected")
                try:
                    got = decode(c, s, corr)
                except Exception:
                    mon.count("failures_reported")
                else:
                    raise Violation(f"decoder fault {f} (position {case['at']}) went unnoticed: predictions {got.tolist()[:4]} were returned")
                if f in ("exit", "signal", "exit_full"):
                    rep = {n: (cwd / n).exists() for n in ("repro.dem", "repro.dets", "repro.stim")}
                    mon.check(all(rep.values()), lambda: f"crash not made reproducible: {rep}")
                    mon.check(same_model((cwd / "repro.dem").read_text(), c.detector_error_model(decompose_errors=True)), "repro.dem is not the failing model")
                    mon.check(stim.Circuit((cwd / "repro.stim").read_text()).approx_equals(c, atol=2e-6), "repro.stim is not the failing circuit")
                    mon.eq([l.split(" ") for l in (cwd / "repro.dets").read_text().split("\n") if l],
                           [["shot"] + x for x in fired(s)], "repro.dets")
                    mon.count("repro_files_checked")
            mon.seen(f, case["at"] if f == "truncate" else 0, nobs, len(s))
        elif kind == "missing":
            c, s, nobs = random_problem(rng)
            deep = cwd / "x" / "y"
            deep.mkdir(parents=True)
            with chdir(deep), _Temp(d, mon, tname):
                with must_raise(mon, "decoding without the external decoder installed", RuntimeError):
                    decode(c, s, False)
            mon.count("failures_reported")
        elif kind == "where":
            c, s, nobs = random_problem(rng, nobs=2, shots=5)
            run = cwd / "run"
            (run / "src").mkdir(parents=True)
            places = ["./", "src/", "../"] if case["where"] == "all" else [case["where"]]
            fakes = {w: FakeDecoder((run / w).resolve(), mode="hash", num_obs=2) for w in places}
            with chdir(run), _Temp(d, mon, tname):
                got = decode(c, s, False)
            mon.eq([[bool(v) for v in r] for r in got], [hash_row(f, k, 2, False) for k, f in enumerate(fired(s))], "predictions")
            mon.eq({w: len(f.log()) for w, f in fakes.items()}, {w: int(w == places[0]) for w in places}, "which decoder ran")
            mon.count("locations_checked")
        else:
            nobs = 2
            jobs = [random_problem(rng, nobs=nobs, shots=rng.randint(1, 30)) for _ in range(6)]
            res = [None] * len(jobs)
            with chdir(cwd), _Temp(d, mon, tname):
                FakeDecoder(cwd, mode="hash", num_obs=nobs, delay=.03)

                def work(k):
                    try:
                        res[k] = decode(jobs[k][0], jobs[k][1], bool(k % 2))
                    except Exception as ex:
                        res[k] = ex
                ts = [threading.Thread(target=work, args=(k,)) for k in range(len(jobs))]
                [t.start() for t in ts]
                [t.join() for t in ts]
                for k, (c, s, _) in enumerate(jobs):
                    if isinstance(res[k], Exception):
                        raise Violation(f"concurrent exchange failed: {res[k]!r}")
                    mon.eq([[bool(v) for v in r] for r in res[k]], [hash_row(f, i, nobs, False) for i, f in enumerate(fired(s))],
                           "predictions of a concurrent exchange")
                    mon.count("concurrent_exchanges")
            mon.seen("concurrent", case["seed"])
