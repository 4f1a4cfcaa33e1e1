"""C17: collected records are durable: finished batches survive any crash, earlier data survives, appenders do not interfere."""
import os
import random
import select
import signal
import sys
import time

import stim

from vlib.core import Violation, Inconclusive, scratch, chdir, captured_stdout, must_raise
from vlib.collect import rows, desc_fields, scripted_sampler, random_desc, COLUMNS

ID = "C17"
LEVEL = "fault_enumeration"
RULE = ("Collection runs in child processes that are ended (exception, abrupt exit, SIGKILL from inside at every batch index, "
        "SIGKILL from outside at random times) while file and standard output are observed; append/discard/resume sequences, "
        "concurrent appenders, unwritable outputs. Non-trivial: at least one record existed at the crash; distinct by "
        "(collector, crash kind, batch index, history).")
ASSUMPTIONS = ["Durability is against process death, not power loss. Collectors that share a file do not discard it."]
REQUIRED = ["crashes_injected", "records_survived", "online_prefix_checks", "append_sessions", "discard_sessions", "concurrent_records",
            "external_kills", "write_failures_reported", "empty_files_resumed", "large_files", "concurrent_creations", "kills_among_concurrent_collectors", "unterminated_files"]
HEADER = ",".join(COLUMNS)


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 17)
    q = tier == "quick"
    out = []
    for coll in ("experiment", "detection"):
        for how in ("raise", "exit", "kill", "sysexit"):
            for at in range(0, 10 if q else 40):
                out.append(dict(kind="crash", coll=coll, how=how, at=at, seed=rng.getrandbits(40), old=rng.random() < .5))
        out += [dict(kind="sessions", coll=coll, seed=rng.getrandbits(40)) for _ in range(60 if q else 600)]
        out += [dict(kind="unwritable", coll=coll, seed=rng.getrandbits(40)) for _ in range(4)]
        out += [dict(kind="concurrent", coll=coll, seed=rng.getrandbits(40)) for _ in range(5 if q else 40)]
        out += [dict(kind="concurrent", coll=coll, start=s, seed=rng.getrandbits(40)) for _ in range(15 if q else 150) for s in ("fresh", "empty")]
    out += [dict(kind="extkill", coll="experiment", seed=rng.getrandbits(40)) for _ in range(16 if q else 150)]
    rng.shuffle(out)
    return out


def circuit():
    return stim.Circuit("X_ERROR(0.2) 0\nM 0\nDETECTOR rec[-1]\nX_ERROR(0.1) 1\nM 1\nOBSERVABLE_INCLUDE(0) rec[-1]")


def collect(coll, probs, out, discard, rng, sampler=True):
    import collect_data
    if coll == "detection":
        collect_data.collect_detection_fraction_data(probs, shots=rng.choice([1, 16, 100]), out_path=out, discard_previous_data=discard)
        return
    kw = dict(min_shots=3, max_shots=12, max_batch=3, min_seen_logical_errors=10 ** 6, out_path=out, discard_previous_data=discard)
    collect_data.collect_simulated_experiment_data(probs, **kw)


def problems(rng, n, hook=None):
    from collect_data import DecodingProblem
    out = []
    for k in range(n):
        def make(k=k):
            if hook:
                hook()
            return circuit()
        out.append(DecodingProblem(desc=random_desc(rng, decoder="pymatching", data_width=k + 1), circuit_maker=make))
    return out


def old_text(rng, n=None):
    text = HEADER + "\n"
    for _ in range(rng.randint(0, 4) if n is None else n):
        text += ",".join(["4", "6", str(rng.randint(1, 9)), "0.001", "honeycomb_SD6", "H", "4", "60", "100", str(rng.randint(0, 100)),
                          repr(rng.random()), "internal", "2"]) + "\n"
    return text


def in_child(fn):
    """Runs fn in a forked child with stdout on a pipe. Returns (pid, read fd)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.dup2(w, 1)
            sys.stdout = os.fdopen(1, "w")
            fn()
            sys.stdout.flush()
            os._exit(0)
        except SystemExit:
            os._exit(7)
        except BaseException:
            os._exit(9)
    os.close(w)
    return pid, r


def drain(fd):
    data = b""
    while True:
        b = os.read(fd, 65536)
        if not b:
            break
        data += b
    os.close(fd)
    return data.decode()


def parse(text, what):
    try:
        return rows(text)
    except ValueError as ex:
        raise Violation(f"{what}: {ex}")


def run_case(case, mon):
    rng = random.Random(case["seed"])
    with scratch() as d, chdir(d):
        globals()["_" + case["kind"]](case, rng, mon, d)


def _crash(case, rng, mon, d):
    out = d / "o.csv"
    base = ""
    if case["old"]:
        base = old_text(rng)
        out.write_text(base)
    n_old = len(parse(base, "old")) if base else 0
    notes = d / "notes"
    state = dict(calls=0)

    def hook():
        # Online monitor: when the next batch starts, all finished batches are on disk.
        k = state["calls"]
        state["calls"] += 1
        try:
            have = len(rows(out.read_text()))
        except (ValueError, OSError):
            have = -1
        with open(notes, "a") as f:
            f.write(f"{k} {have}\n")
        if k == case["at"]:
            if case["how"] == "raise":
                raise RuntimeError("injected")
            if case["how"] == "exit":
                os._exit(5)
            if case["how"] == "sysexit":
                raise KeyboardInterrupt()
            os.kill(os.getpid(), signal.SIGKILL)

    probs = problems(rng, 12, hook)
    pid, fd = in_child(lambda: collect(case["coll"], probs, str(out), False, rng))
    text = drain(fd)
    _, status = os.waitpid(pid, 0)
    mon.check(status != 0, "the injected crash did not end the run")
    mon.count("crashes_injected")
    recs = parse(out.read_text(), "file after the crash")
    mon.check(out.read_text().startswith(base), "earlier data was not preserved")
    mon.eq(len(recs), n_old + case["at"], f"records on disk after a crash in batch {case['at']}")
    mon.count("records_survived", len(recs))
    printed = parse(text, "standard output at the crash")
    mon.eq(printed, recs[n_old:], "records printed versus records on disk")
    for line in notes.read_text().split("\n")[:-1]:
        k, have = map(int, line.split())
        mon.eq(have, n_old + k, f"records on disk when batch {k} started", "online_prefix_checks")
    if recs:
        mon.seen(case["coll"], case["how"], case["at"], bool(base))


def _sessions(case, rng, mon, d):
    out = d / "data.csv"
    expect = None
    r = rng.random()
    if r < .4:
        expect = old_text(rng, rng.choice([None, None, 70, 300, 2500]))
        out.write_text(expect)
        if rng.random() < .3:
            out.write_text(expect[:-1])  # e.g. edited by hand; the line is complete but for its end
            mon.count("unterminated_files")
        mon.count("large_files", len(expect) > 4096)
    elif r < .55:
        out.write_text("")  # e.g. left by a run killed while creating the file
        mon.count("empty_files_resumed")
    for _ in range(rng.randint(1, 5)):
        discard = rng.random() < .25
        probs = problems(rng, rng.randint(0, 3))
        with captured_stdout() as buf:
            collect(case["coll"], probs, str(out), discard, rng)
        printed = buf.getvalue()
        parse(printed, "standard output")
        body = printed[len(HEADER) + 1:]
        expect = HEADER + "\n" + body if (discard or expect is None) else expect + body
        mon.eq(out.read_text(), expect, f"file after a session (discard={discard})")
        mon.count("discard_sessions" if discard else "append_sessions")
    with captured_stdout() as buf:
        collect(case["coll"], problems(rng, 1), None, rng.random() < .5, rng)
    mon.check(len(parse(buf.getvalue(), "stdout")) >= 1, "no records printed without an output file")
    mon.eq(sorted(p.name for p in d.iterdir()), ["data.csv"], "files created")
    mon.seen("sessions", case["coll"], case["seed"])


def _unwritable(case, rng, mon, d):
    for path in (str(d / "missing" / "o.csv"), "/dev/full", str(d)):
        with captured_stdout():
            with must_raise(mon, f"output to {path}", OSError):
                collect(case["coll"], problems(rng, 1), path, False, rng)
        mon.count("write_failures_reported")


def _concurrent(case, rng, mon, d):
    out = d / "shared.csv"
    # The shared file has records already, is empty, or is created by whichever collector comes first.
    start = case.get("start", "old")
    base = old_text(rng, 2) if start == "old" else HEADER + "\n"
    if start != "fresh":
        out.write_text(base if start == "old" else "")
    pids = []
    n = 5
    for k in range(n):
        def work(k=k):
            r2 = random.Random(case["seed"] * 100 + k)
            if start != "old":
                delay_file_access(r2)
            probs = problems(r2, 5, hook=lambda: time.sleep(r2.random() * .004))
            for p in probs:
                p.desc = p.desc.with_changes(rounds=1000 + k)
            collect(case["coll"], probs, str(out), False, r2)
        pids.append(in_child(work))
    victim = rng.randrange(n) if rng.random() < .4 else None
    if victim is not None:
        time.sleep(rng.uniform(0, .08))
        os.kill(pids[victim][0], signal.SIGKILL)
    texts = [drain(fd) for _, fd in pids]
    for k, (pid, _) in enumerate(pids):
        _, st = os.waitpid(pid, 0)
        if k != victim:
            mon.eq(st, 0, "status of a concurrent collector")
    text = out.read_text()
    mon.check(text.startswith(base), "earlier data was not preserved")
    got = sorted(text[len(base):].split("\n")[:-1])
    want = sorted(l for t in texts for l in t[:t.rfind("\n") + 1].split("\n")[1:] if l)
    if victim is not None:
        # The killed collector may have been stopped between writing a record and printing it.
        extra = [l for l in got if l not in want]
        mon.check(len(extra) <= 1 and all(l.split(",")[2] == str(1000 + victim) for l in extra),
                  lambda: f"records in the file that nobody printed: {extra}")
        want = sorted(want + extra)
        mon.count("kills_among_concurrent_collectors")
    mon.eq(len(got), len(want), "records in the shared file")
    mon.check(got == want, "records in the shared file are torn or altered")
    parse(text, "shared file")
    mon.count("concurrent_records", len(want))
    if start != "old":
        mon.count("concurrent_creations")
    order = [l.split(",")[2] for l in text[len(base):].split("\n") if l]
    mon.seen("concurrent", case["coll"], start, tuple(order))


def delay_file_access(rng):
    """Injects delays around every look at and opening of a file, so that collectors interleave there."""
    import builtins
    import pathlib
    for owner, name in ((builtins, "open"), (os, "open"), (os, "stat"), (pathlib.Path, "exists"), (pathlib.Path, "stat"), (pathlib.Path, "open")):
        def slow(*args, _real=getattr(owner, name), **kw):
            time.sleep(rng.choice([0, 0, .001, .01, .03]) * rng.random())
            r = _real(*args, **kw)
            time.sleep(rng.choice([0, 0, .001, .01, .03]) * rng.random())
            return r
        setattr(owner, name, slow)


def _extkill(case, rng, mon, d):
    out = d / "o.csv"
    probs = problems(rng, 4000)
    pid, fd = in_child(lambda: collect("experiment", probs, str(out), False, rng))
    time.sleep(rng.uniform(.01, .25))
    os.kill(pid, signal.SIGKILL)
    text = drain(fd)
    os.waitpid(pid, 0)
    mon.count("external_kills")
    ftext = out.read_text() if out.exists() else ""
    if not ftext:
        mon.check(text.count("\n") <= 1, "records were printed but none are on disk")
        return
    recs = parse(ftext, "file after SIGKILL")
    printed = [l for l in text.split("\n")[:-1]][1:]
    mon.check(len(recs) >= len(printed), lambda: f"{len(printed)} records printed, only {len(recs)} on disk")
    mon.check(len(recs) <= len(printed) + 1, lambda: f"{len(recs)} records on disk but {len(printed)} printed")
    mon.eq(ftext.split("\n")[1:1 + len(printed)], printed, "records on disk versus printed")
    if recs:
        mon.count("records_survived", len(recs))
        mon.seen("extkill", len(recs))
