"""C11: measurement bookkeeping resolves every key, group and 'previous' reference to exactly the right results."""
import collections
import random

import stim

from vlib.core import Violation, must_raise

ID = "C11"
LEVEL = "exploration"
RULE = ("Random histories of up to 400 operations (measure, dummy, obstacle, group, query with nested 'previous' references, "
        "detectors, reference times; some with hundreds of keys, references and results at once) applied in lock step to the tracker and to a naive model that keeps explicit lists. "
        "Non-trivial: the history asked at least 10 questions with a non-empty answer; distinct by history.")
ASSUMPTIONS = []
REQUIRED = ["queries", "nonempty_answers", "blocked_answers", "refusals_observed", "detectors_appended", "executions_replayed", "big_histories"]


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 11)
    out = [dict(kind="history", seed=rng.getrandbits(48), ops=rng.choice([30, 80, 200, 400])) for _ in range(1500 if tier == "quick" else 20000)]
    out += [dict(kind="history", big=True, seed=rng.getrandbits(48), ops=rng.choice([20, 40])) for _ in range(120 if tier == "quick" else 2000)]
    out += [dict(kind="refuse", seed=rng.getrandbits(48)) for _ in range(40)]
    out += [dict(kind="circuit", seed=rng.getrandbits(48)) for _ in range(300 if tier == "quick" else 4000)]
    return out


class Key:
    """A hashable key type with value equality, like the layouts use."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Key) and o.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return f"Key({self.v})"


class Naive:
    def __init__(self):
        self.time = 0
        self.log = []  # (key, value) newest last
        self.by_key = {}
        self.seen_upto = 0

    def vals(self, key):
        for k, v in self.log[self.seen_upto:]:
            self.by_key.setdefault(k, []).append(v)
        self.seen_upto = len(self.log)
        return self.by_key.get(key, [])

    def nth(self, key, back):
        vals = self.vals(key)
        return vals[len(vals) - 1 - back]

    def count(self, key):
        return len(self.vals(key))

    def value(self, refs):
        total = []
        for key, back in refs:
            v = self.nth(key, back)
            if v is None:
                return None
            total += v
        return sorted(x for x, c in collections.Counter(total).items() if c % 2)


def fresh(k):
    """Equal but not identical key."""
    if isinstance(k, tuple):
        return tuple(fresh(e) for e in k)
    if isinstance(k, Key):
        return Key(k.v)
    return k


def run_case(case, mon):
    from measure_tracker import MeasurementTracker, Prev
    rng = random.Random(case["seed"])
    if case["kind"] == "refuse":
        t = MeasurementTracker()
        t.add_measurements("a", "b")
        t.add_group("a", group_key="g")
        attempts = [
            lambda: t.add_measurements(None),
            lambda: t.add_measurements(Prev("a")),
            lambda: t.add_dummies(None),
            lambda: t.add_dummies(Prev("a")),
            lambda: t.add_group("a", group_key=None),
            lambda: t.add_group("a", group_key=Prev("a")),
            lambda: t.get_record_targets("never"),
            lambda: t.get_record_targets(Prev("a")),
            lambda: t.get_record_targets("a", Prev("g", offset=1)),
            lambda: t.get_record_targets(Prev(Prev("b"))),
            lambda: t.add_group("never2", group_key="q"),
            lambda: t.get_record_targets(Prev("a", offset=-1)),
            lambda: t.get_record_targets(Prev(Prev("a", offset=-3), offset=1)),
            lambda: t.measurement_time_set("b", Prev("g", offset=-1)),
        ]
        for k, f in enumerate(attempts):
            with must_raise(mon, f"invalid tracker request #{k}", AssertionError, KeyError, IndexError, ValueError, TypeError):
                f()
        mon.eq([x.value for x in t.get_record_targets("a", "b", "g")], [-1], "answers after refused requests")
        return
    if case["kind"] == "circuit":
        return circuit_case(rng, mon, MeasurementTracker, Prev)

    t, n = MeasurementTracker(), Naive()
    pool = ["k", ("1/2", 3), 1 + 2j, 7, Key(1), ("1/2", Key(1)), Key(2), (0, "x"), frozenset([3]), "q" * rng.randint(1, 3)]
    pool = rng.sample(pool, rng.randint(2, len(pool)))
    big = case.get("big", False)
    if big:
        pool = pool + [(k, "big") for k in range(rng.choice([80, 300, 600]))]
        mon.count("big_histories")

    def size(common, rare):
        """How many keys to use at once."""
        if big and rng.random() < .4:
            return rng.choice([33, 64, 100, 129, 256, 300, rng.randint(1, 700)])
        return rng.randint(*common) if rng.random() < .85 else rng.randint(*rare)

    def ref():
        for _ in range(40):
            k = rng.choice(pool)
            if n.count(k):
                break
        else:
            return None
        back = rng.randint(0, min(5, n.count(k) - 1))
        return k, back

    def as_arg(k, back):
        k = fresh(k)
        if back == 0:
            return k if rng.random() < .8 else Prev(k, offset=0)
        if back >= 2 and rng.random() < .5:
            a = rng.randint(1, back - 1)
            return Prev(Prev(k, offset=a), offset=back - a)
        if back == 1 and rng.random() < .7:
            return Prev(k)
        return Prev(k, offset=back)

    answered = 0
    for _ in range(case["ops"]):
        r = rng.random()
        if r < .3:
            ks = [rng.choice(pool) for _ in range(rng.choice([500, 513, 1000, 1025, rng.randint(1, 5000)]) if big and rng.random() < .3 else size((0, 4), (0, 4)) if rng.random() < .97 else rng.randint(5, 40))]
            t.add_measurements(*[fresh(k) for k in ks])
            for k in ks:
                n.log.append((k, [n.time]))
                n.time += 1
        elif r < .38:
            ks = [rng.choice(pool) for _ in range(rng.randint(1, 3) if not big else size((1, 3), (1, 3)))]
            ob = rng.random() < (.4 if not big else .02)
            t.add_dummies(*[fresh(k) for k in ks], obstacle=ob)
            for k in ks:
                n.log.append((k, None if ob else []))
        elif r < .6:
            refs = [x for x in (ref() for _ in range(size((0, 4), (6, 24)))) if x]
            g = rng.choice(pool)
            t.add_group(*[as_arg(*x) for x in refs], group_key=fresh(g))
            n.log.append((g, n.value(refs)))
        else:
            refs = [x for x in (ref() for _ in range(size((0, 5), (6, 24)))) if x]
            want = n.value(refs)
            args = [as_arg(*x) for x in refs]
            mon.count("queries")
            t0 = n.time
            kw = {}
            single = [k for k in pool if n.count(k) and n.nth(k, 0) is not None and len(n.nth(k, 0)) == 1]
            if single and rng.random() < .2:
                k = rng.choice(single)
                t0 = n.nth(k, 0)[0] + 1
                if want is not None and any(w >= t0 for w in want):
                    t0 = n.time
                else:
                    kw = dict(for_time_after_measurement=fresh(k))
            got = t.get_record_targets(*args, **kw)
            if want is None:
                mon.check(got is None, lambda: f"a question depending on an unknown value was answered {got}")
                mon.count("blocked_answers")
            else:
                mon.check(got is not None, "a known value was reported as unknown")
                mon.eq([x.value for x in got], [w - t0 for w in want], f"records for {refs}")
                if want:
                    answered += 1
                    mon.count("nonempty_answers")
            mt = t.measurement_time_set(*args)
            mon.eq(None if mt is None else sorted(mt), want, "absolute records")
            c = stim.Circuit()
            coords = [rng.choice([rng.randint(0, 5), -.5, 1e9]) for _ in range(rng.randint(0, 3) if rng.random() < .8 else rng.randint(4, 16))]
            t.append_detector(*args, out_circuit=c, coords=coords, **kw)
            if want is None:
                mon.eq(len(c), 0, "detectors emitted for an unknown value")
            else:
                mon.eq(len(c), 1, "detectors emitted")
                mon.eq((c[0].name, [x.value for x in c[0].targets_copy()], c[0].gate_args_copy()),
                       ("DETECTOR", [w - t0 for w in want], [float(x) for x in coords]), "detector")
                mon.count("detectors_appended")
    if answered >= (10 if not big else 3):
        mon.seen(case["seed"])


def circuit_case(rng, mon, MeasurementTracker, Prev):
    """End to end: repeated measurement of idle qubits; detectors asked through the tracker must always be satisfied."""
    t = MeasurementTracker()
    q = rng.randint(2, 6)
    c = stim.Circuit()
    flips = [rng.random() < .5 for _ in range(q)]
    c.append("RX", range(q))
    seen = {}
    dets = 0
    for _ in range(rng.randint(5, 40)):
        ks = rng.sample(range(q), rng.randint(1, q))
        c.append("M", ks)
        t.add_measurements(*ks)
        for k in ks:
            seen[k] = seen.get(k, 0) + 1
        if rng.random() < .5:
            known = [k for k in seen if isinstance(k, int)]
            g = rng.sample(known, rng.randint(1, len(known)))
            t.add_group(*g, group_key=("g", tuple(sorted(g))))
            seen[("g", tuple(sorted(g)))] = seen.get(("g", tuple(sorted(g))), 0) + 1
        for k, cnt in list(seen.items()):
            if cnt >= 2:
                t.append_detector(k, Prev(k, offset=rng.randint(1, cnt - 1)), out_circuit=c)
                dets += 1
    if dets:
        s = c.compile_sampler().sample(32)
        d = c.compile_m2d_converter(skip_reference_sample=True).convert(measurements=s, append_observables=False)
        mon.eq(d.shape[1], dets, "detectors")
        mon.check(not d.any(), "a result compared with an earlier result of the same qubits disagreed")
    mon.count("executions_replayed")
