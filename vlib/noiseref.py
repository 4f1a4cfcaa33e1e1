"""Independent statement of the noise models, and canonical forms for observing noisy circuits.

A circuit is observed as the sequence of moments it executes (control flow unrolled, split at TICK). A moment is
canonicalised as the sequence of events each qubit undergoes, so that the way instructions are grouped or interleaved on
disjoint qubits does not matter.
"""
import collections

import stim

from vlib.ref import flat_ops

C1 = {"C_XYZ", "C_ZYX", "H", "H_YZ", "I"}
C2 = {"CX", "CY", "CZ", "XCX", "XCY", "XCZ", "YCX", "YCY", "YCZ"}
RESETS = {"R": "Z", "RX": "X", "RY": "Y"}
MEASURES = {"M": "Z", "MX": "X", "MY": "Y"}
ANNOTATIONS = {"OBSERVABLE_INCLUDE", "DETECTOR", "SHIFT_COORDS", "QUBIT_COORDS", "TICK"}


class Model:
    """Strength of the noise per operation. gates maps gate name -> strength; absent means the model refuses the gate."""

    def __init__(self, gates, idle, mr_idle, correlated=False):
        self.gates, self.idle, self.mr_idle, self.correlated = gates, idle, mr_idle, correlated


def model(name, p):
    if name == "SD6":
        return Model({**{g: p for g in C1}, "CX": p, "R": p, "M": p}, p, 0)
    if name == "PC3":
        return Model({**{g: p for g in C1 | C2}, "R": p, "M": p}, p, 0)
    if name in ("EM3", "EM3_v1"):
        return Model({**{g: p for g in C1}, "R": p, "M": p, "MPP": p}, p, 0)
    if name == "EM3_v2":
        return Model({**{g: 0 for g in C1 | C2}, "R": p / 2, "M": p / 2, "MPP": p}, p, 0, correlated=True)
    if name == "SI1000":
        return Model({**{g: p / 10 for g in C1}, "CZ": p, "R": 2 * p, "M": 5 * p}, p / 10, 2 * p)
    raise KeyError(name)


def repo_model(name, p):
    from noise import NoiseModel
    return getattr(NoiseModel, {"EM3": "EM3_v1"}.get(name, name))(p)


# ---------------------------------------------------------------------------------------------

def moments(circuit):
    """[[instruction, ...] per moment] in execution order."""
    cur = []
    for op in flat_ops(circuit):
        if op.name == "TICK":
            yield cur
            cur = []
        else:
            cur.append(op)
    yield cur


def _flat_marked(circuit):
    for op in circuit:
        if isinstance(op, stim.CircuitRepeatBlock):
            body = op.body_copy()
            for _ in range(op.repeat_count):
                yield None
                yield from _flat_marked(body)
            yield None
        else:
            yield op


def segmented_moments(circuit):
    """Like moments, but each moment is a list of segments, split where control enters, repeats or leaves a block."""
    cur = [[]]
    for op in _flat_marked(circuit):
        if op is None:
            cur.append([])
        elif op.name == "TICK":
            yield [s for s in cur if s]
            cur = [[]]
        else:
            cur[-1].append(op)
    yield [s for s in cur if s]


def loosened(rng, circuit, inside=False):
    """Randomly drops TICKs next to block boundaries, so that blocks start and end in the middle of a moment."""
    out = stim.Circuit()
    ops = list(circuit)
    for k, op in enumerate(ops):
        if isinstance(op, stim.CircuitRepeatBlock):
            out.append(stim.CircuitRepeatBlock(op.repeat_count, loosened(rng, op.body_copy(), True)))
            continue
        at_edge = isinstance(ops[k + 1], stim.CircuitRepeatBlock) if k + 1 < len(ops) else inside
        if op.name == "TICK" and at_edge and len(ops) > 1 and rng.random() < .6:
            continue
        out.append(op)
    return out


def rnd(p):
    return float(f"{p:.9g}")


def _groups(op):
    """Splits an instruction into its independent applications."""
    if op.name == "MPP":
        out, cur = [], []
        ts = op.targets_copy()
        k = 0
        while k < len(ts):
            cur = [ts[k]]
            k += 1
            while k < len(ts) and ts[k].is_combiner:
                cur.append(ts[k + 1])
                k += 2
            out.append(cur)
        return out
    if op.name in ("E", "CORRELATED_ERROR", "ELSE_CORRELATED_ERROR"):
        return [op.targets_copy()]
    return op.target_groups()


def _tkey(t):
    if t.is_x_target or t.is_y_target or t.is_z_target:
        return t.pauli_type + str(t.value)
    return t.value


def events(ops):
    """Yields (name, args, target keys, inverted, qubits) per application; annotations excluded."""
    for op in ops:
        if op.name in ANNOTATIONS:
            continue
        args = tuple(rnd(a) for a in op.gate_args_copy())
        for g in _groups(op):
            inv = sum(t.is_inverted_result_target for t in g) % 2
            yield op.name, args, tuple(_tkey(t) for t in g), inv, tuple(t.value for t in g)


SYMMETRIC = {"CZ", "XCX", "YCY", "DEPOLARIZE2"}


def norm_event(name, args, tk, inv, qs):
    if name in SYMMETRIC:
        tk = tuple(sorted(tk, key=str))
    if name == "MPP":
        tk = tuple(sorted(tk, key=str))
        args = tuple(a for a in args if a)
    if name == "XCY":
        name, tk = "YCX", tk[::-1]
    if name == "XCZ":
        name, tk = "CX", tk[::-1]
    if name == "YCZ":
        name, tk = "CY", tk[::-1]
    return name, args, tk, inv


def canon(evs):
    """evs: iterable of (name,args,tkeys,inv,qubits). -> ({qubit: (event, ...)}, [measurement order])."""
    per = collections.defaultdict(list)
    recs = []
    for e in evs:
        n = norm_event(*e)
        for q in set(e[4]):
            per[q].append(n)
        if e[0] in MEASURES or e[0] in ("MPP", "MPPC"):
            recs.append((n[0], n[2]))
    out = {}
    for q, seq in per.items():
        out[q] = tuple(_merge_noise(seq))
    return out, recs


def _merge_noise(seq):
    """Adjacent single qubit noise events commute: sort runs of them."""
    run = []
    for e in seq:
        if e[0] in ("DEPOLARIZE1", "X_ERROR", "Y_ERROR", "Z_ERROR"):
            run.append(e)
        else:
            yield from sorted(run)
            run = []
            yield e
    yield from sorted(run)


def reference_noisy_events(ops, m: Model, qs):
    """The events a moment must undergo under model m."""
    pre, mid, post = [], [], []
    used, mr = set(), set()
    for name, args, tk, inv, q in events(ops):
        p = m.gates[name]
        used |= set(q)
        if name in RESETS or name in MEASURES:
            mr |= set(q)
        if p > 0:
            if name in C1:
                post.append(("DEPOLARIZE1", (rnd(p),), tk, 0, q))
            elif name in C2:
                post.append(("DEPOLARIZE2", (rnd(p),), tk, 0, q))
            elif name in RESETS:
                post.append(("Z_ERROR" if RESETS[name] == "X" else "X_ERROR", (rnd(p),), tk, 0, q))
            elif name in MEASURES:
                pre.append(("Z_ERROR" if MEASURES[name] == "X" else "X_ERROR", (rnd(p),), tk, 0, q))
            elif name == "MPP":
                if m.correlated:
                    name, args = "MPPC", (rnd(p),)
                else:
                    pre.append(("DEPOLARIZE2", (rnd(p),), q, 0, q))
                    args = (rnd(p),)
        mid.append((name, args, tk, inv, q))
    if used and m.idle > 0:
        post += [("DEPOLARIZE1", (rnd(m.idle),), (q,), 0, (q,)) for q in sorted(qs - used)]
    if mr and m.mr_idle > 0:
        post += [("DEPOLARIZE1", (rnd(m.mr_idle),), (q,), 0, (q,)) for q in sorted(qs - mr)]
    return pre + mid + post


class GadgetError(Exception):
    pass


def fold_gadgets(ops, helper):
    """Replaces each parity-measurement-through-helper gadget by one MPPC pseudo event carrying its exact mixing strength.

    A gadget runs from a reset of the helper to its measurement. Raises GadgetError unless its noise is exactly 'with
    probability P apply a uniformly random element of {I,X,Y,Z}^2 x {no flip, flip}'.
    """
    open_ = None
    for e in events(ops):
        name, args, tk, inv, q = e
        if open_ is None:
            if helper not in q:
                yield e
                continue
            if name != "R":
                raise GadgetError(f"helper qubit {helper} used by {name} before it was reset")
            open_ = []
            continue
        if name == "M" and q == (helper,):
            yield gadget_event(open_, helper, inv)
            open_ = None
            continue
        open_.append(e)
    if open_ is not None:
        raise GadgetError("helper qubit reset but not measured in the moment")


def gadget_event(evs, helper, inv):
    couplings, errors = [], []
    for name, args, tk, i, q in evs:
        if name in ("E", "CORRELATED_ERROR"):
            errors.append((len(couplings), args[0], tk))
        elif name in C2:
            if helper not in q:
                raise GadgetError(f"{name} {tk} inside a parity measurement does not involve its helper")
            couplings.append((name, tk, q))
        elif name in ("DEPOLARIZE1", "DEPOLARIZE2", "X_ERROR", "Y_ERROR", "Z_ERROR"):
            raise GadgetError(f"unexpected noise {name} inside the parity measurement")
        else:
            raise GadgetError(f"unexpected {name} {tk} inside a parity measurement")
    data = []
    for name, tk, q in couplings:
        d = [v for v in q if v != helper]
        data += d
    if len(data) != 2 or len(set(data)) != 2:
        raise GadgetError(f"parity measurement couples its helper to {data}")
    # The Pauli of each data qubit that is kicked onto the helper's measured value.
    basis = {}
    local = {data[0]: 0, data[1]: 1, helper: 2}
    full = stim.Circuit()
    for name, tk, q in couplings:
        full.append(name, [local[v] for v in q])
    for k, d in enumerate(data):
        comm = ""
        for pchar in "XYZ":
            ps = stim.PauliString(3)
            ps[k] = pchar
            out = ps.after(full)
            if out[2] in (0, 3):
                comm += pchar
        if len(comm) != 1:
            raise GadgetError(f"coupling of qubit {d} is not a Pauli measurement")
        basis[d] = comm
    dist = {(0, 0, 0): 1.0}
    for at, p, tk in errors:
        rest = stim.Circuit()
        for name, _, q in couplings[at:]:
            rest.append(name, [local[v] for v in q])
        ps = stim.PauliString(3)
        for t in tk:
            if int(t[1:]) not in local:
                raise GadgetError(f"correlated error touches qubit {t} outside the parity measurement")
            ps[local[int(t[1:])]] = t[0]
        ps = ps.after(rest) if len(rest) else ps
        el = (ps[0], ps[1], 1 if ps[2] in (1, 2) else 0)
        new = {}
        for a, w in dist.items():
            b = (_pm(a[0], el[0]), _pm(a[1], el[1]), a[2] ^ el[2])
            new[a] = new.get(a, 0) + w * (1 - p)
            new[b] = new.get(b, 0) + w * p
        dist = new
    P = 1 - dist[(0, 0, 0)]
    P = P * 32 / 31
    for a in range(4):
        for b in range(4):
            for f in range(2):
                want = P / 32 + (1 - P if (a, b, f) == (0, 0, 0) else 0)
                got = dist.get((a, b, f), 0.0)
                if abs(got - want) > 1e-9 + 1e-6 * abs(want):
                    raise GadgetError(f"error ({'IXYZ'[a]},{'IXYZ'[b]},flip={f}) has probability {got}, expected {want}")
    tk = tuple(basis[d] + str(d) for d in data)
    return "MPPC", (float(f"{P:.6g}"),), tk, inv, tuple(data)


def _pm(a, b):
    if a == 0 or b == 0:
        return a or b
    return 0 if a == b else 6 - a - b


def annotations(circuit):
    """Absolute annotations executed: detectors [(records, coords)], observables {k: records}, qubit coords."""
    n = 0
    dets, obs, qc = [], {}, []
    shift = [0.0] * 16
    for op in flat_ops(circuit):
        nm = op.name
        if nm == "DETECTOR":
            s = set()
            for t in op.targets_copy():
                s ^= {n + t.value}
            dets.append((frozenset(s), tuple(a + shift[i] for i, a in enumerate(op.gate_args_copy()))))
        elif nm == "OBSERVABLE_INCLUDE":
            s = obs.setdefault(int(op.gate_args_copy()[0]), set())
            for t in op.targets_copy():
                s ^= {n + t.value}
        elif nm == "SHIFT_COORDS":
            for i, a in enumerate(op.gate_args_copy()):
                shift[i] += a
        elif nm == "QUBIT_COORDS":
            for t in op.targets_copy():
                qc.append((t.value, tuple(op.gate_args_copy())))
        else:
            n += op.num_measurements
    return dets, obs, sorted(qc), n


# --- random circuits -------------------------------------------------------------------------

def random_circuit(rng, gates, *, depth=2, max_qubits=9, sparse=True, inverted=True, moments_=None):
    """A random valid circuit over the gate set: each qubit touched at most once per moment, blocks tick-terminated."""
    n = rng.randint(2, max_qubits)
    pool = sorted(rng.sample(range(0, n + (rng.choice([0, 3, 9]) if sparse else 0)), n))
    c = stim.Circuit()
    st = dict(meas=0, obs=rng.choice([0, 1, 2, 2, 9, 70]), coords=rng.choice([3, 3, 6]), reach=rng.choice([12, 12, 10 ** 6]), take=4 if max_qubits < 20 else rng.choice([4, 40, 400]), wide=max_qubits >= 20)
    if rng.random() < 0.6:
        for q in pool:
            c.append("QUBIT_COORDS", [q], [q * 2, rng.choice([rng.randint(0, 5), rng.randint(0, 5) + .125, 1.0625])] + [rng.choice([0.5, -1, 7]) for _ in range(rng.choice([0, 0, 0, 2]))])
    if rng.random() < 0.7 and "R" in gates:
        c.append("R", pool)
        c.append("TICK")
    _block(rng, c, gates, pool, depth, st, inverted, moments_ or rng.randint(1, 6))
    return c


def _block(rng, c, gates, pool, depth, st, inverted, k):
    for _ in range(k):
        r = rng.random()
        if depth and r < 0.22:
            body = stim.Circuit()
            before = st["meas"]
            sub = pool if rng.random() < 0.5 else sorted(rng.sample(pool, rng.randint(2, len(pool))))
            _block(rng, body, gates, sub, depth - 1, st, inverted, rng.randint(1, 3))
            reps = rng.choice([1, 2, 3, 4, 4, 17])
            c.append(stim.CircuitRepeatBlock(reps, body))
            st["meas"] = before + (st["meas"] - before) * reps
            continue
        if r < 0.28:
            c.append("SHIFT_COORDS", [], [rng.choice([0, 1, 2, 2, .25, -3, .0625, 1000]) for _ in range(rng.randint(1, st["coords"]))])
            c.append("TICK")
            continue
        free = list(pool)
        rng.shuffle(free)
        if rng.random() < 0.15:
            free = free[:max(1, len(free) // 3)]
        names = sorted(gates)
        take_all = False
        if st["wide"]:
            r = rng.random()
            if r < .25:
                free = free[:rng.randint(1, 4)]
            elif r < .45:
                take_all = True
        while free and rng.random() < 0.9:
            name = rng.choice(names)
            take = len(free) if take_all else 2 * rng.randint(1, st["take"] - 1) if name in C2 or name == "MPP" else rng.randint(1, st["take"])
            ts = free[:take]
            if name in C2 or name == "MPP":
                ts = ts[:len(ts) // 2 * 2]
                if not ts:
                    name = next((g for g in names if g in C1), None)
                    if name is None:
                        break
                    ts = free[:1]
            free = free[len(ts):]
            if name == "MPP":
                targets = []
                for i in range(0, len(ts), 2):
                    a, b = (rng.choice([stim.target_x, stim.target_y, stim.target_z]) for _ in "12")
                    if rng.random() < 0.5:
                        b = a
                    targets += [a(ts[i], invert=inverted and rng.random() < 0.2), stim.target_combiner(),
                                b(ts[i + 1], invert=inverted and rng.random() < 0.15)]
                c.append("MPP", targets)
                st["meas"] += len(ts) // 2
            elif name in MEASURES:
                c.append(name, [stim.target_inv(t) if inverted and rng.random() < 0.15 else t for t in ts])
                st["meas"] += len(ts)
            else:
                c.append(name, ts)
        for _ in range(rng.choice([0, 0, 1, 2])):
            if st["meas"]:
                recs = [stim.target_rec(-rng.randint(1, min(st["meas"], st["reach"]))) for _ in range(rng.randint(1, 3))]
                recs = list({t.value: t for t in recs}.values())
                if rng.random() < 0.7:
                    c.append("DETECTOR", recs, [rng.choice([0, 1, 2, 3, 4, 2.5, -1, 300, 0.1875, 12.3456, 0.03125, 65537, 1e-05]) for _ in range(rng.randint(0, st["coords"]))])
                else:
                    c.append("OBSERVABLE_INCLUDE", recs, rng.randint(0, st["obs"]))
        c.append("TICK")
