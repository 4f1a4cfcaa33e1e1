"""Independent reference model of the honeycomb code protocol (Hastings & Haah, arXiv:2107.02194).

Nothing here imports the code under test. Coordinates follow the convention the emitted circuits annotate:
data qubits at odd x and every y; torus of circumference (2*width, height).

    hexes            (X, y), X even, y = X/2 (mod 2); colour y mod 3
    horizontal edges centre (X, y), X even, y != X/2 (mod 2); ends (X-1, y), (X+1, y); colour y mod 3
    vertical edges   centre (x, y+1/2), x odd; ends (x, y), (x, y+1); colour (y+2) mod 3

An edge of colour c is measured in sub-rounds r = c (mod 3) with Pauli type "XYZ"[c].
A hex of colour c is the six body stabilizer of Pauli type "XYZ"[c].
"""
from typing import Dict, FrozenSet, List, Optional, Tuple

XYZ = "XYZ"


class RefHoneycomb:
    def __init__(self, w: int, h: int):
        assert w >= 2 and w % 2 == 0 and h >= 6 and h % 6 == 0
        self.w, self.h = w, h
        self.cw, self.ch = 2 * w, h
        self.data = [(x, y) for x in range(1, self.cw, 2) for y in range(h)]
        # edge centre -> (colour, end, end)
        self.edges: Dict[Tuple[float, float], Tuple[int, Tuple, Tuple]] = {}
        for X in range(0, self.cw, 2):
            for y in range(h):
                if (y - X // 2) % 2 != 0:
                    self.edges[(float(X), float(y))] = (y % 3, self.wrap(X - 1, y), self.wrap(X + 1, y))
        for x in range(1, self.cw, 2):
            for y in range(h):
                self.edges[(float(x), y + 0.5)] = ((y + 2) % 3, (x, y), self.wrap(x, y + 1))
        self.hexes = {
            (X, y): y % 3
            for X in range(0, self.cw, 2)
            for y in range(h)
            if (y - X // 2) % 2 == 0
        }
        self.edges_by_colour: List[List[Tuple[float, float]]] = [[], [], []]
        for c, (col, _, _) in sorted(self.edges.items()):
            self.edges_by_colour[col].append(c)
        self.hexes_by_colour: List[List[Tuple[int, int]]] = [[], [], []]
        for p, col in sorted(self.hexes.items()):
            self.hexes_by_colour[col].append(p)

    def wrap(self, x, y):
        return x % self.cw, y % self.ch

    def hex_qubits(self, p):
        X, y = p
        return [self.wrap(X + dx, y + dy) for dx in (-1, 1) for dy in (-1, 0, 1)]

    def hex_boundary(self, p):
        """The six boundary edge centres of a hex."""
        X, y = p
        deltas = [(0, -1), (0, 1), (-1, -0.5), (-1, 0.5), (1, -0.5), (1, 0.5)]
        return [(float((X + dx) % self.cw), float((y + dy) % self.ch)) for dx, dy in deltas]

    def boundary_edges(self, p, colour):
        return [c for c in self.hex_boundary(p) if self.edges[c][0] == colour % 3]

    # --- observables -------------------------------------------------------------------------

    def obs_edges(self, obs: str):
        if obs == "V":
            return [c for c, (_, a, b) in self.edges.items() if a[0] == 1 and b[0] == 1 and c[0] == 1]
        return [c for c, (_, a, b) in self.edges.items() if a[1] in (0, 1) and b[1] in (0, 1)
                and c[1] in (0, 0.5, 1)]

    def obs_op(self, obs: str, r: int) -> Tuple[str, FrozenSet[Tuple[int, int]]]:
        """Pauli type and support of the logical observable just before sub-round r.

        Derived, not tabulated: start from the sub-round 0 operator and multiply in each sub-round's
        measured path edges.
        """
        r %= 6
        if obs == "H":
            op = {q: 1 for q in self.data if q[1] in (0, 1)}  # X type
        else:
            op = {q: 3 for q in self.data if q[0] == 1 and q[1] % 3 != 0}  # Z type
        path = set(self.obs_edges(obs))
        for k in range(r):
            code = {0: 1, 1: 2, 2: 3}[k % 3]
            for c in self.edges_by_colour[k % 3]:
                if c in path:
                    for q in self.edges[c][1:]:
                        op[q] = _pauli_mul(op.get(q, 0), code)
        op = {q: p for q, p in op.items() if p}
        kinds = set(op.values())
        assert len(kinds) == 1, (obs, r, kinds)
        return "_XYZ"[kinds.pop()], frozenset(op)

    # --- ideal protocol ----------------------------------------------------------------------

    def init_basis(self, obs):
        return self.obs_op(obs, 0)[0]

    def final_basis(self, obs, n):
        return self.obs_op(obs, n)[0]

    def ideal_records(self, obs: str, n: int):
        """Keys of the ideal measurement record, in the order `ideal_circuit` makes them."""
        keys = []
        for r in range(n):
            keys += [("e", r, c) for c in self.edges_by_colour[r % 3]]
        keys += [("d", q) for q in self.data]
        return keys

    def ideal_circuit(self, obs: str, n: int):
        import stim
        q2i = {q: i for i, q in enumerate(self.data)}
        lines = [f"R{self.init_basis(obs)} " + " ".join(str(q2i[q]) for q in self.data)]
        for r in range(n):
            p = XYZ[r % 3]
            prods = []
            for c in self.edges_by_colour[r % 3]:
                _, a, b = self.edges[c]
                prods.append(f"{p}{q2i[a]}*{p}{q2i[b]}")
            lines.append("MPP " + " ".join(prods))
        lines.append(f"M{self.final_basis(obs, n)} " + " ".join(str(q2i[q]) for q in self.data))
        return stim.Circuit("\n".join(lines))

    def hex_evaluations(self, obs: str, n: int):
        """hex -> time ordered list of (t, frozenset of record keys) giving its known stabilizer values.

        t = -1 denotes preparation, t = n the terminal data measurement.
        """
        init = XYZ.index(self.init_basis(obs))
        fin = XYZ.index(self.final_basis(obs, n))
        ev: Dict[Tuple[int, int], List] = {h: [] for h in self.hexes}
        for h in self.hexes_by_colour[init]:
            ev[h].append((-1, frozenset()))
        for r in range(n):
            # Sub-round r measures colour r edges: completes hexes whose other boundary colour was measured at r-1.
            c = (r - 2) % 3
            prev = (r - 1) % 3
            for h in self.hexes_by_colour[c]:
                cur = frozenset(("e", r, e) for e in self.boundary_edges(h, r))
                if r >= 1:
                    ev[h].append((r, cur | frozenset(("e", r - 1, e) for e in self.boundary_edges(h, prev))))
                elif init == prev:
                    # Preparation fixed the other boundary edges.
                    ev[h].append((r, cur))
        last = (n - 1) % 3
        for h in self.hexes_by_colour[fin]:
            ev[h].append((n, frozenset(("d", q) for q in self.hex_qubits(h))))
        if last != fin:
            other = 3 - last - fin
            for h in self.hexes_by_colour[other]:
                ev[h].append((n, frozenset(("d", q) for q in self.hex_qubits(h))
                              | frozenset(("e", n - 1, e) for e in self.boundary_edges(h, last))))
        return ev

    def detectors(self, obs: str, n: int) -> Dict[FrozenSet, Tuple[float, float, float]]:
        """All checks of the protocol: record-key set -> (x, y, t) coordinates."""
        result = {}

        def put(keys, coords):
            assert keys not in result
            result[keys] = coords

        init = XYZ.index(self.init_basis(obs))
        fin = XYZ.index(self.final_basis(obs, n))
        last = (n - 1) % 3
        if init == 0:
            for e in self.edges_by_colour[0]:
                put(frozenset([("e", 0, e)]), (e[0], e[1], 0.0))
        for h, evs in self.hex_evaluations(obs, n).items():
            for (t1, s1), (t2, s2) in zip(evs, evs[1:]):
                put(s1 ^ s2, (float(h[0]), float(h[1]), float(t2)))
        if last == fin:
            for e in self.edges_by_colour[fin]:
                a, b = self.edges[e][1:]
                put(frozenset([("e", n - 1, e), ("d", a), ("d", b)]), (e[0], e[1], float(n)))
        return result

    def observable(self, obs: str, n: int) -> FrozenSet:
        keys = set()
        path = set(self.obs_edges(obs))
        for r in range(n):
            keys |= {("e", r, c) for c in self.edges_by_colour[r % 3] if c in path}
        keys |= {("d", q) for q in self.obs_op(obs, n)[1]}
        return frozenset(keys)


def _pauli_mul(a: int, b: int) -> int:
    """Multiplication of I,X,Y,Z = 0,1,2,3 ignoring phase."""
    if a == 0:
        return b
    if b == 0:
        return a
    if a == b:
        return 0
    return 6 - a - b


# ----------------------------------------------------------------------------------------------
# GF(2) helpers on python ints.

class Gf2Span:
    def __init__(self):
        self.pivots: Dict[int, int] = {}

    def reduce(self, v: int) -> int:
        while v:
            p = v.bit_length() - 1
            b = self.pivots.get(p)
            if b is None:
                return v
            v ^= b
        return 0

    def add(self, v: int) -> bool:
        v = self.reduce(v)
        if v:
            self.pivots[v.bit_length() - 1] = v
            return True
        return False

    @property
    def rank(self):
        return len(self.pivots)


def rows_to_ints(samples) -> List[int]:
    import numpy as np
    packed = np.packbits(samples, axis=1, bitorder="little")
    return [int.from_bytes(row.tobytes(), "little") for row in packed]


# ----------------------------------------------------------------------------------------------
# Circuit reading helpers.

NOISE_NAMES = {"X_ERROR", "Y_ERROR", "Z_ERROR", "DEPOLARIZE1", "DEPOLARIZE2", "E", "CORRELATED_ERROR",
               "ELSE_CORRELATED_ERROR", "PAULI_CHANNEL_1", "PAULI_CHANNEL_2", "I_ERROR", "II_ERROR",
               "HERALDED_ERASE", "HERALDED_PAULI_CHANNEL_1"}


def flat_ops(circuit):
    """Executes the circuit's control flow: yields instructions in execution order."""
    import stim
    for op in circuit:
        if isinstance(op, stim.CircuitRepeatBlock):
            body = op.body_copy()
            for _ in range(op.repeat_count):
                yield from flat_ops(body)
        else:
            yield op


def strip_noise(circuit):
    import stim
    out = stim.Circuit()
    for op in circuit:
        if isinstance(op, stim.CircuitRepeatBlock):
            out.append(stim.CircuitRepeatBlock(op.repeat_count, strip_noise(op.body_copy())))
        elif op.name in NOISE_NAMES:
            continue
        elif op.gate_args_copy() and op.name.startswith("M"):
            out.append(op.name, op.targets_copy(), [])
        else:
            out.append(op)
    return out


class Malformed(Exception):
    pass


def read_memory_circuit(circuit, ref: RefHoneycomb, pc_style: bool):
    """Interprets an emitted (noise stripped) memory circuit.

    Returns (record_keys, detectors, observables):
        record_keys: list of raw record keys, one per measurement: ("e", r, centre) for the result reported for an edge
            in sub-round r ("a" instead of "e" when the style reports running parities), ("d", q) for terminal data
            measurements.
        detectors: list of (frozenset of raw record indices, coords)
        observables: dict index -> set of raw record indices (xor)
    """
    coords: Dict[int, Tuple[float, float]] = {}
    keys: List[Tuple] = []
    dets: List[Tuple[FrozenSet[int], Tuple]] = []
    obs: Dict[int, set] = {}
    shift = [0.0] * 16
    edge_count: Dict[Tuple, int] = {}
    pair_to_edge = {}
    for c, (_, a, b) in ref.edges.items():
        pair_to_edge.setdefault(frozenset((a, b)), []).append(c)
    data_set = set(ref.data)
    pending: Dict[int, List] = {}  # helper qubit -> data qubits it was coupled to since its reset
    ticks = 0

    def edge_measured(c):
        col = ref.edges[c][0]
        k = edge_count.get(c, 0)
        edge_count[c] = k + 1
        keys.append(("a" if pc_style else "e", col + 3 * k, c))

    def centre_for_pair(a, b, k):
        cands = pair_to_edge.get(frozenset((a, b)))
        if not cands:
            raise Malformed(f"measured pair {a},{b} is not an edge of the honeycomb")
        if len(cands) == 1:
            return cands[0]
        # Width-2 tori have two edges joining the same pair, of different colours; resolved by the Pauli type.
        cs = [c for c in cands if ref.edges[c][0] == k]
        if len(cs) != 1:
            raise Malformed(f"ambiguous edge {a},{b}")
        return cs[0]

    for op in flat_ops(circuit):
        name = op.name
        if name == "QUBIT_COORDS":
            for t in op.targets_copy():
                if t.value in coords:
                    raise Malformed(f"qubit {t.value} annotated twice")
                coords[t.value] = tuple(op.gate_args_copy())
        elif name == "TICK":
            ticks += 1
        elif name == "SHIFT_COORDS":
            for i, v in enumerate(op.gate_args_copy()):
                shift[i] += v
        elif name == "DETECTOR":
            recs = set()
            for t in op.targets_copy():
                recs ^= {len(keys) + t.value}
            a = op.gate_args_copy()
            dets.append((frozenset(recs), tuple(v + shift[i] for i, v in enumerate(a))))
        elif name == "OBSERVABLE_INCLUDE":
            s = obs.setdefault(int(op.gate_args_copy()[0]), set())
            for t in op.targets_copy():
                s ^= {len(keys) + t.value}
        elif name == "MPP":
            ts = op.targets_copy()
            if len(ts) % 3:
                raise Malformed("product measurement that is not a pair")
            for k in range(0, len(ts), 3):
                a, comb, b = ts[k:k + 3]
                if not comb.is_combiner or a.is_inverted_result_target != b.is_inverted_result_target:
                    raise Malformed("product measurement that is not a plain pair")
                if a.pauli_type != b.pauli_type:
                    raise Malformed("mixed basis product measurement")
                edge_measured(centre_for_pair(coords[a.value], coords[b.value], XYZ.index(a.pauli_type)))
        elif name in ("XCX", "YCX", "CX", "XCY", "XCZ"):
            for t in op.target_groups():
                for x, y in ((t[0].value, t[1].value), (t[1].value, t[0].value)):
                    if x not in coords:
                        pending.setdefault(x, []).append((coords.get(y), name[0] if name != "CX" else "Z"))
        elif name == "R" or name == "RZ":
            for t in op.targets_copy():
                if t.value not in coords:
                    pending[t.value] = []
        elif name in ("M", "MX", "MY", "MZ", "MR"):
            for t in op.targets_copy():
                if t.value not in coords:
                    pair = pending.get(t.value, [])
                    if len(pair) != 2 or pair[0][1] != pair[1][1] or None in (pair[0][0], pair[1][0]):
                        raise Malformed(f"helper qubit measured after couplings {pair}")
                    edge_measured(centre_for_pair(pair[0][0], pair[1][0], XYZ.index(pair[0][1])))
                    continue
                q = coords[t.value]
                if q in data_set:
                    keys.append(("d", (int(q[0]), int(q[1]))))
                elif (float(q[0]), float(q[1])) in ref.edges:
                    edge_measured((float(q[0]), float(q[1])))
                else:
                    raise Malformed(f"measured a qubit at {q} that is neither a data qubit nor an edge centre")
    return keys, dets, obs, coords, ticks


def expand_reference_keys(keys: FrozenSet, pc_style: bool) -> FrozenSet:
    """Expresses a set of ideal record keys in terms of raw record keys of the style."""
    if not pc_style:
        return keys
    out = set()
    for k in keys:
        if k[0] == "e":
            _, r, c = k
            out ^= {("a", r, c)}
            if r >= 3:
                out ^= {("a", r - 3, c)}
        else:
            out ^= {k}
    return frozenset(out)
