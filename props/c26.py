"""C26: circuit diagrams show every operation at its place and time, every interaction connected, and nothing else."""
import math
import random

import stim

from vlib.core import Violation, must_raise
from vlib.gen import OBS, make_layout
from vlib.ref import flat_ops

ID = "C26"
LEVEL = "exploration"
RULE = ("Random circuits over the supported operations on random integer grids (repeat blocks, trailing partial moments, noise and "
        "annotations interleaved) and generated honeycomb circuits; the rendered text is read back: one symbol per qubit and moment at the "
        "projected position, connected interactions, no spurious symbols. Distinct by circuit.")
ASSUMPTIONS = ["Grids extend over at least two columns and two rows (every generated circuit does).",
               "The projection (which text cell shows which qubit and moment) is the documented one of the existing diagrams."]
REQUIRED = ["symbols_checked", "connectors_checked", "wrapped_connectors", "repeat_blocks", "honeycomb_diagrams", "refusals_observed", "flat_2d", "product_measurements", "large_diagrams", "shifted_grids", "endless_repeats"]

ONE = {"M": "M", "R": "R", "H": "H", "H_YZ": "G", "C_XYZ": "C", "C_ZYX": "C", "MR": "D", "MX": "m", "MY": "m"}
TWO = {"CX": "@X", "CZ": "@Z", "CY": "@Y", "XCX": "XX", "XCY": "XY", "XCZ": "XZ", "YCX": "YX", "YCY": "YY", "YCZ": "YZ"}


def cases(tier, seed):
    rng = random.Random(seed * 7919 + 26)
    q = tier == "quick"
    out = [dict(kind="rand", seed=rng.getrandbits(48)) for _ in range(400 if q else 8000)]
    out += [dict(kind="2d", seed=rng.getrandbits(48)) for _ in range(200 if q else 3000)]
    for style in ("SD6", "PC3", "SI1000", "EM3"):
        for obs in OBS:
            for (w, h, n) in ((2, 6, 12), (4, 6, 18), (6, 12, 15), (2, 12, 30)) if not q else ((2, 6, 12), (4, 12, 18)):
                for only in (True, False):
                    out.append(dict(kind="honey", style=style, obs=obs, w=w, h=h, n=n, only=only, noise=rng.choice([0.0, .001])))
    return out


def interpret(circuit, only):
    """(positions, levels: [{pos: symbol}], connectors: [[(pos, pos)]])"""
    ops = []
    if only:
        for op in circuit:
            if isinstance(op, stim.CircuitRepeatBlock):
                ops += [x for x in flat_ops(op.body_copy())]
            elif op.name == "QUBIT_COORDS":
                ops.append(op)
    else:
        ops = list(flat_ops(circuit))
    pos, levels, conns = {}, [], []
    cur, cc = {}, []
    for op in ops:
        n = op.name
        if n == "QUBIT_COORDS":
            a = op.gate_args_copy()
            for t in op.targets_copy():
                pos[t.value] = (a[0], a[1] * 2)
        elif n == "TICK":
            levels.append(cur)
            conns.append(cc)
            cur, cc = {}, []
        elif n in ONE:
            for t in op.targets_copy():
                cur[pos[t.value]] = ONE[n]
        elif n == "MPP":
            for g in op.target_groups():
                ps = [pos[t.value] for t in g]
                for t, p in zip(g, ps):
                    cur[p] = t.pauli_type.lower()
                if len(g) == 2:
                    cc.append(tuple(ps))
        elif n in TWO:
            for g in op.target_groups():
                a, b = pos[g[0].value], pos[g[1].value]
                cur[a], cur[b] = TWO[n]
                cc.append((a, b))
    if cur:
        levels.append(cur)
        conns.append(cc)
    return pos, levels, conns


def check(circuit, only, text, mon):
    pos, levels, conns = interpret(circuit, only)
    L = len(levels)
    lines = text.split("\n")

    def at(x, y):
        return lines[y][x] if 0 <= y < len(lines) and 0 <= x < len(lines[y]) else " "

    def place(p, z):
        return math.ceil((p[1] + 2) * (L + 3) + z), math.ceil((p[0] + 1) * (L + 2) + z)
    expected = {}
    for z, lv in enumerate(levels):
        for p in pos.values():
            expected[place(p, z)] = lv.get(p, "\\")
    for (x, y), s in expected.items():
        mon.check(at(x, y) == s, lambda: f"cell ({x},{y}): shown {at(x, y)!r}, circuit has {s!r}\n{text[:2000]}", "symbols_checked")
    minr, maxr = min(p[0] for p in pos.values()), max(p[0] for p in pos.values())
    mini, maxi = min(p[1] for p in pos.values()), max(p[1] for p in pos.values())
    wire = {}
    tildes = set()
    for z, cs in enumerate(conns):
        for a, b in cs:
            segs = []
            if {a[0], b[0]} == {minr, maxr}:
                lo, hi = sorted((a, b))
                ends = [(lo, (lo[0] - .5, lo[1])), (hi, (hi[0] + .5, hi[1]))]
            elif {a[1], b[1]} == {mini, maxi}:
                lo, hi = sorted((a, b), key=lambda p: p[1])
                ends = [(lo, (lo[0], lo[1] - .5)), (hi, (hi[0], hi[1] + .5))]
            else:
                ends = None
            if ends:
                mon.count("wrapped_connectors")
                for p, e in ends:
                    t = place(e, z)
                    mon.check(at(*t) == "~", lambda: f"interaction {a}-{b} around the boundary: no end marker at {t}, shown {at(*t)!r}\n{text[:2000]}")
                    tildes.add(t)
                    segs.append((place(p, z), t))
            else:
                segs.append((place(a, z), place(b, z)))
            for (x1, y1), (x2, y2) in segs:
                if y1 == y2:
                    cells = [(x, y1, "-+=") for x in range(min(x1, x2), max(x1, x2) + 1)]
                elif x1 == x2:
                    cells = [(x1, y, "|+") for y in range(min(y1, y2), max(y1, y2) + 1)]
                else:
                    cells = []
                for x, y, ok in cells:
                    wire.setdefault((x, y), set()).update(ok)
                    if (x, y) in expected or (x, y) in tildes:
                        continue
                    ch = at(x, y)
                    mon.check(ch in "-+=|~", lambda: f"interaction {a}-{b} at moment {z} is interrupted at ({x},{y}): {ch!r}\n{text[:2000]}")
            mon.count("connectors_checked")
    for y, line in enumerate(lines):
        for x, ch in enumerate(line):
            if ch != " " and (x, y) not in expected and (x, y) not in tildes:
                mon.check(ch in wire.get((x, y), ()), lambda: f"spurious symbol {ch!r} at ({x},{y})\n{text[:2000]}")


def run_case(case, mon):
    globals()["do_" + case["kind"].replace("2d", "flat")](case, mon)


def do_honey(case, mon):
    from circuit_diagrams import plot_circuit
    c = make_layout(case).make_circuit()
    if case["only"] and not any(isinstance(o, stim.CircuitRepeatBlock) for o in c):
        return
    if sum(1 for o in flat_ops(c) if o.name == "TICK") > 200 and not case["only"]:
        return
    check(c, case["only"], plot_circuit(c, only_repeat_block=case["only"]), mon)
    mon.count("honeycomb_diagrams")
    mon.seen(case)


def do_flat(case, mon):
    from circuit_diagrams import diagram_2d
    rng = random.Random(case["seed"])
    w, h = rng.randint(1, 12), rng.randint(1, 8)
    vals = {x + 1j * y: rng.choice("abXY@|-") for x in range(w) for y in range(h) if rng.random() < .4}
    text = diagram_2d(dict(vals))
    lines = text.split("\n")
    for y in range(max(h, len(lines))):
        for x in range(max([w] + [len(l) for l in lines])):
            got = lines[y][x] if y < len(lines) and x < len(lines[y]) else " "
            mon.check(got == vals.get(x + 1j * y, " "), lambda: f"({x},{y}): {got!r} in\n{text}", "flat_2d")
    mon.check(all(l == l.rstrip() for l in lines), "trailing space")
    for bad in ({.5 + 0j: "a"}, {-1 + 0j: "a"}, {1 - 1j: "b"}, {0.25j: "c"}):
        with must_raise(mon, f"diagram with a value at {next(iter(bad))}"):
            diagram_2d(bad)
    mon.seen(tuple(sorted(((k.real, k.imag, v) for k, v in vals.items()))))


def twice(rng, q, q2):
    """Two operations on one qubit, in one or two lines, alike or not."""
    a = rng.choice(sorted(ONE))
    b = rng.choice([a, rng.choice(sorted(ONE))])
    t = rng.choice(sorted(TWO))
    x, y = rng.sample([q, q2], 2)
    return rng.choice([f"{a} {q}\n{b} {q}", f"{a} {q} {q}", f"{a} {q}\n{b} {q}", f"{t} {x} {y}\n{b} {q}", f"{b} {q}\n{t} {x} {y}",
                       f"{t} {x} {y}\n{t} {x} {y}", f"{t} {x} {y} {x} {y}", f"MPP X{x}*Z{y}\n{a} {q}", f"MPP X{q} X{q}", f"MPP X{x}*X{y} X{x}*X{y}"])


def do_rand(case, mon):
    from circuit_diagrams import plot_circuit
    rng = random.Random(case["seed"])
    wide = rng.random() < .06
    w, h = (rng.randint(5, 13), rng.randint(4, 24)) if wide else (rng.randint(2, 5), rng.randint(2, 4))
    long = rng.random() < .04
    cells = [(x, y) for x in range(w) for y in range(h) if rng.random() < .8 or x == y == 0 or (x, y) == (w - 1, h - 1)]
    ids = rng.sample(range(len(cells) * 3) if rng.random() < .7 else range(0, 2 ** 20, 64), len(cells))
    if rng.random() < .2:
        dx, dy = rng.randint(0, 5), rng.randint(0, 5)
        cells = [(x + dx, y + dy) for x, y in cells]
        mon.count("shifted_grids")
    c = stim.Circuit()
    for q, (x, y) in zip(ids, cells):
        c.append("QUBIT_COORDS", [q], [x, y])
    q_at = dict(zip(cells, ids))

    def moment(c):
        free = set(cells)
        for _ in range(rng.randint(0, 12 if wide else 5)):
            r = rng.random()
            avail = sorted(free)
            if not avail:
                break
            if r < .5:
                op = rng.choice(list(ONE))
                ts = rng.sample(avail, rng.randint(1, min(60 if wide else 3, len(avail))))
                c.append(op, [q_at[t] for t in ts])
                free -= set(ts)
            else:
                pairs = [(a, b) for a in avail for b in avail if a != b and (a[0] == b[0] or a[1] == b[1]) and abs(a[0] - b[0]) + abs(a[1] - b[1]) <= rng.choice([1, 1, 4])]
                if not pairs:
                    continue
                a, b = rng.choice(pairs)
                free -= {a, b}
                if r < .75:
                    c.append(rng.choice(list(TWO)), [q_at[a], q_at[b]])
                else:
                    f = getattr(stim, "target_" + rng.choice("xyz"))
                    ts = [f(q_at[a]), stim.target_combiner(), f(q_at[b])]
                    rest = sorted(free)
                    if rest and rng.random() < .4:
                        s = rng.choice(rest)
                        free.discard(s)
                        ts = ts + [f(q_at[s])] if rng.random() < .5 else [f(q_at[s])] + ts
                    c.append("MPP", ts)
                    mon.count("product_measurements")
            if rng.random() < .2:
                c.append(rng.choice(["X_ERROR", "DEPOLARIZE1"]), rng.sample(ids, 1), .01)
            if rng.random() < .1 and len(ids) > 1:
                c.append("DEPOLARIZE2", rng.sample(ids, 2), .01)
            if rng.random() < .1:
                c.append("SHIFT_COORDS", [], [0, 0, 1])
            if rng.random() < .1:
                c.append("DETECTOR", [], [0])

    def block(c, n):
        for k in range(n):
            moment(c)
            c.append("TICK")
    only = rng.random() < .4
    if wide:
        mon.count("large_diagrams")
    block(c, rng.randint(30, 80) if long and not wide else rng.randint(0, 3))
    much = False
    if only or rng.random() < .4:
        body = stim.Circuit()
        block(body, rng.randint(1, 4))
        if rng.random() < .3:
            inner = stim.Circuit()
            block(inner, rng.randint(1, 2))
            body.append(stim.CircuitRepeatBlock(rng.choice([1, 2, 3, 3, 7]), inner))
        much = only and rng.random() < .2
        if much:
            mon.count("endless_repeats")
        c.append(stim.CircuitRepeatBlock(10 ** 15 if much else rng.choice([1, 2, 3, 4, 4, 5, 6, 9, 10, 17, 40]) if not wide else 2, body))
        mon.count("repeat_blocks")
    if rng.random() < .5:
        block(c, rng.randint(0, 2))
        moment(c)
    if not interpret(c, only)[1]:
        return
    check(c, only, plot_circuit(c, only_repeat_block=only), mon)
    mon.seen(str(c), only)
    if much:
        return
    q = ids[0]
    for bad, what in (("S", "unsupported gate"), ("RX", "unsupported reset"), ("Y_ERROR(0.1)", "unsupported noise")):
        if rng.random() < .2:
            with must_raise(mon, f"diagram of a circuit with {what} {bad}"):
                plot_circuit(c + stim.Circuit(f"{bad} {q}"), only_repeat_block=False)
    if rng.random() < .3:
        with must_raise(mon, "diagram of two operations on one qubit in one moment"):
            plot_circuit(c + stim.Circuit(f"TICK\n{twice(rng, q, ids[1])}"), only_repeat_block=False)
    if rng.random() < .3:
        with must_raise(mon, "diagram of two qubits at one place"):
            plot_circuit(stim.Circuit(f"QUBIT_COORDS(0, 0) 900\nQUBIT_COORDS(0, 0) 901\nH 900\nTICK"), only_repeat_block=False)
    if rng.random() < .3:
        with must_raise(mon, "diagram with a qubit that has no place"):
            plot_circuit(c + stim.Circuit("TICK\nH 999"), only_repeat_block=False)
