"""Drives the data collection loop and records what it wrote."""
import contextlib
import csv
import io

COLUMNS = ["data_width", "data_height", "rounds", "noise", "circuit_style", "preserved_observable", "code_distance",
           "num_qubits", "num_shots", "num_correct", "total_processing_seconds", "decoder", "version"]


def rows(text):
    """Parses CSV text strictly: header line followed by complete records."""
    lines = text.split("\n")
    if lines[-1] != "":
        raise ValueError(f"file does not end with a newline: {lines[-1]!r}")
    lines = lines[:-1]
    if not lines or lines[0] != ",".join(COLUMNS):
        raise ValueError(f"first line is not the header: {lines[:1]!r}")
    out = []
    for l in lines[1:]:
        f = l.split(",")
        if len(f) != len(COLUMNS):
            raise ValueError(f"malformed record {l!r}")
        out.append(dict(zip(COLUMNS, f)))
    return out


def desc_fields(desc):
    return {k: str(getattr(desc, k)) for k in ("data_width", "data_height", "rounds", "noise", "circuit_style",
                                               "preserved_observable", "code_distance", "num_qubits", "decoder")}


@contextlib.contextmanager
def scripted_sampler(func):
    """Replaces sampling+decoding by func(circuit=, num_shots=, decoder=) -> number correct. Yields the call log."""
    import collect_data
    import decoding
    log = []

    def stub(*, circuit, num_shots, decoder, **kw):
        r = func(circuit=circuit, num_shots=num_shots, decoder=decoder, call=len(log))
        log.append((circuit, num_shots, decoder, r))
        return r

    saved = []
    for mod in (collect_data, decoding):
        if hasattr(mod, "sample_decode_count_correct"):
            saved.append((mod, mod.sample_decode_count_correct))
            mod.sample_decode_count_correct = stub
    try:
        yield log
    finally:
        for mod, f in saved:
            mod.sample_decode_count_correct = f


def random_desc(rng, **kw):
    from collect_data import DecodingProblemDesc
    d = dict(data_width=rng.randint(1, 60), data_height=rng.randint(1, 90), code_distance=rng.randint(1, 40),
             num_qubits=rng.randint(1, 9999), rounds=rng.randint(1, 400), noise=rng.choice([1e-4, 3e-5, 0.0123456789012345, 0.0, rng.random() * .1, 1 / 3, 1e-17]),
             circuit_style=rng.choice(["honeycomb_SD6", "honeycomb_EM3_v2", "surface_SI1000", "x y"]),
             preserved_observable=rng.choice("HVXZ"), decoder=rng.choice(["pymatching", "internal", "internal_correlated"]))
    d.update(kw)
    return DecodingProblemDesc(**d)
