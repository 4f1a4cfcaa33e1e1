"""A stand-in for the external decoder binary: records exactly what it was given and answers according to a policy."""
import json
import os
import pathlib

SCRIPT = r'''#!/opt/venv/bin/python -SE
import json, os, sys, time, random
here = os.path.dirname(os.path.realpath(sys.argv[0]))
pol = json.load(open(here + "/policy.json"))
a = sys.argv[1:]
def val(name):
    return a[a.index(name) + 1]
dem = open(val("-dem_fname")).read()
dets = open(val("-dets_fname")).read()
out = val("-out")
shots = []
for line in dets.split("\n"):
    if line:
        assert line.split(" ")[0] == "shot", line
        shots.append([t for t in line.split(" ")[1:]])
ident = "%d_%d" % (os.getpid(), time.monotonic_ns())
rec = dict(argv=a, dem=dem, dets=dets, nshots=len(shots), cwd=os.getcwd(), exe=os.path.realpath(sys.argv[0]))
tmp = here + "/log/" + ident + ".tmp"
json.dump(rec, open(tmp, "w"))
os.rename(tmp, here + "/log/" + ident + ".json")
if pol.get("delay"):
    time.sleep(pol["delay"] * (os.getpid() % 3))
n = pol["num_obs"]
rows = []
for k, s in enumerate(shots):
    if pol["mode"] == "mirror":
        fired = set(s)
        rows.append("".join("1" if "D%d" % o in fired else "0" for o in range(n)))
    elif pol["mode"] == "hash":
        h = random.Random(" ".join(s) + "|" + str(k if pol.get("indexed") else ""))
        rows.append("".join(h.choice("01") for _ in range(n)))
    else:
        rows.append("0" * n)
text = "".join(r + "\n" for r in rows)
f = pol.get("fault")
if f == "exit":
    open(out, "w").write(text[: len(text) // 2])
    sys.stdout.flush()
    os._exit(pol.get("code", 1))
if f == "signal":
    open(out, "w").write(text)
    os.kill(os.getpid(), 9)
if f == "exit_full":
    open(out, "w").write(text)
    os._exit(pol.get("code", 3))
if f == "no_output":
    sys.exit(0)
if f == "truncate":
    text = text[: pol["at"] % max(1, len(text))]
if f == "drop_line":
    rows.pop(pol["at"] % len(rows))
    text = "".join(r + "\n" for r in rows)
if f == "short_line":
    k = pol["at"] % len(rows)
    rows[k] = rows[k][:-1]
    text = "".join(r + "\n" for r in rows)
if f == "long_line":
    k = pol["at"] % len(rows)
    rows[k] = rows[k] + "0"
    text = "".join(r + "\n" for r in rows)
if f == "bad_char":
    k = pol["at"] % len(rows)
    rows[k] = rows[k][:-1] + pol.get("char", "2")
    text = "".join(r + "\n" for r in rows)
if f == "empty":
    text = ""
if f == "missing_separators":
    text = text.replace("\n", "")
with open(out, "w") as fo:
    fo.write(text)
'''


class FakeDecoder:
    def __init__(self, directory, **policy):
        self.dir = pathlib.Path(directory)
        self.dir.mkdir(parents=True, exist_ok=True)
        (self.dir / "log").mkdir(exist_ok=True)
        self.path = self.dir / "internal_decoder.binary"
        self.path.write_text(SCRIPT)
        self.path.chmod(0o755)
        self.policy(**policy)

    def policy(self, **policy):
        policy.setdefault("mode", "mirror")
        policy.setdefault("num_obs", 1)
        self.pol = policy
        tmp = self.dir / "policy.tmp"
        tmp.write_text(json.dumps(policy))
        os.replace(tmp, self.dir / "policy.json")

    def log(self):
        def key(f):
            return int(f.stem.split("_")[1])
        return [json.loads(f.read_text()) for f in sorted((self.dir / "log").glob("*.json"), key=key)]

    def clear(self):
        for f in (self.dir / "log").glob("*.json"):
            f.unlink()


def hash_row(fired, k, n, indexed):
    import random
    h = random.Random(" ".join(fired) + "|" + str(k if indexed else ""))
    return [h.choice("01") == "1" for _ in range(n)]


def same_model(text, want, rtol=2e-5):
    """Whether the text describes exactly the wanted error model, up to the digits of its probabilities and coordinates."""
    import stim
    got = stim.DetectorErrorModel(text)

    def same(a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if isinstance(x, stim.DemRepeatBlock) or isinstance(y, stim.DemRepeatBlock):
                if type(x) is not type(y) or x.repeat_count != y.repeat_count or not same(x.body_copy(), y.body_copy()):
                    return False
                continue
            p, q = x.args_copy(), y.args_copy()
            if x.type != y.type or x.targets_copy() != y.targets_copy() or len(p) != len(q):
                return False
            if any(abs(u - v) > rtol * abs(v) for u, v in zip(p, q)):
                return False
        return True
    return same(got, want)
