"""C05: SampleCollector.dump as a crash-prone writer."""
import hashlib
import io
import os

import numpy as np

from sim import proc
from sim.proc_engine import IO_KINDS, ProcEngine, gen_knobs, gen_sched


def val(seed, j, step, n):
    r = np.random.RandomState((seed * 1000003 + j * 7919 + int(step * 16)) % (2**32))
    x = r.standard_normal(n)
    return x + 1j * r.standard_normal(n) if j % 2 else x


def canon(d):
    """Canonical hash of a samples dictionary (None if it is not one)."""
    if not isinstance(d, dict):
        return None
    h = hashlib.sha256()
    for k in sorted(d, key=str):
        v = d[k]
        h.update(repr(k).encode())
        if isinstance(v, np.ndarray):
            h.update(repr((v.dtype.str, v.shape)).encode())
            h.update(np.ascontiguousarray(v).tobytes())
        else:
            h.update(repr((type(v).__name__, v)).encode())
    return h.hexdigest()[:16]


SIZES = (1, 3, 40)
EXTRA = [3.25, None, "note", (1, 2.5), [1, [2, 3]], {"a": 1, "b": [1.5]}, 7 + 2j, True]


def model(spec, ops, upto, tag):
    """What dump number `upto` must hold, from the operations alone."""
    steps, d, stamp = [], {}, None
    for k, o in enumerate(ops[: upto + 1]):
        if o["op"] == "sample":
            steps.append(o["step"])
        elif o["op"] == "add":
            d["x%d" % o["key"]] = EXTRA[o["v"]]
        elif o["op"] == "dump":
            d["stamp"] = "%s.%d" % (tag, k)
            for j, sp in enumerate(spec):
                d["s%d" % j] = np.array([val(spec[0]["seed"], j, s, sp["n"]) for s in steps]).reshape(len(steps), sp["n"]) \
                    if steps else np.zeros((0, sp["n"]), dtype=complex if j % 2 else float)
    return d


def target(o, cls="Collector"):
    fn = o.get("filename")
    if fn is None:
        fn = "tmp_%s.samples" % cls
    if not fn.endswith(".npy"):
        fn += ".npy"
    return os.path.normpath(os.path.join(o.get("path", "dump"), fn))


def load(path):
    try:
        with proc._real_open(path, "rb") as f:
            b = f.read()
        x = np.load(io.BytesIO(b), allow_pickle=True)
        return x.item() if x.shape == () else None
    except FileNotFoundError:
        return "absent"
    except Exception:
        return None


class DumpEngine(ProcEngine):
    counts = {"quick": 1600, "thorough": 60000}
    walls = {"quick": 120, "thorough": 1500}
    rule = ("a run counts when file-system events of a real dump were executed and a fault fired or more than two "
            "process switches happened; two runs are the same if their event logs are identical")
    real = ["quantum_systems.sampler.SampleCollector / Sampler", "numpy.save (pickle of the samples)",
            "one forked interpreter per simulated process"]
    stubs = ["solver (an object with a .system attribute)",
             "file objects and os.* calls under the scratch directory pass through the simulated disk",
             "page cache / durability model decides what survives power loss"]
    assumptions = ["rename and unlink are atomic and survive in order; file data is durable only after fsync, "
                   "names only after a directory fsync",
                   "samplers themselves do not fail here (that is C06)"]

    def setup(self, tier):
        import quantum_systems.sampler as S

        eng = self
        self.S = S

        class Collector(S.SampleCollector):
            pass

        class Smp(S.Sampler):
            def __init__(self, j, spec, seed):
                class Solver:
                    system = None

                super().__init__(Solver(), 1, np)
                self.j, self.spec, self.seed, self.buf = j, spec, seed, []

            def sample(self, step):
                self.buf.append(val(self.seed, self.j, step, self.spec["n"]))

            def arr(self):
                n = self.spec["n"]
                return np.array(self.buf).reshape(len(self.buf), n) if self.buf else np.zeros(
                    (0, n), dtype=complex if self.j % 2 else float)

            def dump(self, samples):
                key = "s%d" % self.j
                kind = self.spec["kind"]
                if kind == "keep":
                    samples[key] = self.arr()
                    return samples
                if kind == "newdict":
                    d = dict(samples)
                    d[key] = self.arr()
                    return d
                # drain: hands its data over and forgets it
                old = samples.get(key)
                new = self.arr()
                self.buf = []
                samples[key] = new if old is None or not len(old) else (np.concatenate([old, new]) if len(new) else old)
                return samples

        self.Collector, self.Smp = Collector, Smp

    def generate(self, rng, i, tier):
        s = {"pid": self.id, "seed": rng.getrandbits(40), "knobs": gen_knobs(rng), "phases": []}
        names = [{}, {"filename": "run"}, {"filename": "run.npy"}, {"path": "a/b", "filename": "out.dat"},
                 {"path": "a", "filename": "out.dat"}, {"path": ".", "filename": "here"}]
        pool = rng.sample(names, rng.choice((1, 1, 2)))
        s["specs"] = {}
        big = rng.random() < 0.06  # files beyond one buffer or page
        if big:
            for k in ("wchunk", "rchunk"):
                s["knobs"][k] = rng.choice((None, 4096, 65536))
            s["knobs"]["bufsize"] = 8192
        for phase in range(rng.choice((1, 2, 2, 3))):
            procs = []
            for j in range(rng.choice((1, 1, 1, 2, 3))):
                ops = []
                for _ in range(rng.randrange(2, 9) if rng.random() < 0.95 else rng.randrange(12, 40)):
                    x = rng.random()
                    if x < 0.35:
                        ops.append({"op": "sample", "step": rng.choice((0, 0.5, 1, 2, 3.25, 10))})
                    elif x < 0.5:
                        ops.append({"op": "add", "key": rng.randrange(3), "v": rng.randrange(len(EXTRA))})
                    else:
                        o = dict({"op": "dump"}, **rng.choice(pool))
                        if rng.random() < 0.1:
                            o["save"] = False
                        if rng.random() < 0.05:
                            o["exist_ok"] = False
                        ops.append(o)
                if rng.random() < 0.5 and not any(o["op"] == "dump" for o in ops):
                    ops.append(dict({"op": "dump"}, **rng.choice(pool)))
                procs.append(ops)
                s["specs"]["%d.%d" % (phase, j)] = [
                    {"kind": rng.choice(("keep", "newdict", "drain")), "n": rng.choice(SIZES), "seed": rng.randrange(1000)}
                    for _ in range(rng.choice((1, 2, 3)))]
                if big:
                    rng.choice(s["specs"]["%d.%d" % (phase, j)])["n"] = rng.choice((600, 5000, 20000))
            kinds = rng.choice((["power"], ["power", "kill"], ["kill"], IO_KINDS, IO_KINDS + ["power", "kill"]))
            fs = []
            if rng.random() < 0.85:
                for _ in range(rng.choice((1, 1, 2))):
                    j = rng.randrange(len(procs))
                    ds = [k for k, o in enumerate(procs[j]) if o["op"] == "dump"]
                    if ds:
                        fs.append({"proc": j, "op": rng.choice(ds), "kind": rng.choice(kinds),
                                   "ev": rng.choice((0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 24)),
                                   "frac": rng.choice((0.0, 0.1, 0.5, 0.9))})
            s["phases"].append({"procs": procs, "sched": gen_sched(rng), "faults": fs, "tag": phase})
        return s

    def shrink(self, s):
        for c in super().shrink(s):
            # process indices name the sampler specs: keep process shrinking out
            if all(len(a["procs"]) == len(b["procs"]) for a, b in zip(c["phases"], s["phases"])) or len(
                    c["phases"]) != len(s["phases"]):
                yield c

    def run(self, s):
        self.s = s
        return super().run(s)

    def proc_fn(self, ops, i):
        tag = self.s["phases"][i]["tag"]

        def fn(agent):
            j = next(x for x, pr in enumerate(self.s["phases"][i]["procs"]) if pr is ops)
            t = "%d.%d" % (tag, j)
            spec = self.s["specs"][t]
            smps = [self.Smp(k, sp, spec[0]["seed"]) for k, sp in enumerate(spec)]
            col = self.Collector(smps, np)
            alone = {}
            for pr in self.s["phases"][i]["procs"]:
                for f in {target(o) for o in pr if o["op"] == "dump"}:
                    alone[f] = alone.get(f, 0) + 1
            for k, o in enumerate(ops):
                out = {"ok": True}
                if o["op"] == "sample":
                    col.sample(o["step"])
                elif o["op"] == "add":
                    col.add_sample("x%d" % o["key"], EXTRA[o["v"]])
                else:
                    col.add_sample("stamp", "%s.%d" % (t, k))
                    want = canon(model(spec, ops, k, t))
                    kw = {a: o[a] for a in ("path", "filename", "exist_ok") if a in o}
                    if o.get("save") is False:
                        kw["save_samples"] = False
                    try:
                        r = col.dump(**kw)
                        out["ret"] = canon(r) == want
                        if o.get("save", True) and alone[target(o)] == 1:
                            got = load(os.path.join(agent.root, target(o)))
                            out["file"] = got == "absent" and "absent" or canon(got) == want
                    except BaseException as e:
                        out = {"ok": False, "exc": type(e).__name__, "msg": str(e).replace(agent.root, "<disk>")[:160]}
                    out["mem"] = canon(col.get_samples()) == want
                agent.result({"op": o, "out": out})

        return fn

    def judge_phase(self, s, m, hist):
        rec = hist[-1]
        ph = len(hist) - 1
        for p in rec["procs"]:
            for k, r in enumerate(p["results"]):
                o, out = r["op"], r["out"]
                if o["op"] != "dump":
                    continue
                where = "phase %d process %d op %d (dump to %s)" % (ph, p["i"], k, target(o))
                if out["ok"]:
                    if not out["ret"]:
                        return {"kind": "wrong-return", "detail": where + " returned a dictionary that lacks or alters samples"}
                    if "file" in out and out["file"] is not True:
                        return {"kind": "dump-not-readable",
                                "detail": where + " returned but the file %s" % (
                                    "does not exist" if out["file"] == "absent" else "does not load back to the samples")}
                    if o.get("save") is False:
                        bad = [e for e in r["events"] if e[0] in proc.MUTATING]
                        if bad:
                            return {"kind": "wrote-unasked", "detail": where + " wrote although saving was off: %s" % bad[:3]}
                else:
                    if k not in p.get("faulted", []) and not (out["exc"] == "FileExistsError" and o.get("exist_ok") is False):
                        return {"kind": "dump-failed", "detail": where + " raised %s with no fault active: %s" % (out["exc"], out["msg"])}
                if not out["mem"] and out["ok"]:
                    return {"kind": "samples-lost", "detail": where + ": collected samples are missing from memory afterwards"}
        # every target: complete, and not older than the last completed dump
        att = {}
        for h, rc in enumerate(hist):
            tag = s["phases"][h]["tag"]
            for p in rc["procs"]:
                t = "%d.%d" % (tag, p["i"])
                ops = rc["ops"][p["i"]]
                n = len(p["results"])
                for k, o in enumerate(ops[: n + 1]):
                    if o["op"] != "dump" or o.get("save") is False:
                        continue
                    if k < n:
                        r = p["results"][k]
                        t0, t1, ok = r["t0"], r["t1"], r["out"]["ok"]
                    else:
                        t0, t1, ok = p.get("t0", 0), float("inf"), False
                        if h < len(hist) - 1:
                            t1 = self.phase_end[h]
                    att.setdefault(target(o), []).append(
                        (canon(model(s["specs"][t], ops, k, t)), t0, t1, ok, "phase %d process %d op %d" % (h, p["i"], k)))
        self.phase_end = getattr(self, "phase_end", {})
        self.phase_end[ph] = m.stats["events"]
        for f, ds in sorted(att.items()):
            got = load(os.path.join(m.root, f))
            oks = [d for d in ds if d[3]]
            if isinstance(got, str) and got == "absent":
                if oks:
                    return {"kind": "dump-lost", "detail": "%s is gone although %s completed (power: %s)" % (f, oks[-1][4], rec["power"])}
                continue
            c = canon(got)
            mine = [d for d in ds if d[0] == c]
            if c is None or not mine:
                return {"kind": "torn-dump", "detail": "%s after phase %d holds no complete dump (power: %s)" % (f, ph, rec["power"])}
            if not any(all(not (o2[1] >= d[2]) for o2 in oks) for d in mine):
                return {"kind": "stale-dump", "detail": "%s holds %s although a later dump completed (power: %s)" % (f, mine[0][4], rec["power"])}
        return None


def engine(pid):
    return DumpEngine(pid)
