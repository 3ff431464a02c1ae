"""C01-C04: the on-disk Coulomb cache as a crash-prone multi-process store."""
import os
import pickle

import numpy as np

from sim import proc
from sim.proc_engine import IO_KINDS, ProcEngine, gen_knobs, gen_sched

ENV = "QS_CACHE_TDHO"
TOL = 1e-12


def _in_fork(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            b = pickle.dumps(fn())
            while b:
                n = os.write(w, b)
                b = b[n:]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf += c
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(buf)


def same(a, ref):
    if type(a) is not np.ndarray:
        return "type %s" % type(a).__name__
    if a.shape != ref.shape:
        return "shape %s, expected %s" % (a.shape, ref.shape)
    if a.dtype != ref.dtype:
        return "dtype %s, expected %s" % (a.dtype, ref.dtype)
    if not a.flags.writeable:
        return "not writeable"
    if not np.all(np.isfinite(a)):
        return "non-finite elements"
    d = np.max(np.abs(a - ref)) if a.size else 0
    if d > TOL * max(1.0, np.max(np.abs(ref))):
        return "elements differ by %.3g" % d
    return None


class CacheEngine(ProcEngine):
    counts = {"quick": 1300, "thorough": 60000}
    walls = {"quick": 120, "thorough": 1500}
    rule = ("a run counts when file-system events of the real code were executed and at least one fault fired or "
            "more than two process switches happened; two runs are the same if their event logs are identical")
    real = ["quantum_systems.quantum_dots.two_dim.two_dim_helper.get_coulomb_elements (compiled kernel included)",
            "TwoDimensionalHarmonicOscillator", "numpy.save/load", "one forked interpreter per simulated process"]
    stubs = ["file objects and os.* calls under the scratch directory pass through the simulated disk",
             "page cache / durability model (fsync per inode, journalled name space) decides what survives power loss",
             "clock, process id, os.urandom, tempfile names"]
    assumptions = ["rename, link and unlink are atomic and survive in order; file data is durable only after fsync",
                   "file access in C through stdio (ndarray.tofile) is represented by the equivalent write calls",
                   "scratch directory on a local file system (no NFS semantics)"]

    def setup(self, tier):
        os.environ.pop(ENV, None)
        from quantum_systems.quantum_dots.two_dim import two_dim_helper as H
        from quantum_systems import TwoDimensionalHarmonicOscillator as T

        self.H, self.T = H, T
        H.get_coulomb_elements(1)
        T(2, 2, 3, omega=0.7)
        self.sizes = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20]
        self.omegas = [0.5, 1.0, 2.25]

        def ref():
            d = {l: H.get_coulomb_elements(l) for l in self.sizes}
            t = {(l, w): T(l, 2, 3, omega=w).u for l in (2, 3) for w in self.omegas}
            return d, t

        self.ref, self.tref = _in_fork(ref)

    # -- scenarios ---------------------------------------------------------
    def get(self, rng, sizes):
        if rng.random() < 0.12:
            return {"op": "tdho", "l": rng.choice((2, 3)), "omega": rng.choice(self.omegas)}
        o = {"op": "get", "l": rng.choice(sizes)}
        if rng.random() < 0.15:
            o["verbose"] = True
        return o

    def generate(self, rng, i, tier):
        pool = rng.sample([2, 3, 4, 5, 6], rng.choice((1, 2, 2, 3)))
        if rng.random() < 0.08:
            pool += [1, 10]
        if rng.random() < 0.5:
            pool = pool[:2]
        s = {"pid": self.id, "seed": rng.getrandbits(40), "knobs": gen_knobs(rng), "phases": []}
        if rng.random() < 0.05:
            # files beyond one buffer, page or allocation unit
            pool = pool[:1] + [rng.choice((12, 12, 15, 15, 20))]
            for k in ("wchunk", "rchunk"):
                s["knobs"][k] = rng.choice((None, 65536, 131072))
            s["knobs"]["bufsize"] = 8192
        f = getattr(self, "gen_" + self.id)
        f(rng, s, pool, tier)
        return s

    def _faults(self, rng, procs, kinds, n):
        fs = []
        for _ in range(n):
            j = rng.randrange(len(procs))
            fs.append({"proc": j, "op": rng.randrange(len(procs[j])),
                       "ev": rng.choice((0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 24)),
                       "kind": rng.choice(kinds), "frac": rng.choice((0.0, 0.1, 0.5, 0.9))})
        return fs

    def gen_C01(self, rng, s, pool, tier):
        for _ in range(rng.choice((1, 2, 2, 3, 4))):
            procs = [[self.get(rng, pool) for _ in range(rng.choice((1, 1, 2, 3)))]
                     for _ in range(rng.choice((1, 1, 1, 2, 3)))]
            kinds = rng.choice((["power"], ["power", "kill"], ["kill"], IO_KINDS, IO_KINDS + ["power", "kill"],
                                ["short", "ENOSPC", "power"]))
            s["phases"].append({"procs": procs, "sched": gen_sched(rng),
                                "faults": self._faults(rng, procs, kinds, rng.choice((1, 1, 2, 3)))})
        s["phases"].append({"procs": [[{"op": "get", "l": l} for l in sorted(set(pool))]],
                            "sched": gen_sched(rng), "faults": []})

    def gen_C02(self, rng, s, pool, tier):
        for _ in range(rng.choice((1, 1, 2, 3))):
            procs = [[self.get(rng, pool) for _ in range(rng.choice((1, 2, 3)))]
                     for _ in range(rng.choice((1, 1, 2)))]
            kinds = rng.choice((["power"], ["kill"], ["kill", "power"], IO_KINDS, IO_KINDS + ["power", "kill"]))
            fs = self._faults(rng, procs, kinds, rng.choice((1, 1, 2, 3)))
            if rng.random() < 0.4:  # the failing process itself goes on and asks again
                for pr in procs:
                    pr += [dict(o) for o in pr]
            s["phases"].append({"procs": procs, "sched": gen_sched(rng), "faults": fs})
        want = []
        for l in sorted(set(pool)):
            want += [{"op": "get", "l": l, "final": 1}, {"op": "get", "l": l, "final": 2}]
        if rng.random() < 0.5:
            s["phases"].append({"procs": [want], "sched": gen_sched(rng), "faults": []})
        else:  # second request in yet another process
            s["phases"].append({"procs": [[o for o in want if o["final"] == 1]], "sched": gen_sched(rng), "faults": []})
            s["phases"].append({"procs": [[o for o in want if o["final"] == 2]], "sched": gen_sched(rng), "faults": []})

    def gen_C03(self, rng, s, pool, tier):
        kills = rng.random() < 0.4
        for _ in range(rng.choice((1, 1, 2))):
            np_ = rng.choice((2, 2, 3, 4))
            procs = [[self.get(rng, pool) for _ in range(rng.choice((1, 1, 2, 3)))] for _ in range(np_)]
            fs = self._faults(rng, procs[:-1], ["kill"], rng.choice((1, 2))) if kills else []
            s["phases"].append({"procs": procs, "sched": gen_sched(rng), "faults": fs})
        if rng.random() < 0.5:
            s["phases"].append({"procs": [[{"op": "get", "l": l} for l in pool]], "sched": gen_sched(rng), "faults": []})

    def gen_C04(self, rng, s, pool, tier):
        for _ in range(rng.choice((1, 2, 3))):
            procs = []
            for _ in range(rng.choice((1, 1, 2, 3))):
                ops = []
                for _ in range(rng.randrange(2, 9)):
                    x = rng.random()
                    if x < 0.5:
                        ops.append(self.get(rng, pool))
                    elif x < 0.65:
                        ops.append({"op": "env", "v": rng.choice((None, None, "1", "yes", "true"))})
                    elif x < 0.85:
                        ops.append({"op": "scribble", "how": rng.choice(("zero", "neg", "one"))})
                    elif x < 0.95:
                        ops.append({"op": "rm", "which": rng.choice(("all", "one"))})
                    else:
                        ops.append({"op": "get", "l": rng.choice(pool), "twice": True})
                procs.append(ops)
            if rng.random() < 0.4:
                procs.append([{"op": "rm", "which": rng.choice(("all", "one"))} for _ in range(rng.randrange(1, 6))])
            s["phases"].append({"procs": procs, "sched": gen_sched(rng), "faults": []})
        s["phases"].append({"procs": [[{"op": "get", "l": l} for l in pool]], "sched": gen_sched(rng), "faults": []})

    def simpler(self, op):
        if op["op"] == "tdho":
            yield {"op": "get", "l": op["l"]}
        if op.get("verbose"):
            o = dict(op)
            o.pop("verbose")
            yield o
        if op["op"] == "get" and op["l"] > 2:
            yield dict(op, l=2)

    # -- inside the simulated process --------------------------------------
    def proc_fn(self, ops, phase):
        base = super().proc_fn(ops, phase)

        def fn(agent):
            os.environ[ENV] = "1"
            base(agent)

        return fn

    def op(self, agent, st, op):
        k = op["op"]
        on = os.environ.get(ENV) is not None
        if k == "env":
            if op["v"] is None:
                os.environ.pop(ENV, None)
            else:
                os.environ[ENV] = op["v"]
            return {"ok": True}
        if k == "scribble":
            for a in st.get("arrays", []):
                if op["how"] == "zero":
                    a[...] = 0
                elif op["how"] == "neg":
                    a *= -1
                else:
                    a[(0,) * a.ndim] = 7.5
            return {"ok": True}
        if k == "rm":
            n = 0
            try:
                for f in sorted(os.listdir(agent.root)):
                    if f.startswith("."):
                        continue  # as `rm *` does; a request's private temporary file is not a cache file
                    try:
                        os.remove(os.path.join(agent.root, f))
                        n += 1
                    except FileNotFoundError:
                        pass
                    if op["which"] == "one":
                        break
            except OSError:
                pass
            return {"ok": True, "n": n}
        try:
            if k == "get":
                kw = {"verbose": True} if op.get("verbose") else {}
                a = self.H.get_coulomb_elements(op["l"], **kw)
                ref = self.ref[op["l"]]
                if op.get("twice"):
                    b = self.H.get_coulomb_elements(op["l"])
                    if np.shares_memory(a, b):
                        return {"ok": True, "on": on, "why": "two requests returned the same memory"}
                    why = same(b, ref)
                    if why:
                        return {"ok": True, "on": on, "why": why}
            else:
                a = self.T(op["l"], 2, 3, omega=op["omega"]).u
                ref = self.tref[(op["l"], op["omega"])]
        except BaseException as e:
            msg = str(e).replace(agent.root, "<cache>")[:160]
            return {"ok": False, "on": on, "exc": type(e).__name__, "msg": msg}
        why = same(a, ref)
        st.setdefault("arrays", []).append(a)
        st["arrays"] = st["arrays"][-3:]
        return {"ok": True, "on": on, "why": why}

    # -- oracle ------------------------------------------------------------
    def judge_phase(self, s, m, hist):
        pid = self.id
        rec = hist[-1]
        ph = len(hist) - 1
        for p in rec["procs"]:
            for k, r in enumerate(p["results"]):
                o, out = r["op"], r["out"]
                if o["op"] not in ("get", "tdho"):
                    continue
                where = "phase %d process %d request %d (l=%d)" % (ph, p["i"], k, o["l"])
                if out["ok"] and out.get("why"):
                    return {"kind": "wrong-elements", "detail": "%s returned wrong elements: %s" % (where, out["why"])}
                if not out["ok"] and k not in p.get("faulted", []) and pid != "C01":
                    return {"kind": "request-failed",
                            "detail": "%s raised %s with no fault active: %s" % (where, out["exc"], out["msg"])}
                if pid == "C04" and not out["on"]:
                    bad = [e for e in r["events"] if e[0] not in ("stat", "start", "spin")]
                    if bad:
                        return {"kind": "io-while-off", "detail": "%s with caching off touched storage: %s" % (where, bad[:4])}
                if pid == "C04" and out["on"] and out["ok"] and len(rec["procs"]) == 1:
                    pass
                if pid == "C02" and o.get("final") == 2:
                    bad = [e for e in r["events"] if e[0] in proc.MUTATING]
                    if bad:
                        return {"kind": "not-served-from-cache",
                                "detail": "%s wrote to storage although the elements were already cached: %s" % (where, bad[:4])}
        if pid == "C02":
            for l in sorted({r["op"]["l"] for p in rec["procs"] for r in p["results"] if r["op"].get("final") == 1}):
                if not self.cached(m, l):
                    return {"kind": "cache-not-restored",
                            "detail": "after a successful request for l=%d no loadable cache file with its elements exists: %s"
                            % (l, self.listing(m))}
        if pid == "C03":
            done = {r["op"]["l"] for h in hist for p in h["procs"] for r in p["results"] if r["out"]["ok"]}
            for l in sorted(done):
                if not self.cached(m, l):
                    return {"kind": "cache-incomplete",
                            "detail": "size %d was requested successfully but no loadable file holds it: %s" % (l, self.listing(m))}
            if not any(h["fired"] for h in hist):
                vis = [f for f in self.listing(m) if not f[0].startswith(".")]
                if len(vis) != len(done):
                    return {"kind": "debris", "detail": "sizes %s were cached but the directory holds %s" % (sorted(done), vis)}
        if pid == "C04":
            # single-process phases without removals: every size asked for while on is on disk
            if len(rec["procs"]) == 1 and not any(o["op"] == "rm" for o in rec["ops"][0]):
                for r in rec["procs"][0]["results"]:
                    if r["op"]["op"] in ("get", "tdho") and r["out"].get("on") and not self.cached(m, r["op"]["l"]):
                        return {"kind": "not-cached", "detail": "l=%d was requested with caching on but is not on disk: %s"
                                % (r["op"]["l"], self.listing(m))}
        return None

    def listing(self, m):
        return sorted((f, len(m.disk.content[v[1]])) for f, v in m.disk.ns.items() if v[0] == "f")

    def cached(self, m, l):
        ref = self.ref[l]
        for f, v in m.disk.ns.items():
            if v[0] != "f":
                continue
            p = os.path.join(m.root, f)
            try:
                x = np.load(p, allow_pickle=False)
                xs = [x[k] for k in x.files] if hasattr(x, "files") else [x]
            except Exception:
                continue
            if any(np.shape(y) == ref.shape and same(np.array(y), ref) is None for y in xs):
                return True
        return False


def engine(pid):
    return CacheEngine(pid)
