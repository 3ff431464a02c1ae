"""C12: the parallel loop over orbitals, on simulated workers."""
import os
import subprocess
import sys
import warnings

import numpy as np

from sim import core
from sim.refmodel import close
from sim.thread_engine import ThreadEngine, Violation, gen_tsched

LMAX = 21  # largest number of orbitals
SMALL = 6  # largest one evaluated entirely in Python


def index_of(n, m):
    k = 2 * n + abs(m)
    return int(k * (k + 1) // 2 + (m + k) // 2)


COMPILED = r"""
import sys, json, warnings
warnings.simplefilter("ignore")
import numpy as np, numba
from quantum_systems.quantum_dots.two_dim.two_dim_helper import get_coulomb_elements
out = {}
for l in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, %d):
    for w in (1, 2, 3, 5, 8):
        numba.set_num_threads(min(w, numba.config.NUMBA_NUM_THREADS))
        for k in range(2 if l < 14 else 1):
            out["%%d/%%d/%%d" %% (l, w, k)] = np.array(get_coulomb_elements(l))
np.savez(sys.argv[1], **out)
"""


class PrangeEngine(ThreadEngine):
    counts = {"quick": 1200, "thorough": 40000}
    walls = {"quick": 150, "thorough": 1500}
    rule = "a run counts when at least two workers ran iterations and were switched more than twice"
    real = ["get_coulomb_elements and everything below it, as Python source with the compiler switched off",
            "the compiled loop for 18 sizes up to 21 orbitals at 1, 2, 3, 5 and 8 threads (conformance only, schedule not controlled)"]
    stubs = ["numba's parallel backend: iterations run on simulated workers",
             "more than %d orbitals in simulation: coulomb_ho answers from the reference table" % SMALL,
             "numba.get_num_threads / get_thread_id (answer for the simulated workers)"]
    assumptions = ["iterations are atomic at lines (large sizes) or at calls, operators and subscripts (small sizes)",
                   "privatisation and reductions follow numba's documented rules",
                   "uninitialised arrays hold NaN"]

    def setup(self, tier):
        warnings.simplefilter("ignore")
        if os.environ.get("NUMBA_DISABLE_JIT") != "1":
            raise core.HarnessError("NUMBA_DISABLE_JIT is not set")
        from sim import outline

        self.nthreads = 1
        self.plan = None
        path = os.path.join(os.environ["TMPDIR"], "compiled.npz")
        env = {k: v for k, v in os.environ.items() if k not in ("NUMBA_DISABLE_JIT", "NUMBA_NUM_THREADS", "OMP_NUM_THREADS")}
        env["NUMBA_NUM_THREADS"] = "8"
        p = subprocess.Popen([sys.executable, "-W", "ignore", "-c", COMPILED % LMAX, path], env=env,
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        import numba

        numba.get_num_threads = lambda: self.nthreads
        numba.get_thread_id = self.thread_id
        numba.set_num_threads = lambda n: None
        outline.install(self.parallel)
        import quantum_systems.quantum_dots.two_dim.two_dim_helper as M

        self.numba = numba
        self.M = M
        self.loops = outline.FOUND
        tab = os.path.join(os.environ["TMPDIR"], "table.npy")
        q = subprocess.run([sys.executable, "-W", "ignore", os.path.join(os.path.dirname(__file__), "coulomb_ref.py"),
                            str(LMAX), tab], env=dict(env, NUMBA_NUM_THREADS="1"), capture_output=True, text=True)
        if q.returncode:
            raise core.HarnessError("reference table: " + q.stderr[-500:])
        self.table = np.load(tab)
        self.ref = {l: self.table[:l, :l, :l, :l] for l in range(1, LMAX + 1)}
        self.kernel = getattr(M, "coulomb_ho", None)
        _, err = p.communicate(timeout=600)
        self.compiled = None
        self.compiled_err = None
        if p.returncode == 0:
            self.compiled = dict(np.load(path))
        else:
            self.compiled_err = err[-800:]

    def thread_id(self):
        t = self.sim.current() if getattr(self, "sim", None) else None
        return getattr(t, "worker", 0) if t is not None else 0

    # -- generation --------------------------------------------------------
    def generate(self, rng, i, tier):
        if i % 97 == 96:
            return {"kind": "compiled", "which": i // 97 % 10, "clients": [[]], "sched": {"mode": "explicit", "switches": []}}
        if self.kernel is not None and rng.random() < 0.12:
            # loop structure at larger sizes: the closed-form element itself comes from the reference table
            l = rng.choice((7, 8, 9, 10, 11, 12)) if rng.random() < 0.85 else rng.choice((13, 15, 16, 17))
            sc = gen_tsched(rng)
            sc["p"] = rng.choice((0.0, 0.0003, 0.003, 0.02))
            return {"kind": "sim", "fine": False, "table": True, "sched": sc, "clients": [[
                {"op": "elements", "l": l, "W": rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 12, 16)), "verbose": False,
                 "assign": rng.choice(("chunks", "random", "robin", "reverse")), "seed": rng.randrange(10**6)}]]}
        big = rng.random() < 0.15
        fine = not big and rng.random() < 0.6
        nc = rng.choice((1, 1, 1, 2))
        clients = []
        for _ in range(nc):
            clients.append([{"op": "elements", "l": rng.choice((4, 4, 5, 6)) if big else rng.choice((1, 2, 3, 3)),
                             "W": rng.choice((1, 2, 2, 3, 4, 5, 8)), "assign": rng.choice(("chunks", "random", "robin", "reverse")),
                             "seed": rng.randrange(10**6), "verbose": rng.random() < 0.05}
                            for _ in range(rng.choice((1, 1, 2)) if not big else 1)])
        sc = gen_tsched(rng)
        sc["p"] = rng.choice((0.0, 0.003, 0.02, 0.1)) if big else rng.choice((0.005, 0.02, 0.1, 0.3))
        return {"kind": "sim", "fine": fine, "clients": clients, "sched": sc}

    def simpler(self, o):
        if o.get("W", 0) > 2:
            yield dict(o, W=2)
        if o.get("l", 0) > 2:
            yield dict(o, l=o["l"] - 1)
        if o.get("assign") == "random":
            yield dict(o, assign="chunks")

    # -- running -----------------------------------------------------------
    def _run(self, s):
        if s["kind"] == "compiled":
            return self.run_compiled(s)
        self.fine = s["fine"]
        return super()._run(s)

    step_cap = 6000000

    def run_compiled(self, s):
        v = None
        if self.compiled is None:
            v = {"kind": "compiled-failed", "detail": "the compiled loop failed: %s" % self.compiled_err}
        else:
            keys = sorted(self.compiled)
            for k in keys[s["which"]::10]:
                l = int(k.split("/")[0])
                if not close(self.compiled[k], self.ref[l]):
                    v = {"kind": "compiled-differs", "detail": "compiled elements for %d orbitals differ with %s threads" % (l, k.split("/")[1])}
                    break
        return {"violation": v, "digest": str(v), "sig": "compiled%d" % s["which"], "stats": {"compiled": 1}, "nontrivial": False,
                "tail": [], "made": []}

    def monitor(self):
        core.MON.start(lines_only=not self.fine)

    def start(self, s, sim):
        self.plan = {}
        self.held = []
        real_empty, real_like = np.empty, np.empty_like

        def empty(*a, **k):
            x = real_empty(*a, **k)
            if x.dtype.kind in "fc":
                x.fill(np.nan)
            elif x.dtype.kind in "iu":
                x.fill(113)
            return x

        def empty_like(*a, **k):
            x = real_like(*a, **k)
            if x.dtype.kind in "fc":
                x.fill(np.nan)
            return x

        np.empty, np.empty_like = empty, empty_like
        if s.get("table"):
            tab = self.table

            def lookup(n_i, m_i, n_j, m_j, n_l, m_l, n_k, m_k):
                return tab[index_of(n_i, m_i), index_of(n_j, m_j), index_of(n_l, m_l), index_of(n_k, m_k)]

            self.M.coulomb_ho = lookup
        return [self.client(j, ops, sim) for j, ops in enumerate(s["clients"])]

    def client(self, j, ops, sim):
        def fn():
            for n, o in enumerate(ops):
                me = sim.current()
                me.op = o
                self.nthreads = o["W"]
                self.numba.config.NUMBA_NUM_THREADS = o["W"]
                kind, res, _ = self.call(lambda: self.M.get_coulomb_elements(o["l"], verbose=False))
                where = "client %d op %d: %d orbitals on %d workers (%s)" % (j, n, o["l"], o["W"], o["assign"])
                sim.log(j, n, kind)
                if kind != "ok":
                    raise Violation("raised", "%s raised %r" % (where, res))
                with core.no_preempt():
                    self.check(res, o["l"], where)
                    self.held.append((res, o["l"], where))

        return fn

    def check(self, res, l, where):
        w = self.ref[l]
        if not isinstance(res, np.ndarray) or res.shape != w.shape:
            raise Violation("elements-differ", "%s: shape %s" % (where, getattr(res, "shape", None)))
        if not np.all(np.isfinite(res)):
            raise Violation("elements-lost", "%s: element %s was never written" % (where, tuple(np.argwhere(~np.isfinite(res))[0])))
        if not close(res, w):
            i = np.unravel_index(np.argmax(np.abs(res - w)), w.shape)
            raise Violation("elements-differ", "%s: element %s is %.6g instead of %.6g" % (where, tuple(int(x) for x in i), res[i], w[i]))

    def finish(self, s):
        for res, l, where in self.held:
            self.check(res, l, "after everything finished, " + where)

    def parallel(self, body, *args):
        """Runs the iterations of one prange loop on simulated workers."""
        idx = list(range(*[int(a) for a in args]))
        sim = core.cur_sim()
        me = sim.current() if sim is not None else None
        if sim is None or me is None or getattr(me, "in_worker", False) or getattr(core._current, "busy", False):
            for i in idx:
                body(i)
            return
        import random

        o = me.op
        rng = random.Random(o["seed"])
        W = o["W"]
        if o["assign"] == "chunks":
            per = max(1, -(-len(idx) // W))
            parts = [idx[k:k + per] for k in range(0, len(idx), per)]
        elif o["assign"] == "robin":
            parts = [idx[k::W] for k in range(W)]
        elif o["assign"] == "reverse":
            parts = [idx[::-1][k::W] for k in range(W)]
        else:
            parts = [[] for _ in range(W)]
            sh = idx[:]
            rng.shuffle(sh)
            for i in sh:
                rng.choice(parts).append(i)
        ths = []
        for w, part in enumerate(parts):
            if not part:
                continue

            def fn(part=part):
                for i in part:
                    sim.point("iteration", i)
                    body(i)

            t = sim.spawn(fn, "worker%d" % w)
            t.worker, t.in_worker, t.op = w, True, o
            ths.append(t)
        self.bump("iterations", len(idx))
        self.bump("workers", len(ths))
        for t in ths:
            t.thread.start()
        sim.block(lambda: all(t.state == "done" for t in ths), "parallel loop")
        for t in ths:
            if t.error is not None and not isinstance(t.error, str):
                e, t.error = t.error, None
                raise e

    def nontrivial(self, s, sim):
        return sim.switches > 4 and self.stats.get("workers", 0) > 1


def engine(pid):
    return PrangeEngine(pid)
