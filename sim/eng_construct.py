"""C13: a construction depends only on its arguments, not on history."""
import itertools
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile
import time
import warnings

import numpy as np

from sim import core
from sim.configs import BASE, CHEAP, COST, build, configs, image, key, potential, vary, wild
from sim.objects import diff
from sim.thread_engine import ThreadEngine, Violation, at_seldom, at_stores, gen_tsched


def references(cfgs, par):
    """Each configuration in its own fork of this (still unused) process."""
    todo = list(enumerate(cfgs))
    live = {}
    out = {}
    while todo or live:
        while todo and len(live) < par:
            i, c = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    warnings.simplefilter("ignore")
                    try:
                        b = pickle.dumps(("ok", image(build(c)[0])))
                    except Exception as e:
                        b = pickle.dumps(("raised", type(e).__name__))
                    with os.fdopen(w, "wb") as f:
                        f.write(b)
                finally:
                    os._exit(0)
            os.close(w)
            live[i] = (pid, r)
        i = min(live)
        pid, r = live.pop(i)
        with os.fdopen(r, "rb") as f:
            b = f.read()
        os.waitpid(pid, 0)
        out[key(cfgs[i])] = pickle.loads(b) if b else ("raised", "died")
    return out


def rng_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], random.getstate())


def gen_history(rng, cfgs, names, n, faults=True):
    """Operations over neighbouring configurations of one or two families."""
    fams = rng.sample(names, rng.choice((1, 1, 2, 3)))
    pool = [c for c in cfgs if c[0] in fams]
    if rng.random() < 0.6:  # neighbourhood: base and variations of one parameter
        f = fams[0]
        k = rng.choice(sorted(BASE[f]))
        near = [c for c in pool if c[0] == f and all(c[1][q] == BASE[f][q] for q in c[1] if q != k)]
        pool = near + ([c for c in pool if c[0] != f] if rng.random() < 0.3 else [])
    if faults and rng.random() < 0.2:
        pool = wild(rng) if rng.random() < 0.7 else wild(rng) + wild(rng)
    ops = []
    early = rng.random() < 0.4
    for _ in range(n):
        x = rng.random()
        if x < 0.7 or not ops:
            o = {"op": "construct", "cfg": rng.choice(pool)}
            if early and "potential" in o["cfg"][1]:
                o["early"] = True
            if faults and rng.random() < 0.25:
                o["fault"] = {"exc": rng.choice(("MemoryError", "KeyboardInterrupt")), "k": int(2 ** rng.uniform(0, 11)) - 1}
        elif x < 0.85:
            o = {"op": "scribble", "which": rng.randrange(8), "seed": rng.randrange(10**6)}
        elif x < 0.92:
            o = {"op": "scribble_args", "which": rng.randrange(8)}
        else:
            o = {"op": "convert", "which": rng.randrange(8), "how": rng.choice(("general", "antisym", "cast"))}
        if o["op"] == "construct" and "fault" not in o and o["cfg"][0] in CHEAP and faults and rng.random() < 0.02:
            o["rep"] = rng.choice((5, 9, 17, 33, 70, 150))
        ops.append(o)
    return ops


def shrink_ops(ops):
    for n, o in enumerate(ops):
        if o.get("rep", 1) > 1:
            yield ops[:n] + [dict(o, rep=o["rep"] // 2)] + ops[n + 1:]
            yield ops[:n] + [dict(o, rep=o["rep"] - 1)] + ops[n + 1:]
        if o["op"] == "construct" and o["cfg"][1] != BASE[o["cfg"][0]]:
            yield ops[:n] + [dict(o, cfg=[o["cfg"][0], dict(BASE[o["cfg"][0]])])] + ops[n + 1:]


class History:
    """Executes the operations of one client; shared by the simulated and the compiled runs."""

    def __init__(self, refs, call):
        self.refs, self.call = refs, call
        self.made = []  # [cfg, result, args, image or None]
        self.pots = {}  # potentials made before anything else, each used by several constructions

    def prepare(self, ops):
        for o in ops:
            spec = o.get("early") and o["cfg"][1].get("potential")
            if spec and str(spec) not in self.pots:
                self.pots[str(spec)] = potential(spec)

    def step(self, o, where, quiet=lambda: None):
        k = o["op"]
        if k == "construct":
            cfg = o["cfg"]
            st, ref = self.refs[key(cfg)]
            before = rng_state()
            pot = self.pots.get(str(cfg[1].get("potential"))) if o.get("early") else None
            kind, res, fired = self.call(lambda: build(cfg, pot), o.get("fault"))
            with core.no_preempt():
                if not fired and not quiet() and rng_state() != before:
                    raise Violation("random-state", "%s: constructing %s changed the global random state" % (where, key(cfg)))
                if kind == "raised":
                    if fired:
                        return "interrupted"
                    if st == "ok":
                        raise Violation("history-dependent", "%s: constructing %s raised %r; in a fresh process it succeeds" % (where, key(cfg), res))
                    return "raised"
                if st != "ok":
                    raise Violation("history-dependent", "%s: constructing %s succeeds; in a fresh process it raises %s" % (where, key(cfg), ref))
                im = image(res[0])
                d = diff(ref, im)
                if d:
                    raise Violation("history-dependent", "%s: %s differs from a fresh process: %s" % (where, key(cfg), d))
                self.made.append([cfg, res[0], res[1], im])
                if len(self.made) > 8:
                    self.made.pop(0)
            return "ok"
        if not self.made:
            return "skip"
        m = self.made[o["which"] % len(self.made)]
        with core.no_preempt():
            self.unchanged(where)
            if k == "scribble":
                rs = np.random.RandomState(o["seed"])
                arrs = vary(m[1])
                df = m[1] if type(m[1]).__name__ == "DataFrame" else getattr(m[1], "df", None)
                if df is not None and rs.randint(2):
                    for c in df.columns:
                        df.loc[:, c] = df[c] + 1
                elif arrs:
                    a = arrs[rs.randint(len(arrs))]
                    if a.flags.writeable and a.size:
                        a[...] = np.asarray(rs.standard_normal(a.shape) * 3).astype(a.dtype)
            elif k == "scribble_args":
                a = m[2]
                if a is None:  # an argument left to its default
                    a = getattr(m[1], "potential", None)
                    if callable(a) and not hasattr(a, "__dict__"):
                        a = None
                gone = a if isinstance(a, tuple) else (a,)
                self.pots = {q: v for q, v in self.pots.items() if not any(v is y for y in gone)}
                for x in (a if isinstance(a, tuple) else (a,)):
                    if isinstance(x, np.ndarray):
                        x[...] = 7
                    elif x is not None:
                        for q, v in list(vars(x).items()):
                            if isinstance(v, (int, float)):
                                setattr(x, q, v + 1.5)
                for e in self.made:  # sets handed the same potential object see the caller's change
                    held = e[2] if isinstance(e[2], tuple) else (e[2],)
                    if any(y is z for y in gone if y is not None for z in held):
                        e[3] = None
            elif k == "convert" and hasattr(m[1], "change_to_general_orbital_basis"):
                try:
                    if o["how"] == "general":
                        m[1].change_to_general_orbital_basis()
                    elif o["how"] == "antisym":
                        m[1].anti_symmetrize_two_body_elements()
                    else:
                        m[1].cast_to_complex()
                except Exception:
                    pass
            m[3] = None  # touched by its owner
            self.unchanged(where)
        return "ok"

    def unchanged(self, where):
        for m in self.made:
            if m[3] is not None:
                d = diff(m[3], image(m[1]))
                if d:
                    raise Violation("earlier-changed", "%s: an earlier result (%s) changed: %s" % (where, key(m[0]), d))


class ConstructEngine(ThreadEngine):
    counts = {"quick": 3000, "thorough": 50000}
    walls = {"quick": 180, "thorough": 1500}
    step_cap = 30000000
    rule = "a run counts when at least two constructions happened and a construction was interrupted, an earlier result was modified, parameters differed or threads were switched"
    real = ["every provided basis-set class, the potentials and the two-dimensional helpers (Python source, compiler off)",
            "the same with the compiler on, sequential histories", "sympy, scipy, pandas, pyscf integrals"]
    stubs = ["the thread scheduler", "clock and random names in the runs with an on-disk Coulomb cache"]
    assumptions = ["the result in a fork of the process that has imported the package but constructed nothing is the fresh-process result",
                   "histories with compiled code are sequential (threads switch inside the Python source only)"]

    def setup(self, tier):
        warnings.simplefilter("ignore")
        self.cfgs = configs()
        path = os.path.join(os.environ["TMPDIR"], "jit.json")
        env = {k: v for k, v in os.environ.items() if k != "NUMBA_DISABLE_JIT"}
        env["QS_JIT_HISTORIES"] = "400" if tier == "quick" else "6000"
        p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "sim.eng_construct", path], env=env,
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        import quantum_systems
        import quantum_systems.quantum_dots.two_dim.two_dim_helper
        import pyscf
        import sympy

        r = sympy.Symbol("r")  # warm sympy itself, no repository code involved
        a = sympy.Float(1.0)
        for n in range(3):
            sympy.integrate(r ** (n + 1) * (a * r).conjugate() * sympy.exp(-a * r ** 2), (r, 0, sympy.oo))
        self.refs = references(self.cfgs, 8)
        bad = [k for k, v in self.refs.items() if v[0] != "ok"]
        self.names = sorted({c[0] for c in self.cfgs})
        _, err = p.communicate(timeout=1500)
        if p.returncode != 0:
            raise core.HarnessError("compiled histories: " + err[-1500:])
        self.jit = json.load(open(path))

    def generate(self, rng, i, tier):
        if i < 30:  # verdicts of the compiled histories made during setup
            return {"kind": "jit", "which": i, "clients": [[]], "sched": {"mode": "explicit", "switches": []}}
        nc = rng.choice((1, 1, 2, 2, 3))
        names = self.names + [n for n in self.names if n not in COST] * 2
        clients = []
        for j in range(nc):
            clients.append(gen_history(rng, self.cfgs, names if j == 0 or rng.random() < 0.5 else [clients[0][0]["cfg"][0]] * 3,
                                       rng.randrange(2, 7) if nc == 1 else rng.randrange(1, 4)))
        sc = gen_tsched(rng)
        if "pr" not in sc:
            sc["p"] = rng.choice((0.0, 0.002, 0.02, 0.1))
        if rng.random() < 0.3:
            sc["dense"] = rng.choice((200, 1000, 5000))
        out = {"kind": "sim", "clients": clients, "sched": sc, "rng": rng.randrange(10**6)}
        if rng.random() < 0.2:  # two or three threads build variations of one kind of set side by side
            fam = rng.choice(self.names)
            pool = [c for c in self.cfgs if c[0] == fam]
            out["clients"] = [[{"op": "construct", "cfg": c}] for c in rng.sample(pool, rng.choice((2, 2, 3)))]
            x = rng.random()
            if x < 0.3:
                at_stores(rng, sc)
            elif x < 0.75:
                at_seldom(rng, sc)
            else:
                sc.update(p=rng.choice((0.002, 0.02)), dense=rng.choice((200, 1000, 5000)))
        elif rng.random() < 0.07:  # with the Coulomb elements cached on disk, shared by the threads of this process
            fams = rng.choice((["tdho", "f_u"], ["f_u", "f_u"], ["tdho", "tddw"]))
            out["cache"] = True
            out["clients"] = [gen_history(rng, self.cfgs, fams * 2, rng.randrange(2, 5)) for _ in range(rng.choice((1, 2, 2, 3)))]
            sc["p"] = rng.choice((0.02, 0.1, 0.4))
        return out

    def shrink(self, s):
        if s.get("cache"):
            yield dict(s, cache=False)
        yield from super().shrink(s)
        for j, ops in enumerate(s["clients"]):
            for c in shrink_ops(ops):
                yield dict(s, clients=s["clients"][:j] + [c] + s["clients"][j + 1:])

    def _run(self, s):
        if s["kind"] == "jit":
            v = self.jit["violations"].get(str(s["which"]))
            n = self.jit["n"]
            return {"violation": v, "digest": str(v), "sig": "jit%d" % s["which"], "stats": {"jit_constructions": 0}, "nontrivial": False,
                    "tail": [], "made": []}
        self.multi = len(s["clients"]) > 1
        self.faulty = any("fault" in o for c in s["clients"] for o in c)
        self.preempt = self.multi
        return super()._run(s)

    def monitor(self):
        if self.multi or self.faulty:
            core.MON.start()

    def start(self, s, sim):
        new = {key(o["cfg"]): o["cfg"] for c in s["clients"] for o in c if o["op"] == "construct" and key(o["cfg"]) not in self.refs}
        if new:  # nothing has been constructed in this process yet
            self.refs = dict(self.refs, **references([new[k] for k in sorted(new)], 1))
        np.random.seed(s["rng"])
        random.seed(s["rng"])
        if s.get("cache"):
            # the run has a process of its own: its environment, clock and file names are the simulator's
            self.bump("runs_with_disk_cache")
            sys.path.insert(0, tempfile.mkdtemp())
            os.environ["QS_CACHE_TDHO"] = "1"
            noise = random.Random(s["rng"])
            os.urandom = noise.randbytes
            ticks = itertools.count()
            time.time = lambda: 1e9 + next(ticks) // 16 * 1e-3
        self.hist = [History(self.refs, self.call) for _ in s["clients"]]
        return [self.client(j, ops, sim) for j, ops in enumerate(s["clients"])]

    def client(self, j, ops, sim):
        def fn():
            self.hist[j].prepare(ops)
            for n, o in ((n, o) for n, o in enumerate(ops) for _ in range(o.get("rep", 1))):
                self.bump("constructions" if o["op"] == "construct" else "modifications")
                where = "client %d op %d (%s)" % (j, n, o["op"])
                with warnings.catch_warnings():
                    r = self.hist[j].step(o, where)
                sim.log(j, n, o["op"], r)

        return fn

    def finish(self, s):
        for j, h in enumerate(self.hist):
            h.unchanged("at the end, client %d" % j)
        if s.get("cache"):
            shutil.rmtree(sys.path[0], ignore_errors=True)

    def nontrivial(self, s, sim):
        return self.stats.get("constructions", 0) > 1 and (
            super().nontrivial(s, sim) or self.stats.get("modifications", 0) > 0 or
            len({key(o["cfg"]) for c in s["clients"] for o in c if o["op"] == "construct"}) > 1)


# --------------------------------------------------------------------------
# compiled code: the same histories, sequentially, in forks of a process whose
# compiler has been warmed with configurations outside the compared set
# --------------------------------------------------------------------------
WARM = [["odqd", {"l": 2, "grid_length": 3.3, "num_grid_points": 10, "a": 0.33, "alpha": 1.3, "beta": 0.05, "potential": None}],
        ["odho", {"l": 2, "grid_length": 3.3, "num_grid_points": 10, "omega": 0.77, "a": 0.33, "alpha": 1.3, "beta": 0.05}],
        ["dvr", {"l": 2, "grid_length": 3.3, "a": 0.33, "alpha": 1.3, "beta": 0.05, "potential": None, "u_repr": "4d"}],
        ["tddw", {"l": 1, "radius_length": 1.5, "num_grid_points": 3, "omega": 1.7, "mass": 1.1, "barrier_strength": 3, "axis": 1}],
        ["tdhob", {"l": 1, "radius_length": 1.5, "num_grid_points": 3, "omega": 1.7, "mass": 1.1, "omega_c": 0.9}]]


def jit_main(path):
    from sim.runner import forked, scenario_seed

    warnings.simplefilter("ignore")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    n = int(os.environ.get("QS_JIT_HISTORIES", "400"))
    cfgs = configs()
    import quantum_systems  # noqa: F401

    # pristine references: compile in each fork (on-disk cache shared where the code caches)
    small = [c for c in cfgs if c[0] not in ("tdhob", "f_sdw", "f_df", "f_pot", "pyscf_ao")]
    first = [c for c in small if c[1] == BASE[c[0]]]
    refs = references(first, 4)
    slow = [c for c in small if c[0] in ("tdho", "f_u", "tddw", "general")]
    slow = [c for i, c in enumerate(slow) if i % 3 == 0 or c in first]
    use = [c for c in small if c in slow or c[0] not in ("tdho", "f_u", "tddw", "general")]
    refs.update(references([c for c in use if key(c) not in refs], 6))
    for c in WARM:
        try:
            build(c)
        except Exception:
            pass
    names = sorted({c[0] for c in use})

    def call(fn, fault=None):
        try:
            return "ok", fn(), None
        except Exception as e:
            return "raised", e, None

    viol = {}

    def one(i):
        rng = random.Random(scenario_seed(seed, 10**6 + i))
        np.random.seed(i)
        h = History(refs, call)
        ops = gen_history(rng, use, names, rng.randrange(2, 9), faults=False)
        try:
            h.prepare(ops)
            for k, o in enumerate(ops):
                h.step(o, "compiled history %d op %d" % (i, k))
            h.unchanged("compiled history %d, at the end" % i)
        except Violation as e:
            return dict(e.v, ops=ops, later=True)  # prefer a violation that can be minimised
        return None

    def batch(w):
        out = {}
        for i in range(w, n, 4):
            st, r = forked(lambda: one(i), 120)
            if st != "ok":
                raise core.HarnessError(str(r))
            if r:
                out[str(i % 30)] = r
                break
        return out

    ps = []
    for w in range(4):
        r, wf = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                b = json.dumps(batch(w), default=str).encode()
                os.write(wf, b)
            finally:
                os._exit(0)
        os.close(wf)
        ps.append((pid, r))
    for pid, r in ps:
        with os.fdopen(r, "rb") as f:
            b = f.read()
        os.waitpid(pid, 0)
        viol.update(json.loads(b))
    json.dump({"violations": viol, "n": n}, open(path, "w"))


def engine(pid):
    return ConstructEngine(pid)


if __name__ == "__main__":
    jit_main(sys.argv[1])
