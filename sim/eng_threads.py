"""C10: several threads read one system; every call behaves as when run alone."""
import warnings

import numpy as np

from sim import core
from sim.objects import basis_of, clone, diff, snap
from sim.refmodel import Bases, OpModel, close, coeff, crand, gen_base, gen_op, spinpair
from sim.thread_engine import ThreadEngine, Violation, at_stores, gen_tsched

GET = ["h", "u", "s", "dipole_moment", "spf", "bra_spf", "grid", "nuclear_repulsion_energy", "spin_x", "spin_y", "spin_z",
       "spin_2", "spin_2_tb", "n", "l", "m", "o", "v", "has_one_body_time_evolution_operator",
       "has_two_body_time_evolution_operator", "includes_spin", "anti_symmetrized_u", "dim", "np", "sigma_x", "u_repr"]


def same(a, b):
    """a: observed, b: expected."""
    if isinstance(b, dict):
        return isinstance(a, dict) and diff(b, a) is None
    if isinstance(b, tuple):
        return isinstance(a, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, np.ndarray) or isinstance(b, (complex, float, np.generic)):
        if isinstance(b, np.ndarray) and b.dtype.kind not in "fciub":
            return True
        return a is not None and close(a, b)
    if type(b).__name__ == "module":
        return a is b
    return type(a) is type(b) and a == b


class ThreadsEngine(ThreadEngine):
    counts = {"quick": 3000, "thorough": 100000}
    walls = {"quick": 180, "thorough": 1500}
    rule = "a run counts when threads were switched more than twice; runs are the same if operations, outcomes and switches coincide"
    real = ["SpatialOrbitalSystem, GeneralOrbitalSystem, every basis-set class, the time-evolution operators, numpy",
            "CPython threads (one runs at a time, handed over by the simulator)"]
    stubs = ["the thread scheduler"]
    assumptions = ["threads are switched at calls, operators, subscripts, attribute accesses, returns and loop back edges of repository code and in "
                   "user callbacks, not inside numpy's C code",
                   "numpy arrays themselves are read by several threads without being written"]

    def setup(self, tier):
        warnings.simplefilter("ignore")
        import quantum_systems as QS
        import quantum_systems.time_evolution_operators as T

        self.QS, self.T = QS, T
        self.bases = Bases(QS)

    # -- generation --------------------------------------------------------
    def generate(self, rng, i, tier):
        objs = []
        for j in range(rng.choice((1, 1, 1, 2))):
            b = gen_base(rng, self.bases.names(), 0.3)
            kind = rng.choice(("spatial", "spatial", "general", "general", "basis"))
            objs.append({"base": b, "kind": kind,
                         "n": rng.choice((0, 2, 2, 4) if kind != "general" else (0, 1, 2, 2, 3, 4)), "anti": rng.random() < 0.7,
                         "prep": None if rng.random() < 0.6 else {"kind": rng.choice(("unitary", "biorth", "isometry")),
                                                                  "newl": rng.randrange(2, 5), "seed": rng.randrange(10**6),
                                                                  "cplx": rng.random() < 0.5},
                         "op": gen_op(rng) if rng.random() < 0.65 else None})
        clients = []
        same_op = self.gen_read(rng, objs[0]["kind"] == "basis") if rng.random() < 0.3 else None
        plain = objs[0]["kind"] == "basis"
        for j in range(rng.choice((2, 2, 2, 3, 4))):
            ops = []
            watch = rng.random() < 0.08  # a client that looks at the elements over and over
            for _ in range(rng.randrange(1, 6) if not watch else rng.randrange(8, 17)):
                o = {"op": "get", "names": rng.sample(("h", "u", "s", "spf", "dipole_moment"), 2)} if watch else \
                    dict(same_op) if same_op is not None and rng.random() < 0.7 else self.gen_read(rng, plain)
                o["on"] = 0 if rng.random() < 0.8 else rng.randrange(2)
                if rng.random() < 0.06:
                    o["fault"] = {"exc": rng.choice(("MemoryError", "KeyboardInterrupt")), "k": int(2 ** rng.uniform(0, 7)) - 1}
                ops.append(o)
            clients.append(ops)
        sc = gen_tsched(rng)
        if "pr" not in sc:
            sc["p"] = rng.choice((0.02, 0.1, 0.3, 0.7, 0.9))
        if rng.random() < 0.25:
            at_stores(rng, sc)
        return {"objs": objs, "clients": clients, "sched": sc}

    def gen_read(self, rng, plain=False):
        k = rng.choice(("get", "bra", "density", "transform", "transform", "copy", "copy_basis") if plain else
                       ("get", "get", "bra", "energy", "fock", "density", "density", "ht", "ht", "ut", "transform", "copy",
                        "copy", "derive", "copy_basis"))
        o = {"op": k}
        if k == "get":
            o["names"] = rng.sample(GET, rng.randrange(1, 5))
        elif k == "fock":
            o.update(seed=rng.randrange(10**6), own=rng.random() < 0.5, f=rng.random() < 0.5)
        elif k in ("density", "transform"):
            o.update(seed=rng.randrange(10**6), C=None, other=rng.random() < 0.4)
            if k == "transform" or rng.random() < 0.6:
                o["C"] = {"kind": rng.choice(("unitary", "isometry", "biorth", "birect", "general")), "newl": rng.randrange(1, 5),
                          "seed": rng.randrange(10**6), "cplx": rng.random() < 0.5}
        elif k in ("ht", "ut"):
            o["t"] = rng.choice((0, 0.0, 0.5, -1.25, 3.75, round(rng.uniform(-5, 5), 3)))
        elif k == "derive":
            o.update(anti=rng.random() < 0.6, ab=None if rng.random() < 0.5 else
                     {"seed": rng.randrange(10**6), "cplx": True, "aslist": rng.random() < 0.3})
        return o

    def shrink(self, s):
        yield from super().shrink(s)
        for j, ob in enumerate(s["objs"]):
            for k in ("op", "prep"):
                if ob[k]:
                    yield dict(s, objs=s["objs"][:j] + [dict(ob, **{k: None})] + s["objs"][j + 1:])
        if len(s["objs"]) > 1:
            yield dict(s, objs=s["objs"][:1])

    # -- running -----------------------------------------------------------
    def start(self, s, sim):
        self.shared = []
        self.skip = []
        for j, ob in enumerate(s["objs"]):
            b, _ = self.bases.take(ob["base"], j)
            x, dim = b, b.dim
            try:
                if ob["kind"] == "spatial":
                    x = self.QS.SpatialOrbitalSystem(ob["n"], b)
                elif ob["kind"] == "general":
                    x = self.QS.GeneralOrbitalSystem(ob["n"], b, anti_symmetrize=ob["anti"])
                if ob["prep"]:
                    x.change_basis(*coeff(dict(ob["prep"], newl=max(ob["prep"]["newl"], ob["n"])), x.l))
                if ob["op"] and ob["kind"] != "basis" and not (ob["op"]["kind"] == "laser" and x.dipole_moment is None):
                    x.set_time_evolution_operator(OpModel(ob["op"], dim, x.l).build(self.T))
            except Exception as e:
                sim.log("setup-failed", j, type(e).__name__)
                if x is b and ob["kind"] != "basis":
                    ob = dict(ob, kind="basis")
            self.shared.append((ob, x))
        # expectation of every call: the same call alone, on an independent clone
        self.want = {}
        for j, ops in enumerate(s["clients"]):
            for n, o in enumerate(ops):
                ob, x = self.shared[o.get("on", 0) % len(self.shared)]
                c = clone(x)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        f = self.read(o, ob)
                        self.want[j, n] = None if f is None else ("ok", self.keep(f(c)))
                    except Exception as e:
                        self.want[j, n] = None
        self.before = [snap(x) for _, x in self.shared]
        self.held = []
        return [self.client(j, ops, sim) for j, ops in enumerate(s["clients"])]

    def keep(self, v):
        """Detached image of a result."""
        if isinstance(v, tuple):
            return tuple(self.keep(x) for x in v)
        if isinstance(v, np.ndarray):
            return v.copy()
        if hasattr(v, "_basis_set") or hasattr(v, "anti_symmetrize_two_body_elements"):
            d = snap(v)
            if getattr(v, "_time_evolution_operator", None) is not None:
                c = clone(v)
                for t in (0.0, 1.3):
                    try:
                        d["h_t(%g)" % t], d["u_t(%g)" % t] = np.array(c.h_t(t)), np.array(c.u_t(t))
                    except Exception as e:
                        d["h_t(%g)" % t] = "raised"
            return d
        return v

    def read(self, o, ob):
        k = o["op"]
        kind = ob["kind"]
        if k == "get":
            def f(x):
                return tuple(getattr(x, n) for n in o["names"] if hasattr(type(x), n) or n in vars(x))
            return f
        if k == "bra":
            return lambda x: x.bra_spf
        if k == "copy":
            return (lambda x: x.copy_basis()) if kind == "basis" else (lambda x: x.copy_system())
        if k == "copy_basis":
            return (lambda x: x.copy_basis()) if kind == "basis" else (lambda x: x._basis_set.copy_basis())
        if k == "density":
            def f(x):
                l = x.l
                C = Ct = None
                if o["C"]:
                    C, Ct = coeff(o["C"], l)
                m = l if C is None else C.shape[1]
                rho = crand(np.random.RandomState(o["seed"]), (m, m), np.asarray(x.spf).dtype.kind == "c")
                return x.compute_particle_density(rho, *(() if C is None else (C,) if Ct is None else (C, Ct)))
            return f
        if k == "transform":
            def f(x):
                C, Ct = coeff(o["C"], x.l)
                if o.get("other"):  # elements that are not the system's own
                    rs = np.random.RandomState(o["seed"])
                    h, u = crand(rs, x.h.shape), crand(rs, x.u.shape)
                    if kind == "basis":
                        return (x.transform_one_body_elements(h, C, np, C_tilde=Ct), x.transform_two_body_elements(u, C, np, C_tilde=Ct))
                    return x.transform_one_body_elements(h, C, Ct), x.transform_two_body_elements(u, C, Ct)
                if kind == "basis":
                    return x.get_transformed_h(C), x.get_transformed_u(C)
                return x.transform_one_body_elements(x.h, C, Ct), x.transform_two_body_elements(x.u, C, Ct)
            return f
        if kind == "basis":
            return None
        if k == "energy":
            return lambda x: x.compute_reference_energy()
        if k == "fock":
            def f(x):
                rs = np.random.RandomState(o["seed"])
                h, u = (x.h, x.u) if o["own"] else (crand(rs, x.h.shape), crand(rs, x.u.shape))
                if o["f"]:
                    return x.construct_fock_matrix(h, u, np.full(x.h.shape, 3.0, dtype=complex))
                return x.construct_fock_matrix(h, u)
            return f
        if k == "ht":
            return lambda x: x.h_t(o["t"])
        if k == "ut":
            return lambda x: x.u_t(o["t"])
        if k == "derive":
            if kind != "spatial":
                return None
            ab = spinpair(o["ab"])
            kw = {} if ab is None else {"a": ab[0], "b": ab[1]}
            return lambda x: x.construct_general_orbital_system(anti_symmetrize=o["anti"], **kw)
        raise KeyError(k)

    def client(self, j, ops, sim):
        def fn():
            for n, o in enumerate(ops):
                w = self.want[j, n]
                if w is None:
                    continue
                ob, x = self.shared[o.get("on", 0) % len(self.shared)]
                with core.no_preempt():
                    f = self.read(o, ob)
                    where = "client %d op %d (%s on shared %s)" % (j, n, o["op"] + ("" if o["op"] != "get" else str(o["names"])),
                                                                  type(x).__name__)
                kind, res, fired = self.call(lambda: f(x), o.get("fault"))
                with core.no_preempt():
                    sim.log(j, n, o["op"], kind)
                    if kind == "raised":
                        if fired:
                            continue
                        raise Violation("raised", "%s raised %r; run alone it succeeds" % (where, res))
                    if not same(self.keep(res), w[1]):
                        raise Violation("result-differs", "%s returned something else than when run alone" % where)
                    self.held.append((where, res, w[1]))

        return fn

    def finish(self, s):
        for (ob, x), b in zip(self.shared, self.before):
            d = diff(b, snap(x))
            if d:
                raise Violation("state-changed", "reading changed the shared %s: %s" % (type(x).__name__, d))
        for where, res, w in self.held:
            if not same(self.keep(res), w):
                raise Violation("result-overwritten", "the result of %s changed after it was returned" % where)
        # and still answers as before
        for j, ops in enumerate(s["clients"]):
            for n, o in enumerate(ops):
                w = self.want[j, n]
                if w is None:
                    continue
                ob, x = self.shared[o.get("on", 0) % len(self.shared)]
                kind, res, _ = self.call(lambda: self.read(o, ob)(x))
                if kind != "ok" or not same(self.keep(res), w[1]):
                    raise Violation("state-changed", "after the threads are done, %s on %s gives another answer (%s)" % (
                        o["op"], type(x).__name__, res if kind != "ok" else "value"))


def engine(pid):
    return ThreadsEngine(pid)
