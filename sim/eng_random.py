"""C14: random basis sets keep their symmetries and follow the random stream alone."""
import os
import pickle
import random
import types
import warnings

import numpy as np

from sim import core
from sim.objects import basis_of, diff, snap
from sim.thread_engine import ThreadEngine, Violation, gen_tsched

warnings.simplefilter("ignore")
PALETTE = (0.0, 2.0 ** -53, 2.0 ** -30, 0.25, 0.5, 1 - 2.0 ** -20, 1 - 2.0 ** -53)


# --------------------------------------------------------------------------
# the random stream: a numbered sequence of draws under the simulator's control
# --------------------------------------------------------------------------
def value(spec, k):
    """Draw number k of a stream."""
    kind = spec["kind"]
    if kind == "typical":
        return None
    if kind == "const":
        return PALETTE[spec["c"]]
    if kind == "ramp":
        return (k * spec["step"] + spec["step"] / 2) % 1.0
    h = ((k // spec["run"]) % spec["period"] * 2654435761 + spec["seed"] * 40503) & 0xFFFFFFFF
    h ^= h >> 15
    h = (h * 2246822519) & 0xFFFFFFFF
    h ^= h >> 13
    if kind == "extreme":
        return PALETTE[h % len(PALETTE)]
    return h / 2.0 ** 32  # "periodic"


def gen_stream(rng):
    k = rng.choice(("typical", "typical", "typical", "const", "ramp", "extreme", "periodic"))
    s = {"kind": k, "seed": rng.randrange(6)}
    if k == "const":
        s["c"] = rng.randrange(len(PALETTE))
    elif k == "ramp":
        s["step"] = rng.choice((1 / 7.3, 1e-6, 0.618033988749895))
    elif k in ("extreme", "periodic"):
        s["run"] = rng.choice((1, 1, 2, 9))
        s["period"] = rng.choice((2, 3, 7, 16, 10 ** 9))
    return s


def _untemper(y):
    """Inverse of MT19937's output tempering."""
    y = int(y)
    y ^= y >> 18
    y ^= (y << 15) & 0xEFC60000
    t = y
    for _ in range(5):
        t = y ^ ((t << 7) & 0x9D2C5680)
    y = t
    t = y
    for _ in range(3):
        t = y ^ (t >> 11)
    return t & 0xFFFFFFFF


def mt_state(spec):
    """A state of numpy's global generator whose next 312 doubles are the stream."""
    rs = np.random.RandomState(1000 + spec["seed"])
    if spec["kind"] == "typical":
        return rs.get_state()
    key = np.empty(624, dtype=np.uint32)
    for k in range(312):
        v = int(value(spec, k) * 2.0 ** 53)
        key[2 * k] = _untemper((v >> 26) << 5)
        key[2 * k + 1] = _untemper((v & (2 ** 26 - 1)) << 6)
    return ("MT19937", key, 0, 0, 0.0)


class Stream:
    """Stands in for numpy.random inside the injected array module."""

    def __init__(self, spec):
        self.spec, self.k = spec, 0
        self.rs = np.random.RandomState(1000 + spec["seed"])

    def _draw(self):
        v = value(self.spec, self.k)
        self.k += 1
        return self.rs.random_sample() if v is None else v

    def random(self, size=None):
        if size is None:
            return self._draw()
        out = np.empty(size)
        f = out.reshape(-1)
        if self.spec["kind"] == "typical":
            self.k += len(f)
            f[:] = self.rs.random_sample(len(f))
        else:
            for i in range(len(f)):
                f[i] = self._draw()
        return out

    random_sample = ranf = sample = random

    def rand(self, *dims):
        return self.random(dims or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(self.rs, name):
            return getattr(self.rs, name)
        return getattr(np.random, name)


def ArrayModule(stream):
    m = types.ModuleType("simulated_numpy")
    m.random = stream
    m.__getattr__ = lambda name: getattr(np, name)
    return m


# --------------------------------------------------------------------------
# what is checked
# --------------------------------------------------------------------------
def off(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return np.inf
    return float(np.max(np.abs(a - b))) if a.size else 0.0


def check_set(bs, where):
    """The symmetries a random basis set must have; flags read from the set itself."""
    b = basis_of(bs)
    l, dim = b.l, b.dim
    for n, shape in (("h", (l, l)), ("s", (l, l)), ("u", (l,) * 4), ("dipole_moment", (dim, l, l))):
        x = np.asarray(getattr(b, n))
        if x.shape != shape:
            raise Violation("shape", "%s: %s has shape %s, expected %s" % (where, n, x.shape, shape))
        if not np.all(np.isfinite(x)):
            raise Violation("not-finite", "%s: %s is not finite" % (where, n))
    for n in ("h", "s"):
        x = np.asarray(getattr(b, n))
        if off(x, x.conj().T) > 1e-12:
            raise Violation("not-hermitian", "%s: %s is not Hermitian (off by %.3g)" % (where, n, off(x, x.conj().T)))
    for i, x in enumerate(np.asarray(b.dipole_moment)):
        if off(x, x.conj().T) > 1e-12:
            raise Violation("not-hermitian", "%s: dipole_moment[%d] is not Hermitian (off by %.3g)" % (where, i, off(x, x.conj().T)))
    u = np.asarray(b.u)
    d = off(u, u.transpose(1, 0, 3, 2))
    if d > 1e-12:
        raise Violation("exchange-symmetry", "%s: u is not symmetric under particle exchange (off by %.3g)" % (where, d))


def check_antisym(bs, where):
    u = np.asarray(basis_of(bs).u)
    for name, t in (("the last", u.transpose(0, 1, 3, 2)), ("the first", u.transpose(1, 0, 2, 3))):
        if off(u, -t) > 1e-12:
            raise Violation("anti-symmetry", "%s: u does not change sign under swapping %s index pair (off by %.3g)" % (where, name, off(u, -t)))


def image(bs):
    s = snap(bs)
    return {k: v for k, v in s.items() if isinstance(v, (np.ndarray, int, float, bool))}


def rkey(o):
    return "l=%d dim=%d spin=%d route=%s stream=%s" % (o["l"], o["dim"], o["spin"], o["route"], sorted(o["stream"].items()))


def construct(o):
    from quantum_systems import RandomBasisSet

    kw = {"includes_spin": True} if o["spin"] else {}
    if o["route"] == "mt":
        np.random.set_state(mt_state(o["stream"]))
        return RandomBasisSet(o["l"], o["dim"], **kw)
    if o["route"] == "ambient":  # whatever the global generator holds
        return RandomBasisSet(o["l"], o["dim"], **kw)
    return RandomBasisSet(o["l"], o["dim"], np=ArrayModule(Stream(o["stream"])), **kw)


def pristine(o):
    """The same construction in a fork that has constructed nothing."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                b = pickle.dumps(("ok", image(construct(o))))
            except Exception as e:
                b = pickle.dumps(("raised", repr(e)))
            with os.fdopen(w, "wb") as f:
                f.write(b)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        b = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else ("raised", "died")


class RandomEngine(ThreadEngine):
    counts = {"quick": 3000, "thorough": 120000}
    walls = {"quick": 160, "thorough": 1500}
    rule = "a run counts when a set was constructed and a stream was shared, reused or adversarial, a set was converted, a fault was injected or threads were switched"
    real = ["RandomBasisSet, BasisSet, SpatialOrbitalSystem, GeneralOrbitalSystem", "numpy's global Mersenne Twister (its state is set by the simulator)"]
    stubs = ["the random stream (numpy.random of the injected array module)", "the thread scheduler"]
    assumptions = ["a fork of the process that has constructed nothing gives the reference elements of a stream",
                   "streams deliver finite numbers in [0, 1)"]

    def setup(self, tier):
        import quantum_systems  # noqa: F401

        # the crafted generator state really delivers the stream
        st = {"kind": "extreme", "seed": 3, "run": 1, "period": 10 ** 9}
        np.random.set_state(mt_state(st))
        got = np.random.random(312)
        if not np.array_equal(got, [value(st, k) for k in range(312)]):
            raise core.HarnessError("crafted generator state does not deliver the stream")

    def generate(self, rng, i, tier):
        nc = rng.choice((1, 1, 2, 3))
        pool = [gen_stream(rng) for _ in range(rng.choice((1, 2, 3)))]
        l0, d0 = rng.choice((1, 2, 2, 3, 3, 4, 5, 6, 8) if nc == 1 else (1, 2, 3, 4)), rng.choice((1, 2, 3, 3))
        if nc == 1 and rng.random() < 0.15:
            l0 = rng.choice((7, 9, 10, 11, 12, 13))
        elif nc == 1 and rng.random() < 0.02:
            l0 = rng.choice((14, 15, 16, 17, 20))
        clients = []
        for j in range(nc):
            ops = []
            for _ in range(rng.randrange(2, 7)):
                x = rng.random()
                if x < 0.45 or not ops:
                    o = {"op": "construct", "l": l0 if rng.random() < 0.7 else rng.choice((1, 2, 3, 4)),
                         "dim": d0 if rng.random() < 0.7 else rng.choice((1, 2, 3) if rng.random() < 0.9 else (4, 5, 7)), "spin": int(rng.random() < 0.15),
                         "stream": rng.choice(pool) if rng.random() < 0.85 else gen_stream(rng),
                         "route": rng.choice(("proxy", "mt", "ambient") if nc == 1 else ("proxy", "proxy", "ambient"))}
                elif x < 0.75:
                    o = {"op": "convert", "which": rng.randrange(6), "how": rng.choice(("general", "general", "gos", "antisym")),
                         "anti": rng.random() < 0.7}
                elif x < 0.82:
                    o = {"op": "draw", "n": rng.choice((1, 2, 7))}
                elif x < 0.92:
                    o = {"op": "scribble", "which": rng.randrange(6), "seed": rng.randrange(10 ** 6)}
                else:
                    o = {"op": "elements", "shape": rng.choice(([2, 3], [1], 4, [2, 2, 2, 2], [0, 2])), "stream": rng.choice(pool)}
                if o["op"] in ("construct", "convert") and rng.random() < 0.12:
                    o["fault"] = {"exc": rng.choice(("MemoryError", "KeyboardInterrupt")), "k": int(2 ** rng.uniform(0, 8)) - 1}
                ops.append(o)
            clients.append(ops)
        return {"clients": clients, "sched": gen_tsched(rng), "rng": rng.randrange(10 ** 6)}

    def simpler(self, o):
        if o.get("stream", {}).get("kind", "typical") != "typical":
            yield dict(o, stream={"kind": "typical", "seed": 0})
        for k in ("l", "dim"):
            if o.get(k, 1) > 1:
                yield dict(o, **{k: o[k] - 1})
        if o.get("spin"):
            yield dict(o, spin=0)

    def monitor(self):
        if self.need:
            core.MON.start()

    def start(self, s, sim):
        np.random.seed(s["rng"])
        random.seed(s["rng"])
        self.need = self.preempt = len(s["clients"]) > 1 or any("fault" in o for c in s["clients"] for o in c)
        self.preempt = len(s["clients"]) > 1
        sim.preempt = self.preempt
        self.refs = {}
        for c in s["clients"]:
            for o in c:
                if o["op"] == "construct" and o["route"] != "ambient" and rkey(o) not in self.refs:
                    self.refs[rkey(o)] = pristine(o) + (o,)
        self.distinct()
        return [self.client(j, ops, sim) for j, ops in enumerate(s["clients"])]

    def distinct(self):
        """Different draws give different elements; the same stream gives the same through every route."""
        rs = [(k, v) for k, v in sorted(self.refs.items())]
        for k, (st, im, o) in rs:
            if st != "ok":
                raise Violation("construction-failed", "%s raised %s" % (k, im))
            if o["stream"]["kind"] == "typical":
                arrs = [("h", im["h"]), ("s", im["s"])] + [("dipole_moment[%d]" % i, x) for i, x in enumerate(im["dipole_moment"])]
                for a in range(len(arrs)):
                    for b in range(a):
                        if off(arrs[a][1], arrs[b][1]) == 0:
                            raise Violation("same-elements", "%s: %s and %s come from different draws and are equal" % (k, arrs[b][0], arrs[a][0]))
        for a in range(len(rs)):
            for b in range(a):
                (ka, (_, x, o)), (kb, (_, y, p)) = rs[a], rs[b]
                if o["stream"] == p["stream"] or (o["l"], o["dim"]) != (p["l"], p["dim"]):
                    continue
                if o["stream"]["kind"] != "typical" or p["stream"]["kind"] != "typical":
                    continue
                for n in ("h", "s", "u", "dipole_moment", "nuclear_repulsion_energy"):
                    if off(x[n], y[n]) == 0:
                        raise Violation("same-elements", "%s is equal for different streams: %s and %s" % (n, ka, kb))

    def client(self, j, ops, sim):
        from quantum_systems import RandomBasisSet, SpatialOrbitalSystem

        made = []  # [object, image, anti-symmetric (None: no claim)]
        self.made = getattr(self, "made", [])
        self.made.append(made)

        def unchanged(where):
            for m in made:
                if m[1] is not None:
                    d = diff(m[1], image(m[0]))
                    if d:
                        raise Violation("earlier-changed", "%s: an earlier random set changed: %s" % (where, d))

        def step(n, o):
            where = "client %d op %d (%s)" % (j, n, o["op"])
            k = o["op"]
            if k == "draw":
                np.random.random(o["n"])
                return "ok"
            if k == "elements":
                mod = ArrayModule(Stream(o["stream"]))
                mod2 = ArrayModule(Stream(o["stream"]))
                sh = o["shape"] if isinstance(o["shape"], int) else tuple(o["shape"])
                a = RandomBasisSet.get_random_elements(sh, mod)
                b = RandomBasisSet.get_random_elements(sh, mod2)
                with core.no_preempt():
                    want = (sh,) if isinstance(sh, int) else sh
                    if np.shape(a) != want or np.asarray(a).dtype.kind != "c":
                        raise Violation("shape", "%s: get_random_elements(%r) gave shape %s, dtype %s" % (where, sh, np.shape(a), np.asarray(a).dtype))
                    if off(a, b):
                        raise Violation("not-a-function-of-the-stream", "%s: get_random_elements differs for the same stream" % where)
                return "ok"
            if k == "construct":
                kind, b, fired = self.call(lambda: construct(o), o.get("fault"))
                with core.no_preempt():
                    if kind == "raised":
                        if fired:
                            return "interrupted"
                        raise Violation("construction-failed", "%s: %s raised %r" % (where, rkey(o), b))
                    check_set(b, where + " " + rkey(o))
                    im = image(b)
                    if o["route"] != "ambient":
                        d = diff(self.refs[rkey(o)][1], im)
                        if d:
                            raise Violation("not-a-function-of-the-stream", "%s: %s: the same stream gave other elements before: %s" % (where, rkey(o), d))
                        self.bump("stream_" + o["stream"]["kind"])
                    made.append([b, im, False])
                    unchanged(where)
                return "ok"
            if not made:
                return "skip"
            m = made[o["which"] % len(made)]
            if k == "scribble":
                with core.no_preempt():
                    unchanged(where)
                    rs = np.random.RandomState(o["seed"])
                    b = basis_of(m[0])
                    x = getattr(b, rs.choice(["h", "s", "u", "dipole_moment"]))
                    x[...] = rs.standard_normal(x.shape)
                    made.remove(m)
                    unchanged(where)
                return "ok"
            b = m[0]
            if k == "convert":
                how = o["how"]
                was = basis_of(b).includes_spin
                out = b
                if how == "gos" and (hasattr(b, "_basis_set") or was):
                    how = "general"
                if how == "gos":
                    def fn():
                        sp = SpatialOrbitalSystem(2 * min(1, b.l), b)
                        return sp.construct_general_orbital_system(anti_symmetrize=o["anti"])
                elif how == "antisym":
                    fn = lambda: basis_of(b).anti_symmetrize_two_body_elements()
                else:
                    fn = lambda: basis_of(b).change_to_general_orbital_basis(anti_symmetrize=o["anti"])
                # a change of basis the constructor of a system makes is not this property's matter
                kind, r, fired = self.call(fn, o.get("fault"))
                with core.no_preempt():
                    if kind == "raised" and not fired:
                        raise Violation("conversion-failed", "%s: %s of a random set raised %r" % (where, how, r))
                    if kind == "raised":
                        r = None
                    if how == "gos":
                        check_set(b, where)  # the source
                        unchanged(where)
                        if r is None:
                            return "interrupted"
                        check_set(r, where + " (derived)")
                        # (elements anti-symmetrised before spin was added lost what the conversion needs)
                        anti = o["anti"] and not m[2]
                        if anti:
                            check_antisym(r, where + " (derived)")
                        made.append([r, image(r), None if m[2] else anti])
                        return "ok"
                    check_set(b, where)
                    if r is None and kind == "raised":
                        if m[2]:
                            check_antisym(b, where)
                        m[1] = image(b)
                        return "interrupted"
                    if how == "general" and not was:
                        m[2] = None if m[2] else bool(o["anti"])
                    elif how == "antisym" and m[2] is not None:
                        m[2] = True
                    if m[2]:
                        check_antisym(b, where)
                    m[1] = image(b)
                    unchanged(where)
                return "ok"

        def fn():
            for n, o in enumerate(ops):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    r = step(n, o)
                self.bump(o["op"])
                sim.log(j, n, o["op"], r)
            with core.no_preempt():
                unchanged("at the end, client %d" % j)

        return fn

    def finish(self, s):
        for made in self.made:
            for m in made:
                if m[1] is not None:
                    d = diff(m[1], image(m[0]))
                    if d:
                        raise Violation("earlier-changed", "at the end: a random set changed: %s" % d)

    def nontrivial(self, s, sim):
        return self.stats.get("construct", 0) > 0 and (
            super().nontrivial(s, sim) or self.stats.get("convert", 0) > 0 or
            any(k.startswith("stream_") and k != "stream_typical" for k in self.stats))


def engine(pid):
    return RandomEngine(pid)
