"""C07, C08, C09: basis sets and systems over histories of operations, failures and copies.

C09 refines against the reference model (sim/refmodel.py).  C07 and C08 judge
the real code against itself: an independent clone that runs the same call
undisturbed gives the expected outcome.
"""
import copy
import types
import warnings

import numpy as np

from sim import core
from sim.objects import basis_of, clone, diff, parts, snap, write
from sim.refmodel import (Bases, OpModel, Ref, close, coeff, crand, diff_basis, diff_system, gen_base, gen_op, spinpair)
from sim.thread_engine import ThreadEngine, Violation, gen_tsched

# a second array module: numpy under another identity
altnp = types.ModuleType("altnumpy")
altnp.__dict__.update({k: v for k, v in vars(np).items() if not k.startswith("__")})


class Handle:
    def __init__(self, obj, kind, ref):
        self.obj, self.kind, self.ref = obj, kind, ref
        self.n = getattr(obj, "n", None)
        self.op = None
        self.pristine = True  # no basis change / antisymmetrisation yet

    def diff(self):
        if self.kind == "basis":
            return diff_basis(self.obj, self.ref)
        return diff_system(self.obj, self.ref, self.n)


class ObjectEngine(ThreadEngine):
    counts = {"quick": 3500, "thorough": 80000}
    walls = {"quick": 180, "thorough": 1500}
    rule = ("a run counts when a fault was injected, an operation was rejected, or client threads were switched more "
            "than twice; two runs are the same if operations, outcomes, faults and switches coincide")
    real = ["BasisSet and every provided basis-set class (RandomBasisSet, ODQD, ODHO, ODSincDVR 2d/4d, the "
            "two-dimensional sets)", "SpatialOrbitalSystem, GeneralOrbitalSystem", "the time-evolution operators", "numpy"]
    stubs = ["a second array module (numpy under another identity) for module switches"]
    assumptions = [
        "MemoryError strikes at calls, operators and subscripts of repository code; KeyboardInterrupt where CPython "
        "delivers signals (calls, returns, function entry, loop back edges)",
        "each object is mutated by one client thread; other clients work on other objects",
        "S^2 in a non-orthonormal orbital set is not compared (documented for orthonormal orbitals)"]

    def setup(self, tier):
        warnings.simplefilter("ignore")
        import quantum_systems as QS
        import quantum_systems.time_evolution_operators as T

        self.QS, self.T = QS, T
        self.bases = Bases(QS)
        if self.id == "C07":
            self.counts = {"quick": 2600, "thorough": 60000}
        if self.id == "C08":
            self.counts = {"quick": 5000, "thorough": 120000}

    # -- generation --------------------------------------------------------
    def gen_cb(self, rng, bad=0.0):
        o = {"op": "change_basis", "C": {
            "kind": rng.choice(("unitary", "unitary", "isometry", "wide", "general", "biorth", "birect", "perm", "identity")),
            "newl": rng.randrange(1, 9) if rng.random() < 0.95 else rng.randrange(8, 17), "seed": rng.randrange(10**6), "cplx": rng.random() < 0.6}}
        if rng.random() < 0.2:
            o["kw"] = True
        if rng.random() < bad:
            o["bad"] = rng.choice(("rows", "ct", "ctcols", "ndim", "small", "none", "nan_obj"))
        return o

    def gen_general(self, rng, bad=0.0):
        o = {"op": "general", "anti": rng.random() < 0.7, "ab": None}
        if rng.random() < 0.5 or rng.random() < bad:
            o["ab"] = {"seed": rng.randrange(10**6), "cplx": rng.random() < 0.6, "aslist": rng.random() < 0.3}
            if rng.random() < bad:
                o["ab"]["bad"] = rng.choice(("norm", "orth", "shape"))
        return o

    def gen_fault(self, rng, big):
        k = int(2 ** rng.uniform(0, np.log2(big))) - 1 if rng.random() < 0.5 else rng.randrange(big)
        return {"exc": rng.choice(("MemoryError", "KeyboardInterrupt")), "k": k}

    def generate(self, rng, i, tier):
        pid = self.id
        nc = rng.choice((1, 1, 1, 2, 3)) if pid != "C08" else rng.choice((1, 1, 1, 1, 2))
        clients, bases = [], []
        for j in range(nc):
            b = gen_base(rng, self.bases.names(), 0.35 if pid != "C08" else 0.4)
            if j > 0 and rng.random() < 0.4:
                b = {"base": "copyof", "of": 0}
            if pid == "C08" and b["base"] == "custom" and rng.random() < 0.15:
                b = dict(b, **rng.choice(({"s": "none"}, {"u": False})))
            bases.append(b)
            clients.append(getattr(self, "gen_" + pid)(rng, b))
        return {"bases": bases, "clients": clients, "sched": gen_tsched(rng)}

    def wrap_op(self, rng):
        kind = rng.choice(("spatial", "general"))
        return {"op": "wrap", "kind": kind, "n": rng.choice((0, 2, 2, 2, 4, 4, 6, 8) if kind == "spatial" else (0, 1, 2, 2, 3, 4, 4, 5, 6, 8)),
                "anti": rng.random() < 0.7}

    def gen_C07(self, rng, b):
        ops = []
        if rng.random() < 0.6:
            ops.append(self.wrap_op(rng))
        if rng.random() < 0.5:
            ops.append({"op": "setop", "spec": gen_op(rng)})
        for _ in range(rng.randrange(3, 11)):
            x = rng.random()
            if x < 0.3:
                o = {"op": "copy"}
                if rng.random() < 0.3:
                    o["fault"] = self.gen_fault(rng, 60)
            elif x < 0.45:
                o = {"op": "derive", "anti": rng.random() < 0.6, "ab": self.gen_general(rng)["ab"]}
                if rng.random() < 0.3:
                    o["fault"] = self.gen_fault(rng, 300)
            elif x < 0.65:
                o = {"op": "scribble", "seed": rng.randrange(10**6)}
            elif x < 0.72:
                o = {"op": "ht", "t": round(rng.uniform(0, 5), 2)}
            elif x < 0.78:
                o = {"op": "setop", "spec": gen_op(rng)}
            elif x < 0.83:
                o = {"op": "hold", "seed": rng.randrange(100)}
            elif x < 0.9:
                o = rng.choice((self.gen_cb(rng), self.gen_general(rng), {"op": "antisym"}, {"op": "cast"}, self.wrap_op(rng)))
            elif x < 0.95:
                o = {"op": "module", "alt": rng.random() < 0.5}
            else:
                o = {"op": "read_bra"}
            o["h"] = rng.randrange(12)
            ops.append(o)
        return ops

    def gen_C08(self, rng, b):
        ops = []
        if rng.random() < 0.5:
            ops.append(dict(self.wrap_op(rng), h=0))
        for _ in range(rng.randrange(1, 7)):
            x = rng.random()
            if x < 0.45:
                o, big = self.gen_cb(rng, 0.3), 130
            elif x < 0.7:
                o, big = self.gen_general(rng, 0.3), 260
            elif x < 0.78:
                o, big = {"op": "antisym"}, 12
            elif x < 0.85:
                o, big = {"op": "cast"}, 30
            elif x < 0.9:
                o, big = {"op": "module", "alt": rng.random() < 0.7}, 30
            elif x < 0.93:
                o, big = {"op": "set_u_repr", "to": rng.choice(("2d", "4d", "5d"))}, 20
            elif x < 0.96:
                o, big = {"op": "read_bra"}, 4
            else:
                o, big = self.wrap_op(rng), 260
            o["h"] = 0
            if rng.random() < 0.65:
                o["fault"] = self.gen_fault(rng, big)
                if rng.random() < 0.35:
                    o["fault"] = {"exc": o["fault"]["exc"], "back": int(2 ** rng.uniform(0, 5)) - 1}
            ops.append(o)
            if o.get("fault") and rng.random() < 0.6:
                ops.append({k: v for k, v in o.items() if k != "fault"})
        return ops

    def gen_C09(self, rng, b):
        ops = []
        if rng.random() < 0.5:
            ops.append(dict(self.wrap_op(rng), h=0))
        for _ in range(rng.randrange(3, 15)):
            x = rng.random()
            if x < 0.25:
                o = self.gen_cb(rng, 0.12)
            elif x < 0.33:
                o = self.gen_general(rng, 0.1)
            elif x < 0.38:
                o = {"op": "antisym"}
            elif x < 0.42:
                o = {"op": "cast"}
            elif x < 0.48:
                o = {"op": "module", "alt": rng.random() < 0.7}
            elif x < 0.55:
                o = {"op": "copy"}
            elif x < 0.6:
                o = {"op": "derive", "anti": rng.random() < 0.6, "ab": self.gen_general(rng)["ab"]}
            elif x < 0.65:
                o = self.wrap_op(rng)
            elif x < 0.7:
                o = {"op": "setter", "what": rng.choice(("h", "u", "s", "dipole_moment", "orbitals")),
                     "seed": rng.randrange(10**6), "bad": rng.random() < 0.3}
            elif x < 0.73:
                o = {"op": "set_u_repr", "to": rng.choice(("2d", "4d"))}
            elif x < 0.76:
                o = {"op": "read_bra"}
            elif x < 0.8:
                o = {"op": "scribble", "seed": rng.randrange(10**6)}
            elif x < 0.86:
                o = {"op": "energy"}
            elif x < 0.91:
                o = {"op": "fock", "seed": rng.randrange(10**6), "own": rng.random() < 0.5, "f": rng.random() < 0.5}
            elif x < 0.96:
                o = {"op": "density", "seed": rng.randrange(10**6), "C": self.gen_cb(rng)["C"] if rng.random() < 0.6 else None}
            else:
                o = {"op": "transformed", "C": self.gen_cb(rng)["C"]}
            if o["op"] in ("change_basis", "general", "antisym", "cast", "copy", "derive", "wrap") and rng.random() < 0.15:
                o["fault"] = self.gen_fault(rng, 120)
            o["h"] = rng.randrange(12)
            ops.append(o)
        return ops

    def shrink(self, s):
        for c in super().shrink(s):
            if len(c["clients"]) != len(s["clients"]):
                j = next((j for j in range(len(c["clients"])) if c["clients"][j] is not s["clients"][j]), len(c["clients"]))
                nb = s["bases"][:j] + s["bases"][j + 1:]
                if nb and nb[0]["base"] == "copyof":
                    nb = [s["bases"][0]] + nb[1:]
                c = dict(c, bases=nb)
            yield c
        for j, b in enumerate(s["bases"]):
            if b.get("l", 0) > 2:
                yield dict(s, bases=s["bases"][:j] + [dict(b, l=2)] + s["bases"][j + 1:])
            for k in ("spf", "bra", "dip", "cplx"):
                if b.get(k):
                    yield dict(s, bases=s["bases"][:j] + [dict(b, **{k: False})] + s["bases"][j + 1:])

    def nontrivial(self, s, sim):
        return super().nontrivial(s, sim) or self.stats.get("rejected", 0) > 0

    # -- running -----------------------------------------------------------
    def start(self, s, sim):
        fns = []
        self.all = []
        first = None
        for j, (b, ops) in enumerate(zip(s["bases"], s["clients"])):
            if b["base"] == "copyof":
                src = self.all[0][0]
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        h = Handle(src.obj.copy_basis(), "basis", src.ref.copy())
                    except Exception:
                        h = Handle(clone(src.obj), "basis", src.ref.copy())
            else:
                obj, ref = self.bases.take(b, j)
                h = Handle(obj, "basis", ref)
                h.dvr = b["base"].startswith("dvr")
            h.dvr = getattr(h, "dvr", False) or (b["base"] == "copyof" and self.all[0][0].dvr)
            self.all.append([h])
            fns.append(self.client(j, ops, sim))
        return fns

    def client(self, j, ops, sim):
        def fn():
            hs = self.all[j]
            for n, o in enumerate(ops):
                if not hs:
                    break
                h = hs[o.get("h", 0) % len(hs)]
                self.where = "client %d op %d (%s on handle %d, %s)" % (j, n, o["op"], hs.index(h), type(h.obj).__name__)
                r = getattr(self, "do_" + self.id)(j, hs, h, o, self.where)
                sim.log(j, n, o["op"], r)

        return fn

    def finish(self, s):
        for j, hs in enumerate(self.all):
            for i, h in enumerate(hs):
                if self.id == "C09":
                    d = h.diff()
                    if d:
                        raise Violation("state-differs", "at the end, client %d handle %d (%s): %s" % (j, i, type(h.obj).__name__, d))
                if self.id == "C07":
                    self.settled(h, "at the end, client %d handle %d" % (j, i))

    # -- building the call -------------------------------------------------
    def build(self, o, h):
        """(callable(obj) -> result, model transition or None, expect_reject)"""
        k = o["op"]
        if k == "change_basis":
            l = basis_of(h.obj).l
            C, Ct = coeff(o["C"], l)
            bad = o.get("bad")
            if bad == "rows":
                C = np.vstack([C, C[:1]])
                Ct = None
            elif bad == "ct":
                Ct = np.ones((C.shape[1] + 1, l))
            elif bad == "ctcols":
                Ct = np.ones((C.shape[1], l + 1))
            elif bad == "ndim":
                C, Ct = C[:, 0].copy(), None
            elif bad == "none":
                C, Ct = None, None
            elif bad == "nan_obj":
                C = np.array([[object()] * C.shape[1]] * l, dtype=object)
                Ct = None
            elif bad == "small":
                if h.n is None or h.n < 1:
                    bad = None
                else:
                    C, Ct = C[:, : h.n - 1].copy(), None
            elif h.n is not None and C.shape[1] < h.n:
                bad = "small"
            args = (C,) if Ct is None else (C, Ct)

            def f(x):
                if o.get("kw") and Ct is not None:
                    return x.change_basis(C, C_tilde=Ct)
                return x.change_basis(*args)

            return f, (None if bad else lambda r: r.change_basis(C, Ct)), bool(bad)
        if k == "general":
            ab = spinpair(o["ab"])
            kw = {} if ab is None else {"a": ab[0], "b": ab[1]}
            bad = bool(o["ab"] and o["ab"].get("bad"))
            sp = basis_of(h.obj)

            def tr(r):
                flat = np.ndim(sp.u) == 2 and not o["anti"]
                return r.general(*(ab or ((1, 0), (0, 1))), anti=o["anti"], spinless=flat)

            if h.ref.spin or (np.ndim(sp.u) == 2 and not o["anti"]):
                bad = False
            return (lambda x: x.change_to_general_orbital_basis(anti_symmetrize=o["anti"], **kw)), (None if bad else tr), bad
        if k == "antisym":
            return (lambda x: x.anti_symmetrize_two_body_elements()), (lambda r: r.antisym()), False
        if k == "cast":
            return (lambda x: x.cast_to_complex()), (lambda r: r.cast()), False
        if k == "module":
            return (lambda x: x.change_module(altnp if o["alt"] else np)), (lambda r: r.copy()), False
        if k == "set_u_repr":
            return (lambda x: x.set_u_repr(o["to"])), (lambda r: r.copy()), o["to"] == "5d"
        if k == "read_bra":
            return (lambda x: x.bra_spf), (lambda r: r.copy()), False
        raise KeyError(k)

    def applies(self, o, h):
        k = o["op"]
        if k in ("general", "antisym", "cast"):
            return h.kind == "basis"
        if k == "set_u_repr":
            return h.kind == "basis" and h.dvr and h.pristine
        if k == "wrap":
            return h.kind == "basis"
        if k == "derive":
            return h.kind == "spatial"
        if k == "setter":
            return h.kind == "basis"
        if k in ("energy", "fock", "setop", "ht", "hold"):
            return h.kind != "basis"
        return True

    def make_system(self, o, b):
        if o["kind"] == "spatial":
            return self.QS.SpatialOrbitalSystem(o["n"], b)
        return self.QS.GeneralOrbitalSystem(o["n"], b, anti_symmetrize=o["anti"])

    def derive(self, o, x):
        ab = spinpair(o["ab"])
        kw = {} if ab is None else {"a": ab[0], "b": ab[1]}
        return x.construct_general_orbital_system(anti_symmetrize=o["anti"], **kw)

    # ======================================================================
    # C09
    # ======================================================================
    def do_C09(self, j, hs, h, o, where):
        if not self.applies(o, h):
            return "skip"
        k = o["op"]
        fault = o.get("fault")
        bad_state = lambda d: Violation("state-differs", "%s: %s" % (where, d))
        if k in ("copy", "derive", "wrap"):
            return self.new_C09(j, hs, h, o, where)
        if k == "scribble":
            with core.no_preempt():
                self.scribble(h, o["seed"], True)
            return "ok"
        if k == "setter":
            return self.setter_C09(h, o, where)
        if k in ("energy", "fock", "density", "transformed"):
            return self.observe_C09(h, o, where)
        with core.no_preempt():
            f, tr, reject = self.build(o, h)
            if k == "module" and basis_of(h.obj).np is None:
                raise bad_state("array module is None")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            kind, res, fired = self.call(lambda: f(h.obj), fault)
        with core.no_preempt():
            if kind == "ok":
                if tr is None:
                    hs.remove(h)  # accepted a malformed argument: nothing is specified
                    self.bump("accepted_malformed")
                    return "accepted"
                h.ref = tr(h.ref)
                if k in ("change_basis", "antisym", "general"):
                    h.pristine = False
                d = h.diff()
                if d:
                    raise bad_state(d)
                if k == "set_u_repr" and getattr(h.obj, "u_repr", None) != o["to"]:
                    raise bad_state("u_repr is %r after switching to %r" % (h.obj.u_repr, o["to"]))
                return "ok"
            self.bump("rejected")
            if not fired and not reject:
                raise Violation("raised", "%s raised %r" % (where, res))
            d = h.diff()
            if d and fired and tr is not None:
                new = tr(h.ref)
                old, h.ref = h.ref, new
                if h.diff() is None:
                    return "raised-after"
                h.ref = old
            if d:
                raise bad_state("after the call failed with %s: %s" % (type(res).__name__, d))
            return "raised"

    def new_C09(self, j, hs, h, o, where):
        k, fault = o["op"], o.get("fault")
        with core.no_preempt():
            ref = h.ref
            if k == "copy":
                f = (lambda: h.obj.copy_basis()) if h.kind == "basis" else (lambda: h.obj.copy_system())
                new, kind2, n, reject = ref.copy(), h.kind, h.n, False
            elif k == "derive":
                ab = spinpair(o["ab"]) or ((1, 0), (0, 1))
                f = lambda: self.derive(o, h.obj)
                flat = np.ndim(h.obj.u) == 2 and not o["anti"]
                new, kind2, n, reject = ref.general(*ab, anti=o["anti"], spinless=flat), "general", 2 * h.n, False
            else:
                f = lambda: self.make_system(o, h.obj)
                kind2 = o["kind"]
                if kind2 == "spatial":
                    new, n, reject = ref.copy(), o["n"] // 2, ref.spin or o["n"] // 2 > ref.l
                else:
                    flat = np.ndim(h.obj.u) == 2 and not o["anti"]
                    new = ref.general(anti=o["anti"], spinless=flat)
                    if o["anti"]:
                        new = new.antisym()
                    n, reject = o["n"], o["n"] > new.l
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            kind, res, fired = self.call(f, fault)
        with core.no_preempt():
            if kind == "ok":
                if reject:
                    hs.remove(h)
                    return "accepted"
                h2 = Handle(res, kind2, new)
                h2.n = n
                h2.dvr = h.dvr
                h2.pristine = h.pristine and k == "copy"
                if k == "wrap":
                    hs[hs.index(h)] = h2
                else:
                    d = h.diff()
                    if d:
                        raise Violation("state-differs", "%s: source afterwards: %s" % (where, d))
                    if len(hs) < 6:
                        hs.append(h2)
                d = h2.diff()
                if d:
                    raise Violation("state-differs", "%s: result: %s" % (where, d))
                return "ok"
            self.bump("rejected")
            if not fired and not reject:
                raise Violation("raised", "%s raised %r" % (where, res))
            d = h.diff()
            if d and k == "wrap":  # the constructor may have finished converting its basis set
                old, h.ref = h.ref, new
                if h.diff() is None:
                    return "raised-after"
                h.ref = ref.general(anti=o["anti"], spinless=False)
                if h.diff() is None:
                    return "raised-after"
                h.ref = old
            if d:
                raise Violation("state-differs", "%s: after the call failed with %s: %s" % (where, type(res).__name__, d))
            return "raised"

    def scribble(self, h, seed, model):
        """A caller writes into one of the arrays the object exposes."""
        rs = np.random.RandomState(seed)
        b = h.obj
        if not model:
            p = parts(b)
            if p:
                k, v = p[rs.randint(len(p))]
                write(v, rs)
                if k == "u":
                    h.pristine = False
                return k
            return
        names = [k for k in ("h", "u", "s", "dipole_moment", "spf", "spin_z", "grid") if getattr(b, k, None) is not None]
        if not names:
            return
        k = names[rs.randint(len(names))]
        a = getattr(b, k)
        if not isinstance(a, np.ndarray) or not a.flags.writeable:
            return
        others = [x for x in ("h", "u", "s", "dipole_moment", "spf", "bra_spf", "spin_x", "spin_y", "spin_z", "spin_2", "grid")
                  if x != k and isinstance(getattr(b, x, None), np.ndarray)]
        if any(np.shares_memory(a, getattr(b, x)) for x in others):
            return
        idx = tuple(rs.randint(n) for n in a.shape)
        if model and k == "u" and a.ndim == 2:
            return
        a[idx] += 1.25
        if k == "u":
            h.pristine = False
        if model:
            (h.ref.grid if k == "grid" else h.ref.a[k])[idx] += 1.25
            if k == "s":
                h.ref.skip |= set()
        return k

    def setter_C09(self, h, o, where):
        rs = np.random.RandomState(o["seed"])
        with core.no_preempt():
            b, r = h.obj, h.ref
            l = r.l
            w = o["what"]
            if w == "u" and (b.u is None or np.ndim(b.u) == 2):
                return "skip"
            ll = l + 1 if o["bad"] else l
            if w == "orbitals":
                if r.a["spf"] is None:
                    return "skip"
                g = r.a["spf"].shape[1:]
                vals = [("bra_spf", crand(rs, (ll,) + g)), ("spf", crand(rs, (ll,) + g))]
            elif w == "dipole_moment":
                vals = [(w, crand(rs, (r.dim, ll, ll)))]
            else:
                vals = [(w, crand(rs, (ll,) * (4 if w == "u" else 2)))]
            h.pristine = False
        for name, v in vals:
            keep = v.copy()
            kind, res, _ = self.call(lambda: setattr(b, name, v))
            with core.no_preempt():
                if kind == "ok":
                    if o["bad"]:
                        raise Violation("accepted-wrong-shape", "%s: %s of wrong length was accepted" % (where, name))
                    r.a[name] = keep
                    if name == "h" and r.cplx:
                        pass
                elif not o["bad"]:
                    raise Violation("raised", "%s raised %r" % (where, res))
        with core.no_preempt():
            d = h.diff()
            if d:
                raise Violation("state-differs", "%s: %s" % (where, d))
        return "ok"

    def observe_C09(self, h, o, where):
        k = o["op"]
        x, r = h.obj, h.ref
        flat = r.a["u"] is None or np.ndim(x.u) == 2
        gen = h.kind == "general"
        rs = np.random.RandomState(o.get("seed", 0))
        if k == "energy":
            kind, res, _ = self.call(lambda: x.compute_reference_energy())
            if flat:
                return "skip"
            want = r.energy(h.n, gen)
        elif k == "fock":
            if flat:
                return "skip"
            with core.no_preempt():
                hh, uu = (x.h, x.u) if o["own"] else (crand(rs, x.h.shape), crand(rs, x.u.shape))
                fa = np.full(hh.shape, 7.0, dtype=complex) if o["f"] else None
                if not o["f"] and (np.asarray(hh).dtype.kind != "c" and np.asarray(uu).dtype.kind == "c"):
                    return "skip"
                h0, u0 = np.array(hh), np.array(uu)
            kind, res, _ = self.call(lambda: x.construct_fock_matrix(hh, uu, fa) if o["f"] else x.construct_fock_matrix(hh, uu))
            with core.no_preempt():
                want = r.fock(h0, u0, h.n, gen)
                if kind == "ok" and fa is not None and not (res is fa or close(fa, want)):
                    raise Violation("observer-wrong", "%s: the array passed in was not filled" % where)
                if not close(hh, h0) or not close(uu, u0):
                    raise Violation("observer-wrong", "%s: the arguments were modified" % where)
        elif k == "density":
            if r.a["spf"] is None:
                return "skip"
            with core.no_preempt():
                C = Ct = None
                if o["C"]:
                    C, Ct = coeff(o["C"], r.l)
                m = C.shape[1] if C is not None else r.l
                rho = crand(rs, (m, m))
                a, b = np.asarray(x.spf), np.asarray(x.bra_spf)
                if C is not None:
                    a, b = a.dtype.type(0) * C.dtype.type(0), b.dtype.type(0) * (C if Ct is None else Ct).dtype.type(0)
                if a.dtype != b.dtype:
                    return "skip"
                if a.dtype.kind != "c":
                    rho = rho.real
            args = () if C is None else ((C,) if Ct is None else (C, Ct))
            kind, res, _ = self.call(lambda: x.compute_particle_density(rho, *args))
            want = r.density(rho, C, Ct)
        else:
            C, Ct = coeff(o["C"], r.l)
            if r.a["u"] is None:
                return "skip"
            if h.kind == "basis":
                kind, res, _ = self.call(lambda: (x.get_transformed_h(C), x.get_transformed_u(C)))
                Ct = None
            else:
                kind, res, _ = self.call(lambda: (x.transform_one_body_elements(x.h, C, Ct), x.transform_two_body_elements(x.u, C, Ct)))
            with core.no_preempt():
                rr = r.change_basis(C, Ct)
                if kind == "ok" and not (close(res[0], rr.a["h"]) and close(res[1], rr.a["u"])):
                    raise Violation("observer-wrong", "%s: transformed elements differ" % where)
            b = basis_of(x)
            if kind == "ok" and h.dvr and np.ndim(b.u) == 2:
                # this one can also anti-symmetrise on the way
                kind, res, _ = self.call(lambda: b.transform_two_body_elements(b.u, C, np, anti_symmetrize=True, C_tilde=Ct))
                if kind == "ok" and not close(res, rr.a["u"] - rr.a["u"].transpose(0, 1, 3, 2)):
                    raise Violation("observer-wrong", "%s: transformed anti-symmetric elements differ" % where)
        with core.no_preempt():
            if kind != "ok":
                raise Violation("raised", "%s raised %r" % (where, res))
            if k != "transformed" and not close(res, want):
                raise Violation("observer-wrong", "%s returned something else than the current elements give" % where)
            d = h.diff()
            if d:
                raise Violation("state-differs", "%s: %s" % (where, d))
        return "ok"

    # ======================================================================
    # C08
    # ======================================================================
    def do_C08(self, j, hs, h, o, where):
        if not self.applies(o, h):
            return "skip"
        k = o["op"]
        with core.no_preempt(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if k == "wrap":
                f = lambda x: self.make_system(o, x)
                if o["kind"] == "general" and o["n"] > basis_of(h.obj).l * (1 if basis_of(h.obj).includes_spin else 2):
                    return "skip"
            else:
                f, tr, reject = self.build(o, h)
            old = snap(h.obj)
            twin = clone(h.obj)
            fault = o.get("fault")
            cnt = core.CallFault(None, None, core.EXC[fault["exc"]][1] if fault else 0)
            with cnt:
                tk, tres, _ = self.call(lambda: f(twin))
            if fault and "back" in fault:  # counted from the end of the call
                fault = {"exc": fault["exc"], "k": max(0, cnt.count - 1 - fault["back"])}
            new = snap(twin) if tk == "ok" else None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            kind, res, fired = self.call(lambda: f(h.obj), fault)
        with core.no_preempt():
            now = snap(h.obj)
            if kind == "ok":
                if new is not None:
                    d = diff(new, now)
                    if d:
                        raise Violation("result-differs", "%s: a repetition gives a different result: %s" % (where, d))
                if k == "wrap":
                    h2 = Handle(res, o["kind"], h.ref)
                    h2.dvr, h2.pristine = h.dvr, False
                    hs[hs.index(h)] = h2
                elif new is None:
                    hs.remove(h)
                if k in ("change_basis", "antisym", "general"):
                    h.pristine = False
                return "ok"
            self.bump("rejected")
            if not fired and new is not None:
                raise Violation("raised", "%s raised %r although the same call on an identical object succeeds" % (where, res))
            d = diff(old, now)
            if not d:
                return "raised"
            if new is not None and fired and diff(new, now) is None:
                return "raised-after"
            if k == "wrap" and fired:
                # the constructor converts, then anti-symmetrises: each a complete conversion
                for anti in (False, True):
                    t = clone(twin)
                    mid = self.mid_general(old, h, anti)
                    if mid is not None and diff(mid, now) is None:
                        return "raised-after"
            raise Violation("half-done", "%s failed with %s (%s) but left the object changed: %s" % (
                where, type(res).__name__, "injected at %s:%d" % fired if fired else "rejected", d))

    def mid_general(self, old, h, anti):
        return None

    # ======================================================================
    # C07
    # ======================================================================
    def settled(self, h, where):
        """The object still looks as when it was last touched through its own handle."""
        if getattr(h, "snap", None) is not None:
            d = diff(h.snap, snap(h.obj))
            if d:
                raise Violation("not-independent", "%s changed without being touched: %s" % (where, d))
            if h.times:
                for t, hv, uv in h.times:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        c = clone(h.obj)
                        a, b = c.h_t(t), c.u_t(t)
                    if not close(a, hv) or not close(b, uv):
                        raise Violation("not-independent", "%s: h(t) or u(t) at t=%g changed without the system being touched" % (where, t))

    def touch(self, h):
        h.snap = snap(h.obj)
        h.times = []
        if h.kind != "basis" and h.op is not None:
            for t in (0.3, 1.7):
                c = clone(h.obj)
                k, v, _ = self.call(lambda: (c.h_t(t), c.u_t(t)))
                if k == "ok":
                    h.times.append((t, np.array(v[0]), np.array(v[1])))

    def do_C07(self, j, hs, h, o, where):
        if not self.applies(o, h):
            return "skip"
        k, fault = o["op"], o.get("fault")
        with core.no_preempt(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for i, x in enumerate(hs):
                if not hasattr(x, "snap"):
                    self.touch(x)
                self.settled(x, "before %s, client %d handle %d" % (where, j, i))
        if k in ("copy", "derive"):
            return self.copy_C07(j, hs, h, o, where)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = self.mutate_C07(hs, h, o)
        with core.no_preempt(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for i, x in enumerate(hs):
                if x is not h:
                    self.settled(x, "after %s, client %d handle %d" % (where, j, i))
            if h in hs:
                self.touch(h)
        return r

    def mutate_C07(self, hs, h, o):
        k = o["op"]
        if k == "scribble":
            with core.no_preempt():
                return self.scribble(h, o["seed"], False)
        if k == "setop":
            with core.no_preempt():
                if o["spec"]["kind"] == "laser" and h.obj.dipole_moment is None:
                    return "skip"
                m = OpModel(o["spec"], basis_of(h.obj).dim, h.obj.l)
                op = m.build(self.T)
            kind, res, _ = self.call(lambda: h.obj.set_time_evolution_operator(op))
            h.op = m if kind == "ok" else None
            return kind
        if k == "hold":
            # the user modifies the polarisation / operator array they handed in
            if h.op is not None and h.op.held is not None:
                with core.no_preempt():
                    h.op.held[...] += 1.0 + o["seed"]
            return "ok"
        if k == "ht":
            kind, res, _ = self.call(lambda: (h.obj.h_t(o["t"]), h.obj.u_t(o["t"])))
            return kind
        if k == "wrap":
            with core.no_preempt():
                if o["kind"] == "spatial" and h.obj.includes_spin:
                    return "skip"
                if (o["n"] // 2 if o["kind"] == "spatial" else o["n"]) > h.obj.l * (2 if o["kind"] == "general" and not h.obj.includes_spin else 1):
                    return "skip"
            kind, res, _ = self.call(lambda: self.make_system(o, h.obj))
            if kind == "ok":
                h2 = Handle(res, o["kind"], h.ref)
                h2.dvr, h2.pristine = h.dvr, h.pristine
                hs[hs.index(h)] = h2
                with core.no_preempt():
                    self.touch(h2)
            return kind
        with core.no_preempt():
            f, _, _ = self.build(o, h)
        kind, res, _ = self.call(lambda: f(h.obj))
        if k in ("change_basis", "antisym", "general"):
            h.pristine = False
            if k == "change_basis" and h.op is not None and h.op.kind == "custom":
                self.call(lambda: h.obj.set_time_evolution_operator(None))
                h.op = None
        return kind

    def copy_C07(self, j, hs, h, o, where):
        k, fault = o["op"], o.get("fault")
        if k == "derive" and h.op is not None and h.op.kind == "custom":
            return "skip"  # the operator's matrix has the size of the spatial system
        if k == "copy":
            f = (lambda x: x.copy_basis()) if h.kind == "basis" else (lambda x: x.copy_system())
        else:
            f = lambda x: self.derive(o, x)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            kind, res, fired = self.call(lambda: f(h.obj), fault)
        with core.no_preempt(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.settled(h, "%s: the source" % where)
            b = basis_of(h.obj)
            if b.np is None or (h.kind != "basis" and h.obj.np is None):
                raise Violation("source-disturbed", "%s: the source lost its array module" % where)
            if kind != "ok":
                self.bump("rejected")
                if not fired:
                    if k == "derive" and not self.derivable(o, h):
                        return "raised"
                    raise Violation("copy-failed", "%s raised %r" % (where, res))
                return "raised"
            h2 = Handle(res, h.kind if k == "copy" else "general", h.ref)
            h2.op, h2.dvr, h2.pristine = copy.copy(h.op), h.dvr, h.pristine
            if h2.op is not None:
                h2.op.held = None  # the user's arrays were handed to the source, not to the copy
            if k == "copy":
                d = diff(snap(h.obj), snap(res))
                if d:
                    raise Violation("copy-differs", "%s: the copy differs from its source: %s" % (where, d))
                if type(res) is not type(h.obj):
                    raise Violation("copy-differs", "%s: the copy is a %s" % (where, type(res).__name__))
            else:
                t = clone(h.obj._basis_set)
                ab = spinpair(o["ab"])
                kw = {} if ab is None else {"a": ab[0], "b": ab[1]}
                kk, tv, _ = self.call(lambda: t.change_to_general_orbital_basis(anti_symmetrize=o["anti"], **kw))
                if kk == "ok":
                    d = diff(snap(t), snap(res._basis_set))
                    if d:
                        raise Violation("copy-differs", "%s: the derived system differs from the spin-doubled source: %s" % (where, d))
                    if res.n != 2 * h.obj.n or res.l != 2 * h.obj.l:
                        raise Violation("copy-differs", "%s: derived sizes n=%d l=%d" % (where, res.n, res.l))
            if h2.kind != "basis":
                self.op_on_copy(h, h2, k, where)
            self.touch(h2)
            if len(hs) < 6:
                hs.append(h2)
            return "ok"

    def derivable(self, o, h):
        t = clone(h.obj._basis_set)
        ab = spinpair(o["ab"])
        kw = {} if ab is None else {"a": ab[0], "b": ab[1]}
        return self.call(lambda: t.change_to_general_orbital_basis(anti_symmetrize=o["anti"], **kw))[0] == "ok"

    def op_on_copy(self, h, h2, k, where):
        """An installed operator acts on the copy."""
        s1, s2 = h.obj, h2.obj
        for p in ("has_one_body_time_evolution_operator", "has_two_body_time_evolution_operator"):
            if getattr(s1, p) != getattr(s2, p):
                raise Violation("operator-lost", "%s: %s differs on the copy" % (where, p))
        if h.op is None:
            return
        c = clone(s2)
        # the clone carries the same operator: shift its elements and watch h(t), u(t) follow
        for t in (0.3, 1.7):
            kk, v, _ = self.call(lambda: (s2.h_t(t), s2.u_t(t)))
            src = clone(s1)
            k1, v1, _ = self.call(lambda: (src.h_t(t), src.u_t(t)))
            if k1 != "ok":
                return
            if kk != "ok":
                raise Violation("operator-broken", "%s: h(t) on the copy raised %r" % (where, v))
            if k == "copy":
                if not (close(v[0], v1[0]) and close(v[1], v1[1])):
                    raise Violation("operator-broken", "%s: h(t)/u(t) of the copy differ from the source's" % where)
            else:
                # derived: (h(t) - h) is the spin-doubled difference, u(t) = factor * u
                dh = v1[0] - src.h
                if not close(v[0] - s2.h, np.kron(dh, np.eye(2))):
                    raise Violation("operator-broken", "%s: the operator does not act as spin-doubled on the derived system" % where)
                uu = np.asarray(src.u)
                i = np.unravel_index(np.argmax(np.abs(uu)), uu.shape)
                fac = v1[1][i] / uu[i] if uu[i] != 0 else 1
                if not close(v[1], fac * np.asarray(s2.u)):
                    raise Violation("operator-broken", "%s: u(t) of the derived system is not its own u times the factor" % where)
            h0 = np.array(v[0])
            s2.h[0, 0] += 2.5
            kk, v2, _ = self.call(lambda: np.array(s2.h_t(t)))
            s2.h[0, 0] -= 2.5
            if kk != "ok":
                raise Violation("operator-broken", "%s: h(t) on the copy raised %r" % (where, v2))
            e = np.zeros_like(h0)
            e[0, 0] = 2.5
            if not close(np.asarray(v2) - h0, e):
                raise Violation("operator-on-source", "%s: the copy's h(t) does not follow the copy's own elements" % where)


def engine(pid):
    return ObjectEngine(pid)
