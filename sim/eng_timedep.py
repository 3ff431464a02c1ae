"""C11: h(t), u(t) are exact functions of time and current state."""
import copy
import types
import warnings

import numpy as np

from sim import core
from sim.objects import basis_of, clone, diff, snap
from sim.refmodel import Bases, Callback, OpModel, close, coeff, crand, gen_base, gen_op, spinpair
from sim.thread_engine import ThreadEngine, Violation, gen_tsched

altnp = types.ModuleType("altnumpy")
altnp.__dict__.update({k: v for k, v in vars(np).items() if not k.startswith("__")})


class PulseError(Exception):
    pass


class H:
    def __init__(self, sys, ref, kind):
        self.sys, self.ref, self.kind = sys, ref, kind
        self.op = None
        self.inst = None  # the operator instance we installed, when it is ours to move


def gen_time(rng, pool):
    if pool and rng.random() < 0.4:
        return rng.choice(pool)
    t = rng.choice((1000.5, 15000, -2500.25, 1e6, 1e-4, 1e-12, -7.5)) if rng.random() < 0.08 else rng.choice((0, 0.0, 1, -1, 0.5, 2.5, 1e-9, 37.25, round(rng.uniform(-3, 12), 3), round(rng.uniform(0, 2), 2)))
    pool.append(t)
    return t


class TimeEngine(ThreadEngine):
    counts = {"quick": 5000, "thorough": 120000}
    walls = {"quick": 150, "thorough": 1500}
    rule = "a run counts when h(t) or u(t) was evaluated with an operator installed and a fault, state change or thread switch happened"
    real = ["LaserField, AdiabaticSwitching, CustomOneBodyOperator", "SpatialOrbitalSystem, GeneralOrbitalSystem, every basis-set class",
            "numpy"]
    stubs = ["the time-dependent solver driving h(t)/u(t)", "the thread scheduler", "user callbacks"]
    assumptions = ["an operator instance is installed on one system at a time (set_system binds it)",
                   "elements are changed by one thread while no other evaluates",
                   "arrays handed to an operator are not modified by the caller afterwards"]

    def setup(self, tier):
        warnings.simplefilter("ignore")
        import quantum_systems as QS
        import quantum_systems.time_evolution_operators as T

        self.QS, self.T = QS, T
        self.bases = Bases(QS)

    def simulated_time(self, stats):
        return "%d evaluations of h(t)/u(t) over solver time points in [-2500, 1e6]; %d simulated instruction steps" % (
            stats.get("evals", 0), stats.get("steps", 0))

    # -- generation --------------------------------------------------------
    def generate(self, rng, i, tier):
        pool = []
        b = gen_base(rng, self.bases.names(), 0.25)
        hist = [{"op": "setop", "spec": gen_op(rng)}] if rng.random() < 0.9 else []
        par = rng.random() < 0.35
        for _ in range(rng.randrange(2, 7) if par else rng.randrange(5, 18)):
            hist.append(self.gen_step(rng, pool))
        clients = [hist]
        if par:
            pre = hist
            clients = []
            for j in range(rng.choice((2, 2, 3, 4))):
                clients.append([self.gen_eval(rng, pool) for _ in range(rng.randrange(1, 6))])
        return {"base": b, "kind": rng.choice(("spatial", "spatial", "general")), "anti": rng.random() < 0.7,
                "n": rng.choice((0, 2, 2, 4)), "pre": pre if par else [], "clients": clients, "sched": gen_tsched(rng)}

    def gen_eval(self, rng, pool):
        o = {"op": "eval", "t": gen_time(rng, pool), "what": rng.choice(("h", "u", "hu", "uh", "hh")), "h": rng.randrange(6)}
        if rng.random() < 0.15:
            o["nptime"] = True
        if rng.random() < 0.15:
            o["op"] = "eval_fail"
            o["exc"] = rng.choice(("PulseError", "ValueError", "KeyboardInterrupt", "MemoryError"))
        elif rng.random() < 0.15:
            o["fault"] = {"exc": rng.choice(("MemoryError", "KeyboardInterrupt")), "k": int(2 ** rng.uniform(0, 4.5)) - 1}
        if rng.random() < 0.4:
            o["clobber"] = True
        return o

    def gen_step(self, rng, pool):
        x = rng.random()
        if x < 0.5:
            return self.gen_eval(rng, pool)
        if x < 0.6:
            o = {"op": "setop", "spec": gen_op(rng)}
        elif x < 0.62:
            o = {"op": "noop"}
        elif x < 0.66:
            o = {"op": "move", "src": rng.randrange(6), "release": rng.choice(("before", "after"))}
        elif x < 0.73:
            o = {"op": "change_basis", "C": {"kind": rng.choice(("unitary", "unitary", "isometry", "general", "biorth", "perm")),
                                             "newl": rng.randrange(2, 5), "seed": rng.randrange(10**6), "cplx": rng.random() < 0.5}}
        elif x < 0.79:
            o = {"op": "copy"}
        elif x < 0.83:
            o = {"op": "derive", "anti": rng.random() < 0.5}
        elif x < 0.9:
            o = {"op": "scribble", "seed": rng.randrange(10**6)}
        elif x < 0.96:
            o = {"op": "setter", "what": rng.choice(("h", "u", "dipole_moment")), "seed": rng.randrange(10**6)}
        else:
            o = {"op": "module", "alt": rng.random() < 0.6}
        o["h"] = rng.randrange(6)
        return o

    def shrink(self, s):
        yield from super().shrink(s)
        from sim.runner import shrink_list
        for c in shrink_list(s["pre"]):
            yield dict(s, pre=c)
        b = s["base"]
        if b.get("l", 0) > 2:
            yield dict(s, base=dict(b, l=2))
        if b["base"] != "custom":
            yield dict(s, base={"base": "custom", "l": 2, "dim": 1, "seed": 1, "cplx": False, "s": "eye", "dip": True,
                                "spf": False, "bra": False})

    def nontrivial(self, s, sim):
        return self.stats.get("evals_op", 0) > 0 and (super().nontrivial(s, sim) or self.stats.get("changes", 0) > 0)

    # -- running -----------------------------------------------------------
    def start(self, s, sim):
        b, ref = self.bases.take(s["base"], 0)
        n = min(s["n"], 2 * b.l)
        try:
            if s["kind"] == "spatial":
                x = self.QS.SpatialOrbitalSystem(n, b)
            else:
                flat = np.ndim(b.u) == 2 and not s["anti"]
                x = self.QS.GeneralOrbitalSystem(n, b, anti_symmetrize=s["anti"])
                ref = ref.general(anti=s["anti"], spinless=flat)
        except Exception as e:
            raise Violation("raised", "constructing the %s system raised %r" % (s["kind"], e))
        self.hs = [H(x, ref, s["kind"])]
        self.held = []
        for o in s["pre"]:
            self.step(o, "before the threads start, %s" % o["op"])
        return [self.client(j, ops, sim) for j, ops in enumerate(s["clients"])]

    def client(self, j, ops, sim):
        def fn():
            for n, o in enumerate(ops):
                r = self.step(o, "client %d op %d (%s)" % (j, n, o["op"]))
                sim.log(j, n, o["op"], r)

        return fn

    def finish(self, s):
        for where, res, old in self.held:
            if not close(res, old):
                raise Violation("result-overwritten", "%s: the returned array changed afterwards" % where)
        for i, h in enumerate(self.hs):
            for t in (0.0, 0.75):
                self.evaluate(h, {"t": t, "what": "hu"}, "at the end, system %d" % i)

    def step(self, o, where):
        k = o["op"]
        h = self.hs[o.get("h", 0) % len(self.hs)]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if k in ("eval", "eval_fail"):
                return self.evaluate(h, o, where)
            with core.no_preempt():
                self.bump("changes")
                r = self.change(h, o, where)
                return r

    def must(self, f, where):
        kind, res, _ = self.call(f)
        if kind != "ok":
            raise Violation("raised", "%s raised %r" % (where, res))
        return res

    def change(self, h, o, where):
        k = o["op"]
        x, r = h.sys, h.ref
        if k == "setop":
            if o["spec"]["kind"] == "laser" and r.a["dipole_moment"] is None:
                return "skip"
            m = OpModel(o["spec"], r.dim, r.l)
            inst = m.build(self.T)
            self.must(lambda: x.set_time_evolution_operator(inst), where)
            h.op, h.inst = m, inst
        elif k == "noop":
            self.must(lambda: x.set_time_evolution_operator(None), where)
            h.op = h.inst = None
        elif k == "move":
            # the same operator instance goes from one system to another (or back on the same one)
            src = self.hs[o["src"] % len(self.hs)]
            m, inst = src.op, src.inst
            if inst is None or (m.kind == "laser" and r.a["dipole_moment"] is None) or (m.kind == "custom" and r.l != src.ref.l):
                return "skip"
            before = src is h or o["release"] == "before"
            if before:
                self.must(lambda: src.sys.set_time_evolution_operator(None), where)
            self.must(lambda: x.set_time_evolution_operator(inst), where)
            if not before:
                self.must(lambda: src.sys.set_time_evolution_operator(None), where)
            src.op = src.inst = None
            h.op, h.inst = m, inst
            self.bump("moves")
        elif k == "change_basis":
            C, Ct = coeff(o["C"], r.l)
            if C.shape[1] < x.n:
                return "skip"
            if C.shape[1] != r.l and h.op is not None and h.op.kind == "custom":
                return "skip"
            self.must(lambda: x.change_basis(C, Ct), where)
            h.ref = r.change_basis(C, Ct)
        elif k == "copy":
            c = self.must(lambda: x.copy_system(), where)
            h2 = H(c, r.copy(), h.kind)
            h2.op = h.op
            if len(self.hs) < 4:
                self.hs.append(h2)
        elif k == "derive":
            if h.kind != "spatial" or (h.op is not None and h.op.kind == "custom"):
                return "skip"
            c = self.must(lambda: x.construct_general_orbital_system(anti_symmetrize=o["anti"]), where)
            flat = np.ndim(x.u) == 2 and not o["anti"]
            h2 = H(c, r.general(anti=o["anti"], spinless=flat), "general")
            h2.op = h.op
            if len(self.hs) < 4:
                self.hs.append(h2)
        elif k == "scribble":
            rs = np.random.RandomState(o["seed"])
            name = ("h", "u", "dipole_moment")[rs.randint(3)]
            a = getattr(x, name)
            if a is None or (name == "u" and a.ndim == 2) or not a.flags.writeable:
                return "skip"
            idx = tuple(rs.randint(n) for n in a.shape)
            a[idx] += 1.75
            r.a[name][idx] += 1.75
        elif k == "setter":
            rs = np.random.RandomState(o["seed"])
            w = o["what"]
            old = getattr(x, w)
            if old is None or (w == "u" and old.ndim == 2):
                return "skip"
            v = crand(rs, old.shape)
            self.must(lambda: setattr(basis_of(x), w, v), where)
            r.a[w] = v.copy()
        elif k == "module":
            self.must(lambda: x.change_module(altnp if o["alt"] else np), where)
        else:
            raise KeyError(k)
        return "ok"

    def full(self, x, u):
        from sim.refmodel import expand2d
        u = np.asarray(u)
        return expand2d(u) if u.ndim == 2 else u

    def evaluate(self, h, o, where):
        x, m = h.sys, h.op
        with core.no_preempt():
            ref = h.ref
            before = snap(x)
            t = np.float64(o["t"]) if o.get("nptime") else o["t"]
            where = "%s at t=%r with %s" % (where, o["t"], "no operator" if m is None else
                                           "%s operator (%s)" % (m.kind, m.spec["pulse"]["k"]))
            want = {"h": m.h(ref, o["t"]) if m else ref.a["h"], "u": m.u(ref, o["t"]) if m else ref.a["u"]}
            held0 = None if m is None or m.held is None else np.array(m.held)
            cbs = [c for c in (getattr(m, "p", None), getattr(m, "v", None)) if isinstance(c, Callback)] if m else []
            flags = (m is not None and m.kind in ("laser", "custom"), m is not None and m.kind == "adiab")
            if (x.has_one_body_time_evolution_operator, x.has_two_body_time_evolution_operator) != flags:
                raise Violation("wrong-flags", "%s: the operator-kind flags are %r" % (
                    where, (x.has_one_body_time_evolution_operator, x.has_two_body_time_evolution_operator)))
        # a failing callback fails for this thread's call only
        failing = o["op"] == "eval_fail" if "op" in o else False
        for w in o["what"]:
            f = (lambda: x.h_t(t)) if w == "h" else (lambda: x.u_t(t))
            if failing:
                exc = {"PulseError": PulseError, "ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt,
                       "MemoryError": MemoryError}[o["exc"]]("the pulse failed")
                me = self.sim.current()
                n0 = [c.calls for c in cbs]
                with core.no_preempt():  # whole call: only this thread sees the failure
                    for c in cbs:
                        c.fail = exc
                    kind, res, fired = self.call(f)
                    for c in cbs:
                        c.fail = None
                called = any(c.calls != n for c, n in zip(cbs, n0))
                fired = called or None
                if called:
                    self.bump("fault_callback_" + o["exc"])
            else:
                kind, res, fired = self.call(f, o.get("fault"))
            with core.no_preempt():
                self.bump("evals")
                if m is not None:
                    self.bump("evals_op")
                if kind == "raised":
                    if not fired:
                        raise Violation("raised", "%s: %s(t) raised %r" % (where, w, res))
                else:
                    got = self.full(x, res) if w == "u" else np.asarray(res)
                    if not close(got, want[w]):
                        raise Violation("wrong-value", "%s: %s(t) differs from the current elements and parameters (by up to %s)" % (
                            where, w, "%.3g" % np.max(np.abs(got - want[w])) if got.shape == want[w].shape else "shape %s" % (got.shape,)))
                d = diff(before, snap(x))
                if d:
                    raise Violation("state-changed", "%s: evaluating %s(t) changed the system: %s" % (where, w, d))
                if kind == "ok" and isinstance(res, np.ndarray):
                    arrs = [getattr(x, q) for q in ("h", "u", "s", "dipole_moment", "spf")]
                    arrs += [a for q in self.hs for a in (q.sys.h, q.sys.u)]
                    if m is not None and m.kind == "custom":
                        arrs.append(m.held)
                    own = m is not None and w == ("u" if m.kind == "adiab" else "h")
                    if own and res.flags.writeable and o.get("clobber"):
                        # the solver works on the array it was given
                        res[...] = 999.0
                        self.bump("clobbered")
                        d = diff(before, snap(x))
                        if d or not close(getattr(m, "held", None), held0):
                            raise Violation("result-aliases-state", "%s: writing to the array returned by %s(t) changed %s" % (
                                where, w, "the system: " + d if d else "the operator's own array"))
                    elif not any(isinstance(a, np.ndarray) and np.shares_memory(res, a) for a in arrs):
                        if o.get("clobber") and res.flags.writeable:
                            res[...] = 999.0
                            self.bump("clobbered")
                        else:
                            self.held.append(("%s(t) %s" % (w, where), res, np.array(res)))
        return "ok"


def engine(pid):
    return TimeEngine(pid)
