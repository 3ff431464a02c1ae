"""C15: a failed SCF solve is never passed off silently as a good RHF system.

The solver is PySCF's own; the simulator decides when it is cut off, when its
convergence test fails, where it raises, when its checkpoint file cannot be
written, and perturbs its Fock matrices, at seeded iterations.
"""
import contextlib
import copy
import io
import os
import random
import sys
import warnings

import numpy as np

from sim import core
from sim.thread_engine import ThreadEngine, Violation, gen_tsched

MOLS = {
    "he": "he 0 0 0", "h2": "h 0 0 0; h 0 0 1.4", "h2far": "h 0 0 0; h 0.3 0 6.0", "be": "be 0 0 0", "hf": "h 0 0 0; f 0 0 1.7",
    "h4": "h 0 0 0; h 0 0 1.8; h 0 1.9 0; h 0 1.9 1.85", "heh": "he 0.2 0 0; h 0 0 1.5", "h3": "h 0 0 0; h 0 0 1.7; h 0 1.2 0.8",
    "lih": "li 0 0 0; h 0 0.4 3.0", "gh": "he 0 0 0; ghost-he 0 0 0.0004",
}
CASES = [("he", 0), ("h2", 0), ("h2far", 0), ("be", 0), ("be", 2), ("hf", 0), ("h4", 0), ("h4", 2), ("heh", 1), ("h3", 1), ("h3", -1),
         ("lih", 0), ("lih", 2), ("gh", 0), ("heh", 0), ("h3", 0)]
BASES = ["sto-3g", "3-21g", "6-31g"]
EXC = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "LinAlgError": np.linalg.LinAlgError,
       "ENOSPC": lambda m: OSError(28, m), "RuntimeError": RuntimeError, "FloatingPointError": FloatingPointError, "ValueError": ValueError, "TypeError": TypeError}


class Injected:
    """What the simulator makes of one solve."""

    def __init__(self, plan):
        self.plan = plan or {}
        self.mf = None
        self.raised = None
        self.solves = 0
        self.fired = []


class Solver:
    """Wraps pyscf.scf.hf.kernel, through which every RHF solve runs."""

    def __init__(self):
        import pyscf.scf.hf as hf

        self.hf = hf
        self.real = getattr(hf.kernel, "_real", hf.kernel)
        self.cur = {}
        me = self

        def kernel(mf, *a, **k):
            inj = me.cur.get(core.cur_sim().current().tid if core.cur_sim() else None)
            if inj is None:
                return me.real(mf, *a, **k)
            return me.solve(inj, mf, a, k)

        kernel._real = self.real
        hf.kernel = kernel

    def solve(self, inj, mf, a, k):
        p = inj.plan
        inj.mf = mf
        inj.solves += 1
        saved = {}
        a = list(a)

        def put(name, v):
            saved[name] = mf.__dict__.get(name, saved)
            mf.__dict__[name] = v

        n = {"veff": 0, "eig": 0, "chk": 0, "iter": 0, "fock": 0}

        def fail(site):
            n[site] += 1
            if p.get("raise") and p["site"] == site and n[site] > p["at"] and inj.raised is None:
                inj.raised = EXC[p["raise"]]("simulated solver failure")
                inj.fired.append("solver_%s_at_%s" % (p["raise"], site))
                raise inj.raised

        def wrap(site, fn):
            def f(*a, **k):
                fail(site)
                return fn(*a, **k)
            return f

        put("get_veff", wrap("veff", mf.get_veff))
        put("eig", wrap("eig", mf.eig))
        put("dump_chk", wrap("chk", mf.dump_chk))
        if "cut" in p:
            put("max_cycle", p["cut"])
        if p.get("verdict"):
            # the solver's own convergence test, overruled
            left = [p["verdict"]]

            def verdict(envs):
                ok = abs(envs["e_tot"] - envs["last_hf_e"]) < envs["conv_tol"] and envs["norm_gorb"] < envs["conv_tol_grad"]
                if ok and left[0] > 0:
                    left[0] -= 1
                    inj.fired.append("not_converged_verdict")
                    return False
                return ok

            put("check_convergence", verdict)
        if p.get("noise"):
            rs = np.random.RandomState(p["noise"])
            real = mf.get_fock

            def fock(*a, **k):
                f = real(*a, **k)
                n["fock"] += 1
                if n["fock"] <= 2 * p.get("noisy", 3):
                    x = rs.standard_normal(np.shape(f)) * 0.3
                    if not mf.mol.symmetry:
                        f = f + x + x.T
                        if "perturbed_fock" not in inj.fired:
                            inj.fired.append("perturbed_fock")
                return f

            put("get_fock", fock)
        cb = k.get("callback")

        def callback(envs):
            fail("iter")
            if callable(cb):
                cb(envs)

        k["callback"] = callback
        try:
            out = self.real(mf, *a, **k)
            if "cut" in p and not out[0]:
                inj.fired.append("cut_off")
            return out
        finally:
            if p.get("keep"):  # the limit was configured, not imposed from outside
                saved.pop("max_cycle", None)
            for name, v in saved.items():
                if v is saved:
                    mf.__dict__.pop(name, None)
                else:
                    mf.__dict__[name] = v


_oracle = {}


def oracle(args):
    """The atomic-orbital integrals, straight from PySCF."""
    import pyscf

    key = (args["mol"], args["basis"], args["charge"], args["cart"], args["symmetry"])
    if key not in _oracle:
        m = pyscf.gto.M(atom=MOLS[args["mol"]], basis=args["basis"], unit="bohr", charge=args["charge"], cart=args["cart"],
                        symmetry=args["symmetry"], verbose=0)
        z, x = m.atom_charges(), m.atom_coords()
        l = m.nao
        with m.with_common_orig(np.einsum("z,zx->x", z, x) / z.sum()):
            r = m.intor("int1e_r").reshape(3, l, l)
        _oracle[key] = {"n": m.nelectron, "e_nuc": m.energy_nuc(), "h": m.intor("int1e_kin") + m.intor("int1e_nuc"),
                        "s": m.intor("int1e_ovlp"), "eri": m.intor("int2e").reshape(l, l, l, l), "r": r}
    return _oracle[key]


def expected(args, C, spin, anti):
    o = oracle(args)
    one = lambda x: C.conj().T @ x @ C
    h, s, r = one(o["h"]), one(o["s"]), np.array([one(x) for x in o["r"]])
    g = np.einsum("abcd,ap,bq->pqcd", o["eri"], C.conj(), C, optimize=True)
    g = np.einsum("pqcd,cr,ds->pqrs", g, C.conj(), C, optimize=True)  # (pq|rs)
    u = g.transpose(0, 2, 1, 3)
    if spin:
        e = np.eye(2)
        h, s = np.kron(h, e), np.kron(s, e)
        r = np.array([np.kron(x, e) for x in r])
        L = len(h)
        up = np.arange(L) // 2
        sg = np.arange(L) % 2
        d = (sg[:, None] == sg[None, :]).astype(float)
        u = u[np.ix_(up, up, up, up)] * d[:, None, :, None] * d[None, :, None, :]
        if anti:
            u = u - u.transpose(0, 1, 3, 2)
    return {"h": h, "s": s, "u": u, "dipole_moment": r}


def gen_plan(rng):
    x = rng.random()
    if x < 0.2:
        return {}
    if x < 0.5:
        p = {"cut": rng.choice((0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 12))}
        if rng.random() < 0.5:
            p["keep"] = 1
        if rng.random() < 0.4:
            p["noise"] = rng.randrange(1, 1000)
            p["noisy"] = rng.randrange(1, 8)
        return p
    if x < 0.62:
        return {"verdict": rng.choice((1, 2, 3, 1000)), "cut": rng.choice((3, 8, 15))}
    if x < 0.75:
        return {"noise": rng.randrange(1, 1000), "noisy": rng.randrange(1, 5)}
    return {"raise": rng.choice(sorted(EXC)), "site": rng.choice(("iter", "veff", "eig", "chk")), "at": int(2 ** rng.uniform(0, 3.4)) - 1}


class ScfEngine(ThreadEngine):
    counts = {"quick": 1500, "thorough": 30000}
    walls = {"quick": 180, "thorough": 1500}
    rule = "a run counts when a solve was cut off, perturbed, overruled or raised, or several solves shared the process"
    real = ["construct_pyscf_system_rhf, BasisSet, SpatialOrbitalSystem, GeneralOrbitalSystem", "PySCF integrals and its RHF solver"]
    stubs = ["when the solver stops, its convergence verdict, its failures and its checkpoint writes", "the thread scheduler"]
    assumptions = ["closed-shell molecules (spin=0), as the constructor documents",
                   "PySCF's integrals in the atomic orbitals are right: they are the oracle, transformed with the solver's final orbitals",
                   "a warning about convergence is one whose text contains 'converg'"]

    def setup(self, tier):
        import quantum_systems  # noqa: F401
        import pyscf  # noqa: F401
        import pyscf.scf.hf  # noqa: F401

        self.solver = Solver()
        null = open(os.devnull, "w")
        pyscf.lib.StreamObject.stdout = pyscf.gto.mole.Mole.stdout = null
        with contextlib.redirect_stdout(io.StringIO()):
            for k, c in CASES:
                if (k, c) in (("heh", 0), ("h3", 0)):
                    continue
                for b in BASES[:2]:
                    try:
                        oracle({"mol": k, "basis": b, "charge": c, "cart": False, "symmetry": False})
                    except Exception as e:
                        raise core.HarnessError("oracle %s %s %s: %r" % (k, c, b, e))

    def generate(self, rng, i, tier):
        nc = rng.choice((1, 1, 1, 2, 3))
        same = rng.choice(CASES)
        clients = []
        for j in range(nc):
            ops = []
            for _ in range(rng.randrange(1, 5) if nc == 1 else rng.randrange(1, 3)):
                mol, ch = same if rng.random() < 0.5 else rng.choice(CASES)
                args = {"mol": mol, "charge": ch, "basis": rng.choice(BASES if mol != "h4" else BASES[:2]), "cart": rng.random() < 0.2,
                        "symmetry": rng.random() < 0.12, "add_spin": rng.random() < 0.5, "anti_symmetrize": rng.random() < 0.7,
                        "verbose": rng.random() < 0.3}
                if mol == "gh":  # PySCF itself refuses symmetry with dependent orbitals
                    args["symmetry"] = False
                if mol == "lih" or mol == "hf":
                    args["basis"] = "sto-3g" if args["add_spin"] else args["basis"]
                o = {"op": "rhf", "args": args, "plan": gen_plan(rng)}
                if rng.random() < 0.08:
                    o["fault"] = {"exc": rng.choice(("MemoryError", "KeyboardInterrupt")), "k": int(2 ** rng.uniform(0, 8)) - 1}
                if rng.random() < 0.1:
                    o["strict"] = 1  # the caller turns warnings into errors
                ops.append(o)
            clients.append(ops)
        if nc > 1:
            for c in clients:
                for o in c:
                    o.pop("strict", None)
        return {"clients": clients, "sched": gen_tsched(rng), "rng": rng.randrange(10 ** 6)}

    def simpler(self, o):
        for k, v in (("basis", "sto-3g"), ("symmetry", False), ("cart", False), ("verbose", False), ("add_spin", False)):
            if o["args"][k] != v:
                yield dict(o, args=dict(o["args"], **{k: v}))
        if o["args"]["mol"] != "gh" and (o["args"]["mol"], o["args"]["charge"]) != ("h2", 0):
            yield dict(o, args=dict(o["args"], mol="h2", charge=0))
        for k in o["plan"]:
            yield dict(o, plan={a: b for a, b in o["plan"].items() if a != k})
        if o.get("strict"):
            yield {a: b for a, b in o.items() if a != "strict"}

    def _run(self, s):
        out, err = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        show, filt = warnings.showwarning, warnings.filters[:]
        try:
            self.heard = {}
            warnings.resetwarnings()
            warnings.simplefilter("always")
            warnings.showwarning = self.hear
            return super()._run(s)
        finally:
            sys.stdout, sys.stderr = out, err
            warnings.showwarning = show
            warnings.filters[:] = filt

    def hear(self, message, category, filename, lineno, file=None, line=None):
        if issubclass(category, (DeprecationWarning, PendingDeprecationWarning, ImportWarning, ResourceWarning)):
            return  # categories Python does not show to users by default
        self.heard.setdefault(self.sim.current().tid, []).append((category, str(message)))

    def monitor(self):
        if self.need:
            core.MON.start()

    def start(self, s, sim):
        np.random.seed(s["rng"])
        random.seed(s["rng"])
        multi = len(s["clients"]) > 1
        self.need = multi or any("fault" in o for c in s["clients"] for o in c)
        sim.preempt = multi
        self.solver.cur = {}
        return [self.client(j, ops, sim) for j, ops in enumerate(s["clients"])]

    def client(self, j, ops, sim):
        def fn():
            for n, o in enumerate(ops):
                r = self.step(j, n, o, sim)
                self.bump("solves")
                sim.log(j, n, o["args"], r)

        return fn

    def step(self, j, n, o, sim):
        from quantum_systems import construct_pyscf_system_rhf

        a = dict(o["args"])
        where = "client %d op %d (%s, charge %d, %s, plan %s)" % (j, n, MOLS[a["mol"]], a["charge"], a["basis"], o["plan"])
        kw = {k: a[k] for k in ("basis", "add_spin", "anti_symmetrize", "verbose", "charge", "cart")}
        if a["symmetry"]:
            kw["symmetry"] = True
        inj = Injected(o["plan"])
        tid = sim.current().tid
        self.solver.cur[tid] = inj
        self.heard[tid] = []
        if o.get("strict"):
            warnings.simplefilter("error")
        try:
            kind, r, fired = self.call(lambda: construct_pyscf_system_rhf(MOLS[a["mol"]], **kw), o.get("fault"))
        finally:
            self.solver.cur.pop(tid, None)
            if o.get("strict"):
                warnings.filters.pop(0)
                warnings._filters_mutated()
        with core.no_preempt():
            for f in inj.fired:
                self.bump("fault_" + f)
            said = [m for c, m in self.heard[tid] if "converg" in m.lower()]
            odd = (a["mol"], a["charge"]) in (("heh", 0), ("h3", 0))
            if kind == "raised":
                if fired and not isinstance(r, (Violation, core.HarnessError)) and inj.raised is None:
                    return "interrupted"
                if inj.raised is not None:
                    if r is inj.raised or isinstance(r, type(inj.raised)) or fired:
                        return "error passed on"
                    raise Violation("wrong-error", "%s: the solver raised %r, the caller got %r" % (where, inj.raised, r))
                if odd and isinstance(r, (AssertionError, ValueError, RuntimeError)):
                    return "refused"
                if o.get("strict") and isinstance(r, Warning) and "converg" in str(r).lower():
                    if inj.mf is not None and inj.mf.converged:
                        raise Violation("false-warning", "%s: the solver converged and the caller was warned: %s" % (where, r))
                    return "warned"
                if o.get("strict") and isinstance(r, Warning):
                    return "warned about something else"
                raise Violation("construction-failed", "%s: raised %r without any failure of the solver" % (where, r))
            if odd:
                raise Violation("open-shell", "%s: a molecule with an odd number of electrons gave a closed-shell system" % where)
            if inj.raised is not None:
                raise Violation("error-swallowed", "%s: the solver raised %r and the caller got a system" % (where, inj.raised))
            mf = inj.mf
            if mf is None:
                raise Violation("no-solve", "%s: a system was returned without any solve" % where)
            if not mf.converged and (o.get("strict") or not said):
                raise Violation("silent-failure", "%s: the solver stopped without converging after %d iterations and the caller was not warned" % (
                    where, getattr(mf, "cycles", 0)))
            if mf.converged and said:
                raise Violation("false-warning", "%s: the solver converged and the caller was warned: %s" % (where, said[0]))
            self.judge(where, a, r, mf)
        return "converged" if mf.converged else "warned"

    def judge(self, where, a, system, mf):
        C = np.asarray(mf.mo_coeff)
        o = oracle(a)
        spin = a["add_spin"]
        n = o["n"] if spin else o["n"] // 2
        l = C.shape[1] * (2 if spin else 1)
        for k, want in (("n", n), ("l", l)):
            if getattr(system, k) != want:
                raise Violation("wrong-size", "%s: %s is %r, expected %r" % (where, k, getattr(system, k), want))
        if (system.o.start, system.o.stop, system.v.start, system.v.stop) != (0, n, n, l):
            raise Violation("wrong-size", "%s: occupied %r, virtual %r" % (where, system.o, system.v))
        e = system.nuclear_repulsion_energy
        if abs(e - o["e_nuc"]) > 1e-9:
            raise Violation("wrong-nuclear-repulsion", "%s: nuclear repulsion energy %r, expected %r" % (where, e, o["e_nuc"]))
        want = expected(a, C, spin, a["anti_symmetrize"])
        for k, w in want.items():
            x = np.asarray(getattr(system, k))
            if x.shape != w.shape:
                raise Violation("wrong-orbitals", "%s: %s has shape %s, expected %s" % (where, k, x.shape, w.shape))
            d = float(np.max(np.abs(x - w))) if x.size else 0.0
            if not d < 1e-7 * max(1.0, float(np.max(np.abs(w)))):
                raise Violation("wrong-orbitals", "%s: %s is not expressed in the solver's final orbitals (off by %.3g)" % (where, k, d))
        if mf.converged and (not spin or a["anti_symmetrize"]):
            e = system.compute_reference_energy() + system.nuclear_repulsion_energy
            if not abs(e - mf.e_tot) < 1e-7:
                raise Violation("wrong-energy", "%s: reference energy plus nuclear repulsion %r, solver's total energy %r" % (where, e, mf.e_tot))

    def nontrivial(self, s, sim):
        return super().nontrivial(s, sim) or self.stats.get("solves", 0) > 1


def engine(pid):
    return ScfEngine(pid)
