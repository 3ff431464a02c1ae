"""Shared by the checks whose system is several client threads in one process."""
import copy
import os
import shutil
import tempfile

from sim import core
from sim.runner import BaseEngine, shrink_list


def gen_tsched(rng):
    sc = {"mode": "seeded", "seed": rng.getrandbits(40), "p": rng.choice((0.0, 0.02, 0.1, 0.3, 0.7)), "pc": 0.5}
    x = rng.random()
    if x < 0.2:
        at_stores(rng, sc)
    elif x < 0.35:
        at_seldom(rng, sc)
    return sc


def at_seldom(rng, sc):
    """Switch mainly on a thread's first visits to each line, so that code executed once
    is as likely to be cut in two as the body of a loop."""
    sc.update(p=rng.choice((0.0, 0.0, 0.001)), pr=rng.choice((0.02, 0.1, 0.3)))


def at_stores(rng, sc):
    """Make a schedule switch mainly right after stores to attributes and items,
    where threads that share them can get into each other's way."""
    sc.update(p=rng.choice((0.0, 0.0, 0.001, 0.01)), ps=rng.choice((0.3, 0.7, 0.9)))


class Violation(Exception):
    def __init__(self, kind, detail):
        self.v = {"kind": kind, "detail": detail}


def exc_name(e):
    return type(e).__name__


class ThreadEngine(BaseEngine):
    """scenario: {"clients": [[op, ...], ...], "sched": {...}, ...}"""

    preempt = True
    step_cap = 20000000
    distinct_measure = ("distinct interleavings: hash of the executed operations with their outcomes, every context "
                        "switch (at which instruction of which thread) and every injected fault")

    def explicit(self, s, res):
        if "made" not in res:
            return None
        return dict(copy.deepcopy(s), sched={"mode": "explicit", "switches": res["made"]})

    def shrink(self, s):
        cl = s["clients"]
        if len(cl) > 1:
            for j in range(len(cl)):
                sc = s["sched"]
                if sc["mode"] == "explicit":
                    sc = {"mode": "explicit", "switches": [[k, t - (t > j)] for k, t in sc["switches"] if t != j]}
                yield dict(s, clients=cl[:j] + cl[j + 1:], sched=sc)
        for j, ops in enumerate(cl):
            for c in shrink_list(ops):
                yield dict(s, clients=cl[:j] + [c] + cl[j + 1:])
        for j, ops in enumerate(cl):
            for k, o in enumerate(ops):
                if o.get("fault"):
                    o2 = {a: b for a, b in o.items() if a != "fault"}
                    yield dict(s, clients=cl[:j] + [ops[:k] + [o2] + ops[k + 1:]] + cl[j + 1:])
                for o2 in self.simpler(o):
                    yield dict(s, clients=cl[:j] + [ops[:k] + [o2] + ops[k + 1:]] + cl[j + 1:])
        if s["sched"]["mode"] == "explicit":
            for sw in shrink_list(s["sched"]["switches"]):
                yield dict(s, sched={"mode": "explicit", "switches": sw})

    def simpler(self, op):
        return ()

    # subclass: start(s, sim) -> list of callables (one per client); finish(s) -> None (raise Violation)
    def run(self, s):
        root = os.path.realpath(tempfile.mkdtemp(prefix="run."))
        cwd = os.getcwd()
        os.chdir(root)
        try:
            return self._run(s)
        finally:
            os.chdir(cwd)
            shutil.rmtree(root, ignore_errors=True)

    def _run(self, s):
        self.stats = {}
        sim = core.Sim(s["sched"], preempt=self.preempt, step_cap=self.step_cap)
        self.sim = sim
        v = None
        try:
            fns = self.start(s, sim)
            for j, f in enumerate(fns):
                sim.spawn(f, "client%d" % j)
            self.monitor()
            try:
                sim.run()
            finally:
                core.MON.stop()
            for t in sim.threads:
                if isinstance(t.error, Violation):
                    v = v or t.error.v
                elif isinstance(t.error, core.StepCap):
                    v = v or {"kind": "no-progress", "detail": "%s did not finish in %d steps" % (t.name, self.step_cap)}
                elif isinstance(t.error, BaseException):
                    raise t.error
            v = v or sim.violation
            if v is None:
                self.finish(s)
        except Violation as e:
            v = v or e.v
        sim.log("end", v)
        st = dict(self.stats)
        st["steps"] = st.get("steps", 0) + sim.k
        st["switches"] = sim.switches
        st["ops"] = sum(len(c) for c in s["clients"])
        return {"violation": v, "digest": sim.digest(), "sig": sim.digest(), "stats": st,
                "nontrivial": self.nontrivial(s, sim), "tail": sim.tail, "made": sim.sched.made,
                "sample": {"clients": s["clients"], "switches": sim.switches, "steps": sim.k}}

    def monitor(self):
        core.MON.start()

    def nontrivial(self, s, sim):
        return sim.switches > 2 or any(k.startswith("fault_") for k in self.stats)

    def finish(self, s):
        pass

    def count(self_or, tier):
        return self_or.counts[tier]

    def bump(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def simulated_time(self, stats):
        return "no timers in this surface; %d simulated instruction steps, %d context switches" % (
            stats.get("steps", 0), stats.get("switches", 0))

    def call(self, fn, fault=None):
        """Run fn() of the code under test; returns (kind, value, fired).
        kind: 'ok', 'raised'; fired: where the injected fault hit, or None."""
        if not fault:
            try:
                return "ok", fn(), None
            except (core.SimStop, core.SimKill, core.StepCap):
                raise
            except BaseException as e:
                return "raised", e, None
        exc, mask = core.EXC[fault["exc"]]
        cf = core.CallFault(fault["k"], exc, mask)
        try:
            with cf:
                r = fn()
            out = ("ok", r)
        except (core.SimStop, core.SimKill, core.StepCap):
            raise
        except BaseException as e:
            out = ("raised", e)
        if cf.fired:
            self.bump("fault_" + fault["exc"])
            self.bump("fault_at_%s:%s" % (fault["exc"], cf.fired[0]))
            self.sim.log("FAULT", fault["exc"], cf.fired)
        return out[0], out[1], cf.fired
