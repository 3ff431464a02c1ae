"""Shared by the checks whose system is a set of processes on one disk."""
import copy
import os
import random
import shutil
import tempfile

from sim import proc
from sim.core import HarnessError
from sim.runner import BaseEngine, shrink_list

IO_KINDS = ["ENOSPC", "EIO", "EACCES", "EMFILE", "EDQUOT", "EROFS", "short"]


def gen_knobs(rng):
    return {
        "bufsize": rng.choice((0, 128, 512, 4096, 8192)),
        "wchunk": rng.choice((None, 64, 128, 500, 4096)),
        "rchunk": rng.choice((None, 128, 512, 4096)),
        "same_pid": rng.random() < 0.2,
        "skew": rng.choice((0, 0, -1e6, 1e6)),
        "clock_jump": rng.choice((0, 0, 0.05)),
    }


DEFAULT_KNOBS = {"bufsize": 8192, "wchunk": None, "rchunk": None, "same_pid": False, "skew": 0, "clock_jump": 0}


def gen_sched(rng):
    return {"mode": "seeded", "seed": rng.getrandbits(40), "pc": rng.choice((0.05, 0.2, 0.5, 0.9))}


class ProcEngine(BaseEngine):
    distinct_measure = "distinct event logs (every file-system call of every process, in order, with the faults that hit it)"

    def explicit(self, s, res):
        if "made" not in res:
            return None
        c = copy.deepcopy(s)
        for ph, made in zip(c["phases"], res["made"]):
            ph["sched"] = {"mode": "explicit", "switches": made}
        return c

    def shrink(self, s):
        ph = s["phases"]
        for c in shrink_list(ph):
            if c:
                yield dict(s, phases=c)
        for i, p in enumerate(ph):
            def w(newp, i=i):
                q = list(ph)
                q[i] = newp
                return dict(s, phases=q)

            for fs in shrink_list(p["faults"]):
                yield w(dict(p, faults=fs))
            if len(p["procs"]) > 1:
                for j in range(len(p["procs"])):
                    fs = []
                    for f in p["faults"]:
                        if f["proc"] == j:
                            continue
                        fs.append(dict(f, proc=f["proc"] - (f["proc"] > j)))
                    sc = p["sched"]
                    if sc["mode"] == "explicit":
                        sc = {"mode": "explicit", "switches": [
                            [k, t - (t > j)] for k, t in sc["switches"] if t != j]}
                    yield w({"procs": p["procs"][:j] + p["procs"][j + 1:], "faults": fs, "sched": sc})
            for j, pr in enumerate(p["procs"]):
                for k in range(len(pr)):
                    if len(pr) == 1:
                        continue
                    prs = list(p["procs"])
                    prs[j] = pr[:k] + pr[k + 1:]
                    fs = []
                    for f in p["faults"]:
                        if f["proc"] == j:
                            if f["op"] == k:
                                continue
                            f = dict(f, op=f["op"] - (f["op"] > k))
                        fs.append(f)
                    yield w(dict(p, procs=prs, faults=fs))
                for k, op in enumerate(pr):
                    for o2 in self.simpler(op):
                        prs = list(p["procs"])
                        prs[j] = pr[:k] + [o2] + pr[k + 1:]
                        yield w(dict(p, procs=prs))
            if p["sched"]["mode"] == "explicit":
                for sw in shrink_list(p["sched"]["switches"]):
                    yield w(dict(p, sched={"mode": "explicit", "switches": sw}))
        for k, v in DEFAULT_KNOBS.items():
            if s["knobs"].get(k) != v:
                yield dict(s, knobs=dict(s["knobs"], **{k: v}))

    def simpler(self, op):
        return ()

    def simulated_time(self, stats):
        return ("%d simulated file-system events across %d simulated processes; the simulated wall clock only "
                "advances when read (skew and jumps injected)" % (stats.get("events", 0), stats.get("spawned", 0)))

    # -- running -----------------------------------------------------------
    def proc_fn(self, ops, phase):
        def fn(agent):
            state = {}
            for op in ops:
                out = self.op(agent, state, op)
                agent.result({"op": op, "out": out})

        return fn

    def run(self, s):
        root = os.path.realpath(tempfile.mkdtemp(prefix="disk."))
        try:
            return self._run(s, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def _run(self, s, root):
        m = proc.Machine(root, s["knobs"], s["seed"])
        hist = []
        violation = None
        for i, ph in enumerate(s["phases"]):
            n0 = len(m.fired)
            pf0 = getattr(m, "npower", 0)
            m.last_power = None
            procs = m.run_phase([self.proc_fn(ops, i) for ops in ph["procs"]], ph["sched"], ph["faults"], step_cap=20000)
            rec = {"procs": procs, "ops": ph["procs"], "fired": m.fired[n0:], "power": m.last_power}
            hist.append(rec)
            for p in procs:
                if p["state"] == "crash":
                    if p.get("tb"):
                        raise HarnessError("simulated process failed outside an operation:\n%s" % p["tb"])
                    violation = {"kind": "process-died", "detail": "process %d of phase %d died without a fault" % (p["i"], i)}
                if p["state"] == "capped":
                    violation = {"kind": "no-progress",
                                 "detail": "process %d of phase %d still not done after 20000 file-system events" % (p["i"], i)}
                if p["state"] == "abandoned":
                    raise HarnessError("abandoned")
            if violation is None:
                violation = self.judge_phase(s, m, hist)
            if violation:
                break
        if violation is None:
            violation = self.judge_end(s, m, hist)
        m.log("end", sorted((p, len(m.disk.content.get(v[1], b""))) for p, v in m.disk.ns.items() if v[0] == "f"),
              violation)
        st = dict(m.stats)
        for rec in hist:
            for p in rec["procs"]:
                for r in p["results"]:
                    k = "op_%s_%s" % (r["op"]["op"], "ok" if r["out"].get("ok") else "raised")
                    st[k] = st.get(k, 0) + 1
        return {
            "violation": violation, "digest": m.digest(), "sig": m.digest(), "stats": st,
            "nontrivial": m.stats["events"] > 3 and (bool(m.fired) or m.stats["switches"] > 2),
            "tail": m.tail, "made": m.made,
            "sample": {"phases": s["phases"], "knobs": s["knobs"], "events": m.stats["events"], "fired": m.fired},
        }

    def judge_phase(self, s, m, hist):
        return None

    def judge_end(self, s, m, hist):
        return None


def describe(m, p, k):
    """Was operation k of process p hit by a fault?"""
    return k in p.get("faulted", [])
