"""Drives seeded batches of simulated runs for one property.

check.sh re-executes this under the repository's interpreter with a controlled
environment.  The process started here is the zygote: it imports the
repository from /repo's working tree and warms the compiler; every simulated
run happens in a fork of it, so each run starts from the same pristine state
and is a pure function of (scenario, code).
"""
import hashlib
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = time.monotonic()
_mono = time.monotonic

ENGINES = {
    "C01": "eng_cache", "C02": "eng_cache", "C03": "eng_cache", "C04": "eng_cache",
    "C05": "eng_dump", "C06": "eng_sample",
    "C07": "eng_object", "C08": "eng_object", "C09": "eng_object",
    "C10": "eng_threads", "C11": "eng_timedep",
    "C12": "eng_prange", "C13": "eng_construct", "C14": "eng_random", "C15": "eng_scf",
}


def load_engine(pid):
    mod = importlib.import_module("sim." + ENGINES[pid])
    return mod.engine(pid)


def scenario_seed(seed, i):
    return int.from_bytes(hashlib.sha256(("%d/%d" % (seed, i)).encode()).digest()[:8], "little")


def start_coverage():
    """With QS_SIM_COV=<dir>, record which repository lines the run executed."""
    if not os.environ.get("QS_SIM_COV"):
        return None
    mon, hit = sys.monitoring, set()

    def line(code, no):
        if code.co_filename.startswith(REPO):
            hit.add("%s:%d" % (code.co_filename[len(REPO):], no))
        return mon.DISABLE

    mon.use_tool_id(mon.COVERAGE_ID, "qs-sim")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    return hit


def save_coverage(hit):
    if hit is not None:
        with open(os.path.join(os.environ["QS_SIM_COV"], "%d" % os.getpid()), "w") as f:
            f.write("\n".join(sorted(hit)))


def forked(fn, timeout):
    """Run fn() in a fork; returns ('ok', value) | ('err', text) | ('timeout', None)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            os.setpgid(0, 0)
            cov = start_coverage()
            try:
                out = ["ok", fn()]
            except BaseException:
                out = ["err", traceback.format_exc()[-4000:]]
            save_coverage(cov)
            b = json.dumps(out, default=str).encode()
            while b:
                n = os.write(w, b)
                b = b[n:]
        except BaseException:
            code = 71
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    end = _mono() + timeout
    status = None
    try:
        while True:
            left = end - _mono()
            if left <= 0:
                status = ["timeout", None]
                break
            rl, _, _ = select.select([r], [], [], left)
            if not rl:
                status = ["timeout", None]
                break
            c = os.read(r, 1 << 16)
            if not c:
                break
            buf += c
    finally:
        os.close(r)
        if status is not None:
            try:
                os.killpg(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(pid, 0)
    if status is not None:
        return status
    if not buf:
        return ["err", "run process died without a result"]
    return json.loads(buf)


REPO = os.path.realpath(os.environ.get("QS_SIM_REPO", "/repo")) + os.sep


def execute(eng, s):
    """One run.  A run that never ends, or ends with an error that came out of
    repository code, twice in a row, is the code's doing and judged as such;
    anything else that keeps a run from finishing is the harness's."""
    st, res = forked(lambda: eng.run(s), eng.timeout)
    if st == "ok":
        return st, res
    if st == "err" and not ('File "%s' % REPO in res and "HarnessError" not in res):
        return st, res
    st2, res2 = forked(lambda: eng.run(s), 2 * eng.timeout)
    if st2 == "ok":
        return st2, res2
    if st2 != st:
        return st2, res2
    if st == "timeout":
        v = {"kind": "hang", "detail": "the run did not come to an end within %d s (twice)" % eng.timeout}
    else:
        v = {"kind": "unexpected-error", "detail": "repository code raised where it must not: "
             + res2.strip().splitlines()[-1][:300]}
    return "ok", {"violation": v, "digest": v["kind"], "stats": {}, "tail": [] if st == "timeout" else res2.splitlines()[-30:]}


class Acc:
    def __init__(self):
        self.runs = 0
        self.stats = {}
        self.sigs = set()
        self.samples = []
        self.errors = []
        self.viol = []
        self.redo = 0
        self.redo_diff = 0
        self.digests = {}

    def add(self, res, i):
        self.runs += 1
        if os.environ.get("QS_SIM_DIGESTS"):
            self.digests[str(i)] = res.get("digest")
        for k, v in res.get("stats", {}).items():
            self.stats[k] = self.stats.get(k, 0) + v
        if res.get("nontrivial", True):
            self.sigs.add(res.get("sig") or res.get("digest"))
        if len(self.samples) < 2 and res.get("sample") is not None and res.get("nontrivial", True):
            self.samples.append(res["sample"])
        if res.get("violation"):
            self.viol.append((i, res))

    def dump(self):
        d = dict(self.__dict__)
        d["sigs"] = sorted(self.sigs)
        return d

    def merge(self, d):
        self.runs += d["runs"]
        self.redo += d["redo"]
        self.redo_diff += d["redo_diff"]
        for k, v in d["stats"].items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.sigs.update(d["sigs"])
        self.digests.update(d["digests"])
        self.samples += d["samples"]
        self.errors += d["errors"]
        self.viol += [tuple(x) for x in d["viol"]]


def worker(eng, seed, tier, start, step, count, deadline, wfd):
    acc = Acc()
    try:
        for i in range(start, count, step):
            if _mono() > deadline:
                break
            s = eng.generate(random.Random(scenario_seed(seed, i)), i, tier)
            st, res = execute(eng, s)
            if st != "ok":
                acc.errors.append([i, st, res])
                if len(acc.errors) >= 3:
                    break
                continue
            acc.add(res, i)
            if res.get("violation") and not res["violation"].get("later"):
                break
            if i % eng.redo_every == 0:
                st2, res2 = forked(lambda: eng.run(s), eng.timeout)
                acc.redo += 1
                if st2 != "ok" or res2.get("digest") != res.get("digest"):
                    acc.redo_diff += 1
    except BaseException:
        acc.errors.append([-1, "worker", traceback.format_exc()[-3000:]])
    b = json.dumps(acc.dump(), default=str).encode()
    while b:
        n = os.write(wfd, b)
        b = b[n:]


def explore(eng, seed, tier, count, wall, nworkers):
    deadline = _mono() + wall
    procs = []
    for w in range(nworkers):
        r, wf = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                worker(eng, seed, tier, w, nworkers, count, deadline, wf)
            finally:
                os._exit(0)
        os.close(wf)
        procs.append((pid, r))
    total = Acc()
    for pid, r in procs:
        buf = b""
        while True:
            c = os.read(r, 1 << 20)
            if not c:
                break
            buf += c
        os.close(r)
        os.waitpid(pid, 0)
        if not buf:
            total.errors.append([-1, "worker", "worker died"])
        else:
            total.merge(json.loads(buf))
    return total


def same_violation(a, b):
    return bool(b) and a["kind"] == b["kind"]


def minimise(eng, scenario, res, budget):
    """Greedy: keep any smaller scenario that fails with the same violation kind."""
    best, bres = scenario, res
    end = _mono() + budget
    tries = 0
    ex = eng.explicit(best, bres)
    if ex is not None:
        st, r = forked(lambda: eng.run(ex), eng.timeout)
        if st == "ok" and same_violation(res["violation"], r.get("violation")):
            best, bres = ex, r
    progress = True
    while progress and _mono() < end:
        progress = False
        for cand in eng.shrink(best):
            if _mono() > end:
                break
            tries += 1
            st, r = forked(lambda: eng.run(cand), eng.timeout)
            if st == "ok" and same_violation(res["violation"], r.get("violation")):
                best, bres = cand, r
                progress = True
                break
    return best, bres, tries


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)).get("findings", [])]


def known_match(pid, v, known):
    for e in known:
        if e.get("property") == pid and e.get("kind") == v["kind"] and e.get("match", "") in v.get("detail", ""):
            return e
    return None


def write_evidence(eng, pid, tier, seed, acc, wall, nviol, extra=None):
    faults = {k[6:]: v for k, v in sorted(acc.stats.items()) if k.startswith("fault_") and ":" not in k}
    faults_at = {k[9:]: v for k, v in sorted(acc.stats.items()) if k.startswith("fault_at_")}
    other = {k: v for k, v in sorted(acc.stats.items()) if not k.startswith("fault_")}
    cov = {
        "evaluations": acc.runs,
        "distinct_nontrivial": len(acc.sigs),
        "rule": eng.rule,
        "samples": acc.samples[:3],
        "simulated_runs": acc.runs,
        "runs_per_hour": round(acc.runs / max(wall, 1e-9) * 3600),
        "seeds": "VERIF_SEED=%d, runs 0..%d, run i seeded with sha256(seed/i)" % (seed, acc.runs),
        "faults_injected": faults,
        "faults_by_site": faults_at,
        "counters": other,
        "distinct_measure": eng.distinct_measure,
        "simulated_time": eng.simulated_time(acc.stats),
        "components_real": eng.real,
        "components_stubbed": eng.stubs,
        "determinism_rerun": {"runs_repeated": acc.redo, "log_digests_differing": acc.redo_diff},
    }
    if extra:
        cov.update(extra)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov, "assumptions": eng.assumptions, "wall_s": round(wall, 2), "violations": nviol,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, "." + pid + ".tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, pid + ".json"))


def main(argv):
    pid = argv[0]
    replay = None
    count = None
    noconfirm = False
    i = 1
    while i < len(argv):
        if argv[i] == "--replay":
            replay = argv[i + 1]; i += 2
        elif argv[i] == "--count":
            count = int(argv[i + 1]); i += 2
        elif argv[i] == "--no-confirm":
            noconfirm = True; i += 1
        else:
            print("unknown argument", argv[i]); return 2
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    nw = int(os.environ.get("QS_SIM_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))
    if replay:
        replay = os.path.join(os.environ.get("QS_SIM_CWD", ""), replay)
        rp = json.load(open(replay))
        seed, tier = rp.get("seed", seed), rp.get("tier", tier)
        os.environ["VERIF_SEED"] = str(seed)
    eng = load_engine(pid)
    eng.setup(tier)
    print("%s tier=%s seed=%d workers=%d setup=%.1fs" % (pid, tier, seed, nw, _mono() - T0), flush=True)

    if replay:
        st, r = execute(eng, rp["scenario"])
        if st != "ok":
            print("replay did not run:", st, r)
            return 2
        v = r.get("violation")
        if v:
            same = r.get("digest") == rp.get("digest") and v["kind"] == rp["violation"]["kind"]
            print("reproduced%s: %s: %s" % (" exactly" if same else " (different trace)", v["kind"], v["detail"]))
            for l in r.get("tail", [])[-60:]:
                print("   ", l)
            print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(replay)))
            return 1
        print("replay passes: no violation")
        return 0

    n = count if count is not None else eng.count(tier)
    t1 = _mono()
    acc = explore(eng, seed, tier, n, eng.wall(tier), nw)
    wall = _mono() - t1
    known = load_known()
    viols = sorted(acc.viol, key=lambda x: (bool(x[1]["violation"].get("later")), x[0]))
    fresh = [x for x in viols if known_match(pid, x[1]["violation"], known) is None]
    seen = set()
    for _, r in viols:
        e = known_match(pid, r["violation"], known)
        if e is not None and e["what"] not in seen:
            seen.add(e["what"])
            print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    write_evidence(eng, pid, tier, seed, acc, wall, len(fresh))
    print("%d runs, %d distinct, %.1fs, faults %s" % (
        acc.runs, len(acc.sigs), wall,
        {k[6:]: v for k, v in sorted(acc.stats.items()) if k.startswith("fault_") and ":" not in k}))
    if os.environ.get("QS_SIM_DIGESTS"):
        print("digests %d %s" % (len(acc.digests), hashlib.sha256(repr(sorted(acc.digests.items())).encode()).hexdigest()[:16]))
    if os.environ.get("QS_SIM_VERBOSE"):
        print(json.dumps(acc.stats, indent=1, sort_keys=True))
    if acc.redo_diff:
        print("note: %d of %d repeated runs differed in their event log" % (acc.redo_diff, acc.redo))
    if fresh:
        i, r = fresh[0]
        s = eng.generate(random.Random(scenario_seed(seed, i)), i, tier)
        if r["violation"]["kind"] in ("hang", "unexpected-error"):
            best, bres, tries = s, r, 0
        else:
            best, bres, tries = minimise(eng, s, r, 15 if tier == "quick" else 120)
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-seed%d-run%d.json" % (pid, seed, i))
        json.dump({"property": pid, "seed": seed, "tier": tier, "run": i, "violation": bres["violation"],
                   "digest": bres.get("digest"), "scenario": best, "trace": bres.get("tail", [])[-200:],
                   "original_violation": r["violation"], "minimiser_tries": tries},
                  open(path, "w"), indent=1, default=str)
        print("run %d: %s: %s" % (i, r["violation"]["kind"], r["violation"]["detail"]))
        print("minimised (%d tries): %s" % (tries, bres["violation"]["detail"]))
        if not noconfirm and r["violation"]["kind"] != "hang":
            p = subprocess.run(["bash", os.path.join(VERIF, "check.sh"), pid, "--replay", path],
                               capture_output=True, text=True)
            print("replay in a fresh process: exit %d (%s)" % (
                p.returncode, "exact" if "reproduced exactly" in p.stdout else p.stdout.strip()[-300:]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if acc.errors:
        print("harness errors:", len(acc.errors))
        for e in acc.errors[:3]:
            print(e[0], e[1], e[2])
        return 2
    if acc.runs == 0:
        print("nothing was explored")
        return 2
    return 0


class BaseEngine:
    timeout = 60
    redo_every = 40
    rule = ""
    distinct_measure = ""
    real = []
    stubs = []
    assumptions = []
    counts = {"quick": 400, "thorough": 20000}
    walls = {"quick": 150, "thorough": 1500}

    def __init__(self, pid):
        self.id = pid

    def setup(self, tier):
        pass

    def count(self, tier):
        return self.counts[tier]

    def wall(self, tier):
        return self.walls[tier]

    def explicit(self, scenario, res):
        return None

    def shrink(self, scenario):
        return iter(())

    def simulated_time(self, stats):
        return "no timers in this surface; %d simulated steps" % stats.get("events", stats.get("steps", 0))


def shrink_list(xs):
    """Candidates with parts removed, big chunks first."""
    n = len(xs)
    size = n
    while size >= 1:
        for a in range(0, n, size):
            yield xs[:a] + xs[a + size:]
        size //= 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
