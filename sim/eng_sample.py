"""C06: samplers are driven exactly once per step, in order, whatever fails."""
import collections
import os
import shutil

import numpy as np

from sim import core
from sim.thread_engine import ThreadEngine, Violation, gen_tsched

CONTAINERS = ["list", "tuple", "set", "generator", "iter", "map", "deque", "dictvalues", "dictkeys", "frozenset",
              "ndarray", "custom", "onceonly"]
ORDERED = set(CONTAINERS) - {"set", "frozenset"}
STEPS = [0, 1, 2, 3, 3, -1, 0.5, 1e9, np.int64(4), np.float64(2.5), None, "last", (1, 2), float("nan"), 2j, True,
         np.arange(3)]


class Boom(Exception):
    pass


class BoomBase(KeyboardInterrupt):
    pass


class Once:
    def __init__(self, xs):
        self.xs, self.used = xs, False

    def __iter__(self):
        if self.used:
            return iter(())
        self.used = True
        return iter(self.xs)


class Again:
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(list(self.xs))

    def __len__(self):
        return len(self.xs)

    def __getitem__(self, i):
        return self.xs[i]


def wrap(kind, xs):
    if kind == "list":
        return list(xs)
    if kind == "tuple":
        return tuple(xs)
    if kind == "set":
        return set(xs)
    if kind == "frozenset":
        return frozenset(xs)
    if kind == "generator":
        return (x for x in xs)
    if kind == "iter":
        return iter(xs)
    if kind == "map":
        return map(lambda x: x, xs)
    if kind == "deque":
        return collections.deque(xs)
    if kind == "dictvalues":
        return {i: x for i, x in enumerate(xs)}.values()
    if kind == "dictkeys":
        return {x: i for i, x in enumerate(xs)}
    if kind == "ndarray":
        a = np.empty(len(xs), dtype=object)
        a[:] = xs
        return a
    if kind == "custom":
        return Again(xs)
    if kind == "onceonly":
        return Once(xs)


class SampleEngine(ThreadEngine):
    counts = {"quick": 6000, "thorough": 150000}
    walls = {"quick": 120, "thorough": 1200}
    rule = ("a run counts when a sampler failed, an interrupt was injected, or client threads were switched more than "
            "twice; two runs are the same if operations, outcomes, faults and switches coincide")
    real = ["quantum_systems.sampler.SampleCollector / Sampler", "numpy.save to a scratch directory"]
    stubs = ["the samplers themselves (instrumented subclasses of Sampler that record calls and fail on schedule)",
             "solver (an object with a .system attribute)"]
    assumptions = ["each collector is driven by one thread (several collectors run concurrently)",
                   "interrupts arrive where CPython delivers signals: at calls, returns and loop back edges of repository code"]

    def setup(self, tier):
        import quantum_systems.sampler as S

        self.S = S

    def generate(self, rng, i, tier):
        clients = []
        colls = []
        for j in range(rng.choice((1, 1, 2, 3))):
            n = rng.choice((0, 1, 2, 3, 4, 5)) if rng.random() < 0.95 else rng.choice((9, 17, 33))
            samplers = []
            for k in range(n):
                samplers.append({
                    "kind": rng.choice(("keep", "newdict", "drain", "draindict", "clash", "keep", "newdict", "drain", "only", "empty")),
                    "fail_sample": sorted(rng.sample(range(8), rng.choice((0, 0, 0, 1, 2)))),
                    "fail_dump": sorted(rng.sample(range(4), rng.choice((0, 0, 0, 1, 2)))),
                    "exc": rng.choice(("Boom", "Boom", "BoomBase", "StopIteration", "KeyError", "OSError", "AssertionError",
                                       "AttributeError", "ValueError", "TypeError", "RuntimeError", "GeneratorExit"))})
            colls.append({"container": rng.choice(CONTAINERS), "samplers": samplers})
            ops = []
            for _ in range(rng.randrange(3, 14)):
                x = rng.random()
                if x < 0.55:
                    o = {"op": "sample", "step": rng.randrange(10) if rng.random() < 0.85 else rng.randrange(len(STEPS))}
                elif x < 0.75:
                    o = {"op": "dump", "save": rng.random() < 0.4, "file": rng.choice((None, "out", "x.npy")),
                         "sub": rng.choice((None, None, "new", "new/deep")), "fresh": rng.random() < 0.3}
                elif x < 0.9:
                    o = {"op": "add", "key": rng.choice(("a", "b", "s0", "c")), "v": rng.randrange(100)}
                else:
                    o = {"op": "get"}
                if o["op"] == "sample" and rng.random() < 0.02:
                    o["rep"] = rng.choice((10, 40, 130, 300, 1100))
                elif o["op"] in ("sample", "dump") and rng.random() < 0.12:
                    o["fault"] = {"exc": "KeyboardInterrupt", "k": rng.randrange(0, 14)}
                ops.append(o)
            clients.append(ops)
        return {"colls": colls, "clients": clients, "sched": gen_tsched(rng)}

    def simpler(self, o):
        if o.get("rep", 1) > 1:
            yield {k: v for k, v in o.items() if k != "rep"}
            yield dict(o, rep=o["rep"] // 2)
            yield dict(o, rep=o["rep"] - 1)

    def shrink(self, s):
        for c in super().shrink(s):
            if len(c["clients"]) != len(s["clients"]):
                j = next((j for j in range(len(c["clients"])) if c["clients"][j] is not s["clients"][j]), len(c["clients"]))
                c = dict(c, colls=s["colls"][:j] + s["colls"][j + 1:])
            yield c
        for j, col in enumerate(s["colls"]):
            for k in range(len(col["samplers"])):
                c2 = dict(col, samplers=col["samplers"][:k] + col["samplers"][k + 1:])
                yield dict(s, colls=s["colls"][:j] + [c2] + s["colls"][j + 1:])
            if col["container"] != "list":
                yield dict(s, colls=s["colls"][:j] + [dict(col, container="list")] + s["colls"][j + 1:])

    def start(self, s, sim):
        S = self.S
        fns = []
        eng = self

        class Smp(S.Sampler):
            def __init__(self, idx, spec, log):
                class Solver:
                    system = object()

                super().__init__(Solver(), 10, np)
                self.idx, self.spec, self.log = idx, spec, log
                self.ns = self.nd = 0
                self.buf = []

            def __hash__(self):
                return (self.idx * 2654435761) % 1000003  # address-free, so that set order is repeatable

            def __eq__(self, other):
                return self is other

            def sample(self, step):
                with core.no_preempt():
                    self.log.append(("sample", self.idx, step))
                    n, self.ns = self.ns, self.ns + 1
                    if n in self.spec["fail_sample"]:
                        eng.bump("fault_sampler_raises")
                        self.raise_()
                    self.buf.append((self.idx, repr(step)))

            def raise_(self):
                import builtins

                cls = {"Boom": Boom, "BoomBase": BoomBase}.get(self.spec["exc"]) or getattr(builtins, self.spec["exc"])
                e = cls("sampler %d" % self.idx)
                self.log.append(("raise", self.idx, e))
                raise e

            def dump(self, samples):
                with core.no_preempt():
                    self.log.append(("dump", self.idx, samples, dict(samples)))
                    n, self.nd = self.nd, self.nd + 1
                    if n in self.spec["fail_dump"]:
                        eng.bump("fault_sampler_dump_raises")
                        self.raise_()
                    kind = self.spec["kind"]
                    key = "clash" if kind == "clash" else "s%d" % self.idx
                    out = dict(samples) if kind in ("newdict", "draindict") else samples
                    if kind in ("only", "empty"):  # takes over the dictionary: what it returns is what counts
                        out = {}
                        if kind == "only" or n % 2:
                            out[key] = list(self.buf)
                        self.log.append(("ret", self.idx, dict(out)))
                        return out
                    if kind in ("drain", "draindict"):
                        old = samples.get(key, [])
                        out[key] = (old if isinstance(old, list) else []) + self.buf
                        self.buf = []
                    else:
                        out[key] = list(self.buf)
                    self.log.append(("ret", self.idx, dict(out)))
                    return out

        for j, (col, ops) in enumerate(zip(s["colls"], s["clients"])):
            fns.append(self.client(s, sim, j, col, ops, Smp))
        return fns

    def client(self, s, sim, j, col, ops, Smp):
        S = self.S
        log = []
        smps = [Smp(k, sp, log) for k, sp in enumerate(col["samplers"])]
        os.makedirs("w%d" % j)

        def viol(kind, detail):
            raise Violation(kind, "client %d: %s" % (j, detail))

        def prefix_ok(calls, want, complete):
            if col["container"] in ORDERED:
                return calls == want if complete else calls == want[: len(calls)]
            if complete:
                return sorted(calls) == sorted(want)
            return len(set(calls)) == len(calls) and all(c in want for c in calls)

        def fn():
            with core.no_preempt():
                cont = wrap(col["container"], smps)
            kind, c, _ = self.call(lambda: S.SampleCollector(cont, np))
            if kind != "ok":
                viol("constructor", "SampleCollector raised %r" % c)
            held = {}  # everything known to be in the collector
            for n, o in ((n, o) for n, o in enumerate(ops) for _ in range(o.get("rep", 1))):
                log.clear()
                if o["op"] == "sample":
                    step = STEPS[o["step"]]
                    kind, r, fired = self.call(lambda: c.sample(step), o.get("fault"))
                    with core.no_preempt():
                        sim.log(j, n, "sample", kind, len(log))
                        calls = [(e[1], e[2]) for e in log if e[0] == "sample"]
                        if any(e[0] == "dump" for e in log):
                            viol("dump-in-sample", "step %d dumped a sampler" % n)
                        self.check(viol, log, kind, r, fired, n, "sample")
                        if not prefix_ok([k for k, _ in calls], list(range(len(smps))), kind == "ok"):
                            viol("sample-calls", "op %d sample(%r) with %d samplers in a %s called %s%s" % (
                                n, step, len(smps), col["container"], calls, "" if kind == "ok" else " before failing"))
                        if any(x is not step for _, x in calls):
                            viol("sample-step", "op %d: a sampler got another step than %r" % (n, step))
                elif o["op"] == "dump":
                    root = "w%d" % j
                    kw = {"path": os.path.join(root, o["sub"]) if o.get("sub") else root}
                    if o.get("sub") and o.get("fresh"):
                        kw["exist_ok"] = False  # the directory does not exist yet
                    if o["file"]:
                        kw["filename"] = o["file"]
                    if not o["save"]:
                        kw["save_samples"] = False
                    with core.no_preempt():
                        shutil.rmtree(root)
                        os.makedirs(root)
                    kind, r, fired = self.call(lambda: c.dump(**kw), o.get("fault"))
                    with core.no_preempt():
                        sim.log(j, n, "dump", kind, len(log))
                        self.check(viol, log, kind, r, fired, n, "dump")
                        calls = [e[1] for e in log if e[0] == "dump"]
                        if any(e[0] == "sample" for e in log):
                            viol("sample-in-dump", "dump %d sampled" % n)
                        ok = sorted(calls) == list(range(len(smps))) if col["container"] not in ORDERED else \
                            calls == list(range(len(smps)))
                        if kind == "ok" and not ok or kind != "ok" and (
                                calls != list(range(len(calls))) if col["container"] in ORDERED else len(set(calls)) != len(calls)):
                            viol("dump-calls", "op %d dump asked samplers %s of %d" % (n, calls, len(smps)))
                        last = held
                        for e in log:
                            if e[0] == "dump":
                                miss = {k for k in last if k not in e[3] or not self.eq(e[3][k], last[k])} | (set(e[3]) - set(last))
                                if miss:
                                    viol("dump-chain", "op %d: sampler %d was handed another dictionary than the one before it returned (%s)" % (n, e[1], sorted(miss)))
                            if e[0] == "ret":
                                last = dict(e[2])
                        if kind == "ok":
                            if not isinstance(r, dict) or not self.eqd(r, last):
                                viol("dump-result", "op %d dump returned %s, samplers left %s" % (n, r, last))
                            held = last
                        elif not fired:
                            held = last
                        if not o["save"] and os.listdir(root):
                            files = [os.path.join(d, f) for d, ds, fs in os.walk(root) for f in ds + fs]
                            viol("wrote-unasked", "op %d dump with saving disabled wrote %s" % (n, files))
                        if o["save"] and kind == "ok":
                            files = sorted(os.listdir(kw["path"])) if os.path.isdir(kw["path"]) else []
                            vis = [f for f in files if not f.startswith(".")]
                            try:
                                d = np.load(os.path.join(kw["path"], vis[0]), allow_pickle=True).item() if len(vis) == 1 else None
                            except Exception as e:
                                d = repr(e)
                            if not isinstance(d, dict) or not self.eqd(d, last):
                                viol("dump-file", "op %d: files %s do not hold the returned samples" % (n, files))
                        g = c.get_samples()
                        miss = {k for k in held if k not in g or not self.eq(g[k], held[k])} if kind == "ok" or not fired else {
                            k for k in held if k not in g and all(k in e[2] for e in log if e[0] == "ret")}
                        if miss:
                            viol("samples-lost", "op %d: after the %s dump the collector lacks %s" % (
                                n, "completed" if kind == "ok" else "failed", sorted(miss)))
                        if fired:
                            held = dict(g)
                elif o["op"] == "add":
                    kind, r, _ = self.call(lambda: c.add_sample(o["key"], o["v"]))
                    if kind != "ok":
                        viol("add-failed", "op %d add_sample raised %r" % (n, r))
                    held = dict(held)
                    held[o["key"]] = o["v"]
                    if log:
                        viol("add-calls", "add_sample called samplers")
                kind, g, _ = self.call(lambda: c.get_samples())
                with core.no_preempt():
                    if kind != "ok" or not isinstance(g, dict):
                        viol("get-failed", "get_samples gave %r" % (g,))
                    bad = {k for k in held if k not in g or not self.eq(g[k], held[k])}
                    extra = set(g) - set(held)
                    if bad or extra:
                        viol("samples-wrong", "op %d (%s): collector lacks/alters %s, has unexpected %s" % (
                            n, o["op"], sorted(bad), sorted(extra)))

        return fn

    @staticmethod
    def eq(a, b):
        return a is b or (type(a) is type(b) and a == b)

    def eqd(self, a, b):
        return set(a) == set(b) and all(self.eq(a[k], b[k]) for k in a)

    def check(self, viol, log, kind, r, fired, n, what):
        raised = [e[2] for e in log if e[0] == "raise"]
        if raised:
            if kind == "ok":
                viol("error-swallowed", "op %d %s returned although a sampler raised %r" % (n, what, raised[0]))
            if not fired and r is not raised[0]:
                viol("error-replaced", "op %d %s raised %r instead of the sampler's %r" % (n, what, r, raised[0]))
            i = next(i for i, e in enumerate(log) if e[0] == "raise")
            if any(e[0] in ("sample", "dump") for e in log[i + 1:]):
                viol("not-stopped", "op %d %s went on calling samplers after one raised" % (n, what))
        elif kind != "ok" and not fired:
            viol("raised", "op %d %s raised %r although no sampler failed" % (n, what, r))


def engine(pid):
    return SampleEngine(pid)
