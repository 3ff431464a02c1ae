"""Deterministic scheduler: real threads, one baton.

Exactly one simulated thread runs at any instant; which one is decided here,
at numbered yield points, either from a seeded PRNG (exploration) or from an
explicit list of switches (replay, minimisation).  Yield points are

  * every call / operator / attribute access / loop-back instruction of code under /repo (through
    sys.monitoring INSTRUCTION events), when `preempt` is on: these
    include the places where CPython hands the interpreter to another thread;
  * every simulated file-system operation, clock read and sleep (sim/fs.py).

The same instrumentation places injected MemoryError / KeyboardInterrupt at a
numbered call point of a chosen operation.
"""
import dis
import hashlib
import os
import random
import sys
import threading
import _thread

REPO = os.environ.get("QS_SIM_REPO", "/repo")
REPO_PKG = os.path.join(REPO, "quantum_systems") + os.sep

_current = threading.local()


class SimKill(BaseException):
    """The simulated process died at this point (SIGKILL or power loss)."""


class SimStop(BaseException):
    """The run is over (violation found, deadlock, step cap)."""


class HarnessError(Exception):
    pass


class StepCap(BaseException):
    pass


# --------------------------------------------------------------------------
# instruction tables
# --------------------------------------------------------------------------
_CALLS = {"CALL", "CALL_FUNCTION_EX"}
_OPS = {"BINARY_OP", "BINARY_SUBSCR", "STORE_SUBSCR"}
_ATTRS = {"LOAD_ATTR", "STORE_ATTR", "DELETE_ATTR"}
_STORES = {"STORE_ATTR", "DELETE_ATTR", "STORE_GLOBAL"}
PRE_CALL, POST_CALL, PRE_OP, POST_OP, LOOP, START, ATTR, STORED = 1, 2, 4, 8, 16, 32, 64, 128
SWITCH_MASK = PRE_CALL | POST_CALL | PRE_OP | POST_OP | LOOP | START | ATTR | STORED
MEM_MASK = PRE_CALL | PRE_OP
INT_MASK = PRE_CALL | POST_CALL | LOOP | START

_tables = {}


def _table(code):
    t = _tables.get(code)
    if t is None:
        t = {}
        prev = None
        line = code.co_firstlineno
        for ins in dis.get_instructions(code):
            if ins.starts_line is not None:
                line = ins.starts_line
            f = 0
            name = ins.opname
            if name in _CALLS:
                f |= PRE_CALL
            elif name in _OPS:
                f |= PRE_OP
            elif name in _ATTRS or prev in _STORES:
                f |= ATTR  # threads only: a shared attribute is about to be, or was just, accessed
            elif name == "JUMP_BACKWARD":
                f |= LOOP
            elif name == "RESUME":
                f |= START
            if prev in _CALLS:
                f |= POST_CALL
            elif prev in _OPS:
                f |= POST_OP
            if prev in _STORES or prev == "STORE_SUBSCR":
                f |= STORED
            t[ins.offset] = (f, line)
            prev = name
        _tables[code] = t
    return t


class Monitor:
    """Owns the sys.monitoring tool.  `hook(flags, where)` is called for every
    interesting instruction of repository code in a thread that has a hook."""

    TOOL = 4

    def __init__(self):
        self.on = False
        self.lines_only = False

    def start(self, lines_only=False):
        M = sys.monitoring
        self.lines_only = lines_only
        M.use_tool_id(self.TOOL, "qs-sim")
        M.register_callback(self.TOOL, M.events.PY_START, self._py_start)
        M.register_callback(self.TOOL, M.events.PY_RESUME, self._py_start)
        M.register_callback(self.TOOL, M.events.INSTRUCTION, self._ins)
        M.register_callback(self.TOOL, M.events.LINE, self._line)
        M.set_events(self.TOOL, M.events.PY_START | M.events.PY_RESUME)
        self.on = True

    def stop(self):
        if self.on:
            M = sys.monitoring
            M.set_events(self.TOOL, 0)
            M.free_tool_id(self.TOOL)
            self.on = False

    def _py_start(self, code, off):
        fn = code.co_filename
        if fn.startswith(REPO_PKG) or fn.startswith("<qs-sim"):
            M = sys.monitoring
            M.set_local_events(
                self.TOOL,
                code,
                M.events.LINE if self.lines_only else M.events.INSTRUCTION,
            )
        return sys.monitoring.DISABLE

    def _line(self, code, line):
        hook = getattr(_current, "hook", None)
        if hook is not None:
            hook(SWITCH_MASK, (code.co_name, line))

    def _ins(self, code, off):
        hook = getattr(_current, "hook", None)
        if hook is None:
            return
        e = _table(code).get(off)
        if e is None or not e[0]:
            return
        hook(e[0], (code.co_name, e[1]))


MON = Monitor()


class CallFault:
    """Context: raise `exc` at the k-th matching instruction of repository code
    executed by this thread inside the context (k counts from 0).  `k=None`
    only counts."""

    def __init__(self, k=None, exc=None, mask=MEM_MASK):
        self.k, self.exc, self.mask = k, exc, mask
        self.count = 0
        self.fired = None

    def _hook(self, flags, where):
        if self._old is not None:
            self._old(flags, where)  # preemption goes on inside a call that is to fail
        if flags & self.mask and sys.exception() is self._handled:  # not while the code cleans up after an earlier error
            i = self.count
            self.count += 1
            if self.fired is None and self.k is not None and i == self.k:
                self.fired = where
                raise self.exc("injected at %s:%d" % where)

    def __enter__(self):
        self._old = getattr(_current, "hook", None)
        self._handled = sys.exception()
        _current.hook = self._hook
        return self

    def __exit__(self, *a):
        _current.hook = self._old
        return False


EXC = {"MemoryError": (MemoryError, MEM_MASK), "KeyboardInterrupt": (KeyboardInterrupt, INT_MASK)}


# --------------------------------------------------------------------------
# scheduler
# --------------------------------------------------------------------------
class Schedule:
    """mode 'seeded': PRNG(seed) with switch probability p per fine point and
    pc per coarse point.  mode 'explicit': switches [[k, tid], ...]."""

    def __init__(self, spec):
        self.spec = spec
        self.made = []
        self.visits = {}
        if spec["mode"] == "seeded":
            self.rng = random.Random(spec["seed"])
        else:
            self.sw = {int(k): int(t) for k, t in spec["switches"]}

    def at_point(self, k, cur, runnable, coarse, stored=False, where=None):
        if self.spec["mode"] == "explicit":
            t = self.sw.get(k)
            if t is not None and t in runnable:
                self.made.append([k, t])
                return t
            return cur
        p = self.spec["pc"] if coarse else self.spec["p"]
        if k < self.spec.get("dense", 0):  # threads that start together go on in step for a while
            p = 0.5
        if "pr" in self.spec and not coarse:  # places a thread seldom comes through, whatever the loops around them do
            w = self.visits[cur, where] = self.visits.get((cur, where), 0) + 1
            if w <= 8:
                p = self.spec["pr"]
        if stored and "ps" in self.spec:  # right after something was stored
            p = self.spec["ps"]
        if self.rng.random() < p:
            t = self.rng.choice(runnable)
            if t != cur:
                self.made.append([k, t])
            return t
        return cur

    def forced(self, k, runnable):
        if self.spec["mode"] == "explicit":
            t = self.sw.get(k)
            if t is not None and t in runnable:
                self.made.append([k, t])
                return t
            return runnable[0]
        t = self.rng.choice(runnable)
        if t != runnable[0]:
            self.made.append([k, t])
        return t


class SimThread:
    def __init__(self, tid, fn, name, on_switch=None):
        self.tid, self.fn, self.name = tid, fn, name
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = "ready"  # ready, blocked, done
        self.wait_for = None
        self.error = None
        self.result = None
        self.on_switch = on_switch
        self.steps = 0


class Sim:
    def __init__(self, schedule, preempt=False, step_cap=200000):
        self.sched = schedule if isinstance(schedule, Schedule) else Schedule(schedule)
        self.threads = []
        self.preempt = preempt
        self.k = 0
        self.step_cap = step_cap
        self.now = 1.6e9
        self.h = hashlib.sha256()
        self.tail = []
        self.nlog = 0
        self.switches = 0
        self.stopping = None
        self.main_lock = _thread.allocate_lock()
        self.main_lock.acquire()
        self.violation = None

    # -- log ---------------------------------------------------------------
    def log(self, *ev):
        s = repr(ev)
        self.h.update(s.encode())
        self.nlog += 1
        self.tail.append(s)
        if len(self.tail) > 400:
            del self.tail[:200]

    def digest(self):
        return self.h.hexdigest()[:16]

    # -- threads -----------------------------------------------------------
    def spawn(self, fn, name, on_switch=None):
        t = SimThread(len(self.threads), fn, name, on_switch)
        self.threads.append(t)
        th = threading.Thread(target=self._main, args=(t,), daemon=True)
        t.thread = th
        return t

    def _main(self, t):
        t.lock.acquire()
        _current.sim = self
        _current.thread = t
        if t.on_switch:
            t.on_switch()
        if self.preempt:
            _current.hook = self._ins_hook
        try:
            if self.stopping is None:
                t.result = t.fn()
        except SimKill:
            t.error = "killed"
        except SimStop:
            pass
        except BaseException as e:  # harness code wraps operations itself
            t.error = e
        finally:
            _current.hook = None
            t.state = "done"
            self.log("done", t.tid)
            self._next(t)

    def current(self):
        return getattr(_current, "thread", None)

    def runnable(self):
        out = []
        for t in self.threads:
            if t.state == "ready":
                out.append(t.tid)
            elif t.state == "blocked" and t.wait_for():
                out.append(t.tid)
        return out

    def _give(self, tid):
        t = self.threads[tid]
        t.state = "ready"
        self.switches += 1
        t.lock.release()

    def _next(self, t):
        """Called by a thread that finished: pass the baton on."""
        r = self.runnable()
        if not r:
            if any(x.state == "blocked" for x in self.threads):
                self.violation = self.violation or {
                    "kind": "deadlock",
                    "detail": "all remaining threads blocked: %s"
                    % [x.name for x in self.threads if x.state == "blocked"],
                }
            self.main_lock.release()
            return
        self.k += 1
        self._give(self.sched.forced(self.k, r))

    def run(self):
        for t in self.threads:
            t.thread.start()
        r = self.runnable()
        if r:
            self.k += 1
            self._give(self.sched.forced(self.k, r))
            self.main_lock.acquire()
        blocked = [t for t in self.threads if t.state == "blocked"]
        if not blocked:
            for t in self.threads:
                t.thread.join()

    # -- points ------------------------------------------------------------
    def _ins_hook(self, flags, where):
        if flags & SWITCH_MASK:
            self.point("i", where, False, flags & STORED)

    def point(self, kind, info=None, coarse=True, stored=False):
        t = getattr(_current, "thread", None)
        if t is None or getattr(_current, "busy", False):
            return
        if self.stopping is not None:
            raise SimStop()
        self.k += 1
        t.steps += 1
        if coarse:
            self.log(self.k, t.tid, kind, info)
        if self.k > self.step_cap:
            raise StepCap("step cap %d" % self.step_cap)
        r = self.runnable()
        if len(r) > 1 or (len(r) == 1 and r[0] != t.tid):
            n = self.sched.at_point(self.k, t.tid, r, coarse, stored, info)
            if n != t.tid:
                self.log("sw", self.k, t.tid, n)
                self._switch(t, n)

    def _switch(self, t, n):
        hook, _current.hook = getattr(_current, "hook", None), None
        self._give(n)
        t.lock.acquire()
        if t.on_switch:
            t.on_switch()
        _current.hook = hook
        if self.stopping is not None:
            raise SimStop()

    def block(self, cond, what):
        """Park the current thread until cond() holds."""
        t = _current.thread
        while not cond():
            t.state, t.wait_for = "blocked", cond
            self.log("block", t.tid, what)
            r = self.runnable()
            if not r:
                t.state = "ready"
                self.violation = self.violation or {
                    "kind": "deadlock", "detail": "every thread is blocked; last on %s" % what}
                self.stopping = "deadlock"
                raise SimStop()
            self.k += 1
            n = self.sched.forced(self.k, r)
            hook, _current.hook = getattr(_current, "hook", None), None
            self._give(n)
            t.lock.acquire()
            if t.on_switch:
                t.on_switch()
            _current.hook = hook
            t.state = "ready"
            if self.stopping is not None:
                raise SimStop()


def cur_sim():
    return getattr(_current, "sim", None)


class no_preempt:
    """Harness code running on a simulated thread: no yield, no fault."""

    def __enter__(self):
        self.o = getattr(_current, "busy", False)
        self.h = getattr(_current, "hook", None)
        _current.busy = True
        _current.hook = None

    def __exit__(self, *a):
        _current.busy = self.o
        _current.hook = self.h
        return False


# --------------------------------------------------------------------------
# locks created by repository code become scheduler-aware
# --------------------------------------------------------------------------
_real_Lock, _real_RLock = threading.Lock, threading.RLock


class SimLock:
    def __init__(self, re=False):
        self.re, self.owner, self.n = re, None, 0

    def _me(self):
        t = getattr(_current, "thread", None)
        return t if t is not None else _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        sim = cur_sim()
        if sim is not None:
            sim.point("lock", None)
        if self.re and self.owner is me:
            self.n += 1
            return True
        if self.owner is not None:
            if not blocking or timeout >= 0:
                return False
            if sim is None:
                raise HarnessError("lock held outside simulation")
            sim.block(lambda: self.owner is None, "lock")
        self.owner, self.n = me, 1
        return True

    def release(self):
        self.n -= 1
        if self.n <= 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _from_repo(depth=2):
    f = sys._getframe(depth)
    return f.f_code.co_filename.startswith(REPO_PKG)


def install_locks():
    threading.Lock = lambda: SimLock() if _from_repo() else _real_Lock()
    threading.RLock = lambda: SimLock(True) if _from_repo() else _real_RLock()
