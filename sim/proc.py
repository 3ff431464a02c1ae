"""Simulated machine: several real (forked) processes on one simulated disk.

Each process is forked from a pristine interpreter that has the repository
imported, so module state is not shared between simulated processes.  Inside a
process every file-system call that touches the scratch directory is
intercepted (`Agent`); before executing it the process reports to the
coordinator (`Machine`) and stays parked until it is released, told to fail
the call with an errno, or killed with SIGKILL.  Only one process is released
at a time, so the coordinator decides every interleaving.

The disk: live content is the real content of the scratch directory (the "page
cache"); the coordinator keeps, per inode, the content made durable by fsync
and, per boot, the journal of name-space states.  A power loss kills every
process and rewrites the directory from a possible post-crash state: a prefix
of the name-space journal, and for every inode with unsynced changes the old
content, the new content, a torn prefix, zero-filled blocks or a block mix.
"""
import builtins
import errno
import fcntl
import hashlib
import io
import json
import os
import random
import shutil
import signal
import stat as _stat
import struct
import sys
import tempfile
import time

_o = {
    n: getattr(os, n)
    for n in (
        "open close read write fsync fdatasync replace rename remove unlink link "
        "mkdir rmdir stat lstat access listdir scandir truncate ftruncate getpid urandom "
        "chmod utime symlink"
    ).split()
}
_real_open = io.open
_real_flock, _real_lockf = fcntl.flock, fcntl.lockf
_real_time = {n: getattr(time, n) for n in
              ("time", "monotonic", "perf_counter", "sleep", "time_ns", "process_time")}


def _send(fd, obj):
    b = json.dumps(obj).encode()
    b = struct.pack("<I", len(b)) + b
    while b:
        n = _o["write"](fd, b)
        b = b[n:]


def _recv(fd):
    def rd(n):
        out = b""
        while len(out) < n:
            c = _o["read"](fd, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out

    (n,) = struct.unpack("<I", rd(4))
    return json.loads(rd(n))


# --------------------------------------------------------------------------
# inside a simulated process
# --------------------------------------------------------------------------
class Agent:
    def __init__(self, rfd, wfd, root, knobs, pid, seed):
        self.rfd, self.wfd = rfd, wfd
        self.root = os.path.realpath(root)
        self.knobs = knobs
        self.pid = pid
        self.fds = {}
        self.rng = random.Random(seed)
        self.clock = 1.6e9 + knobs.get("skew", 0)
        self.active = True

    # -- protocol ----------------------------------------------------------
    def ask(self, kind, path=None, **kw):
        if not self.active:
            return None
        self.active = False  # nothing in here is itself an event
        try:
            _send(self.wfd, {"t": "ev", "kind": kind,
                             "path": None if path is None else os.path.relpath(path, self.root), **kw})
            r = _recv(self.rfd)
        finally:
            self.active = True
        f = r.get("fault")
        if f and f.get("errno"):
            raise OSError(getattr(errno, f["errno"]), os.strerror(getattr(errno, f["errno"])) + " [injected]", path)
        return f

    def result(self, obj):
        _send(self.wfd, dict(obj, t="res"))
        _recv(self.rfd)

    # -- helpers -----------------------------------------------------------
    def inside(self, p):
        """Absolute path inside the simulated disk, or None."""
        if not self.active:
            return None
        if isinstance(p, int):
            return self.fds.get(p)
        try:
            p = os.fspath(p)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        if p == self.root or p.startswith(self.root + os.sep):
            return p
        return None

    def install(self):
        A = self

        def wrap1(name, kind):
            real = _o[name]

            def f(path, *a, **k):
                p = A.inside(path)
                if p is not None:
                    A.ask(kind, p)
                return real(path, *a, **k)

            f.__name__ = name
            setattr(os, name, f)

        for n, k in (("remove", "unlink"), ("unlink", "unlink"), ("mkdir", "mkdir"), ("rmdir", "rmdir"),
                     ("access", "stat"), ("truncate", "truncate"), ("chmod", "meta"), ("utime", "meta")):
            wrap1(n, k)

        def wrap2(name, kind):
            real = _o[name]

            def f(src, dst, *a, **k):
                p, q = A.inside(src), A.inside(dst)
                if p is not None or q is not None:
                    A.ask(kind, q or p, src=os.path.relpath(p, A.root) if p else None)
                return real(src, dst, *a, **k)

            f.__name__ = name
            setattr(os, name, f)

        for n, k in (("replace", "rename"), ("rename", "rename"), ("link", "link"), ("symlink", "link")):
            wrap2(n, k)

        def stat(path, *a, **k):
            p = A.inside(path)
            if p is not None:
                A.ask("stat", p)
            return _o["stat"](path, *a, **k)

        def lstat(path, *a, **k):
            p = A.inside(path)
            if p is not None:
                A.ask("stat", p)
            return _o["lstat"](path, *a, **k)

        os.stat, os.lstat = stat, lstat

        def listdir(path="."):
            p = A.inside(path)
            if p is not None:
                A.ask("list", p)
            return sorted(_o["listdir"](path))

        os.listdir = listdir

        def scandir(path="."):
            p = A.inside(path)
            if p is not None:
                A.ask("list", p)
            return _o["scandir"](path)

        os.scandir = scandir

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            p = A.inside(path)
            if p is None:
                return _o["open"](path, flags, mode, dir_fd=dir_fd)
            w = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
            A.ask("create" if w else "open", p)
            fd = _o["open"](path, flags, mode)
            A.fds[fd] = p
            return fd

        os.open = os_open

        def os_close(fd):
            p = A.fds.pop(fd, None)
            if p is not None:
                try:
                    A.ask("close", p)
                finally:
                    _o["close"](fd)
                return
            _o["close"](fd)

        os.close = os_close

        def os_write(fd, data):
            p = A.fds.get(fd)
            if p is None:
                return _o["write"](fd, data)
            return A.raw_write(fd, p, bytes(data), loop=False)

        os.write = os_write

        def os_read(fd, n):
            p = A.fds.get(fd)
            if p is not None:
                A.ask("read", p, n=n)
            return _o["read"](fd, n)

        os.read = os_read

        def mk_sync(name):
            def f(fd):
                k = fd if isinstance(fd, int) else fd.fileno()
                p = A.fds.get(k)
                if p is None:
                    return _o[name](fd)
                A.ask("fsync", p, ino=os.fstat(k).st_ino)  # durability is the coordinator's business

            return f

        os.fsync, os.fdatasync = mk_sync("fsync"), mk_sync("fdatasync")

        def os_ftruncate(fd, n):
            p = A.fds.get(fd)
            if p is not None:
                A.ask("truncate", p)
            return _o["ftruncate"](fd, n)

        os.ftruncate = os_ftruncate

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
                     closefd=True, opener=None):
            p = A.inside(file)
            if p is None:
                return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            return A.open(file, p, mode, buffering, encoding, errors, newline, opener)

        builtins.open = sim_open
        io.open = sim_open

        def flock(fd, op):
            k = fd if isinstance(fd, int) else fd.fileno()
            p = A.fds.get(k)
            if p is None:
                return _real_flock(fd, op)
            if op & fcntl.LOCK_UN:
                A.ask("lock", p)
                return _real_flock(k, op)
            while True:
                A.ask("lock", p)
                try:
                    return _real_flock(k, op | fcntl.LOCK_NB)
                except BlockingIOError:
                    if op & fcntl.LOCK_NB:
                        raise
                    A.ask("spin", p)

        fcntl.flock = flock

        def lockf(fd, cmd, *a):
            k = fd if isinstance(fd, int) else fd.fileno()
            p = A.fds.get(k)
            if p is None:
                return _real_lockf(fd, cmd, *a)
            while True:
                A.ask("lock", p)
                try:
                    if cmd & fcntl.LOCK_UN:
                        return _real_lockf(k, cmd, *a)
                    return _real_lockf(k, cmd | fcntl.LOCK_NB, *a)
                except (BlockingIOError, PermissionError):
                    if cmd & fcntl.LOCK_NB:
                        raise
                    A.ask("spin", p)

        fcntl.lockf = lockf

        # identity, randomness, clock
        os.getpid = lambda: A.pid
        urng = random.Random(self.rng.random())
        os.urandom = lambda n: urng.randbytes(n)
        random._urandom = os.urandom
        random.seed(self.rng.random())

        class Names:
            def __iter__(self):
                return self

            def __next__(self):
                return "".join(urng.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8))

        tempfile._name_sequence = Names()

        def now():
            A.clock += A.rng.choice((0.0, 1e-6, 1e-3, 1.0))
            if A.rng.random() < A.knobs.get("clock_jump", 0):
                A.clock += A.rng.choice((-86400.0, -3600.0, -1.0, 3600.0, 86400.0 * 365))
                A.jumps = getattr(A, "jumps", 0) + 1
            return A.clock

        time.time = now
        time.time_ns = lambda: int(now() * 1e9)
        time.perf_counter = time.monotonic = lambda: abs(now())

        def sleep(s):
            A.clock += max(0.0, s)
            A.ask("spin", None)

        time.sleep = sleep

    # -- files -------------------------------------------------------------
    def raw_write(self, fd, path, data, loop=True):
        """write(2) in pieces; every piece is an event."""
        done = 0
        step = self.knobs.get("wchunk") or len(data) or 1
        while True:
            piece = data[done:done + step]
            f = self.ask_write(fd, path, piece)
            n = f if f is not None else len(piece)
            if n:
                _o["write"](fd, piece[:n])
            done += n
            if done >= len(data) or not loop:
                return done

    def ask_write(self, fd, path, piece):
        """Returns None (write it all), or the short count; raises on error
        after the partial write the fault asks for."""
        _send(self.wfd, {"t": "ev", "kind": "write", "path": os.path.relpath(path, self.root), "n": len(piece)})
        r = _recv(self.rfd)
        f = r.get("fault")
        if not f:
            return None
        part = int(len(piece) * f.get("frac", 0))
        if f.get("errno"):
            if part:
                _o["write"](fd, piece[:part])
            e = getattr(errno, f["errno"])
            raise OSError(e, os.strerror(e) + " [injected]", path)
        if f.get("kind") == "short":
            return max(1, part) if piece else 0
        return None

    def open(self, file, path, mode, buffering, encoding, errors, newline, opener):
        binary = "b" in mode
        upd = "+" in mode
        base = mode.replace("b", "").replace("t", "").replace("+", "") or "r"
        if base not in ("r", "w", "a", "x"):
            raise ValueError("invalid mode: %r" % mode)
        fl = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
              "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
              "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}[base]
        if upd:
            fl = (fl & ~(os.O_WRONLY | os.O_RDONLY)) | os.O_RDWR
        if isinstance(file, int):
            fd = file
        elif opener is not None:
            fd = opener(path, fl | os.O_CLOEXEC)
            self.fds[fd] = path
        else:
            self.ask("create" if base != "r" or upd else "open", path)
            fd = _o["open"](path, fl | os.O_CLOEXEC, 0o666)
            if _stat.S_ISDIR(os.fstat(fd).st_mode):
                _o["close"](fd)
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
            self.fds[fd] = path
        raw = SimFile(self, fd, path, mode, readable=(base == "r" or upd), writable=(base != "r" or upd),
                      bufsize=0 if buffering == 0 else self.knobs.get("bufsize", 8192))
        if binary:
            return raw
        return io.TextIOWrapper(raw, encoding=encoding, errors=errors, newline=newline)


class SimFile(io.BufferedIOBase):
    def __init__(self, agent, fd, path, mode, readable, writable, bufsize):
        self._a, self._fd, self._p = agent, fd, path
        self._r, self._w, self._bs = readable, writable, bufsize
        self._buf = bytearray()
        self.mode, self.name = mode, path

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def write(self, b):
        self._chk()
        if not self._w:
            raise io.UnsupportedOperation("write")
        b = bytes(memoryview(b).cast("B")) if not isinstance(b, (bytes, bytearray)) else bytes(b)
        self._buf += b
        if len(self._buf) > self._bs:
            self.flush()
        return len(b)

    def flush(self):
        self._chk()
        if self._buf:
            data = bytes(self._buf)
            self._buf = bytearray()
            self._a.raw_write(self._fd, self._p, data)

    def close(self):
        if self.closed:
            return
        try:
            self.flush()
        finally:
            try:
                self._a.fds.pop(self._fd, None)
                err = None
                try:
                    self._a.ask("close", self._p)
                except OSError as e:
                    err = e
                _o["close"](self._fd)
                if err is not None:
                    raise err
            finally:
                self._buf = bytearray()
                super().close()

    def read(self, n=-1):
        self._chk()
        if not self._r:
            raise io.UnsupportedOperation("read")
        self.flush()
        out = b""
        step = self._a.knobs.get("rchunk") or (1 << 20)
        while n is None or n < 0 or len(out) < n:
            want = step if n is None or n < 0 else min(step, n - len(out))
            self._a.ask("read", self._p, n=want)
            c = _o["read"](self._fd, want)
            if not c:
                break
            out += c
        return out

    read1 = read

    def readinto(self, b):
        m = memoryview(b).cast("B")
        d = self.read(len(m))
        m[: len(d)] = d
        return len(d)

    readinto1 = readinto

    def seek(self, off, whence=0):
        self._chk()
        self.flush()
        return os.lseek(self._fd, off, whence)

    def tell(self):
        self._chk()
        return os.lseek(self._fd, 0, 1) + len(self._buf)

    def truncate(self, n=None):
        self.flush()
        if n is None:
            n = self.tell()
        self._a.ask("truncate", self._p)
        _o["ftruncate"](self._fd, n)
        return n


# --------------------------------------------------------------------------
# coordinator
# --------------------------------------------------------------------------
class Disk:
    def __init__(self, root):
        self.root = root
        self.pins = {}
        self.durable = {}
        self.content = {}
        self.mutations = 0
        self.ns = self._scan()
        self.journal = [dict(self.ns)]
        for ino in self._inos(self.ns):
            self.durable[ino] = self.content[ino]

    @staticmethod
    def _inos(ns):
        return {v[1] for v in ns.values() if v[0] == "f"}

    def _scan(self):
        ns = {}
        for d, dirs, files in os.walk(self.root):
            rel = os.path.relpath(d, self.root)
            if rel != ".":
                ns[rel] = ("d", 0)
            for f in files:
                p = os.path.join(d, f)
                st = _o["lstat"](p)
                if not _stat.S_ISREG(st.st_mode):
                    continue
                if st.st_ino not in self.pins:
                    # an inode number must not be handed out again while the
                    # crash model still refers to the file it stood for
                    self.pins[st.st_ino] = _real_open(p, "rb", buffering=0)
                with _real_open(p, "rb") as h:
                    self.content[st.st_ino] = h.read()
                ns[os.path.normpath(os.path.join(rel, f))] = ("f", st.st_ino)
        return ns

    def sync_view(self):
        """Look at what the last released call did."""
        before = {i: self.content.get(i) for i in self._inos(self.ns)}
        old = self.ns
        new = self._scan()
        changed = new != old
        for i in self._inos(new):
            if i not in before:
                self.durable.pop(i, None) if i not in self._inos(old) else None
                self.durable.setdefault(i, b"")
            elif before[i] != self.content[i]:
                changed = True
        if new != old:
            self.journal.append(dict(new))
        self.ns = new
        if changed:
            self.mutations += 1
        return changed

    def fsynced(self, rel, ino):
        if ino in self.content and ino in self._inos(self.ns):
            self.durable[ino] = self.content[ino]
        elif self.ns.get(rel, ("f",))[0] == "d":
            self.journal = [dict(self.ns)]

    def fsync_root(self):
        self.journal = [dict(self.ns)]

    def power_loss(self, rng):
        """Choose a post-crash state and materialise it; returns a description."""
        ns = self.journal[rng.randrange(len(self.journal))] if rng.random() < 0.7 else self.journal[-1]
        desc = []
        plan = {}
        done = {}
        for p in sorted(ns):
            k, ino = ns[p]
            if k == "d":
                plan[p] = None
                continue
            if ino not in done:
                cur, dur = self.content[ino], self.durable.get(ino, b"")
                how = "clean"
                out = cur
                if cur != dur:
                    how = rng.choice(("old", "new", "prefix", "zeros", "prefix0", "mix"))
                    n = len(cur)
                    if how == "old":
                        out = dur
                    elif how == "prefix":
                        out = cur[: rng.randrange(n + 1)]
                    elif how == "zeros":
                        out = b"\0" * n
                    elif how == "prefix0":
                        j = rng.randrange(n + 1)
                        if n > 128 and rng.random() < 0.5:
                            j = 128  # header block made it, data did not
                        out = cur[:j] + b"\0" * (n - j)
                    elif how == "mix":
                        b = rng.choice((16, 64, 128, 512))
                        out = b""
                        for s in range(0, n, b):
                            c = rng.randrange(3)
                            blk = cur[s:s + b]
                            out += blk if c == 0 else (dur[s:s + b].ljust(len(blk), b"\0") if c == 1 else b"\0" * len(blk))
                done[ino] = out
                desc.append([p, how, len(out)])
            plan[p] = done[ino]
        for e in os.listdir(self.root):
            q = os.path.join(self.root, e)
            shutil.rmtree(q) if os.path.isdir(q) and not os.path.islink(q) else _o["unlink"](q)
        for p in sorted(plan):
            q = os.path.join(self.root, p)
            if plan[p] is None:
                os.makedirs(q, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with _real_open(q, "wb") as h:
                    h.write(plan[p])
        self.content, self.durable, self.pins = {}, {}, {}
        self.ns = self._scan()
        self.journal = [dict(self.ns)]
        for ino in self._inos(self.ns):
            self.durable[ino] = self.content[ino]
        return desc


# which fault kinds make sense at which call
COMPAT = {
    "ENOSPC": {"create", "write", "fsync", "close", "mkdir", "rename"},
    "EIO": {"create", "open", "write", "read", "fsync", "close", "rename", "unlink", "mkdir", "truncate"},
    "EACCES": {"create", "open", "rename", "mkdir", "unlink"},
    "EMFILE": {"create", "open"},
    "EDQUOT": {"create", "write", "close"},
    "EROFS": {"create", "rename", "mkdir", "unlink"},
    "short": {"write"},
}
MUTATING = {"create", "write", "rename", "unlink", "mkdir", "rmdir", "truncate", "link"}


class Machine:
    """Runs phases of processes on one disk."""

    def __init__(self, root, knobs, seed, wall=60.0):
        self.disk = Disk(root)
        self.root = root
        self.knobs = knobs
        self.rng = random.Random(seed)
        self.boot = 0
        self.h = hashlib.sha256()
        self.tail = []
        self.stats = {"events": 0, "switches": 0, "spawned": 0}
        self.fired = []
        self.wall = wall
        self.made = []

    def log(self, *ev):
        s = repr(ev)
        self.h.update(s.encode())
        self.tail.append(s)
        if len(self.tail) > 600:
            del self.tail[:300]

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def _spawn(self, i, fn):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid_seed = self.rng.getrandbits(48)
        vpid = 1 if self.knobs.get("same_pid") else 1000 + 37 * self.boot + i
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                os.close(r1)
                os.close(w2)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.chdir(self.root)
                sys.path[0:0] = [self.root]
                a = Agent(r2, w1, self.root, self.knobs, vpid, pid_seed)
                a.install()
                a.ask("start")
                fn(a)
                _send(w1, {"t": "exit"})
                code = 0
            except BaseException as e:
                try:
                    import traceback

                    _send(w1, {"t": "crash", "why": repr(e), "tb": traceback.format_exc()[-2000:]})
                except BaseException:
                    pass
            finally:
                os._exit(code)
        os.close(w1)
        os.close(r2)
        self.count("spawned")
        return {"i": i, "pid": pid, "r": r1, "w": w2, "state": "parked", "msg": None,
                "op": 0, "ev": 0, "results": [], "armed": [], "events": []}

    def _wait(self, p):
        import select

        rl, _, _ = select.select([p["r"]], [], [], self.wall)
        if not rl:
            raise TimeoutError("simulated process %d did not reach its next event" % p["i"])
        try:
            p["msg"] = _recv(p["r"])
        except EOFError:
            p["msg"] = {"t": "crash", "why": "EOF"}

    def _reap(self, p, kill=False):
        if kill:
            try:
                os.kill(p["pid"], signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(p["pid"], 0)
        os.close(p["r"])
        os.close(p["w"])

    def run_phase(self, fns, sched, faults, step_cap=6000):
        """fns: one callable(agent) per process.  faults: list of
        {proc, op, ev, kind, frac}.  Returns list of process records."""
        self.boot += 1
        procs = [self._spawn(i, fn) for i, fn in enumerate(fns)]
        for f in faults:
            if f["proc"] < len(procs):
                procs[f["proc"]]["armed"].append(dict(f))
        seeded = sched["mode"] == "seeded"
        srng = random.Random(sched.get("seed", 0))
        sw = {} if seeded else {int(k): t for k, t in sched["switches"]}
        power = None
        steps = 0
        cur = None
        made = []
        try:
            for p in procs:
                self._wait(p)
            while True:
                live = [p for p in procs if p["state"] in ("parked",)]
                if not live:
                    break
                steps += 1
                if steps > step_cap:
                    self.log("cap")
                    self.count("step_cap")
                    for p in live:
                        self._reap(p, kill=True)
                        p["state"] = "capped"
                    break
                ids = [p["i"] for p in live]
                curp = procs[cur] if cur is not None and cur in ids else None
                if curp is not None and curp["msg"].get("kind") == "spin" and len(ids) > 1:
                    cand = [x for x in ids if x != cur]
                    curp = None
                else:
                    cand = ids
                if seeded:
                    if curp is not None and srng.random() >= sched["pc"]:
                        n = cur
                    else:
                        n = srng.choice(cand)
                    if n != (cur if curp is not None else cand[0]):
                        made.append([steps, n])
                else:
                    n = sw.get(steps)
                    if n not in cand:
                        n = cur if curp is not None else cand[0]
                    else:
                        made.append([steps, n])
                if n != cur:
                    self.count("switches")
                cur = n
                p = procs[n]
                r = self._handle(p, procs)
                if r == "power":
                    power = True
                    break
        finally:
            for p in procs:
                if p["state"] == "parked":
                    p["state"] = "killed" if power else "abandoned"
                    self._reap(p, kill=True)
        self.disk.sync_view()
        if power:
            desc = self.disk.power_loss(self.rng)
            self.log("power", desc)
            self.last_power = desc
        self.made.append(made)
        return procs

    def _handle(self, p, procs):
        m = p["msg"]
        t = m["t"]
        if t == "exit":
            self._reap(p)
            p["state"] = "done"
            self.log(p["i"], "exit")
            return
        if t == "crash":
            self._reap(p)
            p["state"] = "crash"
            p["why"] = m.get("why")
            p["tb"] = m.get("tb")
            self.log(p["i"], "crash", m.get("why"))
            return
        if t == "res":
            m = dict(m)
            m["events"], p["events"] = p["events"], []
            m["t0"], m["t1"] = p.get("t0", 0), self.stats["events"]
            p["t0"] = self.stats["events"] + 1
            self.stats["events"] += 1
            p["results"].append(m)
            self.log(p["i"], "res", m.get("op"), m.get("out"))
            p["op"] += 1
            p["ev"] = 0
            p["armed"] = [f for f in p["armed"] if f["op"] >= p["op"]]
            _send(p["w"], {})
            self._wait(p)
            self.disk.sync_view()
            return
        # an event
        kind = m["kind"]
        self.count("events")
        self.count("ev_" + kind)
        if kind == "start":
            p["t0"] = self.stats["events"]
        ev, p["ev"] = p["ev"], p["ev"] + 1
        self.log(p["i"], p["op"], ev, kind, m.get("path"), m.get("n"))
        fault = None
        if kind not in ("start", "spin"):
            for f in p["armed"]:
                if f["op"] == p["op"] and f["ev"] <= ev:
                    k = f["kind"]
                    if k in ("kill", "power") or kind in COMPAT.get(k, ()):
                        fault = f
                        break
        if fault is not None:
            p["armed"].remove(fault)
            k = fault["kind"]
            self.fired.append([k, kind])
            self.count("fault_" + k)
            self.count("fault_at_%s:%s" % (k, kind))
            self.log("FAULT", p["i"], k, kind)
            p.setdefault("faulted", []).append(p["op"])
            if k == "kill":
                self._reap(p, kill=True)
                p["state"] = "killed"
                self.disk.sync_view()
                return
            if k == "power":
                p["state"] = "killed"
                self._reap(p, kill=True)
                return "power"
            reply = {"fault": {"kind": k, "frac": fault.get("frac", 0.5)}}
            if k != "short":
                reply["fault"]["errno"] = k
            _send(p["w"], reply)
        else:
            _send(p["w"], {})
        if m.get("path") is not None:
            p["events"].append([kind, m["path"], bool(fault)])
        self._wait(p)
        ch = self.disk.sync_view()
        if ch:
            p["mutated"] = p.get("mutated", 0) + 1
        if kind == "fsync" and fault is None:
            if m["path"] == ".":
                self.disk.fsync_root()
            else:
                self.disk.fsynced(m["path"], m.get("ino"))

    def digest(self):
        return self.h.hexdigest()[:16]
