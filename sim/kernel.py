"""
Simulation kernel: one World per run.

The World owns every source of nondeterminism of the simulated processes: the scheduler (which simulated process runs),
the clock, sleep, uuid, the disk below SQLite (simvfs) and below the overflow directory (simfs), process life time,
and the fault plan. Everything is a pure function of (plan, code under test).
"""
from __future__ import annotations
import builtins, ctypes, gc, hashlib, importlib, importlib.machinery, io, json, logging, os, random, shutil, sqlite3, sys, threading, time, uuid
import weakref

REPO = os.environ.get("MANDALA_REPO", "/repo")


class SimCrash(BaseException):
    """The simulated process was killed. Never caught by the code under test (not an Exception)."""


class SimStall(BaseException):
    """The run exceeded its step or simulated-time budget (reported as a liveness failure or a harness limit)."""


class HarnessError(Exception):
    pass


class OpFail(Exception):
    """An op body failed (injected)."""


# ----------------------------------------------------------------------------------------------------------- real things
_real = dict(connect=sqlite3.connect, sleep=time.sleep, time=time.time, uuid4=uuid.uuid4, open=builtins.open,
             input=builtins.input, replace=os.replace, rename=os.rename, remove=os.remove, unlink=os.unlink,
             fsync=os.fsync, fdatasync=os.fdatasync, os_open=os.open, os_close=os.close, link=os.link,
             monotonic=time.monotonic, perf_counter=time.perf_counter)

EV = dict(write=1, sync=2, trunc=4, delete=8, open=16, read=32)
EV_NAMES = {v: k for k, v in EV.items()}
VK = dict(crash_before=1, crash_after=2, crash_torn=3, ioerr=4, full=5, short=6)
MUTMASK = 1 | 2 | 4 | 8

_vfs = None


def load_vfs(path):
    global _vfs
    if _vfs is not None:
        return _vfs
    lib = ctypes.CDLL(path)
    lib.simvfs_reset.argtypes = [ctypes.c_uint64]
    lib.simvfs_arm.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_int64, ctypes.c_int, ctypes.c_uint32]
    lib.simvfs_events.restype = ctypes.c_int64
    lib.simvfs_events.argtypes = [ctypes.c_int]
    lib.simvfs_events_mask.restype = ctypes.c_int64
    lib.simvfs_events_mask.argtypes = [ctypes.c_int]
    lib.simvfs_save.argtypes = lib.simvfs_load.argtypes = [ctypes.POINTER(ctypes.c_int64)]
    lib.simvfs_matched.restype = ctypes.c_int64
    lib.simvfs_powerloss.argtypes = [ctypes.c_uint64, ctypes.c_int]
    if lib.simvfs_install() != 0:
        raise HarnessError("cannot install simvfs")
    _vfs = lib
    return lib


W: "World" = None  # the current world


# ----------------------------------------------------------------------------------------------------------- SQL seam
class SimCursor(sqlite3.Cursor):
    def execute(self, sql, *a):
        return self.connection._sim_stmt(sql, lambda: super(SimCursor, self).execute(sql, *a))

    def executemany(self, sql, *a):
        return self.connection._sim_stmt(sql, lambda: super(SimCursor, self).executemany(sql, *a))

    def executescript(self, sql):
        return self.connection._sim_stmt(sql, lambda: super(SimCursor, self).executescript(sql))

    def fetchall(self):
        return self.connection._sim_fetch(super().fetchall)

    def fetchone(self):
        return self.connection._sim_fetch(super().fetchone)


class SimConnection(sqlite3.Connection):
    sim_owner = None
    sim_timeout = 5.0
    sim_world = None

    def cursor(self, factory=SimCursor):
        return super().cursor(factory)

    # (the C implementation of these does not go through cursor())
    def execute(self, sql, *a):
        return self.cursor().execute(sql, *a)

    def executemany(self, sql, *a):
        return self.cursor().executemany(sql, *a)

    def executescript(self, sql):
        return self.cursor().executescript(sql)

    def _sim_fetch(self, fn):
        w = self.sim_world
        if w is None or w is not W:
            return fn()
        w.check_alive()
        try:
            return fn()
        finally:
            w.check_alive()

    def _sim_stmt(self, sql, fn, kind="sql"):
        w = self.sim_world
        if w is None or w is not W:
            return fn()
        head = sql.lstrip()[:24].split("(")[0].split()[:2]
        name = " ".join(head).upper()
        w.event(kind, name)
        deadline = w.now + self.sim_timeout
        tries = 0
        while True:
            try:
                res = fn()
                break
            except sqlite3.OperationalError as e:
                w.check_alive()
                code = getattr(e, "sqlite_errorcode", None)
                if code == sqlite3.SQLITE_BUSY and w.now < deadline:
                    w.probe("busy_wait")
                    tries += 1
                    w.sleep(min(0.1, 0.001 * (2 ** min(tries, 7))), why="busy")
                    continue
                if code == sqlite3.SQLITE_BUSY:
                    w.probe("busy_timeout")
                raise
        w.check_alive()
        w.event_after(kind, name)
        return res

    def commit(self):
        return self._sim_stmt("COMMIT", super().commit, kind="commit")

    def rollback(self):
        w = self.sim_world
        if w is not None and w is W:
            w.check_alive()
        return super().rollback()

    def close(self):
        w = self.sim_world
        if w is not None and w is W and not w.alive():
            raise SimCrash()
        return super().close()

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        # same logic as the C implementation, but through the overridden commit/rollback
        if et is None:
            try:
                self.commit()
            except BaseException:
                try:
                    self.rollback()
                except sqlite3.Error:
                    pass
                raise
        else:
            self.rollback()
        return False


def _sim_connect(database, timeout=5.0, *args, **kwargs):
    w = W
    if w is None:
        return _real["connect"](database, timeout, *args, **kwargs)
    w.event("connect", "CONNECT")
    kwargs.pop("check_same_thread", None)
    factory = kwargs.pop("factory", SimConnection)
    conn = _real["connect"](database, *args, timeout=0, check_same_thread=False, factory=factory, **kwargs)
    if isinstance(conn, SimConnection):
        conn.sim_owner = w.cur_pid
        conn.sim_timeout = timeout
        conn.sim_world = w
        w.conns.add(conn)
    return conn


# ----------------------------------------------------------------------------------------------------------- file seam
class SimRaw(io.RawIOBase):
    """Raw file below the simulated disk root (overflow files); unsynced changes are remembered for power loss."""

    def __init__(self, world, path, mode):
        self.w, self.path = world, path
        world.fs_event("open", path)
        existed = os.path.exists(path)
        if "r" in mode and "+" not in mode:
            flags = os.O_RDONLY
        else:
            flags = os.O_RDWR | os.O_CREAT
            if "w" in mode:
                flags |= os.O_TRUNC
            if "x" in mode:
                flags |= os.O_EXCL
            if "a" in mode:
                flags |= os.O_APPEND
        self.writable_ = flags != os.O_RDONLY
        if self.writable_:
            world.fs.note_open(path, existed, "w" in mode)
        self.fd = _real["os_open"](path, flags, 0o644)
        world.fs.fds[self.fd] = path
        self.mode = mode
        self.name = path
        world.fs_event_after()

    def readable(self):
        return True

    def writable(self):
        return self.writable_

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def seek(self, off, whence=0):
        return os.lseek(self.fd, off, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def readinto(self, b):
        self.w.fs_event("read", self.path)
        data = os.read(self.fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        b = bytes(b)
        cut = self.w.fs_event("write", self.path, len(b))
        if cut is not None:  # short / torn write
            self.w.fs.note_change(self.path)
            os.write(self.fd, b[:cut[0]])
            if cut[1] == "crash":
                self.w.kill_current()
                raise SimCrash()
            raise OSError(28, "No space left on device", self.path)
        self.w.fs.note_change(self.path)
        os.write(self.fd, b)
        self.w.fs_event_after()
        return len(b)

    def truncate(self, size=None):
        self.w.fs_event("trunc", self.path)
        self.w.fs.note_change(self.path)
        os.ftruncate(self.fd, self.tell() if size is None else size)
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self.w.fs.fds.pop(self.fd, None)
                try:
                    _real["os_close"](self.fd)
                except OSError:
                    pass


class SimFS:
    """Which parts of the overflow directory are durable: per file the last synced content, plus unsynced entry changes."""

    def __init__(self, world):
        self.w = world
        self.fds = {}
        self.synced = {}       # path -> bytes as of last fsync, or None if the file did not exist durably
        self.dirops = []       # unsynced directory changes, in order: ("create", p) ("rename", a, b, old_b) ("remove", p, content)

    def durable_image(self, path):
        try:
            with _real["open"](path, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def note_open(self, path, existed, trunc):
        if not existed:
            self.dirops.append(("create", path))
            self.synced[path] = b""
        elif trunc:
            self.note_change(path)

    def note_change(self, path):
        if path not in self.synced:
            self.synced[path] = self.durable_image(path)

    def fsync_path(self, path):
        if os.path.isdir(path):
            d = os.path.abspath(path)
            self.dirops = [op for op in self.dirops if os.path.dirname(op[1]) != d]
        else:
            self.synced.pop(path, None)

    def rename(self, a, b):
        old_b = self.durable_image(b)
        old_b_synced = self.synced.pop(b, Ellipsis)
        a_synced = self.synced.pop(a, Ellipsis)
        if a_synced is not Ellipsis:
            self.synced[b] = a_synced
        self.dirops.append(("rename", a, b, old_b if old_b_synced is Ellipsis else old_b_synced))

    def remove(self, p):
        content = self.durable_image(p)
        s = self.synced.pop(p, Ellipsis)
        self.dirops.append(("remove", p, content if s is Ellipsis else s))

    def powerloss(self, rng, mode):
        """Lose unsynced changes. mode 0: everything unsynced is lost; 1: nothing; 2/3: chosen by rng."""
        changed = 0
        for p in sorted(self.synced):
            old = self.synced[p]
            cur = self.durable_image(p)
            if cur is None:
                continue
            if mode == 1:
                continue
            if mode == 0:
                new = old if old is not None else b""
            else:
                r = rng.random()
                if r < 0.35:
                    new = cur
                elif r < 0.7:
                    new = cur[: rng.randrange(len(cur) + 1)]
                elif r < 0.85:
                    k = rng.randrange(len(cur) + 1)
                    new = cur[:k] + b"\0" * (len(cur) - k)
                else:
                    new = old if old is not None else b""
            if new != cur:
                with _real["open"](p, "wb") as f:
                    f.write(new)
                changed += 1
        # directory changes are undone as a suffix (ordered metadata journal)
        n = len(self.dirops)
        keep = n if mode == 1 else 0 if mode == 0 else rng.randrange(n + 1)
        for op in reversed(self.dirops[keep:]):
            changed += 1
            if op[0] == "create":
                if os.path.exists(op[1]):
                    _real["remove"](op[1])
            elif op[0] == "rename":
                a, b, old_b = op[1:]
                if os.path.exists(b):
                    _real["replace"](b, a)
                if old_b is not None:
                    with _real["open"](b, "wb") as f:
                        f.write(old_b)
            elif op[0] == "remove":
                if op[2] is not None:
                    with _real["open"](op[1], "wb") as f:
                        f.write(op[2])
        self.synced.clear()
        self.dirops.clear()
        return changed


def _under(path):
    w = W
    if w is None or w.fsroot is None or not w.fs_active:
        return None
    try:
        p = os.path.abspath(os.fspath(path))
    except TypeError:
        return None
    if isinstance(p, bytes):
        return None
    return p if p.startswith(w.fsroot + os.sep) or p == w.fsroot else None


def _sim_open(file, mode="r", buffering=-1, *args, **kwargs):
    if isinstance(file, int):
        return _real["open"](file, mode, buffering, *args, **kwargs)
    p = _under(file)
    opener = kwargs.get("opener") or (args[4] if len(args) > 4 else None)
    if p is None or opener is not None:
        return _real["open"](file, mode, buffering, *args, **kwargs)
    raw = SimRaw(W, p, mode)
    if buffering == 0:
        return raw
    if "+" in mode:
        buf = io.BufferedRandom(raw)
    elif "r" in mode:
        buf = io.BufferedReader(raw)
    else:
        buf = io.BufferedWriter(raw)
    if "b" in mode:
        return buf
    return io.TextIOWrapper(buf)


def _sim_rename(real):
    def f(a, b, **kw):
        pa, pb = _under(a), _under(b)
        if pa is None or pb is None:
            return real(a, b, **kw)
        W.fs_event("rename", pb)
        W.fs.rename(pa, pb)
        real(pa, pb)
        W.fs_event_after()
    return f


def _sim_remove(real):
    def f(a, **kw):
        pa = _under(a)
        if pa is None:
            return real(a, **kw)
        W.fs_event("remove", pa)
        if os.path.exists(pa):
            W.fs.remove(pa)
        real(pa)
        W.fs_event_after()
    return f


def _sim_fsync(real):
    def f(fd):
        w = W
        if hasattr(fd, "fileno"):
            fd = fd.fileno()
        if w is None or fd not in w.fs.fds:
            return real(fd)
        w.fs_event("sync", w.fs.fds[fd])
        w.fs.fsync_path(w.fs.fds[fd])
        w.fs_event_after()
    return f


def _sim_os_open(path, flags, *a, **kw):
    p = _under(path) if not isinstance(path, int) else None
    if p is None:
        return _real["os_open"](path, flags, *a, **kw)
    if flags & (os.O_WRONLY | os.O_RDWR):
        W.fs_event("open", p)
        W.fs.note_open(p, os.path.exists(p), bool(flags & os.O_TRUNC))
        W.fs.note_change(p)
    fd = _real["os_open"](p, flags, *a, **kw)
    W.fs.fds[fd] = p
    return fd


def _sim_os_close(fd):
    w = W
    if w is not None:
        w.fs.fds.pop(fd, None)
    return _real["os_close"](fd)


def _sim_sleep(d):
    w = W
    if w is None:
        return _real["sleep"](d)
    if threading.current_thread() is not w.main_thread and w.cur_client is None:
        return _real["sleep"](d)
    w.check_alive()
    w.sleep(d, why="sleep")


def _sim_time():
    w = W
    return _real["time"]() if w is None else 1.7e9 + w.now + w.clock_skew


def _sim_uuid4():
    w = W
    return _real["uuid4"]() if w is None else uuid.UUID(int=w.idrng.getrandbits(128), version=4)


def _sim_input(prompt=""):
    w = W
    if w is None:
        return _real["input"](prompt)
    return w.on_input(prompt)


_installed = False


def install():
    """Put every seam in place (idempotent). With no current World all seams pass through."""
    global _installed
    if _installed:
        return
    sqlite3.connect = _sim_connect
    builtins.open = _sim_open
    io.open = _sim_open
    os.replace = _sim_rename(_real["replace"])
    os.rename = _sim_rename(_real["rename"])
    os.remove = _sim_remove(_real["remove"])
    os.unlink = _sim_remove(_real["unlink"])
    os.fsync = _sim_fsync(_real["fsync"])
    os.fdatasync = _sim_fsync(_real["fdatasync"])
    os.open = _sim_os_open
    os.close = _sim_os_close
    time.sleep = _sim_sleep
    time.time = _sim_time
    uuid.uuid4 = _sim_uuid4
    builtins.input = _sim_input
    _installed = True


# ----------------------------------------------------------------------------------------------------------- processes
_code_cache = {}
_get_code = importlib.machinery.SourceFileLoader.get_code


def _cached_get_code(self, name):
    if name != "mandala" and not name.startswith("mandala."):
        return _get_code(self, name)
    key = (self.path, name)
    if key not in _code_cache:
        _code_cache[key] = _get_code(self, name)
    return _code_cache[key]


importlib.machinery.SourceFileLoader.get_code = _cached_get_code


def fresh_mandala():
    """Import the package afresh, as a newly started interpreter would, and return its modules."""
    saved = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "mandala" or k.startswith("mandala.")}
    try:
        importlib.import_module("mandala.imports")
        importlib.import_module("mandala.storage")
        mods = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "mandala" or k.startswith("mandala.")}
    finally:
        for k in [k for k in sys.modules if k == "mandala" or k.startswith("mandala.")]:
            del sys.modules[k]
        sys.modules.update(saved)
    return mods


class Proc:
    """A simulated operating-system process: own module state, own connections, dies by losing both."""

    def __init__(self, world, pid):
        self.w, self.pid = world, pid
        self.mods = fresh_mandala()
        self.dead = False
        self.data = {}

    def mod(self, name):
        return self.mods["mandala." + name]

    @property
    def api(self):
        return self.mods["mandala.imports"]

    def activate(self):
        for k in [k for k in sys.modules if k == "mandala" or k.startswith("mandala.")]:
            del sys.modules[k]
        for k in self.w.user_mods:
            sys.modules.pop(k, None)
        sys.modules.update(self.mods)
        self.w.user_mods.update(k for k in self.mods if not (k == "mandala" or k.startswith("mandala.")))


class World:
    def __init__(self, root, seed, plan=None, max_events=2_000_000, max_time=10_000_000.0):
        self.root = root
        self.dbroot = os.path.join(root, "db")
        self.fsroot = os.path.join(root, "ovf")
        os.makedirs(self.dbroot, exist_ok=True)
        os.makedirs(self.fsroot, exist_ok=True)
        self.fs = SimFS(self)
        self.fs_active = True
        self.now = 0.0
        self.clock_skew = 0.0
        self.idrng = random.Random(seed ^ 0x5EED)
        self.seed = seed
        self.procs = {}
        self.next_pid = 1
        self.cur_pid = 0
        self.cur_client = None
        self.main_thread = threading.current_thread()
        self.sched = None
        self.conns = weakref.WeakSet()
        self.user_mods = set()
        self.stats = {}
        self.digest = hashlib.sha1()
        self.log = [] if (plan or {}).get("keep_log") else None
        self.nevents = 0
        self.kinds = {}
        self.max_events = max_events
        self.max_time = max_time
        self.timers = []          # (time, seq, fn)
        self.tseq = 0
        self.armed = None         # python-level fault: dict(seam, n, kind, count, ...)
        self.armed_count = 0
        self.fired = []           # faults that really fired
        self.quiet = 0            # >0: harness-internal section, no faults, no logging
        self.input_handler = None
        self.yield_hook = None
        self.holding = 0          # external holders of the database lock
        self.holds = 0            # how many there have been
        self.holders = []

    # ---- bookkeeping
    def probe(self, name, n=1):
        if not self.quiet:
            self.stats[name] = self.stats.get(name, 0) + n

    def record(self, *item):
        if self.quiet:
            return
        s = repr(item)
        self.digest.update(s.encode())
        if self.log is not None:
            self.log.append(s)

    # ---- life and death
    def alive(self):
        return not (_vfs.simvfs_is_dead(self.cur_pid) if self.cur_pid else False)

    def check_alive(self):
        if self.cur_pid and _vfs.simvfs_is_dead(self.cur_pid):
            raise SimCrash()

    def kill_current(self):
        if self.cur_pid:
            _vfs.simvfs_kill(self.cur_pid)

    def check_quiet_reset(self):
        self.armed = None
        self._fs_after = None
        _vfs.simvfs_disarm()

    def new_proc(self):
        p = Proc(self, self.next_pid)
        self.next_pid += 1
        self.procs[p.pid] = p
        return p

    def switch(self, proc):
        if proc is None:
            self.cur_pid = 0
            _vfs.simvfs_set_current(0)
            return
        self.cur_pid = proc.pid
        _vfs.simvfs_set_current(proc.pid)
        proc.activate()

    def bury(self, proc):
        """Release what the kernel would release when the process dies: locks and descriptors, without any write."""
        proc.dead = True
        _vfs.simvfs_kill(proc.pid)
        old = self.cur_pid
        _vfs.simvfs_set_current(proc.pid)
        for c in list(self.conns):
            if c.sim_owner == proc.pid:
                try:
                    sqlite3.Connection.close(c)
                except sqlite3.Error:
                    pass
                self.conns.discard(c)
        proc.data.clear()
        proc.mods = {}
        gc_collect_light()
        _vfs.simvfs_set_current(old)

    def retire(self, proc):
        """Orderly end of a process: interpreter exit closes connections (with their effects)."""
        proc.dead = True
        for c in list(self.conns):
            if c.sim_owner == proc.pid:
                try:
                    sqlite3.Connection.close(c)
                except sqlite3.Error:
                    pass
                self.conns.discard(c)
        proc.data.clear()
        proc.mods = {}

    def power_loss(self, seed, mode):
        """All processes must be buried before. Keeps/loses/tears what was not synced."""
        rng = random.Random(seed)
        n = _vfs.simvfs_powerloss(seed & 0xFFFFFFFFFFFF, mode)
        for f in os.listdir(self.dbroot):
            if f.endswith("-shm"):
                _real["remove"](os.path.join(self.dbroot, f))
        n += self.fs.powerloss(rng, mode)
        if n:
            self.probe("power_loss_with_unsynced_data")
        return n

    # ---- time
    def sleep(self, d, why="sleep"):
        self.check_alive()
        self.record("sleep", round(d, 6), why)
        if why == "sleep":
            self.probe("retry_sleeps")
            self.maybe_pyfault("sleep", "SLEEP")
        if self.sched is not None and self.cur_client is not None and not self.quiet:
            self.sched.sleep(d)
        else:
            self.advance(self.now + d)
        self.check_alive()

    def advance(self, to):
        while self.timers and self.timers[0][0] <= to:
            t, _, fn = self.timers.pop(0)
            self.now = max(self.now, t)
            fn()
        self.now = max(self.now, to)
        if self.now > self.max_time:
            raise SimStall("simulated time budget exceeded")

    def after(self, d, fn):
        self.tseq += 1
        self.timers.append((self.now + d, self.tseq, fn))
        self.timers.sort(key=lambda t: t[:2])

    # ---- events
    def _tick(self):
        self.nevents += 1
        if self.nevents > self.max_events:
            raise SimStall("event budget exceeded")
        self.advance(self.now + 0.0001)

    def event(self, kind, name):
        self.check_alive()
        if self.quiet:
            return
        self._tick()
        self.record(kind, name)
        k = "sql" if kind in ("sql", "commit", "connect") else kind
        self.kinds[k] = self.kinds.get(k, 0) + 1
        if self.sched is not None and self.cur_client is not None:
            self.sched.yield_point(kind, name)
            self.check_alive()
        self.maybe_pyfault(kind, name)

    def event_after(self, kind, name):
        if self.quiet:
            return
        f = self.armed
        if f is not None and f["seam"] == "sql_after" and kind in ("sql", "commit"):
            self._count(f, name)

    def maybe_pyfault(self, kind, name):
        f = self.armed
        if f is None or self.quiet:
            return
        seam = f["seam"]
        if seam == kind or (seam == "sql" and kind in ("sql", "commit", "connect")):
            if f.get("match") and f["match"] not in name:
                return
            self._count(f, name)

    def _count(self, f, name):
        self.armed_count += 1
        if self.armed_count < f["n"] or self.armed_count >= f["n"] + f.get("count", 1):
            return
        self.fire(f, name)

    def hold_lock(self, db, secs, fired):
        """Another (real) connection takes the database's write lock for a while."""
        path = os.path.join(self.dbroot, db)
        if not os.path.exists(path):
            return False
        old = self.cur_pid
        _vfs.simvfs_set_current(0)
        _vfs.simvfs_suspend(1)
        try:
            c = _real["connect"](path, timeout=0, check_same_thread=False, isolation_level=None)
            try:
                c.execute("BEGIN IMMEDIATE")
            except sqlite3.OperationalError:
                c.close()
                return False
        finally:
            if not self.quiet:
                _vfs.simvfs_suspend(0)
            _vfs.simvfs_set_current(old)
        self.holding += 1
        self.holds += 1
        self.holders.append(c)

        def release():
            if c not in self.holders:
                return
            self.holders.remove(c)
            old = self.cur_pid
            _vfs.simvfs_set_current(0)
            _vfs.simvfs_suspend(1)
            try:
                c.rollback()
                c.close()
            finally:
                if not self.quiet:
                    _vfs.simvfs_suspend(0)
                _vfs.simvfs_set_current(old)
            self.holding -= 1
            self.record("lock released")
        self.after(secs, release)
        return True

    def release_all(self):
        for t in sorted(self.timers, key=lambda t: t[:2]):
            t[2]()
        self.timers = []

    def fire(self, f, name):
        kind = f["kind"]
        if kind == "hold":
            if not self.hold_lock(f.get("db", "s0.db"), f["secs"], None):
                self.armed_count -= 1      # the lock is taken already: try again at the next statement
                return
            self.fired.append((kind, "lock", name))
            self.probe("fault:lock:hold")
            self.record("FAULT", "lock", "hold", f["secs"])
            return
        self.fired.append((kind, f["seam"], name))
        self.probe("fault:" + f["seam"] + ":" + kind)
        self.record("FAULT", f["seam"], kind, name)
        if kind == "crash":
            self.kill_current()
            raise SimCrash()
        if kind == "interrupt":
            raise KeyboardInterrupt("simulated Ctrl-C")
        if kind == "memory":
            raise MemoryError("simulated allocation failure")
        if kind == "locked":
            e = sqlite3.OperationalError("database is locked")
            raise e
        if kind == "ioerr":
            raise sqlite3.OperationalError("disk I/O error")
        if kind == "full":
            raise sqlite3.OperationalError("database or disk is full")
        if kind == "dberror":
            raise sqlite3.DatabaseError("database disk image is malformed")
        if kind == "stall":
            if self.sched is not None and self.cur_client is not None:
                self.sched.sleep(f.get("secs", 60.0))
                self.check_alive()
            else:
                self.advance(self.now + f.get("secs", 60.0))
            return
        if kind == "jump":
            self.clock_skew += f.get("secs", -3600.0)
            return
        if kind == "opfail":
            raise OpFail("simulated op failure")
        raise HarnessError("unknown fault kind " + kind)

    # ---- overflow file events; returns (cut, how) for torn/short writes
    def fs_event(self, kind, path, size=0):
        self.check_alive()
        if self.quiet:
            return None
        self._tick()
        self.record("fs", kind, os.path.basename(path)[:6], size)
        if kind != "read":
            self.kinds["fs"] = self.kinds.get("fs", 0) + 1
        if self.sched is not None and self.cur_client is not None:
            self.sched.yield_point("fs", kind)
            self.check_alive()
        f = self.armed
        if f is None or f["seam"] != "fs":
            return None
        if kind == "read" and f["kind"] in ("full", "short", "torn"):
            return None
        if kind == "read" and not f.get("reads"):
            return None
        self.armed_count += 1
        self._fs_after = None
        if self.armed_count < f["n"] or self.armed_count >= f["n"] + f.get("count", 1):
            return None
        k = f["kind"]
        self.fired.append((k, "fs", kind))
        self.probe("fault:fs:" + k)
        self.record("FAULT", "fs", k, kind)
        if k == "crash":
            self.kill_current()
            raise SimCrash()
        if k == "crash_after":
            self._fs_after = "crash"
            return None
        if k in ("torn", "short"):
            if kind != "write" or size == 0:
                if k == "torn":
                    self.kill_current()
                    raise SimCrash()
                raise OSError(28, "No space left on device", path)
            return (f.get("tear", 0) % size, "crash" if k == "torn" else "short")
        if k == "full":
            if kind in ("write", "open", "rename"):
                raise OSError(28, "No space left on device", path)
            return None
        if k == "ioerr":
            raise OSError(5, "Input/output error", path)
        if k == "interrupt":
            raise KeyboardInterrupt("simulated Ctrl-C")
        raise HarnessError("unknown fs fault " + k)

    _fs_after = None

    def fs_event_after(self):
        if self._fs_after == "crash" and not self.quiet:
            self._fs_after = None
            self.kill_current()
            raise SimCrash()

    # ---- arming
    def arm(self, f):
        """f: dict(seam='vfs'|'sql'|'sql_after'|'fs'|'op'|'sleep'|'input', n=..., kind=..., count=...)"""
        self.armed_count = 0
        self._fs_after = None
        if f is None:
            self.armed = None
            _vfs.simvfs_disarm()
            return
        if f["seam"] == "vfs":
            self.armed = dict(f)
            _vfs.simvfs_arm(VK[f["kind"]], f.get("mask", MUTMASK), f["n"], f.get("count", 1), f.get("tear", 0) & 0x7FFFFFFF)
        else:
            self.armed = dict(f)

    def disarm(self):
        f = self.armed
        if f is not None and f["seam"] == "vfs" and _vfs.simvfs_fired():
            cls = EV_NAMES.get(_vfs.simvfs_fire_class(), "?")
            self.fired.append((f["kind"], "vfs", cls))
            self.probe("fault:vfs:" + f["kind"] + ":" + cls)
            self.record("FAULT", "vfs", f["kind"], cls)
        self.armed = None
        self._fs_after = None
        _vfs.simvfs_disarm()

    def op_event(self, name):
        """Called from inside every op body."""
        self.check_alive()
        if self.quiet:
            return
        self._tick()
        self.record("op", name)
        self.kinds["op"] = self.kinds.get("op", 0) + 1
        self.maybe_pyfault("op", name)
        if self.sched is not None and self.cur_client is not None:
            self.sched.yield_point("op", name)
            self.check_alive()

    def on_input(self, prompt):
        self.event("input", "INPUT")
        if self.input_handler is None:
            raise HarnessError("unexpected question: " + prompt)
        return self.input_handler(prompt)


_gc_ctr = 0


def gc_collect_light():
    pass


class quiet:
    """Harness-internal section: real effects, no faults, no scheduling, not part of the log."""

    def __init__(self, w):
        self.w = w

    def __enter__(self):
        self.w.quiet += 1
        _vfs.simvfs_suspend(1)
        return self

    def __exit__(self, *a):
        self.w.quiet -= 1
        if not self.w.quiet:
            _vfs.simvfs_suspend(0)
        return False


def set_world(w):
    global W
    W = w


# ----------------------------------------------------------------------------------------------------------- scheduler
class Client:
    """One simulated process; between its turns its armed fault and event counters are put aside."""

    def swap_out(self, w):
        if self.vfs is None:
            self.vfs = (ctypes.c_int64 * 16)()
        _vfs.simvfs_save(self.vfs)
        self.state = (w.armed, w.armed_count, w._fs_after, w.fired, w.kinds)

    def swap_in(self, w):
        if self.state is None:
            self.state = (None, 0, None, [], {})
            self.vfs = (ctypes.c_int64 * 16)()
        _vfs.simvfs_load(self.vfs)
        w.armed, w.armed_count, w._fs_after, w.fired, w.kinds = self.state

    state = vfs = None

    def __init__(self, cid, proc, fn):
        self.cid, self.proc, self.fn = cid, proc, fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.wake = 0.0
        self.exc = None
        self.thread = None


class Scheduler:
    """
    Runs several simulated processes on baton-passing threads: exactly one runs at any time, and at every yield point
    the plan (sparse map: yield index -> client) or the seeded PRNG decides who continues.
    """

    def __init__(self, world, preempt_prob, rng, forced=None):
        self.w = world
        self.clients = []
        self.p = preempt_prob
        self.rng = rng
        self.forced = forced       # None: draw from rng and record; dict: replay
        self.taken = {}
        self.idx = 0
        self.main_sem = threading.Semaphore(0)
        self.cur = None
        self.switches = 0
        self.error = None

    def add(self, proc, fn):
        c = Client(len(self.clients), proc, fn)
        self.clients.append(c)
        return c

    def _runnable(self):
        return [c for c in self.clients if not c.done and c.wake <= self.w.now]

    def _pick(self, default):
        """Choose who runs next; default is kept unless the schedule says otherwise."""
        i = self.idx
        self.idx += 1
        run = self._runnable()
        while not run:
            pend = [c.wake for c in self.clients if not c.done]
            if not pend:
                return None
            self.w.advance(max(min(pend), self.w.now))
            run = self._runnable()
        if self.forced is not None:
            want = self.forced.get(i)
            if want is not None:
                for c in run:
                    if c.cid == want:
                        self.taken[i] = want
                        return c
            if default in run:
                return default
            return run[0]
        if default in run and self.rng.random() >= self.p:
            return default
        c = run[self.rng.randrange(len(run))]
        if c is not (default if default in run else run[0]):
            self.taken[i] = c.cid
        return c

    def _go(self, c):
        if self.cur is not c:
            if self.cur is not None:
                self.cur.swap_out(self.w)
            c.swap_in(self.w)
        self.cur = c
        self.w.cur_client = c
        self.w.switch(c.proc)

    on_yield = None      # called at every yield point with its index (observers)

    def yield_point(self, kind, name):
        if self.error is not None:
            raise self.error
        me = self.cur
        if self.on_yield is not None:
            self.on_yield(self.idx)
        nxt = self._pick(me)
        if nxt is me or nxt is None:
            return
        self.switches += 1
        self.w.record("switch", me.cid, nxt.cid)
        self._handover(me, nxt)

    def _handover(self, me, nxt):
        self._go(nxt)
        nxt.sem.release()
        me.sem.acquire()
        if self.error is not None:
            raise self.error

    def sleep(self, d):
        if self.error is not None:
            raise self.error
        me = self.cur
        me.wake = self.w.now + d
        nxt = self._pick(None)
        if nxt is me:
            return
        self.switches += 1
        self.w.record("switch", me.cid, nxt.cid)
        self._handover(me, nxt)

    def _body(self, c):
        c.sem.acquire()
        try:
            if self.error is None:
                c.fn(c)
        except SimCrash:
            c.exc = "crash"
        except BaseException as e:  # harness-level failure inside a client
            c.exc = e
            if self.error is None:
                self.error = e
        c.done = True
        try:
            nxt = None
            if self.error is None:
                try:
                    nxt = self._pick(None)
                except BaseException as e:
                    self.error = e
            if self.error is not None:
                rest = [k for k in self.clients if not k.done]
                nxt = rest[0] if rest else None
            if nxt is None:
                self.w.cur_client = None
                self.main_sem.release()
            else:
                self.w.record("done", c.cid, nxt.cid)
                self._go(nxt)
                nxt.sem.release()
        except BaseException as e:  # pragma: no cover
            self.error = e
            self.main_sem.release()

    def run(self):
        self.w.sched = self
        for c in self.clients:
            c.thread = threading.Thread(target=self._body, args=(c,), daemon=True)
            c.thread.start()
        first = self._pick(None)
        self._go(first)
        first.sem.release()
        try:
            self.main_sem.acquire()
        except BaseException as e:      # real-time limit: unwind whatever runs
            self.error = SimStall("the run did not finish in real time")
            for c in self.clients:
                if c.thread.is_alive():
                    ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(c.thread.ident), ctypes.py_object(SimStall))
            for c in self.clients:
                c.sem.release()
                c.thread.join(5)
            self.w.sched = self.w.cur_client = None
            raise
        for c in self.clients:
            c.thread.join()
        self.w.sched = None
        self.w.cur_client = None
        self.cur.swap_out(self.w)
        self.w.fired, self.w.kinds = [], {}
        for c in self.clients:
            if c.state is not None:
                self.w.fired += c.state[3]
                for k, v in c.state[4].items():
                    self.w.kinds[k] = self.w.kinds.get(k, 0) + v
        if self.error is not None:
            raise self.error
