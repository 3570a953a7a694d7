"""
Executes one plan: a program of a simulated user plus a fault plan, against the real package, in lockstep with the
reference model, and checks the invariants. A plan is plain JSON, so it is also the replay file.
"""
from __future__ import annotations
import contextlib, gc, io, json, os, random, shutil, sqlite3, sys, time, types
from . import kernel as K, values as V, model as M, frames as F
from .kernel import SimCrash, SimStall, HarnessError, OpFail

HERE = os.path.dirname(os.path.abspath(__file__))
USERLIB = open(os.path.join(HERE, "userlib.txt")).read()

MAX_ACTION_TIME = 1023.0 + 10 * 6.0 + 60.0     # documented retry budget plus connection timeouts


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


class AuditSkip(Exception):
    pass


class Skip(Exception):
    """The action cannot be carried out (unresolvable argument)."""


def walk(actions):
    for a in actions:
        yield a
        if a["t"] == "with":
            yield from walk(a["body"])


_userlib_code = None


def userlib_code():
    global _userlib_code
    if _userlib_code is None:
        _userlib_code = compile(USERLIB, "userlib", "exec", dont_inherit=True)
    return _userlib_code


class Bind:
    """Bijections between the package's identities and the model's."""

    def __init__(self):
        self.hid2h, self.h2hid, self.cid2c, self.c2cid = {}, {}, {}, {}

    def pair(self, a2b, b2a, a, b, what):
        if a2b.setdefault(a, b) != b:
            raise Violation("identity", "%s %s stands for two different things: %s and %s" % (what, a, a2b[a], b))
        if b2a.setdefault(b, a) != a:
            raise Violation("identity", "two %ss (%s, %s) for the same thing %s" % (what, b2a[b], a, b))

    def hid(self, hid, h):
        self.pair(self.hid2h, self.h2hid, hid, h, "history id")

    def cid(self, cid, c):
        self.pair(self.cid2c, self.c2cid, cid, c, "content id")

    def ref(self, ref, node):
        self.hid(ref.hid, node.h)
        self.cid(ref.cid, node.c)


class Session:
    """One simulated process running user code against its storages."""

    def __init__(self, run):
        self.run = run
        w = self.w = run.w
        self.proc = w.new_proc()
        w.switch(self.proc)
        self.pm = M.ProcModel(run.model)
        self.st = {}
        self.ns = None
        self.env = {}        # name -> (real, node or plain)
        self.alive = True
        self.seen_cks = {}
        self.make_ns()

    def make_ns(self):
        api = self.proc.api
        mod = types.ModuleType("userlib")
        import typing
        mod.__dict__.update(op=api.op, MList=api.MList, MDict=api.MDict, Any=typing.Any, Tuple=typing.Tuple,
                            noop=api.noop, NewArgDefault=api.NewArgDefault, SIM=self.sim, CRC=V.crc,
                            SCRAMBLE=V.scramble, ARRAY=V.array, FRAME=V.frame, BIG=V.big, IGN=V.is_ignored_mark, EPOCH=self.run.epoch)
        exec(userlib_code(), mod.__dict__)
        self.ns = mod.__dict__

    def sim(self, name):
        self.pm.exec_real.append(name)
        self.w.op_event(name)

    def open(self, s):
        cfg = self.run.plan["storages"][s]
        kw = {}
        if cfg.get("overflow"):
            kw = dict(overflow_dir=self.run.ovf_path(s), overflow_threshold_MB=cfg["threshold"])
        path = ":memory:" if cfg.get("memory") else self.run.db_path(s)
        self.st[s] = self.proc.mod("storage").Storage(db_path=path, **kw)
        self.pm.sessions[s] = M.SessionModel(self.run.store(s))


class Run:
    def __init__(self, plan, root, keep_log=False, fresh=True):
        self.plan = plan
        self.root = root
        if fresh:
            shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root, exist_ok=True)
        self.w = K.World(root, plan.get("seed", 0), {"keep_log": keep_log},
                         max_events=plan.get("max_events", 400_000))
        K._vfs.simvfs_reset(plan.get("seed", 0) & 0xFFFFFFFF)
        K.set_world(self.w)
        self.model = M.Model()
        self.ep = 0
        self.model.epoch = self.epoch
        self.model.load_userlib(USERLIB)
        self.stores = {}
        self.bind = Bind()
        self.sess = None
        self.faults = {}
        for f in plan.get("faults", []):
            self.faults.setdefault((f["id"], f.get("phase", "all")), f)
        self.counts = {}            # (action id, phase) -> event counts, measured
        self.fault_fired_now = False
        self.io_fault_now = False
        self.naudit = 0
        self.trace = []             # executed actions, human readable
        self.auditor = None
        self.last_error = None
        self.checks = {}
        self.max_wait = 0.0

    # ------------------------------------------------------------------ plumbing
    def epoch(self):
        return self.ep

    def check(self, name, n=1):
        self.checks[name] = self.checks.get(name, 0) + n

    def db_path(self, s):
        return os.path.join(self.w.dbroot, "s%d.db" % s)

    def ovf_path(self, s):
        return os.path.join(self.w.fsroot, "s%d" % s)

    def store(self, s):
        if s not in self.stores:
            self.stores[s] = M.StoreModel()
        return self.stores[s]

    def violation(self, cls, msg):
        raise Violation(cls, msg)

    # ------------------------------------------------------------------ fault phases
    @contextlib.contextmanager
    def phase(self, act, ph):
        w = self.w
        key = (act["id"], ph)
        v0 = K._vfs.simvfs_events_mask(K.MUTMASK), K._vfs.simvfs_events(32)
        c0 = dict(self.ev_counts)
        t0 = w.now
        f = self.faults.get(key)
        if f is not None and not (f.get("once") and key in self.counts and f.get("_used")):
            w.arm(f)
        nf = len(w.fired)
        held0, holds0 = w.holding, w.holds
        pm = self.sess.pm if self.sess else None
        if pm is not None:
            pm.op_fault = f if f is not None and f["seam"] == "op" else None
            pm.op_count = 0
        try:
            yield
        finally:
            w.disarm()
            if f is not None and len(w.fired) > nf:
                # a fault plan entry is used up once it has fired
                self.faults.pop(key, None)
            self.fault_fired_now = len(w.fired) > nf
            self.io_fault_now = any(x[1] in ("vfs", "sql", "sql_after", "fs", "sleep", "lock") for x in w.fired[nf:])
            if held0 or w.holding or w.holds != holds0:
                self.fault_fired_now = self.io_fault_now = True
            c = self.counts.setdefault(key, {})
            c["vfs"] = K._vfs.simvfs_events_mask(K.MUTMASK) - v0[0]
            c["read"] = K._vfs.simvfs_events(32) - v0[1]
            for k in self.ev_counts:
                c[k] = self.ev_counts[k] - c0.get(k, 0)
            self.max_wait = max(self.max_wait, w.now - t0)
            if w.now - t0 > MAX_ACTION_TIME * (1 if not f else max(1, f.get("budget", 1))):
                self.overtime = (act, ph, w.now - t0)

    overtime = None

    @property
    def ev_counts(self):
        return self.w.kinds

    # ------------------------------------------------------------------ processes
    def start(self):
        self.sess = Session(self)
        for s in range(len(self.plan["storages"])):
            with self.w_phase_open(s):
                self.sess.open(s)

    @contextlib.contextmanager
    def w_phase_open(self, s):
        try:
            yield
        except (SimCrash, SimStall, HarnessError, Violation):
            raise
        except Exception as e:
            if self.w.armed is None and not self.io_fault_now and not self.w.holding:
                raise Violation("open", "opening the storage fails: %s: %s" % (type(e).__name__, e))
            raise

    def end_process(self, how, power=None):
        """how: exit (orderly), kill."""
        s = self.sess
        if s is not None:
            if how == "exit":
                self.w.retire(s.proc)
            else:
                self.w.bury(s.proc)
            s.env.clear()
            s.st.clear()
            s.ns = None
            s.alive = False
        self.sess = None
        for st in self.stores.values():
            st.phantom = False
        self.w.switch(None)
        gc.collect()
        if power is not None:
            self.w.release_all()      # the machine goes down: so does whoever held the lock
            self.w.power_loss(power["seed"], power["mode"])
            for st in self.stores.values():
                # a save that was cut off was seen by later readers but never reported as done: power loss may undo it
                for kind, b in st.soft:
                    if kind == "add":
                        st.disk -= b
                    else:
                        st.disk |= b
                for kind, b in st.soft:
                    st.maybe.append((kind, b))
                st.soft = []
        for i, cfg in enumerate(self.plan["storages"]):
            if cfg.get("memory") and i in self.stores:
                st = self.stores[i]
                st.disk, st.maybe, st.free = set(), [], set()

    def crash(self, act, ph, fault):
        """The running process died during act."""
        s = self.sess
        if ph in ("exit", "commit"):
            sm = s.pm.sessions[act["s"]] if ph == "exit" else s.pm.session()
            self.maybe_commit(sm)
        self.trace.append("-- process killed during action %s (%s)" % (act.get("id"), ph))
        power = (fault or {}).get("power")
        self.end_process("kill", power)
        self.w.check_quiet_reset()
        self.audit_all("after crash")

    def maybe_commit(self, sm):
        st = sm.store
        st.phantom = st.phantom or any(f[1] == "vfs" for f in self.w.fired)
        batch = frozenset(sm.dirty)
        if batch:
            st.maybe.append(("add", batch))
        st.free |= set(sm.mem_maybe)

    def committed(self, sm):
        st = sm.store
        if sm.dirty:
            st.soft = []
            st.phantom = False
        sm.loose = False
        st.disk |= sm.dirty
        st.maybe = [(k, b if k == "add" else b - sm.dirty) for k, b in st.maybe if not (k == "add" and b <= st.disk)]
        st.free -= sm.dirty
        st.free |= set(sm.mem_maybe) - st.disk
        sm.dirty.clear()

    # ------------------------------------------------------------------ arguments
    def arg(self, a):
        """-> (real, model) pair; fresh objects every time."""
        t = a[0]
        s = self.sess
        if t == "c":
            f = V.CONSTS[a[1] % len(V.CONSTS)]
            return f(), f()
        if t == "cr":      # the same constant built in another insertion order
            f = V.CONSTS[a[1] % len(V.CONSTS)]
            return V.reorder(f()), f()
        if t == "r":       # the plain value of a variable, in the same or another insertion order
            if a[1] not in s.env:
                raise Skip()
            n = s.env[a[1]][1]
            if isinstance(n, M.Node):
                if any(x.vp for x in n.closure()):
                    raise Skip()
                n = n.plain()
            return (V.reorder if a[2] else V.dup)(n), V.dup(n)
        if t == "k":       # explicit JSON value
            return V.dup(a[1]), V.dup(a[1])
        if t == "v":
            if a[1] not in s.env:
                raise Skip()
            return s.env[a[1]]
        if t == "e":       # element of a list/dict valued variable
            if a[1] not in s.env:
                raise Skip()
            r, n = s.env[a[1]]
            if not isinstance(n, M.Node) or n.kind == "A" or not r.in_memory or not n.elts:
                raise Skip()
            if n.kind == "L":
                i = a[2] % len(n.elts)
                return r[i], n.elts[i]
            k = sorted(n.elts)[a[2] % len(n.elts)]
            return r[k], n.elts[k]
        if t == "L":
            xs = [self.arg(x) for x in a[1]]
            return [x[0] for x in xs], [x[1] for x in xs]
        if t == "D":
            xs = {k: self.arg(x) for k, x in a[1].items()}
            return {k: x[0] for k, x in xs.items()}, {k: x[1] for k, x in xs.items()}
        if t == "vp":
            api = s.proc.mod("model")
            f = V.CONSTS[a[2] % len(V.CONSTS)]
            return api.ValuePointer(a[1], f()), M.VP(a[1], f())
        if t == "ig":
            r, m = self.arg(a[1])
            return s.proc.mod("model").Ignore(r), M.Ignored(m)
        raise HarnessError("bad argument " + repr(a))

    # ------------------------------------------------------------------ checking results
    def check_value(self, real, node, what):
        if V.canon(real) != V.canon(node.plain()):
            self.violation("value", "%s is %s, expected %s" % (what, V.canon(real)[:200], V.canon(node.plain())[:200]))

    def check_ref(self, ref, node, what):
        kinds = {"AtomRef": "A", "ListRef": "L", "DictRef": "D"}
        k = kinds.get(type(ref).__name__)
        self.check("ref")
        if k != node.kind:
            self.violation("value", "%s is a %s, expected kind %s" % (what, type(ref).__name__, node.kind))
        self.bind.ref(ref, node)
        if not ref.in_memory:
            return
        if k == "A":
            if node.vp:
                return
            self.check_value(ref.obj, node, what)
        elif k == "L":
            if len(ref.obj) != len(node.elts):
                self.violation("value", "%s has %d elements, expected %d" % (what, len(ref.obj), len(node.elts)))
            for i, e in enumerate(node.elts):
                x = ref.obj[i]
                self.check_elt(x, e, "%s[%d]" % (what, i))
        else:
            if set(ref.obj) != set(node.elts):
                self.violation("value", "%s has keys %s, expected %s" % (what, sorted(ref.obj), sorted(node.elts)))
            for kk, e in node.elts.items():
                self.check_elt(ref.obj[kk], e, "%s[%r]" % (what, kk))

    def check_elt(self, x, e, what):
        self.check_ref(x, e, what)

    # ------------------------------------------------------------------ running a plan
    def execute(self):
        self.start()
        try:
            self.top(self.plan["actions"])
            self.finish()
        except SimStall as e:
            raise Violation("hang", str(e))

    def top(self, actions):
        for act in actions:
            if self.sess is None:
                self.restart_after_death()
            try:
                self.do(act)
            except SimCrash:
                act2, ph, f = self.at
                self.crash(act2, ph, f)
            except (Violation, SimStall, HarnessError):
                raise
            except Skip:
                pass
            except (Exception, KeyboardInterrupt) as e:
                if getattr(e, "_sim_expected", None) is None:
                    raise
                self.trace.append("-- error reached the user: %s: %s" % (type(e).__name__, e))
            self.after_top(act)

    at = (None, None, None)

    def after_top(self, act):
        if self.overtime:
            a, ph, d = self.overtime
            self.violation("hang", "action %s (%s) took %.0f s of simulated time" % (a["id"], ph, d))
        if self.sess is not None:
            self.check_session_sane()

    def check_session_sane(self):
        """Outside blocks nothing is memoized: a probe call must run the op body plainly."""
        s = self.sess
        pm = s.pm
        if pm.ctx_stack:
            return
        ctx = s.proc.mod("model").Context.current_context
        self.check("sane")
        if ctx is None:
            return
        pm.exec_real = []
        with K.quiet(self.w):
            r = s.ns["same"](41)
        if r != 41 or type(r) is not int:
            self.violation("mode", "after leaving every block a call is still memoized")

    def restart_after_death(self):
        self.w.release_all()
        self.start()

    def mark(self, act, ph):
        self.at = (act, ph, self.faults.get((act["id"], ph)))

    def do(self, act):
        self.mark(act, "all")
        t = act["t"]
        if t in ("unwrap", "attach", "load", "query") and act.get("var") and act["var"][0] != "vuw"[act.get("s", 0)]:
            raise Skip()     # a reference of another storage
        self.w.probe("action:" + t)
        getattr(self, "do_" + t)(act)

    # ---- blocks
    def do_with(self, act):
        sess, pm = self.sess, self.sess.pm
        s = act.get("s", 0)
        act = dict(act, s=s)
        st = sess.st[s]
        mode = act.get("mode")
        self.trace.append("with s%d%s:  #%d" % (s, "(%s)" % mode if mode else "", act["id"]))
        self.mark(act, "enter")
        err = None
        with self.phase(act, "enter"):
            try:
                cm = st if mode is None else st(mode=mode)
                cm.__enter__()
            except (SimCrash, SimStall, HarnessError, Violation):
                raise
            except (Exception, KeyboardInterrupt) as e:
                err = e
        if err is not None:
            if not self.fault_fired_now:
                self.violation("error", "entering a block fails: %s: %s" % (type(err).__name__, err))
            err._sim_expected = True
            raise err
        outer = [c for c in pm.ctx_stack if c[0] == s]
        eff = mode or (outer[-1][1] if outer else "run")
        pm.ctx_stack.append((s, eff))
        exc = None
        try:
            for a in act["body"]:
                try:
                    self.do(a)
                except Skip:
                    pass
        except (SimCrash, SimStall, HarnessError, Violation):
            raise
        except (Exception, KeyboardInterrupt) as e:
            exc = e
        # leave
        self.mark(act, "exit")
        depth = sum(1 for c in pm.ctx_stack if c[0] == s)
        sm = pm.sessions[s]
        xerr = None
        with self.phase(act, "exit"):
            try:
                st.__exit__(type(exc) if exc else None, exc, None)
            except (SimCrash, SimStall, HarnessError, Violation):
                raise
            except (Exception, KeyboardInterrupt) as e:
                xerr = e
        pm.ctx_stack.pop()
        if depth == 1:
            if xerr is None:
                self.committed(sm)
            else:
                if not self.fault_fired_now:
                    self.violation("commit_error", "leaving a block fails: %s: %s" % (type(xerr).__name__, xerr))
                self.maybe_commit(sm)
        elif xerr is not None:
            self.violation("error", "leaving an inner block fails: %s: %s" % (type(xerr).__name__, xerr))
        if xerr is not None:
            self.w.probe("failed_save")
            xerr._sim_expected = True
            raise xerr
        if exc is not None:
            if getattr(exc, "_sim_expected", None) is None:
                raise exc
            if not act.get("catch"):
                raise exc

    # ---- calls
    def do_call(self, act):
        sess, pm = self.sess, self.sess.pm
        w = self.w
        args = [self.arg(a) for a in act.get("args", [])]
        kwargs = {k: self.arg(a) for k, a in act.get("kwargs", {}).items()}
        name = act["op"]
        if pm.ctx is None and any(isinstance(x[1], M.Node) or _has_ref(x[1])
                                  for x in list(args) + list(kwargs.values())):
            raise Skip()
        if name == "mut" and pm.ctx is not None and any(not isinstance(x[1], M.Node) for x in list(args) + list(kwargs.values())):
            raise Skip()     # an op that changes an object which was never recorded before: out of scope
        real_op, mod_op = sess.ns[name], self.model.ns[name]
        pm.exec_real = []
        out = exc = None
        with self.phase(act, "all"):
            try:
                out = real_op(*[a[0] for a in args], **{k: a[0] for k, a in kwargs.items()})
            except (SimCrash, SimStall, HarnessError, Violation):
                raise
            except (Exception, KeyboardInterrupt) as e:
                exc = e
        margs, mkw = [a[1] for a in args], {k: a[1] for k, a in kwargs.items()}
        pm.exec_model = []
        pm.op_count = 0
        pm.op_fault = None
        f = self.at[2]
        if f is not None and f["seam"] == "op":
            pm.op_fault = f
        self.trace.append("%s%s = %s(%s)  #%d  ran %s%s" % (
            "  " * len(pm.ctx_stack), act.get("var", "_"), name,
            ", ".join([fmt(a) for a in act.get("args", [])] + ["%s=%s" % (k, fmt(a)) for k, a in act.get("kwargs", {}).items()]),
            act["id"], pm.exec_real, " -> %s: %s" % (type(exc).__name__, exc) if exc else ""))
        self.model.cur = pm
        if exc is not None and self.io_fault_now:
            w.probe("call_failed_io")
            self.tentative(pm, mod_op, margs, mkw)
            exc._sim_expected = True
            if act.get("catch"):
                return
            raise exc
        mout = mexc = None
        try:
            mout = mod_op(*margs, **mkw)
        except (OpFail, MemoryError, KeyboardInterrupt) as e:
            mexc = e
        except Exception as e:
            # the op body itself cannot handle these inputs
            if exc is None or type(exc) is not type(e):
                raise
            mexc = e
        self.check("call")
        if (exc is None) != (mexc is None) or (exc is not None and type(exc) is not type(mexc)):
            if exc is not None and mexc is None:
                self.compare_exec(pm, act, name)
                self.violation("error", "call #%d to %s raises %s: %s" % (act["id"], name, type(exc).__name__, exc))
            self.compare_exec(pm, act, name)
            self.violation("mode", "call #%d to %s: error %r expected, got %r" % (act["id"], name, mexc, exc))
        self.compare_exec(pm, act, name)
        if exc is not None:
            w.probe("op_failure_reached_user")
            exc._sim_expected = True
            if act.get("catch"):
                return
            raise exc
        self.check_out(out, mout, "result of call #%d to %s" % (act["id"], name))
        if act.get("var"):
            sess.env[act["var"]] = (out, mout) if not isinstance(mout, tuple) or pm.ctx is None or pm.ctx[1] == "noop" \
                else (out[0], mout[0])
            if isinstance(mout, tuple) and not (pm.ctx is None or pm.ctx[1] == "noop"):
                for i in range(len(mout)):
                    sess.env[act["var"] + ".%d" % i] = (out[i], mout[i])
        if act.get("mutate_args") and pm.ctx is not None and pm.ctx[1] != "noop":
            spec = list(act.get("args", [])) + list(act.get("kwargs", {}).values())
            for sp, a in zip(spec, list(args) + list(kwargs.values())):
                if sp[0] in ("c", "k", "L", "D") and not _has_ref(a[1]) and not _uses_var(sp):
                    V.scramble(a[0])
            if name == "same" and act.get("var"):
                self.taint(act["var"])      # the op may have handed out the caller's own object
        if name == "mut":
            # the op scrambled its argument: the caller's live reference is not used again
            for a in list(act.get("args", [])) + list(act.get("kwargs", {}).values()):
                if a[0] in ("v", "e"):
                    self.taint(a[1])

    def taint(self, var):
        """The live object behind var was changed by user code: forget every live variable sharing its value."""
        sess = self.sess
        pair = sess.env.get(var)
        if pair is None:
            return
        bad = {n.c for n in pair[1].closure()} if isinstance(pair[1], M.Node) else set()
        for k in list(sess.env):
            n = sess.env[k][1]
            if k == var or (isinstance(n, M.Node) and any(x.h in bad for x in n.closure())) or not isinstance(n, M.Node):
                del sess.env[k]

    def compare_exec(self, pm, act, name):
        if pm.exec_real == pm.exec_model:
            return
        a, b = pm.exec_real, pm.exec_model
        msg = "call #%d to %s ran op bodies %s, expected %s" % (act["id"], name, a, b)
        if pm.ctx is None or pm.ctx[1] == "noop":
            self.violation("mode", msg)
        self.violation("reexec" if len(a) > len(b) else "noexec", msg)

    def check_out(self, out, mout, what):
        if isinstance(mout, M.Node):
            if not hasattr(out, "hid"):
                self.violation("mode", what + " is not a reference")
            self.check_ref(out, mout, what)
        elif isinstance(mout, tuple) and mout and isinstance(mout[0], M.Node):
            if not isinstance(out, tuple) or len(out) != len(mout):
                self.violation("value", what + " has the wrong number of outputs")
            for i, (o, n) in enumerate(zip(out, mout)):
                self.check_out(o, n, what + "[%d]" % i)
        else:
            if V.canon(out) != V.canon(mout):
                self.violation("mode" if hasattr(out, "hid") else "value",
                               "%s is %s, expected %s" % (what, V.canon(out)[:200], V.canon(mout)[:200]))

    def tentative(self, pm, mod_op, margs, mkw):
        """A call was cut off by an I/O error: whatever it would have recorded may or may not be remembered."""
        m = self.model
        if pm.ctx is None or pm.ctx[1] == "noop":
            return
        sm = pm.session()
        mem, dirty, mm = set(sm.mem), set(sm.dirty), set(sm.mem_maybe)
        m.added = []
        pm.op_fault = None
        try:
            mod_op(*margs, **mkw)
        except Exception:
            pass
        added, m.added = m.added, None
        sm.mem, sm.dirty, sm.mem_maybe = mem, dirty, mm
        for h in added:
            if h not in sm.mem and h not in sm.store.disk:
                sm.mem_maybe.add(h)

    # ---- reading
    def do_unwrap(self, act):
        sess, pm = self.sess, self.sess.pm
        if act["var"] not in sess.env:
            raise Skip()
        r, n = sess.env[act["var"]]
        if not isinstance(n, M.Node) or any(x.vp for x in n.closure()):
            raise Skip()
        st = sess.st[act.get("s", 0)]
        val = self.reader(act, lambda: st.unwrap(r, cache=act.get("cache", True)))
        if val is None:
            return
        self.check("unwrap")
        self.trace.append("%sunwrap %s  #%d" % ("  " * len(pm.ctx_stack), act["var"], act["id"]))
        self.check_value(val[0], n, "value of %s read in #%d" % (act["var"], act["id"]))
        if act.get("mutate"):
            V.scramble(val[0])
            self.w.probe("caller_mutation")
            self.taint(act["var"])

    def reader(self, act, fn):
        exc = res = None
        with self.phase(act, "all"):
            try:
                res = fn()
            except (SimCrash, SimStall, HarnessError, Violation):
                raise
            except (Exception, KeyboardInterrupt) as e:
                exc = e
        if exc is not None:
            if self.io_fault_now:
                self.w.probe("read_failed_io")
                return None
            self.violation("unloadable", "%s in #%d fails: %s: %s" % (act["t"], act["id"], type(exc).__name__, exc))
        return (res,)

    def do_attach(self, act):
        sess = self.sess
        if act["var"] not in sess.env:
            raise Skip()
        r, n = sess.env[act["var"]]
        if not isinstance(n, M.Node) or any(x.vp for x in n.closure()):
            raise Skip()
        st = sess.st[act.get("s", 0)]
        inplace = bool(act.get("inplace"))
        res = self.reader(act, lambda: st.attach(r, inplace=inplace))
        if res is None:
            return
        self.check("attach")
        self.trace.append("attach %s inplace=%s #%d" % (act["var"], inplace, act["id"]))
        got = r if inplace else res[0]
        self.check_attached(got, n, "attached %s in #%d" % (act["var"], act["id"]))
        if act.get("mutate"):
            self.scramble_refs(got)
            self.w.probe("caller_mutation")
            self.taint(act["var"])

    def check_attached(self, got, n, what):
        if isinstance(got, list):
            if n.kind != "L" or len(got) != len(n.elts):
                self.violation("value", what + " has a wrong shape")
            for g, e in zip(got, n.elts):
                self.check_attached(g, e, what + "[..]")
        elif isinstance(got, dict):
            if n.kind != "D" or set(got) != set(n.elts):
                self.violation("value", what + " has a wrong shape")
            for k in got:
                self.check_attached(got[k], n.elts[k], what + "[%r]" % k)
        else:
            if n.kind != "A":
                # attach(inplace=True) on a collection keeps the collection reference
                for g, e in (zip(got.obj, n.elts) if n.kind == "L" else [(got.obj[k], n.elts[k]) for k in n.elts]):
                    self.check_attached(g, e, what + "[..]")
                return
            if not got.in_memory:
                self.violation("value", what + " is not in memory")
            self.check_ref(got, n, what)

    def scramble_refs(self, x):
        if isinstance(x, (list, tuple)):
            for e in x:
                self.scramble_refs(e)
        elif isinstance(x, dict):
            for e in x.values():
                self.scramble_refs(e)
        elif hasattr(x, "obj"):
            if type(x).__name__ == "AtomRef":
                V.scramble(x.obj)
            else:
                self.scramble_refs(x.obj)

    def do_load(self, act):
        """Load a reference afresh from the storage by its history id."""
        sess, pm = self.sess, self.sess.pm
        if act["var"] not in sess.env:
            raise Skip()
        r, n = sess.env[act["var"]]
        if not isinstance(n, M.Node) or any(x.vp for x in n.closure()):
            raise Skip()
        sm = pm.sessions[act.get("s", 0)]
        if sm.mem_maybe or sm.store.maybe or sm.store.free:
            raise Skip()
        st = sess.st[act.get("s", 0)]
        res = self.reader(act, lambda: st.load_ref(r.hid))
        if res is None:
            return
        self.check("load")
        self.trace.append("load %s #%d" % (act["var"], act["id"]))
        got = res[0]
        self.check_ref(got, n, "loaded %s in #%d" % (act["var"], act["id"]))
        if act.get("mutate"):
            self.scramble_refs(got)
            self.w.probe("caller_mutation")
        elif act.get("as"):
            sess.env[act["as"]] = (got, n)

    def do_unwrapall(self, act):
        for v in sorted(self.sess.env):
            try:
                self.do_unwrap(dict(act, t="unwrap", var=v, s="vuw".index(v[0])))
            except Skip:
                pass

    # ---- cache management
    def do_clear(self, act):
        sess, pm = self.sess, self.sess.pm
        s = act.get("s", 0)
        st, sm = sess.st[s], pm.sessions[s]
        allow = bool(act.get("allow"))
        err = None
        with self.phase(act, "all"):
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    st.clear_cache(allow_uncommitted=True) if allow else st.clear_cache()
                except (SimCrash, SimStall, HarnessError, Violation):
                    raise
                except (Exception, KeyboardInterrupt) as e:
                    err = e
        self.check("clear")
        self.trace.append("clear_cache(allow=%s) #%d%s" % (allow, act["id"], " -> refused" if err else ""))
        if sm.mem_maybe:
            if err is None:
                if allow:
                    sm.forget()
                    self.prune_env(s)
                else:
                    sm.mem = set(sm.dirty)
            else:
                # what had been cleared before the refusal is only cached data
                pass
            return
        if allow:
            if err is not None:
                self.violation("clear", "clear_cache(allow_uncommitted=True) refused: %s" % err)
            lost = bool(sm.dirty)
            sm.forget()
            if lost:
                # references whose only copy was thrown away on request are not used again
                self.prune_env(s)
        elif sm.dirty:
            if err is None:
                # (a call that was found again after a failed save or drop may have been on disk all the time)
                disk, dm = sm.disk()
                sure = [h for h in sm.dirty if h not in disk and h not in dm]
                if sure:
                    self.violation("clear", "clear_cache() discarded unsaved work without permission (%d calls)" % len(sure))
                sm.forget()
                self.prune_env(s)
        else:
            if err is not None and sm.loose:
                return
            if err is not None:
                self.violation("clear", "clear_cache() refused although nothing is unsaved: %s" % err)
            sm.forget()

    def do_preload(self, act):
        sess, pm = self.sess, self.sess.pm
        s = act.get("s", 0)
        st, sm = sess.st[s], pm.sessions[s]
        which = act.get("which", "all")
        fn = {"all": lambda: st.preload(), "eager": lambda: st.preload(lazy=False), "calls": st.preload_calls,
              "shapes": st.preload_shapes, "atoms": st.preload_atoms, "ops": st.preload_ops}[which]
        self.trace.append("preload %s #%d" % (which, act["id"]))
        err = None
        with self.phase(act, "all"):
            try:
                fn()
            except (SimCrash, SimStall, HarnessError, Violation):
                raise
            except (Exception, KeyboardInterrupt) as e:
                err = e
        if err is not None:
            if not self.io_fault_now:
                self.violation("error", "preload(%s) fails: %s: %s" % (which, type(err).__name__, err))
            err._sim_expected = True
            raise err
        self.check("preload")
        if which in ("all", "eager", "calls") and not sm.store.maybe and not sm.store.free:
            sm.mem |= sm.store.disk

    def do_commit(self, act):
        sess, pm = self.sess, self.sess.pm
        s = act.get("s", 0)
        if pm.ctx is not None and pm.ctx[0] != s:
            raise Skip()
        st, sm = sess.st[s], pm.sessions[s]
        act = dict(act, s=s)
        self.at = (act, "exit", self.faults.get((act["id"], "exit")))
        err = None
        with self.phase(act, "exit"):
            try:
                st.commit()
            except (SimCrash, SimStall, HarnessError, Violation):
                raise
            except (Exception, KeyboardInterrupt) as e:
                err = e
        self.trace.append("commit #%d%s" % (act["id"], " -> %s" % err if err else ""))
        if err is None:
            self.committed(sm)
            return
        if not self.fault_fired_now:
            self.violation("commit_error", "commit fails: %s: %s" % (type(err).__name__, err))
        self.maybe_commit(sm)
        self.w.probe("failed_save")
        err._sim_expected = True
        raise err

    # ---- dropping and cleaning
    def do_drop(self, act):
        """Drop the calls that created the given variables."""
        sess, pm = self.sess, self.sess.pm
        s = act.get("s", 0)
        st, sm = sess.st[s], pm.sessions[s]
        store = sm.store
        if store.maybe or store.free or sm.mem_maybe:
            self.audit(s, "before drop")
            if sm.mem_maybe or store.maybe or store.free:
                raise Skip()
        deps = bool(act.get("deps"))
        allh = sm.mem | store.disk
        recs = {h: store.recs[h] for h in allh}
        start = set()
        for v in act["vars"]:
            if isinstance(v, list) and v[0] == "#":
                if allh:
                    start.add(sorted(allh)[v[1] % len(allh)])
                continue
            name = v if isinstance(v, str) else v[0]
            if name not in sess.env:
                continue
            n = sess.env[name][1]
            if not isinstance(n, M.Node):
                continue
            if isinstance(v, list) and n.kind != "A" and n.elts:
                n = n.elts[v[1] % len(n.elts)] if n.kind == "L" else n.elts[sorted(n.elts)[v[1] % len(n.elts)]]
            for h, r in recs.items():
                if any(o.h == n.h for o in r.outs.values()):
                    start.add(h)
        if not start:
            raise Skip()
        # the user names calls by id or by Call object; ids are learnt from the references
        hids = []
        for h in sorted(start):
            hid = self.call_hid(s, recs[h])
            if hid is None:
                raise Skip()
            hids.append(hid)
        gone = set(start)
        if deps:
            gone |= M.Model.dependents(recs, start)
        how = act.get("how", "list")
        arg = hids if how == "list" else set(hids) if how == "set" else tuple(hids)
        if how == "calls":
            try:
                with K.quiet(self.w):
                    arg = [st.get_call(x, lazy=True) for x in hids]
            except Exception:
                arg = hids
        elif how == "iter":
            arg = (x for x in hids)
            arg = hids
        err = None
        with self.phase(act, "all"):
            try:
                st.drop_calls(arg, delete_dependents=deps)
            except (SimCrash, SimStall, HarnessError, Violation) as e:
                if isinstance(e, SimCrash):
                    on = frozenset(gone & store.disk)
                    if on:
                        store.maybe.append(("del", on))
                raise
            except (Exception, KeyboardInterrupt) as e:
                err = e
        self.trace.append("drop %s deps=%s #%d -> %d calls%s" % (act["vars"], deps, act["id"], len(gone), " FAILED %s" % err if err else ""))
        self.check("drop")
        if err is not None:
            if not self.fault_fired_now:
                self.violation("error", "drop_calls fails: %s: %s" % (type(err).__name__, err))
            on = frozenset(gone & store.disk)
            if on:
                store.maybe.append(("del", on))
                store.phantom = store.phantom or any(f[1] == "vfs" for f in self.w.fired)
            # in memory the drop may or may not have happened, for each of them
            for h in gone & sm.mem:
                sm.mem.discard(h)
                if h in sm.dirty:
                    sm.dirty.discard(h)
                    sm.mem_maybe.add(h)
            err._sim_expected = True
            raise err
        if gone & store.disk:
            store.soft = []
            store.phantom = False
        store.disk -= gone
        sm.mem -= gone
        if sm.dirty & gone:
            sm.loose = True      # values and references of the dropped calls are still unsaved
        sm.dirty -= gone

    def do_redo(self, act):
        """The user changes the ops upd and updl: drops all of their calls with whatever depends on them, and goes on."""
        sess, pm = self.sess, self.sess.pm
        if len(self.plan["storages"]) > 1 or pm.ctx is not None:
            raise Skip()
        sm = pm.sessions[0]
        self.audit(0, "before redo")
        store = sm.store
        if store.maybe or store.free or sm.mem_maybe or store.phantom or sm.dirty or store.soft:
            raise Skip()
        live = sorted(sm.mem | store.disk)
        victims = [["#", i] for i, h in enumerate(live) if store.recs[h].op in ("upd", "updl")]
        if victims:
            self.do_drop(dict(act, vars=victims, deps=True))
        # the model forgets whatever is not recorded now
        live = sm.mem | store.disk
        if any(store.recs[h].op in ("upd", "updl") for h in live):
            raise Skip()
        # results the change affects; a user who still uses old ones in recorded calls has not dropped what depends on the change
        tainted, grew = set(), True
        while grew:
            grew = False
            for r in store.recs.values():
                if r.h in tainted:
                    continue
                if r.op in ("upd", "updl") or any(e.h in tainted for n in r.refs() for e in n.closure()):
                    tainted.add(r.h)
                    tainted |= {e.h for n in r.outs.values() for e in n.closure()}
                    grew = True
        if tainted & live or any(e.h in tainted for h in live for n in store.recs[h].refs() for e in n.closure()):
            raise Skip()
        for h in list(store.recs):
            if h not in live:
                r = store.recs.pop(h)
                store.by_ck[r.ck].remove(h)
        self.ep += 2
        self.w.probe("redo")
        self.prune_env(0)
        for k in list(self.sess.env):
            n = self.sess.env[k][1]
            if k[0] == "v" and isinstance(n, M.Node) and any(x.h in tainted for x in n.closure()):
                del self.sess.env[k]

    def call_hid(self, s, rec):
        """The package's id of a recorded call: learnt from audits, or from the storage's own in-memory table."""
        hid = self.bind.h2hid.get("call:" + rec.h)
        if hid is not None:
            return hid
        with K.quiet(self.w):
            st = self.sess.st[s]
            want = {n: self.bind.h2hid.get(o.h) for n, o in rec.outs.items()}
            if any(v is None for v in want.values()):
                return None
            try:
                hids = st.call_cache.get_creator_hids(list(want.values())) or st.call_storage.get_creator_hids(list(want.values()))
            except sqlite3.OperationalError:
                if self.w.holding:      # another process has held the lock for longer than the package waits
                    raise Skip()
                raise
            hids = [h for h in hids]
            if len(hids) != 1:
                return None
            return hids[0]

    def do_cleanup(self, act):
        sess, pm = self.sess, self.sess.pm
        s = act.get("s", 0)
        if pm.ctx is not None:
            raise Skip()
        st, sm = sess.st[s], pm.sessions[s]
        store = sm.store
        err = None
        self.cleanup_running = True
        with self.phase(act, "all"):
            try:
                st.cleanup_refs()
            except (SimCrash, SimStall, HarnessError, Violation):
                raise
            except (Exception, KeyboardInterrupt) as e:
                err = e
        self.trace.append("cleanup #%d%s" % (act["id"], " FAILED %s" % err if err else ""))
        self.check("cleanup")
        # references that no recorded call reaches may be gone now: the user no longer has them
        self.prune_env(s)
        if err is not None:
            if not self.io_fault_now and not self.fault_fired_now:
                self.violation("error", "cleanup_refs fails: %s: %s" % (type(err).__name__, err))
            err._sim_expected = True
            raise err
        if not (store.maybe or store.free or sm.mem_maybe or sm.dirty):
            self.audit(s, "after cleanup", exact_refs=True)

    def prune_env(self, s):
        sm = self.sess.pm.sessions[s]
        store = sm.store
        allh = sm.mem | store.disk
        refs, cs = set(), set()
        for h in allh:
            for n in store.recs[h].refs():
                for e in n.closure():
                    refs.add(e.h)
        for k in list(self.sess.env):
            n = self.sess.env[k][1]
            if k[0] == "vuw"[s] and isinstance(n, M.Node) and any(x.h not in refs for x in n.closure()):
                del self.sess.env[k]

    # ---- process lifetime
    def do_restart(self, act):
        if self.sess.pm.ctx is not None:
            raise Skip()
        self.trace.append("restart (%s) #%d" % (act["how"], act["id"]))
        how = act["how"]
        power = dict(seed=act.get("seed", 1), mode=act.get("pmode", 0)) if how == "power" else None
        # unsaved work (left by a failed save) dies with the process
        self.end_process("exit" if how == "exit" else "kill", power)
        if act.get("audit", True):
            self.audit_all("after restart")
        self.mark(act, "open")
        err = None
        with self.phase(act, "open"):
            try:
                self.start()
            except (SimCrash, SimStall, HarnessError, Violation):
                raise
            except (Exception, KeyboardInterrupt) as e:
                err = e
        if err is not None:
            if not self.io_fault_now:
                raise err
            self.w.probe("open_failed_io")
            self.end_process("kill")

    def do_rerun(self, act):
        """A new process runs the same program again (calls only)."""
        self.do_restart(dict(act, t="restart", how=act.get("how", "exit")))
        if self.sess is None:
            self.restart_after_death()
        saved, self.faults = self.faults, {}
        for a in self.plan["actions"]:
            if a["id"] == act["id"]:
                break
            b = only_calls(a)
            if b is not None:
                try:
                    self.do(b)
                except Skip:
                    pass
                except (Exception, KeyboardInterrupt) as e:
                    if getattr(e, "_sim_expected", None) is None:
                        raise
        self.do_unwrapall(dict(act, cache=True))
        self.faults = saved

    def do_fork(self, act):
        raise HarnessError("not supported here")

    # ---- provenance
    def do_query(self, act):
        sess, pm = self.sess, self.sess.pm
        s = act.get("s", 0)
        if pm.ctx is not None or act["var"] not in sess.env:
            raise Skip()
        r, n = sess.env[act["var"]]
        if not isinstance(n, M.Node):
            raise Skip()
        st, sm = sess.st[s], pm.sessions[s]
        self.audit(s, "before query")
        store = sm.store
        if store.maybe or store.free:
            raise Skip()
        recs = {h: store.recs[h] for h in store.disk}
        self.trace.append("query %s #%d" % (act["var"], act["id"]))
        self.check("query")

        def keys(calls):
            return sorted(self.bind.hid2h.get(c if isinstance(c, str) else c.hid, "?" + str(c)) for c in calls)

        got, bad = {}, None
        with self.phase(act, "all"):
            try:
                c = st.get_ref_creator(r)
                got["creator"] = keys([c] if c is not None else [])
                got["consumers"] = keys(st.get_consumers([r.hid]))
                got["creators"] = keys(st.get_creators([r.hid]))
                a, b = st.call_storage.get_dependencies(ref_hids={r.hid}, call_hids=set())
                got["dependencies"] = (sorted(self.bind.hid2h.get(x, "?" + x) for x in a), keys(b))
                a, b = st.call_storage.get_dependents(ref_hids={r.hid}, call_hids=set())
                got["dependents"] = (sorted(self.bind.hid2h.get(x, "?" + x) for x in a), keys(b))
                if c is not None:
                    full = st.get_call(c.hid, lazy=True)
                    got["io"] = ({k: self.bind.hid2h.get(v.hid) for k, v in full.inputs.items()},
                                 {k: self.bind.hid2h.get(v.hid) for k, v in full.outputs.items()}, full.op.name)
            except (SimCrash, SimStall, HarnessError, Violation):
                raise
            except (Exception, KeyboardInterrupt) as e:
                bad = e
        if bad is not None:
                if not self.fault_fired_now:
                    e = bad
                    self.violation("prov", "provenance query on %s fails: %s: %s" % (act["var"], type(e).__name__, e))
                return
        want = {}
        cr = [x for x in recs.values() if any(o.h == n.h for o in x.outs.values())]
        want["creator"] = want["creators"] = sorted("call:" + x.h for x in cr)
        want["consumers"] = sorted("call:" + x.h for x in recs.values() if any(i.h == n.h for i in x.ins.values()))
        want["dependencies"] = graph_closure(recs, n.h, up=True)
        want["dependents"] = graph_closure(recs, n.h, up=False)
        if cr:
            want["io"] = ({k: v.h for k, v in cr[0].ins.items()}, {k: v.h for k, v in cr[0].outs.items()}, cr[0].op)
        for k in want:
            if want[k] != got.get(k):
                self.violation("prov", "%s of %s reported as %s, really %s" % (k, act["var"], str(got.get(k))[:300], str(want[k])[:300]))

    # ------------------------------------------------------------------ computation frames
    def do_frames(self, act):
        """A program of frame operations over what the store has recorded, in lockstep with the set model."""
        sess, pm = self.sess, self.sess.pm
        s = act.get("s", 0)
        if pm.ctx is not None:
            raise Skip()
        st, sm = sess.st[s], pm.sessions[s]
        self.audit(s, "before frames")
        store = sm.store
        if store.maybe or store.free or sm.mem_maybe or store.phantom or sm.dirty or not store.disk:
            raise Skip()
        h2hid, calls, nodes = self.bind.h2hid, {}, {}
        for h in store.disk:
            r = store.recs[h]
            if "call:" + h not in h2hid or any(n.h not in h2hid or any(e.vp for e in n.closure()) for n in r.refs()):
                raise Skip()
            calls[h2hid["call:" + h]] = F.T(r.op, {k: h2hid[n.h] for k, n in r.ins.items()}, {k: h2hid[n.h] for k, n in r.outs.items()})
            for n in r.refs():
                nodes[h2hid[n.h]] = n
        truth = F.Truth(calls, nodes)
        mod = types.SimpleNamespace(ComputationFrame=sess.proc.mod("cf").ComputationFrame,
                                    **{k: getattr(sess.proc.mod("model"), k) for k in ("Ref", "Call", "RefCollection", "CallCollection", "ValueCollection")})
        self.trace.append("frames over %d calls #%d" % (len(calls), act["id"]))
        self.check("frames")
        refs = F.Refs(truth, st, {r.hid: r for r, n in sess.env.values() if isinstance(n, M.Node)}, act.get("own", True))
        ops = {o: sess.ns[o] for o in truth.ops() if o in sess.ns}
        prog = F.Program(st, mod, truth, refs, ops, V.canon, self.w.probe)
        gone = set()

        def delete(start, fn):
            back = {h2hid["call:" + h]: h for h in store.disk}
            first = {back[c] for c in start}
            gone.update(first | M.Model.dependents({h: store.recs[h] for h in sm.mem | store.disk}, first))
            self.trace.append("    delete %d calls -> %d" % (len(first), len(gone)))
            fn()

        prog.delete = delete
        err = None
        with self.phase(act, "all"):
            try:
                prog.run(act["steps"])
            except F.Bad as e:
                self.violation(e.cls, e.msg)
            except (SimCrash, SimStall, HarnessError, Violation) as e:
                if isinstance(e, SimCrash) and gone & store.disk:
                    store.maybe.append(("del", frozenset(gone & store.disk)))
                raise
            except (Exception, KeyboardInterrupt) as e:
                err = e
        for k, n in prog.checked.items():
            self.check(k, n)
        if err is not None:
            if not self.fault_fired_now:
                import traceback
                self.violation(prog.blame(), "%s (frame step %d: %s): %s: %s, at %s" % (
                    "a frame operation fails", prog.n, prog.step, type(err).__name__, err,
                    " < ".join("%s:%d" % (f.name, f.lineno) for f in traceback.extract_tb(err.__traceback__)[:-6:-1])))
            self.w.probe("frames_interrupted")
            self.trace.append("    FAILED %s" % err)
            if gone & store.disk:
                store.maybe.append(("del", frozenset(gone & store.disk)))
                store.phantom = store.phantom or any(f[1] == "vfs" for f in self.w.fired)
            for h in gone & sm.mem:
                sm.mem.discard(h)
            err._sim_expected = True
            raise err
        if gone:
            store.soft, store.phantom = [], False
            store.disk -= gone
            sm.mem -= gone
            self.w.probe("frame_deleted_calls", len(gone))
            self.audit(s, "after deleting the calls of a frame")

    # ------------------------------------------------------------------ audit of the store
    def do_audit(self, act):
        self.audit_all("on request")

    def audit_all(self, when):
        for s, cfg in enumerate(self.plan["storages"]):
            if s in self.stores:
                self.audit(s, when)

    def someone_alive(self):
        return self.sess is not None

    def copy_store(self, s):
        self.naudit += 1
        d = os.path.join(self.root, "audit%d" % self.naudit)
        os.makedirs(d)
        cfg = self.plan["storages"][s]
        dst = os.path.join(d, "s.db")
        if cfg.get("memory"):
            if self.sess is None:
                return None, None, d
            c = K._real["connect"](dst)
            self.sess.st[s].conn().backup(c)
            c.close()
        else:
            src = self.db_path(s)
            if not os.path.exists(src):
                return None, None, d
            shutil.copyfile(src, dst)
            if os.path.exists(src + "-wal"):
                shutil.copyfile(src + "-wal", dst + "-wal")
            if os.path.exists(src + "-journal"):
                shutil.copyfile(src + "-journal", dst + "-journal")
        ovf = None
        if cfg.get("overflow"):
            ovf = os.path.join(d, "ovf")
            shutil.copytree(self.ovf_path(s), ovf) if os.path.isdir(self.ovf_path(s)) else os.makedirs(ovf)
        return dst, ovf, d

    def audit(self, s, when, exact_refs=False):
        """Another process opens the store as it is on disk now and compares everything in it with the model."""
        w = self.w
        w.probe("audits")
        with K.quiet(w):
            cur = self.sess.proc if self.sess else None
            path, ovf, d = self.copy_store(s)
            if path is None:
                shutil.rmtree(d, ignore_errors=True)
                return
            try:
                if self.auditor is None:
                    self.auditor = w.new_proc()
                w.switch(self.auditor)
                try:
                    self._audit(s, path, ovf, when, exact_refs)
                except AuditSkip:
                    pass
            finally:
                for c in list(w.conns):
                    if c.sim_owner == self.auditor.pid:
                        try:
                            sqlite3.Connection.close(c)
                        except sqlite3.Error:
                            pass
                        w.conns.discard(c)
                w.switch(cur)
                shutil.rmtree(d, ignore_errors=True)

    def _audit(self, s, path, ovf, when, exact_refs):
        cfg = self.plan["storages"][s]
        api = self.auditor
        store = self.store(s)
        kw = dict(overflow_dir=ovf, overflow_threshold_MB=cfg["threshold"]) if ovf else {}
        self.check("audit")
        try:
            st = api.mod("storage").Storage(db_path=path, **kw)
            df = st.call_storage.get_df().reset_index()
            shapes = st.shapes.persistent.load_all()
        except Exception as e:
            raise Violation("open", "%s: the store cannot be reopened: %s: %s" % (when, type(e).__name__, e))
        calls = {}
        for row in df.to_dict("records"):
            c = calls.setdefault(row["call_history_id"], dict(op=row["op"], cid=row["call_content_id"], ins={}, outs={}))
            if row["op"] != c["op"] or row["call_content_id"] != c["cid"] or row["direction"] not in ("in", "out"):
                raise Violation("prov", "%s: inconsistent rows for call %s" % (when, row["call_history_id"]))
            c["ins" if row["direction"] == "in" else "outs"][row["name"]] = (row["ref_history_id"], row["ref_content_id"])
        # every reference of every call must be loadable, complete and match its content id
        vals = {}
        ghash = api.mod("utils").get_content_hash
        VP = api.mod("model").ValuePointer

        def load(hid, cid, what):
            if hid in vals:
                return vals[hid]
            try:
                ref = st.load_ref(hid)
                if ref.cid != cid:
                    raise Violation("badhash", "%s: %s: reference %s has content id %s but the call says %s" % (when, what, hid, ref.cid, cid))
                if type(ref).__name__ == "AtomRef":
                    if isinstance(ref.obj, VP):
                        vals[hid] = ("VP:" + ref.obj.id, ("A",))
                    else:
                        if ghash(ref.obj) != cid:
                            raise Violation("badhash", "%s: %s: the stored value %s does not hash to its content id"
                                            % (when, what, V.canon(ref.obj)[:150]))
                        vals[hid] = (M.short("A:" + V.canon(ref.obj)), ("A",))
                else:
                    shape = shapes[hid] if hid in shapes else st.shapes[hid]
                    if type(shape).__name__ == "ListRef":
                        es = [load(e.hid, e.cid, what + "[%d]" % i) for i, e in enumerate(shape.obj)]
                        vals[hid] = (M.short("L[" + ",".join(e[0] for e in es) + "]") if es else M.EMPTY_LIST, ("L", [e.hid for e in shape.obj]))
                    else:
                        es = {k: load(e.hid, e.cid, what + "[%r]" % k) for k, e in shape.obj.items()}
                        vals[hid] = (M.short("D{" + ",".join(k + ":" + es[k][0] for k in sorted(es)) + "}"),
                                     ("D", {k: e.hid for k, e in shape.obj.items()}))
                    got = V.canon(st.unwrap(ref))
                    if len(got) < 0:
                        raise HarnessError()
                self.bind.cid(cid, vals[hid][0])
            except (Violation, HarnessError):
                raise
            except Exception as e:
                raise Violation("unloadable", "%s: %s of a recorded call cannot be loaded: %s: %s" % (when, what, type(e).__name__, e))
            return vals[hid]

        for hid, c in calls.items():
            self.check("audited_call")
            for d in ("ins", "outs"):
                for name, (rh, rc) in c[d].items():
                    load(rh, rc, "%s %r of %s" % ("input" if d == "ins" else "output", name, c["op"]))
            try:
                full = st.get_call(hid, lazy=True)
                if full.op.name != c["op"]:
                    raise Violation("prov", "%s: call %s loads with op %s" % (when, hid, full.op.name))
            except Violation:
                raise
            except Exception as e:
                raise Violation("unloadable", "%s: recorded call to %s cannot be loaded: %s: %s" % (when, c["op"], type(e).__name__, e))
        # histories
        creator = {}
        for hid, c in calls.items():
            for name, (rh, rc) in c["outs"].items():
                if rh in creator and creator[rh][0] != hid:
                    raise Violation("prov", "%s: reference %s has two creators" % (when, rh))
                creator[rh] = (hid, name)
        hist, chist, busy = {}, {}, set()

        def rhist(rh):
            if rh in hist:
                return hist[rh]
            if rh in busy:
                raise Violation("prov", "%s: reference %s is its own ancestor" % (when, rh))
            busy.add(rh)
            if rh in creator:
                hid, name = creator[rh]
                h = M.short(callhist(hid) + "." + name)
            elif rh in self.bind.hid2h:
                h = self.bind.hid2h[rh]
            else:
                c, k = vals[rh]
                if k[0] == "A":
                    h = M.short("raw(" + c + ")")
                else:
                    # a collection whose creation is not recorded (its saving was cut off): the history it must have
                    if any(e in creator and rh in [x[0] for x in calls[creator[e][0]]["ins"].values()]
                           for e in (k[1] if k[0] == "L" else k[1].values())):
                        hist[rh] = self.cut_off_output(store, rh, c)
                        busy.discard(rh)
                        return hist[rh]
                    ins = {"elts_%d" % i: e for i, e in enumerate(k[1])} if k[0] == "L" else k[1]
                    h = M.short(M.short("%s(%s)" % ("__make_list__" if k[0] == "L" else "__make_dict__", ",".join(
                        "%s=%s" % (n, rhist(ins[n])) for n in sorted(ins)))) + (".list" if k[0] == "L" else ".dict"))
            busy.discard(rh)
            hist[rh] = h
            return h

        def callhist(hid):
            if hid not in chist:
                c = calls[hid]
                chist[hid] = M.short("%s(%s)" % (self.opname(c), ",".join("%s=%s" % (n, rhist(c["ins"][n][0])) for n in sorted(c["ins"]))))
            return chist[hid]

        observed = set()
        for hid, c in calls.items():
            h = callhist(hid)
            rec = store.recs.get(h)
            if rec is None:
                raise Violation("extra", "%s: the store contains a call that was never made: %s" % (when, h[:300]))
            if h in observed:
                raise Violation("extra", "%s: the store contains the same call twice: %s" % (when, h[:300]))
            observed.add(h)
            self.bind.hid(hid, "call:" + h)
            for d, nodes in (("ins", rec.ins), ("outs", rec.outs)):
                if set(nodes) != set(c[d]):
                    raise Violation("prov", "%s: %s of %s recorded as %s, really %s" % (when, "arguments" if d == "ins" else "outputs", h[:200], sorted(c[d]), sorted(nodes)))
                for name, n in nodes.items():
                    rh, rc = c[d][name]
                    self.bind.cid(rc, n.c)
                    self.bind.hid(rh, n.h)
                    if vals[rh][0] != n.c:
                        raise Violation("value", "%s: %s %r of %s is stored as %s, really %s" % (when, d, name, h[:120], vals[rh][0][:150], n.c[:150]))
                    self.compare_struct(vals, rh, n, when, h)
        # which calls are there
        cands = store.candidates()
        free = store.free
        if not any((observed - free) == (c - free) for c in cands):
            best = min(cands, key=lambda c: len((observed ^ c) - free))
            lost, extra = sorted(best - observed - free), sorted(observed - best - free)
            msg = "%s: store differs from every acceptable state: %d calls missing%s, %d too many%s" % (
                when, len(lost), " e.g. " + lost[0][:200] if lost else "", len(extra), " e.g. " + extra[0][:200] if extra else "")
            if len(cands) > 1 and lost and extra or (len(cands) > 1):
                raise Violation("partial", msg)
            raise Violation("lost" if lost else "extra", msg)
        self.last_audit = len(observed)
        dmaybe = bool(store.maybe or store.free)
        if not store.inflight and not (store.phantom and self.someone_alive() and not cfg.get("memory")):
            # (an I/O error inside a commit leaves the outcome open as long as the process lives)
            store.resolve(observed)
        if dmaybe:
            self.w.probe("resolved_maybe")
        if exact_refs:
            reach = set()
            for h in observed:
                for n in store.recs[h].refs():
                    for e in n.closure():
                        reach.add(self.bind.h2hid.get(e.h))
            left = set(shapes) - reach
            if left:
                raise Violation("garbage", "%s: %d references that no call reaches remain" % (when, len(left)))
            cids = {sh.cid for sh in shapes.values()}
            left = set(st.atoms.persistent.keys()) - cids
            if left:
                raise Violation("garbage", "%s: %d values that no call reaches remain" % (when, len(left)))
        self.note_state(observed)

    def cut_off_output(self, store, rh, c):
        """An output collection known only through the calls that took it apart."""
        hs = {n.h for r in store.recs.values() if not r.struct for n0 in r.outs.values() for n in n0.closure()
              if n.kind != "A" and n.c == c and n.h not in self.bind.h2hid}
        if len(hs) != 1:
            self.w.probe("audit_ambiguous")
            raise AuditSkip()
        return hs.pop()

    def opname(self, c):
        return c["op"]

    def note_state(self, observed):
        self.states.add(hash(frozenset(observed)) & 0xFFFFFFFFFFFF)

    def compare_struct(self, vals, rh, n, when, h):
        k = vals[rh][1]
        if k[0] != n.kind:
            raise Violation("value", "%s: %s has kind %s in the store" % (when, n.h[:150], k[0]))
        if n.kind == "L":
            if len(k[1]) != len(n.elts):
                raise Violation("value", "%s: %s has %d elements in the store" % (when, n.h[:150], len(k[1])))
            for eh, e in zip(k[1], n.elts):
                self.bind.hid(eh, e.h)
                self.compare_struct(vals, eh, e, when, h)
        elif n.kind == "D":
            if set(k[1]) != set(n.elts):
                raise Violation("value", "%s: %s has other keys in the store" % (when, n.h[:150]))
            for key, eh in k[1].items():
                self.bind.hid(eh, n.elts[key].h)
                self.compare_struct(vals, eh, n.elts[key], when, h)

    @property
    def states(self):
        if not hasattr(self, "_states"):
            self._states = set()
        return self._states

    def finish(self):
        self.w.release_all()
        if self.sess is not None:
            self.end_process("exit")
        self.audit_all("at the end")

    def close(self):
        try:
            if self.sess is not None:
                self.end_process("kill")
        except BaseException:
            pass
        self.w.release_all()
        for c in list(self.w.conns):
            try:
                sqlite3.Connection.close(c)
            except Exception:
                pass
        for k in [k for k in sys.modules if k == "mandala" or k.startswith("mandala.")]:
            del sys.modules[k]
        K.set_world(None)
        K._vfs.simvfs_set_current(0)
        for p in self.w.procs.values():
            p.data.clear()
            p.mods = {}
        self.auditor = None
        gc.collect()
        K._vfs.simvfs_forget()
        self.remove_root()

    def remove_root(self):
        shutil.rmtree(self.root, ignore_errors=True)


def _uses_var(sp):
    t = json.dumps(sp)
    return '"v"' in t or '"e"' in t


def _has_ref(x):
    if isinstance(x, M.Node):
        return True
    if type(x) is list or type(x) is tuple:
        return any(_has_ref(e) for e in x)
    if type(x) is dict:
        return any(_has_ref(e) for e in x.values())
    return False


def graph_closure(recs, h, up):
    refs, calls = {h}, set()
    todo = [h]
    while todo:
        x = todo.pop()
        for r in recs.values():
            a, b = (r.outs, r.ins) if up else (r.ins, r.outs)
            if any(n.h == x for n in a.values()) and "call:" + r.h not in calls:
                calls.add("call:" + r.h)
                for n in b.values():
                    if n.h not in refs:
                        refs.add(n.h)
                        todo.append(n.h)
    return sorted(refs), sorted(calls)


def only_calls(a):
    if a["t"] == "call":
        return a
    if a["t"] == "with":
        return dict(a, body=[b for b in (only_calls(x) for x in a["body"]) if b is not None], catch=True)
    return None


def fmt(a):
    t = a[0]
    if t in ("c", "cr"):
        return repr(V.CONSTS[a[1] % len(V.CONSTS)]())[:40]
    if t == "k":
        return repr(a[1])
    if t == "r":
        return "value(%s)" % a[1]
    if t == "v":
        return a[1]
    if t == "e":
        return "%s[%s]" % (a[1], a[2])
    if t == "L":
        return "[" + ", ".join(fmt(x) for x in a[1]) + "]"
    if t == "D":
        return "{" + ", ".join("%r: %s" % (k, fmt(x)) for k, x in a[1].items()) + "}"
    if t == "vp":
        return "VP(%r)" % a[1]
    if t == "ig":
        return "Ignore(%s)" % fmt(a[1])
    return repr(a)
