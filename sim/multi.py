"""
Several simulated processes on one database: every client is a Run of its own program (own process, own memory, own faults)
under one scheduler, one disk and one reference model. Yield points are the SQL statements, overflow-file operations, op
bodies, waits and sleeps of each client; the schedule is drawn from the run's seed and recorded, so it can be replayed.
"""
from __future__ import annotations
import os, random, zlib
from . import kernel as K, model as M
from .engine import Run, Session, Violation, Skip, walk
from .kernel import SimCrash, SimStall, HarnessError


class Trace:
    def __init__(self, out, tag):
        self.out, self.tag = out, tag

    def append(self, s):
        self.out.append("%s %s" % (self.tag, s))


class ClientRun(Run):
    def __init__(self, parent, cid, spec):
        self.parent, self.cid, self.spec = parent, cid, spec
        ids = {a["id"] for a in walk(spec["actions"])}
        self.plan = dict(parent.plan, actions=spec["actions"])
        self.root, self.w, self.model, self.stores, self.bind = parent.root, parent.w, parent.model, parent.stores, parent.bind
        self.sess = None
        self.faults = {(f["id"], f.get("phase", "all")): f for f in reversed(parent.plan.get("faults", [])) if f["id"] in ids}
        self.counts, self.checks, self._states = parent.counts, parent.checks, parent.states
        self.fault_fired_now = self.io_fault_now = False
        self.trace = Trace(parent.trace, "[p%d]" % cid)
        self.auditor = None
        self.last_error = None
        self.max_wait = 0.0
        self.ep = 0
        self.client = None

    def someone_alive(self):
        return any(c.sess is not None for c in self.parent.clients)

    # ---- shared odds and ends
    def copy_store(self, s):
        self.naudit = self.parent.naudit
        try:
            return Run.copy_store(self, s)
        finally:
            self.parent.naudit = self.naudit

    def audit(self, s, when, exact_refs=False):
        self.auditor = self.parent.auditor
        try:
            Run.audit(self, s, when, exact_refs)
        finally:
            self.parent.auditor = self.auditor

    # ---- life
    def body(self, c):
        if self.spec.get("delay"):
            self.w.sleep(self.spec["delay"], why="delay")
        self.execute()

    def start(self):
        while True:
            self.parent.wait_power(self)
            while self.w.holding:
                self.w.sleep(20, why="lock")
            h = self.w.holds
            try:
                Run.start(self)
                return
            except SimCrash:
                self.crash(dict(id=0, s=0), "open", None)
            except (Violation, K.sqlite3.OperationalError) as v:
                if getattr(v, "cls", "open") != "open" or not (self.w.holds != h or self.w.holding):
                    raise
                # another program took the database lock meanwhile
                self.end_process("kill")
                self.w.sleep(100, why="lock")

    @property
    def sess(self):
        return self._sess

    @sess.setter
    def sess(self, v):
        self._sess = v
        if getattr(self, "client", None) is not None:
            self.client.proc = v.proc if v is not None else None

    def finish(self):
        if self.sess is not None:
            self.end_process("exit")

    def restart_after_death(self):
        self.start()

    def end_process(self, how, power=None):
        # frames of a commit that was cut off are invisible to processes that still run, but would be recovered by one that
        # opens the database when none is left
        ph = [st for st in self.stores.values() if st.phantom]
        if power is None:
            Run.end_process(self, how, None)
            if any(c.sess is not None for c in self.parent.clients):
                for st in ph:
                    st.phantom = True
            return
        self.parent.machine_down(self, how, power)

    def crash(self, act, ph, fault):
        if self.parent.power_owner not in (None, self):
            fault = None           # the machine went down under this process
        elif self.parent.power_owner is None and (fault or {}).get("power"):
            self.parent.power_owner = self
        s = self.sess
        if s is None:
            self.parent.wait_power(self)
            return
        if ph in ("exit", "commit"):
            sm = s.pm.sessions.get(act.get("s", 0) if ph == "exit" else 0)
            if sm is not None:
                self.maybe_commit(sm)
        self.store(0).inflight.pop(self.cid, None)
        self.trace.append("-- process killed during action %s (%s)" % (act.get("id") if act else "?", ph))
        self.w.check_quiet_reset()
        power = (fault or {}).get("power")
        self.end_process("kill", power)
        if power is None:
            self.parent.wait_power(self)
        self.audit_all("after crash")

    # ---- saving
    def phase(self, act, ph):
        cm = Run.phase(self, act, ph)
        if ph == "exit":
            return Saving(self, act, cm)
        return cm

    def do(self, act):
        sm = self.sess.pm.sessions.get(0) if self.sess else None
        if sm is not None:
            sm.live = M.Live(sm.store, self.cid)
        Run.do(self, act)

    def after_top(self, act):
        if self.overtime and self.overtime[1] == "open":
            self.overtime = None       # (start() waits for the lock as long as it takes)
        Run.after_top(self, act)


class Saving:
    """The exit phase of a block: what this client saves becomes visible to the others at some moment inside it."""

    def __init__(self, run, act, cm):
        self.run, self.act, self.cm = run, act, cm

    def __enter__(self):
        r = self.run
        sm = r.sess.pm.sessions[0]
        outermost = r.sess.pm.ctx_stack and len(r.sess.pm.ctx_stack) == 1 or self.act["t"] == "commit"
        b = frozenset(sm.dirty | sm.mem_maybe) if outermost else frozenset()
        self.b = b
        if b:
            if sm.mem_maybe:
                sm.store.free |= sm.mem_maybe
            sm.store.inflight[r.cid] = frozenset(sm.dirty)
            for other in r.parent.clients:
                if other is not r and other.sess is not None:
                    o = other.sess.pm.sessions.get(0)
                    if o is not None and o.live is not None:
                        o.live.seen |= b
        return self.cm.__enter__()

    def __exit__(self, et, ev, tb):
        r = self.run
        out = self.cm.__exit__(et, ev, tb)
        if et is None or not issubclass(et, (SimCrash, SimStall, HarnessError, Violation)):
            # no switch happens before the model is told how it ended
            if self.b:
                r.store(0).inflight.pop(r.cid, None)
        return out


class MultiRun(Run):
    def __init__(self, plan, root, keep_log=False):
        super().__init__(dict(plan, actions=[]), root, keep_log)
        self.power_owner = None
        self.clients = []
        self.extra = {}

    def execute(self):
        plan = self.plan
        rng = random.Random("%s/schedule" % plan.get("sseed", plan.get("seed", 0)))
        forced = plan.get("schedule")
        if forced is not None:
            forced = {int(k): v for k, v in forced.items()}
        self.sched = K.Scheduler(self.w, plan.get("preempt", 0.2), rng, forced)
        for i, spec in enumerate(plan["clients"]):
            c = ClientRun(self, i, spec)
            c.client = self.sched.add(None, c.body)
            self.clients.append(c)
        self.observed = 0
        if plan.get("observe"):
            self.sched.on_yield = self.on_yield
        try:
            self.sched.run()
        except SimStall as e:
            raise Violation("hang", str(e))
        finally:
            self.extra = dict(schedule={str(k): v for k, v in self.sched.taken.items()}, switches=self.sched.switches)
        self.max_wait = max(c.max_wait for c in self.clients)
        self.w.probe("context_switches", self.sched.switches)
        self.w.release_all()
        self.store(0).phantom = False
        self.w.switch(None)
        self.audit_all("at the end")

    def on_yield(self, idx):
        """A fresh observer looks at the database at arbitrary moments."""
        if self.observed >= self.plan.get("max_observe", 10):
            return
        if zlib.crc32(b"%d:%d" % (self.plan.get("seed", 0), idx)) % 1000 >= self.plan["observe"] or not os.path.exists(self.db_path(0)):
            return
        cl = self.clients[self.w.cur_client.cid]
        if cl.sess is None or not self.w.alive():
            return
        self.observed += 1
        self.w.probe("observations")
        cl.audit(0, "seen by another process at switch point %d" % idx)

    # ---- power failure of the machine all clients run on
    def machine_down(self, who, how, power):
        self.power_owner = who
        for c in self.clients:
            if c is not who and c.sess is not None:
                K._vfs.simvfs_kill(c.sess.proc.pid)
                c.client.wake = min(c.client.wake, self.w.now)
        Run.end_process(who, how, None)
        while any(c.sess is not None for c in self.clients if not c.client.done):
            self.w.sleep(0.001, why="power")
        for st in self.stores.values():
            st.phantom = False
        Run.end_process(who, how, power)
        self.power_owner = None

    def wait_power(self, c):
        while self.power_owner is not None and self.power_owner is not c:
            self.w.sleep(0.01, why="power")

    def close(self):
        for c in self.clients:
            try:
                if c.sess is not None:
                    c.end_process("kill")
            except BaseException:
                pass
        super().close()
