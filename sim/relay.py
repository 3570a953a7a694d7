"""
Relays (C20): one program, executed by several operating system processes one after another, each with another hash seed.
A segment is simulated by a helper process, on the durable files that the segment before left behind; the reference model
and the table of identities are handed over.
"""
import copy, hashlib, json, os, pickle, random, shutil, subprocess, sys, types
from .engine import Run, Violation, only_calls, Skip
from .kernel import HarnessError
from . import gen as G, values as V

POOL = 3            # helpers kept alive per worker

_helpers = {}       # hash seed -> Helper, most recently used last


class Helper:
    def __init__(self, hs):
        env = dict(os.environ, PYTHONHASHSEED=str(hs))
        self.p = subprocess.Popen([sys.executable, "-m", "sim.worker", "helper"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                                  text=True)

    def ask(self, job):
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise HarnessError("a helper process died")
        return json.loads(line)

    def kill(self):
        self.p.kill()
        self.p.wait()


def helper(hs):
    h = _helpers.pop(hs, None)
    if h is None or h.p.poll() is not None:
        while len(_helpers) >= POOL:
            _helpers.pop(next(iter(_helpers))).kill()
        h = Helper(hs)
    _helpers[hs] = h
    return h


# ---------------------------------------------------------------------- in the helper process
class SegRun(Run):
    """One segment, on the files and with the model of the segments before it."""

    def __init__(self, plan, root):
        super().__init__(plan, root, fresh=plan["k"] == 0)
        self.statefile = os.path.join(root, "state.pkl")
        if plan["k"]:
            with open(self.statefile, "rb") as f:
                st = pickle.load(f)
            self.stores, self.bind, self.ep = st["stores"], st["bind"], st["ep"]

    def execute(self):
        if self.plan["k"]:
            self.audit_all("in another process")
        super().execute()

    def finish(self):
        end = self.plan.get("end")
        if end is None:
            return super().finish()
        self.w.release_all()
        if self.sess is not None or end["how"] == "power":
            self.end_process("exit" if end["how"] == "exit" else "kill",
                             dict(seed=end["seed"], mode=end["pmode"]) if end["how"] == "power" else None)
        self.audit_all("when the process has ended")
        for s in self.stores.values():
            s.inflight = {}
        with open(self.statefile, "wb") as f:
            pickle.dump(dict(stores=self.stores, bind=self.bind, ep=self.ep), f)

    def remove_root(self):
        pass


# ---------------------------------------------------------------------- in the search process
class RelayRun:
    """Quacks like engine.Run."""

    def __init__(self, plan, root):
        self.plan, self.root = plan, root
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        self.w = types.SimpleNamespace(stats={}, now=0.0, nevents=0, digest=hashlib.sha1(), fired=[], kinds={})
        self.checks, self.states, self.trace, self.counts, self.max_wait = {}, set(), [], {}, 0.0
        self.pending = None

    def segments(self):
        segs = [dict(hs=self.plan["hs"], acts=[], end=None)]
        for a in self.plan["actions"]:
            if a["t"] == "proc":
                segs[-1]["end"] = a
                segs.append(dict(hs=a["hs"], acts=[], end=None))
            else:
                segs[-1]["acts"].append(a)
        return segs

    def execute(self):
        hashseeds = set()
        for k, sg in enumerate(self.segments()):
            p = {q: v for q, v in self.plan.items() if q not in ("actions", "kind")}
            p.update(kind="segment", k=k, actions=sg["acts"], end=sg["end"], seed=self.plan.get("seed", 0) + k)
            self.trace.append("== process with PYTHONHASHSEED=%d" % sg["hs"])
            self.pending = helper(sg["hs"])
            r = self.pending.ask(dict(plan=p, root=self.root))
            self.pending = None
            w = self.w
            for mine, new in ((w.stats, r.get("stats")), (w.kinds, r.get("kinds")), (self.checks, r.get("checks"))):
                for q, v in (new or {}).items():
                    mine[q] = mine.get(q, 0) + v
            w.now += r.get("now") or 0
            w.nevents += r.get("events") or 0
            w.digest.update(str(r.get("digest")).encode())
            w.fired += [tuple(f) for f in r.get("fired") or []]
            self.states.update(r.get("states") or [])
            self.trace += r.get("trace") or []
            for a, b, c in r.get("counts") or []:
                self.counts[(a, b)] = c
            self.max_wait = max(self.max_wait, r.get("maxwait") or 0)
            hashseeds.add(sg["hs"])
            w.stats["segments"] = w.stats.get("segments", 0) + 1
            if r["status"] == "violation":
                raise Violation(r["cls"], r["msg"])
            if r["status"] != "ok":
                raise HarnessError("%s %s" % (r["msg"], r.get("tb")))
        w.stats["relays between hash seeds"] = w.stats.get("relays between hash seeds", 0) + (len(hashseeds) > 1)

    def close(self):
        if self.pending is not None:
            self.pending.kill()
        shutil.rmtree(self.root, ignore_errors=True)


# ---------------------------------------------------------------------- programs
def _args(a, fn):
    if a[0] == "L":
        return ["L", [_args(x, fn) for x in a[1]]]
    if a[0] == "D":
        ks = list(a[1])
        return ["D", {k: _args(a[1][k], fn) for k in fn(ks)}]
    return fn(a)


def relay_plan(seed, prof, n):
    r = random.Random("%s/relay" % seed)
    g = G.Gen(seed, prof)
    g.consts = g.consts[:4] + [V.N_CONST + r.randrange(len(V.CONSTS) - V.N_CONST) for _ in range(r.randint(1, 5))]
    p = g.plan()
    acts = p["actions"]
    nseg = r.choice([2, 2, 3])
    cuts = sorted(r.randint(1, len(acts)) for _ in range(nseg - 1)) + [len(acts)]
    seeds = [1 + 3 * (n // 100) + i for i in range(POOL)]
    r.shuffle(seeds)

    def twist(a):
        if isinstance(a, list) and a and a[0] == "c" and r.random() < 0.5:
            return ["cr", a[1]]
        if isinstance(a, list) and (not a or a[0] not in ("c", "cr", "r", "k", "v", "e", "vp", "ig")):
            a = list(a)
            r.shuffle(a)        # the keys of a dict
        return a

    def again(a):
        b = copy.deepcopy(a)
        for x in G._walk([b]):
            x["id"] = g.id()
            if x["t"] == "call":
                x["args"] = [_args(y, twist) for y in x["args"]]
                ks = list(x["kwargs"])
                if r.random() < 0.3:
                    r.shuffle(ks)
                x["kwargs"] = {k: _args(x["kwargs"][k], twist) for k in ks}
        return b

    out, start = [], 0
    for k, cut in enumerate(cuts):
        if k:
            x = r.random()
            how = "power" if x < 0.2 else "kill" if x < 0.5 else "exit"
            m = dict(t="proc", id=g.id(), hs=seeds[k % POOL], how=how)
            if how == "power":
                m["pmode"], m["seed"] = r.randrange(4), r.randrange(1 << 30)
            out.append(m)
            old = [only_calls(a) for a in acts[:start]]
            out += [again(a) for a in old if a is not None and r.random() > 0.12]
        out += acts[start:cut]
        start = cut
    return dict(p, actions=out, hs=seeds[0])
