"""Seeded generation of programs (plans without faults) and of fault plans for them."""
import random
from . import values as V, frames as F

NC = V.N_CONST
# constants that must not be handed to an op that scrambles its argument (the storage serialises them after the body)
ARRAYS = [i for i in range(NC) if type(V.CONSTS[i]()).__module__.startswith(("numpy", "pandas"))]
LISTS = [i for i in range(NC) if isinstance(V.CONSTS[i](), list)]
DICTS = [i for i in range(NC) if isinstance(V.CONSTS[i](), dict)]
MUTABLE = [i for i in range(NC) if isinstance(V.CONSTS[i](), (list, dict, set))]

BASE = dict(
    blocks=(2, 5), calls=(1, 5), between=0.5, nconst=8,
    ops=dict(inc=4, tag=3, kwo=1, var=1, kws=1, two=2, named=1, mk=2, mku=1, mkd=2, nest=1, twol=1, tot=2, totd=1, totn=1,
             mapl=2, plain=1, mut=0, same=1, nothing=0.5, arr=1, frame=0.5, big=1, ign=1, newd=1, vp=0.5, outer=0.7,
             sup=1, sup2=0.7, upd=0.8, updl=0.5),
    repeat=0.35, in_block=dict(call=10, unwrap=1.2, nested=0.6, noop=0.3, commit=0.2, clear=0.15, preload=0.15, load=0.3,
                               attach=0.2, drop=0.15),
    outside=dict(restart=2, rerun=1, unwrap=1.5, clear=1, preload=1, load=1, attach=0.5, drop=0.7, redo=0.4, cleanup=0.5, query=0.7,
                 plain=0.4, audit=0.2),
    mutate=0.0, memory=0.1, overflow=0.35, catch=0.6, nstores=1, power=0.3, kill=0.35,
)


def profile(**kw):
    p = {k: (dict(v) if isinstance(v, dict) else v) for k, v in BASE.items()}
    for k, v in kw.items():
        if isinstance(v, dict):
            p[k] = dict(p[k], **v) if k in p else v
        else:
            p[k] = v
    return p


class Gen:
    def __init__(self, seed, prof):
        self.r = random.Random(seed)
        self.p = prof
        self.nid = 0
        self.nvar = 0
        # per storage: (name, type) type: A any, L list, D dict, M list of lists
        self.pools = [[] for _ in range(prof["nstores"])]
        self.s = 0
        self.call_pools = [[] for _ in range(prof["nstores"])]
        # the constants this program uses: few, so that calls coincide
        self.consts = [self.r.randrange(4) for _ in range(2)] + [self.r.randrange(NC) for _ in range(self.r.randint(1, prof["nconst"]))]
        self.vpids = {}

    @property
    def vars(self):
        return self.pools[self.s]

    @vars.setter
    def vars(self, v):
        self.pools[self.s] = v

    @property
    def calls(self):
        return self.call_pools[self.s]

    def id(self):
        self.nid += 1
        return self.nid

    def wpick(self, d):
        ks = sorted(k for k in d if d[k] > 0)
        return self.r.choices(ks, [d[k] for k in ks])[0]

    def const(self):
        return ["c", self.r.choice(self.consts)]

    def any(self):
        r = self.r.random()
        vs = self.vars
        if vs and r < 0.5:
            v = self.r.choice(vs[-6:] if self.r.random() < 0.7 else vs)
            if v[1] in "LDM" and self.r.random() < 0.4:
                return ["e", v[0], self.r.randrange(3)]
            return ["v", v[0]]
        if r < 0.56:
            return ["k", self.r.choice([7, "zed", [1, 2], {"k": 3}])]
        return self.const()

    def lst(self, depth=0):
        vs = [v for v in self.vars if v[1] == "L"]
        if vs and self.r.random() < 0.5:
            return ["v", self.r.choice(vs)[0]]
        return ["L", [self.any() for _ in range(self.r.choice([0, 1, 1, 2, 2, 3]))]]

    def dct(self):
        vs = [v for v in self.vars if v[1] == "D"]
        if vs and self.r.random() < 0.5:
            return ["v", self.r.choice(vs)[0]]
        ks = self.r.sample(["p", "q", "a b", "0", "zz"], self.r.choice([1, 2, 2, 3]))
        return ["D", {k: self.any() for k in ks}]

    def twist(self, a):
        """An argument with equal content, obtained in another way."""
        r = self.r
        if a[0] == "v" and r.random() < 0.6:
            return ["r", a[1], r.randrange(2)]
        if a[0] == "D":
            ks = list(a[1])
            r.shuffle(ks)
            return ["D", {k: self.twist(a[1][k]) for k in ks}]
        if a[0] == "L":
            return ["L", [self.twist(x) for x in a[1]]]
        if a[0] == "c" and r.random() < 0.5:
            return ["cr", a[1]]
        return a

    def newvar(self, tp):
        self.nvar += 1
        n = "vuw"[self.s] + str(self.nvar)
        self.vars.append((n, tp))
        return n

    def call(self, noop=False):
        r = self.r
        if self.calls and r.random() < self.p["repeat"]:
            c = dict(r.choice(self.calls))
            c["id"] = self.id()
            c["catch"] = r.random() < self.p["catch"]
            if r.random() < 0.7:
                c["var"] = self.newvar(c["_tp"])
            else:
                c.pop("var", None)
            x = r.random()
            if x < 0.25 and c["args"] and c["args"][0][0] in ("c", "v"):
                c["args"] = [self.any()] + c["args"][1:]
            elif x < 0.6 and c["op"] != "vp":
                c["args"] = [self.twist(a) for a in c["args"]]
                c["kwargs"] = {k: self.twist(a) for k, a in c["kwargs"].items()}
                if c["op"] == "var" and len(c["args"]) > 2 and r.random() < 0.6:
                    # move or add an ignored argument
                    rest = [a for a in c["args"][1:] if a[0] != "ig"]
                    rest.insert(r.randint(0, len(rest)), ["ig", ["k", "IGN%d" % r.randrange(3)]])
                    c["args"] = c["args"][:1] + rest
                elif c["op"] == "kws" and r.random() < 0.4 and c["kwargs"]:
                    ks = list(c["kwargs"])
                    r.shuffle(ks)
                    c["kwargs"] = {k: c["kwargs"][k] for k in ks}
            if c["op"] == "mut":
                c["args"] = [self.mutarg()]
            return c
        op = self.wpick(self.p["ops"])
        args, kw, tp = [], {}, "A"
        if op in ("inc", "plain", "same", "nothing", "arr", "frame", "outer", "sup", "upd"):
            args = [self.any()]
        elif op == "mut":
            args = [self.mutarg()]
        elif op == "tag":
            args = [self.any()]
            x = r.random()
            if x < 0.3:
                args.append(self.any())
            elif x < 0.6:
                kw["y"] = self.any()
            elif x < 0.7:
                args.append(["k", 7])
            elif x < 0.75:
                args, kw = [], {"y": self.any(), "x": self.any()}
        elif op == "kwo":
            args = [self.any()]
            for k in ("k", "j"):
                if r.random() < 0.5:
                    kw[k] = self.any()
        elif op == "var":
            args = [self.any() for _ in range(r.randint(1, 4))]
            if r.random() < 0.3:
                args.insert(r.randint(1, len(args)), ["ig", ["k", "IGN%d" % r.randrange(3)]])
        elif op == "kws":
            args = [self.any()]
            for k in r.sample(["u", "v", "w"], r.randint(0, 3)):
                kw[k] = self.any()
        elif op == "two":
            args = [self.any()]
        elif op == "named":
            args = [self.any(), self.any()]
            if r.random() < 0.3:
                kw["y"] = args.pop()
        elif op == "mk":
            args, tp = [self.any(), self.any()], "L"
        elif op == "updl":
            args, tp = [self.any()], "L"
        elif op == "mku":
            args, tp = [self.any()], "L"
        elif op == "mkd":
            args, tp = [self.any()], "D"
        elif op in ("bag", "fbag", "shuf"):
            args = [self.any()]
        elif op == "shufd":
            args, tp = [self.any()], "D"
        elif op == "nest":
            args, tp = [self.any()], "M"
        elif op == "twol":
            args = [self.any()]
        elif op == "tot":
            args = [self.lst()]
        elif op == "totd":
            args = [self.dct()]
        elif op == "totn":
            vs = [v for v in self.vars if v[1] == "M"]
            args = [["v", r.choice(vs)[0]]] if vs and r.random() < 0.6 else [["L", [self.lst() for _ in range(r.choice([0, 1, 2, 2]))]]]
        elif op == "mapl":
            args, tp = [self.lst(), self.any()], "L"
        elif op == "big":
            args = [self.any()]
            if r.random() < 0.5:
                args.append(["k", r.choice([1, 2, 4])])
        elif op == "ign":
            args = [self.any()]
            if r.random() < 0.7:
                kw["bs"] = ["k", r.randrange(9)]
        elif op == "newd":
            args = [self.any()]
            x = r.random()
            if x < 0.3:
                kw["extra"] = ["k", 3]
            elif x < 0.6:
                kw["extra"] = ["k", r.choice([4, "3", True])]
            elif x < 0.7:
                kw["extra"] = self.any()
            elif x < 0.8:
                kw["extra"] = ["ig", ["k", "IGN9"]]
        elif op == "vp":
            n = r.choice(["data-one", "data-two"])
            self.vpids.setdefault(n, r.randrange(NC))
            args = [["vp", n, self.vpids[n]], self.any()]
        elif op == "sup2":
            args = [self.any(), self.any()]
        c = dict(t="call", id=self.id(), op=op, args=args, kwargs=kw, catch=r.random() < self.p["catch"], _tp=tp)
        if self.p["mutate"] and r.random() < self.p["mutate"]:
            c["mutate_args"] = True
        if r.random() < 0.85:
            c["var"] = self.newvar(tp)
            if op in ("two", "named", "twol") and not noop:
                v = self.vars.pop()[0]
                c["var"] = v
                self.vars += [(v + ".0", "L" if op == "twol" else "A"), (v + ".1", "A")]
        self.calls.append({k: v for k, v in c.items() if k not in ("id", "catch", "var")})
        return c

    def mutarg(self):
        vs = [v for v in self.vars if v[1] == "A"]
        if vs and self.r.random() < 0.6:
            return ["v", self.r.choice(vs)[0]]
        return ["c", self.r.choice(MUTABLE)]

    def var(self):
        return self.r.choice(self.vars)[0] if self.vars else "v1"

    def victim(self):
        x = self.r.random()
        if x < 0.6:
            return self.var()
        if x < 0.8:
            vs = [v for v in self.vars if v[1] in "LDM"]
            return [self.r.choice(vs)[0] if vs else self.var(), self.r.randrange(4)]
        return ["#", self.r.randrange(1000)]

    def simple(self, k, inside):
        a = self._simple(k, inside)
        if self.s and a["t"] != "call":
            a["s"] = self.s
        return a

    def _simple(self, k, inside):
        r, p = self.r, self.p
        mut = bool(p["mutate"]) and r.random() < p["mutate"]
        if k == "unwrap":
            return dict(t="unwrap", id=self.id(), var=self.var(), cache=r.random() < 0.7, mutate=mut)
        if k == "load":
            a = dict(t="load", id=self.id(), var=self.var(), mutate=mut)
            if r.random() < 0.5:
                a["as"] = a["var"]
            return a
        if k == "attach":
            return dict(t="attach", id=self.id(), var=self.var(), inplace=r.random() < 0.5, mutate=mut)
        if k == "commit":
            return dict(t="commit", id=self.id())
        if k == "clear":
            return dict(t="clear", id=self.id(), allow=(r.random() < 0.15))
        if k == "preload":
            return dict(t="preload", id=self.id(), which=r.choice(["all", "all", "eager", "calls", "shapes", "atoms", "ops"]))
        if k == "drop":
            return dict(t="drop", id=self.id(), vars=[self.victim() for _ in range(r.choice([1, 1, 2, 3]))], deps=r.random() < 0.6,
                        how=r.choice(["list", "set", "tuple", "calls"]))
        if k == "redo":
            return dict(t="redo", id=self.id(), how=r.choice(["list", "set", "tuple", "calls"]))
        if k == "cleanup":
            return dict(t="cleanup", id=self.id())
        if k == "query":
            return dict(t="query", id=self.id(), var=self.var())
        if k == "frames":
            return dict(t="frames", id=self.id(), own=r.random() < 0.5, steps=F.gen_steps(r, **p.get("frame_steps", {})))
        if k == "audit":
            return dict(t="audit", id=self.id())
        if k in ("restart", "rerun"):
            x = r.random()
            how = "power" if x < p["power"] else "kill" if x < p["power"] + p["kill"] else "exit"
            a = dict(t=k, id=self.id(), how=how, audit=r.random() < 0.5)
            if how == "power":
                a["pmode"], a["seed"] = r.randrange(4), r.randrange(1 << 30)
            return a
        if k == "plain":
            c = self.call()
            return dict(c, t="call", catch=True)
        raise KeyError(k)

    def block(self, depth=0, noop=False):
        r, p = self.r, self.p
        body = []
        n = r.randint(*p["calls"])
        w = dict(p["in_block"])
        if depth >= 2:
            w["nested"] = w["noop"] = 0
        for _ in range(n):
            k = self.wpick(w)
            if k == "call":
                body.append(self.call(noop))
            elif k == "nested" and len(self.pools) > 1 and r.random() < 0.4:
                old, self.s = self.s, r.randrange(len(self.pools))
                b = self.block(depth + 1, noop and self.s == old)
                b["mode"] = None if r.random() < 0.8 else "noop"
                if b["mode"] == "noop" or self.s in self.noop_in:
                    for a in _walk(b["body"]):
                        if a["t"] == "call":
                            a.pop("var", None)
                self.s = old
                body.append(b)
            elif k == "nested":
                b = self.block(depth + 1, noop)
                x = r.random()
                b["mode"] = None if x < 0.6 else "run"
                if noop and b["mode"] == "run":
                    b["mode"] = None
                body.append(b)
            elif k == "noop":
                nv = list(self.vars)
                self.noop_in.append(self.s)
                b = self.block(depth + 1, True)
                self.noop_in.pop()
                b["mode"] = "noop"
                self.vars = nv     # values of a noop block are not reused as references
                for a in _walk(b["body"]):
                    if a["t"] == "call":
                        a.pop("var", None)
                body.append(b)
            else:
                body.append(self.simple(k, True))
        return dict(t="with", id=self.id(), s=self.s, mode=None, body=body, catch=r.random() < p["catch"])

    def plan(self):
        r, p = self.r, self.p
        actions = []
        self.noop_in = []
        for i in range(r.randint(*p["blocks"])):
            self.s = r.randrange(len(self.pools)) if len(self.pools) > 1 and r.random() < 0.4 else 0
            b = self.block()
            if r.random() < 0.05:
                b["mode"] = "noop"
                for a in _walk(b["body"]):
                    if a["t"] == "call":
                        a.pop("var", None)
            actions.append(b)
            while r.random() < p["between"]:
                actions.append(self.simple(self.wpick(p["outside"]), False))
        sts = []
        for _ in self.pools:
            x = r.random()
            st = {}
            if x < p["memory"]:
                st["memory"] = True
            elif x < p["memory"] + p["overflow"]:
                st["overflow"] = True
                st["threshold"] = r.choice([0.0001, 0.0005, 0.002])
            sts.append(st)
        for a in _walk(actions):
            a.pop("_tp", None)
        return dict(storages=sts, actions=actions, faults=[])


def multi_plan(seed, prof):
    """Programs of two or three processes sharing one database; they use the same constants, sometimes the same program."""
    r = random.Random("%s/multi" % seed)
    n = 3 if r.random() < 0.35 else 2
    clients, base, storages, vpids = [], None, None, {}
    for i in range(n):
        same = base is not None and r.random() < 0.5
        g = Gen("%s/c%d" % (seed, 0 if same else i), prof)
        if base is None:
            base = g
        g.nid = 1000 * i
        g.consts, g.vpids = base.consts, vpids
        if not same:
            g.p = dict(prof, blocks=(1, prof["blocks"][1]))
        p = g.plan()
        storages = storages or p["storages"]
        clients.append(dict(actions=p["actions"], delay=r.choice([0, 0, 0, 0.0005, 0.003, 0.02])))
    if r.random() < 0.3:
        storages = [dict(overflow=True, threshold=r.choice([0.0001, 0.0005]))]
    return dict(storages=storages, clients=clients, faults=[], preempt=r.choice([0.01, 0.05, 0.15, 0.4, 0.7]),
                observe=r.choice([0, 15, 40]))


def _walk(actions):
    for a in actions:
        yield a
        if a["t"] == "with":
            yield from _walk(a["body"])


VFS_CRASH = ["crash_before", "crash_after", "crash_torn"]
VFS_ERR = ["ioerr", "full", "short"]


def gen_faults(rng, plan, counts, spec):
    """
    counts: {(action id, phase): {seam: events}} measured on the fault-free run.
    spec: weights over fault families, and phase weights.
    """
    fams = spec["families"]
    nf = rng.choice(spec.get("n", [1, 1, 2]))
    kinds = {}
    acts = plan["actions"] if "actions" in plan else [a for c in plan["clients"] for a in c["actions"]]
    for a in _walk(acts):
        kinds[a["id"]] = a["t"]
    out, used = [], set()
    for _ in range(nf):
        for attempt in range(12):
            fam = rng.choices(list(fams), [fams[f] for f in fams])[0]
            seam = {"crash": "vfs", "err": "vfs", "sqlerr": "sql", "sqlcrash": "sql", "fscrash": "fs", "fserr": "fs", "op": "op",
                    "opcrash": "op", "interrupt": "sql", "read": "read", "hold": "sql", "stall": "sql",
                    "sqlburst": "sql", "fsint": "fs", "aftercrash": "sql"}[fam]
            cand = [(k, c[seam]) for k, c in counts.items() if c.get(seam, 0) > 0 and k not in used]
            pw = spec.get("phases")
            if pw:
                cand = [x for x in cand if pw.get(x[0][1], 0) > 0]
            tw = spec.get("types")
            if tw:
                cand = [x for x in cand if tw.get(kinds.get(x[0][0], "?"), 0) > 0]
            if not cand:
                continue
            w = [(pw.get(k[1], 0) if pw else 1) * (tw.get(kinds.get(k[0]), 0) if tw else 1) * (1 + min(c, 12) ** 0.5) for k, c in cand]
            key, cnt = rng.choices(cand, w)[0]
            n = rng.randint(1, cnt)
            f = dict(id=key[0], phase=key[1], n=n, seam=seam)
            if fam == "crash":
                f["kind"] = rng.choice(VFS_CRASH)
                f["tear"] = rng.randrange(1 << 20)
            elif fam == "err":
                f["kind"] = rng.choice(VFS_ERR)
                f["tear"] = rng.randrange(1 << 20)
                f["count"] = rng.choice([1, 1, 2, 5, 100000])
            elif fam == "read":
                f.update(seam="vfs", kind="ioerr", mask=32, count=rng.choice([1, 1, 2]))
            elif fam == "sqlerr":
                f["kind"] = rng.choice(["ioerr", "full", "locked", "ioerr", "locked", "memory", "dberror"])
                f["count"] = rng.choice([1, 1, 1, 2, 3])
            elif fam == "sqlburst":
                f["kind"] = rng.choice(["ioerr", "locked"])
                f["count"] = rng.choice([3, 8, 12, 100000])
            elif fam == "sqlcrash":
                f["kind"] = "crash"
            elif fam == "aftercrash":
                f.update(seam="sql_after", kind="crash")
            elif fam == "interrupt":
                f["kind"] = "interrupt"
                f["seam"] = rng.choice(["sql", "sql_after"])
            elif fam == "hold":
                f["kind"] = "hold"
                f["secs"] = rng.choice([0.5, 3, 4.9, 8, 20, 60, 300, 900, 1500])
            elif fam == "stall":
                f["kind"] = "stall"
                # three stalls in a row stay below what the package waits for (its last attempt comes after about 9 minutes)
                f["secs"] = rng.choice([1, 30, 150])
            elif fam == "fscrash":
                f["kind"] = rng.choice(["crash", "crash_after", "torn", "torn"])
                f["tear"] = rng.randrange(1 << 20)
            elif fam == "fserr":
                f["kind"] = rng.choice(["ioerr", "full", "short", "short"])
                f["tear"] = rng.randrange(1 << 20)
                f["count"] = rng.choice([1, 1, 3, 100000])
            elif fam == "fsint":
                f["kind"] = "interrupt"
            elif fam == "op":
                f["kind"] = rng.choice(["opfail", "opfail", "interrupt", "memory"])
            elif fam == "opcrash":
                f["kind"] = "crash"
            if "crash" in f["kind"] or f["kind"] == "torn":
                if rng.random() < spec.get("power", 0.35):
                    f["power"] = dict(seed=rng.randrange(1 << 30), mode=rng.randrange(4))
            used.add(key)
            out.append(f)
            break
    return out
