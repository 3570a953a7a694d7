"""
Versioned storages: histories of code edits, answers, calls, restarts, drops and faults against the real package, in
lockstep with a model that runs the same programs with a small interpreter.

A program is data: components (globals, helpers, classes with methods, ops), each a list of statements. It is rendered to
Python source for the package (cells of a simulated `__main__`, or the files of a simulated package), and interpreted
directly for the model. The model keeps a set of candidate states; uncertain outcomes (a save that failed) fork it,
observations (questions, executed ops, values, what a fresh process finds) filter it. No candidate left: a violation.
"""
from __future__ import annotations
import builtins, contextlib, gc, importlib, linecache, os, random, shutil, sqlite3, sys, types
from . import kernel as K, values as V
from .kernel import SimCrash, SimStall, HarnessError, OpFail
from .engine import Run, Violation, Skip, AuditSkip

P = 9973
MISSING = "<missing>"


# --------------------------------------------------------------------------------------------------- programs: rendering
def gexpr(name, val):
    """The expression by which code uses a global, by kind of its value."""
    k = val[0]
    return {"int": name, "float": "int(%s * 4)" % name, "list": "sum(%s)" % name, "dict": "%s['a']" % name, "str": "len(%s)" % name,
            "arr": "int(%s.sum())" % name, "tup": "%s[0]" % name, "nest": "%s['p'][1]" % name, "lock": "(0 if %s.acquire(False) and not %s.release() else 1)" % (name, name)}[k]


def gtext(val):
    k, v = val
    return {"int": "%d" % v, "float": "%d / 4" % v, "list": "[%d, %d]" % (v, v + 1), "dict": "{'a': %d, 'b': 2}" % v, "str": repr("s" * (v % 50)),
            "arr": "np.arange(%d)" % (v % 40 + 1), "tup": "(%d, 'x')" % v, "nest": "{'p': [1, %d], 'q': {'r': (2,)}}" % v, "lock": "threading.Lock()"}[k]


def gnum(val):
    k, v = val
    return {"int": v, "float": v, "list": 2 * v + 1, "dict": v, "str": v % 50, "arr": (v % 40) * (v % 40 + 1) // 2, "tup": v, "nest": v, "lock": 0}[k]


def refs_of(stmts):
    for s in stmts:
        if s[0] in ("glob", "lam", "call", "comp", "gexp", "map", "try", "gen", "nest", "noop", "cb", "dflt"):
            yield s[1]
            if s[0] == "cb":
                yield s[2]
        elif s[0] == "meth":
            yield s[1]
        elif s[0] in ("ifx", "ifr"):
            yield from refs_of(s[1])
            yield from refs_of(s[2])


def all_stmts(c):
    if c["t"] == "cls":
        return [s for m in c["methods"] for s in m["stmts"]]
    return c.get("stmts", [])


class Prog:
    def __init__(self, spec):
        self.spec = spec              # id -> component

    def mod(self, cid):
        return self.spec[cid]["mod"]

    def valid(self):
        for cid, c in self.spec.items():
            for r in refs_of(all_stmts(c)):
                if r not in self.spec:
                    return False
        return True

    def objname(self, cid):
        return "OBJ_" + cid

    def imported(self, mod):
        """Names a module needs from elsewhere (component ids)."""
        out = set()
        for cid, c in self.spec.items():
            if c["mod"] == mod:
                out |= {r for r in refs_of(all_stmts(c)) if r in self.spec and self.spec[r]["mod"] != mod}
        return out

    # ---- rendering
    def stmts(self, stmts, ind, me):
        out = []
        for s in stmts:
            k = s[0]
            if k == "add":
                out.append("r = r + %d" % s[1])
            elif k == "mul":
                out.append("r = r * %d" % s[1])
            elif k == "glob":
                out.append("r = r + " + gexpr(s[1], self.spec[s[1]]["val"]))
            elif k == "lam":
                out.append("r = (lambda y: y + %s)(r)" % gexpr(s[1], self.spec[s[1]]["val"]))
            elif k == "call":
                out.append("r = r + %s(r %% 97)" % s[1])
            elif k == "dflt":
                out.append("r = r + (lambda y, fn=%s: fn(y %% 97))(r)" % s[1])
            elif k == "comp":
                out.append("r = r + sum([%s(i) for i in range(2)])" % s[1])
            elif k == "gexp":
                out.append("r = r + sum(%s(i) for i in range(1, 3))" % s[1])
            elif k == "map":
                out.append("r = r + sum(map(%s, [1, 2]))" % s[1])
            elif k == "cb":
                out.append("r = r + %s(lambda y: y + %s, r %% 97)" % (s[1], gexpr(s[2], self.spec[s[2]]["val"])))
            elif k == "try":
                out += ["try:", "    r = r + %s(r %% 97)" % s[1], "except ValueError:", "    r = r + 1"]
            elif k == "imp":
                # the interpreter looks up the builtins among the globals of this function
                out.append("r = r + len(pickle.loads(pickle.dumps(collections.deque([1] * %d))))" % s[1])
            elif k == "gen":
                out.append("r = r + sum(%s(3))" % s[1])
            elif k == "rec":
                out += ["if x > 0:", "    r = r + %s(x // 2)" % me]
            elif k == "meth":
                out.append("r = r + OBJ_%s.%s(r %% 97)" % (s[1], s[2]))
            elif k == "nest":
                out.append("r = r + UNW(%s(r %% 97))" % s[1])
            elif k == "noop":
                out += ["with noop():", "    r = r + %s(r %% 97)" % s[1]]
            elif k in ("ifx", "ifr"):
                out.append("if %s %% 2 == 0:" % ("x" if k == "ifx" else "r"))
                out += ["    " + l for l in (self.stmts(s[1], "", me) or ["pass"])]
                out.append("else:")
                out += ["    " + l for l in (self.stmts(s[2], "", me) or ["pass"])]
            elif k == "field":
                out.append("r = r + self.k")
            else:
                raise HarnessError("bad statement " + repr(s))
        return [ind + l for l in out]

    def body(self, c, ind, me):
        lines = []
        if c.get("note"):
            lines.append(ind + "# note %d" % c["note"])
        if c.get("doc"):
            lines.append(ind + "'''doc %d'''" % c["doc"])
        if c.get("kind") == "gen":
            lines += [ind + "for x in range(n):", ind + "    r = x"]
            lines += self.stmts(c["stmts"], ind + "    ", me)
            lines.append(ind + "    yield r %% %d" % P)
            return lines
        if c.get("kind") == "cb":
            lines.append(ind + "r = fn(x)")
        elif c.get("nargs", 1) == 2:
            lines.append(ind + "r = x + 3 * y")
        else:
            lines.append(ind + "r = x")
        lines += self.stmts(c["stmts"], ind, me)
        if c.get("kind") == "bad":
            lines.append(ind + "if r >= 0:")
            lines.append(ind + "    raise ValueError('bad')")
        lines.append(ind + "return r %% %d" % P)
        return lines

    def text(self, cid):
        """Source of a component, as the user types it."""
        c = self.spec[cid]
        if c["t"] == "glob":
            return "%s = %s" % (cid, gtext(c["val"]))
        if c["t"] == "fn":
            args = {"gen": "n", "cb": "fn, x"}.get(c.get("kind"), "x")
            return "\n".join(["@track", "def %s(%s):" % (cid, args)] + self.body(c, "    ", cid))
        if c["t"] == "op":
            dec = (["@track"] if c.get("track") else []) + ["@op"]
            return "\n".join(dec + ["def %s(%s):" % (cid, "x, y" if c.get("nargs", 1) == 2 else "x"), "    SIM(%r)" % cid] + self.body(c, "    ", cid))
        if c["t"] == "cls":
            lines = ["@track", "class %s:" % cid, "    def __init__(self, k):", "        self.k = k"]
            for m in c["methods"]:
                lines += self.method(m)
            return "\n".join(lines) + "\nOBJ_%s = %s(%d)" % (cid, cid, c["k"])
        raise HarnessError("bad component")

    def method(self, m):
        return ["    def %s(self, x):" % m["name"]] + self.body(m, "        ", m["name"])

    HEADER = ["import threading, pickle, collections", "import numpy as np", "from mandala.imports import *", "from simlib import SIM, UNW"]

    def module_text(self, mod):
        lines = list(self.HEADER)
        for r in sorted(self.imported(mod)):
            n = self.objname(r) if self.spec[r]["t"] == "cls" else r
            lines.append("from %s import %s" % (self.spec[r]["mod"], n))
        for cid in sorted(self.spec, key=lambda i: ({"glob": 0, "cls": 2, "fn": 1, "op": 3}[self.spec[i]["t"]], i)):
            if self.spec[cid]["mod"] == mod:
                lines += ["", self.text(cid)]
        return "\n".join(lines) + "\n"

    # ---- contents of versioned components
    def content(self, key):
        """Canonical content of a component (module, name) now, or MISSING."""
        mod, name = key
        if name.startswith("OBJ_"):
            c = self.spec.get(name[4:])
            if c is None or c["t"] != "cls" or not (c["mod"] == mod or name[4:] in self.imported(mod)):
                return MISSING
            return "obj:%s:%d" % (name[4:], c["k"])
        if "." in name:
            cn, mn = name.split(".")
            c = self.spec.get(cn)
            if c is None or c["t"] != "cls" or c["mod"] != mod:
                return MISSING
            for m in c["methods"]:
                if m["name"] == mn:
                    return "\n".join(self.method(m))
            return MISSING
        c = self.spec.get(name)
        if c is None:
            return MISSING
        if c["t"] == "glob":
            if c["mod"] == mod or name in self.imported(mod):
                return "glob:lock" if c["val"][0] == "lock" else "glob:" + gtext(c["val"])
            return MISSING
        if c["mod"] != mod:
            return MISSING
        return self.text(name)

    def shape(self, key, consts):
        """What must stay for a change to count as cosmetic (consts=True) / as one that keeps the dependencies (False)."""
        mod, name = key

        def fs(stmts):
            return [[s[0]] + ([fs(s[1]), fs(s[2])] if s[0] in ("ifx", "ifr") else
                              [(x if consts or not isinstance(x, int) else "#") for x in s[1:]]) for s in stmts]

        if self.content(key) == MISSING:
            return MISSING
        if name.startswith("OBJ_"):
            c = self.spec[name[4:]]
            return ["obj", c["k"] if consts else 0]
        if "." in name:
            cn, mn = name.split(".")
            m = [m for m in self.spec[cn]["methods"] if m["name"] == mn][0]
            return ["m", fs(m["stmts"])]
        c = self.spec[name]
        if c["t"] == "glob":
            return ["g", gtext(c["val"]) if consts else c["val"][0]]
        return [c["t"], c.get("kind"), c.get("nargs"), fs(c["stmts"])]


class OpExc(Exception):
    """The simulated op failed (in the model)."""


class BadHelper(Exception):
    pass


class Interp:
    """Direct evaluation. nested(op id, value) -> value is how an op called by another op is evaluated."""

    def __init__(self, prog, nested, on_exec=None):
        self.p, self.nested, self.on_exec = prog, nested, on_exec
        self.deps = set()
        self.steps = 0
        self.plain = 0       # inside a noop() block: ops are plain functions

    def glob(self, mod, cid):
        self.deps.add((mod, cid))
        return gnum(self.p.spec[cid]["val"])

    def op(self, cid, args):
        c = self.p.spec[cid]
        self.deps.add((c["mod"], cid))
        if self.on_exec:
            self.on_exec(cid)
        r = args[0] + (3 * args[1] if len(args) > 1 else 0)
        return self.run(c, c["mod"], cid, args[0], r) % P

    def fn(self, cid, x, cb=None):
        c = self.p.spec[cid]
        self.deps.add((c["mod"], cid))
        if c.get("kind") == "gen":
            out = 0
            for i in range(x):
                out += self.run(c, c["mod"], cid, i, i) % P
            return out
        r = x if cb is None else cb(x)
        r = self.run(c, c["mod"], cid, x, r)
        if c.get("kind") == "bad" and r >= 0:
            raise BadHelper()
        return r % P

    def run(self, c, mod, me, x, r, obj=None):
        return self.block(c["stmts"], mod, me, x, r, obj)

    def block(self, stmts, mod, me, x, r, obj):
        for s in stmts:
            self.steps += 1
            if self.steps > 5000:
                raise Skip()
            k = s[0]
            if k in ("add", "imp"):
                r = r + s[1]
            elif k == "mul":
                r = r * s[1]
            elif k in ("glob", "lam"):
                r = r + self.glob(mod, s[1])
            elif k in ("call", "dflt"):
                r = r + self.fn(s[1], r % 97)
            elif k == "comp":
                r = r + sum([self.fn(s[1], i) for i in range(2)])
            elif k == "gexp":
                r = r + sum([self.fn(s[1], i) for i in range(1, 3)])
            elif k == "map":
                r = r + sum([self.fn(s[1], i) for i in [1, 2]])
            elif k == "cb":
                r = r + self.fn(s[1], r % 97, cb=lambda y: y + self.glob(mod, s[2]))
            elif k == "try":
                try:
                    r = r + self.fn(s[1], r % 97)
                except BadHelper:
                    r = r + 1
            elif k == "gen":
                r = r + self.fn(s[1], 3)
            elif k == "rec":
                if x > 0:
                    r = r + self.fn(me, x // 2)
            elif k == "meth":
                cls = self.p.spec[s[1]]
                self.deps.add((mod, "OBJ_" + s[1]))
                m = [m for m in cls["methods"] if m["name"] == s[2]]
                if not m:
                    raise Skip()
                self.deps.add((cls["mod"], s[1] + "." + s[2]))
                a = r % 97
                r = r + self.run(m[0], cls["mod"], s[2], a, a, obj=cls) % P
            elif k == "field":
                r = r + obj["k"]
            elif k == "nest":
                r = r + (self.op(s[1], (r % 97,)) if self.plain else self.nested(s[1], r % 97))
            elif k == "noop":
                self.plain += 1
                r = r + self.op(s[1], (r % 97,))
                self.plain -= 1
            elif k in ("ifx", "ifr"):
                r = self.block(s[1] if (x if k == "ifx" else r) % 2 == 0 else s[2], mod, me, x, r, obj)
        return r


def truth(prog, cid, args):
    it = Interp(prog, None)
    it.nested = lambda o, x: it.op(o, (x,))
    return it.op(cid, args)


# ------------------------------------------------------------------------------------------------------------- the model
class VS:
    """The recorded code history: components with their commits, and which calls are known in which version."""
    __slots__ = ("comps", "rows")

    def __init__(self):
        self.comps = {}     # key -> (commits: content -> semantic content, head)
        self.rows = {}      # (op, args) -> tuple of versions; a version is a frozenset of (key, semantic content)

    def copy(self):
        v = VS()
        v.comps = dict(self.comps)
        v.rows = dict(self.rows)
        return v

    def sig(self):
        return (tuple(sorted((k, tuple(sorted(c.items())), h) for k, (c, h) in self.comps.items())),
                tuple(sorted((k, tuple(sorted(map(hash, r)))) for k, r in self.rows.items())))

    def sem(self, prog):
        """key -> semantic content now, for all known components."""
        return {k: c[prog.content(k)] for k, (c, h) in self.comps.items()}


class State:
    """One possibility of what the process and the disk contain."""

    def __init__(self):
        self.vm, self.dirty = VS(), {}
        self.vd, self.cd, self.soft = VS(), {}, []

    def copy(self):
        s = State()
        s.vm, s.dirty = self.vm.copy(), dict(self.dirty)
        s.vd, s.cd, s.soft = self.vd, dict(self.cd), list(self.soft)
        return s

    def sig(self):
        return (self.vm.sig(), tuple(sorted(map(hash, self.dirty))), self.vd.sig(), tuple(sorted(map(hash, self.cd))), len(self.soft))

    def calls(self):
        return {**self.cd, **self.dirty}

    # ---- code sync
    def unknown(self, prog):
        return [k for k, (c, h) in self.vm.comps.items() if prog.content(k) not in c]

    def sync(self, prog, yes):
        for k, (c, h) in list(self.vm.comps.items()):
            now = prog.content(k)
            if now not in c:
                c = dict(c)
                c[now] = now if yes else c[h]
            self.vm.comps[k] = (c, now)

    # ---- calls. A history id is ("k", value) or the key of the producing call (op, input histories, version)
    def call(self, prog, op, vals, hists, ctx):
        key = (op, vals)
        sem = self.vm.sem(prog)
        for ver in self.vm.rows.get(key, ()):
            if all(sem.get(k) == v for k, v in ver):
                ck = (op, hists, ver)
                calls = self.calls()
                if ck in calls:
                    return calls[ck], ck
                for (o, h, v), val in calls.items():
                    if o == op and v == ver and ctx.argvals.get((o, h)) == vals:
                        self.dirty[ck] = val
                        ctx.argvals[(op, hists)] = vals
                        return val, ck
                break
        if not ctx.executing:
            ctx.top_exec = True
        sup = {}

        def nested(o, x):
            val, ck = self.call(prog, o, (x,), (("k", x),), ctx)
            sup.update(dict(ck[2]))
            return val

        it = Interp(prog, nested, on_exec=ctx.on_exec)
        ctx.executing += 1
        try:
            val = it.op(op, vals)
        finally:
            ctx.executing -= 1
        for k in it.deps:
            if k not in self.vm.comps:
                now = prog.content(k)
                self.vm.comps[k] = ({now: now}, now)
            c, h = self.vm.comps[k]
            sup[k] = c[h]
        ver = frozenset(sup.items())
        old = self.vm.rows.get(key, ())
        if ver not in old:
            self.vm.rows[key] = old + (ver,)
        ck = (op, hists, ver)
        ctx.argvals[(op, hists)] = vals
        self.dirty[ck] = val
        return val, ck

    # ---- durability
    def commit(self):
        self.vd = self.vm.copy()
        self.cd.update(self.dirty)
        self.dirty = {}
        self.soft = []

    def maybe_commit(self):
        """-> the states after a save that was cut off or failed."""
        a, b = self.copy(), self.copy()
        old = (b.vd, dict(b.cd), list(b.soft))
        dirty = dict(b.dirty)
        b.commit()
        b.soft = old[2] + [(old[0], old[1])]
        b.dirty = dirty              # the process that failed still considers this as unsaved
        return [a, b]

    def process_ends(self):
        self.vm, self.dirty = self.vd.copy(), {}

    def power(self):
        out = []
        for vd, cd in self.soft:
            s = self.copy()
            s.vd, s.cd, s.soft = vd, dict(cd), []
            out.append(s)
        s = self.copy()
        s.soft = []
        return out + [s]

    def dependents(self, gone):
        calls = self.calls()
        gone = set(gone)
        while True:
            more = {ck for ck in calls if ck not in gone and any(h in gone for h in ck[1])}
            if not more:
                return gone
            gone |= more

    def drop(self, gone):
        for ck in gone:
            self.cd.pop(ck, None)
            self.dirty.pop(ck, None)

    def drop_version(self, ver):
        gone = self.dependents([ck for ck in self.calls() if ck[2] == ver])
        self.drop(gone)
        v = self.vm
        for k, vers in list(v.rows.items()):
            left = tuple(x for x in vers if x != ver)
            if left:
                v.rows[k] = left
            else:
                v.rows.pop(k)
        self.vd = v.copy()       # (what else is known about the code by now is saved as well)


class Ctx:
    def __init__(self, argvals, fault_n=None, fault_exc=None):
        self.argvals, self.n, self.fault_n, self.fault_exc = argvals, 0, fault_n, fault_exc
        self.ran = []
        self.executing = 0
        self.top_exec = False

    def on_exec(self, cid):
        self.ran.append(cid)
        self.n += 1
        if self.n == self.fault_n:
            raise OpExc()


class VSession:
    def __init__(self, run):
        self.run, self.w = run, run.w
        self.proc = run.w.new_proc()
        self.env = {}
        self.ran = []
        self.nq = 0
        self.storage = None
        self.pm = None

    def close(self):
        self.env.clear()
        self.storage = None


class VRun(Run):
    def __init__(self, plan, root, keep_log=False):
        super().__init__(dict(plan, storages=[{}]), root, keep_log)
        self.mode = plan["mode"]
        self.cands = [State()]
        self.argvals = {}
        self.prog = Prog({k: dict(c) for k, c in plan["comps"].items()})
        self.cells = 0
        self.saved_main = sys.modules.get("__main__")
        self.pkgdir = (os.path.join(root, "pkg-") + "p" * 200)[:150]
        self.old_path = list(sys.path)
        if self.mode == "pkg":
            os.makedirs(self.pkgdir)
            sys.path.insert(0, self.pkgdir)
        self.w.input_handler = self.on_question
        self.answers = None
        self.verbind = ({}, {})
        self.live = {}       # output history id -> call key

    @contextlib.contextmanager
    def phase(self, act, ph):
        try:
            with super().phase(act, ph):
                yield
        finally:
            self.w.release_all()       # (whoever else held the lock is done)

    # ------------------------------------------------------------------ processes
    def start(self):
        s = self.sess = VSession(self)
        w = self.w
        p = s.proc
        main = types.ModuleType("__main__")
        main.__dict__["__builtins__"] = builtins
        lib = types.ModuleType("simlib")

        def SIM(name):
            s.ran.append(name)
            w.op_event(name)

        def UNW(ref):
            return s.storage.unwrap(ref)

        SIM.__module__ = UNW.__module__ = "simlib"
        lib.SIM, lib.UNW = SIM, UNW
        p.mods["__main__"] = main
        p.mods["simlib"] = lib
        w.switch(p)
        s.main = main
        self.load_code(first=True)
        s.storage = p.mod("storage").Storage(db_path=self.db_path(0), deps_path="__main__" if self.mode == "main" else self.pkgdir)

    def cell(self, src):
        self.cells += 1
        fn = "<cell-%d>" % self.cells
        linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
        exec(compile(src, fn, "exec", dont_inherit=True), self.sess.main.__dict__)

    def load_code(self, first=False, changed=None):
        """Bring the code of the running process to the program."""
        s = self.sess
        if self.mode == "main":
            if first:
                self.cell("\n".join(Prog.HEADER))
                changed = list(self.prog.spec)
            order = sorted((c for c in changed if c in self.prog.spec),
                           key=lambda i: ({"glob": 0, "cls": 2, "fn": 1, "op": 3}[self.prog.spec[i]["t"]], i))
            for cid in order:
                self.cell(self.prog.text(cid) + "\n")
            for cid in changed:
                if cid not in self.prog.spec:
                    s.main.__dict__.pop(cid, None)
                    s.main.__dict__.pop("OBJ_" + cid, None)
            return
        for m in ("valpha", "vbeta"):
            fn = os.path.join(self.pkgdir, m + ".py")
            with K._real["open"](fn, "w") as f:
                f.write(self.prog.module_text(m))
            linecache.cache.pop(fn, None)
            sys.modules.pop(m, None)
        importlib.invalidate_caches()
        for m in ("vbeta", "valpha"):
            s.proc.mods[m] = importlib.import_module(m)

    def end_process(self, how, power=None):
        s = self.sess
        if s is not None:
            if how == "exit":
                self.w.retire(s.proc)
            else:
                self.w.bury(s.proc)
            s.close()
        self.sess = None
        self.w.switch(None)
        for m in ("valpha", "vbeta", "simlib", "__main__"):
            sys.modules.pop(m, None)
        for c in self.cands:
            c.process_ends()
        gc.collect()         # (what an exception still holds on to, e.g. an open cursor)
        if power is not None:
            self.w.release_all()
            self.w.power_loss(power["seed"], power["mode"])
            new = []
            for c in self.cands:
                new += c.power()
            self.cands = new
            for c in self.cands:
                c.process_ends()
        self.dedupe()

    def dedupe(self):
        out = {}
        for c in self.cands:
            out.setdefault(c.sig(), c)
        self.cands = list(out.values())
        self.states.add("cands%d" % min(len(self.cands), 4))

    def check_session_sane(self):
        s = self.sess
        if s is None:
            return
        self.check("sane")
        if s.proc.mod("model").Context.current_context is not None:
            self.violation("mode", "after leaving every block a context is still active")

    def crash(self, act, ph, fault):
        self.trace.append("-- process killed during action %s (%s)" % (act.get("id"), ph))
        if ph in ("exit", "commit"):
            self.cands = [y for c in self.cands for y in c.maybe_commit()]
        elif ph in ("drop", "dropv"):
            self.cands = [y for c in self.cands for y in self.drop_outcomes(c, act)]
        self.end_process("kill", (fault or {}).get("power"))
        self.w.check_quiet_reset()
        self.audit_all("after crash")

    def close(self):
        try:
            super().close()
        finally:
            for m in ("valpha", "vbeta", "simlib"):
                sys.modules.pop(m, None)
            sys.modules["__main__"] = self.saved_main
            sys.path[:] = self.old_path
            for k in [k for k in linecache.cache if k.startswith("<cell-") or k.startswith(self.pkgdir)]:
                del linecache.cache[k]
            for k in [k for k in sys.path_importer_cache if k.startswith(self.pkgdir)]:
                del sys.path_importer_cache[k]

    def finish(self):
        self.w.release_all()
        if self.sess is not None:
            self.end_process("exit")
        self.audit_all("at the end")

    # ------------------------------------------------------------------ the simulated user
    def on_question(self, prompt):
        s = self.sess
        if self.answers is None:
            self.violation("ask", "a question is asked outside of entering a block")
        if self.answers["junk"] > 0:
            self.answers["junk"] -= 1
            return ["maybe", "", "Yes?", "q"][self.answers["junk"] % 4]
        s.nq += 1
        a = self.answers
        if a["abort"] and s.nq == a["abort"]:
            self.trace.append("    question %d: a" % s.nq)
            return "a"
        if s.nq > 60:
            self.violation("ask", "endless questions")
        return [a["ans"], a["ans"].upper() + " "][s.nq % 2]

    def may_say_no(self):
        lies = self.plan.get("lies")
        for c in self.cands:
            for k in c.unknown_heads:
                if self.prog.shape(k, not lies) == MISSING:
                    return False
                if self.head_shapes.get((k, c.vm.comps[k][1])) != self.prog.shape(k, not lies):
                    return False
        return True

    def note_shapes(self):
        """Remember what each content of each known component looks like, to know which later changes are cosmetic."""
        for c in self.cands:
            for k in c.vm.comps:
                self.head_shapes[(k, self.prog.content(k))] = self.prog.shape(k, not self.plan.get("lies"))

    head_shapes = None

    # ------------------------------------------------------------------ actions
    def execute(self):
        self.head_shapes = {}
        return super().execute()

    def do_edit(self, act):
        spec = dict(self.prog.spec)
        changed = []
        for cid, c in act["set"].items():
            if c is None:
                spec.pop(cid, None)
            else:
                spec[cid] = c
            changed.append(cid)
        new = Prog(spec)
        if not new.valid():
            raise Skip()
        self.trace.append("edit %s  #%d" % (", ".join("%s%s" % (c, "" if act["set"][c] else " (deleted)") for c in changed), act["id"]))
        # a component keeps being used under its module: what uses a global's kind is rendered from it
        users = {u for u, c in spec.items() if set(refs_of(all_stmts(c))) & set(changed)}
        rerendered = [u for u in users if u in self.prog.spec and self.prog.valid() and self.prog.text(u) != new.text(u)]
        self.note_shapes()
        self.prog = new
        if self.mode == "main":
            self.load_code(changed=changed + [u for u in rerendered if u not in changed])
        else:
            self.end_process("exit")
            self.audit_all("after an edit")
            self.mark(act, "open")
            self.open_again(act)

    def open_again(self, act):
        err = None
        with self.phase(act, "open"):
            try:
                self.start()
            except (SimCrash, SimStall, HarnessError, Violation):
                raise
            except (Exception, KeyboardInterrupt) as e:
                err = e
        if err is not None:
            if not self.io_fault_now:
                raise Violation("open", "opening the storage fails: %s: %s" % (type(err).__name__, err))
            self.w.probe("open_failed_io")
            self.end_process("kill")

    def restart_after_death(self):
        self.w.release_all()
        self.start()

    def do_restart(self, act):
        self.trace.append("restart (%s) #%d" % (act["how"], act["id"]))
        how = act["how"]
        power = dict(seed=act.get("seed", 1), mode=act.get("pmode", 0)) if how == "power" else None
        self.end_process("exit" if how == "exit" else "kill", power)
        self.audit_all("after restart")
        self.mark(act, "open")
        self.open_again(act)

    def do_with(self, act):
        s = self.sess
        st = s.storage
        nested = self.depth > 0
        for c in self.cands:
            c.unknown_heads = c.unknown(self.prog)
        want = act.get("ans", "y")
        abort = want[1] if isinstance(want, list) else 0
        if want == "n" and not self.may_say_no():
            want = "y"
        ans = "n" if want == "n" else "y"
        self.answers = dict(ans=ans, abort=abort, junk=act.get("junk", 0))
        s.nq = 0
        self.trace.append("%swith storage:  (answers: %s)  #%d" % ("  " * self.depth, want, act["id"]))
        self.mark(act, "enter")
        err = None
        with self.phase(act, "enter"):
            try:
                st.__enter__()
            except (SimCrash, SimStall, HarnessError, Violation):
                raise
            except (Exception, KeyboardInterrupt) as e:
                err = e
        self.answers = None
        nq = s.nq
        if nq:
            self.w.probe("questions", nq)
            self.trace.append("    %d questions" % nq)
        new, why = [], []
        for c in self.cands:
            n = len(c.unknown_heads)
            aborted = bool(abort) and n >= abort
            expect = abort if aborted else n
            if err is None:
                if aborted or nq != expect:
                    why.append((expect, aborted))
                    continue
                c.sync(self.prog, ans == "y")
                new.append(c)
            elif aborted and nq == expect and not self.io_fault_now:
                new.append(c)
            elif self.fault_fired_now:
                if nq <= expect:
                    new.append(c)
                if nq == expect and not aborted:
                    c2 = c.copy()
                    c2.sync(self.prog, ans == "y")
                    new.append(c2)
            else:
                why.append((expect, aborted))
        if not new:
            e, ab = why[0] if why else (None, None)
            if err is not None and not ab:
                self.violation("error", "entering a block fails: %s: %s (asked %d questions, expected %s)" % (type(err).__name__, err, nq, e))
            if e is not None and nq < e:
                self.violation("noask", "%d questions asked on entry, but %d components changed" % (nq, e))
            self.violation("ask", "%d questions asked on entry, expected %s%s" % (nq, e, " then abort" if ab else ""))
        self.cands = new
        if err is None:
            self.note_shapes()
        self.dedupe()
        self.check("sync")
        if err is not None:
            if abort:
                self.w.probe("aborted_sync")
            err._sim_expected = True
            raise err
        self.depth += 1
        exc = None
        try:
            for a in act["body"]:
                try:
                    self.do(a)
                except Skip:
                    pass
        except (SimCrash, SimStall, HarnessError, Violation):
            raise
        except (Exception, KeyboardInterrupt) as e:
            exc = e
        self.depth -= 1
        self.mark(act, "exit")
        xerr = None
        with self.phase(act, "exit"):
            try:
                st.__exit__(type(exc) if exc else None, exc, None)
            except (SimCrash, SimStall, HarnessError, Violation):
                raise
            except (Exception, KeyboardInterrupt) as e:
                xerr = e
        if not nested:
            self.saved(xerr, "leaving a block")
        elif xerr is not None:
            self.violation("error", "leaving an inner block fails: %s: %s" % (type(xerr).__name__, xerr))
        if xerr is not None:
            self.w.probe("failed_save")
            xerr._sim_expected = True
            raise xerr
        if exc is not None:
            if getattr(exc, "_sim_expected", None) is None:
                raise exc
            if not act.get("catch"):
                raise exc

    depth = 0

    def after_top(self, act):
        self.depth = 0
        super().after_top(act)

    def saved(self, err, what):
        if err is None:
            for c in self.cands:
                c.commit()
        else:
            if not self.fault_fired_now:
                self.violation("commit_error", "%s fails: %s: %s" % (what, type(err).__name__, err))
            self.cands = [y for c in self.cands for y in c.maybe_commit()]
        self.dedupe()

    def do_commit(self, act):
        self.mark(act, "commit")
        self.trace.append("%scommit #%d" % ("  " * self.depth, act["id"]))
        err = None
        with self.phase(act, "commit"):
            try:
                self.sess.storage.commit()
            except (SimCrash, SimStall, HarnessError, Violation):
                raise
            except (Exception, KeyboardInterrupt) as e:
                err = e
        self.saved(err, "an explicit commit")
        if err is not None:
            err._sim_expected = True
            raise err

    def do_call(self, act):
        s = self.sess
        cid = act["op"]
        if self.depth == 0 or cid not in self.prog.spec or not self.prog.valid():
            raise Skip()
        args, vals, hists = [], [], []
        for a in act["args"][:self.prog.spec[cid].get("nargs", 1)]:
            if a[0] == "k":
                args.append(a[1]), vals.append(a[1]), hists.append(("k", a[1]))
            else:
                if a[1] not in s.env:
                    raise Skip()
                ref, hist, val = s.env[a[1]]
                args.append(ref), vals.append(val), hists.append(hist)
        vals, hists = tuple(vals), tuple(hists)
        mod = sys.modules[self.prog.spec[cid]["mod"]]
        op = getattr(mod, cid)
        s.ran = []
        out = exc = None
        self.mark(act, "call")
        with self.phase(act, "call"):
            try:
                out = op(*args)
            except (SimCrash, SimStall, HarnessError, Violation):
                raise
            except (Exception, KeyboardInterrupt) as e:
                exc = e
        self.counts[(act["id"], "call")] = dict(op=self.counts[(act["id"], "call")].get("op", 0))
        f = self.at[2]
        ran = list(s.ran)
        got = None
        if exc is None:
            with K.quiet(self.w):
                try:
                    got = s.storage.unwrap(out)
                except Exception as e:
                    self.violation("unloadable", "the result of %s%s cannot be loaded: %s: %s" % (cid, vals, type(e).__name__, e))
        self.trace.append("%s%s = %s(%s)  #%d  ran %s%s" % ("  " * self.depth, act.get("var", "_"), cid, ", ".join(map(str, vals)), act["id"], ran,
                          " -> %s: %s" % (type(exc).__name__, exc) if exc else " = %s" % got))
        self.check("call")
        new, why = [], []
        for c in self.cands:
            ctx = Ctx(self.argvals, f["n"] if f is not None and f["seam"] == "op" else None)
            mval = ck = mexc = None
            before = c.copy()
            try:
                mval, ck = c.call(self.prog, cid, vals, hists, ctx)
            except OpExc as e:
                mexc = e
            if (mexc is None) == (exc is None) and ctx.ran == ran and (exc is not None or (mval == got and type(got) is int)):
                new.append((c, ck, mval))
            else:
                why.append((ctx.ran, mval, mexc))
            del before
        if not new:
            eran, mval, mexc = why[0]
            t = truth(self.prog, cid, vals)
            if exc is not None and mexc is None:
                self.violation("error", "%s%s fails: %s: %s" % (cid, vals, type(exc).__name__, exc))
            if len(ran) < len(eran):
                self.violation("noexec", "%s%s gave %s running only %s; %s had to run again (the current code gives %s)" % (cid, vals, got, ran, eran, t))
            if len(ran) > len(eran):
                self.violation("reexec", "%s%s ran %s again, although only %s was out of date" % (cid, vals, ran, eran))
            self.violation("value" if ran == eran else "noexec", "%s%s gave %s (ran %s), expected %s (running %s); the current code gives %s"
                           % (cid, vals, got, ran, mval, eran, t))
        self.cands = [c for c, ck, v in new]
        self.dedupe()
        if exc is not None:
            exc._sim_expected = True
            if act.get("catch"):
                return
            raise exc
        if not self.plan.get("lies"):
            t = truth(self.prog, cid, vals)
            self.check("truth")
            if t != got:
                self.violation("stale", "%s%s gave %s, but the current code gives %s" % (cid, vals, got, t))
        cks = {ck for c, ck, v in new}
        if len(cks) == 1:
            ck = cks.pop()
            self.bind.pair(self.bind.hid2h, self.bind.h2hid, out.hid, ck, "history id")
            self.states.add("ver:" + K.hashlib.sha1(repr(sorted(ck[2])).encode()).hexdigest()[:10])
            if act.get("var"):
                s.env[act["var"]] = (out, ck, got)
        elif act.get("var"):
            s.env.pop(act["var"], None)

    # ---- maintenance outside blocks
    def target(self, act):
        s = self.sess
        if act["var"] not in s.env:
            raise Skip()
        ref, ck, val = s.env[act["var"]]
        if not all(ck in c.cd for c in self.cands):
            raise Skip()
        return ref, ck

    def drop_outcomes(self, c, act):
        ck = act["_ck"]
        a, b, d = c.copy(), c.copy(), c.copy()
        gone = c.dependents([ck] if act["t"] == "drop" else [k for k in c.calls() if k[2] == ck[2]])
        for k in gone:
            a.dirty.pop(k, None)
        if act["t"] == "drop":
            b.drop(gone)
        else:
            b.drop_version(ck[2])
        b.soft = c.soft + [(c.vd, dict(c.cd))]
        return [a, b, d] if any(k in c.dirty for k in gone) else [a, b]

    def maintenance(self, act, ph, what, fn):
        ref, ck = self.target(act)
        act = dict(act, _ck=ck)
        st = self.sess.storage
        with K.quiet(self.w):
            hids = list(st.call_storage.get_creator_hids([ref.hid]))
            if len(hids) != 1:
                self.violation("lost", "the call that made a saved reference is unknown")
            creator = st.get_call(hids[0], lazy=True)
        self.w.probe(ph + ("_in_block" if self.depth else "") + ("_unsaved" if any(k[2] == ck[2] for c in self.cands for k in c.dirty) else ""))
        self.trace.append("%s %s of %s  #%d" % (what, "version" if ph == "dropv" else "call", act["var"], act["id"]))
        self.at = (act, ph, self.faults.get((act["id"], ph)))
        err = None
        with self.phase(act, ph):
            try:
                fn(self.sess.storage, creator)
            except (SimCrash, SimStall, HarnessError, Violation):
                raise
            except (Exception, KeyboardInterrupt) as e:
                err = e
        if err is None:
            for c in self.cands:
                gone = c.dependents([ck] if ph == "drop" else [k for k in c.calls() if k[2] == ck[2]])
                if ph == "drop":
                    c.drop(gone)
                else:
                    c.drop_version(ck[2])
        else:
            if not self.fault_fired_now:
                self.violation("error", "dropping fails: %s: %s" % (type(err).__name__, err))
            self.cands = [y for c in self.cands for y in self.drop_outcomes(c, act)]
        self.dedupe()
        self.audit_all("after dropping")
        if err is not None:
            err._sim_expected = True
            raise err

    def do_drop(self, act):
        self.maintenance(act, "drop", "drop", lambda st, call: st.drop_calls([call], delete_dependents=True))

    def do_dropv(self, act):
        self.maintenance(act, "dropv", "drop", lambda st, call: st.drop_version(call.semantic_version))

    def do_clear(self, act):
        if self.depth:
            raise Skip()
        self.trace.append("clear cache (allow_uncommitted=%s) #%d" % (act["unc"], act["id"]))
        err = None
        try:
            self.sess.storage.clear_cache(allow_uncommitted=act["unc"])
        except ValueError as e:
            err = e
        new = []
        for c in self.cands:
            if act["unc"]:
                if err is not None:
                    continue
                c.dirty = {}
                new.append(c)
            elif err is not None or not c.dirty:
                # (also refuses when only parts that are saved already were to be saved again)
                new.append(c)
        if not new:
            self.violation("clear", "clear_cache: %r" % (err,))
        self.cands = new
        if act["unc"]:
            # references whose only copy was thrown away on request are not used again
            for v in [v for v, (ref, ck, val) in self.sess.env.items() if not all(ck in c.cd for c in new)]:
                del self.sess.env[v]
        self.dedupe()

    def do_look(self, act):
        """Questions about the history, which must not change anything."""
        s = self.sess
        if act["op"] not in self.prog.spec:
            raise Skip()
        op = getattr(sys.modules[self.prog.spec[act["op"]]["mod"]], act["op"])
        key = (self.prog.mod(act["op"]), act["op"])
        if not all(key in c.vm.comps for c in self.cands):
            raise Skip()
        try:
            if act["how"] == 0:
                s.storage.versions(op, plain=True)
            elif act["how"] == 1:
                s.storage.source_history(op, plain=True)
            else:
                s.storage.source_history(op, plain=True, compact=True)
        except Exception as e:
            self.violation("error", "showing the history of %s fails: %s: %s" % (act["op"], type(e).__name__, e))

    # ------------------------------------------------------------------ audit
    def audit_all(self, when):
        w = self.w
        w.probe("audits")
        with K.quiet(w):
            cur = self.sess.proc if self.sess else None
            path, ovf, d = self.copy_store(0)
            try:
                if path is None:
                    return
                if self.auditor is None:
                    self.auditor = w.new_proc()
                    self.auditor.mods["__main__"] = types.ModuleType("__main__")
                w.switch(self.auditor)
                self._audit_v(path, when)
            finally:
                for c in list(w.conns):
                    if self.auditor is not None and c.sim_owner == self.auditor.pid:
                        try:
                            sqlite3.Connection.close(c)
                        except sqlite3.Error:
                            pass
                        w.conns.discard(c)
                w.switch(cur)
                if cur is None:
                    sys.modules.pop("__main__", None)
                shutil.rmtree(d, ignore_errors=True)

    def _audit_v(self, path, when):
        self.check("audit")
        try:
            st = self.auditor.mod("storage").Storage(db_path=path)
            df = st.call_storage.get_df().reset_index()
        except Exception as e:
            raise Violation("open", "%s: the store cannot be reopened: %s: %s" % (when, type(e).__name__, e))
        calls = {}
        for row in df.to_dict("records"):
            c = calls.setdefault(row["call_history_id"], dict(op=row["op"], sv=row["semantic_version"], cv=row["content_version"], ins={}, outs={}))
            c["ins" if row["direction"] == "in" else "outs"][row["name"]] = row["ref_history_id"]
            if (row["semantic_version"], row["content_version"]) != (c["sv"], c["cv"]):
                self.violation("version", "%s: rows of one call carry different versions" % when)
        maker = {}
        for hid, c in calls.items():
            for o in c["outs"].values():
                if maker.setdefault(o, hid) != hid:
                    self.violation("identity", "%s: two calls made reference %s" % (when, o))
        # which recorded call is which call of the model
        memo = {}
        texts = {}

        def load(hid, what):
            try:
                return st.unwrap(st.load_ref(hid))
            except Exception as e:
                self.violation("unloadable", "%s: %s cannot be loaded: %s: %s" % (when, what, type(e).__name__, e))

        def text(c):
            if c["cv"] not in texts:
                try:
                    texts[c["cv"]] = st.get_code(version_id=c["cv"], show=False)
                except Exception as e:
                    self.violation("version", "%s: a recorded call to %s refers to a version the storage does not know: %s: %s"
                                   % (when, c["op"], type(e).__name__, str(e)[:200]))
            return texts[c["cv"]]

        known = {}
        for c in self.cands:
            for ck, val in c.cd.items():
                known.setdefault((ck[0], ck[1]), {}).setdefault(ck, set()).add(val)
        taken = set()

        def hist(rhid):
            if rhid not in maker:
                # (the result of a call that was dropped can still be used)
                return self.bind.hid2h.get(rhid) or ("k", load(rhid, "an input"))
            return key_of(maker[rhid])

        def shows(txt, ck):
            for (m, n), sem in ck[2]:
                if sem == MISSING:
                    continue
                if sem.startswith("glob:") or sem.startswith("obj:"):
                    if n + " = " not in txt:
                        return False
                elif sem not in txt:
                    return False
            return True

        def key_of(chid):
            if chid in memo:
                return memo[chid]
            c = calls[chid]
            memo[chid] = None
            ins = tuple(hist(c["ins"][k]) for k in sorted(c["ins"]))
            outs = sorted(c["outs"])
            if len(outs) != 1:
                self.violation("partial", "%s: call to %s has %d outputs recorded" % (when, c["op"], len(outs)))
            out = c["outs"][outs[0]]
            if len(ins) != 1 and len(ins) != 2:
                self.violation("partial", "%s: call to %s has %d inputs recorded" % (when, c["op"], len(ins)))
            val = load(out, "the result of %s" % c["op"])
            ck = self.bind.hid2h.get(out)
            txt = text(c)
            if ck is None:
                fits = [k for k, vs in known.get((c["op"], ins), {}).items() if val in vs and k not in taken and shows(txt, k)]
                if not fits:
                    self.violation("extra", "%s: a call %s%s = %s is recorded that was never made or was dropped" % (when, c["op"], ins, val))
                # several versions with the same code and result: told apart by what is bound already
                fits.sort(key=lambda k: (self.verbind[0].get(c["sv"]) != k[2], repr(sorted(k[2]))))
                ck = fits[0]
                if len(fits) > 1:
                    memo[chid] = ck
                    taken.add(ck)
                    return ck
            else:
                if (ck[0], ck[1]) != (c["op"], ins):
                    self.violation("prov", "%s: reference %s is recorded as made by %s%s" % (when, out, c["op"], ins))
                if not shows(txt, ck):
                    self.violation("version", "%s: the code recorded for a call to %s is not the code that ran" % (when, c["op"]))
                if ck in known.get((ck[0], ck[1]), {}) and val not in known[(ck[0], ck[1])][ck]:
                    self.violation("value", "%s: recorded result %s of %s%s, expected %s" % (when, val, ck[0], ck[1], known[(ck[0], ck[1])][ck]))
            taken.add(ck)
            memo[chid] = ck
            self.bind.pair(self.verbind[0], self.verbind[1], c["sv"], ck[2], "version")
            return ck

        have = set()
        for chid in sorted(calls):
            have.add(key_of(chid))
        ok = [c for c in self.cands if set(c.cd) == have]
        if not ok:
            c = self.cands[0]
            lost, extra = set(c.cd) - have, have - set(c.cd)
            if len(self.cands) > 1 and all(set(x.cd) - have for x in self.cands) and any(have - set(x.cd) for x in self.cands):
                self.violation("partial", "%s: only a part of a save is recorded (missing %s)" % (when, sorted(k[:2] for k in lost)[:3]))
            if lost:
                self.violation("lost", "%s: recorded calls are gone: %s" % (when, sorted(k[:2] for k in lost)[:3]))
            self.violation("extra", "%s: calls are recorded that were not made or dropped: %s" % (when, sorted(k[:2] for k in extra)[:3]))
        self.cands = ok


# ------------------------------------------------------------------------------------------------------------- generator
class VGen:
    def __init__(self, seed, prof):
        self.r = random.Random(seed)
        self.p = prof
        self.nid = 0
        self.nvar = 0

    def id(self):
        self.nid += 1
        return self.nid

    def val(self):
        r = self.r
        kinds = ["int"] * 5 + ["list", "dict", "str", "float", "tup", "nest", "arr"] + (["lock"] if r.random() < 0.3 else [])
        k = r.choice(kinds)
        return [k, r.randrange(12)]

    def stmt(self, me, depth=0, pure=False):
        """One statement for component me, using components that come later in the order."""
        r, lies = self.r, self.lies
        rank = self.rank
        fns = [f for f in self.comps if self.comps[f]["t"] == "fn" and rank[f] > rank[me] and (self.mods[me] == "valpha" or self.mods[f] == "vbeta" or self.mode == "main")]
        globs = [g for g in self.comps if self.comps[g]["t"] == "glob" and (self.mods[me] == "valpha" or self.mods[g] == "vbeta" or self.mode == "main")]
        plain = [f for f in fns if self.comps[f].get("kind") is None]
        cls = [c for c in self.comps if self.comps[c]["t"] == "cls" and rank[c] > rank[me] and (self.mods[me] == "valpha" or self.mods[c] == "vbeta" or self.mode == "main")]
        ops = [o for o in self.comps if self.comps[o]["t"] == "op" and rank[o] > rank[me] and self.comps[o].get("nargs", 1) == 1
               and (self.mods[me] == "valpha" or self.mods[o] == "vbeta" or self.mode == "main")]
        is_op = self.comps[me]["t"] == "op"
        ch = [("add", 3), ("mul", 1), ("imp", 0.4)]
        if globs:
            ch += [("glob", 5), ("lam", 1.5)]
        if plain:
            ch += [("call", 6), ("comp", 0.6), ("gexp", 0.5), ("map", 0.5), ("dflt", 0.4)]
        for kind, nm in (("bad", "try"), ("gen", "gen")):
            if any(self.comps[f].get("kind") == kind for f in fns):
                ch.append((nm, 1.5))
        cbs = [f for f in fns if self.comps[f].get("kind") == "cb"]
        if cbs and globs:
            ch.append(("cb", 2.5))
        if cls:
            ch.append(("meth", 3))
        if ops and is_op:
            ch += [("nest", 3), ("noop", 1)]
        if depth == 0:
            if is_op and self.comps[me].get("nargs", 1) == 1 or not lies:
                ch.append(("ifx", 1.5))
            if not lies:
                ch.append(("ifr", 1.5))
        if self.comps[me]["t"] == "fn" and self.comps[me].get("kind") is None and depth == 0 and not lies:
            ch.append(("rec", 0.5))
        k = r.choices([c[0] for c in ch], [c[1] for c in ch])[0]
        if k in ("add", "mul", "imp"):
            return [k, r.randrange(2, 20)]
        if k in ("glob", "lam"):
            return [k, r.choice(globs)]
        if k in ("call", "comp", "gexp", "map", "dflt"):
            return [k, r.choice(plain)]
        if k in ("try", "gen"):
            return [k, r.choice([f for f in fns if self.comps[f].get("kind") == {"try": "bad", "gen": "gen"}[k]])]
        if k == "cb":
            return [k, r.choice(cbs), r.choice(globs)]
        if k == "meth":
            c = r.choice(cls)
            return [k, c, r.choice(self.comps[c]["methods"])["name"]]
        if k in ("nest", "noop"):
            return [k, r.choice(ops)]
        if k in ("ifx", "ifr"):
            return [k, [self.stmt(me, 1)], [self.stmt(me, 1)] if r.random() < 0.7 else []]
        return [k]

    def stmts(self, me, lo=1, hi=3):
        out = [self.stmt(me) for _ in range(self.r.randint(lo, hi))]
        # at most one recursion
        seen = False
        res = []
        for s in out:
            if s[0] == "rec":
                if seen:
                    continue
                seen = True
            res.append(s)
        return res

    def program(self):
        r = self.r
        self.mode = r.choice(self.p.get("modes", ["main", "main", "pkg"]))
        self.lies = r.random() < self.p.get("lies", 0.2)
        self.comps, self.rank, self.mods = {}, {}, {}
        names = []
        for i in range(r.randint(1, 3)):
            names.append(("K%d" % i, dict(t="glob", val=self.val())))
        for i in range(r.randint(2, 4)):
            names.append(("h%d" % i, dict(t="fn")))
        if r.random() < 0.35:
            names.append(("bad0", dict(t="fn", kind="bad")))
        if r.random() < 0.35:
            names.append(("gen0", dict(t="fn", kind="gen")))
        if r.random() < 0.35:
            names.append(("cb0", dict(t="fn", kind="cb")))
        if r.random() < 0.5:
            names.append(("C0", dict(t="cls", k=r.randrange(9))))
        for i in range(r.randint(2, 4)):
            names.append(("f%d" % i, dict(t="op", nargs=2 if r.random() < 0.2 else 1, track=r.random() < 0.3)))
        order = {"op": 0, "cls": 1, "fn": 2, "glob": 9}
        for n, c in names:
            c["mod"] = "__main__" if self.mode == "main" else ("vbeta" if r.random() < 0.45 else "valpha")
            self.mods[n] = c["mod"]
            rank = order[c["t"]] + r.random()
            if c["t"] == "cls":
                c["methods"] = []
                rank = 1.5 + r.random()
            if c["t"] == "fn":
                rank = 1.2 + r.random() * 2
            self.rank[n] = rank
            self.comps[n] = c
        for n in sorted((n for n in self.comps), key=lambda n: -self.rank[n]):
            c = self.comps[n]
            if c["t"] in ("fn", "op"):
                c["stmts"] = self.stmts(n)
            elif c["t"] == "cls":
                for j in range(r.randint(1, 2)):
                    st = self.stmts(n, 0, 2)
                    if r.random() < 0.7:
                        st.append(["field"])
                    c["methods"].append(dict(name="m%d" % j, stmts=st))

    # ---- edits
    def edit(self, cur, past):
        """-> {component: new content}"""
        r = self.r
        import copy
        kinds = [("const", 4), ("gval", 5), ("note", 2.5), ("addst", 2), ("rmst", 2), ("revert", 5), ("revall", 1.5), ("del", 0.7), ("obj", 1), ("kind", 0.5)]
        for _ in range(20):
            k = r.choices([x[0] for x in kinds], [x[1] for x in kinds])[0]
            self.comps = cur
            if k == "revert":
                cid = r.choice(sorted(past))
                old = r.choice(past[cid])
                if cid in cur and old == cur[cid]:
                    continue
                new = {cid: copy.deepcopy(old)}
            elif k == "revall":
                snap = r.choice(self.snaps)
                new = {c: copy.deepcopy(snap.get(c)) for c in set(snap) | set(cur) if snap.get(c) != cur.get(c)}
                if not new:
                    continue
            elif k == "gval":
                gs = [c for c in sorted(cur) if cur[c]["t"] == "glob" and cur[c]["val"][0] != "lock"]
                if not gs:
                    continue
                cid = r.choice(gs)
                new = {cid: dict(cur[cid], val=[cur[cid]["val"][0], (cur[cid]["val"][1] + r.randrange(1, 9)) % 23])}
            elif k == "kind":
                gs = [c for c in sorted(cur) if cur[c]["t"] == "glob"]
                if not gs or self.lies:
                    continue
                cid = r.choice(gs)
                new = {cid: dict(cur[cid], val=self.val())}
            elif k == "obj":
                cs = [c for c in sorted(cur) if cur[c]["t"] == "cls"]
                if not cs:
                    continue
                new = {cs[0]: dict(cur[cs[0]], k=r.randrange(9))}
            elif k == "del":
                used = {x for c in cur.values() for x in refs_of(all_stmts(c))}
                free = [c for c in sorted(cur) if c not in used and cur[c]["t"] in ("glob", "fn")]
                if not free or self.lies:
                    continue
                new = {r.choice(free): None}
            else:
                cid = r.choice([c for c in sorted(cur) if cur[c]["t"] != "glob"])
                c = copy.deepcopy(cur[cid])
                tgt = c
                if c["t"] == "cls":
                    tgt = r.choice(c["methods"])
                if k == "note":
                    if r.random() < 0.3:
                        tgt["doc"] = r.randrange(1, 4)
                    else:
                        tgt["note"] = r.randrange(1, 6)
                elif k == "const":
                    cs = [s for s in self.flat(tgt["stmts"]) if s[0] in ("add", "mul", "imp")]
                    if cs:
                        s = r.choice(cs)
                        s[1] = r.randrange(2, 20)
                    else:
                        tgt["stmts"].append(["add", r.randrange(2, 20)])
                elif k == "addst":
                    tgt["stmts"].insert(r.randint(0, len(tgt["stmts"])), self.stmt(cid))
                elif k == "rmst":
                    if not tgt["stmts"]:
                        continue
                    tgt["stmts"].pop(r.randrange(len(tgt["stmts"])))
                if c == cur[cid]:
                    continue
                new = {cid: c}
            nxt = dict(cur)
            for c, v in new.items():
                if v is None:
                    nxt.pop(c, None)
                else:
                    nxt[c] = v
            if Prog(nxt).valid() and any(c["t"] == "op" for c in nxt.values()) and self.small(nxt):
                return new, nxt
        return None, cur

    def small(self, spec):
        """Programs must not blow up."""
        p = Prog(spec)
        for o, c in spec.items():
            if c["t"] == "op":
                it = Interp(p, None)
                it.nested = lambda q, x: it.op(q, (x,))
                try:
                    it.op(o, (3, 5)[:c.get("nargs", 1)])
                    if it.steps > 400:
                        return False
                except (Skip, RecursionError):
                    return False
                except BadHelper:
                    return False
        return True

    def flat(self, stmts):
        for s in stmts:
            if s[0] in ("ifx", "ifr"):
                yield from self.flat(s[1])
                yield from self.flat(s[2])
            else:
                yield s

    # ---- actions
    def call(self, cur):
        r = self.r
        ops = [c for c in sorted(cur) if cur[c]["t"] == "op"]
        op = r.choice(ops)
        args = []
        for _ in range(2):
            if self.vars and r.random() < 0.3:
                args.append(["v", r.choice(self.vars)])
            else:
                args.append(["k", r.randrange(3)])
        self.nvar += 1
        v = "v%d" % self.nvar
        a = dict(t="call", id=self.id(), op=op, args=args, var=v)
        if r.random() < 0.3:
            a["catch"] = True
        self.vars.append(v)
        self.vars = self.vars[-8:]
        return a

    def again(self):
        """Most calls repeat earlier ones: that is where versions matter."""
        r = self.r
        a = dict(r.choice(self.made))
        if r.random() < 0.5:
            self.nvar += 1
            a["var"] = "v%d" % self.nvar
            self.vars = (self.vars + [a["var"]])[-8:]
        return dict(a, id=self.id())

    def block(self, cur):
        r = self.r
        body = []
        for _ in range(r.randint(1, 5)):
            if self.made and r.random() < 0.65:
                a = self.again()
                if a["op"] not in cur:
                    continue
            else:
                a = self.call(cur)
                self.made.append({k: v for k, v in a.items() if k != "id"})
                self.made = self.made[-10:]
            body.append(a)
            if self.vars and not self.lies and r.random() < self.p.get("inblock", 0):
                body.append(dict(t=r.choice(["drop", "dropv", "dropv"]), id=self.id(), var=r.choice(self.vars)))
            if r.random() < self.p.get("commit", 0.05):
                body.append(dict(t="commit", id=self.id()))
        if r.random() < 0.06 and len(body) > 1:
            body = body[:1] + [dict(t="with", id=self.id(), body=body[1:], ans="y")]
        ans = r.choices(["y", "n", ["a", r.choice([1, 1, 2, 3])]], [5, 2.5, self.p.get("abort", 1.2)])[0]
        return dict(t="with", id=self.id(), body=body, ans=ans, junk=r.choice([0, 0, 0, 1, 2]), catch=r.random() < 0.5)

    def plan(self):
        r = self.r
        import copy
        for _ in range(50):
            self.program()
            if self.small(self.comps) and Prog(self.comps).valid():
                break
        else:
            self.comps = {"f0": dict(t="op", mod=self.mods["f0"], stmts=[["add", 1]])}
        cur = self.comps
        start = copy.deepcopy(cur)
        past = {c: [copy.deepcopy(v)] for c, v in cur.items()}
        self.snaps = [copy.deepcopy(cur)]
        self.vars, self.made = [], []
        acts = [self.block(cur)]
        lo, hi = self.p.get("rounds", (3, 7))
        for _ in range(r.randint(lo, hi)):
            for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
                new, nxt = self.edit(cur, past)
                if new:
                    acts.append(dict(t="edit", id=self.id(), set=copy.deepcopy(new)))
                    cur = nxt
                    for c, v in new.items():
                        if v is not None:
                            past.setdefault(c, []).append(copy.deepcopy(v))
            self.snaps.append(copy.deepcopy(cur))
            for t, wgt in self.p.get("outside", {}).items():
                if r.random() < wgt:
                    if t == "restart":
                        how = r.choices(["exit", "kill", "power"], self.p.get("how", [3, 2, 1]))[0]
                        acts.append(dict(t="restart", id=self.id(), how=how, seed=r.randrange(1 << 20), pmode=r.randrange(4)))
                        self.vars = [] if r.random() < 0.8 else self.vars
                    elif t in ("drop", "dropv"):
                        if self.vars and not self.lies:
                            acts.append(dict(t=t, id=self.id(), var=r.choice(self.vars)))
                    elif t == "clear":
                        acts.append(dict(t="clear", id=self.id(), unc=r.random() < 0.6))
                    elif t == "look":
                        acts.append(dict(t="look", id=self.id(), op=r.choice([c for c in sorted(cur) if cur[c]["t"] == "op"]), how=r.randrange(3)))
            acts.append(self.block(cur))
        return dict(mode=self.mode, lies=self.lies, comps=start, actions=acts, faults=[], storages=[{}])
