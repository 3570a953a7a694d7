"""
Computation frames: a program of frame operations run against the real ComputationFrame over a simulated store, in
lockstep with a set model built from the reference dataflow graph. Every register is snapshotted before each step, so
that an operation that changes one of its inputs is noticed.

The model speaks of the observable content of a frame: which references and calls each node holds, and which edges
connect the nodes. It shares no code with the package.
"""
from collections import Counter, namedtuple

T = namedtuple("T", "op ins outs")          # a recorded call: op name, {input name: ref hid}, {output name: ref hid}


class Truth:
    """What the store has recorded: calls by hid, and the value node of each reference."""

    def __init__(self, calls, nodes):
        self.calls, self.nodes = calls, nodes
        self.creator, self.consumers = {}, {}
        for c, t in calls.items():
            for h in t.outs.values():
                self.creator[h] = c
            for h in t.ins.values():
                self.consumers.setdefault(h, set()).add(c)

    def ops(self):
        return sorted({t.op for t in self.calls.values()})

    def refs(self):
        return sorted({h for t in self.calls.values() for d in (t.ins, t.outs) for h in d.values()})


def label_of(op, name):
    return "elts" if op == "__make_list__" and name.startswith("elts_") else name


class Snap:
    """The observable content of a frame."""

    def __init__(self, cf):
        self.vs = {v: frozenset(x) for v, x in cf.vs.items()}
        self.fs = {f: frozenset(x) for f, x in cf.fs.items()}
        self.out_edges = {(s, d, l) for s, ls in cf.out.items() for l, ds in ls.items() for d in ds}
        self.in_edges = {(s, d, l) for d, ls in cf.inp.items() for l, ss in ls.items() for s in ss}
        self.edges = self.out_edges
        self.keys = (frozenset(cf.inp), frozenset(cf.out))
        self.refinv = {k: frozenset(v) for k, v in cf.refinv.items() if v}
        self.callinv = {k: frozenset(v) for k, v in cf.callinv.items() if v}
        self.creator = dict(cf.creator)
        self.consumers = {k: frozenset(v) for k, v in cf.consumers.items() if v}
        self.refs = frozenset(cf.refs)
        self.calls = frozenset(cf.calls)
        self.ids = {k: id(v) for k, v in cf.refs.items()}

    FIELDS = ("vs", "fs", "out_edges", "in_edges", "keys", "refinv", "callinv", "creator", "consumers", "refs", "calls", "ids")

    def diff(self, other):
        for f in self.FIELDS:
            if getattr(self, f) != getattr(other, f):
                return f
        return None

    @property
    def sets(self):
        return {**self.vs, **self.fs}

    @property
    def nodes(self):
        return set(self.vs) | set(self.fs)


class Shape:
    """Set model of a frame: node sets, edges, and the calls' io. Used to compute expected results."""

    def __init__(self, vs, fs, edges, io):
        self.vs, self.fs, self.edges, self.io = dict(vs), dict(fs), set(edges), io
        self.ins, self.outs = {n: [] for n in self.nodes}, {n: [] for n in self.nodes}
        for e in self.edges:
            self.outs[e[0]].append(e)
            self.ins[e[1]].append(e)

    @property
    def nodes(self):
        return set(self.vs) | set(self.fs)

    def set(self, n):
        return self.vs[n] if n in self.vs else self.fs[n]

    def adj(self, node):
        """For a call of func node: {name: ref} tracked inputs and outputs."""

    def names(self, c, d, label):
        t = self.io[c]
        return [n for n in (t.ins if d == "in" else t.outs) if label_of(t.op, n) == label]

    def hist(self, v, h, memo=None):
        """All (node, element) pairs that h in variable v was computed from within the frame."""
        seen, todo = set(), [(v, h)]
        while todo:
            n, x = todo.pop()
            if (n, x) in seen:
                continue
            seen.add((n, x))
            if n in self.vs:
                for f, _, l in self.ins[n]:
                    for c in self.fs[f]:
                        if any(self.io[c].outs[k] == x for k in self.names(c, "out", l)):
                            todo.append((f, c))
            else:
                for u, _, l in self.ins[n]:
                    for k in self.names(x, "in", l):
                        r = self.io[x].ins[k]
                        if r in self.vs[u]:
                            todo.append((u, r))
        return seen

    def source_elts(self):
        res = {}
        for n in self.nodes:
            have = set()
            for s, _, l in self.ins[n]:
                if n in self.vs:
                    have |= {self.io[c].outs[k] for c in self.fs[s] for k in self.names(c, "out", l)}
                else:
                    have |= {c for c in self.fs[n] if any(self.io[c].ins[k] in self.vs[s] for k in self.names(c, "in", l))}
            res[n] = self.set(n) - have
        return res

    def sink_elts(self):
        res = {}
        for n in self.nodes:
            have = set()
            for _, d, l in self.outs[n]:
                if n in self.vs:
                    have |= {self.io[c].ins[k] for c in self.fs[d] for k in self.names(c, "in", l)}
                else:
                    have |= {c for c in self.fs[n] if any(self.io[c].outs[k] in self.vs[d] for k in self.names(c, "out", l))}
            res[n] = self.set(n) - have
        return res

    def induced(self, nodes):
        nodes = set(nodes)
        return Shape({v: x for v, x in self.vs.items() if v in nodes}, {f: x for f, x in self.fs.items() if f in nodes},
                     {e for e in self.edges if e[0] in nodes and e[1] in nodes}, self.io)

    def restrict(self, view):
        return Shape({v: frozenset(view.get(v, ())) for v in self.vs}, {f: frozenset(view.get(f, ())) for f in self.fs},
                     self.edges, self.io)

    def reach_nodes(self, nodes, forward):
        seen, todo = set(nodes), list(nodes)
        while todo:
            n = todo.pop()
            for e in (self.outs if forward else self.ins)[n]:
                m = e[1] if forward else e[0]
                if m not in seen:
                    seen.add(m)
                    todo.append(m)
        return seen

    def reach(self, init, forward, how):
        """Least set of elements containing init and closed under the (strong or weak) reachability rule."""
        R = {n: set(init.get(n, ())) for n in self.nodes}
        side = "in" if forward else "out"
        while True:
            n0 = sum(len(x) for x in R.values())
            for v in self.vs:
                for e in (self.ins if forward else self.outs)[v]:
                    f = e[0] if forward else e[1]
                    for c in R[f]:
                        io = self.io[c].outs if forward else self.io[c].ins
                        for k in self.names(c, "out" if forward else "in", e[2]):
                            if io[k] in self.vs[v]:
                                R[v].add(io[k])
            for f in self.fs:
                es = (self.ins if forward else self.outs)[f]
                for c in self.fs[f] - R[f]:
                    io = self.io[c].ins if forward else self.io[c].outs
                    tracked, found = set(), set()
                    for e in es:
                        for k in self.names(c, side, e[2]):
                            tracked.add(k)
                            if io[k] in R[e[0] if forward else e[1]]:
                                found.add(k)
                    if found and (how == "weak" or found == tracked):
                        R[f].add(c)
            if sum(len(x) for x in R.values()) == n0:
                return R

    def cyclic(self):
        deg = {n: len(self.ins[n]) for n in self.nodes}
        todo, k = [n for n in deg if not deg[n]], 0
        while todo:
            n = todo.pop()
            k += 1
            for e in self.outs[n]:
                deg[e[1]] -= 1
                if not deg[e[1]]:
                    todo.append(e[1])
        return k != len(deg)

    def between(self, nodes):
        """Nodes on paths between two different ones of these nodes (acyclic frames only)."""
        fw = {n: self.reach_nodes([n], True) for n in self.nodes}
        keep = set()
        for a in nodes:
            for b in nodes:
                if a != b:
                    for s, d, _ in self.edges:
                        if s in fw[a] and b in fw[d]:
                            keep |= {s, d}
        return keep


class Bad(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


class Program:
    """Executes the steps of one frame action. `call(fn)` runs package code; `canon`/`value` compare values."""

    MAXREG = 5

    def __init__(self, storage, mod, truth, real_refs, real_ops, canon, probe):
        self.st, self.CF, self.truth = storage, mod.ComputationFrame, truth
        self.mod = mod
        self.refs, self.ops = real_refs, real_ops      # ref hid -> Ref; op name -> Op
        self.canon, self.probe = canon, probe
        self.regs = []          # [frame, loose]: loose frames may lack references their calls mention
        self.io = dict(truth.calls)
        self.n, self.step, self.deleted, self.checked = 0, None, False, Counter()

    # ---------------------------------------------------------------- checks
    def bad(self, cls, msg):
        raise Bad(cls, "%s (frame step %d: %s)" % (msg, self.n, self.step))

    def shape(self, cf):
        s = Snap(cf)
        return Shape(s.vs, s.fs, s.edges, self.io)

    def wf(self, cf, loose=False, cls="frame_op"):
        """The frame is well formed and true to the recorded graph."""
        s = Snap(cf)
        b = lambda m: self.bad(cls, m)
        if set(s.vs) & set(s.fs):
            b("%s is both a variable and a function" % sorted(set(s.vs) & set(s.fs)))
        if s.in_edges != s.out_edges:
            b("the in-edges and out-edges of the frame differ: %s" % sorted(s.in_edges ^ s.out_edges))
        for k in s.keys:
            if set(k) != s.nodes:
                b("the adjacency lists are about %s, the frame has nodes %s" % (sorted(k), sorted(s.nodes)))
        for a, d, l in s.edges:
            if not ((a in s.vs and d in s.fs) or (a in s.fs and d in s.vs)):
                b("the edge %s does not connect a variable and a function" % ((a, d, l),))
        if set(s.refs) != set().union(*s.vs.values()):
            b("the frame's references are not those of its variables")
        if set(s.calls) != set().union(*s.fs.values()):
            b("the frame's calls are not those of its functions")
        for h, r in cf.refs.items():
            if r.hid != h:
                b("reference %s is stored under %s" % (r.hid, h))
            if s.refinv.get(h, frozenset()) != {v for v in s.vs if h in s.vs[v]}:
                b("the reverse index of reference %s says %s, it is in %s" % (h[:6], sorted(s.refinv.get(h, ())), sorted(v for v in s.vs if h in s.vs[v])))
        if set(s.refinv) - set(s.refs) or set(s.callinv) - set(s.calls):
            b("the reverse index knows elements that the frame does not have")
        for c, call in cf.calls.items():
            if s.callinv.get(c, frozenset()) != {f for f in s.fs if c in s.fs[f]}:
                b("the reverse index of call %s is wrong" % c[:6])
            t = self.io.get(c)
            if t is None:
                b("the frame has a call %s of %s that was never recorded" % (c[:6], call.op.name))
            got = T(call.op.name, {k: v.hid for k, v in call.inputs.items()}, {k: v.hid for k, v in call.outputs.items()})
            if call.hid != c or got != t:
                b("call %s is shown as %s, recorded as %s" % (c[:6], got, t))
        for f, cs in s.fs.items():
            if len({self.io[c].op for c in cs}) > 1:
                b("function %s mixes calls of %s" % (f, sorted({self.io[c].op for c in cs})))
        sh = Shape(s.vs, s.fs, s.edges, self.io)
        for h, c in s.creator.items():
            if c not in s.calls or h not in s.refs or h not in self.io[c].outs.values():
                b("reference %s is said to be created by call %s" % (h[:6], c[:6]))
        for h, cs in s.consumers.items():
            for c in cs:
                if c not in s.calls or h not in s.refs or h not in self.io[c].ins.values():
                    b("reference %s is said to be used by call %s" % (h[:6], c[:6]))
        for f, cs in s.fs.items():
            for c in cs:
                t = self.io[c]
                for side, es, io in (("in", sh.ins[f], t.ins), ("out", sh.outs[f], t.outs)):
                    for k, h in io.items():
                        vars = [e[0] if side == "in" else e[1] for e in es if e[2] == label_of(t.op, k)]
                        if vars and not loose and not any(h in s.vs[v] for v in vars):
                            b("%s %s of call %s of %s is in none of the variables %s it is connected to" %
                              (side + "put", k, c[:6], f, sorted(vars)))
                        if side == "out" and any(h in s.vs[v] for v in vars) and s.creator.get(h) != c:
                            b("variable %s is connected to %s, but the frame does not know that call %s created reference %s" %
                              (sorted(vars), f, c[:6], h[:6]))
                        if side == "in" and any(h in s.vs[v] for v in vars) and c not in s.consumers.get(h, ()):
                            b("variable %s is connected to %s, but the frame does not know that call %s uses reference %s" %
                              (sorted(vars), f, c[:6], h[:6]))

    def same(self, cf, vs, fs, edges, cls, what):
        s = Snap(cf)
        f = lambda d: {k: sorted(x[:6] for x in v) for k, v in sorted(d.items())}
        if s.vs != {k: frozenset(v) for k, v in vs.items()}:
            self.bad(cls, "%s has variables %s, should have %s" % (what, f(s.vs), f(vs)))
        if s.fs != {k: frozenset(v) for k, v in fs.items()}:
            self.bad(cls, "%s has functions %s, should have %s" % (what, f(s.fs), f(fs)))
        if s.edges != set(edges):
            self.bad(cls, "%s has edges %s, should have %s" % (what, sorted(s.edges), sorted(edges)))

    # ---------------------------------------------------------------- running
    def put(self, cf, loose=False, at=None):
        if at is not None:
            self.regs[at] = [cf, loose]
        elif len(self.regs) < self.MAXREG:
            self.regs.append([cf, loose])
        else:
            self.regs[self.n % self.MAXREG] = [cf, loose]

    def blame(self):
        k = self.step[0]
        return "frame" if k in ("op", "refs", "vars", "expand", "all") else "table" if k in ("df", "hist", "table", "values") else "frame_op"

    def run(self, steps):
        for self.n, self.step in enumerate(steps):
            k = self.step[0]
            if self.deleted:
                break
            if k not in ("op", "refs", "vars") and not self.regs:
                continue
            before = [Snap(r[0]) for r in self.regs]
            frames = [r[0] for r in self.regs]
            self.inplace = None
            self.probe("frame_" + k)
            self.checked["frame_" + k] += 1
            getattr(self, "s_" + k)(*self.step[1:])
            for i, (fr, s) in enumerate(zip(frames, before)):
                if i == self.inplace:
                    continue
                d = s.diff(Snap(fr))
                if d:
                    self.bad("frame_op", "the operation changed the %s of a frame it was given" % d)

    def reg(self, i):
        i %= len(self.regs)
        return i, self.regs[i][0], self.regs[i][1]

    def some(self, xs, mask):
        """A nonempty choice of the list by bit mask."""
        xs = sorted(xs)
        res = [x for i, x in enumerate(xs) if mask >> (i % 16) & 1]
        return res or ([xs[mask % len(xs)]] if xs else [])

    def result(self, cf, res, inplace, i, loose=False, check=True, cls="frame_op"):
        """Either the new frame, or the given one changed in place."""
        if inplace:
            if res is not None:
                self.bad("frame_op", "an operation in place returned something")
            self.inplace = i
            res = cf
        elif not isinstance(res, self.CF):
            self.bad("frame_op", "the operation returned %r" % (res,))
        elif res is cf:
            self.bad("frame_op", "the operation returned its input")
        self.put(res, loose, at=i if inplace else None)
        if check:
            self.wf(res, loose, cls)
        return res

    # ---- constructors
    def s_op(self, i):
        names = sorted(self.ops)
        if not names:
            return
        name = names[i % len(names)]
        cf = self.st.cf(self.ops[name])
        calls = {c for c, t in self.truth.calls.items() if t.op == name}
        self.wf(cf, cls="frame")
        s = Snap(cf)
        if len(s.fs) != 1 or set(*s.fs.values()) != calls:
            self.bad("frame", "the frame of op %s has calls %s, recorded are %s" % (name, sorted(s.calls), sorted(calls)))
        f = next(iter(s.fs))
        want = {}
        for c in calls:
            t = self.truth.calls[c]
            for k, h in t.ins.items():
                want.setdefault(("in", label_of(name, k)), set()).add(h)
            for k, h in t.outs.items():
                want.setdefault(("out", label_of(name, k)), set()).add(h)
        got = {("in", l): set(s.vs[a]) for a, d, l in s.edges if d == f}
        got.update({("out", l): set(s.vs[d]) for a, d, l in s.edges if a == f})
        if got != want or len(s.vs) != len(want):
            self.bad("frame", "the frame of op %s does not show its recorded inputs and outputs" % name)
        self.put(cf)

    def pick(self, idx):
        hs = sorted(self.refs)
        return list(dict.fromkeys(hs[i % len(hs)] for i in idx)) if hs else []

    def s_refs(self, idx, how):
        hs = self.pick(idx)
        rs = [self.refs[h] for h in hs]
        if how == "gen":
            src = (r for r in rs)
        elif how == "set":
            src = set(rs)
        elif how == "one" and rs:
            rs, hs = rs[:1], hs[:1]
            src = rs[0]
        elif how == "hids" and rs:
            src = list(hs)
        elif how == "tuple":
            src = tuple(rs)
        else:
            src = rs
        cf = self.st.cf(src)
        self.wf(cf, cls="frame")
        s = Snap(cf)
        if len(s.vs) != 1 or s.fs or set(*s.vs.values()) != set(hs):
            self.bad("frame", "a frame of %d references (given as %s) has variables %s" % (len(hs), how, {k: len(v) for k, v in s.vs.items()}))
        self.put(cf)

    def s_vars(self, d, how):
        want, src = {}, {}
        for v in sorted(d):
            hs = self.pick(d[v])
            if not hs:
                return
            want[v] = set(hs)
            rs = [self.refs[h] for h in hs]
            src[v] = rs[0] if how == "one" and len(rs) == 1 else set(rs) if how == "set" else rs
        given = dict(src)
        cf = self.st.cf(src)
        if src != given or any(src[k] is not given[k] for k in src):
            self.bad("frame_op", "building a frame changed the dictionary of variables it was given")
        self.wf(cf, cls="frame")
        self.same(cf, want, {}, set(), "frame", "a frame of variables")
        self.put(cf)

    # ---- expansion
    def big(self, cf):
        return len(cf.vs) + len(cf.fs) > 40

    def s_expand(self, i, direction, recursive, sel, skip, inplace, reuse):
        i, cf, loose = self.reg(i)
        if loose or self.big(cf) or not cf.vs or any(not x for x in cf.fs.values()):
            return
        s0, sh0 = Snap(cf), self.shape(cf)
        vars = None if sel is None else self.some(cf.vs, sel)
        fn = cf.expand_back if direction == "back" else cf.expand_forward
        kw = dict(recursive=recursive, skip_existing=skip, inplace=inplace, reuse_existing=reuse)
        if vars is not None:
            kw["varnames"] = vars[0] if len(vars) == 1 and sel % 2 else vars if sel % 3 else set(vars)
        res = self.result(cf, fn(**kw), inplace, i, cls="frame")
        elts = sh0.source_elts() if direction == "back" else sh0.sink_elts()
        start = {h for v in (s0.vs if vars is None else vars) for h in elts[v]}
        step = lambda hs: {c for h in hs for c in ([self.truth.creator[h]] if h in self.truth.creator else [])} if direction == "back" \
            else {c for h in hs for c in self.truth.consumers.get(h, ())}
        self.expanded(s0, res, step, start, direction, recursive and vars is None, skip)
        if reuse is False:
            self.probe("frame_noreuse")

    def s_all(self, i, inplace, reuse):
        i, cf, loose = self.reg(i)
        if loose or self.big(cf) or not cf.vs or any(not x for x in cf.fs.values()):
            return
        s0 = Snap(cf)
        res = self.result(cf, cf.expand_all(inplace=inplace, reuse_existing=reuse), inplace, i, cls="frame")
        self.expanded(s0, res, None, None, "all", True)

    def expanded(self, s0, res, step, start, direction, recursive, skip=False):
        s1 = Snap(res)
        for n, x in s0.sets.items():
            if not x <= s1.sets.get(n, frozenset()):
                self.bad("frame", "expansion removed elements of %s" % n)
        if not s0.edges <= s1.edges:
            self.bad("frame", "expansion removed edges")
        added = s1.calls - s0.calls
        io = self.truth.calls
        if any(c not in io for c in added):
            self.bad("frame", "expansion added a call that is not in the store")
        # which calls must be there, and which may be
        if direction in ("back", "forward") and not recursive:
            want = step(start)
            if added != want - s0.calls:
                self.bad("frame", "expanding %s added %d calls, should have added %d" % (direction, len(added), len(want - s0.calls)))
        else:
            # nothing that is not connected to the frame
            high, hrefs = set(s0.calls), set(s0.refs)
            while True:
                n = len(high) + len(hrefs)
                for c in high:
                    # (a function that is reused may get connected along further arguments)
                    hrefs |= set(self.io[c].ins.values()) | set(self.io[c].outs.values())
                if direction in ("back", "all"):
                    high |= {self.truth.creator[h] for h in hrefs if h in self.truth.creator}
                if direction in ("forward", "all"):
                    high |= {c for h in hrefs for c in self.truth.consumers.get(h, ())}
                if len(high) + len(hrefs) == n:
                    break
            if not s1.calls <= high:
                self.bad("frame", "expanding %s added %d calls that are not connected to the frame" % (direction, len(s1.calls - high)))
            # and nothing left to expand
            sh1 = Shape(s1.vs, s1.fs, s1.edges, self.io)
            if direction in ("back", "all"):
                for v, hs in sh1.source_elts().items():
                    for h in hs:
                        c = self.truth.creator.get(h) if v in s1.vs else None
                        if c is not None and (c not in s1.calls or not skip):
                            self.bad("frame", "expanding %s with recursion does not show how reference %s in %s was computed" % (direction, h[:6], v))
            if direction in ("forward", "all"):
                for v, hs in sh1.sink_elts().items():
                    for h in hs:
                        cs = self.truth.consumers.get(h, set()) if v in s1.vs else set()
                        if cs and (not cs <= s1.calls or not skip):
                            self.bad("frame", "expanding %s with recursion does not show what reference %s in %s was used for" % (direction, h[:6], v))
        for c in added:
            t = io[c]
            missing = [[k for k, h in d.items() if h not in s1.refs] for d in (t.ins, t.outs)]
            missing = missing[0] if direction == "back" else missing[1] if direction == "forward" else min(missing, key=len)
            if missing:
                self.bad("frame", "expansion added call %s of %s without its %s" % (c[:6], t.op, missing[0]))
        if not s1.refs <= s0.refs | {h for c in s1.calls for d in (self.io[c].ins, self.io[c].outs) for h in d.values()}:
            self.bad("frame", "expansion added references that no call of the frame mentions")
        # every call is connected along an edge to what it was found by; nothing else enters a variable
        sh = Shape(s1.vs, s1.fs, s1.edges, self.io)
        linked = {v: set() for v in s1.vs}
        live = set()
        for f in s1.fs:
            for c in s1.fs[f]:
                t = self.io[c]
                hit = False
                for a, _, l in sh.ins[f]:
                    for k in sh.names(c, "in", l):
                        linked[a].add(t.ins[k])
                        if t.ins[k] in s1.vs[a]:
                            live.add((a, f, l))
                            hit = True
                for _, d, l in sh.outs[f]:
                    for k in sh.names(c, "out", l):
                        linked[d].add(t.outs[k])
                        if t.outs[k] in s1.vs[d]:
                            live.add((f, d, l))
                            hit = True
                if c in added and not hit and (t.ins or t.outs):
                    self.bad("frame", "expansion added call %s of %s without connecting it to anything" % (c[:6], f))
        for v in s1.vs:
            for h in s1.vs[v] - s0.vs.get(v, frozenset()):
                if h not in linked[v]:
                    self.bad("frame", "expansion put reference %s into variable %s, which nothing connects there" % (h[:6], v))
        for e in s1.edges - s0.edges:
            if e not in live:
                self.bad("frame", "expansion drew the edge %s between elements that are not connected" % (e,))
        # a call that was found through a reference of the frame is connected to it
        if direction != "forward":
            for c in added:
                for k, h in io[c].outs.items():
                    if h in s1.refs and s1.creator.get(h) != c and h in (start or ()):
                        self.bad("frame", "expansion found call %s through reference %s but does not connect them" % (c[:6], h[:6]))

    # ---- graph and set operations
    def s_select(self, i, mask):
        i, cf, loose = self.reg(i)
        if not cf.nodes:
            return
        nodes = self.some(cf.nodes, mask)
        sh = self.shape(cf).induced(nodes)
        loose = loose or not self.closed(sh)
        res = self.result(cf, cf[nodes[0] if len(nodes) == 1 and mask % 2 else nodes], False, i, loose)
        self.same(res, sh.vs, sh.fs, sh.edges, "frame_op", "the selection of %s" % nodes)

    def s_stream(self, i, which, mask, how):
        i, cf, loose = self.reg(i)
        if loose or not cf.nodes:
            return
        nodes = self.some(cf.nodes, mask)
        sh = self.shape(cf)
        if which == "mid":
            if sh.cyclic() or len(sh.nodes) > 24:
                return
            sub = sh.induced(sh.between(nodes))
            init = {n: x for n, x in sub.source_elts().items() if n in nodes}
            view = sub.reach(init, True, how)
            fn = cf.midstream
        else:
            fwd = which == "down"
            sub = sh.induced(sh.reach_nodes(nodes, fwd))
            view = sub.reach({n: sh.set(n) for n in nodes}, fwd, how)
            fn = cf.downstream if fwd else cf.upstream
        want = sub.restrict(view)
        # with weak reachability, or a call without its tracked references, the result is not closed
        res = self.result(cf, fn(*nodes, how=how), False, i, True, check=False)
        self.same(res, want.vs, want.fs, want.edges, "frame_op", "%sstream(%s, how=%s)" % (which, ", ".join(nodes), how))
        ok = self.closed(want)
        self.regs[self.where(res)][1] = not ok
        self.wf(res, loose=not ok)

    def where(self, fr):
        for k, r in enumerate(self.regs):
            if r[0] is fr:
                return k

    def closed(self, sh):
        for f, cs in sh.fs.items():
            for c in cs:
                for side, es, io in (("in", sh.ins[f], self.io[c].ins), ("out", sh.outs[f], self.io[c].outs)):
                    for k, h in io.items():
                        vars = [e[0] if side == "in" else e[1] for e in es if e[2] == label_of(self.io[c].op, k)]
                        if vars and not any(h in sh.vs[v] for v in vars):
                            return False
        return True

    def s_setop(self, i, j, which):
        i, a, la = self.reg(i)
        j, b, lb = self.reg(j)
        sa, sb = self.shape(a), self.shape(b)
        clash = (set(sa.vs) & set(sb.fs)) | (set(sa.fs) & set(sb.vs))
        mixed = any({self.io[c].op for c in sa.fs[f]} != {self.io[c].op for c in sb.fs[f]} and sa.fs[f] and sb.fs[f]
                    for f in set(sa.fs) & set(sb.fs))
        if la or lb or clash or mixed:
            return
        if which == "union":
            want = Shape({v: sa.vs.get(v, frozenset()) | sb.vs.get(v, frozenset()) for v in set(sa.vs) | set(sb.vs)},
                         {f: sa.fs.get(f, frozenset()) | sb.fs.get(f, frozenset()) for f in set(sa.fs) | set(sb.fs)},
                         sa.edges | sb.edges, self.io)
            try:
                res = a | b
            except AssertionError:
                # the documented refusal: the union would not be a valid frame
                if self.strict(want):
                    self.bad("frame_op", "the union of two frames is refused, although it is a valid frame")
                self.probe("frame_union_refused")
                return
            loose = not self.closed(want)
        elif which == "inter":
            want = Shape({v: sa.vs[v] & sb.vs[v] for v in set(sa.vs) & set(sb.vs)},
                         {f: sa.fs[f] & sb.fs[f] for f in set(sa.fs) & set(sb.fs)}, sa.edges & sb.edges, self.io)
            res = a & b
            loose = not self.closed(want)
        else:
            keep = {n: sa.set(n) - (sb.set(n) if n in sb.nodes else frozenset()) for n in sa.nodes}
            sub = sa.restrict(keep)
            init = sub.source_elts()
            for f in sub.fs:
                # a call starts a computation only if none of its inputs is part of the graph
                init[f] = {c for c in init[f] if not any(sub.names(c, "in", e[2]) for e in sub.ins[f])}
            view = sub.reach(init, True, "strong")
            want = sub.restrict(view)
            want = want.induced([n for n in want.nodes if want.set(n)])
            res = a - b
            loose = not self.closed(want)
        if not isinstance(res, self.CF) or res is a or res is b:
            self.bad("frame_op", "%s returned one of its inputs" % which)
        self.same(res, want.vs, want.fs, want.edges, "frame_op", "the %s" % which)
        self.wf(res, loose)
        self.put(res, loose)
        self.share(res, (a, b))

    def strict(self, sh):
        """Valid in the strictest reading: every connected variable holds what the calls say."""
        for f, cs in sh.fs.items():
            for c in cs:
                for side, es, io in (("in", sh.ins[f], self.io[c].ins), ("out", sh.outs[f], self.io[c].outs)):
                    for k, h in io.items():
                        for e in es:
                            if e[2] == label_of(self.io[c].op, k) and h not in sh.vs[e[0] if side == "in" else e[1]]:
                                return False
        return True

    def share(self, res, ins):
        """The result shares no mutable set with its inputs."""
        mine = set()
        for d in (res.vs, res.fs, res.refinv, res.callinv, res.consumers):
            mine |= {id(x) for x in d.values()}
        for d in (res.inp, res.out):
            mine |= {id(x) for x in d.values()} | {id(y) for x in d.values() for y in x.values()}
        for o in ins:
            if o is res:
                continue
            theirs = set()
            for d in (o.vs, o.fs, o.refinv, o.callinv, o.consumers):
                theirs |= {id(x) for x in d.values()}
            for d in (o.inp, o.out):
                theirs |= {id(x) for x in d.values()} | {id(y) for x in d.values() for y in x.values()}
            if mine & theirs or res.refs is o.refs or res.calls is o.calls:
                self.bad("frame_op", "the result shares its data with the frame it was made from")

    def s_drop(self, i, mask, inplace, one):
        i, cf, loose = self.reg(i)
        if not cf.nodes:
            return
        nodes = self.some(cf.nodes, mask)
        if one:
            nodes = nodes[:1]
        sh = self.shape(cf)
        want = sh.induced(sh.nodes - set(nodes))
        loose = loose or not self.closed(want)
        if one == "var" and nodes[0] in sh.vs:
            r = cf.drop_var(nodes[0], inplace=inplace)
        elif one == "var":
            r = cf.drop_func(nodes[0], inplace=inplace)
        elif one:
            r = cf.drop_node(nodes[0], inplace=inplace)
        else:
            r = cf.drop(nodes, inplace=inplace)
        res = self.result(cf, r, inplace, i, loose)
        self.same(res, want.vs, want.fs, want.edges, "frame_op", "the frame without %s" % nodes)
        if not inplace:
            self.share(res, [cf])

    def s_rename(self, i, mask, how, inplace):
        i, cf, loose = self.reg(i)
        if not cf.vs:
            return
        sh = self.shape(cf)
        vs = self.some(sh.vs, mask)[:3]
        if how == "swap" and len(vs) > 1:
            m = {vs[k]: vs[(k + 1) % len(vs)] for k in range(len(vs))}
        elif how == "taken" and len(sh.nodes) > 1:
            m = {vs[0]: sorted(sh.nodes - {vs[0]})[mask % (len(sh.nodes) - 1)]}
        elif how == "same":
            m = {v: v for v in vs}
        else:
            m = {v: "r_%s" % v for v in vs}
        taken = set(m.values()) & (sh.nodes - set(m)) or len(set(m.values())) < len(m)
        try:
            r = cf.rename(vars=m, inplace=inplace)
        except ValueError:
            if not taken:
                self.bad("frame_op", "renaming %s fails" % m)
            self.probe("frame_rename_refused")
            return
        if taken:
            self.bad("frame_op", "renaming %s silently overwrites another node" % m)
        f = lambda n: m.get(n, n)
        res = self.result(cf, r, inplace, i, loose)
        self.same(res, {f(v): x for v, x in sh.vs.items()}, sh.fs, {(f(a), f(d), l) for a, d, l in sh.edges}, "frame_op",
                  "the frame renamed by %s" % m)
        if not inplace:
            self.share(res, [cf])

    def s_copy(self, i):
        i, cf, loose = self.reg(i)
        sh = self.shape(cf)
        res = self.result(cf, cf.copy(), False, i, loose)
        self.same(res, sh.vs, sh.fs, sh.edges, "frame_op", "the copy")
        self.share(res, [cf])

    def s_merge(self, i, inplace):
        i, cf, loose = self.reg(i)
        if loose:
            return
        sh = self.shape(cf)
        res = self.result(cf, cf.merge_vars(inplace=inplace), inplace, i)
        s = self.shape(res)
        if set(s.fs) != set(sh.fs) or any(s.fs[f] != sh.fs[f] for f in s.fs):
            self.bad("frame_op", "merging variables changed the functions")
        if not set(s.vs) <= set(sh.vs) or any(s.vs[v] != sh.vs[v] for v in s.vs):
            self.bad("frame_op", "merging variables changed the content of a variable that remains")
        for v in set(sh.vs) - set(s.vs):
            if not any(sh.vs[v] < x for x in s.vs.values()):
                self.bad("frame_op", "merging removed variable %s, which is part of no other" % v)
        for a in s.vs:
            for b in s.vs:
                if a != b and s.vs[a] < s.vs[b]:
                    self.bad("frame_op", "variables %s and %s are not merged" % (a, b))
        conn = lambda x: {(e[0] in x.vs, f, e[2]) for f in x.fs for e in x.ins[f] + x.outs[f]}
        if conn(s) != conn(sh):
            self.bad("frame_op", "merging variables lost or invented connections")
        if not inplace:
            self.share(res, [cf])

    def s_cleanup(self, i, inplace):
        i, cf, loose = self.reg(i)
        sh = self.shape(cf)
        want = sh.induced([n for n in sh.nodes if sh.set(n)])
        res = self.result(cf, cf.cleanup(inplace=inplace), inplace, i, loose)
        self.same(res, want.vs, want.fs, want.edges, "frame_op", "the cleaned-up frame")

    def s_isin(self, i, by, mask):
        i, cf, loose = self.reg(i)
        sh = self.shape(cf)
        rs = sorted(set().union(*sh.vs.values()))
        if not rs or any(not x for x in sh.fs.values()) or set(sh.fs) - {n for e in sh.edges for n in e[:2]}:
            return
        chosen = self.some(rs, mask)
        if any(h not in self.truth.nodes for h in rs):
            return
        if by == "hid":
            vals, keep = set(chosen), set(chosen)
        elif by == "cid":
            vals = {cf.refs[h].cid for h in chosen}
            keep = {h for h in rs if cf.refs[h].cid in vals}
        else:
            vals, keep = [], set()
            atoms = [h for h in chosen if isinstance(self.truth.nodes[h].plain(), (int, str))]
            if not atoms or any(not isinstance(self.truth.nodes[h].plain(), (int, str, type(None), list, dict)) for h in rs):
                return
            vals = [self.truth.nodes[h].plain() for h in atoms]
            keep = {h for h in rs if any(self.truth.nodes[h].plain() == v for v in vals)}
        res = self.result(cf, cf.isin(vals, by=by), False, i, True, check=False)
        vs = {v: x & keep for v, x in sh.vs.items()}
        fs = {}
        for f, cs in sh.fs.items():
            fs[f] = {c for c in cs if any(self.io[c].ins[k] in vs[e[0]] for e in sh.ins[f] for k in sh.names(c, "in", e[2]))
                     or any(self.io[c].outs[k] in vs[e[1]] for e in sh.outs[f] for k in sh.names(c, "out", e[2]))}
        self.same(res, vs, fs, sh.edges, "frame_op", "isin(by=%s)" % by)
        self.wf(res, loose=True)

    # ---- deletion
    def s_delete(self, i, how):
        i, cf, loose = self.reg(i)
        if not cf.calls or any(c not in self.truth.calls for c in cf.calls):
            return
        start, fn = set(cf.calls), cf.delete_calls
        if how == "df":
            sh = self.shape(cf)
            if loose or sh.cyclic() or not sh.edges or len(sh.nodes) > 20 or any(not x for x in sh.fs.values()):
                return
            if not any(x for v, x in sh.restrict(sh.reach(sh.source_elts(), True, "strong")).sink_elts().items() if v in sh.vs):
                return
            df = cf.df(values="refs")
            start = {h for f in cf.fs if f in df.columns for x in df[f] for h in self.cell(x, f, sh)}
            fn = lambda: cf.delete_calls_from_df(df)
        self.deleted = True
        if start:
            self.delete(start, fn)

    # ---- tables
    def cell(self, x, col, sh):
        """The hids in a table cell."""
        import pandas as pd
        m = self.mod
        if isinstance(x, m.Ref) or isinstance(x, m.Call):
            return {x.hid}
        if isinstance(x, m.RefCollection):
            return {r.hid for r in x.refs}
        if isinstance(x, m.CallCollection):
            return {r.hid for r in x.calls}
        if x is None or (isinstance(x, float) and x != x):
            return set()
        if isinstance(x, (set, frozenset)):
            return {r.hid for r in x}
        self.bad("table", "column %s contains %r" % (col, x))

    def s_df(self, i, mask, how, values, calls):
        i, cf, loose = self.reg(i)
        sh = self.shape(cf)
        if loose or sh.cyclic() or not sh.edges or len(sh.nodes) > 20 or any(not x for x in sh.fs.values()):
            return
        nodes = sorted(sh.nodes) if mask is None else self.some(sh.nodes, mask)
        if mask is not None and len(nodes) < 2:
            return self.single(cf, nodes[0], values)
        sub = sh.induced(sh.between(nodes))
        if not sub.edges:
            return      # no table is defined for nodes that are not connected
        init = {n: x for n, x in sub.source_elts().items() if n in nodes}
        sub = sub.restrict(sub.reach(init, True, "strong"))
        sinks = [v for v, x in sub.sink_elts().items() if v in sub.vs and x]
        if not sinks:
            return
        kw = dict(values="refs", include_calls=calls, join_how=how)
        df = cf.df(*(() if mask is None else nodes), **kw)
        cols = [n for n in nodes if n in sub.nodes and (calls or n in sub.vs)]
        rows = [{c: frozenset(self.cell(x, c, sub)) for c, x in zip(df.columns, row)} for row in df.itertuples(index=False, name=None)]
        hists = {(v, h): sub.hist(v, h) for v in sinks for h in sub.vs[v]}
        present = {n for hs in hists.values() for n, _ in hs}
        if set(df.columns) != {c for c in cols if c in present} and (how == "outer" or rows):
            self.bad("table", "the table of %s has columns %s" % (nodes, list(df.columns)))
        pos = {c: k for k, c in enumerate(df.columns)}
        for a, d, _ in sub.edges:
            if a in pos and d in pos and pos[a] > pos[d]:
                self.bad("table", "the columns %s are not in the order of the computation" % list(df.columns))
        self.probe("frame_rows", len(rows))
        full = mask is None and calls
        if full:
            self.rows(rows, hists, sinks, how)
        for n in df.columns:
            for r in rows:
                if not r[n] <= sub.set(n):
                    self.bad("table", "column %s shows elements that are not part of it" % n)
        if how == "outer":
            for (v, h), hs in hists.items():
                want = {c: frozenset(x for n, x in hs if n == c) for c in df.columns}
                if not any(all(r[c] == x for c, x in want.items() if x) for r in rows):
                    self.bad("table", "the table of %s misses the computation of %s in %s" % (nodes, h[:6], v))
        if values == "objs":
            kw["values"] = "objs"
            self.values(cf.df(*(() if mask is None else nodes), **kw), rows, [tuple(df.columns)])
        elif values == "lazy":
            lazy = [c for k, c in enumerate(sorted(df.columns)) if c in sub.vs and k % 2]
            kw.update(values="objs", lazy_vars=lazy)
            self.values(cf.df(*(() if mask is None else nodes), **kw), rows, [tuple(df.columns)], lazy)
        elif values == "eval" and calls and how == "outer":
            self.values(cf.eval(*(() if mask is None else nodes), verbose=False), rows, [tuple(df.columns)])

    def rows(self, rows, hists, sinks, how):
        """Every row shows one connected set of computations, completely."""
        for r in rows:
            got = {(c, x) for c, xs in r.items() for x in xs}
            ends = [(v, h) for v in sinks for h in r.get(v, ())]
            union = set().union(*[hists[e] for e in ends])
            if got != union:
                self.bad("table", "a row is not the history of its final values: %s" % sorted((c, x[:6]) for c, x in got ^ union))
            left = set(ends[1:])
            todo = ends[:1]
            while todo:
                e = todo.pop()
                for o in list(left):
                    if hists[e] & hists[o]:
                        left.discard(o)
                        todo.append(o)
            if left:
                self.bad("table", "a row combines computations that have nothing in common")
        keys = Counter(tuple(sorted((c, tuple(sorted(x))) for c, x in r.items())) for r in rows)
        for k, n in keys.items():
            if n > 1:
                self.bad("table", "the same row is shown %d times" % n)

    def values(self, df, rows, cols, lazy=()):
        if len(df) != len(rows) or tuple(df.columns) != cols[0]:
            self.bad("table", "the table of values and the table of references differ in shape")
        left = list(rows)
        for row in df.itertuples(index=False, name=None):
            got = dict(zip(df.columns, row))
            for k, r in enumerate(left):
                if all(self.cell(got[c], c, None) == r[c] if c in lazy else self.is_value(got[c], r[c]) for c in got):
                    left.pop(k)
                    break
            else:
                self.bad("table", "the table shows the values %s, which are not those of any computation" % str(got)[:300])

    def is_value(self, x, hids):
        m = self.mod
        if not hids:
            return x is None or (isinstance(x, float) and x != x)
        if len(hids) > 1:
            if isinstance(x, m.ValueCollection):
                return sorted(self.canon(v) for v in x.values) == sorted(self.canon(self.plain(h)) for h in hids)
            return isinstance(x, m.CallCollection) and {c.hid for c in x.calls} == set(hids)
        h = next(iter(hids))
        if isinstance(x, m.Call):
            return x.hid == h
        if h in self.io:
            return False
        return self.alike(x, self.plain(h))

    def alike(self, x, want):
        """Equal, up to pandas storing a column of numbers as floats."""
        if isinstance(x, float) and isinstance(want, int) and not isinstance(want, bool):
            return x == float(want)
        return self.canon(x) == self.canon(want)

    def plain(self, h):
        return self.truth.nodes[h].plain()

    def single(self, cf, node, values):
        if node not in cf.vs:
            return
        df = cf.eval(node, verbose=False) if values == "eval" else cf.df(node, values="refs" if values == "lazy" else values)
        if list(df.columns) != [node]:
            self.bad("table", "the table of %s has columns %s" % (node, list(df.columns)))
        if values in ("objs", "eval"):
            if any(h not in self.truth.nodes for h in cf.vs[node]):
                return
            left = [self.plain(h) for h in cf.vs[node]]
            for x in df[node]:
                k = next((k for k, want in enumerate(left) if self.alike(x, want)), None)
                if k is None:
                    self.bad("table", "the table of %s shows a value that it does not have" % node)
                left.pop(k)
            if left:
                self.bad("table", "the table of %s does not show all its values" % node)
        elif {h for x in df[node] for h in self.cell(x, node, None)} != set(cf.vs[node]):
            self.bad("table", "the table of %s does not show its references" % node)

    def s_hist(self, i, mask):
        i, cf, loose = self.reg(i)
        sh = self.shape(cf)
        vs = [v for v in sh.vs if sh.vs[v]]
        if loose or not vs or sh.cyclic():
            return
        v = self.some(vs, mask)[0]
        df = cf.get_history_df(v, include_calls=True)
        rows = [{c: frozenset(self.cell(x, c, sh)) for c, x in zip(df.columns, row)} for row in df.itertuples(index=False, name=None)]
        key = lambda r: tuple(sorted((c, tuple(sorted(x))) for c, x in r.items() if x))
        want = []
        for h in sh.vs[v]:
            r = {}
            for n, x in sh.hist(v, h):
                r.setdefault(n, set()).add(x)
            want.append(key(r))
        if sorted(key(r) for r in rows) != sorted(want):
            self.bad("table", "the history of %s is not the recorded one" % v)

    def s_table(self, i, mask):
        i, cf, loose = self.reg(i)
        fs = [f for f in cf.fs if cf.fs[f]]
        if not fs:
            return
        f = self.some(fs, mask)[0]
        refs = set(cf.refs)
        df = cf.get_func_table(f)
        got = sorted(tuple(sorted((c, tuple(self.cell(x, c, None))) for c, x in zip(df.columns, row) if self.cell(x, c, None)))
                     for row in df.itertuples(index=False, name=None))
        want = sorted(tuple(sorted((k, (h,)) for d in (self.io[c].ins, self.io[c].outs) for k, h in d.items() if h in refs))
                      for c in cf.fs[f])
        if got != want:
            self.bad("table", "the table of the calls of %s is wrong" % f)

    def s_values(self, i):
        i, cf, loose = self.reg(i)
        for v in sorted(cf.vs)[:4]:
            for r in sorted(cf.get_var_values(v), key=lambda r: r.hid)[:4]:
                if r.hid in self.truth.nodes and self.canon(self.st.unwrap(r)) != self.canon(self.plain(r.hid)):
                    self.bad("table", "reference %s in %s has another value" % (r.hid[:6], v))

    def s_repr(self, i):
        i, cf, loose = self.reg(i)
        if any(not x for x in cf.fs.values()):
            return      # documented: empty function nodes are not supported
        text = repr(cf)
        for n in cf.fs:
            if n not in text:
                self.bad("frame_op", "the description of the frame does not mention %s" % n)
        cf.get_var_stats(), cf.get_func_stats()


class Refs(dict):
    """Real references by history id: those the user's variables hold, or loaded from the store."""

    def __init__(self, truth, storage, env, own):
        super().__init__({h: None for h in truth.refs()})
        self.storage, self.env, self.own = storage, env, own

    def __getitem__(self, h):
        if self.own and h in self.env:
            return self.env[h]
        return self.storage.load_ref(h)


# -------------------------------------------------------------------- generation of frame programs
KINDS = dict(new=16, expand=22, all=6, select=4, stream=8, setop=8, drop=5, rename=4, copy=2, merge=4, cleanup=2, isin=3, df=8,
             hist=2, table=2, values=2, repr=2, delete=0)


def gen_steps(r, **bias):
    n = r.randint(3, 10)
    w = dict(KINDS, **bias)
    steps = []
    names = ["a", "b", "x", "y", "inc", "tag", "v", "var_0", "model"]
    bit = lambda: r.randrange(1, 1 << 16)
    few = lambda: r.choice([1 << r.randrange(8), bit(), bit()])
    for k in range(n):
        kind = "new" if not steps else r.choices(list(w), list(w.values()))[0]
        if kind == "new":
            y = r.random()
            if y < 0.45:
                steps.append(["op", r.randrange(64)])
            elif y < 0.75:
                steps.append(["refs", [r.randrange(1000) for _ in range(r.choice([1, 1, 2, 3, 5]))],
                              r.choice(["list", "list", "gen", "set", "one", "hids", "tuple"])])
            else:
                vs = r.sample(names, r.choice([1, 2, 2, 3]))
                steps.append(["vars", {v: [r.randrange(1000) for _ in range(r.choice([1, 1, 2, 3]))] for v in vs},
                              r.choice(["list", "set", "one"])])
            continue
        i = r.randrange(8) if r.random() < 0.4 else -1
        if kind == "expand":
            sel = None if r.random() < 0.55 else few()
            steps.append(["expand", i, r.choice(["back", "back", "forward"]), r.random() < 0.6, sel, r.random() < 0.15,
                          r.random() < 0.4, r.random() < 0.85])
        elif kind == "all":
            steps.append(["all", i, r.random() < 0.4, r.random() < 0.9])
        elif kind == "select":
            steps.append(["select", i, bit()])
        elif kind == "stream":
            steps.append(["stream", i, r.choice(["up", "down", "mid", "down"]), few(), r.choice(["strong", "strong", "weak"])])
        elif kind == "setop":
            steps.append(["setop", i, r.randrange(8), r.choice(["union", "inter", "sub", "sub"])])
        elif kind == "drop":
            steps.append(["drop", i, few(), r.random() < 0.4, r.choice([None, True, "var"])])
        elif kind == "rename":
            steps.append(["rename", i, bit(), r.choice(["fresh", "fresh", "swap", "taken", "same"]), r.random() < 0.4])
        elif kind == "copy":
            steps.append(["copy", i])
        elif kind == "merge":
            steps.append(["merge", i, r.random() < 0.4])
        elif kind == "cleanup":
            steps.append(["cleanup", i, r.random() < 0.4])
        elif kind == "isin":
            steps.append(["isin", i, r.choice(["hid", "cid", "val"]), few()])
        elif kind == "df":
            steps.append(["df", i, None if r.random() < 0.6 else few(), r.choice(["outer", "outer", "outer", "inner"]),
                          r.choice(["refs", "objs", "objs", "eval", "lazy"]), r.random() < 0.75])
        elif kind == "delete":
            steps.append(["delete", i, r.choice(["frame", "df"])])
            break
        elif kind in ("hist", "table"):
            steps.append([kind, i, few()])
        else:
            steps.append([kind, i])
    return steps
