"""
Executable reference model of the storage: a hash-consed dataflow graph plus, per simulated process, what that process
remembers, and what is on disk. It shares no code with the package. The user's op bodies are executed on plain values.

Records are identified by their history (text built from op name and the histories of the inputs), values by their
canonical text. "Maybe" facts (after a cut-off save, or work of another process in flight) are resolved by observation.
"""
import inspect, typing
from . import values as V


class ModelError(Exception):
    """The plan asks for something the model does not define (the action is skipped)."""


class Node:
    __slots__ = ("kind", "h", "c", "v", "elts", "vp")

    def __init__(self, kind, h, c, v=None, elts=None, vp=False):
        self.kind, self.h, self.c, self.v, self.elts, self.vp = kind, h, c, v, elts, vp

    def plain(self):
        if self.kind == "A":
            return V.dup(self.v)
        if self.kind == "L":
            return [e.plain() for e in self.elts]
        return {k: e.plain() for k, e in self.elts.items()}

    def relabel(self, h):
        return Node(self.kind, h, self.c, self.v, self.elts, self.vp)

    def closure(self):
        yield self
        if self.kind == "L":
            for e in self.elts:
                yield from e.closure()
        elif self.kind == "D":
            for e in self.elts.values():
                yield from e.closure()


class Rec:
    __slots__ = ("h", "ck", "op", "ins", "outs", "struct", "version")

    def __init__(self, h, ck, op, ins, outs, struct, version=None):
        self.h, self.ck, self.op, self.ins, self.outs, self.struct, self.version = h, ck, op, ins, outs, struct, version

    def refs(self):
        for n in self.ins.values():
            yield n
        for n in self.outs.values():
            yield n


import hashlib


def short(s):
    return s if len(s) < 160 else s[:40] + "~" + hashlib.sha1(s.encode()).hexdigest()[:20]


def raw(v):
    c = short("A:" + V.canon(v))
    return Node("A", short("raw(" + c + ")"), c, v=V.dup(v))


EMPTY_LIST = "A:list[]"    # an empty list reference and an empty plain list have the same content


def call_key(op, d, attr):
    return short("%s(%s)" % (op, ",".join("%s=%s" % (k, getattr(d[k], attr)) for k in sorted(d))))


class Ignored:
    def __init__(self, value):
        self.value = value


class NewDefault(Ignored):
    pass


class VP:
    def __init__(self, id, obj):
        self.id, self.obj = id, obj


class MList(typing.List[typing.TypeVar("T")]):
    pass


class MDict(typing.Dict[typing.TypeVar("K"), typing.TypeVar("W")]):
    pass


def tp_of(ann):
    o = getattr(ann, "__origin__", None)
    if o is MList:
        return ("L", tp_of(ann.__args__[0]))
    if o is MDict:
        return ("D", tp_of(ann.__args__[1]))
    return ("A",)


def new_default_equal(default, given):
    if type(default) is not type(given):
        return False
    return V.canon(default) == V.canon(given)


class MOp:
    """Reference stand-in for an @op."""

    def __init__(self, model, f, output_names=None, ignore_args=None):
        self.m, self.f, self.name = model, f, f.__name__
        self.output_names, self.ignore_args = output_names, ignore_args or ()
        self.sig = inspect.signature(f)

    def __call__(self, *a, **kw):
        s = self.m.cur
        if s.ctx is None:
            ba = self.sig.bind(*a, **kw)
            ba.apply_defaults()
            return self.f(*[self.m.strip(x) for x in ba.args], **{k: self.m.strip(x) for k, x in ba.kwargs.items()})
        return self.m.call(s, self, a, kw)


class StoreModel:
    """What one database holds, plus the batches that may or may not have reached it."""

    def __init__(self):
        self.recs = {}        # every record that ever existed, by history
        self.disk = set()     # certainly on disk
        self.maybe = []       # list of (kind, frozenset): kind 'add' or 'del'; each all-or-nothing
        self.free = set()     # records each of which may or may not be on disk (remains of calls cut off by an I/O error)
        self.soft = []        # batches of cut-off saves that were observed on disk but may not survive a power loss
        self.phantom = False  # a commit failed inside the disk layer and the process that issued it is still alive
        self.by_ck = {}
        self.inflight = {}    # multi-process: client -> batch it is saving right now

    def intern(self, r):
        old = self.recs.get(r.h)
        if old is None:
            self.recs[r.h] = r
            self.by_ck.setdefault(r.ck, []).append(r.h)
            return r
        return old

    def maybe_set(self):
        s = set(self.free)
        for k, b in self.maybe:
            s |= b
        return s

    def candidates(self):
        """All acceptable disk contents, given the unresolved batches (each fully applied or not at all, in order)."""
        cands = [frozenset(self.disk)]
        for kind, b in self.maybe:
            new = []
            for c in cands:
                new.append(c)
                new.append(frozenset(c | b) if kind == "add" else frozenset(c - b))
            cands = list(dict.fromkeys(new))
        for b in self.inflight.values():
            cands = list(dict.fromkeys(x for c in cands for x in (c, frozenset(c | b))))
        return cands

    def resolve(self, observed):
        for k, b in self.maybe:
            if k == "add" and b <= observed and not b <= self.disk:
                self.soft.append((k, b - self.disk))
            elif k == "del" and not b & observed and b & self.disk:
                self.soft.append((k, b & self.disk))
        self.disk = set(observed)
        self.maybe = []
        self.free = set()


class Live:
    """Multi-process: what was certainly on disk when the current action began, and what others were saving since."""

    def __init__(self, store, me):
        self.disk = frozenset(store.disk)
        self.seen = set()
        for c, b in store.inflight.items():
            if c != me:
                self.seen |= b


class SessionModel:
    """What one simulated process remembers about one storage."""

    def __init__(self, store):
        self.store = store
        self.mem = set()
        self.mem_maybe = set()
        self.dirty = set()
        self.stack = []
        self.loose = False
        self.live = None          # multi-process: Live view of what the current action may find on disk

    def disk(self):
        """What this process certainly finds on disk, and what it may find there."""
        st = self.store
        if self.live is None:
            return st.disk, st.maybe_set()
        return self.live.disk, st.maybe_set() | self.live.seen | (st.disk - self.live.disk)

    def forget(self, allow=True):
        self.mem.clear()
        self.mem_maybe.clear()
        self.dirty.clear()
        self.loose = False


class ProcModel:
    """Model of a simulated process: one session per storage, the active context, the execution log."""

    def __init__(self, model):
        self.m = model
        self.sessions = {}
        self.ctx_stack = []      # (storage index, mode)
        self.exec_real = []      # op bodies really entered during the current action
        self.exec_model = []
        self.op_fault = None
        self.op_count = 0
        self.env = {}

    @property
    def ctx(self):
        return self.ctx_stack[-1] if self.ctx_stack else None

    def session(self, s=None):
        return self.sessions[self.ctx[0] if s is None else s]


from .kernel import OpFail


class Model:
    def __init__(self):
        self.cur = None
        self.ns = None
        self.epoch = lambda: 0
        self.added = None       # records added by the current action

    def load_userlib(self, text):
        m = self

        def op(f=None, output_names=None, ignore_args=None, **kw):
            if callable(f):
                return MOp(m, f)
            return lambda g: MOp(m, g, output_names=output_names, ignore_args=ignore_args)

        class noop:
            def __enter__(self):
                p = m.cur
                if p.ctx is not None:
                    p.ctx_stack.append((p.ctx[0], "noop"))
                    self.pushed = True
                else:
                    self.pushed = False

            def __exit__(self, *a):
                if self.pushed:
                    m.cur.ctx_stack.pop()
                return False

        def NewArgDefault(v=None):
            return NewDefault(v)

        ns = dict(op=op, MList=MList, MDict=MDict, Any=typing.Any, Tuple=typing.Tuple, noop=noop,
                  NewArgDefault=NewArgDefault, SIM=self.sim_event, CRC=V.crc, SCRAMBLE=V.scramble, ARRAY=V.array,
                  FRAME=V.frame, BIG=V.big, IGN=V.is_ignored_mark, EPOCH=self.epoch, __name__="userlib_model")
        exec(compile(text, "userlib_model", "exec", dont_inherit=True), ns)
        self.ns = ns
        return ns

    # op bodies run by the model call this
    def sim_event(self, name):
        p = self.cur
        p.exec_model.append(name)
        f = p.op_fault
        if f is not None:
            p.op_count += 1
            if f["n"] <= p.op_count < f["n"] + f.get("count", 1):
                if f["kind"] == "interrupt":
                    raise KeyboardInterrupt("simulated Ctrl-C")
                if f["kind"] == "memory":
                    raise MemoryError("simulated allocation failure")
                raise OpFail("simulated op failure")

    def strip(self, x):
        if isinstance(x, Node):
            return x.plain()
        if isinstance(x, Ignored):
            return self.strip(x.value)
        if isinstance(x, VP):
            return V.dup(x.obj)
        if type(x) is list:
            return [self.strip(e) for e in x]
        if type(x) is dict:
            return {k: self.strip(e) for k, e in x.items()}
        return V.dup(x)

    # ------------------------------------------------------------------ knowledge
    def known(self, p, sm, ck):
        """1 known for certain, 0 certainly unknown, None undetermined. Also returns the certain records."""
        st = sm.store
        disk, dmaybe = sm.disk()
        any_maybe = False
        for h in st.by_ck.get(ck, ()):
            if h in sm.mem:
                return 1
            if h in disk and h not in dmaybe:
                return 1
            if h in sm.mem_maybe or h in dmaybe or h in disk:
                any_maybe = True
        return None if any_maybe else 0

    def hist_known(self, sm, h):
        return h in sm.mem or h in sm.disk()[0]

    def save(self, p, sm, r):
        """Model of save_call: a record enters memory unless the process already knows this very record."""
        r = sm.store.intern(r)
        if self.added is not None:
            self.added.append(r.h)
        if r.h in sm.mem:
            return
        disk, dm = sm.disk()
        if r.h in disk and r.h not in dm:
            return
        sm.mem.add(r.h)
        sm.mem_maybe.discard(r.h)
        sm.dirty.add(r.h)

    # ------------------------------------------------------------------ calls
    def construct(self, tp, val, structs):
        if isinstance(val, Node):
            return val
        if isinstance(val, VP):
            c = "VP:" + val.id
            return Node("A", "raw(" + c + ")", c, v=V.dup(val.obj), vp=True)
        if tp[0] == "A":
            return raw(val)
        if tp[0] == "L":
            ins = {"elts_%d" % i: self.construct(tp[1], e, structs) for i, e in enumerate(val)}
            op, kind, out = "__make_list__", "L", "list"
            elts = list(ins.values())
            c = "L[" + ",".join(e.c for e in elts) + "]" if elts else EMPTY_LIST
        else:
            ins = {k: self.construct(tp[1], e, structs) for k, e in val.items()}
            op, kind, out = "__make_dict__", "D", "dict"
            elts = dict(ins)
            c = "D{" + ",".join(k + ":" + elts[k].c for k in sorted(elts)) + "}"
        h = call_key(op, ins, "h")
        node = Node(kind, short(h + "." + out), short(c), elts=elts)
        structs.append(Rec(h, call_key(op, ins, "c"), op, ins, {out: node}, True))
        return node

    def destruct(self, node, tp, structs):
        """Give the elements of an output collection their own histories (recorded as getitem calls)."""
        if node.kind == "A":
            return node
        op, arg, key, out = ("__list_getitem__", "list", "i", "list_item") if node.kind == "L" else \
            ("__dict_getitem__", "dict", "key", "dict_value")
        items = list(enumerate(node.elts)) if node.kind == "L" else list(node.elts.items())
        final = Node(node.kind, node.h, node.c, elts=[] if node.kind == "L" else {})
        for k, e in items:
            ins = {arg: final, key: raw(k)}
            h = call_key(op, ins, "h")
            sub = []
            e2 = self.destruct(e.relabel(short(h + "." + out)), tp[1], sub)
            structs.append(Rec(h, call_key(op, ins, "c"), op, ins, {out: e2}, True))
            structs.extend(sub)
            if node.kind == "L":
                final.elts.append(e2)
            else:
                final.elts[k] = e2
        return final

    def bind(self, op, args, kwargs):
        sig = op.sig
        ba = sig.bind(*args, **kwargs)
        ba.apply_defaults()
        items = []   # (storage name, annotation type, value)
        for k, v in ba.arguments.items():
            p = sig.parameters[k]
            tp = tp_of(p.annotation)
            if p.kind is p.VAR_POSITIONAL:
                for i, x in enumerate(v):
                    if not isinstance(x, Ignored):
                        items.append(("%s_%d" % (k, i), tp, x))
            elif p.kind is p.VAR_KEYWORD:
                for n, x in v.items():
                    if not isinstance(x, Ignored):
                        items.append((n, tp, x))
            else:
                if k in op.ignore_args or isinstance(v, Ignored):
                    continue
                if isinstance(p.default, NewDefault):
                    if new_default_equal(p.default.value, self.strip(v)):
                        continue
                items.append((k, tp, v))
        return ba, items

    def call(self, p, op, args, kwargs):
        ba, items = self.bind(op, args, kwargs)
        mode = p.ctx[1]
        a2 = [self.strip(x) for x in ba.args]
        k2 = {k: self.strip(x) for k, x in ba.kwargs.items()}
        if mode == "noop":
            return op.f(*a2, **k2)
        sm = p.session()
        structs = []
        ins = {n: self.construct(tp, v, structs) for n, tp, v in items}
        h = call_key(op.name, ins, "h")
        ck = call_key(op.name, ins, "c")
        return self.finish(p, sm, op, ins, structs, h, ck, a2, k2)

    def finish(self, p, sm, op, ins, structs, h, ck, a2, k2):
        st = sm.store
        k = self.known(p, sm, ck)
        if k is None:
            pos = len(p.exec_model)
            k = 0 if pos < len(p.exec_real) and p.exec_real[pos] == op.name else 1
            # the observation resolves what was uncertain for this session
            if k == 0:
                for x in st.by_ck.get(ck, ()):
                    sm.mem_maybe.discard(x)
        outs = None
        if k == 1 and h in st.recs:
            rec = st.recs[h]
            outs = rec.outs
            out_structs = []
            if not self.hist_known(sm, h):
                out_structs = self.out_structs(op, outs)
        elif k == 1:
            # equal content known under another history: same values, own histories
            proto = None
            for x in st.by_ck[ck]:
                proto = st.recs[x]
                break
            outs, out_structs = self.relabel_outs(op, h, proto.outs)
            rec = Rec(h, ck, op.name, ins, outs, False)
        else:
            res = op.f(*a2, **k2)
            outs, out_structs = self.wrap_outs(op, h, res)
            rec = Rec(h, ck, op.name, ins, outs, False)
        self.save(p, sm, rec)
        for r in structs + out_structs:
            self.save(p, sm, r)
        ordered = [outs[n] for n in self.out_order(op, outs)]
        return ordered[0] if len(ordered) == 1 else tuple(ordered)

    def out_order(self, op, outs):
        if op.output_names:
            return op.output_names
        return sorted(outs, key=lambda n: int(n.split("_")[-1]))

    def out_tps(self, op, n):
        ann = op.sig.return_annotation
        if getattr(ann, "__origin__", None) is tuple:
            return [tp_of(a) for a in ann.__args__]
        return [tp_of(ann)] * n if n == 1 else [("A",)] * n

    def wrap_outs(self, op, h, res):
        rets = res if isinstance(res, tuple) else (res,)
        names = op.output_names or ["output_%d" % i for i in range(len(rets))]
        tps = self.out_tps(op, len(rets))
        outs, structs = {}, []
        for n, v, tp in zip(names, rets, tps):
            oh = short(h + "." + n)
            if isinstance(v, Node):
                outs[n] = v.relabel(oh)
                continue
            node = self.construct(tp, v, [])
            outs[n] = self.destruct(node.relabel(oh), tp, structs)
        return outs, structs

    def relabel_outs(self, op, h, protos):
        outs, structs = {}, []
        for n, node in protos.items():
            outs[n] = self.destruct(node.relabel(short(h + "." + n)), self.tp_from_node(node), structs)
        return outs, structs

    def out_structs(self, op, outs):
        structs = []
        for n, node in outs.items():
            self.destruct(node, self.tp_from_node(node), structs)
        return structs

    def tp_from_node(self, node):
        if node.kind == "A":
            return ("A",)
        es = node.elts if node.kind == "L" else list(node.elts.values())
        return (node.kind, self.tp_from_node(es[0]) if es else ("A",))

    # ------------------------------------------------------------------ graph queries over a set of records
    @staticmethod
    def dependents(recs, start):
        """Histories of records computed, directly or not, from outputs of the records in start."""
        cons = {}
        for r in recs.values():
            for n in r.ins.values():
                cons.setdefault(n.h, []).append(r.h)
        todo, seen = list(start), set(start)
        while todo:
            r = recs.get(todo.pop())
            if r is None:
                continue
            for n in r.outs.values():
                for c in cons.get(n.h, ()):
                    if c not in seen:
                        seen.add(c)
                        todo.append(c)
        return seen - set(start)

    @staticmethod
    def reachable_refs(recs, hs):
        refs = set()
        for h in hs:
            for n in recs[h].refs():
                for e in n.closure():
                    refs.add(e.h)
        return refs
