"""Delta debugging of a failing plan: faults, actions (recursively), preemptions. The oracle class must stay the same."""
import copy, time
from .kernel import _real


def _paths(actions, pre=()):
    """Paths of all actions, outermost first."""
    for i, a in enumerate(actions):
        yield pre + (i,)
        if a["t"] == "with":
            yield from _paths(a["body"], pre + (i,))


def _remove(actions, drop, pre=()):
    out = []
    for i, a in enumerate(actions):
        p = pre + (i,)
        if p in drop:
            continue
        if a["t"] == "with":
            a = dict(a, body=_remove(a["body"], drop, p))
        out.append(a)
    return out


def minimise(plan, cls, run, wall):
    t_end = _real["monotonic"]() + wall
    best, best_res, tries = plan, None, 0

    def test(p):
        nonlocal tries, best, best_res
        if _real["monotonic"]() > t_end:
            return False
        tries += 1
        r = run(p)
        if r["status"] == "violation" and r["cls"] == cls:
            best, best_res = p, r
            return True
        return False

    if not test(plan):
        return plan, run(plan), tries
    lists = [k for k in ("actions",) if k in plan] + (["clients"] if "clients" in plan else [])
    progress = True
    while progress and _real["monotonic"]() < t_end:
        progress = False
        # fewer faults
        for i in range(len(best.get("faults", [])) - 1, -1, -1):
            f = best["faults"]
            if i < len(f) and test(dict(best, faults=f[:i] + f[i + 1:])):
                progress = True
        # fewer preemptions
        if best.get("schedule"):
            keys = sorted(best["schedule"], key=int)
            n = 2
            while keys and _real["monotonic"]() < t_end:
                size = max(1, len(keys) // n)
                hit = False
                for i in range(0, len(keys), size):
                    rest = keys[:i] + keys[i + size:]
                    if test(dict(best, schedule={k: best["schedule"][k] for k in rest})):
                        keys, hit, progress = rest, True, True
                        break
                if not hit:
                    if size == 1:
                        break
                    n *= 2
        # fewer actions, largest chunks first
        for where in _groups(best):
            get, put = where
            paths = list(_paths(get(best)))
            n = 2
            while len(paths) and _real["monotonic"]() < t_end:
                size = max(1, len(paths) // n)
                hit = False
                for i in range(0, len(paths), size):
                    drop = set(paths[i:i + size])
                    cand = put(best, _remove(get(best), drop))
                    if test(cand):
                        paths = list(_paths(get(best)))
                        hit = progress = True
                        break
                if not hit:
                    if size == 1:
                        break
                    n *= 2
        # simpler actions
        for where in _groups(best):
            get, put = where
            for p in list(_paths(get(best))):
                for simpler in _simplify(get(best), p):
                    if test(put(best, simpler)):
                        progress = True
                        break
    return best, best_res if best_res is not None else run(best), tries


def _groups(plan):
    out = []
    if "actions" in plan:
        out.append((lambda p: p["actions"], lambda p, a: dict(p, actions=a)))
    for i in range(len(plan.get("clients", []))):
        def get(p, i=i):
            return p["clients"][i]["actions"]

        def put(p, a, i=i):
            cs = list(p["clients"])
            cs[i] = dict(cs[i], actions=a)
            return dict(p, clients=cs)
        out.append((get, put))
    return out


def _simplify(actions, path):
    """Variants of one action with fewer arguments or plainer options."""
    def edit(acts, p, fn):
        acts = list(acts)
        if len(p) == 1:
            acts[p[0]] = fn(acts[p[0]])
        else:
            acts[p[0]] = dict(acts[p[0]], body=edit(acts[p[0]]["body"], p[1:], fn))
        return acts

    a = actions
    for i in path[:-1]:
        if i >= len(a):
            return
        a = a[i].get("body", [])
    if path[-1] >= len(a):
        return
    act = a[path[-1]]
    for i, x in enumerate(act.get("args", [])):
        if x[0] == "L" and x[1]:
            for j in range(len(x[1])):
                y = ["L", x[1][:j] + x[1][j + 1:]]
                yield edit(actions, path, lambda c: dict(c, args=c["args"][:i] + [y] + c["args"][i + 1:]))
        if x[0] in ("c", "k", "e", "v") and x != ["c", 0]:
            yield edit(actions, path, lambda c: dict(c, args=c["args"][:i] + [["c", 0]] + c["args"][i + 1:]))
    for k in list(act.get("kwargs", {})):
        yield edit(actions, path, lambda c: dict(c, kwargs={q: v for q, v in c["kwargs"].items() if q != k}))
    steps = act.get("steps", [])
    for i in range(len(steps) - 1, -1, -1):
        yield edit(actions, path, lambda c: dict(c, steps=steps[:i] + steps[i + 1:]))
    if act.get("var") and act["t"] == "call":
        yield edit(actions, path, lambda c: {q: v for q, v in c.items() if q != "var"})
