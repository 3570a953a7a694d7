"""
One search worker: a real process with a pinned hash seed that executes simulated runs one after another.
Job (JSON on stdin) -> one JSON line per event on stdout.
"""
import faulthandler, gc, hashlib, json, os, random, signal, sys, time, traceback

faulthandler.enable()


class WallTimeout(BaseException):
    pass


def setup():
    sys.dont_write_bytecode = True
    import logging
    logging.disable(50)
    import warnings
    warnings.simplefilter("ignore")
    from . import kernel as K
    K.load_vfs(os.environ["SIMVFS"])
    repo = K.REPO
    if repo not in sys.path:
        sys.path.insert(0, repo)
    import numpy as np
    np.arange(3).sum()      # (numpy imports this lazily)
    K.install()
    K.fresh_mandala()
    gc.collect()
    gc.disable()
    gc.freeze()
    # the package's console output is not interesting
    sys.stdout.flush()
    return K


def run_plan(plan, root, wall=120):
    from . import kernel as K
    kind = plan.get("kind", "single")
    if kind == "single":
        from .engine import Run
    elif kind == "multi":
        from .multi import MultiRun as Run
    elif kind == "versioned":
        from .versions import VRun as Run
    elif kind == "relay":
        from .relay import RelayRun as Run
    elif kind == "segment":
        from .relay import SegRun as Run
    else:
        raise SystemExit("unknown plan kind " + kind)
    from .engine import Violation
    res = dict(status="ok", cls=None, msg=None)

    def on_alarm(*a):
        raise WallTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(wall)
    t0 = K._real["time"]()
    run = None
    try:
        run = Run(plan, root)
        run.execute()
    except Violation as v:
        res.update(status="violation", cls=v.cls, msg=v.msg)
    except WallTimeout:
        res.update(status="violation", cls="hang", msg="the run did not finish within %d s of real time" % wall)
    except KeyboardInterrupt as e:
        res.update(status="violation", cls="mode", msg="a simulated interrupt escaped: " + repr(e))
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if f.filename.startswith(os.path.join(K.REPO, "mandala"))]
        text = "".join(traceback.format_exception(e))[-3000:]
        if inside and not isinstance(e, K.HarnessError):
            res.update(status="violation", cls="error", msg="%s: %s at %s:%d" % (
                type(e).__name__, str(e)[:300], os.path.relpath(inside[-1].filename, K.REPO), inside[-1].lineno), tb=text)
        else:
            res.update(status="harness", cls="harness", msg="%s: %s" % (type(e).__name__, str(e)[:300]), tb=text)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if run is not None:
            w = run.w
            res.update(stats=dict(w.stats), now=w.now, events=w.nevents, digest=w.digest.hexdigest()[:16], fired=list(w.fired),
                       checks=dict(run.checks), states=sorted(run.states), trace=list(run.trace),
                       counts=[[k[0], k[1], v] for k, v in run.counts.items()], kinds=dict(w.kinds), maxwait=run.max_wait,
                       extra=getattr(run, "extra", {}))
            try:
                run.close()
            except BaseException as e:
                res.setdefault("close_error", repr(e))
        gc.collect()
    res["wall"] = K._real["time"]() - t0
    return res


def base_plan(prop, seed, tier):
    from .props import PROPS
    from . import gen as G
    spec = PROPS[prop]
    rng = random.Random("%s/%d" % (prop, seed))
    prof = spec["prof"]
    if tier == "thorough" and rng.random() < 0.3 and "rounds" in prof:
        prof = dict(prof, rounds=(prof["rounds"][0] + 3, prof["rounds"][1] + 8))
    elif tier == "thorough" and rng.random() < 0.3 and "blocks" in prof:       # a share of longer programs
        prof = dict(prof, blocks=(prof["blocks"][0] + 2, prof["blocks"][1] + 5), calls=(prof["calls"][0], prof["calls"][1] + 4))
    if spec["kind"] == "multi":
        plan = G.multi_plan("%s/%d/plan" % (prop, seed), prof)
    elif spec["kind"] == "relay":
        from .relay import relay_plan
        plan = relay_plan("%s/%d/plan" % (prop, seed), prof, seed)
    elif spec["kind"] == "versioned":
        from .versions import VGen
        plan = VGen("%s/%d/plan" % (prop, seed), prof).plan()
    else:
        plan = G.Gen("%s/%d/plan" % (prop, seed), prof).plan()
    plan["seed"] = int.from_bytes(hashlib.sha1(("%s/%d" % (prop, seed)).encode()).digest()[:6], "big")
    plan["kind"] = spec["kind"]
    plan["property"] = prop
    plan["base"] = "%s/%d" % (prop, seed)
    return plan


def variants(prop, seed, plan, counts, tier):
    from .props import PROPS
    from . import gen as G
    spec = PROPS[prop]
    n = spec.get("variants", 1)
    for v in range(n):
        rng = random.Random("%s/%d/faults/%d" % (prop, seed, v))
        faults = G.gen_faults(rng, plan, counts, spec["faults"])
        if spec["kind"] == "multi":
            yield dict(plan, faults=faults, sseed=rng.randrange(1 << 30), preempt=rng.choice([0.01, 0.05, 0.15, 0.4, 0.7]),
                       base=plan["base"] + "/" + str(v))
        elif faults:
            yield dict(plan, faults=faults, base=plan["base"] + "/" + str(v))


def owned(prop, res):
    from .props import PROPS
    return res["status"] == "violation" and res["cls"] in PROPS[prop]["own"]


def fixed_schedule(plan, res):
    """The plan of a failing run, with the schedule that was drawn written down."""
    if plan.get("kind") == "multi" and "schedule" not in plan:
        return dict(plan, schedule=(res.get("extra") or {}).get("schedule", {}))
    return plan


def emit(**kw):
    OUT.write(json.dumps(kw) + "\n")
    OUT.flush()


OUT = None


def sample(plan, res):
    t = res.get("trace") or []
    return dict(base=plan.get("base"), faults=plan.get("faults"), fired=res.get("fired"), program=t[:40])


def slim(res):
    d = {k: res.get(k) for k in ("status", "cls", "msg", "tb", "now", "events", "digest", "fired", "wall", "stats", "checks", "states",
                                 "kinds", "maxwait", "extra", "close_error")}
    if res["status"] != "ok":
        d["trace"] = res.get("trace")
    return d


def main():
    global OUT
    OUT = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    K = setup()
    if sys.argv[1:] == ["helper"]:
        for line in sys.stdin:
            job = json.loads(line)
            OUT.write(json.dumps(run_plan(job["plan"], job["root"], wall=100)) + "\n")
            OUT.flush()
        return
    job = json.loads(sys.stdin.read())
    root = job["root"]
    if job["cmd"] == "search":
        prop, tier = job["property"], job["tier"]
        t_end = time.monotonic() + job["wall"]
        for seed in range(*job["seeds"]):
            if K._real["monotonic"]() > t_end:
                emit(ev="cap")
                break
            plan = base_plan(prop, seed, tier)
            res = run_plan(plan, root)
            emit(ev="run", seed=seed, variant=-1, plan=fixed_schedule(plan, res) if res["status"] != "ok" else None, res=slim(res))
            early = seed < job["seeds"][0] + 2 * job["seeds"][2]
            if res["status"] != "ok":
                continue
            counts = {(a, b): c for a, b, c in res["counts"]}
            for i, vp in enumerate(variants(prop, seed, plan, counts, tier)):
                r2 = run_plan(vp, root)
                d = slim(r2)
                if early and r2["fired"]:
                    d["sample"] = sample(vp, r2)
                emit(ev="run", seed=seed, variant=i, plan=fixed_schedule(vp, r2) if r2["status"] != "ok" else None, res=d, nf=len(vp["faults"]))
                if K._real["monotonic"]() > t_end:
                    break
        emit(ev="done")
    elif job["cmd"] == "replay":
        res = run_plan(job["plan"], root, wall=job.get("wall", 120))
        emit(ev="replay", res=res)
    elif job["cmd"] == "digests":
        for seed in job["seeds"]:
            plan = base_plan(job["property"], seed, job["tier"])
            res = run_plan(plan, root)
            emit(ev="digest", seed=seed, variant=-1, digest=[res["status"], res.get("digest")])
            if res["status"] != "ok":
                continue
            counts = {(a, b): c for a, b, c in res["counts"]}
            for i, vp in enumerate(variants(job["property"], seed, plan, counts, job["tier"])):
                r2 = run_plan(vp, root)
                emit(ev="digest", seed=seed, variant=i, digest=[r2["status"], r2.get("digest")])
    elif job["cmd"] == "findings":
        from . import scenarios
        emit(ev="findings", res={i: scenarios.run(i, root, K) for i in job["ids"]})
    elif job["cmd"] == "minimise":
        from .minimise import minimise
        plan, res, tries = minimise(job["plan"], job["cls"], lambda p: run_plan(p, root), job["wall"])
        emit(ev="min", plan=plan, res=slim(res), tries=tries, trace=res.get("trace"))


if __name__ == "__main__":
    main()
