"""
The deciding step: seeded search over many simulated runs on 8 worker processes, confirmation of a violation by replay
in a fresh process, minimisation, the replay file, and the evidence file.
"""
import json, os, subprocess, sys, threading, time, queue

QUICK_WALL = 55.0
THOROUGH_WALL = 780.0
QUICK_SEEDS = 20_000
NW = 8

REAL = ["mandala (all modules, imported from /repo)", "SQLite (system library, real B-tree, WAL, recovery)", "joblib", "pandas",
        "CPython pickling and inspection"]
STUB = ["disk below SQLite (simvfs: events, errors, torn writes, power loss)", "files of the overflow directory (simfs)", "clock, sleep, uuid4, console input",
        "process scheduler and process life time", "the user's program (generated) and op bodies (simulator user library)"]


class Worker(threading.Thread):
    def __init__(self, i, a, vfs, tmp, PY, HERE, env, seeds, wall, out):
        super().__init__(daemon=True)
        self.i, self.out = i, out
        self.job = dict(cmd="search", property=a.property, tier=a.tier, seeds=seeds, wall=wall, root=os.path.join(tmp, "w%d" % i))
        self.p = subprocess.Popen([PY, "-m", "sim.worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=open(os.path.join(tmp, "err%d" % i), "w"), env=env(vfs, i, tmp), cwd=HERE, text=True)
        self.errfile = os.path.join(tmp, "err%d" % i)
        self.ended = False

    def run(self):
        try:
            self.p.stdin.write(json.dumps(self.job))
            self.p.stdin.close()
            for line in self.p.stdout:
                try:
                    ev = json.loads(line)
                except ValueError:
                    continue
                if ev["ev"] in ("done", "cap"):
                    self.ended = True
                self.out.put((self.i, ev))
        except (OSError, ValueError):
            pass
        self.p.wait()
        self.out.put((self.i, None))

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass


def _merge(d, e):
    for k, v in (e or {}).items():
        if isinstance(v, (int, float)):
            d[k] = d.get(k, 0) + v


def run(a, vfs, tmp, PY, HERE, worker_env, ask):
    from .props import PROPS
    from . import findings
    prop = a.property
    spec = PROPS[prop]
    t0 = time.time()
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier
    wall = a.wall or (QUICK_WALL if tier == "quick" else THOROUGH_WALL)
    nseeds = a.seeds or (QUICK_SEEDS if tier == "quick" else 10_000_000)
    first = a.first if a.first is not None else vseed * 100_000_000 + (0 if tier == "quick" else 50_000_000)
    known_lines = []
    for line in findings.probe(prop, vfs, tmp, ask):
        print(line, flush=True)
        known_lines.append(line)
    q = queue.Queue()
    ws = []
    for i in range(NW):
        last = min(first + nseeds, first + 400_000)
        ws.append(Worker(i, a, vfs, tmp, PY, HERE, worker_env, [first + i, last, NW], wall, q))
    for w in ws:
        w.start()
    live = NW
    agg = dict(runs=0, seeds=0, sim=0.0, events=0, fault_runs=0)
    fired, stats, checks, kinds = {}, {}, {}, {}
    states, digests, sigs = set(), set(), set()
    nontrivial = 0
    other = {}
    harness, found, dead, samples = [], None, [], []
    unconfirmed = 0
    maxwait = 0.0
    hard = t0 + wall + 120
    while live:
        try:
            i, ev = q.get(timeout=max(1.0, hard - time.time()))
        except queue.Empty:
            break
        if ev is None:
            live -= 1
            if not ws[i].ended and found is None:
                dead.append((i, open(ws[i].errfile).read()[-1500:]))
            continue
        if ev["ev"] != "run":
            continue
        r = ev["res"]
        agg["runs"] += 1
        agg["sim"] += r.get("now") or 0.0
        agg["events"] += r.get("events") or 0
        maxwait = max(maxwait, r.get("maxwait") or 0.0)
        if ev["variant"] == -1:
            agg["seeds"] += 1
        if r.get("fired"):
            agg["fault_runs"] += 1
        for f in r.get("fired") or []:
            k = "%s/%s%s" % (f[1], f[0], "@" + f[2] if f[1] in ("vfs", "fs") else "")
            fired[k] = fired.get(k, 0) + 1
        _merge(stats, r.get("stats"))
        _merge(checks, r.get("checks"))
        _merge(kinds, r.get("kinds"))
        states.update(r.get("states") or [])
        if r.get("digest") not in digests:
            digests.add(r.get("digest"))
            if sum((r.get("checks") or {}).values()) >= 5:
                nontrivial += 1
        if len(samples) < 3 and r.get("sample"):
            samples.append(r["sample"])
        if r["status"] == "harness":
            harness.append((ev["seed"], ev["variant"], r["msg"], (r.get("tb") or "")[-1200:]))
        elif r["status"] == "violation":
            if r["cls"] in spec["own"] and found is None:
                # confirm in a fresh process
                found = dict(seed=ev["seed"], variant=ev["variant"], plan=ev["plan"], hashseed=i, res=r)
                try:
                    ok = confirm(found, vfs, tmp, ask)
                except Exception as e:      # noqa
                    ok = False
                if ok:
                    break
                unconfirmed += 1
                other["unconfirmed:" + r["cls"]] = other.get("unconfirmed:" + r["cls"], 0) + 1
                found = None
            else:
                other[r["cls"]] = other.get(r["cls"], 0) + 1
                if a.keep_going or os.environ.get("SIM_SHOW_OTHER"):
                    print("other:", ev["seed"], ev["variant"], r["cls"], r["msg"][:300])
    for w in ws:
        w.kill()
    rc = 0
    replay_path = None
    search_s = time.time() - t0
    if found is not None:
        replay_path, text = write_replay(prop, found, vfs, tmp, HERE, ask, tier)
        print(text)
        print("VIOLATION property=%s replay=%s" % (prop, replay_path), flush=True)
        rc = 1
    for s, v, m, tb in harness[:5]:
        print("harness problem: seed %s variant %s: %s" % (s, v, m), file=sys.stderr)
        if os.environ.get("SIM_SHOW_OTHER"):
            print(tb, file=sys.stderr)
    for i, e in dead[:2]:
        print("worker %d ended early: %s" % (i, e[-600:]), file=sys.stderr)
    hours = max(search_s, 1e-6) / 3600.0
    ev = dict(
        property=prop, tier=tier, seed=vseed, level="exploration",
        coverage=dict(
            evaluations=agg["runs"], distinct_nontrivial=nontrivial,
            rule="one evaluation is one simulated run of a generated program (fault-free, then variants with injected faults placed at event "
                 "counts measured in the fault-free run); distinct: the digest of the run's full event log is new; non-trivial: at least 5 oracle checks made in it",
            samples=samples or ["no run finished"],
            seeds=agg["seeds"], runs_with_faults_fired=agg["fault_runs"], runs_per_hour=round(agg["runs"] / hours),
            seeds_per_hour=round(agg["seeds"] / hours), simulated_seconds=round(agg["sim"], 1), simulator_events=agg["events"],
            longest_simulated_wait_s=round(maxwait, 1), faults_fired=dict(sorted(fired.items())), oracle_checks=dict(sorted(checks.items())),
            seam_events=dict(sorted(kinds.items())), probes={k: v for k, v in sorted(stats.items()) if not k.startswith("fault:")},
            distinct_event_logs=len(digests), distinct_store_states=len(states),
            state_measure="set of recorded calls found in the store by an audit (history ids of the reference model)",
            violations_of_other_properties=other, harness_problems=len(harness), workers_lost=len(dead), first_seed=first,
            real_components=REAL, stubbed_components=STUB, known_findings=known_lines),
        assumptions=spec.get("assumptions", ASSUME),
        wall_s=round(time.time() - t0, 1), violations=1 if rc else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs (%d seeds), %d with faults, %d distinct event logs, %d store states, %.0f s; harness problems %d, unconfirmed %d, other %s"
          % (prop, agg["runs"], agg["seeds"], agg["fault_runs"], len(digests), len(states), time.time() - t0, len(harness), unconfirmed, other))
    if rc == 0 and (agg["runs"] == 0 or len(harness) > 0.2 * max(agg["runs"], 1)):
        return 2
    return rc


ASSUME = ["SQLite, joblib, pandas and CPython behave as documented", "op bodies are deterministic functions of their arguments",
          "disk: writes are not reordered across a successful sync of the same file; directory changes are undone as a suffix at power loss"]


def confirm(found, vfs, tmp, ask):
    evs = ask(vfs, found["hashseed"], tmp, dict(cmd="replay", plan=found["plan"]), 300)
    r = evs[-1]["res"]
    return r["status"] == "violation" and r["cls"] == found["res"]["cls"]


def write_replay(prop, found, vfs, tmp, HERE, ask, tier):
    plan, cls = found["plan"], found["res"]["cls"]
    best, tries = plan, 0
    try:
        evs = ask(vfs, found["hashseed"], tmp, dict(cmd="minimise", plan=plan, cls=cls, wall=45 if tier == "quick" else 120), 400)
        m = [e for e in evs if e["ev"] == "min"]
        if m:
            best, tries = m[-1]["plan"], m[-1]["tries"]
    except Exception as e:  # keep the unminimised plan
        print("minimisation failed: %r" % e, file=sys.stderr)
    r = None
    for p in (best, plan):
        try:
            r = ask(vfs, found["hashseed"], tmp, dict(cmd="replay", plan=p), 300)[-1]["res"]
        except Exception as e:
            continue
        if r["status"] == "violation" and r["cls"] == cls:
            best = p
            break
    rec = dict(property=prop, cls=cls, hashseed=found["hashseed"], seed=found["seed"], variant=found["variant"], message=(r or found["res"])["msg"],
               digest=(r or {}).get("digest"), trace=(r or {}).get("trace"), fired=(r or {}).get("fired"), minimisation_runs=tries, plan=best)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%s-%s.json" % (prop, found["seed"], found["variant"]))
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, default=str)
    text = "\n".join(["-- minimised failing run (seed %s, %d minimisation runs):" % (found["seed"], tries)] + list(rec["trace"] or [])[-60:] +
                     ["faults: %s" % (rec["fired"],), "violated (%s): %s" % (cls, rec["message"])])
    return path, text
