#!/usr/bin/env python3
"""
Deterministic simulation checks for mandala.

  check.py --property C01 [--tier quick|thorough]       search; exit 0 (held) or 1 (VIOLATION property=.. replay=..)
  check.py --replay FILE                                re-execute one recorded failure exactly
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)


def scratch():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="mandala-sim-", dir=base)


def build_vfs(tmp):
    src = os.path.join(HERE, "sim", "vfs", "simvfs.c")
    out = os.path.join(tmp, "simvfs.so")
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", out, src, "-lsqlite3"], check=True)
    return out


def worker_env(vfs, hashseed, tmp):
    env = dict(os.environ)
    env.update(SIMVFS=vfs, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE, TQDM_DISABLE="1",
               MANDALA_REPO=os.environ.get("MANDALA_REPO", "/repo"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"))
    return env


def ask(vfs, hashseed, tmp, job, timeout):
    """Run one worker job to completion, returning its events."""
    os.makedirs(tmp, exist_ok=True)
    job = dict(job, root=os.path.join(tmp, "w-%s-%d" % (job["cmd"], os.getpid())))
    p = subprocess.run([PY, "-m", "sim.worker"], input=json.dumps(job), capture_output=True, text=True, timeout=timeout,
                       env=worker_env(vfs, hashseed, tmp), cwd=HERE)
    evs = [json.loads(l) for l in p.stdout.splitlines() if l.strip()]
    if not evs:
        raise RuntimeError("worker failed: " + p.stderr[-2000:])
    return evs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--seeds", type=int, default=None, help="number of seeds instead of the tier's default")
    ap.add_argument("--wall", type=float, default=None)
    ap.add_argument("--first", type=int, default=None)
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--selftest", action="store_true", help="build and prove determinism on a sample: same seeds, different processes")
    ap.add_argument("--samples", type=int, default=2)
    a = ap.parse_args()
    tmp = scratch()
    try:
        vfs = build_vfs(tmp)
        if a.selftest:
            return selftest(a, vfs, tmp)
        if a.replay:
            return replay(a.replay, vfs, tmp)
        from sim import search
        return search.run(a, vfs, tmp, PY, HERE, worker_env, ask)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def selftest(a, vfs, tmp):
    """Each sampled seed is executed in two fresh processes (in different order and company): the event logs must be identical."""
    from sim.props import PROPS
    from concurrent.futures import ThreadPoolExecutor
    props = [a.property] if a.property else sorted(PROPS)
    first = a.first or 1

    def digests(job):
        prop, hs, rev = job
        seeds = list(range(first, first + a.samples))
        evs = ask(vfs, hs, os.path.join(tmp, "%s-%d-%d" % (prop, hs, rev)), dict(cmd="digests", property=prop, tier="quick",
                  seeds=seeds[::-1] if rev else seeds), 600)
        return {(e["seed"], e["variant"]): e["digest"] for e in evs if e["ev"] == "digest"}

    jobs = [(p, hs, r) for p in props for hs in (0, 3) for r in (0, 1)]
    with ThreadPoolExecutor(8) as ex:
        res = dict(zip(jobs, ex.map(digests, jobs)))
    bad = n = 0
    for p in props:
        for hs in (0, 3):
            x, y = res[(p, hs, 0)], res[(p, hs, 1)]
            n += len(x)
            for k in x:
                if x[k] != y.get(k):
                    bad += 1
                    print("NOT DETERMINISTIC: %s seed %s variant %s hash seed %d" % (p, k[0], k[1], hs))
    print("selftest: %d runs executed twice, %d differ" % (n, bad))
    return 1 if bad else 0


def replay(path, vfs, tmp):
    rec = json.load(open(path))
    evs = ask(vfs, rec["hashseed"], tmp, dict(cmd="replay", plan=rec["plan"]), 600)
    r = evs[-1]["res"]
    print("\n".join(r.get("trace") or []))
    print("faults fired:", r.get("fired"))
    print("status: %s  class: %s\n%s" % (r["status"], r["cls"], r["msg"]))
    same = r["status"] == "violation" and r["cls"] == rec["cls"]
    print("digest %s (recorded %s): %s" % (r.get("digest"), rec.get("digest"), "identical" if r.get("digest") == rec.get("digest") else "different"))
    if same:
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
    return 1 if same else 0


if __name__ == "__main__":
    sys.exit(main())
