"""Per property: which programs are simulated, which faults are injected, and which oracle classes decide it."""
from .gen import profile

LIGHT = dict(n=[1, 1, 2])

# fault families, see gen.gen_faults
CRASH = dict(crash=4, aftercrash=1, sqlcrash=1, fscrash=2, opcrash=0.5)
ERRORS = dict(err=4, sqlerr=3, sqlburst=1, fserr=2, interrupt=1.5, fsint=0.7, hold=1)


def fam(*ds, **kw):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    out.update(kw)
    return {k: v for k, v in out.items() if v > 0}


PROPS = {
    "C01": dict(
        kind="single",
        prof=profile(blocks=(2, 4), calls=(2, 8), repeat=0.4,
                     outside=dict(cleanup=0.2, drop=0.3, query=0.1)),
        faults=dict(families=fam(op=3, err=1, sqlerr=1, crash=1, interrupt=0.5), n=[1, 1, 2, 3]), variants=1,
        own={"value", "identity", "mode", "error", "noexec", "unloadable"}),
    "C02": dict(
        kind="single",
        prof=profile(blocks=(2, 5), repeat=0.6, nconst=5, ops=dict(mk=3, mapl=3, nest=2, twol=2, mkd=3, tot=3, totd=2, totn=2),
                     in_block=dict(drop=0, clear=0.5, preload=0.4), outside=dict(rerun=3, drop=0, cleanup=0, clear=2, preload=2, query=0)),
        faults=dict(families=fam(CRASH, op=2, err=1, sqlerr=1), n=[1, 1, 2]), variants=1,
        own={"reexec"}),
    "C03": dict(
        kind="single",
        prof=profile(blocks=(3, 5), between=0.4, memory=0, overflow=0.5, power=0.6, kill=0.4, ops=dict(big=4),
                     in_block=dict(drop=0), outside=dict(restart=4, rerun=1, drop=0, cleanup=0, query=0)),
        faults=dict(families=fam(CRASH), n=[1, 1, 2, 3], power=0.7, phases=dict(enter=1, exit=5, all=2, open=2)), variants=2,
        own={"lost", "open", "unloadable", "value", "badhash", "prov", "partial", "reexec"}),
    "C04": dict(
        kind="single",
        prof=profile(blocks=(2, 4), between=0.35, memory=0.12, overflow=0.45, ops=dict(big=3, mk=3, mkd=3, nest=2, mapl=2),
                     in_block=dict(drop=0, commit=0.4), outside=dict(drop=0, cleanup=0)),
        faults=dict(families=fam(CRASH, ERRORS), n=[1, 2, 2, 3], power=0.4, phases=dict(exit=6, all=1, enter=0.5, open=1)), variants=3,
        own={"partial", "extra", "unloadable", "badhash", "value", "prov", "lost", "open"}),
    "C05": dict(
        kind="single",
        prof=profile(blocks=(3, 5), between=0.5, repeat=0.5, memory=0.15, overflow=0.3,
                     in_block=dict(drop=0.1, commit=0.6, clear=0.3, preload=0.3),
                     outside=dict(restart=1, clear=1.5, preload=1.5, drop=0.2, cleanup=0, query=0, unwrap=2)),
        faults=dict(families=fam(ERRORS), n=[1, 2, 3], phases=dict(exit=8, all=1, enter=0.3)), variants=3,
        own={"lost", "reexec", "commit_error", "clear", "error", "noexec", "unloadable", "value", "partial", "hang"}),
    "C06": dict(
        kind="single",
        prof=profile(blocks=(2, 5), catch=0.4, memory=0.2, nstores=2, ops=dict(outer=2, sup=2, sup2=2),
                     in_block=dict(nested=1.5, noop=1.2, drop=0), outside=dict(drop=0, cleanup=0, plain=1.5, query=0)),
        faults=dict(families=fam(op=8, interrupt=2, err=1, sqlerr=1, opcrash=0.3), n=[1, 2, 3], phases=dict(all=6, exit=2, enter=2)),
        variants=3,
        own={"mode", "reexec", "lost", "noexec", "error", "extra", "commit_error", "partial"}),
    "C07": dict(
        kind="multi",
        prof=profile(blocks=(1, 3), calls=(1, 4), nconst=3, between=0.5, repeat=0.5, memory=0, overflow=0.0, power=0, kill=0.5,
                     ops=dict(vp=0, mk=3, mkd=2, nest=2, mapl=2, big=2, ign=0, newd=0.5),
                     in_block=dict(drop=0, clear=0, commit=0.5, preload=0.3, unwrap=1.5),
                     outside=dict(drop=0, redo=0, cleanup=0, query=0, rerun=0, restart=1, clear=1, preload=1, unwrap=2, plain=0.3)),
        faults=dict(families=fam(crash=4, aftercrash=2, sqlcrash=2, opcrash=1, fscrash=1, hold=1, stall=3, err=1.5, sqlerr=1.5, op=1,
                                 interrupt=1), n=[0, 1, 1, 2, 3], power=0.25, phases=dict(exit=6, all=2, enter=1, open=1)), variants=3,
        own={"commit_error", "error", "lost", "partial", "extra", "reexec", "noexec", "value", "unloadable", "open", "hang", "identity",
             "prov", "badhash"}),
    "C08": dict(
        kind="single",
        prof=profile(blocks=(2, 4), memory=0.25, overflow=0.3, between=0.6,
                     outside=dict(drop=0.6, cleanup=0.4, preload=1.5, restart=1.5)),
        faults=dict(families=fam(hold=5, sqlburst=3, sqlerr=3, err=2, read=1, interrupt=1.5, stall=0.5, fserr=1), n=[1, 2, 3]), variants=3,
        own={"hang", "error", "commit_error", "lost", "open", "unloadable", "reexec", "noexec", "mode", "clear"}),
    "C09": dict(
        kind="single",
        prof=profile(blocks=(3, 6), between=0.7, repeat=0.5, ops=dict(inc=6, tag=4, mk=2, upd=3, updl=2),
                     in_block=dict(drop=1, commit=0.4), outside=dict(drop=5, redo=2, cleanup=0.4, rerun=1.5, query=0.2)),
        faults=dict(families=fam(CRASH, ERRORS), n=[1, 1, 2], types={"drop": 8, "with": 2, "commit": 1}), variants=2,
        own={"extra", "lost", "noexec", "reexec", "error", "commit_error", "partial", "unloadable", "value", "badhash", "identity", "prov"}),
    "C10": dict(
        kind="single",
        prof=profile(blocks=(3, 6), between=0.75, overflow=0.45, ops=dict(mk=3, mkd=3, nest=2, mapl=3, tot=3, totd=2, totn=2, big=3, sup=2),
                     in_block=dict(drop=0.5), outside=dict(drop=4, cleanup=4, rerun=1.5, unwrap=2, query=0.3)),
        faults=dict(families=fam(CRASH, ERRORS), n=[1, 1, 2], types={"cleanup": 8, "drop": 1, "with": 2}), variants=2,
        own={"unloadable", "garbage", "value", "reexec", "lost", "error", "open", "partial", "commit_error", "badhash"}),
    "C11": dict(
        kind="single",
        prof=profile(blocks=(2, 5), between=0.75, repeat=0.4, ops=dict(mk=3, mkd=3, nest=2, mapl=3, tot=3, totd=2, totn=2, twol=2, named=2, two=2),
                     outside=dict(query=6, drop=1, cleanup=0.5, audit=1)),
        faults=dict(families=fam(CRASH, op=2, err=1, sqlerr=1), n=[1, 1, 2]), variants=1,
        own={"prov", "identity", "extra"}),
    "C12": dict(
        kind="single",
        prof=profile(blocks=(3, 6), between=0.75, repeat=0.6, nconst=5,
                     in_block=dict(clear=1, preload=1, load=1, unwrap=2, attach=0.6, drop=0.2),
                     outside=dict(clear=4, preload=4, load=2, unwrap=3, attach=1, restart=1.5, rerun=1, drop=0.3, cleanup=0.2, query=0)),
        faults=dict(families=fam(ERRORS, op=1, read=1), n=[1, 2], phases=dict(exit=4, all=3)), variants=1,
        own={"value", "reexec", "noexec", "clear", "error", "commit_error", "lost", "unloadable"}),
    "C13": dict(
        kind="single",
        prof=profile(blocks=(3, 6), between=0.75, repeat=0.5, mutate=0.6,
                     ops=dict(mut=3, plain=4, arr=3, frame=2, nest=3, mk=3, mkd=3, same=3, totn=3, tot=3, totd=2),
                     in_block=dict(unwrap=3, load=2, attach=1.5, clear=0.2), outside=dict(unwrap=4, load=3, attach=2, restart=2, query=0, drop=0.2)),
        faults=dict(families=fam(op=1, err=1, crash=1), n=[1]), variants=1,
        own={"value", "badhash", "identity", "reexec"}),
    "C14": dict(
        kind="single",
        prof=profile(blocks=(2, 5), between=0.65, memory=0, overflow=1.0, ops=dict(big=8, same=3, tag=3, mk=1),
                     in_block=dict(drop=0.3), outside=dict(drop=2, cleanup=2.5, preload=2, restart=3, rerun=1, clear=2, unwrap=2)),
        faults=dict(families=fam(fscrash=5, fserr=4, fsint=2, crash=2, err=1, aftercrash=1, interrupt=1), n=[1, 2, 2], power=0.6), variants=3,
        own={"value", "unloadable", "badhash", "lost", "error", "reexec", "garbage", "open", "commit_error", "partial", "extra"}),
    "C18": dict(
        kind="single",
        prof=profile(blocks=(1, 4), calls=(3, 9), between=0.75, repeat=0.3, nconst=4, memory=0.1, overflow=0.15,
                     ops=dict(mk=3, mkd=2, nest=2, mapl=3, tot=3, totd=2, totn=2, twol=2, named=2, two=3, inc=5, tag=4, vp=0, frame=0, arr=0),
                     outside=dict(frames=14, query=0, drop=1, cleanup=0.4, restart=1.5, rerun=0.5, clear=0.5, preload=0.5, load=0.3),
                     frame_steps=dict(new=18, expand=26, all=10, df=16, hist=4, table=4, values=4)),
        faults=dict(families=fam(CRASH, op=2, err=1, sqlerr=3, read=1, interrupt=1), n=[1, 1, 2]), variants=1,
        own={"frame", "table"}),
    "C19": dict(
        kind="single",
        prof=profile(blocks=(1, 4), calls=(3, 9), between=0.75, repeat=0.3, nconst=4, memory=0.1, overflow=0.15,
                     ops=dict(mk=3, mkd=2, nest=2, mapl=3, tot=3, totd=2, totn=2, twol=2, named=2, two=3, inc=5, tag=4, vp=0, frame=0, arr=0),
                     outside=dict(frames=14, query=0, drop=0.5, cleanup=0.4, restart=1.5, rerun=1, clear=0.5, preload=0.5, load=0.3),
                     frame_steps=dict(select=8, stream=14, setop=16, drop=8, rename=6, copy=4, merge=7, cleanup=4, isin=6, df=3, delete=4)),
        faults=dict(families=fam(CRASH, ERRORS), n=[1, 1, 2], types={"frames": 8, "with": 1}), variants=1,
        own={"frame_op", "lost", "extra", "partial", "unloadable", "badhash", "noexec", "reexec"}),
    "C20": dict(
        kind="relay",
        prof=profile(blocks=(2, 5), calls=(2, 6), repeat=0.35, nconst=3, memory=0.25, overflow=0.2, between=0.3,
                     ops=dict(bag=4, fbag=2, shuf=3, shufd=3, totd=4, tot=3, mapl=2, mkd=3, kws=2, same=3, plain=2, vp=0.7, frame=1, arr=1,
                              upd=0.5, updl=0.4, ign=1, newd=1),
                     outside=dict(rerun=0.3, restart=0.5, drop=0.5, cleanup=0.4, query=1, redo=0.2)),
        faults=dict(families=fam(CRASH, op=1, err=1, sqlerr=1), n=[1, 1, 2]), variants=1,
        own={"identity", "badhash", "reexec", "noexec", "value", "extra", "lost", "prov", "partial", "unloadable"}),
    "C15": dict(
        kind="versioned",
        prof=dict(modes=["main", "pkg"], lies=0.15, commit=0.05, abort=0.3, rounds=(3, 7),
                  outside=dict(restart=0.3, drop=0.05, dropv=0.05, clear=0.05, look=0.1), how=[3, 2, 1]),
        faults=dict(families=fam(op=4, crash=1, err=1, sqlerr=1, sqlcrash=0.5, opcrash=0.5), n=[1, 1, 2],
                    phases=dict(call=4, exit=3, enter=1)), variants=1,
        own={"value", "stale", "noexec", "noask", "error", "unloadable"}),
    "C16": dict(
        kind="versioned",
        prof=dict(modes=["main", "pkg"], lies=0.4, commit=0.05, abort=0.3, rounds=(3, 7),
                  outside=dict(restart=0.5, drop=0.05, dropv=0.05, clear=0.1, look=0.1), how=[3, 2, 1]),
        faults=dict(families=fam(op=4, crash=1, err=1, sqlerr=1, sqlcrash=0.5, opcrash=0.5), n=[1, 1, 2],
                    phases=dict(call=4, exit=3, enter=1)), variants=1,
        own={"reexec", "ask", "identity", "noask", "version", "error", "mode"}),
    "C17": dict(
        kind="versioned",
        prof=dict(modes=["main", "pkg"], lies=0.2, commit=0.25, abort=1.5, inblock=0.06, rounds=(3, 7),
                  outside=dict(restart=0.5, drop=0.3, dropv=0.5, clear=0.2, look=0.2), how=[1, 2, 2]),
        faults=dict(families=fam(CRASH, ERRORS, op=1), n=[1, 1, 2, 3], power=0.5,
                    phases=dict(call=1, exit=5, enter=3, commit=2, drop=3, dropv=8, open=0.5)), variants=3,
        own={"lost", "partial", "extra", "version", "ask", "noask", "open", "commit_error", "error", "mode", "prov", "identity", "hang",
             "clear", "unloadable", "noexec", "reexec", "value", "stale"}),
}
