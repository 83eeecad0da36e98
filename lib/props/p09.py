"""P09: files already written survive a crash of the processes at any later instant."""
import copy
import numpy as np
import gen, work
from core import oracle, Discard, why
from util import steps
from props import p08

RULE = "a case counts when at least one run was broken off by an injected crash and all checkpoints completed before it were read back"
ASSUMPTIONS = ["a crash ends all processes at the same instant (MPI ends the others when one dies); what a finished write call handed to the system stays on disk",
               "a checkpoint counts as written once every process has left the call that writes it",
               "a crash inside a write call leaves any prefix of it"]
N = dict(quick=150, thorough=2400)
shrink = None


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        st = rng.choice(["fvtpf", "fvtpf", "mpfao", "mpfao", "fvtpf-wedge", "mpfao-wedge", "salinity"])
        c = work.case(rng, 0, strata=[st], maxcells=24)
        c["final"] = gen.rnd(c["dt"]["init"] * rng.uniform(2.2, 6), 5)
        body = []
        if rng.random() < 0.3:
            body += ["run %r" % gen.rnd(c["final"] * rng.uniform(0.1, 0.9), 5), "mark run"]
        body += ["run final", "mark run"]
        p = lambda: dict(nr=work.nranks(rng, c, (1, 2, 2, 3, 4)), opt=rng.choice(gen.PARTITIONS), sched=gen.sched(rng, 1))
        w = p()
        r = p() if rng.random() < 0.5 else dict(w, sched=gen.sched(rng, 1))
        crashes = []
        for _ in range(6 if tier == "quick" else 14):
            k = rng.choice(["write", "write", "write", "any", "any", "open", "close", "rename", "sync"])
            crashes.append([k, round(rng.random(), 4), round(rng.random(), 3)])
        stale = None
        if i % 3 == 1:
            stale = dict(n=[n + rng.choice([0, 0, 1]) for n in c["mesh"]["n"]], shift=rng.choice([300.0, 500.0]))
        ascii_ = rng.random() < 0.3
        opts = []
        if ascii_:
            body = ["iomode ascii"] + body
            opts = ["-output_timestep_interval 1"]
        out.append(dict(kind="crash", prm=dict(cfg=c, write=w, read=r, body=body, interval=rng.choice([1, 1, 2]), faults=[], extra=opts, stale=stale, crashes=crashes, _lists=["crashes"])))
    return out


def shrink(prm):
    return p08.shrink(prm)


def returned(r, e):
    """whether all processes have left the call that wrote checkpoint e"""
    for q in range(r.nranks):
        n, ok = 0, False
        for rk, key, v in r.rec:
            if rk != q:
                continue
            if key == "solve.end":
                n += 1
            elif n > e[2] and key in ("solve.begin", "mark", "e.soln"):
                ok = True
                break
        if not ok:
            return False
    return True


@oracle("crash")
def crash(prm, run):
    c = prm["cfg"]
    st = c["stratum"]
    nd = 2 if c["mode"] == "SALINITY" else 1
    ws = p08.write_scn(prm)
    ws.opt(*prm["extra"])
    ws.keep = ["*chk*", "*.txt"]
    old = {}
    if prm["stale"]:
        o = dict(prm, cfg=dict(c, mesh=dict(c["mesh"], n=prm["stale"]["n"]), fields=dict(c["fields"], ic=["const", c["fields"]["ic"][1] + prm["stale"]["shift"]])))
        o["write"] = dict(prm["write"], nr=1)
        a = run(p08.write_scn(o))
        if a.ok:
            old = dict(a.files)
    ws.files = old
    base = run(ws)
    if not base.ok:
        raise Discard("without a crash: " + why(base))
    exp = p08.expected(base, prm["interval"])
    pos = p08.positions(base, "n", nd)
    hit = 0
    for kind, frac, torn in prm["crashes"]:
        s = ws.copy()
        if kind == "any":
            s.fault("crash", "-", -1, max(1, int(frac * base.j["steps"])))
        else:
            n = base.j["io"][kind]
            if not n:
                continue
            s.fault("io_crash", kind, -1, int(frac * n), 0, int(torn * 1000) if kind == "write" else 0)
        r = run(s)
        if r.outcome == "done":
            continue
        if r.outcome != "crash-fault":
            return [("a run with checkpoints does not get as far as the crash (%s)" % st, why(r))]
        hit += 1
        run.info["crashes at " + kind] = run.info.get("crashes at " + kind, 0) + 1
        done = [e for e in exp if returned(r, e)]
        names = {e[3]: e for e in done}
        # files that hold a finished checkpoint, files of an earlier run, and the rest (being written)
        q, L = p08.listing(run, {k: v for k, v in r.files.items() if k.endswith(".h5")})
        if not q.ok:
            return [("files left by a crash bring the reader down (%s)" % st, why(q))]
        m = p08.contents(r, list(names.values()), L, pos, nd, st)
        if m:
            return [("after a crash " + m[0][0], "crash at %s (%s): %s" % (kind, r.msg, m[0][1]))]
        run.info["finished checkpoints read back"] = run.info.get("finished checkpoints read back", 0) + len(names)
        for f in old:
            if f in names or f not in base.files:
                continue
            if r.files.get(f) != old[f] and (f not in L or r.files.get(f) != base.files.get(f)):
                return [("a crash damages a file of an earlier run (%s)" % st, "crash at %s (%s): %s" % (kind, r.msg, f))]
        for f in r.files:
            if f.endswith("_chk.h5") and f not in names and f not in old:
                if not L[f]["opened"] or not L[f]["complete"]:
                    run.info["unfinished files left"] = run.info.get("unfinished files left", 0) + 1
        na = len([a for a in steps(r) if a["reason"] is not None])
        txt = sorted(f for f in base.files if f.endswith(".txt"))
        if txt and na:
            # output files of steps before the one being taken
            t = [a["time"] + a["dt"] for a in steps(r)[:max(0, min(len([v for v in r.get("solve.begin", q2)]) for q2 in range(r.nranks)) - 1)] if a["reason"] is not None and a["reason"] > 0]
            for f in txt:
                if any(f.startswith("%11.5e_" % x) for x in t) and r.files.get(f) != base.files[f]:
                    return [("an output file of a finished step is damaged or missing after a crash (%s)" % st, "crash at %s (%s): %s" % (kind, r.msg, f))]
        if done and hit == 1:
            m = p08.restarted(prm, run, base, done[-1], r.files, nd)
            if m:
                return [("after a crash " + m[0][0], m[0][1])]
    if not hit:
        raise Discard("no crash")
    return []
