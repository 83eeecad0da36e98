"""P08: checkpoints hold the accepted states, and a run started from one continues identically."""
import math
import numpy as np
import gen, work
from core import oracle, Discard, why
from simlib import Scenario
from util import steps, same, fields_close

RULE = "a case counts when a run wrote at least one checkpoint and its files, and a run restarted from one of them, were compared with the accepted states"
ASSUMPTIONS = ["checkpoints are written by the stepping of TDycore itself (SNES); a run left to PETSc's TS writes none",
               "a restarted run takes the same step sizes as the uninterrupted one (a checkpoint does not hold the step size)",
               "with another number of processes states are compared within the tolerance of the nonlinear solver, otherwise bit by bit"]
N = dict(quick=260, thorough=4000)
ST = 2e-7


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        st = rng.choice(["fvtpf", "fvtpf", "mpfao", "mpfao", "fvtpf-wedge", "mpfao-wedge", "salinity"])
        c = work.case(rng, 0, strata=[st], maxcells=24)
        d = c["dt"]
        c["final"] = gen.rnd(d["init"] * rng.uniform(2.2, 9), 5)
        faults, q = [], 0
        if c["disc"] == "FV_TPF" and rng.random() < 0.4:
            for _ in range(rng.randrange(1, 4)):
                q += rng.choice([0, 1, 2])
                faults.append(["snes", "any", -1, q, rng.choice([0, 1, 2]), rng.choice([1, 2])])
                q += 1
        body = []
        if rng.random() < 0.4:
            for f in sorted(rng.uniform(0.1, 0.9) for _ in range(rng.choice([1, 1, 2]))):
                body += ["run %r" % gen.rnd(c["final"] * f, 5), "mark run"]
        body += ["run final", "mark run"]
        if i % 13 == 12:      # a last step so short that its time has the same five digits
            c["final"] = 100.0
            c["dt"] = dict(init=10.0, growth=1.0, red=0.5, max=10.0)
            faults = []
            body = ["run 100.0", "mark run", "settimestep 2e-05", "run 100.00002", "mark run"]
        p = lambda: dict(nr=work.nranks(rng, c, (1, 1, 2, 3, 4)), opt=rng.choice(gen.PARTITIONS), sched=gen.sched(rng, 1))
        w = p()
        r = p() if rng.random() < 0.7 else dict(w, sched=gen.sched(rng, 1))
        stale = None
        if i % 6 == 1:        # files of an earlier run on another mesh, or from another state, lie in the same directory
            stale = dict(n=[max(2, n + rng.choice([-1, 0, 1, 2])) for n in c["mesh"]["n"]], shift=rng.choice([0.0, 500.0]))
        out.append(dict(kind="restart", prm=dict(stale=stale, cfg=c, write=w, read=r, body=body, interval=rng.choice([1, 1, 2, 3, 5]), faults=faults, pick=rng.random(), _lists=[])))
    return out


def valid(prm, p):
    return work.cells(prm["cfg"]) >= 2 * p["nr"]


def shrink(prm):
    import copy
    from core import default_shrink
    out = [d for d in default_shrink(prm) if valid(d, d["write"]) and valid(d, d["read"])]
    for k in ("write", "read"):
        for u in (dict(nr=1), dict(opt=[]), dict(sched=dict(seed=1))):
            d = copy.deepcopy(prm)
            d[k].update(u)
            if d != prm:
                out.append(d)
    if prm["stale"]:
        out.append(dict(copy.deepcopy(prm), stale=None))
    if prm["interval"] > 1:
        out.append(dict(copy.deepcopy(prm), interval=1))
    return out


def write_scn(prm, faults=None):
    w = prm["write"]
    s = work.build(prm["cfg"], w["nr"], ["steplog 2", "natural n", "observe a"] + prm["body"] + ["observe e"], w["sched"],
                   faults=[tuple(f) for f in (prm["faults"] if faults is None else faults)],
                   extra=w["opt"] + ["-enable_checkpoint", "-checkpoint_timestep_interval %d" % prm["interval"]])
    s.keep = ["*chk*"]
    return s


def expected(r, interval):
    """[(step, time, index of the attempt, file name)]: what has to be written, in order"""
    out, att, seq = [], steps(r), []
    k = 0
    for q, key, v in r.rec:
        if q:
            continue
        if key == "solve.end":
            a = att[k]
            if a["reason"] > 0:
                seq.append(("step", a["time"] + a["dt"], k))
            k += 1
        elif key == "mark":
            seq.append(("end", None, None))
    n, last = 0, None
    for s in seq:
        if s[0] == "step":
            n += 1
            last = (n, s[1], s[2])
            if n % interval == 0:
                out.append(last)
                last = None
        elif last:
            out.append(last)
            last = None
    return [(n, t, k, "%11.5e_chk.h5" % t) for n, t, k in out]


def listing(run, files, sched=None):
    t = Scenario(1, 1)
    t.op("init")
    t.files = dict(files)
    for i, f in enumerate(sorted(files)):
        t.op("h5list f%d %s" % (i, f))
    t.op("finalize")
    q = run(t)
    out = {}
    for i, f in enumerate(sorted(files)):
        o = q.get("f%d.opened" % i)
        d = dict(opened=bool(len(o) and o[0][0]), complete=bool(len(o) and o[0][1]), data={}, attr={}, unreadable=[], dims={})
        for _, k, v in q.rec:
            if k.startswith("f%d.data:" % i):
                d["data"][k.split(":", 1)[1]] = v
            elif k.startswith("f%d.dims:" % i):
                d["dims"][k.split(":", 1)[1]] = list(v)
            elif k.startswith("f%d.attr:" % i):
                d["attr"][k.rsplit(":", 1)[1]] = v
            elif k.startswith("f%d.unreadable:" % i):
                d["unreadable"].append(k.split(":", 1)[1])
        out[f] = d
    return q, out


def positions(r, tag, ndof):
    p = [r.natural("%s.nat%d" % (tag, d)) for d in range(4)]
    return np.stack(p, axis=1)[::ndof]


def by_position(p, v, ndof):
    from simlib import order
    i = order(p)
    return p[i], v.reshape(-1, ndof)[i]


def contents(r, exp, L, pos, nd, st):
    """every listed checkpoint holds the accepted state of its step"""
    last = {}
    for e in exp:
        last[e[3]] = e
    for e in last.values():
        f = L.get(e[3])
        if f is None:
            return [("a checkpoint is missing (%s)" % st, e[3])]
        if not f["opened"] or not f["complete"] or f["unreadable"]:
            return [("a checkpoint cannot be read (%s)" % st, "%s: %s" % (e[3], f))]
        v = f["data"].get("fields/IC", f["data"].get("IC"))
        if v is None:
            return [("a checkpoint has no data set IC (%s)" % st, "%s: %s" % (e[3], sorted(f["data"])))]
        if list(f["attr"].get("time step", [])) != [e[0]]:
            return [("a checkpoint holds the wrong step number (%s)" % st, "%s: %s, step %d" % (e[3], f["attr"], e[0]))]
        if len(v) != nd * len(pos):
            return [("a checkpoint does not hold the accepted state (%s)" % st, "%s: %d values for %d cells" % (e[3], len(v), len(pos)))]
        pc, x = r.field("solve.x", e[2])
        pf, y = by_position(pos, v, nd)
        if not np.allclose(pc[:, :3], pf[:, :3], atol=1e-6):
            return [("the order of cells depends on the partition (%s)" % st, "%s" % e[3])]
        if not same(x, y):
            k = int(np.argmax(np.abs(x - y).max(axis=1)))
            return [("a checkpoint does not hold the accepted state (%s)" % st, "%s (step %d): the cell at (%g, %g, %g) has %s in the file and %s in the run" % (e[3], e[0], *pc[k, :3], y[k], x[k]))]
    return []


def restarted(prm, run, r, e, files, nd):
    """a run started from checkpoint e continues like run r"""
    c = prm["cfg"]
    st = c["stratum"]
    att = steps(r)
    rest = [(k, a) for k, a in enumerate(att) if k > e[2] and a["reason"] > 0]
    R = prm["read"]
    c2 = dict(c, fields=dict(c["fields"]))
    for k in ("ic", "ic1"):
        c2["fields"].pop(k, None)
    s = work.build(c2, R["nr"], ["steplog 2", "observe a"] + ["stepexact %r" % float(a["dt"]) for _, a in rest] + ["observe e"], R["sched"], extra=R["opt"] + ["-ic_file " + e[3], "-ic_dataset fields/IC"])
    s.files = {e[3]: files[e[3]]}
    b = run(s)
    if not b.ok:
        if work.solver_failure(b) or any("failed to converge" in x for _, x in b.errors()):
            if R["nr"] == prm["write"]["nr"] and R["opt"] == prm["write"]["opt"]:
                return [("a restarted run does not take the steps of the uninterrupted one (%s)" % st, why(b))]
            raise Discard("solver gave up")
        return [("a run cannot be started from a checkpoint (%s)" % st, "%d processes: %s" % (R["nr"], why(b)))]
    for key in ("a.soln", "a.prev"):
        (pa, x), (_, y) = r.field("solve.x", e[2]), b.field(key)
        if not same(x, y):
            return [("a run started from a checkpoint does not start from its state (%s)" % st, "%d -> %d processes: %s differs by %g" % (prm["write"]["nr"], R["nr"], key, np.max(np.abs(x - y))))]
    for n, (k, a) in enumerate(rest):
        (pa, x), (_, y) = r.field("solve.x", k), b.field("solve.x", n)
        if R["nr"] == prm["write"]["nr"] and R["opt"] == prm["write"]["opt"]:
            ok = same(x, y)
        else:
            ok = all(np.all(np.abs(x[:, d] - y[:, d]) <= ST * np.max(np.abs(x[:, d])) + (1e-9 if d else 0)) for d in range(nd))
        if not ok:
            return [("a restarted run does not continue like the uninterrupted one (%s)" % st, "%d -> %d processes, %d steps after the checkpoint (dt %g): differs by %g" % (prm["write"]["nr"], R["nr"], n + 1, a["dt"], np.max(np.abs(x - y))))]
    run.info["restarts"] = run.info.get("restarts", 0) + 1
    run.info["steps after a restart"] = run.info.get("steps after a restart", 0) + len(rest)
    return []


@oracle("restart")
def restart(prm, run):
    c = prm["cfg"]
    st = c["stratum"]
    nd = 2 if c["mode"] == "SALINITY" else 1
    ws = write_scn(prm)
    if prm["stale"]:
        o = dict(prm, cfg=dict(c, mesh=dict(c["mesh"], n=prm["stale"]["n"]), fields=dict(c["fields"], ic=["const", c["fields"]["ic"][1] + prm["stale"]["shift"]])))
        o["write"] = dict(prm["write"], nr=1)
        a = run(write_scn(o))
        if a.ok:
            ws.files = dict(a.files)
    r = run(ws)
    if ws.files:
        r.files = {k: v for k, v in r.files.items() if k not in ws.files or v != ws.files[k]}
    if not r.ok:
        if work.solver_failure(r) or work.slow(r):
            raise Discard("solver gave up: " + why(r))
        return [("the run with checkpoints fails (%s)" % st, why(r))]
    # the order of the file must not depend on the partition
    ref = run(work.build(c, 1, ["natural n"], dict(seed=1)))
    if not ref.ok:
        return [("the run with checkpoints fails (%s)" % st, "one process: " + why(ref))]
    pos = positions(ref, "n", nd)
    exp = expected(r, prm["interval"])
    names = [x[3] for x in exp]
    bad = []
    dup = [i for i in range(len(exp)) if names.index(names[i]) != i]
    dup = [i for i in dup if exp[i][0] != exp[names.index(names[i])][0]]
    if dup:
        i = dup[0]
        j = names.index(names[i])
        bad.append(("two checkpoints of one run have the same file name", "steps %d and %d at times %.15g and %.15g: %s" % (exp[j][0], exp[i][0], exp[j][1], exp[i][1], names[i])))
    if sorted(set(names)) != sorted(r.files):
        return bad + [("a run does not write one checkpoint per interval and one at its end (%s)" % st,
                 "interval %d, %d accepted steps: expected %s, found %s" % (prm["interval"], sum(1 for a in steps(r) if a["reason"] > 0), sorted(set(names)), sorted(r.files)))]
    if not exp:
        raise Discard("no checkpoint")
    q, L = listing(run, r.files)
    if not q.ok:
        return bad + [("a checkpoint cannot be read (%s)" % st, why(q))]
    m = contents(r, exp, L, pos, nd, st)
    if m:
        return bad + m
    run.info["checkpoints"] = run.info.get("checkpoints", 0) + len(exp)
    if bad:
        return bad
    # restart
    return restarted(prm, run, r, exp[min(len(exp) - 1, int(prm["pick"] * len(exp)))], r.files, nd)
