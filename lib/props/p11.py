"""P11: running out of memory is reported, not ignored."""
import gen, work
from core import oracle, Discard, why, load
from simlib import Scenario

p17 = load("P17")
p12 = load("P12")

RULE = "a case counts when at least one allocation failed by injection and the way the run went on from there was judged"
ASSUMPTIONS = ["one allocation fails at a time, at PETSc's allocation functions, through which TDycore allocates everything (its own requests, and those PETSc makes on its behalf)",
               "an error returned on one process ends the run (MPI ends the other processes)"]
N = dict(quick=210, thorough=3000)


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        fe = rng.random() < 0.12
        c = work.fe(rng) if fe else work.case(rng, rng.randrange(8), maxcells=12)
        if not fe:
            c["final"] = gen.rnd(c["dt"]["init"] * 1.5, 5)
        nr = rng.choice([1, 1, 2, 2, 3])
        if nr > work.cells(c) // 2 and not fe:
            nr = 1
        o, first, body = p12.workload(rng, c, nr)
        cycles = rng.choice([1, 1, 1, 2])
        inj = []
        for k in range(12 if tier == "quick" else 30):
            inj.append([rng.choice(["site", "site", "own", "petsc-site", "call", "call", "any"]), rng.randrange(nr), round(rng.random(), 5), rng.choice([0.0, 0.0, round(rng.random(), 3)])])
        out.append(dict(kind="alloc", prm=dict(cfg=c, nr=nr, opts=o, first=first, body=body, cycles=cycles, early=False,
                                               reset=[q for q in ("mode", "disc", "settings", "register") if rng.random() < 0.15],
                                               many=rng.choice([0, 0, 0, 33]), inject=inj, sched=gen.sched(rng, 1), _lists=["inject", "opts", "body", "first"])))
    return out


def scenario(prm):
    s = p12.body_scn(prm, prm["cycles"])
    s.op("petsc_init", "init")
    s.op(*["onfinalize 0"] * prm["many"])
    for k in range(prm["cycles"]):
        s.op(*p12.life(prm, k))
    return s


def choose(base, f):
    """-> (n, a, what) of the fault"""
    mode, q, x, y = f
    cnt = base.get("alloc.count", q)
    if not cnt:
        return None
    if mode in ("own", "any"):
        n = int(cnt[0][1 if mode == "any" else 0])
        return int(x * n), int(mode == "any")
    want = dict(site="0", call="2").get(mode, "1")
    sites = []
    for t in base.get("alloc.sites", q):
        w = t.split(" ")
        if w[0] == want:
            sites.append((int(w[-2]), int(w[-1])))
    if not sites:
        return None
    first, count = sites[int(x * len(sites))]
    # the exact positions of the later requests of a site are not known: their number bounds how far to go
    if want == "2":
        # the first or last request made from a place in TDycore
        return (first if y < 0.5 else count), 1
    return first + (int(y * count) if want == "0" else 0), int(want == "1")


@oracle("alloc")
def alloc(prm, run):
    c = prm["cfg"]
    st = c["stratum"]
    s = scenario(prm)
    b = s.copy()
    b.fault("alloc", "-", -1, -1, 2, 0)
    b.op("allocsites", "finalize")
    base = run(b)
    if not base.ok:
        raise Discard(why(base))
    hit = 0
    for f in prm["inject"]:
        p = choose(base, f)
        if p is None:
            continue
        t = s.copy()
        t.op("mark end", "finalize")
        t.fault("alloc", "-", f[1], p[0], p[1], 0)
        r = run(t)
        if not sum(r.j["fired"].values()):
            continue
        hit += 1
        q = f[1]
        site = (r.get("alloc.site", q) or ["?"])[0]
        at = (r.get("alloc.op", q) or [[-1]])[0]
        at = int(at[0] if hasattr(at, "__len__") else at)
        op = t.ops[at] if 0 <= at < len(t.ops) else "?"
        run.info["requests of TDycore" if not p[1] else "requests of PETSc"] = run.info.get("requests of TDycore" if not p[1] else "requests of PETSc", 0) + 1
        stack = (r.get("alloc.stack", q) or [""])[0]
        if "<" in stack and site.startswith(("str.c", "mal.c", "?")):
            site += " for " + " < ".join(stack.split("<")[1:5])
        what = "%s: allocation %d on process %d of %d, in %s, op '%s'" % (st, p[0], q, prm["nr"], site, op)
        err = [int(e[0]) for e in r.get("operr", q)]
        if r.outcome == "abort" and "MPI_Abort(55)" in why(r):
            run.info["stopped with the error"] = run.info.get("stopped with the error", 0) + 1
            continue
        if r.outcome in ("signal", "abort") and not err:
            return [("a failed allocation crashes the process", "%s: %s" % (what, why(r)))]
        if r.outcome in ("mpi-misuse", "budget", "simulator-limit"):
            return [("a failed allocation ends in a %s" % r.outcome, "%s: %s" % (what, why(r)))]
        if not err:
            return [("a failed allocation is ignored", "%s: %s" % (what, why(r)))]
        if err[0] != at:
            return [("a failed allocation is not reported by the call that met it", "%s: the error appears in op %d '%s'" % (what, err[0], t.ops[err[0]]))]
    if not hit:
        raise Discard("no fault took place")
    return []
