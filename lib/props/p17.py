"""P17: dycore instances are independent; life cycles can be repeated; calls out of order are rejected and leave no trace."""
import copy
import gen, work
from core import oracle, Discard, why
from simlib import Scenario
from util import same

RULE = "a case counts when every instance or cycle finished and its observations equal bitwise those of the reference (the instance alone, the first cycle, the run without the rejected calls)"
ASSUMPTIONS = ["options are shared by the instances of a process, so instances of one case use the same options and differ in what is set by calls",
               "out-of-order calls: those whose order the sources document (\"must be called before/after\")"]
N = dict(quick=330, thorough=4200)
KEEP = ("m", "alpha", "dens", "gravity", "bc", "ti", "dt", "final", "tight", "opts")
GROUPS = [["mpfao", "fvtpf", "mpfao-wedge", "fvtpf-wedge", "fe"], ["mpfao", "fvtpf", "fe"], ["mpfao-ts", "mpfao-ts"], ["th", "th"], ["salinity", "salinity"], ["transient", "transient"]]


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        k = i % 10
        if k < 5:
            g = rng.choice(GROUPS[:2] * 3 + GROUPS[2:])
            n = rng.choice([2, 2, 3])
            cs = []
            lead = None
            for j in range(n):
                st = rng.choice(g) if j else rng.choice([x for x in g if x != "fe"])
                if st == "fe":
                    cs.append(work.fe(rng))
                    continue
                c = work.case(rng, 0, strata=[st], maxcells=12)
                if lead is None:
                    lead = c
                    if c["bc"] == "none" or c["bc"] != "neumann":
                        pass
                else:
                    for q in KEEP:
                        if q in lead:
                            c[q] = copy.deepcopy(lead[q])
                        else:
                            c.pop(q, None)
                    if lead["bc"] == "neumann":
                        c["fields"].pop("pbc", None)
                    elif "pbc" in lead["fields"] and "pbc" not in c["fields"]:
                        b = c["mesh"]["box"]
                        c["fields"]["pbc"] = ["hydro", 101325.0, 8000.0, b[5]]
                cs.append(c)
            order = []
            for j, c in enumerate(cs):
                order += [j] * len(sequence(c, j))
            mode = rng.choice(["shuffle", "shuffle", "blocks", "nested"])
            if mode == "shuffle":
                rng.shuffle(order)
            elif mode == "blocks":
                # long blocks of calls of one instance
                left = {j: order.count(j) for j in range(n)}
                order = []
                while any(left.values()):
                    j = rng.choice([j for j in left if left[j]])
                    m = min(left[j], rng.randrange(1, 12))
                    order += [j] * m
                    left[j] -= m
            out.append(dict(kind="instances", prm=dict(cfgs=cs, nr=rng.choice([1, 1, 2, 3]), order=order, sched=gen.sched(rng, 1), _lists=[])))
        elif k < 7:
            fe = rng.random() < 0.2
            c = work.fe(rng) if fe else work.case(rng, rng.randrange(8), maxcells=12)
            cyc = rng.choice([2, 3])
            out.append(dict(kind="cycles", prm=dict(cfg=c, nr=rng.choice([1, 2]), cycles=cyc, reinit=rng.random() < 0.6, timers=rng.random() < 0.3,
                                                    register=rng.random() < 0.4, observers=rng.random() < 0.4, sched=gen.sched(rng, 1), _lists=[])))
        elif k == 7 and rng.random() < 0.3:
            c = work.case(rng, rng.randrange(8), maxcells=8)
            n = rng.choice([2, 3])
            out.append(dict(kind="timing", prm=dict(cfg=c, nr=rng.choice([1, 2]), cycles=n, on=rng.randrange(n - 1), sched=gen.sched(rng, 1), _lists=[])))
        elif k == 7:
            out.append(dict(kind="shutdown", prm=dict(nr=rng.choice([1, 2]), calls=[rng.randrange(0, 3) for _ in range(rng.choice([0, 1, 3, 31, 32, 33, 40, 100]))],
                                                      late=rng.random() < 0.5, timers=rng.random() < 0.3, rounds=rng.choice([1, 2]), sched=gen.sched(rng, 1), _lists=["calls"])))
        else:
            fe = rng.random() < 0.15
            c = work.fe(rng) if fe else work.case(rng, rng.randrange(8), maxcells=12)
            ins = []
            for _ in range(rng.choice([1, 2, 4])):
                stage = rng.randrange(5)
                ins.append([stage, rng.choice(BAD[stage])])
            out.append(dict(kind="order", prm=dict(cfg=c, nr=rng.choice([1, 2]), ins=sorted(ins), sched=gen.sched(rng, 1), _lists=["ins"])))
    return out


SETTERS = ["porocst 0.3", "poro", "permcst iso 1e-10", "permcst diag 1e-10 1e-10 1e-10", "perm iso", "perm diag", "perm tensor", "sr", "tk", "sd", "sc", "diff", "mw", "pbc", "vbc", "tbc", "sbc", "ptype", "force", "eforce"]
LATE = ["prognostic", "diagvec", "creatematrix", "updatediag"]
# what must be rejected after: 0 create, 1 mode, 2 disc and dm, 3 setfromoptions, 4 setup
BAD = {0: ["disc MPFA_O", "disc FV_TPF", "dmcall", "setup", "setfromoptions", "driver"] + LATE + SETTERS,
       1: ["dmcall", "setup", "setfromoptions", "driver"] + LATE + SETTERS,
       2: ["setup", "driver"] + LATE + SETTERS,
       3: ["dmcall"] + LATE,
       4: ["setfromoptions", "dmcall"]}


def isfe(c):
    return c["disc"] in ("WY", "BDM")


def sequence(c, j):
    """the calls of one instance, in order"""
    f = isfe(c)
    o = ["create", "mode " + c["mode"], "disc " + c["disc"], gen.meshop(c["mesh"]), "setfromoptions"] + gen.settings(c)
    if f:
        return o + ["setup", "steady %dS" % j, "destroy"]
    o += ["driver", "ic", "observe %da" % j]
    for k, q in enumerate((0.3, 0.6, 0.8)):
        o += ["run %r" % gen.rnd(c["final"] * q, 6), "observe %dm%d" % (j, k)]
    if c["mode"] == "RICHARDS":
        o += ["diag %dd" % j]
    o += ["run final", "observe %de" % j, "residual %dr %r" % (j, c["dt"]["init"]), "destroy"]
    return o


def shared_opts(cs):
    lead = next((c for c in cs if not isfe(c)), None)
    o = [] if lead is None else gen.opts(lead)
    for k in ("-tdy_fvtpf_boundary_condition_type", "-tdy_mpfao_boundary_condition_type"):
        if lead and lead["bc"] in ("dirichlet", "neumann", "seepage"):
            o.append(k + " " + {"dirichlet": "DIRICHLET_BC", "neumann": "NEUMANN_BC", "seepage": "SEEPAGE_BC"}[lead["bc"]])
    if any(isfe(c) for c in cs):
        o = [x for x in o if not x.startswith(("-pc_type", "-sub_pc_type", "-ksp_rtol"))] + ["-pc_type " + ("none" if any(c["disc"] == "BDM" for c in cs) else "jacobi"), "-ksp_rtol 1e-13", "-ksp_type gmres",
                                                                         "-ksp_gmres_restart 400", "-ksp_max_it 4000", "-ksp_atol 1e-50"]
        if lead is None:
            o += ["-dm_distribute 0", "-malloc_debug no"]
    return o


def instances_scn(prm, only=None):
    cs = prm["cfgs"]
    s = Scenario(prm["nr"], 1)
    gen.apply_sched(s, prm["sched"])
    s.opt(*shared_opts(cs))
    s.op("init")
    seq = [list(sequence(c, j)) for j, c in enumerate(cs)]
    at = [0] * len(cs)
    cur = None
    for j in prm["order"]:
        if only is not None and j != only:
            continue
        if at[j] >= len(seq[j]):
            continue
        if cur != j:
            s.op("use %d" % j)
            cur = j
        s.op(seq[j][at[j]])
        at[j] += 1
    s.op("finalize")
    return s


@oracle("instances")
def instances(prm, run):
    cs = prm["cfgs"]
    nm = "+".join(sorted(set(c["stratum"] for c in cs)))
    alone = []
    for j in range(len(cs)):
        r = run(instances_scn(prm, j))
        if not r.ok:
            raise Discard(why(r))
        alone.append(r)
    r = run(instances_scn(prm))
    if r.outcome != "done" or not r.ok:
        return [("a run with several instances fails", "%s: %s; each alone: ok" % (nm, why(r)))]
    for j, a in enumerate(alone):
        for q in range(r.nranks):
            x = [(k, v) for rr, k, v in a.rec if rr == q and k[:1] == str(j)]
            y = [(k, v) for rr, k, v in r.rec if rr == q and k[:1] == str(j)]
            if [k for k, _ in x] != [k for k, _ in y]:
                return [("an instance does not do the same next to others", "%s: instance %d (%s)" % (nm, j, cs[j]["stratum"]))]
            for (k, v), (_, w) in zip(x, y):
                if not same(v, w):
                    return [("the results of an instance change next to others", "%s: instance %d (%s), process %d: %s differs from the run alone" % (nm, j, cs[j]["stratum"], q, k))]
    return []


def cycle_ops(prm, k):
    c = prm["cfg"]
    # the tags must not depend on the cycle except in the first character
    o = sequence(c, k)
    if prm["register"]:
        at = o.index("setfromoptions")
        o[at + 1:at + 1] = ["register ff force"] if "force" in c["fields"] else []
    if prm["observers"] and not isfe(c):
        at = o.index("driver")
        o[at + 1:at + 1] = ["iomode ascii", "natural %dn" % k]
        o[-1:-1] = ["writevec"]
    return o


@oracle("cycles")
def cycles(prm, run):
    c = prm["cfg"]
    s = Scenario(prm["nr"], 1)
    gen.apply_sched(s, prm["sched"])
    s.opt(*shared_opts([c]))
    if prm["timers"]:
        s.opt("-tdy_timers")
    if prm["reinit"]:
        s.op("mpi_init")
    for k in range(prm["cycles"]):
        if prm["reinit"] or k == 0:
            s.op("init")
        s.op(*cycle_ops(prm, k))
        if prm["reinit"]:
            s.op("finalize")
    s.op("mpi_finalize" if prm["reinit"] else "finalize")
    r = run(s)
    st = c["stratum"]
    n = len([1 for q, k, v in r.rec if q == 0 and k[:1] == "0"])
    if not r.ok:
        if n and not any(k[:1] == "1" for q, k, v in r.rec) and work.solver_failure(r):
            raise Discard(why(r))
        return [("a life cycle cannot be repeated (%s%s)" % (st, ", initialised again" if prm["reinit"] else ""), why(r))]
    for q in range(r.nranks):
        ref = [(k[1:], v) for rr, k, v in r.rec if rr == q and k[:1] == "0"]
        for j in range(1, prm["cycles"]):
            x = [(k[1:], v) for rr, k, v in r.rec if rr == q and k[:1] == str(j)]
            if len(x) != len(ref):
                return [("a repeated life cycle does something else (%s)" % st, "cycle %d: %d observations, first %d" % (j, len(x), len(ref)))]
            for (k, v), (k2, w) in zip(ref, x):
                if k != k2 or not same(v, w):
                    return [("a repeated life cycle gives other results (%s)" % st, "cycle %d, process %d: %s differs from the first cycle" % (j, q, k))]
    return []


@oracle("timing")
def timing(prm, run):
    """timers enabled in one life of TDycore say nothing about the next: each life with timers writes its profile, the others none"""
    c = prm["cfg"]

    def lives(on):
        s = Scenario(prm["nr"], 1)
        gen.apply_sched(s, prm["sched"])
        s.opt(*shared_opts([c]))
        s.op("mpi_init")
        for k, t in enumerate(on):
            s.op("init")
            if t:
                s.op("timers_on")
            s.op(*cycle_ops(dict(prm, register=False, observers=False), k))
            s.op("finalize")
        s.op("mpi_finalize")
        return s
    n, j = prm["cycles"], prm["on"]
    one = [run.need(lives([t])).j["io"] for t in (False, True)]
    r = run(lives([k == j for k in range(n)]))
    if not r.ok:
        return [("a life cycle cannot be repeated with timers in one of them", "%s: %d life cycles, timers enabled in cycle %d: %s" % (c["stratum"], n, j, why(r)))]
    all_ = r.j["io"]
    for q in ("open", "write", "close"):
        if all_[q] != one[0][q] * (n - 1) + one[1][q]:
            return [("the timers of one life cycle act on another one", "%s: %d life cycles, timers enabled in cycle %d: %d file operations '%s', expected %d (a cycle with timers: %d, without: %d)" % (
                c["stratum"], n, j, all_[q], q, one[0][q] * (n - 1) + one[1][q], one[1][q], one[0][q]))]
    return []


@oracle("shutdown")
def shutdown(prm, run):
    s = Scenario(prm["nr"], 1)
    gen.apply_sched(s, prm["sched"])
    s.opt("-malloc_debug no")
    if prm["timers"]:
        s.opt("-tdy_timers")
    s.op("mpi_init")
    for _ in range(prm["rounds"]):
        if prm["late"]:
            s.op("init")
        s.op(*((["init"] if not prm["late"] else []) + ["onfinalize %d" % k for k in prm["calls"]] + ["finalize"]))
    s.op("mpi_finalize")
    r = run(s)
    if not r.ok:
        return [("initialising, registering shutdown functions and finalising fails", why(r))]
    for q in range(r.nranks):
        for k, x in enumerate(r.get("shutdown_order", q)):
            if len(x) != len(prm["calls"]):
                return [("a shutdown function does not run exactly once", "process %d, round %d: %d registered, %d run" % (q, k, len(prm["calls"]), len(x)))]
            if [int(y) for y in x] != prm["calls"][::-1]:
                return [("shutdown functions do not run in reverse order", "process %d, round %d" % (q, k))]
        if len(r.get("shutdown_order", q)) != prm["rounds"]:
            return [("finalisation is incomplete", "")]
    return []


@oracle("order")
def order(prm, run):
    c = prm["cfg"]
    st = c["stratum"]
    stages = [["create"], ["mode " + c["mode"]], ["disc " + c["disc"], gen.meshop(c["mesh"])], ["setfromoptions"]]
    rest = sequence(c, 0)
    rest = rest[rest.index("setfromoptions") + 1:]
    k = next(i for i, o in enumerate(rest) if o in ("setup", "driver")) + 1
    stages.append(rest[:k])
    res = []
    for ins in ([], prm["ins"]):
        s = Scenario(prm["nr"], 1)
        gen.apply_sched(s, prm["sched"])
        s.opt(*shared_opts([c]))
        ops, bad = ["keepgoing 1", "init"], {}
        for j, g in enumerate(stages):
            ops += g
            for a, b in ins:
                if a == j:
                    bad[len(ops)] = b
                    ops.append(gen.meshop(c["mesh"]) if b == "dmcall" else b)
        ops += rest[k:] + ["finalize"]
        s.op(*ops)
        r = run(s)
        if r.outcome != "done":
            if ins:
                return [("a call made out of order is not rejected (%s)" % st, "%s: %s" % (prm["ins"], why(r)))]
            raise Discard(why(r))
        for q in range(r.nranks):
            err = {int(x[0]): int(x[1]) for x in r.get("operr", q)}
            if not ins:
                if err:
                    raise Discard(why(r))
                continue
            for i in bad:
                if i not in err:
                    return [("a call made out of order is carried out", "%s: op '%s' after stage %s reports no error on process %d" % (st, ops[i], prm["ins"], q))]
            for i in err:
                if i not in bad:
                    return [("a rejected call leaves traces: a later call fails", "%s: %s, then '%s' fails" % (st, prm["ins"], ops[i]))]
        res.append(r)
    a, b = res
    for q in range(a.nranks):
        x = [(k, v) for rr, k, v in a.rec if rr == q and k[:1] == "0"]
        y = [(k, v) for rr, k, v in b.rec if rr == q and k[:1] == "0"]
        if [k for k, _ in x] != [k for k, _ in y] or any(not same(v, w) for (_, v), (_, w) in zip(x, y)):
            return [("a rejected call leaves traces: the results differ", "%s: %s" % (st, prm["ins"]))]
    return []
