"""P12: memory is used within bounds and released; its use is linear in the size of the problem."""
import copy, re
import gen, work
from core import oracle, Discard, why, load
from simlib import Scenario

p17 = load("P17")

VARIANTS = ["std", "asan"]
RULE = ("a case counts when its run was executed completely under AddressSanitizer without a report, or when the live blocks of every process after each cycle "
        "(or repetition) were counted, or when peaks of three problem sizes were compared")
ASSUMPTIONS = ["out-of-bounds and use-after-free accesses are recognised in TDycore itself and the driver (compiled with AddressSanitizer), and in memory functions called from there",
               "memory is counted at PETSc's allocation functions, through which TDycore allocates everything; blocks that are created once per process (caches, registrations) are excluded by warming up with one cycle",
               "an allocation per cell of a fixed size is linear growth; superlinear growth is recognised between 4x and 16x the cells"]
N = dict(quick=260, thorough=3600)
SHADOW = re.compile(r"ERROR: AddressSanitizer: ([\w-]+)|runtime error: (.*)")


def workload(rng, c, nr):
    """-> options, ops before the driver, ops after it"""
    o, first, body = [], [], []
    pick = lambda p=0.4: rng.random() < p
    if p17.isfe(c):
        return (["-tdy_timers"] if pick() else []) + ["-tdy_%s_bc_value 0.0" % x for x in ("pressure", "temperature", "velocity") if pick(0.3)], [], ["steady S"]
    if c["ti"] == "SNES":
        if pick():
            o += ["-enable_checkpoint", "-checkpoint_timestep_interval %d" % rng.choice([1, 2])]
            if pick():
                body.append("checkpoint")
    io = pick(0.5)
    if io:
        body.append("iomode " + rng.choice(["ascii", "hdf5"]))
        if c["ti"] == "SNES":
            o.append("-output_timestep_interval %d" % rng.choice([1, 2]))
        body.append("writevec")
    if pick():
        o += ["-tdy_regression_test", "-tdy_regression_test_filename reg", "-tdy_regression_test_num_cells_per_process %d" % rng.choice([1, 2, 50])]
    if pick():
        o.append("-tdy_timers")
    if pick(0.15) and c["disc"] == "MPFA_O":
        o.append("-tdy_output_mesh")
    if pick(0.15) and c["disc"].startswith("MPFA_O"):
        o.append("-tdy_mpfao_gmatrix_method MPFAO_GMATRIX_TPF")
    # boundary values that come from options and may be replaced by a function later
    if "pbc" in c["fields"] and pick(0.5):
        o.append("-tdy_pressure_bc_value 101325.0")
    if pick(0.4) and c["mode"] == "TH":
        o.append("-tdy_temperature_bc_value 25.0")
    if pick(0.3):
        o.append("-tdy_velocity_bc_value 0.0")
    if pick(0.3):
        first.append("register ff force" if "force" in c["fields"] else "register ff ic")
    if pick():
        body.append("natural n")
    if pick():
        body.append("run %r" % gen.rnd(c["final"] * 0.5, 5))
    if pick():
        body.append("diag d")
    if pick():
        body.append("geticraw")
    if pick(0.3):
        body.append("icnat")
    if pick(0.3):
        body += ["prognostic", "diagvec", "creatematrix"]
    if pick(0.3):
        body.append("updatediag")
    body.append("run final")
    if pick(0.5):
        body.append("residual r %r" % c["dt"]["init"])
    if pick(0.3) and c["mode"] == "RICHARDS" and c["disc"] in ("MPFA_O", "FV_TPF") and c["ti"] == "SNES":
        body.append("jac j %r 1e-6 1.0" % c["dt"]["init"])
    if pick(0.3):
        body.append("mesh g")
    if io and pick():
        body.append("writevec")
    if "-tdy_regression_test" in o:
        body.append("regression")
    return o, first, body


def prm_of(rng, i, kind):
    fe = rng.random() < 0.15
    c = work.fe(rng) if fe else work.case(rng, rng.randrange(8), maxcells=14)
    if fe:
        c["dim"] = c.get("dim", 3)
    nr = rng.choice([1, 1, 2, 3])
    if nr > work.cells(c) // 2 and not fe:
        nr = 1
    o, first, body = workload(rng, c, nr)
    return dict(cfg=c, nr=nr, opts=o, first=first, body=body, sched=gen.sched(rng, 1), _lists=["opts", "body"])


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        k = i % 20
        if k < 8:
            p = prm_of(rng, i, "asan")
            c = p["cfg"]
            p["cycles"] = rng.choice([1, 1, 2])
            p["faults"] = []
            if not p17.isfe(c) and c["disc"] == "FV_TPF" and rng.random() < 0.5:
                p["faults"] = [["snes", "any", -1, rng.randrange(0, 3), rng.randrange(0, 2), rng.choice([0, 1])] for _ in range(rng.choice([1, 2]))]
            p["restart"] = not p17.isfe(c) and c["ti"] == "SNES" and rng.random() < 0.4
            p["files"] = not p17.isfe(c) and c["mode"] == "RICHARDS" and rng.random() < 0.3
            out.append(dict(kind="asan", prm=p))
        elif k < 16:
            p = prm_of(rng, i, "growth")
            p["reset"] = [q for q in ("mode", "disc", "settings", "setfromoptions", "register") if rng.random() < 0.3]
            p["reinit"] = rng.random() < 0.4
            p["early"] = rng.random() < 0.1
            out.append(dict(kind="growth", prm=p))
        elif k < 19:
            p = prm_of(rng, i, "steps")
            c = p["cfg"]
            if p17.isfe(c):
                c = p["cfg"] = work.case(rng, rng.randrange(8), maxcells=14)
                p["nr"] = 1
                p["opts"], p["first"], p["body"] = workload(rng, c, 1)
            rep = ["residual r %r" % c["dt"]["init"], "observe q", "natural n", "diag d", "geticraw", "writevec", "updatediag", "mesh g", "timers_write x.csv"]
            if c["mode"] == "RICHARDS" and c["disc"] in ("MPFA_O", "FV_TPF") and c["ti"] == "SNES":
                rep.append("jac j %r 1e-6 1.0" % c["dt"]["init"])
            if c["ti"] == "SNES":
                rep += ["checkpoint"]
            p["rep"] = [x for x in rep if rng.random() < 0.5]
            p["march"] = rng.random() < 0.7
            p["iomode"] = rng.choice(["ascii", "hdf5"])
            p["_lists"] = ["opts", "rep"]
            out.append(dict(kind="steps", prm=p))
        else:
            fe = rng.random() < 0.2
            c = work.fe(rng, disc=rng.choice(["WY", "BDM"]), dim=2, amp=0.0) if fe else work.case(rng, rng.randrange(8), maxcells=16, distort=False)
            out.append(dict(kind="linear", prm=dict(cfg=c, nr=rng.choice([1, 1, 2]), sched=gen.sched(rng, 1), opts=["-tdy_output_mesh"] if False else [], _lists=[])))
    return out


def body_scn(prm, cycles, between=None):
    c = prm["cfg"]
    s = Scenario(prm["nr"], 1)
    gen.apply_sched(s, prm["sched"])
    s.opt(*(p17.shared_opts([c]) + prm["opts"]))
    return s


def life(prm, k):
    """one life cycle"""
    c = prm["cfg"]
    seq = p17.sequence(c, 0)
    at = seq.index("setfromoptions")
    o = seq[:at + 1] + prm["first"]
    rest = [x for x in seq[at + 1:]]
    q = next(i for i, x in enumerate(rest) if x in ("setup", "driver"))
    r = prm.get("reset", [])
    if "mode" in r:
        j = o.index("mode " + c["mode"])
        o.insert(j, "mode " + c["mode"])
    if "disc" in r:
        j = o.index("disc " + c["disc"])
        o.insert(j, "disc " + c["disc"])
    if "settings" in r:
        o += [x for x in rest[:q] if not x.startswith("field ")]
    if "register" in r:
        o += ["register gg ic"] * 2 if "ic" in c["fields"] else []
    o += rest[:q + 1]
    if "ic" in c["fields"] and not p17.isfe(c):
        o.append("ic")
    if prm.get("early") and k % 2 == 0:
        return o + ["destroy"]
    return o + prm["body"] + ["destroy"]


def report(r):
    for q, t in enumerate(r.logs or []):
        m = SHADOW.search(t if isinstance(t, str) else t.decode(errors="replace"))
        if m:
            t = t if isinstance(t, str) else t.decode(errors="replace")
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+)", t[m.start():])
            fr = [f for f in fr if not f.startswith("__") and f not in ("memcpy", "memset", "malloc", "free", "main", "op", "run_ops")]
            return (m.group(1) or "undefined behaviour: " + m.group(2)[:80]), next((f for f in fr if f.startswith(("TDy", "tdy", "MPFA", "Comp", "Extract"))), fr[0] if fr else "?"), q
    return None


@oracle("asan")
def asan(prm, run):
    c = prm["cfg"]
    st = c["stratum"]
    s = body_scn(prm, prm["cycles"])
    s.op("init")
    for k in range(prm["cycles"]):
        s.op(*life(prm, k))
    s.op("finalize")
    for f in prm["faults"]:
        s.fault(*f)
    s.keep = ["*_chk.h5"]
    s.logs = True
    r = run(s, "asan")
    todo = [r]
    if prm["restart"] and not p17.isfe(c):
        chk = sorted((f for f in r.files if f.endswith("_chk.h5")), key=lambda f: float(f.split("_")[0].split("/")[-1]) if f.split("_")[0][:1].strip("-").isdigit() else 0)
        if chk:
            t = work.build(c, prm["nr"], ["run final", "observe e"], prm["sched"], extra=["-ic_file " + chk[-1], "-ic_dataset fields/IC"])
            t.files = {chk[-1]: r.files[chk[-1]]}
            t.logs = True
            todo.append(run(t, "asan"))
    if prm["files"]:
        b = ["writefield ic.h5 IC ic ic w", "writefield poro.h5 Porosity poro poro w"]
        for i, x in enumerate("XYZ"):
            k = "k" + x.lower()
            b.append("writefield perm.h5 Permeability%s %s %s %s" % (x, k if k in c["fields"] else "kx", k if k in c["fields"] else "kx", "a" if i else "w"))
        w = work.build(c, 1, b, dict(seed=1))
        w.keep = ["*.h5"]
        w.logs = True
        q = run(w, "asan")
        todo.append(q)
        if q.ok and len(q.files) >= 3:
            c2 = dict(c, fields={k: v for k, v in c["fields"].items() if k not in ("ic", "kx", "ky", "kz", "poro")})
            t = work.build(c2, prm["nr"], ["run final", "observe e"], prm["sched"], extra=["-ic_file ic.h5", "-init_porosity_file poro.h5", "-init_permeability_file perm.h5", "-anisotropic_perm"])
            t.files = {k: v for k, v in q.files.items()}
            t.logs = True
            todo.append(run(t, "asan"))
    for x in todo:
        m = report(x)
        if m:
            return [("memory error: %s" % m[0], "%s, process %d of %d: %s in %s" % (st, m[2], x.nranks, m[0], m[1]))]
        if x.outcome in ("signal", "abort") and not work.solver_failure(x):
            return [("a run crashes", "%s: %s" % (st, why(x)))]
    run.info["runs under AddressSanitizer"] = len(todo)
    if not all(x.ok or work.solver_failure(x) for x in todo):
        raise Discard(why([x for x in todo if not x.ok][0]))
    return []


def grown(rows, first):
    """the counts keep growing in each increment after the first ones"""
    b = [int(x[0]) for x in rows]
    d = [y - x for x, y in zip(b, b[1:])][first:]
    y = [int(x[1]) for x in rows]
    e = [j - i for i, j in zip(y, y[1:])][first:]
    return (d if len(d) >= 2 and all(x > 0 for x in d) else None), (e if len(e) >= 2 and all(x > 0 for x in e) else None)


def judge(r, key, first, st, what):
    for q in range(r.nranks):
        rows = r.get(key + ".live", q)
        d, e = grown(rows, first)
        if d or e:
            m = r.get(key + ".more", q)
            return [("memory grows with every %s" % what, "%s, process %d: %s" % (st, q, ("%s blocks per %s" % (d, what)) if d else "%s bytes per %s" % (e, what)) + (": " + str(m[-1])[:300] if m else ""))]
    return []


@oracle("growth")
def growth(prm, run):
    c = prm["cfg"]
    st = c["stratum"]
    s = body_scn(prm, 4)
    if prm["reinit"]:
        s.op("mpi_init")
    for k in range(5):
        if k == 0 or prm["reinit"]:
            s.op("init")
            if k == 0:
                s.op("acct")
        s.op(*life(dict(prm, early=False), k))
        if prm["early"]:
            s.op(*life(prm, 0))
        if not prm["reinit"]:
            s.op("live c")
        else:
            s.op("live c", "finalize")
    s.op("mpi_finalize" if prm["reinit"] else "finalize")
    r = run(s)
    if r.outcome in ("signal", "abort"):
        return [("a run crashes", "%s: %s" % (st, why(r)))]
    if not r.ok:
        raise Discard(why(r))
    return judge(r, "c", 1, st, "life cycle")


@oracle("steps")
def steps_(prm, run):
    c = prm["cfg"]
    st = c["stratum"]
    c = dict(c, dt=dict(c["dt"], growth=1.0))
    s = body_scn(dict(prm, cfg=c), 1)
    seq = p17.sequence(c, 0)
    q = seq.index("driver")
    s.op("init", "acct", *seq[:q + 1])
    s.op("ic", "iomode " + prm["iomode"], "timers_on")
    n = 8
    for k in range(n):
        if prm["march"]:
            s.op("run %r" % gen.rnd(c["final"] * (k + 1) / n, 6))
        s.op(*prm["rep"])
        s.op("live c")
    s.op("destroy", "finalize")
    r = run(s)
    if r.outcome in ("signal", "abort"):
        return [("a run crashes", "%s: %s" % (st, why(r)))]
    if not r.ok:
        raise Discard(why(r))
    return judge(r, "c", 3, st, "repetition")


@oracle("linear")
def linear(prm, run):
    c = prm["cfg"]
    st = c["stratum"]
    peaks, ns = [], []
    fe = p17.isfe(c)
    base = (8, 8, 0) if fe else (3, 3, 2)
    for f in (1, 4, 16):
        d = copy.deepcopy(c)
        m = d["mesh"]
        a = {1: 1, 4: 2, 16: 4}[f]
        m["n"] = [base[0] * a, base[1] * a, base[2]]
        m["amp"] = 0.0
        s = Scenario(prm["nr"], 1)
        gen.apply_sched(s, prm["sched"])
        o = [x for x in p17.shared_opts([d]) if not x.startswith("-ksp_gmres_restart")]
        s.opt(*(o + ["-ksp_gmres_restart 20"]))
        seq = p17.sequence(d, 0)
        q = next(i for i, x in enumerate(seq) if x in ("setup", "driver"))
        s.op("init", "acct", *seq[:q + 1])
        if not fe:
            s.op("ic", "residual r %r" % d["dt"]["init"])
        s.op("live c", "destroy", "finalize")
        r = run(s)
        if not r.ok:
            raise Discard(why(r))
        peaks.append([r.get("c.live", q)[0][2] for q in range(r.nranks)])
        ns.append(m["n"][0] * m["n"][1] * max(1, m["n"][2]))
    for q in range(prm["nr"]):
        p = [x[q] for x in peaks]
        per = [(p[1] - p[0]) / (ns[1] - ns[0]), (p[2] - p[1]) / (ns[2] - ns[1])]
        if per[1] > 1.6 * per[0] + 200:
            return [("memory grows faster than the problem", "%s, process %d: peaks %s bytes for %s cells: %.0f and %.0f bytes per cell" % (st, q, [int(x) for x in p], ns, per[0], per[1]))]
        run.info["bytes per cell"] = int(per[1])
    return []
