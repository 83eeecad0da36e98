"""P22: a program that uses the Fortran interface gets what the same program gets through the C interface."""
import copy
import gen, work
from props import p17
from core import oracle, Discard, why
from simlib import Scenario
from util import diff_records

RULE = ("a case counts when the program ran through the C interface and through the Fortran interface under the same schedule and faults, and error codes, observations, "
        "memory held at the end and output files were compared bitwise")
ASSUMPTIONS = ["calls the Fortran interface does not have (several material properties, viscosity, salinity and temperature conditions) are made in C by both programs",
               "values of functions of space come from the same evaluator in both programs; the functions themselves are Fortran subroutines with assumed-shape arrays in the Fortran program"]
N = dict(quick=440, thorough=5600)
VARIANTS = ["std", "asan"]
SKIP = {"perr", "alloc.count", "operr.what"}
FSEL = dict(force="force", eforce="eforce", pbc="pbc", vbc="vbc")
NAMES = ["p", "a name", "pressure", "n" * 31, "n" * 32, "n" * 33, "q" * 40, "x1", "X1"]


def extras(rng):
    k = rng.choice([0, 0, 0, 1, 3, 30, 31, 32, 33, 36])
    return k


def host(rng, c):
    """operations of a host code that drives its own solver, or None"""
    if c["ti"] == "SNES" and c["disc"] == "MPFA_O":
        return ["setup", "manual_snes", "ic", "observe a", "manual_run %d %r" % (rng.choice([1, 2, 3]), c["dt"]["init"]), "natural n"] + (["diag e"] if c["mode"] == "RICHARDS" else [])
    if c["ti"] == "SNES":
        return ["setup", "manual_snes", "ic", "manual_run %d %r" % (rng.choice([1, 2]), c["dt"]["init"]), "diag e"]
    return ["setup", "hostts h %d %r" % (rng.choice([1, 2, 3]), c["dt"]["init"])]


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        k = rng.randrange(20)
        if k < 12:
            fe = rng.random() < 0.18
            c = work.fe(rng) if fe else work.case(rng, rng.randrange(8), maxcells=16)
            nr = rng.choice([1, 2, 3])
            if not fe and nr > work.cells(c) // 2:
                nr = 1
            h = None if fe or rng.random() < 0.65 else host(rng, c)
            if h:
                # the driver's defaults for what has to be set
                f = c["fields"]
                for k_, v_ in dict(TH=dict(tk=1.0, sd=2650.0, sc=1000.0), SALINITY=dict(diff=1e-6, mw=58.44)).get(c["mode"], {}).items():
                    f.setdefault(k_, ["const", v_])
            sets = list(gen.settings(c))
            if fe and "perm tensor" not in sets:
                sets.append("perm tensor")
            if c["disc"] == "FV_TPF" and rng.random() < 0.5 and "pbc" in c["fields"]:
                b = c["mesh"]["box"]
                d = rng.randrange(3)
                sets += [gen.field("ptype", ["side", d, 0.5 * (b[2 * d] + b[2 * d + 1]) + 0.01, rng.randrange(3), rng.randrange(3)]), "ptype"]
            fields = [s for s in sets if s.startswith("field")]
            calls = [s for s in sets if not s.startswith("field")]
            if rng.random() < 0.3 and "poro" in calls:
                calls[calls.index("poro")] = "porocst %r" % gen.rnd(rng.uniform(0.1, 0.6))
            if rng.random() < 0.3 and "sr" in calls:
                calls[calls.index("sr")] = "srcst %r" % gen.rnd(rng.uniform(0.0, 0.3))
            if rng.random() < 0.3 and not fe:
                j = next(j for j, s in enumerate(calls) if s.startswith("perm"))
                a, b_, c_ = [gen.rnd(10 ** rng.uniform(-11.5, -10.5)) for _ in range(3)]
                o = gen.rnd(0.1 * min(a, b_, c_))
                calls[j] = "permcst tensor %s" % " ".join(repr(x) for x in [a, o, 0.0, o, b_, 0.0, 0.0, 0.0, c_])
            rng.shuffle(calls)
            again = rng.random() < 0.3
            if again:
                calls += [rng.choice(calls) for _ in range(rng.choice([1, 3]))]
            reg = []
            ne = extras(rng)
            for j in range(ne):
                reg.append("extra %d %s" % (j, "extra_%d" % j))
            if rng.random() < 0.5:
                for f in FSEL:
                    if f in calls and rng.random() < 0.7:
                        nm = rng.choice(NAMES).replace(" ", "_") + rng.choice(["", "", "_" + f])
                        if any(r.split()[1] == nm for r in reg):
                            continue
                        reg.insert(rng.randrange(len(reg) + 1), "registerf %s %s" % (nm, f))
                        if rng.random() < 0.3:
                            reg.insert(rng.randrange(len(reg) + 1), "registerf second_%s %s" % (f, f))
                        calls = ["select %s %s" % (f, nm) if s == f else s for s in calls]
            if fe:
                body = ["setup", "steady S"] + (["residual r 0.5"] if c["disc"] == "WY" and rng.random() < 0.5 else [])
            else:
                if h:
                    body = h
                else:
                    body = ["driver"] + [rng.choice(["ic", "ic", "icnat", "icraw %r %r %d" % (99000.0, 2000.0, rng.randrange(99))]) if c["mode"] == "RICHARDS" else "ic"]
                    body += ["steplog 1"] + (["settimestep %r" % gen.rnd(c["dt"]["init"] * rng.choice([0.5, 0.7]), 4)] if c["ti"] == "SNES" and rng.random() < 0.3 else [])
                    body += work.march_body(c, rng, rng.random() < 0.5)[1:]
                    if rng.random() < 0.4:
                        body += ["prognostic", "diagvec", "creatematrix"]
                    if rng.random() < 0.3:
                        body += ["geticraw"]
                    if rng.random() < 0.3:
                        body += ["regression"]
                    if c["mode"] == "RICHARDS" and c["disc"] != "FV_TPF" and rng.random() < 0.4:
                        body += ["jac j %r 1e-6 1.0" % c["dt"]["init"]]
                    if c["mode"] == "RICHARDS" and rng.random() < 0.4:
                        body += ["updatestate", "diag us"]
            how = []
            if not fe:
                if c["dens"] in ("constant", "exponential") and rng.random() < 0.4:
                    how.append("density %d" % ["constant", "exponential"].index(c["dens"]))
                if c["disc"].startswith("MPFA") and c["mode"] == "RICHARDS" and c["bc"] in ("dirichlet", "neumann", "seepage") and rng.random() < 0.4:
                    how.append("bctype %d" % ["dirichlet", "neumann", "seepage"].index(c["bc"]))
                if c["disc"].startswith("MPFA") and c["mode"] == "RICHARDS" and rng.random() < 0.2:
                    how.append("gmat %d" % rng.randrange(2))
            faults = []
            if not fe and rng.random() < 0.35:
                for _ in range(rng.choice([1, 2])):
                    faults.append(["snes", "any", -1, rng.randrange(0, 4), rng.choice([0, 1]), rng.choice([0, 1, 2])] if rng.random() < 0.6 else
                                  [rng.choice(["io_eio", "io_enospc", "io_short"]), rng.choice(["open", "write", "close"]), rng.randrange(nr), rng.randrange(0, 4), 0, 0])
            out.append(dict(kind="program", prm=dict(cfg=c, nr=nr, fields=fields, calls=calls, reg=reg, regfirst=rng.random() < 0.5, how=how, body=body, faults=faults,
                                                     acct=rng.random() < 0.5, reg_opt=rng.random() < 0.5, mix=rng.randrange(1, 10**6) if rng.random() < 0.4 else 0,
                                                     preset=["-tdy_%s_bc_value %r" % (x, v) for x, q, v in (("pressure", "pbc", 101000.0), ("velocity", "vbc", 1e-6)) if q in c["fields"] and rng.random() < 0.3], sched=gen.sched(rng), asan=rng.random() < 0.1,
                                                     _lists=["faults", "reg", "how", "body", "calls"])))
        elif k < 15:
            d = next(x for x in iter(lambda: p17cases(rng), None))
            prm = d["prm"]
            prm["lang"] = [rng.randrange(2) for _ in prm["cfgs"]]
            if not any(prm["lang"]):
                prm["lang"][rng.randrange(len(prm["lang"]))] = 1
            # one instance may have no constructor of its own and take its mesh from the options
            prm["nodm"] = rng.randrange(len(prm["cfgs"])) if rng.random() < 0.4 else -1
            out.append(d)
        elif k < 18:
            fe = rng.random() < 0.15
            c = work.fe(rng) if fe else work.case(rng, rng.randrange(8), maxcells=12)
            ins = []
            for _ in range(rng.choice([1, 2, 4])):
                stage = rng.randrange(5)
                ins.append([stage, rng.choice(p17.BAD[stage])])
            for _ in range(rng.choice([0, 1, 2])):
                ins.append([rng.choice([3, 3, 2]), "select %s %s" % (rng.choice(list(FSEL)), rng.choice(["nosuchfunction", "n" * 33]))])
            if rng.random() < 0.3:
                ins.append([3, "registerf known force"])
            out.append(dict(kind="order", prm=dict(cfg=c, nr=rng.choice([1, 2]), ins=sorted(ins), sched=gen.sched(rng, 1), asan=rng.random() < 0.1, _lists=["ins"])))
        elif rng.random() < 0.5:
            fe = rng.random() < 0.2
            c = work.fe(rng) if fe else work.case(rng, rng.randrange(8), maxcells=12)
            ids = dict(poro=0, sr=1, pbc=2, vbc=3, force=4, eforce=5)
            have = [f for f in ids if f in c["fields"]]
            if have:
                f = rng.choice(have)
                out.append(dict(kind="failing function", prm=dict(cfg=c, nr=rng.choice([1, 1, 2]), what=f, id=ids[f], late=rng.random() < 0.5, sched=gen.sched(rng, 1), _lists=[])))
        else:
            c = work.case(rng, rng.randrange(8), maxcells=12)
            out.append(dict(kind="memory", prm=dict(cfg=c, nr=rng.choice([1, 2]), pick=rng.random(), sched=gen.sched(rng, 1), _lists=[])))
    return out


def p17cases(rng):
    """two or three instances and an interleaving of their calls"""
    n = rng.choice([2, 2, 3])
    cs, lead = [], None
    g = rng.choice(p17.GROUPS[:2] * 3 + p17.GROUPS[2:])
    for j in range(n):
        st = rng.choice(g) if j else rng.choice([x for x in g if x != "fe"])
        if st == "fe":
            cs.append(work.fe(rng))
            continue
        c = work.case(rng, 0, strata=[st], maxcells=12)
        if lead is None:
            lead = c
        else:
            for q in p17.KEEP:
                if q in lead:
                    c[q] = copy.deepcopy(lead[q])
                else:
                    c.pop(q, None)
            if lead["bc"] == "neumann":
                c["fields"].pop("pbc", None)
            elif "pbc" in lead["fields"] and "pbc" not in c["fields"]:
                c["fields"]["pbc"] = ["hydro", 101325.0, 8000.0, c["mesh"]["box"][5]]
        cs.append(c)
    order = []
    for j, c in enumerate(cs):
        order += [j] * len(p17.sequence(c, j))
    rng.shuffle(order)
    return dict(kind="instances", prm=dict(cfgs=cs, nr=rng.choice([1, 1, 2]), order=order, sched=gen.sched(rng, 1), _lists=[]))


def scn(prm, lang):
    c = prm["cfg"]
    s = Scenario(prm["nr"], 1)
    gen.apply_sched(s, prm["sched"])
    fe = p17.isfe(c)
    o = work.fe_opts(c) if fe else gen.opts(c)
    for h in prm["how"]:
        # set by a call instead of an option
        k = {"density": "-tdy_water_density", "bctype": "-tdy_mpfao_boundary"}.get(h.split()[0])
        if k:
            o = [x for x in o if not x.startswith(k)]
    s.opt(*o)
    if not fe and prm["reg_opt"]:
        s.opt("-tdy_regression_test", "-tdy_regression_test_filename reg", "-tdy_regression_test_num_cells_per_process 2")
    s.op("lang " + lang, "init")
    if prm["acct"]:
        s.op("acct")
    if prm["regfirst"]:
        s.op(*prm["reg"])
    s.op(*gen.prelude(c)[1:])
    s.op(*prm["how"])
    s.op(*prm["fields"])
    if not prm["regfirst"]:
        s.op(*prm["reg"])
    if prm.get("mix"):
        # some of the settings are made in C by both programs, so that each language replaces what the other one has set
        # (each language has its own registry of names)
        for i, x in enumerate(prm["calls"]):
            s.op("lang " + ("c" if not x.startswith("select") and ((i + 1) * 2654435761 + prm["mix"]) >> 9 & 1 else lang), x)
        s.op("lang " + lang)
    else:
        s.op(*prm["calls"])
    if prm.get("preset"):
        s.opt(*prm["preset"])
    s.op(*prm["body"])
    s.op("destroy")
    if prm["acct"]:
        s.op("live end")
    s.op("finalize")
    for f in prm["faults"]:
        s.fault(*f)
    s.keep = ["*.regression", "*.txt"]
    return s


def codes(r):
    return [[int(x) for x in v] for q, k, v in sorted((t for t in r.rec if t[1] == "operr"), key=lambda t: t[0])]


def compare(what, a, b, skip=(), compare_memory=True):
    if b.get("fx.size"):
        v = b.get("fx.size")[0]
        return [("a Fortran function is given arrays of the wrong size", "%s: function %d, %d points: %d coordinates, %d values" % (what, v[0], v[1], v[2], v[3]))]
    if a.outcome != b.outcome:
        return [("the Fortran program does not end like the C program", "%s: C: %s; Fortran: %s" % (what, why(a) if not a.ok else "ok", why(b) if not b.ok else "ok"))]
    if a.rc != b.rc or codes(a) != codes(b):
        e = [(x, y) for x, y in zip(codes(a), codes(b)) if x != y] or [(codes(a), codes(b))]
        return [("a call through Fortran does not return the same error", "%s: C returned %s, Fortran %s ([call, code] at the first difference: %s / %s)" % (what, a.rc, b.rc, e[0][0], e[0][1]))]
    live = lambda r: [[float(x) for x in v[:2]] for q, k, v in sorted((t for t in r.rec if t[1] == "end.live"), key=lambda t: t[0])]
    d = diff_records(a, b, set(skip) | SKIP | {"end.live", "end.more"})
    if d:
        return [("a Fortran program computes something else", "%s: %s" % (what, d[1]))]
    if compare_memory and live(a) != live(b):
        return [("a Fortran program leaves other memory behind", "%s: blocks and bytes after the destruction: C %s, Fortran %s" % (what, live(a), live(b)))]
    if a.files != b.files:
        return [("a Fortran program writes other files", "%s: C wrote %s, Fortran %s" % (what, sorted(a.files or {}), sorted(b.files or {})))]
    return []


@oracle("program")
def program(prm, run):
    v = "asan" if prm.get("asan") else "std"
    a = run(scn(prm, "c"), v)
    if a.outcome not in ("done",):
        raise Discard("the C program: " + why(a))
    b = run(scn(prm, "f"), v)
    c = prm["cfg"]
    # the names registered in C are memory, too, until the library is finalised
    return compare("%s, %d processes" % (c["stratum"], prm["nr"]), a, b, compare_memory=not prm["reg"])


@oracle("instances")
def instances(prm, run):
    def build(langs):
        s = p17.instances_scn(prm)
        nd = prm["nodm"]
        ops, cur = [], 0
        for o in s.ops:
            if o.startswith("use "):
                cur = int(o[4:])
                ops += [o, "lang " + "cf"[langs[cur]]]
                continue
            if o.startswith("dm ") and cur == nd:
                continue
            if o in ("init", "finalize"):
                ops.append("lang " + ("f" if any(langs) else "c"))
            ops.append(o)
        s.ops = ops
        if nd >= 0:
            c = prm["cfgs"][nd]
            m = c["mesh"]
            n = [q for q in m["n"] if q > 0]
            s.opt("-dm_plex_dim %d" % len(n), "-dm_plex_simplex 0", "-dm_plex_box_faces " + ",".join(str(q) for q in n),
                  "-dm_plex_box_lower " + ",".join(repr(m["box"][2 * d]) for d in range(len(n))), "-dm_plex_box_upper " + ",".join(repr(m["box"][2 * d + 1]) for d in range(len(n))))
        return s
    a = run(build([0] * len(prm["cfgs"])))
    if not a.ok:
        raise Discard("the C program: " + why(a))
    b = run(build(prm["lang"]))
    return compare("instances %s in %s" % ("+".join(c["stratum"] for c in prm["cfgs"]), "".join("cf"[x] for x in prm["lang"])), a, b)


@oracle("order")
def order(prm, run):
    c = prm["cfg"]
    v = "asan" if prm.get("asan") else "std"

    def build(lang):
        s = Scenario(prm["nr"], 1)
        gen.apply_sched(s, prm["sched"])
        s.opt(*p17.shared_opts([c]))
        seq = p17.sequence(c, 0)
        cut = {0: 1, 1: 2, 2: 4, 3: 5}
        st = seq.index("setup") + 1 if "setup" in seq else seq.index("driver") + 1
        cut[4] = st
        s.op("lang " + lang, "init")
        for j, o in enumerate(seq):
            for at, bad in prm["ins"]:
                if cut[at] == j:
                    s.op("keepgoing 1", gen.meshop(c["mesh"]) if bad == "dmcall" else bad, "keepgoing 0")
            s.op(o)
        s.op("finalize")
        return s
    a = run(build("c"), v)
    if a.outcome != "done":
        raise Discard("the C program: " + why(a))
    b = run(build("f"), v)
    return compare("%s with %s" % (c["stratum"], ", ".join("%s at stage %d" % (o, s) for s, o in prm["ins"])), a, b)


@oracle("memory")
def memory(prm, run):
    """a request for memory of the Fortran interface fails"""
    c = prm["cfg"]
    s = gen.scn(c, prm["nr"], ["run final", "observe e", "allocsites"], prm["sched"])
    s.ops.insert(0, "lang f")
    s.fault("alloc", "any", -1, -1, 0, 0)
    a = run(s)
    if not a.ok:
        raise Discard("the program without faults: " + why(a))
    idx = []
    for x in a.get("alloc.sites", 0):
        p = x.split()
        if p[0] == "0" and p[1].startswith("tdycoref.c"):
            idx += [(int(p[2]) + j, p[1]) for j in range(int(p[3]))]
    if not idx:
        raise Discard("the Fortran interface requested no memory")
    n, site = idx[int(prm["pick"] * len(idx))]
    t = gen.scn(c, prm["nr"], ["run final", "observe e"], prm["sched"])
    t.ops.insert(0, "lang f")
    t.fault("alloc", "any", 0, n, 0, 0)
    b = run(t)
    if not b.get("alloc.site", 0):
        raise Discard("the fault did not fire")
    run.info["failed requests of the Fortran interface"] = 1
    if b.outcome not in ("done", "deadlock", "premature-exit") or not b.get("operr", 0):
        return [("failed allocation in the Fortran interface is not reported", "%s: request %d at %s failed; the program ended %s" % (c["stratum"], n, site, b.outcome if b.outcome != "done" else "with return codes %s" % b.rc))]
    return []


@oracle("failing function")
def failing(prm, run):
    """a Fortran function of space reports an error"""
    c = prm["cfg"]
    fe = p17.isfe(c)
    s = work.build(c, prm["nr"], ["steady S"] if fe else ["run final", "observe e"], prm["sched"])
    s.ops.insert(0, "lang f")
    at = s.ops.index("setup" if fe else "driver") + (1 if prm["late"] else 0)
    s.ops.insert(at, "failfn %d" % prm["id"])
    r = run(s)
    q = [rr for rr, k, v in r.rec if k == "fx.failed"]
    if not q:
        raise Discard("the function was not evaluated: " + why(r))
    run.info["failing Fortran functions"] = 1
    bad = [x for x in q if not any(rr == x and k == "operr" for rr, k, v in r.rec)]
    if bad:
        return [("the error of a Fortran function is lost", "%s: %s reported an error on process %d; the program ended %s with return codes %s" % (c["stratum"], prm["what"], bad[0], r.outcome, r.rc))]
    e = [int(v[1]) for rr, k, v in r.rec if k == "operr" and rr in q]
    if any(x != 177 for x in e):
        return [("the error of a Fortran function is reported as another one", "%s: %s reported error 177; the calls returned %s" % (c["stratum"], prm["what"], e))]
    return []
