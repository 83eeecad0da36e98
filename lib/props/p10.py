"""P10: file errors surface as errors; success means everything was read and written completely."""
import copy
import gen, work
from core import oracle, Discard, why
from simlib import Scenario
from util import same
from props import p08

RULE = "a case counts when at least one run met an injected file error (or a damaged input) and was judged against the same run without it"
ASSUMPTIONS = ["an error returned on one process ends the run (MPI ends the other processes)",
               "what a run wrote is compared data set by data set (HDF5) and byte by byte (text); profiles by their structure",
               "an I/O error is one the operating system reports; silent corruption by the disk is out of scope"]
N = dict(quick=170, thorough=2600)


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        st = rng.choice(["fvtpf", "fvtpf", "mpfao", "mpfao", "fvtpf-wedge", "mpfao-wedge", "salinity"])
        c = work.case(rng, 0, strata=[st], maxcells=16)
        c["final"] = gen.rnd(c["dt"]["init"] * rng.uniform(1.2, 3), 5)
        nf = 5 if tier == "quick" else 12
        if i % 5 < 3:
            outs = dict(mode=rng.choice(["hdf5", "hdf5", "ascii", "none"]), chk=rng.random() < 0.6, reg=rng.random() < 0.5, timers=rng.random() < 0.4)
            if outs["mode"] == "none" and not outs["chk"]:
                outs["reg"] = True
            fl = []
            for _ in range(nf):
                k = rng.choice(["io_eio"] * 4 + ["io_short", "io_torn", "io_enospc"])
                cls = rng.choice(["open", "write", "write", "write", "close", "sync", "trunc", "rename", "read"]) if k == "io_eio" else rng.choice(["write", "read"]) if k == "io_short" else "write"
                fl.append([k, cls, round(rng.random(), 4), rng.randrange(2), rng.randrange(1, 100000)])
            out.append(dict(kind="output", prm=dict(cfg=c, nr=work.nranks(rng, c, (1, 2, 2, 3, 4)), sched=gen.sched(rng, 1), outs=outs, inject=fl, faults=[], extra=[], _lists=["inject"])))
        else:
            c = work.case(rng, 0, strata=[rng.choice(["fvtpf", "mpfao", "mpfao-wedge", "fvtpf-wedge"])], maxcells=16)
            c["final"] = gen.rnd(c["dt"]["init"] * 1.3, 5)
            what = [w for w in ("ic", "poro", "perm") if rng.random() < 0.5] or ["ic"]
            fl = []
            for _ in range(nf):
                k = rng.choice(["io_eio", "io_eio", "io_short", "missing", "truncated", "dataset", "size", "zeroed"])
                cls = rng.choice(["open", "read", "read", "close"]) if k == "io_eio" else "read"
                fl.append([k, cls, round(rng.random(), 4), rng.randrange(2), rng.randrange(1, 100000)])
            out.append(dict(kind="input", prm=dict(cfg=c, nr=work.nranks(rng, c, (1, 2, 2, 3, 4)), sched=gen.sched(rng, 1), what=what, inject=fl, faults=[], extra=[], aniso=rng.random() < 0.8, _lists=["inject"])))
    return out


def ended(r):
    """-> 'ok', 'error' or a description of how the run ended otherwise"""
    if r.ok:
        return "ok"
    if r.outcome == "done" or (r.outcome in ("deadlock", "premature-exit") and r.get("operr")):
        return "error"
    if r.outcome == "abort":
        return "error"
    return None


def inject(base, f):
    k, cls, frac, a, b = f
    if k == "io_enospc":
        n = base.j.get("io_bytes", 0)
        return ("io_enospc", "write", -1, int(frac * n), 0, 0) if n else None
    n = base.j["io"][cls]
    return (k, cls, -1, int(frac * n), a, b) if n else None


def profile(b):
    """what a timing profile has to have, whatever the times are"""
    l = b.decode("latin1").split("\n")
    return [x.split(",")[:3] if i else x for i, x in enumerate(l[:l.index("METADATA")] if "METADATA" in l else l)], l[l.index("METADATA"):] if "METADATA" in l else None


def compare(run, a, b, st):
    """files of run b against those of run a"""
    for f in sorted(a.files):
        if f.endswith(".tmp"):
            continue
        if f not in b.files:
            return "%s is missing" % f
    h = sorted(f for f in a.files if f.endswith(".h5"))
    for f in sorted(a.files):
        if f in h:
            continue
        if f.endswith(".csv"):
            if profile(a.files[f]) != profile(b.files[f]):
                return "%s is not complete (%d of %d bytes)" % (f, len(b.files[f]), len(a.files[f]))
        elif a.files[f] != b.files[f]:
            return "%s differs (%d of %d bytes)" % (f, len(b.files[f]), len(a.files[f]))
    h = [f for f in h if a.files[f] != b.files[f]]
    if h:
        (q, A), (p, B) = p08.listing(run, {f: a.files[f] for f in h}), p08.listing(run, {f: b.files[f] for f in h})
        if not q.ok or not p.ok:
            return "a file cannot be read: %s" % why(p)
        for f in h:
            if not B[f]["opened"] or B[f]["unreadable"] or not B[f]["complete"]:
                return "%s cannot be read" % f
            if sorted(A[f]["data"]) != sorted(B[f]["data"]):
                return "%s lacks data sets: %s" % (f, sorted(set(A[f]["data"]) - set(B[f]["data"])))
            for d in A[f]["data"]:
                if not same(A[f]["data"][d], B[f]["data"][d]):
                    return "%s: data set %s differs" % (f, d)
            if sorted(A[f]["attr"]) != sorted(B[f]["attr"]):
                return "%s: attributes differ" % f
    return None


def where(r):
    w = [v for _, v in r.get("operr.what")] if False else r.get("operr.what")
    return w[0] if w else "?"


@oracle("output")
def output(prm, run):
    c, o = prm["cfg"], prm["outs"]
    st = c["stratum"]
    body, opts = [], list(prm["extra"])
    if o["mode"] != "none":
        body.append("iomode " + o["mode"])
        opts.append("-output_timestep_interval 1")
    if o["chk"]:
        opts += ["-enable_checkpoint", "-checkpoint_timestep_interval 1"]
    if o["reg"]:
        opts += ["-tdy_regression_test", "-tdy_regression_test_filename reg", "-tdy_regression_test_num_cells_per_process 2"]
    body += ["run final", "observe e"]
    if o["reg"]:
        body.append("regression")
    begin = gen.start(c)
    if o["timers"]:
        opts.append("-tdy_timers")
    s = work.build(c, prm["nr"], body, prm["sched"], extra=opts, begin=begin)
    s.keep = ["*.h5", "*.txt", "*.xmf", "*.regression", "*.csv"]
    base = run(s)
    if not base.ok:
        if work.solver_failure(base) or work.slow(base):
            raise Discard("solver gave up: " + why(base))
        return [("a run with output fails although no file error occurs (%s)" % st, why(base))]
    hit = 0
    for f in prm["inject"]:
        flt = inject(base, f)
        if not flt:
            continue
        t = s.copy()
        t.fault(*flt)
        r = run(t)
        if not sum(r.j["fired"].values()):
            continue
        hit += 1
        run.info["%s at %s" % (f[0], f[1])] = run.info.get("%s at %s" % (f[0], f[1]), 0) + 1
        e = ended(r)
        what = "%s at %s %d of %d" % (f[0], f[1], flt[3], base.j["io"].get(f[1], 0))
        if e is None and r.outcome in ("mpi-misuse", "deadlock") and "[inside HDF5]" in r.msg:
            # HDF5 itself: processes part when one of them cannot write (H5FD_mpio: end of file and flush)
            run.info["HDF5 disagrees with itself"] = run.info.get("HDF5 disagrees with itself", 0) + 1
            continue
        if e is None:
            return [("a file error while writing ends in a %s" % r.outcome, "%s: %s" % (what, why(r)))]
        if e == "ok":
            m = compare(run, base, r, st)
            if m:
                return [("a run reports success although its output is incomplete", "%s: %s" % (what, m))]
            if r.get("e.soln") and not all(same(x[1], y[1]) for x, y in zip([base.field("e.soln")], [r.field("e.soln")])):
                return [("a file error changes the result of a run that reports success", what)]
            run.info["harmless"] = run.info.get("harmless", 0) + 1
        else:
            run.info["reported as an error"] = run.info.get("reported as an error", 0) + 1
    if not hit:
        raise Discard("no fault took place")
    return []


@oracle("input")
def input_(prm, run):
    c = prm["cfg"]
    st = c["stratum"]
    files, opts, drop = {}, list(prm["extra"]), []

    def made(cfg):
        b = []
        if "ic" in prm["what"]:
            b.append("writefield ic.h5 IC ic ic w")
        if "poro" in prm["what"]:
            b.append("writefield poro.h5 Porosity poro poro w")
        if "perm" in prm["what"]:
            for i, x in enumerate("XYZ" if prm["aniso"] else [""]):
                k = "k" + (x.lower() or "x")
                b.append("writefield perm.h5 Permeability%s %s %s %s" % (x, k if k in cfg["fields"] else "kx", k if k in cfg["fields"] else "kx", "a" if i else "w"))
        w = work.build(cfg, 1, b, dict(seed=1))
        w.keep = ["*.h5"]
        q = run(w)
        return q.files if q.ok else None
    files = made(c)
    if files is None:
        raise Discard("no input files")
    other = None
    if "ic" in prm["what"]:
        opts.append("-ic_file ic.h5")
        drop.append("ic")
    if "poro" in prm["what"]:
        opts.append("-init_porosity_file poro.h5")
        drop.append("poro")
    if "perm" in prm["what"]:
        opts.append("-init_permeability_file perm.h5")
        drop += ["kx", "ky", "kz"]
        if prm["aniso"]:
            opts.append("-anisotropic_perm")
    c2 = dict(c, fields={k: v for k, v in c["fields"].items() if k not in drop})
    s = work.build(c2, prm["nr"], ["observe a", "residual r %r" % c["dt"]["init"], "run final", "observe e"], prm["sched"], extra=opts)
    s.files = dict(files)
    base = run(s)
    if not base.ok:
        if work.solver_failure(base) or work.slow(base):
            raise Discard("solver gave up: " + why(base))
        return [("a run with input files fails although no file error occurs (%s)" % st, why(base))]
    hit = 0
    for f in prm["inject"]:
        t = s.copy()
        t.files = dict(files)
        name = sorted(files)[f[4] % len(files)]
        must = False
        if f[0].startswith("io_"):
            flt = inject(base, f)
            if not flt:
                continue
            t.fault(*flt)
            what = "%s at %s %d of %d" % (f[0], f[1], flt[3], base.j["io"].get(f[1], 0))
        elif f[0] == "missing":
            del t.files[name]
            what, must = name + " is missing", True
        elif f[0] == "truncated":
            k = int(f[2] * len(files[name]))
            t.files[name] = files[name][:k]
            what = "%s ends after %d of %d bytes" % (name, k, len(files[name]))
        elif f[0] == "zeroed":
            t.files[name] = b"\0" * len(files[name])
            what, must = name + " holds zeros", True
        elif f[0] == "dataset":
            t.opt({"ic.h5": "-ic_dataset absent", "poro.h5": "-porosity_dataset absent", "perm.h5": "-permeability_dataset absent"}[name])
            what, must = name + " has no such data set", True
        else:
            m = dict(c["mesh"], n=[n + 1 if i == f[4] % 3 else n for i, n in enumerate(c["mesh"]["n"])])
            other = made(dict(c, mesh=m))
            if other is None:
                continue
            t.files[name] = other[name]
            what, must = name + " belongs to a mesh of another size", True
        r = run(t)
        if f[0].startswith("io_") and not sum(r.j["fired"].values()):
            continue
        hit += 1
        run.info[f[0]] = run.info.get(f[0], 0) + 1
        e = ended(r)
        if e is None:
            if work.slow(r):
                return [("a run goes on with an input it could not read", "%s: %s" % (what, why(r)))]
            return [("a file error while reading ends in a %s" % r.outcome, "%s: %s" % (what, why(r)))]
        if e == "error":
            if r.get("r.R") and r.ok is False and not any("HDF5" in x or "h5" in x or "ile" in x or "size" in x for _, x in r.errors()):
                if not same(base.field("a.soln")[1], r.field("a.soln")[1]) or not same(base.field("r.R")[1], r.field("r.R")[1]):
                    return [("a run goes on with an input it could not read", "%s: %s" % (what, why(r)))]
            run.info["reported as an error"] = run.info.get("reported as an error", 0) + 1
            continue
        if must:
            return [("an input that cannot be read is not reported", what)]
        for k in ("a.soln", "r.R", "e.soln"):
            if not same(base.field(k)[1], r.field(k)[1]):
                return [("a run reports success although its input was not read completely", "%s: %s differs" % (what, k))]
        run.info["harmless"] = run.info.get("harmless", 0) + 1
    if not hit:
        raise Discard("no fault took place")
    return []
