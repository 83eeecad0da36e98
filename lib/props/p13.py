"""P13: per-cell data reaches the right cell, and vectors in natural order list the cells in one fixed order."""
import numpy as np
import gen, work
from core import oracle, Discard, why
from simlib import order
from util import same
from props import p08

RULE = "a case counts when all its runs (several partitions) finished and every route of the data was compared cell by cell"
ASSUMPTIONS = ["the natural number of a cell is its number in the mesh as created, before distribution",
               "porosity and permeability files are supported with one unknown per cell (RICHARDS)",
               "TDyGetInitialCondition returns the vector in global order, as documented"]
N = dict(quick=240, thorough=3600)
RICH = ["mpfao", "fvtpf", "mpfao-wedge", "fvtpf-wedge", "mpfao-ts", "transient"]


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        p = lambda c, k: dict(nr=work.nranks(rng, c, k), opt=rng.choice(gen.PARTITIONS), sched=gen.sched(rng, 1))
        if i % 3 == 0:
            c = work.case(rng, 0, strata=[rng.choice(RICH + ["salinity", "th"])], maxcells=30)
            out.append(dict(kind="vectors", prm=dict(cfg=c, part=p(c, (1, 2, 3, 4, 5, 6)), seed=rng.randrange(1, 10000), faults=[])))
        elif i % 24 == 2:
            c = work.case(rng, 0, strata=[rng.choice(["mpfao", "fvtpf", "fvtpf-wedge"])], maxcells=30)
            out.append(dict(kind="initfile", prm=dict(cfg=c, part=p(c, (1, 1, 2, 3, 4)), seed=rng.randrange(1, 10000), faults=[])))
        else:
            what = [w for w in ("ic", "poro", "perm") if rng.random() < 0.6] or ["ic"]
            st = rng.choice(RICH)
            if what == ["ic"] and rng.random() < 0.3:
                st = "salinity"
            c = work.case(rng, 0, strata=[st], maxcells=30)
            f = c["fields"]
            if "perm" in what:
                k = f["kx"][1]
                for x in "xyz":
                    f["k" + x] = ["logrand", gen.rnd(k * 10 ** rng.uniform(-0.5, 0.5)), 0.5, rng.randrange(1, 10000)]
                c["perm"] = "diag"
            f["poro"] = ["rand", 0.35, 0.1, rng.randrange(1, 10000)]
            names = {w: rng.choice([None, None, "My_" + w, "a/b_" + w if False else "x" + w]) for w in what}
            prm = dict(cfg=c, part=p(c, (1, 2, 3, 4, 5, 6)), what=what, names=names, together=rng.random() < 0.3, faults=[])
            if i % 24 == 1:
                prm["iso"] = True
                f["kx"] = ["logrand", f["kx"][1], 0.5, rng.randrange(1, 10000)]
                f.pop("ky", None), f.pop("kz", None)
                c["perm"] = "iso"
                prm["what"] = ["perm"]
            out.append(dict(kind="files", prm=prm))
    return out


def shrink(prm):
    import copy
    from core import default_shrink
    out = [d for d in default_shrink(prm) if work.cells(d["cfg"]) >= 2 * d["part"]["nr"]]
    for u in (dict(nr=1), dict(nr=2), dict(opt=[]), dict(sched=dict(seed=1))):
        d = copy.deepcopy(prm)
        d["part"].update(u)
        if d != prm and (u.get("nr", 0) < prm["part"]["nr"]):
            out.append(d)
    if len(prm.get("what", [])) > 1:
        for w in prm["what"]:
            d = copy.deepcopy(prm)
            d["what"].remove(w)
            out.append(d)
    return out


def ndof(c):
    return 1 if c["mode"] == "RICHARDS" else 2


@oracle("vectors")
def vectors(prm, run):
    c, p = prm["cfg"], prm["part"]
    st, nd = c["stratum"], ndof(c)
    ref = run.need(work.build(c, 1, ["natural n"], dict(seed=1)))
    rp = p08.positions(ref, "n", nd)
    if c["mode"] == "RICHARDS":
        rng = (95000.0, 9000.0)
    else:
        rng = (0.5, 0.4)
    body = ["natural n", "icraw %r %r %d" % (rng[0], rng[1], prm["seed"]), "geticraw", "observe a", "checkpoint"]
    if c["mode"] == "RICHARDS":
        body += ["residual r %r" % c["dt"]["init"], "diag d"]
        if not c["disc"].endswith("VAR"):
            body += ["iomode hdf5", "writevec"]
    else:
        body += ["residual r %r" % c["dt"]["init"], "diag d"]
    s = work.build(c, p["nr"], body, p["sched"], extra=p["opt"])
    s.keep = ["*.h5"]
    r = run(s)
    if not r.ok:
        return [("vectors in natural order cannot be used (%s)" % st, why(r))]
    pos = p08.positions(r, "n", nd)
    if not np.allclose(pos[:, :3], rp[:, :3], atol=1e-9):
        k = int(np.argmax(np.abs(pos[:, :3] - rp[:, :3]).max(axis=1)))
        return [("the natural order depends on the partition (%s)" % st, "%d processes: entry %d is the cell at %s, with one process the cell at %s" % (p["nr"], k, pos[k, :3], rp[k, :3]))]
    x = r.natural("icraw.set")
    i = order(pos)
    want = x.reshape(-1, nd)[i]
    bad = lambda what, got: [("%s does not have the values of the cells in natural order (%s)" % (what, st), "%d processes %s: %s" % (p["nr"], p["opt"], first(pos[i], want, got)))]
    for k, nm in (("a.soln", "the initial condition"), ("a.prev", "the initial condition (previous state)")):
        if not same(r.field(k)[1], want):
            return bad(nm, r.field(k)[1])
    g = r.natural("geticraw")
    if not same(np.sort(g), np.sort(x)):
        return [("the initial condition handed back is not the one set (%s)" % st, "")]
    f = [n for n in r.files if n.endswith("chk.h5")]
    q, L = p08.listing(run, r.files)
    v = L[f[0]]["data"].get("fields/IC", L[f[0]]["data"].get("IC")) if f else None
    if v is None or not same(np.asarray(v), x):
        return [("a checkpoint does not list the cells in natural order (%s)" % st, "%s" % (None if v is None else first(pos, x.reshape(-1, nd), np.asarray(v).reshape(-1, nd))))]
    if c["mode"] == "RICHARDS":
        pr = r.natural("d.pres")
        if not same(pr, x):
            return bad("the pressure handed back", pr[i].reshape(-1, 1))
        if "out.h5" in L:
            o = [v for k, v in L["out.h5"]["data"].items() if "cell_fields" in k and "Pressure" in k]
            if len(o) != 1 or not same(np.asarray(o[0]).reshape(-1), x):
                return [("an output file does not list the cells in natural order (%s)" % st, "%s" % sorted(L["out.h5"]["data"]))]
    # the state of each cell drives its own saturation and mass, whatever the partition
    a = run.need(work.build(c, 1, body[1:-2] if "writevec" in body else body[1:], dict(seed=1)))
    for k in ("d.sat", "d.mass"):
        if not np.allclose(r.natural(k), a.natural(k), rtol=1e-12, atol=0):
            return [("%s is not handed back in natural order (%s)" % ({"d.sat": "the saturation", "d.mass": "the liquid mass"}[k], st), "%d processes" % p["nr"])]
    run.info["natural-order vectors"] = run.info.get("natural-order vectors", 0) + 6
    return []


def first(pos, a, b):
    k = int(np.argmax(np.abs(np.asarray(a) - np.asarray(b)).reshape(len(a), -1).max(axis=1)))
    return "the cell at %s has %s instead of %s" % (np.round(pos[k, :3], 4), np.asarray(b)[k], np.asarray(a)[k])


@oracle("files")
def files(prm, run):
    c, p = prm["cfg"], prm["part"]
    st, nd = c["stratum"], ndof(c)
    f = c["fields"]
    b, opts, drop, new = [], list(p["opt"]), [], set()
    iso = prm.get("iso")
    nm = prm["names"]

    def put(file, dset, a, bb):
        file = "all.h5" if prm["together"] else file
        b.append("writefield %s %s %s %s %s" % (file, dset, a, bb, "a" if file in new else "w"))
        new.add(file)
        return file
    if "ic" in prm["what"]:
        d = nm.get("ic") or "IC"
        opts.append("-ic_file " + put("ic.h5", d, "ic", "ic1"))
        if nm.get("ic"):
            opts.append("-ic_dataset " + d)
        drop += ["ic", "ic1"]
    if "poro" in prm["what"]:
        d = nm.get("poro") or "Porosity"
        opts.append("-init_porosity_file " + put("poro.h5", d, "poro", "poro"))
        if nm.get("poro"):
            opts.append("-porosity_dataset " + d)
        drop.append("poro")
    if "perm" in prm["what"]:
        d = nm.get("perm") or "Permeability"
        for x in ([""] if iso else "XYZ"):
            k = "k" + (x.lower() or "x")
            k = k if k in f else "kx"
            o = put("perm.h5", d + x, k, k)
        opts.append("-init_permeability_file " + o)
        if not iso:
            opts.append("-anisotropic_perm")
        if nm.get("perm"):
            opts.append("-permeability_dataset " + d)
        drop += ["kx", "ky", "kz"]
    w = work.build(c, 1, b, dict(seed=1))
    w.keep = ["*.h5"]
    w = run.need(w)
    body = ["observe a", "residual r %r" % c["dt"]["init"]]
    if c["mode"] == "RICHARDS":
        body.append("diag d")
    a = run(work.build(c, p["nr"], body, p["sched"], extra=p["opt"]))
    if not a.ok:
        raise Discard(why(a))
    s = work.build(dict(c, fields={k: v for k, v in f.items() if k not in drop}), p["nr"], body, p["sched"], extra=opts)
    s.files = dict(w.files)
    r = run(s)
    if not r.ok:
        return [("per-cell data cannot be read from a file (%s)" % st, "%s on %d processes: %s" % (prm["what"], p["nr"], why(r)))]
    for k, what in (("a.soln", "initial condition"), ("a.prev", "initial condition (previous state)"), ("r.R", "porosity or permeability")):
        pos, x = a.field(k)
        _, y = r.field(k)
        if not same(x, y):
            return [("an isotropic permeability file is not applied cell by cell" if iso else "per-cell data from a file reaches the wrong cells: %s (%s)" % (what, st),
                     "%s on %d processes %s: %s of %s" % (prm["what"], p["nr"], p["opt"], k, first(pos, x, y)))]
    if c["mode"] == "RICHARDS":
        for k in ("d.sat", "d.mass"):
            if not same(a.natural(k), r.natural(k)):
                return [("per-cell data from a file reaches the wrong cells: %s (%s)" % (k, st), "%s on %d processes" % (prm["what"], p["nr"]))]
    run.info["files read"] = run.info.get("files read", 0) + len(w.files)
    return []


@oracle("initfile")
def initfile(prm, run):
    import random, struct
    c, p = prm["cfg"], prm["part"]
    st = c["stratum"]
    ref = run.need(work.build(c, 1, ["natural n"], dict(seed=1)))
    pos = p08.positions(ref, "n", 1)
    rng = random.Random(prm["seed"])
    x = np.array([95000.0 + 9000.0 * rng.random() for _ in range(len(pos))])
    s = work.build(dict(c, fields={k: v for k, v in c["fields"].items() if k != "ic"}), p["nr"], ["observe a"], p["sched"], extra=p["opt"] + ["-tdy_init_file init.vec"])
    s.files = {"init.vec": struct.pack(">ii", 1211214, len(x)) + x.astype(">f8").tobytes()}
    r = run(s)
    if not r.ok:
        return [("an initial condition cannot be read from a binary file (%s)" % st, why(r))]
    i = order(pos)
    for k in ("a.soln", "a.prev"):
        y = r.field(k)[1].reshape(-1)
        if not same(x[i], y):
            cls = "a binary initial condition is applied in an order that depends on the partition" if p["nr"] > 1 and same(np.sort(x), np.sort(y)) else "a binary initial condition reaches the wrong cells (%s)" % st
            return [(cls, "%d processes %s: %s of %s" % (p["nr"], p["opt"], k, first(pos[i], x[i], y)))]
    return []
