"""P14: a mesh read from a PFLOTRAN file is the mesh of the file, however it is distributed."""
import copy
import random
import numpy as np
import gen, work, pmesh
from core import oracle, Discard, why
from refmodel import Water, Curve, feval
from simlib import Scenario
from props import p07, p08

RULE = "a case counts when the run finished and the distributed mesh was compared entity by entity with the one computed from the file, or its flow with the reference and the one-process run"
ASSUMPTIONS = ["this kind of mesh is supported for RICHARDS with FV_TPF, with closed outer boundaries; its diagnostics are rejected with an error message",
               "all faces of the generated cells are planar; the centroid of a cell is the mean of its vertices, as documented in the code",
               "the partitioner needs at least as many cells as processes",
               "at most 24 cells meet in a vertex (documented limit, reported otherwise)"]
VARIANTS = ["std", "asan"]
N = dict(quick=700, thorough=12000)
RTOL = 1e-9
KINDS = ["hex", "wedge", "pyramid", "tet", "mixed"]


def mesh_prm(rng, small=False):
    kind = rng.choice(KINDS)
    big = dict(hex=60, wedge=30, pyramid=8, tet=12, mixed=16)[kind] // (2 if small else 1)
    while True:
        n = [rng.choice([1, 2, 2, 3, 4, 5]) for _ in range(3)]
        if 2 <= n[0] * n[1] * n[2] <= big:
            break
    return dict(n=n, kind=kind, seed=rng.randrange(1, 100000), map=rng.choice([0, 0.3, 0.6]), graded=rng.random() < 0.5,
                shuffle=rng.random() < 0.8, h=[gen.rnd(rng.uniform(0.5, 3.0), 3) for _ in range(3)])


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        m = mesh_prm(rng, i % 3 == 2)
        nc = len(pmesh.Mesh(m).C)
        nr = rng.choice([k for k in (1, 2, 3, 4, 5, 6) if k <= nc] or [1])
        prm = dict(mesh=m, nr=nr, dbl=rng.randrange(2), sched=gen.sched(rng), asan=rng.random() < 0.12)
        if i % 3 == 0:
            prm["faults"] = []
            if i % 12 == 3:
                prm["asan"] = False
                for _ in range(rng.choice([1, 2, 4])):
                    prm["faults"].append([rng.choice(["io_eio", "io_short", "io_short", "io_torn", "stall"]), "read", -1, rng.randrange(0, 40), rng.choice([1, 7, 100, 50000]), 100000])
                prm["_lists"] = ["faults"]
            out.append(dict(kind="file", prm=prm))
            continue
        if i % 12 == 2:
            prm["seed"] = rng.randrange(1, 10000)
            prm["nr2"] = rng.choice([k for k in (1, 2, 3, 4, 5) if k <= nc])
            out.append(dict(kind="natural", prm=prm))
            continue
        c = gen.config(rng, "fvtpf", maxcells=8, bc="neumann")
        c["fields"].pop("ptype", None)
        work.states(rng, c)
        work.easy(rng, c)
        prm["cfg"] = c
        prm["dt"] = gen.rnd(10 ** rng.uniform(0, 3), 3)
        if i % 3 == 1:
            prm["seeds"] = rng.randrange(1, 10000)
            out.append(dict(kind="residual", prm=prm))
        else:
            prm["driver"] = rng.random() < 0.5
            c["fields"]["ic"] = ["rand", 93000.0, 4000.0, rng.randrange(1, 10000)]  # room for the sources
            prm["mesh"]["h"] = [3 * x for x in prm["mesh"]["h"]]
            out.append(dict(kind="march", prm=prm))
    return out


def shrink(prm):
    out = []

    def v(**k):
        d = copy.deepcopy(prm)
        for a, b in k.items():
            if a in d["mesh"]:
                d["mesh"][a] = b
            else:
                d[a] = b
        if d != prm and len(pmesh.Mesh(d["mesh"]).C) >= 2 * d["nr"]:
            out.append(d)
    v(kind="hex")
    v(nr=1)
    v(nr=2)
    v(map=0)
    v(shuffle=False)
    v(graded=False)
    v(sched=dict(seed=1))
    v(dbl=0)
    for k in range(3):
        n = list(prm["mesh"]["n"])
        if n[k] > 1:
            n[k] -= 1
            v(n=n)
    if "cfg" in prm:
        for c in gen.simpler(prm["cfg"]):
            if c["mesh"] == prm["cfg"]["mesh"]:
                d = copy.deepcopy(prm)
                d["cfg"] = c
                out.append(d)
    return out


def start(prm, m, body, nr=None, sched=None, driver=False, end=True):
    c = prm.get("cfg")
    s = Scenario(nr or prm["nr"], 1)
    gen.apply_sched(s, prm["sched"] if sched is None else sched)
    s.files = {"mesh.txt": m.text(prm["dbl"])}
    s.opt("-malloc_debug no", "-tdy_read_pflotran_mesh mesh.h5")
    if c:
        s.opt(*gen.opts(c))
    s.op("init", "pflowrite mesh.txt mesh.h5", "create", "mode RICHARDS", "disc FV_TPF", "setfromoptions")
    if c:
        s.op(*gen.settings(c))
    else:
        s.op("permcst iso 1e-12", "porocst 0.25")
    s.op("driver" if driver else "setup")
    s.op(*body)
    if end:
        s.op("destroy", "finalize")
    return s


def variant(prm):
    return "asan" if prm.get("asan") else "std"


@oracle("file")
def file(prm, run):
    m = pmesh.Mesh(prm["mesh"])
    nr = prm["nr"]
    s = start(prm, m, ["pmesh g"])
    for f in prm["faults"]:
        s.fault(*f)
    r = run(s, variant(prm))
    if not r.ok and any(f[0] != "stall" for f in prm["faults"]):
        raise Discard("the file could not be read")  # how that is reported is P10's matter
    if not r.ok:
        return [("a mesh file cannot be used", "%d processes: %s" % (nr, why(r)))]
    bad = check_mesh(m, r, nr)
    run.info["processes without cells"] = run.info.get("processes without cells", 0) + sum(not any(r.get("g.pcells", q)[0].reshape(-1, 7)[:, 0]) for q in range(nr))
    run.info["cells compared"] = run.info.get("cells compared", 0) + len(m.C)
    run.info["connections compared"] = run.info.get("connections compared", 0) + len(m.con)
    run.info["cells of a %s mesh" % prm["mesh"]["kind"]] = run.info.get("cells of a %s mesh" % prm["mesh"]["kind"], 0) + len(m.C)
    return bad


def check_mesh(m, r, nr):
    nc = len(m.C)
    P = [r.get("g.pcells", q)[0].reshape(-1, 7) for q in range(nr)]
    G = [r.get("g.pfaces", q)[0].reshape(-1, 12) for q in range(nr)]
    size = float(np.ptp(m.V, axis=0).max())
    owner = {}
    off = 0
    for q in range(nr):
        p = P[q]
        loc = p[:, 0] > 0.5
        k = int(loc.sum())
        if not loc[:k].all():
            return [("the cells a process owns do not come first", "process %d" % q)]
        for i in range(k):
            nat = int(p[i, 1])
            if not 0 <= nat < nc:
                return [("a cell has a number that is not in the file", "process %d has a cell number %d" % (q, nat))]
            if nat in owner:
                return [("a cell belongs to two processes", "cell %d of the file belongs to the processes %d and %d" % (nat, owner[nat][0], q))]
            owner[nat] = (q, off + i)
        off += k
    if len(owner) != nc:
        return [("cells of the file are missing", "cell %d" % min(set(range(nc)) - set(owner)))]
    for q in range(nr):
        p = P[q]
        mine = {int(x[1]) for x in p if x[0] > 0.5}
        want = set().union(*[m.nb[a] for a in mine]) - mine if mine else set()
        ghosts = [int(x[1]) for x in p if x[0] < 0.5]
        if sorted(ghosts) != sorted(want):
            return [("the ghost cells are not the neighbours of the owned cells", "process %d has the ghosts %s, the file gives %s" % (q, sorted(ghosts), sorted(want)))]
        for x in p:
            nat = int(x[1])
            if int(x[2]) != owner[nat][1]:
                return [("a cell has different numbers on two processes", "process %d: cell %d of the file has the number %d instead of %d" % (q, nat, x[2], owner[nat][1]))]
            if not np.allclose(x[3:6], m.cen[nat], rtol=0, atol=RTOL * size):
                return [("the centroid of a cell is not the one of the file", "cell %d (%d vertices): %s instead of %s" % (nat, len(m.C[nat]), x[3:6], m.cen[nat]))]
            if not abs(x[6] - m.vol[nat]) <= RTOL * m.vol[nat]:
                return [("the volume of a cell is not the one of the file", "cell %d (%d vertices): %r instead of %r" % (nat, len(m.C[nat]), float(x[6]), float(m.vol[nat])))]
        seen = set()
        for g in G[q]:
            i, j = int(g[0]), int(g[1])
            if not (0 <= i < len(p) and 0 <= j < len(p)):
                return [("a connection names a cell that does not exist", "process %d: cells %d and %d of %d" % (q, i, j, len(p)))]
            a, b = int(p[i, 1]), int(p[j, 1])
            k = frozenset((a, b))
            if k not in m.con:
                return [("a connection joins cells that share no face", "cells %d and %d of the file" % (a, b))]
            if k in seen:
                return [("a connection is listed twice", "cells %d and %d of the file" % (a, b))]
            seen.add(k)
            if not (p[i, 0] or p[j, 0]):
                return [("a connection joins two ghost cells", "cells %d and %d of the file" % (a, b))]
            e = m.con[k]
            fwd = e["a"] == a
            da, db = (e["da"], e["db"]) if fwd else (e["db"], e["da"])
            u = e["u"] if fwd else -e["u"]
            L = da + db
            for nm, got, exp, sc in (("area", g[2], e["area"], e["area"]), ("projected area", g[3], e["proj"], e["area"]), ("distance of the first cell", g[4], da, L),
                                     ("distance of the second cell", g[5], db, L), ("distance weight", g[6], da / L, 1.0), ("distance", g[11], L, L)):
                if not abs(got - exp) <= 1e-8 * sc:
                    return [("the %s of a connection is not the one of the file" % nm, "cells %d and %d: %r instead of %r" % (a, b, float(got), float(exp)))]
            if not np.allclose(g[7:10], u, rtol=0, atol=1e-9):
                return [("the direction of a connection is not the one of the file", "cells %d and %d: %s instead of %s" % (a, b, g[7:10], u))]
            if not g[10]:
                return [("a connection between two cells counts as boundary", "cells %d and %d" % (a, b))]
        want = {k for k in m.con if k & mine}
        if seen != want:
            return [("a connection is missing", "process %d: the cells %s" % (q, sorted(min(want - seen, key=sorted))))]
    return []


class Flow:
    """residual on the connections of the file"""

    def __init__(self, c, m):
        self.c, self.m, self.f = c, m, c["fields"]
        self.w, self.cc = Water(c.get("dens")), Curve(c.get("m", 0.8), c.get("alpha", 1e-4))
        self.g = c["gravity"] if c.get("gravity") is not None else 9.8068

    def val(self, name, x, default=0.0):
        return feval(self.f[name], x) if name in self.f else default

    def kdir(self, x, u):
        K = [self.val("kx" if self.c["perm"] == "iso" else "k" + d, x) for d in "xyz"]
        return 1.0 / sum(u[d] ** 2 / K[d] for d in range(3))

    def residual(self, X, U, prev, dt):
        """X: the positions the code uses, by number in the file"""
        n = len(X)
        R, S = np.zeros(n), np.zeros(n)
        cc, w = self.cc, self.w
        for e in self.m.con.values():
            a, b = e["a"], e["b"]
            ka, kb = self.kdir(X[a], e["u"]), self.kdir(X[b], e["u"])
            T = e["proj"] / (e["da"] / ka + e["db"] / kb)
            ra, rb = w.rho(U[a]), w.rho(U[b])
            rm = (e["db"] * ra + e["da"] * rb) / (e["da"] + e["db"])
            gr = rm * self.g * (X[b][2] - X[a][2])
            dphi = U[a] - U[b] - gr
            kra, krb = cc.kr(cc.se(U[a])), cc.kr(cc.se(U[b]))
            k = kra if dphi >= 0 else krb
            q = rm * T * k / w.mu * dphi
            R[a] += q
            R[b] -= q
            sc = rm * T * k / w.mu * (abs(U[a]) + abs(U[b]) + abs(gr))
            if k < 1.01e-8:  # mobilities below this are taken as zero
                sc += abs(q) * 1.1e10
            if abs(dphi) < 1e-7 * (abs(U[a]) + abs(gr)):  # which side is upstream is a matter of rounding
                sc += abs(q) * 1e10 * abs(kra - krb) / max(k, 1e-300)
            S[a] += sc
            S[b] += sc
        for i in range(n):
            v = self.m.vol[i]
            st = lambda p: w.rho(p) * self.val("poro", X[i]) * cc.s(p, self.val("sr", X[i], 0.15)) * v / dt
            a, b, f = st(U[i]), st(prev[i]), self.val("force", X[i]) * v
            R[i] += a - b - f
            S[i] += abs(a) + abs(b) + abs(f)
        return R, S


def bynat(m, r, key, nth=0):
    """values by number in the file, through the positions of the cells"""
    pts, v = r.field(key, nth)
    d = ((pts[:, None, :3] - m.cen[None, :, :]) ** 2).sum(axis=2)
    j = d.argmin(axis=1)
    if sorted(j) != list(range(len(m.C))):
        return None, None
    X, out = np.empty((len(j), 3)), np.empty(len(j))
    X[j], out[j] = pts[:, :3], v[:, 0]
    return X, out


@oracle("residual")
def residual(prm, run):
    c, nr = prm["cfg"], prm["nr"]
    m = pmesh.Mesh(prm["mesh"])
    rng = random.Random(prm["seeds"])
    body = ["manual_snes", "ic", "observe a", "residual r %r" % prm["dt"]] + ["jac %s %r %r 0" % (k, prm["dt"], h) for k, h in (("j", 4.0), ("k", 2.0), ("l", 0.25))]
    r = run(start(prm, m, body), variant(prm))
    if not r.ok:
        return [("the equations cannot be evaluated on a mesh from a file", "%d processes: %s" % (nr, why(r)))]
    X, U = bynat(m, r, "r.U")
    if U is None:
        return [("the cells are not those of the file", "")]
    R = bynat(m, r, "r.R")[1]
    prev = bynat(m, r, "a.prev")[1]
    ref, S = Flow(c, m).residual(X, U, prev, prm["dt"])
    err = np.abs(R - ref)
    run.info["residual entries compared"] = run.info.get("residual entries compared", 0) + len(R)
    if not np.all(err <= RTOL * S):
        k = int(np.argmax(err / S))
        return [("the residual is not the one of the mesh in the file", "%d processes, cell %d: %r instead of %r" % (nr, k, float(R[k]), float(ref[k])))]
    pts, JV = r.field("j.JV")
    bad = p07.check(pts, JV, r.field("j.FD")[1], r.field("k.FD")[1], r.field("l.FD")[1])
    if bad:
        return [("the Jacobian is not the derivative of the residual on a mesh from a file", bad[0])]
    if nr > 1:
        a = run.need(start(prm, m, body, 1, dict(seed=1)))
        for k in ("j.JV",):
            u, v = bynat(m, r, k)[1], bynat(m, a, k)[1]
            if u is not None and v is not None and not np.allclose(u, v, rtol=1e-8, atol=1e-9 * np.abs(v).max()):
                return [("the derivative depends on the partition", "%d processes" % nr)]
    return []


@oracle("march")
def march(prm, run):
    c, nr = prm["cfg"], prm["nr"]
    m = pmesh.Mesh(prm["mesh"])
    ini = c["dt"]["init"]
    body = ["ic", "observe a", "run final", "observe e"] if prm["driver"] else ["manual_snes", "ic", "observe a", "manual_run 3 %r" % ini, "observe e"]
    a = run(start(prm, m, body, 1, dict(seed=1), driver=prm["driver"]))
    b = run(start(prm, m, body, driver=prm["driver"]), variant(prm))
    for r, k in ((a, 1), (b, nr)):
        if not r.ok and not work.solver_failure(r):
            return [("a simulation on a mesh from a file does not finish", "%d processes: %s" % (k, why(r)))]
    if not a.ok or not b.ok:
        raise Discard("solver failed")
    ua, ub = bynat(m, a, "e.soln")[1], bynat(m, b, "e.soln")[1]
    if ua is None or ub is None:
        return [("the cells are not those of the file", "")]
    u0 = bynat(m, a, "a.soln")[1]
    if not np.allclose(ua, ub, rtol=0, atol=1e-5 * max(1.0, float(np.abs(ua - u0).max())) + 1e-8 * 101325):
        k = int(np.argmax(np.abs(ua - ub)))
        return [("the solution on a mesh from a file depends on the partition", "cell %d: %r with 1 process, %r with %d" % (k, ua[k], ub[k], nr))]
    # what is in the ground changes by what the sources give
    f = Flow(c, m)
    X = bynat(m, a, "e.soln")[0]
    mass = lambda U: np.array([f.w.rho(U[i]) * f.val("poro", X[i]) * f.cc.s(U[i], f.val("sr", X[i], 0.15)) * m.vol[i] for i in range(len(U))])
    src = sum(f.val("force", X[i]) * m.vol[i] for i in range(len(X)))
    T = 3 * ini if not prm["driver"] else float(a.get("e.time", 0)[0][0])
    for U, k in ((ua, 1), (ub, nr)):
        d = mass(U).sum() - mass(u0).sum()
        scale = np.abs(mass(U) - mass(u0)).sum() + sum(abs(f.val("force", X[i])) * m.vol[i] for i in range(len(X))) * T
        if abs(d - src * T) > 2e-5 * scale + 1e-9 * mass(u0).sum():
            return [("water is not conserved on a mesh from a file", "%d processes: the stored mass changes by %r, the sources give %r" % (k, float(d), float(src * T)))]
    run.info["simulations compared"] = run.info.get("simulations compared", 0) + 1
    return []


@oracle("natural")
def natural(prm, run):
    """vectors in natural order list the cells in the order of the file; checkpoints too, and they can be read with any number of processes"""
    m = pmesh.Mesh(prm["mesh"])
    nr = prm["nr"]
    s = start(prm, m, ["natural n", "icraw 95000 4000 %d" % prm["seed"], "observe a", "checkpoint"], driver=True)
    s.keep = ["*.h5"]
    r = run(s, variant(prm))
    if not r.ok:
        return [("vectors in natural order cannot be used with a mesh from a file", "%d processes: %s" % (nr, why(r)))]
    pos = p08.positions(r, "n", 1)
    if pos.shape[0] != len(m.C) or not np.allclose(pos[:, :3], m.cen, rtol=0, atol=1e-9):
        return [("the natural order is not the order of the file", "%d processes" % nr)]
    x = r.natural("icraw.set")
    got = bynat(m, r, "a.soln")[1]
    if got is None or not np.array_equal(got, x):
        return [("the initial condition does not have the values in the order of the file", "%d processes" % nr)]
    f = [n for n in r.files if n.endswith("chk.h5")]
    q, L = p08.listing(run, {k: r.files[k] for k in f})
    v = L[f[0]]["data"].get("fields/IC", L[f[0]]["data"].get("IC")) if f else None
    if v is None or not np.array_equal(np.asarray(v), x):
        return [("a checkpoint does not list the cells in the order of the file", "%d processes" % nr)]
    t = start(prm, m, ["observe a"], prm["nr2"], driver=True)
    t.files["ic.h5"] = r.files[f[0]]
    t.opt("-ic_file ic.h5", "-ic_dataset " + ("fields/IC" if "fields/IC" in L[f[0]]["data"] else "IC"))
    q = run(t)
    if not q.ok:
        return [("a checkpoint cannot be read with a mesh from a file", "%d processes: %s" % (prm["nr2"], why(q)))]
    for k in ("a.soln", "a.prev"):
        got = bynat(m, q, k)[1]
        if got is None or not np.array_equal(got, x):
            return [("a checkpoint read with a mesh from a file gives another state", "written by %d processes, read by %d" % (nr, prm["nr2"]))]
    run.info["natural-order vectors"] = run.info.get("natural-order vectors", 0) + 3
    return []
