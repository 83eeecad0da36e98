"""P20: linear pressure fields are reproduced exactly; the steady systems do not depend on how they are computed."""
import copy
import numpy as np
import gen, work
from core import oracle, Discard, why

RULE = "a case counts when the system was assembled and solved (or the residual evaluated); gradients, tensors, meshes, quadratures and partitions are random"
ASSUMPTIONS = ["exactness is judged where the method promises it: WY with both quadratures and BDM with full quadrature on rectilinear meshes, MPFA_O on every mesh with planar faces",
               "the solver is GMRES with relative tolerance 1e-13"]
N = dict(quick=420, thorough=6000)


def grad(rng):
    return [gen.rnd(rng.uniform(-3, 3)) for _ in range(3)]


def fe_case(rng, exact):
    disc = rng.choice(["WY", "WY", "BDM"])
    dim = rng.choice([2, 3])
    c = work.fe(rng, disc=disc, linear=exact, dim=dim, amp=None if not exact else 0.0)
    if exact and rng.random() < 0.6:
        c["mesh"].update(amp=rng.choice([0.1, 0.2]), zonly=2)
    if disc == "BDM" and dim == 3 and not exact:
        c["mesh"]["amp"] = 0.0
    q = rng.choice([None, 0, 1])
    if exact and disc == "BDM" and q == 0:
        q = 1
    c["quad"] = q
    return c


def mpfa_case(rng):
    st = rng.choice(["mpfao", "mpfao", "mpfao-wedge", "mpfao-ts", "salinity", "th"])
    c = gen.config(rng, st, maxcells=48, mincells=4, source=False, bc="dirichlet" if st not in ("salinity", "th") else None, dens="constant")
    c["dens"] = "constant"
    f = c["fields"]
    f.pop("eforce", None)
    k = 10 ** rng.uniform(-12, -9)
    c["perm"] = "tensor"
    for d in "xyz":
        f["k" + d] = ["const", gen.rnd(k * rng.uniform(0.6, 2.0))]
    for d in ("xy", "xz", "yz"):
        f["k" + d] = ["const", gen.rnd(k * rng.uniform(-0.25, 0.25))]
    if rng.random() < 0.2:
        for d in ("xy", "xz", "yz"):
            f["k" + d] = ["const", 0.0]
    c["gravity"] = 0.0
    g = [gen.rnd(rng.uniform(-900, 900)) for _ in range(3)]
    b = c["mesh"]["box"]
    low = sum(min(g[d] * b[2 * d], g[d] * b[2 * d + 1]) for d in range(3))
    f["pbc"] = f["ic"] = f["u"] = ["lin", gen.rnd(101325.0 + 200.0 - low, 9)] + g
    f["udot"] = ["const", 0.0]
    if st in ("salinity", "th"):
        # the second unknown: uniform in a linear pressure, or linear in a uniform pressure
        two = ["const", gen.rnd(rng.uniform(0.3, 0.9))] if st == "salinity" else ["const", gen.rnd(rng.uniform(15, 35))]
        if rng.random() < 0.6:
            f["pbc"] = f["ic"] = f["u"] = ["const", f["u"][1]]
            k = (0.2 if st == "salinity" else 5.0) / max(b[1] - b[0], b[3] - b[2], b[5] - b[4])
            mid = [0.5 * (b[2 * d] + b[2 * d + 1]) for d in range(3)]
            gr = [gen.rnd(k * rng.uniform(-1, 1)) for _ in range(3)]
            two = ["lin", gen.rnd(two[1] - sum(gr[d] * mid[d] for d in range(3)), 9)] + gr
        f["ic1"] = f["u1"] = f["sbc" if st == "salinity" else "tbc"] = two
        f["udot1"] = ["const", 0.0]
        if st == "th":
            f["tk"] = ["const", gen.rnd(rng.uniform(0.5, 2.0))]
        else:
            f["diff"] = ["const", gen.rnd(10 ** rng.uniform(-7, -5))]
    return c


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        kind = ["exact", "mpfa", "exact", "same"][i % 4]
        c = mpfa_case(rng) if kind == "mpfa" else fe_case(rng, kind == "exact")
        nr = work.nranks(rng, c, (1, 2, 3, 4, 5)) if kind != "same" else work.nranks(rng, c)
        m = c["mesh"]["n"]
        out.append(dict(kind=kind, prm=dict(cfg=c, nr=nr, extra=rng.choice(gen.PARTITIONS) if nr > 1 else [], sched=gen.sched(rng))))
    return out


def cells(c):
    n = c["mesh"]["n"]
    return n[0] * n[1] * max(n[2], 1)


def body(c, solve=True):
    b = [] if c.get("quad") is None else ["quadrature %s %d" % (c["disc"], c["quad"])]
    return b + ["steady s"]


def tensor(c):
    f = c["fields"]
    g = lambda k: f[k][1] if k in f else 0.0
    K = np.array([[g("kx"), g("kxy"), g("kxz")], [g("kxy"), g("ky"), g("kyz")], [g("kxz"), g("kyz"), g("kz")]])
    return K


def solved(r):
    if r.outcome == "budget" and r.get("s.F", 0):
        raise Discard("the linear solver takes too many iterations")
    if not r.ok:
        return ("the steady system cannot be computed", why(r))
    q = r.get("s.ksp", 0)[0]
    if q[0] <= 0:
        raise Discard("linear solver did not converge")
    return None


@oracle("exact")
def exact(prm, run):
    c = prm["cfg"]
    dim = c["dim"]
    st = "%s %dd" % (c["disc"], dim)
    r = run(work.fe_scn(c, prm["nr"], body(c), prm["sched"], extra=prm["extra"]))
    e = solved(r)
    if e:
        return [("%s (%s)" % (e[0], st), e[1])]
    pts, P = r.field("s.p")
    p = (list(c["fields"]["pbc"][1:]) + [0.0] * 3)[:4]
    g = np.array(p[1:4] if dim == 3 else p[1:3] + [0.0])
    ex = p[0] + pts[:, :3] @ g
    b = c["mesh"]["box"]
    scale = abs(p[0]) + sum(abs(g[d]) * max(abs(b[2 * d]), abs(b[2 * d + 1])) for d in range(dim)) + 1e-3
    err = np.abs(P[:, 0] - ex)
    j = int(err.argmax())
    if not err[j] <= 1e-9 * scale:
        return [("a linear pressure is not reproduced (%s)" % st, "cell at (%g, %g, %g): %.12g instead of %.12g" % (*pts[j, :3], P[j, 0], ex[j]))]
    if c["disc"] == "BDM":
        u = -tensor(c) @ g
        n = 2 ** (dim - 1)
        tot = 0
        for rank in range(prm["nr"]):
            v = r.get("s.ufaces", rank)
            if not v:
                continue
            a = np.array(v[0]).reshape(-1, 10)
            tot += len(a)
            h = face_area(c, a, pts)
            want = (a[:, 3:6] @ u) * h / n
            d = np.abs(a[:, 6:6 + n] - want[:, None]).max(axis=1) if len(a) else np.zeros(0)
            lim = 1e-8 * (np.abs(u).max() + 1e-3) * (h.max() if len(a) else 0)
            if len(a) and not d.max() <= lim:
                k = int(d.argmax())
                return [("the flux of a linear pressure is not reproduced (%s)" % st, "face at (%g, %g, %g): %s instead of %.12g" % (*a[k, :3], a[k, 6:6 + n], want[k]))]
        m = c["mesh"]["n"]
        nf = sum((m[d] + 1) * cells(c) // m[d] for d in range(dim))
        if tot != nf:
            return [("faces are missing or owned twice (%s)" % st, "%d owned faces, the mesh has %d" % (tot, nf))]
    return []


def face_area(c, a, pts):
    """areas of the faces of a rectilinear grid: extents of the cells along the other directions"""
    dim = c["dim"]
    from refmodel import Grid
    ext = []
    for d in range(dim):
        n = c["mesh"]["n"][d]
        lo, hi = c["mesh"]["box"][2 * d:2 * d + 2]
        cs = sorted(pts[:, d])
        cs = cs[::len(cs) // n]
        L = [lo]
        for x in cs:
            L.append(2 * x - L[-1])
        ext.append(np.array(L))
    out = np.ones(len(a))
    for i, row in enumerate(a):
        for d in range(dim):
            if abs(row[3 + d]) < 0.5:
                k = int(np.searchsorted(ext[d], row[d])) - 1
                out[i] *= ext[d][k + 1] - ext[d][k]
    return out


def r_fields(c):
    return ["u", "u1"] if c["mode"] != "RICHARDS" else ["u"]


@oracle("mpfa")
def mpfa(prm, run):
    c = prm["cfg"]
    st = c["stratum"]
    f = c["fields"]
    b = ["observe o", "residual r 100.0", gen.field("u", ["rand", 102000.0, 500.0, 7])]
    if len(r_fields(c)) > 1:
        b.append(gen.field("u1", ["rand", 25.0 if st == "th" else 0.5, 5.0 if st == "th" else 0.2, 8]))
    b.append("residual x 100.0")
    r = run(gen.scn(c, prm["nr"], b, prm["sched"], extra=prm["extra"]))
    if not r.ok:
        return [("the residual cannot be computed (%s)" % st, why(r))]
    pts, R = r.field("r.R")
    _, X = r.field("x.R")
    for k in range(R.shape[1]):
        # round-off of pressures of 1e5, as large as the flow they cause with a slope of one per cell
        scale = np.abs(X[:, k]).max() * max(1.0, 1.1e5 / 500.0)
        e = np.abs(R[:, k])
        j = int(e.argmax())
        if not e[j] <= 1e-11 * scale:
            return [("flow of a linear pressure is not balanced (%s)" % st, "cell at (%g, %g, %g), equation %d: residual %.6g, other states give %.3g" % (*pts[j, :3], k, R[j, k], np.abs(X[:, k]).max()))]
    return []


@oracle("same")
def same(prm, run):
    """the same system on one process in the plain schedule and on several in a random one"""
    c = prm["cfg"]
    st = "%s %dd" % (c["disc"], c["dim"])
    rs = []
    for nr, sched, extra in ((1, gen.PLAIN, []), (prm["nr"], prm["sched"], prm["extra"])):
        b = body(c)
        # a second direction, for the symmetry of the operator
        r = run(work.fe_scn(c, nr, b + [gen.field("v", ["rand", 0.5, 1.0, 77]), "steady t"], sched, extra=extra))
        if r.outcome == "budget" and r.get("s.F", 0):
            raise Discard("the linear solver takes too many iterations")
        if not r.ok:
            return [("the steady system cannot be computed (%s)" % st, why(r))]
        rs.append(r)
    a, m = rs
    for key, what, tol in (("F", "right-hand side", 1e-12), ("KV", "operator", 1e-11), ("p", "solution", 1e-8)):
        if key == "p" and (a.get("s.ksp", 0)[0][0] <= 0 or m.get("s.ksp", 0)[0][0] <= 0):
            continue
        x, A = a.field("s." + key)
        y, B = m.field("s." + key)
        if A.shape != B.shape or not np.allclose(x, y, atol=1e-9):
            return [("the cells depend on the number of processes (%s)" % st, "%s: %s and %s" % (key, A.shape, B.shape))]
        s = np.abs(A).max() + 1e-30
        d = np.abs(A - B)
        if not d.max() <= tol * s:
            j = int(d.max(axis=1).argmax())
            return [("the %s depends on the number of processes (%s)" % (what, st), "cell at (%g, %g, %g): %.15g on one, %.15g on %d processes" % (*x[j, :3], A[j, 0], B[j, 0], prm["nr"]))]
    if c["disc"] == "WY":
        from refmodel import feval
        x, KV = m.field("s.KV")
        _, KW = m.field("t.KV")
        v = np.array([feval(c["fields"]["v"], p) for p in x])
        w = np.array([feval(["rand", 0.5, 1.0, 77], p) for p in x])
        l, q = float(w @ KV[:, 0]), float(v @ KW[:, 0])
        if abs(l - q) > 1e-10 * (np.abs(w) @ np.abs(KV[:, 0]) + np.abs(v) @ np.abs(KW[:, 0])):
            return [("the operator is not symmetric (%s)" % st, "%.15g and %.15g" % (l, q))]
        if not float(v @ KV[:, 0]) >= 0:
            return [("the operator is not positive (%s)" % st, "v.Kv = %.6g" % float(v @ KV[:, 0]))]
    return []
