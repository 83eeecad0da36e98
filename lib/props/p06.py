"""P06: the assembled residual equals the balance computed by the reference model."""
import copy
import numpy as np
import gen
import work
from core import oracle, Discard
from refmodel import Grid

STRATA = ["fvtpf", "mpfao", "mpfao-ts", "transient"]
RTOL = 1e-10
ASSUMPTIONS = ["the reference model covers RICHARDS, TH (without gravity) and SALINITY on rectilinear grids (uniform and graded) with isotropic or diagonal permeability; other modes, "
               "meshes and tensors are covered by P02, P05, P07, P19, P20",
               "source terms are per unit volume and time on every path"]
STATES = [["rand", 101325.0, 6000.0], ["rand", 95000.0, 4000.0], ["rand", 106000.0, 3000.0], ["lin", 104000.3, 300.0, -500.0, -2500.0],
          ["rand", 101325.0, 300.0], ["rand", 60000.0, 20000.0]]


def cases(rng, tier):
    n = 900 if tier == "quick" else 8000
    out = []
    bcs = ["dirichlet", "neumann", "seepage"]
    for i in range(n):
        st = STRATA[i % 4]
        bc = rng.choice(bcs)
        nr = rng.choice([1, 2, 3, 4, 2, 5])
        c = gen.config(rng, st, maxcells=30, distort=False, bc=bc, mincells=max(4, 2 * nr), dens=rng.choice(["constant", "exponential"]))
        if rng.random() < 0.6:  # grid lines at unequal distances
            c["mesh"].update(amp=rng.choice([0.1, 0.2, 0.3]), zonly=2)
        kind = i % 5
        if st == "fvtpf" and rng.random() < 0.5:
            b = c["mesh"]["box"]
            d = rng.randrange(3)
            t = rng.sample([0, 1, 2], 2)
            c["fields"]["ptype"] = ["side", d, 0.5 * (b[2 * d] + b[2 * d + 1]) + 0.01, t[0], t[1]]
            c["fields"].setdefault("pbc", ["hydro", 101325.0, gen.rnd(9800 * rng.uniform(0.6, 1.2)), gen.rnd(0.5 * (b[4] + b[5]))])
        s = lambda: rng.randrange(1, 10000)
        u = rng.choice(STATES)
        c["fields"]["u"] = u + [s()] if u[0] == "rand" else u
        c["fields"]["udot"] = ["rand", 0.0, gen.rnd(10 ** rng.uniform(-2, 1)), s()]
        if bc != "neumann" and rng.random() < 0.3:
            c["fields"]["pbc"] = ["rand", 101325.0, 5000.0, s()]
        if bc == "dirichlet" and rng.random() < 0.15:
            c["fields"].pop("pbc", None)
        if i % 9 == 8:
            out.append(two_unknowns(rng))
            continue
        if i % 18 == 7:
            out.append(mixed(rng))
            continue
        out.append(dict(kind="steps" if kind == 4 and c["ti"] == "SNES" else "residual",
                        prm=dict(cfg=c, nr=nr, sched=gen.sched(rng), extra=rng.choice(gen.PARTITIONS) if nr > 1 else [], dt=gen.rnd(10 ** rng.uniform(-1, 3), 3))))
    return out


def two_unknowns(rng):
    st = rng.choice(["th", "salinity"])
    nr = rng.choice([1, 2, 3, 4])
    c = gen.config(rng, st, maxcells=24, distort=False, mincells=max(4, 2 * nr))
    if rng.random() < 0.6:
        c["mesh"].update(amp=rng.choice([0.1, 0.2, 0.3]), zonly=2)
    s = lambda: rng.randrange(1, 10000)
    f = c["fields"]
    th = st == "th"
    f["u"] = rng.choice(STATES)
    f["u"] = f["u"] + [s()] if f["u"][0] == "rand" else f["u"]
    f["u1"] = ["rand", 25.0, 9.0, s()] if th else ["rand", 0.6, 0.5, s()]
    c["bc"] = rng.choice(["none", "dirichlet", "neumann"])
    if c["bc"] != "neumann" and rng.random() < 0.7:
        f["pbc"] = ["rand", 101325.0, 5000.0, s()]
    if c["bc"] != "neumann" and rng.random() < 0.7:
        f["tbc" if th else "sbc"] = ["rand", 25.0, 9.0, s()] if th else ["rand", 0.6, 0.5, s()]
    if rng.random() < 0.5:
        f["force"] = ["rand", 0.0, gen.rnd(10 ** rng.uniform(-4, -2)), s()]
    if th:
        c["gravity"] = 0.0  # TH runs have no gravity (P19)
        f["udot"] = ["const", 0.0] if rng.random() < 0.6 else ["rand", 0.0, 2.0, s()]
        f["udot1"] = ["rand", 0.0, 1.0, s()]
    else:
        if rng.random() < 0.5:
            f["diff"] = ["logrand", 1e-6, 0.5, s()]
        if rng.random() < 0.3:
            f["mw"] = ["rand", 58.0, 20.0, s()]
    return dict(kind="two", prm=dict(cfg=c, nr=nr, sched=gen.sched(rng), extra=rng.choice(gen.PARTITIONS) if nr > 1 else [], dt=gen.rnd(10 ** rng.uniform(-1, 3), 3)))


def mixed(rng):
    """the transient residual of the mixed finite element method (diagonal permeability: a two-point flux)"""
    c = work.fe(rng, disc="WY", dim=rng.choice([2, 3]), amp=0.0, maxn=4)
    f = c["fields"]
    s = lambda: rng.randrange(1, 10000)
    if rng.random() < 0.6:
        c["mesh"].update(amp=rng.choice([0.1, 0.2, 0.3]), zonly=2)
    k = 10 ** rng.uniform(-2, 1)
    for d in "xyz":
        f["k" + d] = ["logrand", gen.rnd(k * 10 ** rng.uniform(-0.5, 0.5)), 0.4, s()]
    for d in ("xy", "xz", "yz"):
        f["k" + d] = ["const", 0.0]
    c["m"], c["alpha"] = gen.rnd(rng.uniform(0.35, 0.8), 3), gen.rnd(10 ** rng.uniform(-4.3, -3.7), 3)
    c["opts"] = ["-tdy_vangenuchten_param_m %r" % c["m"], "-tdy_vangenuchten_param_alpha %r" % c["alpha"]]
    u = rng.choice(STATES)
    f["u"] = u + [s()] if u[0] == "rand" else u
    f["pbc"] = rng.choice([["rand", 101325.0, 5000.0, s()], ["lin", 100000.0, 500.0, -300.0, 200.0]])
    f["force"] = ["lin"] + [gen.rnd(rng.uniform(-2, 2)) for _ in range(4)]
    f["poro"] = ["rand", gen.rnd(rng.uniform(0.2, 0.5)), 0.1, s()]
    f["sr"] = ["rand", 0.15, 0.05, s()]
    f["udot"] = ["rand", 0.0, gen.rnd(10 ** rng.uniform(2, 5)), s()]
    nr = work.nranks(rng, c, (1, 2, 3, 4))
    return dict(kind="wy", prm=dict(cfg=c, nr=nr, sched=gen.sched(rng), extra=rng.choice(gen.PARTITIONS) if nr > 1 else []))


def compare(pts, U, prev, R, G, dt=None, udot=None, tol=RTOL):
    E, S, kink = G.residual(pts, U[:, 0], None if prev is None else prev[:, 0], dt, None if udot is None else udot)
    if kink:
        raise Discard("upwind direction undecided by round-off")
    err = np.abs(R[:, 0] - E)
    k = int(np.argmax(err / (S + 1e-300)))
    if not np.all(err <= tol * S):
        return "cell at (%g, %g, %g): residual %.12g, reference %.12g (scale %.3g)" % (*pts[k, :3], R[k, 0], E[k], S[k])
    return None


@oracle("residual")
def residual(prm, run):
    c = prm["cfg"]
    G = Grid(c)
    body = ["observe o", "residual r %r" % prm["dt"]]
    s = gen.scn(c, prm["nr"], body, prm["sched"], extra=prm.get("extra") or [])
    r = run(s)
    if not r.ok:
        from core import why
        return [("residual not computed", why(r))]
    pts, U = r.field("r.U")
    _, R = r.field("r.R")
    _, prev = r.field("o.prev")
    ud = None
    if c["ti"] == "TS":
        from refmodel import feval
        ud = np.array([feval(c["fields"]["udot"], p) for p in pts])
    m = compare(pts, U, prev, R, G, prm["dt"], ud)
    return [("residual differs from the reference balance (%s, %s)" % (c["stratum"], c["bc"] if "ptype" not in c["fields"] else "mixed"), m)] if m else []


@oracle("two")
def two(prm, run):
    c = prm["cfg"]
    G = Grid(c)
    body = ["observe o", "residual r %r" % prm["dt"]]
    r = run(gen.scn(c, prm["nr"], body, prm["sched"], extra=prm.get("extra") or []))
    if not r.ok:
        from core import why
        return [("residual not computed", why(r))]
    pts, U = r.field("r.U")
    _, R = r.field("r.R")
    _, prev = r.field("o.prev")
    ud = None
    if c["mode"] == "TH":
        from refmodel import feval
        ud = np.array([[feval(c["fields"][k], p) for k in ("udot", "udot1")] for p in pts])
    E, S, kink = G.residual2(pts, U, prev, prm["dt"], ud)
    if kink:
        raise Discard("upwind direction undecided by round-off")
    eqs = [0, 1]
    if c["mode"] == "TH" and c["fields"]["udot"] != ["const", 0.0]:
        eqs = [0]  # the storage of energy under changing pressure is the known finding of P05
    for k in eqs:
        err = np.abs(R[:, k] - E[:, k])
        j = int(np.argmax(err / (S[:, k] + 1e-300)))
        if not np.all(err <= RTOL * S[:, k]):
            return [("residual differs from the reference balance (%s, %s, equation %d)" % (c["stratum"], c["bc"], k),
                     "cell at (%g, %g, %g): residual %.12g, reference %.12g (scale %.3g)" % (*pts[j, :3], R[j, k], E[j, k], S[j, k]))]
    return []


@oracle("wy")
def wy(prm, run):
    from core import why
    from refmodel import feval
    c = prm["cfg"]
    G = Grid(c)
    dim = c["dim"]
    body = ["residual r 1.0", gen.field("udot", ["const", 0.0]), "residual s 1.0"]
    r = run(work.fe_scn(c, prm["nr"], body, prm["sched"], extra=prm.get("extra") or []))
    if not r.ok:
        return [("residual not computed", why(r))]
    pts, U = r.field("s.U")
    _, R = r.field("s.R")
    _, Rd = r.field("r.R")
    ud = np.array([feval(c["fields"]["udot"], p) for p in pts])
    F, St, S = G.residual_wy(pts, U[:, 0], ud, dim)
    err = np.abs(R[:, 0] - F)
    j = int(np.argmax(err / S))
    if not err[j] <= RTOL * S[j]:
        return [("residual differs from the reference balance (WY %dd)" % dim, "cell at (%g, %g, %g): residual %.12g, reference %.12g (scale %.3g)" % (*pts[j, :3], R[j, 0], F[j], S[j]))]
    d = Rd[:, 0] - R[:, 0]
    err = np.abs(d - St)
    j = int(np.argmax(err / S))
    if not err[j] <= RTOL * S[j]:
        return [("the storage term differs from the reference (WY)", "cell at (%g, %g, %g): %.12g, reference %.12g" % (*pts[j, :3], d[j], St[j]))]
    return []


@oracle("steps")
def steps(prm, run):
    """accepted steps solve the backward Euler balance for their own step size"""
    c = prm["cfg"]
    G = Grid(c)
    s = gen.scn(c, prm["nr"], ["steplog 2", "run final", "observe e"], prm["sched"], extra=prm.get("extra") or [])
    r = run.need(s)
    out = []
    n = len(r.get("solve.begin", 0))
    run.info["steps"] = run.info.get("steps", 0) + n
    acc = 0
    for i in range(n):
        b = r.get("solve.begin", 0)[i]
        e = r.get("solve.end", 0)[i]
        if e[1] <= 0:
            continue
        pts, X = r.field("solve.x", i)
        _, prev = r.field("solve.prev", i)
        E, S, kink = G.residual(pts, X[:, 0], prev[:, 0], b[3])
        acc += 1
        # solver tolerance: relative to the change of storage and fluxes
        if not np.all(np.abs(E) <= 1e-6 * S):
            k = int(np.argmax(np.abs(E) / S))
            out.append(("accepted step does not satisfy the balance (%s)" % c["stratum"], "step %d dt=%g cell (%g, %g, %g): imbalance %.6g of %.6g" % (i, b[3], *pts[k, :3], E[k], S[k])))
            break
        # the state this step starts from is the one the previous accepted step ended with
        if acc > 1 and not np.array_equal(prev, last):
            out.append(("accepted step does not start from the accepted state", "step %d" % i))
            break
        last = X
    if acc == 0:
        raise Discard("no accepted step")
    return out
