"""P19: states of equilibrium stay as they are."""
import numpy as np
import gen, work
from core import oracle, Discard, why

RULE = "a case counts when the equilibrium state was evaluated and marched; the flow that gravity or the pressure differences would cause without balance is the scale"
ASSUMPTIONS = ["hydrostatic states have constant density: the constant model, or the exponential model at or below the reference pressure",
               "hydrostatic states are judged on rectilinear grids (and extruded wedges) with isotropic or diagonal permeability, and with FV_TPF and closed boundaries "
               "on any mesh: the documented two-point discretisation of gravity is not balanced otherwise",
               "TH and SALINITY with gravity need a boundary pressure function: their boundaries are open otherwise"]
N = dict(quick=330, thorough=5000)
STRATA = ["mpfao", "fvtpf", "mpfao-ts", "transient", "mpfao-wedge", "fvtpf-wedge", "th", "salinity"]
P0 = 101325.0


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        st = STRATA[i % len(STRATA)]
        two = st in ("th", "salinity")
        hydro = rng.random() < (0.5 if two else 0.75)
        c = gen.config(rng, st, maxcells=40, mincells=4, source=False, distort=not hydro)
        s = lambda: rng.randrange(1, 10000)
        f = c["fields"]
        f.pop("eforce", None)
        z0, z1 = c["mesh"]["box"][4:6]
        closed = st.startswith("fvtpf") and rng.random() < 0.3
        if closed:
            c["bc"] = "neumann"
            f.pop("pbc", None)
            if rng.random() < 0.7:
                c["mesh"].update(amp=0.15, zonly=1)
        elif hydro and rng.random() < 0.6 and c["mesh"]["type"] == "hex":
            c["mesh"].update(amp=rng.choice([0.1, 0.2, 0.3]), zonly=2)
        if not hydro and rng.random() < 0.5 and not two:
            c["perm"] = "tensor"
            k = 10 ** rng.uniform(-11.5, -10)
            for d in "xyz":
                f["k" + d] = ["rand", gen.rnd(k), gen.rnd(0.3 * k), s()]
            for d in ("xy", "xz", "yz"):
                f["k" + d] = ["rand", 0.0, gen.rnd(0.2 * k), s()]
        if hydro:
            if st == "salinity":
                c["dens"] = "constant"
            g = c["gravity"] if c["gravity"] is not None else gen.G
            wt = rng.choice([z0 - 1.0, z0, 0.5 * (z0 + z1), z1, z1 + 2.0])
            rho = 998.0
            if c["dens"] == "exponential":
                wt, rho = min(wt, z0), 997.16
            state = ["lin", P0 + rho * g * wt, 0.0, 0.0, -rho * g]
        else:
            c["gravity"] = 0.0
            state = ["const", gen.rnd(rng.choice([P0 - rng.uniform(0, 20000), P0 + rng.uniform(0, 5000)]), 7)]
        f["ic"] = f["u"] = state
        if c["bc"] in ("dirichlet", "seepage") or (two and hydro):
            f["pbc"] = state
        if two:
            f["ic1"] = f["u1"] = ["const", gen.rnd(rng.uniform(15, 35) if c["mode"] == "TH" else rng.uniform(0.1, 0.6))]
            f["udot1"] = ["const", 0.0]
            if hydro or rng.random() < 0.5:
                f["tbc" if st == "th" else "sbc"] = f["ic1"]
        f["udot"] = ["const", 0.0]
        n = gen.rnd(rng.uniform(1.5, 3.5))
        c["final"] = gen.rnd(c["dt"]["init"] * n, 5)
        c["tight"] = False
        if c["mode"] == "SALINITY":
            c["opts"] = ["-snes_fd_color"]
        # the residual of an equilibrium is round-off: the solvers must not chase it
        c.setdefault("opts", []).extend(["-snes_atol 1e-9", "-snes_rtol 1e-8", "-snes_max_it 20", "-ksp_rtol 1e-10"])
        nr = rng.choice([1, 2, 3, 4, 5]) if work.cells(c) >= 10 else rng.choice([1, 2])
        out.append(dict(kind="hydro" if hydro else "uniform",
                        prm=dict(cfg=c, nr=nr, extra=rng.choice(gen.PARTITIONS) if nr > 1 else [], sched=gen.sched(rng), dt=gen.rnd(10 ** rng.uniform(-1, 3), 3))))
    return out


def judge(prm, run, hydro):
    c = prm["cfg"]
    st = "%s, %s%s" % (c["stratum"], c["bc"], ", tensor" if c["perm"] == "tensor" else "")
    two = c["mode"] != "RICHARDS"
    b = c["mesh"]["box"]
    # the size of the terms that cancel: a state in which they do not
    body = ["observe o", "residual r %r" % prm["dt"]]
    body += [gen.field("u", ["lin", P0, 500.0, -400.0, 300.0]), "residual x %r" % prm["dt"], gen.field("u", c["fields"]["u"])]
    body += ["run final", "observe e"]
    r = run(gen.scn(c, prm["nr"], body, prm["sched"], extra=prm["extra"]))
    if not r.get("r.R", 0):
        raise Discard(why(r))
    pts, R = r.field("r.R")
    _, X = r.field("x.R")
    _, P = r.field("r.U")
    grad = 300.0 + (np.abs(P[:, 0]).max() / max(min(b[1] - b[0], b[3] - b[2], b[5] - b[4]), 1e-9))
    for k in range(R.shape[1]):
        scale = np.abs(X[:, k]).max() * max(1.0, grad / 500.0)
        if two and k == 1:
            scale = max(scale, np.abs(X).max())
        e = np.abs(R[:, k])
        j = int(e.argmax())
        if e[j] > 1e-10 * scale:
            return [("a state of equilibrium has a residual (%s)" % st, "cell at (%g, %g, %g): %.3g, terms of %.3g cancel" % (*pts[j, :3], R[j, k], scale))]
    if not r.ok:
        return [("an equilibrium cannot be marched (%s)" % st, why(r))]
    _, A = r.field("o.soln")
    _, E = r.field("e.soln")
    for k in range(A.shape[1]):
        d = np.abs(E[:, k] - A[:, k])
        j = int(d.argmax())
        lim = 1e-7 * max(np.abs(A[:, k]).max(), 1e-3)
        if d[j] > lim:
            return [("a state of equilibrium moves (%s)" % st, "cell at (%g, %g, %g): from %.12g to %.12g" % (*pts[j, :3], A[j, k], E[j, k]))]
    return []


@oracle("hydro")
def hydro(prm, run):
    return judge(prm, run, True)


@oracle("uniform")
def uniform(prm, run):
    return judge(prm, run, False)
