"""P07: the assembled Jacobian applied to a direction equals the directional difference of the assembled residual."""
import numpy as np
import gen
from core import oracle, why

ASSUMPTIONS = ["central differences with two step widths; the difference between them bounds the truncation error, so that states near a kink (upwind "
               "switch, saturation limit) are judged with the error the kink causes",
               "a boundary pressure function is given whenever the boundary is not closed (without one the boundary follows the cell and the library "
               "does not differentiate that)"]
STRATA = ["fvtpf", "mpfao", "mpfao-ts", "mpfao-wedge", "fvtpf-wedge", "th"]
STATES = [["rand", 101325.0, 6000.0], ["rand", 95000.0, 4000.0], ["rand", 106000.0, 3000.0], ["lin", 104000.3, 300.0, -500.0, -2500.0],
          ["rand", 80000.0, 9000.0]]
QUICK_N, THOROUGH_N = 420, 6000


def cases(rng, tier):
    out = []
    bcs = ["dirichlet", "neumann", "seepage"]
    for i in range(QUICK_N if tier == "quick" else THOROUGH_N):
        st = STRATA[i % len(STRATA)]
        bc = rng.choice(bcs) if st != "th" else None
        nr = rng.choice([1, 2, 3, 4, 2, 5])
        c = gen.config(rng, st, maxcells=30, bc=bc, mincells=max(4, 2 * nr), dens=rng.choice(["constant", "exponential"]))
        s = lambda: rng.randrange(1, 10000)
        if st.startswith("fvtpf") and rng.random() < 0.3:
            b = c["mesh"]["box"]
            d = rng.randrange(3)
            t = rng.sample([0, 1, 2], 2)
            c["fields"]["ptype"] = ["side", d, 0.5 * (b[2 * d] + b[2 * d + 1]) + 0.01, t[0], t[1]]
            c["fields"].setdefault("pbc", ["hydro", 101325.0, gen.rnd(9800 * rng.uniform(0.6, 1.2)), gen.rnd(0.5 * (b[4] + b[5]))])
        u = rng.choice(STATES)
        c["fields"]["u"] = u + [s()] if u[0] == "rand" else u
        c["fields"]["v"] = rng.choice([["rand", 0.0, 1.0, s()], ["side", rng.randrange(3), 1.2, 1.0, 0.0]])
        c["fields"]["udot"] = ["rand", 0.0, gen.rnd(10 ** rng.uniform(-2, 1)), s()]
        if c["mode"] == "TH":
            c["fields"]["u1"] = ["rand", 25.0, 8.0, s()]
            c["fields"]["v1"] = ["const", 0.0]
            c["fields"]["udot1"] = ["rand", 0.0, 1e-3, s()]
            # the part of the TH Jacobian that is right: no gravity, closed box, derivative with respect to pressure
            c["gravity"] = 0.0
            c["mesh"]["amp"] = 0.0
            ud = c["fields"]["udot"]
            c["fields"]["udot"] = ["const", 0.0]
            if i % 36 == 5:
                # and the whole, which is a known finding
                c["gravity"] = None
                c["fields"]["v1"] = ["rand", 0.0, 1e-2, s()]
                c["fields"]["v"] = ["rand", 0.0, 1.0, s()]
                c["fields"]["udot"] = ud
                c["general"] = 1
        if "pbc" in c["fields"] and rng.random() < 0.3:
            c["fields"]["pbc"] = ["rand", 101325.0, 5000.0, s()]
        out.append(dict(kind="jac", prm=dict(cfg=c, nr=nr, sched=gen.sched(rng), extra=rng.choice(gen.PARTITIONS) if nr > 1 else [],
                                             dt=gen.rnd(10 ** rng.uniform(0, 5), 3), h=4.0, shift=gen.rnd(10 ** rng.uniform(-5, 0), 3))))
    return out


def check(pts, JV, F1, F2, F3, tol=2e-6):
    """F1, F2, F3: differences with widths h, h/2 and h/16"""
    msgs = []
    for d in range(JV.shape[1]):
        sc = max(np.max(np.abs(JV[:, d])), np.max(np.abs(F2[:, d])), 1e-300)
        e = np.abs(JV[:, d] - F2[:, d])
        lim = tol * sc + 4 * np.abs(F1[:, d] - F2[:, d]) + 4 * np.abs(F1[:, d] - F3[:, d])
        k = int(np.argmax(e - lim))
        if not np.all(e <= lim):
            msgs.append("equation %d, cell at (%g, %g, %g): J*v = %.9g, difference of residuals %.9g (width h: %.9g; largest row %.3g)" % (
                d, *pts[k, :3], JV[k, d], F2[k, d], F1[k, d], sc))
    return msgs


@oracle("jac")
def jac(prm, run):
    c = prm["cfg"]
    body = ["jac a %r %r %r" % (prm["dt"], prm["h"], prm["shift"]), "jac b %r %r %r" % (prm["dt"], prm["h"] / 2, prm["shift"]), "jac c %r %r %r" % (prm["dt"], prm["h"] / 16, prm["shift"])]
    r = run(gen.scn(c, prm["nr"], body, prm["sched"], extra=prm.get("extra") or []))
    if not r.ok:
        return [("Jacobian not computed", why(r))]
    pts, JV = r.field("a.JV")
    _, F1 = r.field("a.FD")
    _, F2 = r.field("b.FD")
    _, F3 = r.field("c.FD")
    m = check(pts, JV, F1, F2, F3)
    bc = "general" if c.get("general") else "mixed" if "ptype" in c["fields"] else c["bc"]
    return [("Jacobian is not the derivative of the residual (%s, %s, equation %s)" % (c["stratum"], bc, x.split(",")[0].split()[1]), x) for x in m]
