"""P05: mass, energy and salt are conserved by every accepted step."""
import numpy as np
import gen, work
from core import oracle, Discard, why
from refmodel import feval, Water, Curve, PREF
from util import steps
from simlib import order

RULE = "a case counts when the totals before and after the accepted steps (or the sum of the residual) were compared with the sources"
ASSUMPTIONS = ["closed boundaries; totals are computed by an independent model of storage from the observed states and, separately, from the liquid mass diagnostic",
               "the time derivative forms (MPFA_O with TS, TH) conserve the linearised storage of each step, which is what is judged for them",
               "tolerance: the residual left by the nonlinear solver (relative 1e-9 to 1e-10 per step)"]
N = dict(quick=420, thorough=6000)
SN = ["mpfao", "fvtpf", "transient", "salinity", "mpfao-wedge", "fvtpf-wedge"]


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        k = i % 7
        if k < 3:
            c = work.case(rng, i // 7 * 3 + k, strata=SN, maxcells=24)
            kind = "march"
        elif k < 6:
            c = work.case(rng, i // 7 * 3 + k, strata=["mpfao", "fvtpf", "transient", "th", "mpfao-ts", "salinity", "mpfao-wedge", "fvtpf-wedge"], maxcells=36)
            kind = "cancel"
        else:
            c = work.case(rng, 0, strata=[["th", "mpfao-ts"][i // 7 % 2]], maxcells=18)
            c["fields"].pop("pbc", None)
            kind = "rate"
        f = c["fields"]
        if c["mode"] == "RICHARDS":
            c["bc"] = "neumann"
        f.pop("pbc", None)
        if c["mode"] != "RICHARDS":
            # these modes have no closed boundary: the pressure at the boundary is that of the cell, which stops
            # the flow on orthogonal grids without gravity
            c["mesh"]["amp"] = 0.0
            c["gravity"] = 0.0
        s = lambda: rng.randrange(1, 10000)
        if kind == "march":
            if c["mode"] == "RICHARDS":
                f["ic"] = ["rand", 93000.0, 5000.0, s()]
                if rng.random() < 0.5:
                    f["force"] = ["rand", 0.0, gen.rnd(10 ** rng.uniform(-4, -2)), s()]
                else:
                    f.pop("force", None)
            f["u"] = f["ic"]
            if "ic1" in f:
                f["u1"] = f["ic1"]
            f["udot"] = ["const", 0.0]
            body = ["steplog 1", "natural n", "residual r0 %r" % c["dt"]["init"], "diag b", "observe b", "run final", "observe e", "diag e"]
        elif kind == "cancel":
            f["ic"] = f["u"]
            if "ic1" in f:
                f["ic1"] = f["u1"]
            f["udot"] = ["const", 0.0]
            f["udot1"] = ["const", 0.0]
            if c["mode"] != "SALINITY" and rng.random() < 0.5:
                f["force"] = ["rand", 0.0, gen.rnd(10 ** rng.uniform(-4, -2)), s()]
            if c["stratum"] == "th" and rng.random() < 0.5:
                f["eforce"] = ["rand", 0.0, 1.0, s()]
            body = ["residual r %r" % c["dt"]["init"]]
        else:
            if c["mode"] == "RICHARDS":
                f["ic"] = ["rand", 88000.0, 3000.0, s()]
            c["final"] = gen.rnd(3 * c["dt"]["init"], 6)
            d = c["dt"]["init"]
            body = ["steplog 1", "observe s0", "run %r" % d, "observe s1", "run %r" % (2 * d), "observe s2"]
        out.append(dict(kind=kind, prm=dict(cfg=c, nr=rng.choice([1, 2, 2, 3, 4]), body=body, opt=rng.choice(gen.PARTITIONS), sched=gen.sched(rng, 1))))
    return out


def go(prm, run):
    r = run(work.build(prm["cfg"], prm["nr"], prm["body"], prm["sched"], extra=prm["opt"]))
    if not r.ok:
        if work.solver_failure(r) or work.slow(r):
            raise Discard("solver gave up: " + why(r))
        return r, [("the run fails (%s)" % prm["cfg"]["stratum"], why(r))]
    return r, None


def bw(P, T, S):
    p = P * 1e-6
    pw = 1 + 1e-6 * (-80. * T - 3.3 * T**2 + 0.00175 * T**3 + 489. * p - 2. * T * p + 0.016 * p * T**2 - 1.3e-5 * T**3 * p - 0.333 * p**2 - 0.002 * T * p**2)
    return 1000. * pw + S * (0.668 + 0.44 * S + 1e-6 * (300. * p - 2400. * p * S + T * (240. * T - 3300. * S - 13. * p + 47. * p * S))) * 1000.


class Cell:
    """storage of one cell"""

    def __init__(self, cfg, x):
        f = cfg["fields"]
        self.cfg = cfg
        self.w = Water(cfg["dens"]) if cfg["mode"] != "SALINITY" else None
        self.cc = Curve(cfg["m"], cfg["alpha"])
        self.x = x[:3]
        self.vol = x[3]
        self.poro = feval(f["poro"], self.x)
        self.sr = feval(f["sr"], self.x) if "sr" in f else 0.15
        self.src = feval(f["force"], self.x) if "force" in f else 0.0
        self.esrc = feval(f["eforce"], self.x) if "eforce" in f else 0.0

    def rho(self, u):
        if self.w:
            return self.w.rho(u[0])
        q = u[1] * 58.44
        return bw(u[0], 25., q / (q + 999.))

    def mass(self, u):
        return self.rho(u) * self.poro * self.cc.s(u[0], self.sr) * self.vol

    def dmass(self, p):
        return self.poro * self.vol * (self.w.drho(p) * self.cc.s(p, self.sr) + self.w.rho(p) * (1 - self.sr) * self.cc.dse(p))


def field_at(vals, pts):
    return vals


def nat(r, key):
    """diagnostics (natural order) sorted by position -> (positions, values)"""
    v = r.natural(key)
    n = [r.natural("n.nat%d" % d) for d in range(4)]
    k = len(n[0]) // len(v)
    c = np.stack([q[::k] for q in n], 1)
    i = order(c)
    return c[i], v[i]


@oracle("march")
def march(prm, run):
    r, v = go(prm, run)
    if v:
        return v
    c = prm["cfg"]
    st = c["stratum"]
    pts, U0 = r.field("b.soln")
    _, U1 = r.field("e.soln")
    cells = [Cell(c, x) for x in pts]
    m0 = np.array([k.mass(u) for k, u in zip(cells, U0)])
    m1 = np.array([k.mass(u) for k, u in zip(cells, U1)])
    out = []
    if "mw" not in c["fields"]:
        for key, m in (("b", m0), ("e", m1)):
            cp, d = nat(r, key + ".mass")
            e = np.abs(d - m)
            if not np.all(e <= 1e-10 * m):
                k = int(np.argmax(e / m))
                out.append(("the liquid mass reported is not the mass of the model (%s)" % st, "%s: cell at (%g, %g, %g): %.12g, expected %.12g" % (key, *pts[k][:3], d[k], m[k])))
                break
    t = r.get("e.time", 0)[0][0]
    src = t * sum(k.src * k.vol for k in cells)
    mag = np.sum(np.abs(m1 - m0)) + t * sum(abs(k.src) * k.vol for k in cells)
    tol = 1e-6 * mag + 1e-11 * np.sum(m0)
    err = np.sum(m1) - np.sum(m0) - src
    run.info["mass moved / 1e-6 kg"] = run.info.get("mass moved / 1e-6 kg", 0) + int(mag * 1e6)
    if abs(err) > tol:
        out.append(("mass is not conserved (%s)" % st, "from %.12g to %.12g, sources %.6g: %.3g appeared (tolerance %.2g, %d steps to t=%g)" % (np.sum(m0), np.sum(m1), src, err, tol, len(steps(r)), t)))
    d0, d1 = nat(r, "b.mass")[1], nat(r, "e.mass")[1]
    err = np.sum(d1) - np.sum(d0) - src
    if abs(err) > tol:
        out.append(("the liquid mass reported is not conserved (%s)" % st, "from %.12g to %.12g, sources %.6g" % (np.sum(d0), np.sum(d1), src)))
    if c["mode"] == "SALINITY":
        s0, s1 = m0 * U0[:, 1], m1 * U1[:, 1]
        mag = np.sum(np.abs(s1 - s0))
        err = np.sum(s1) - np.sum(s0)
        if abs(err) > 1e-6 * mag + 1e-11 * np.sum(np.abs(s0)) + 1e-6 * np.sum(np.abs(m1 - m0)):
            out.append(("salt is not conserved (%s)" % st, "from %.12g to %.12g (moved %.3g)" % (np.sum(s0), np.sum(s1), mag)))
    return out[:1]


@oracle("cancel")
def cancel(prm, run):
    r, v = go(prm, run)
    if v:
        return v
    c = prm["cfg"]
    pts, R = r.field("r.R")
    cells = [Cell(c, x) for x in pts]
    for d in range(R.shape[1]):
        src = sum((k.src if d == 0 else k.esrc) * k.vol for k in cells)
        mag = np.sum(np.abs(R[:, d])) + abs(src)
        # round-off of the single fluxes, which are differences of pressures of about 1e5
        err = np.sum(R[:, d]) + src
        if not abs(err) <= 1e-8 * mag + 1e-30:
            return [("fluxes between cells do not cancel (%s, equation %d)" % (c["stratum"], d), "sum of the residual %.12g, sources %.12g, sum of magnitudes %.3g" % (np.sum(R[:, d]), src, mag))]
    return []


@oracle("rate")
def rate(prm, run):
    r, v = go(prm, run)
    if v:
        return v
    c = prm["cfg"]
    st = c["stratum"]
    out = []
    f = c["fields"]
    for k in (1, 2):
        pts, U0 = r.field("s%d.soln" % (k - 1))
        _, U1 = r.field("s%d.soln" % k)
        dt = r.get("s%d.time" % k, 0)[0][0] - r.get("s%d.time" % (k - 1), 0)[0][0]
        cells = [Cell(c, x) for x in pts]
        D = (U1 - U0) / dt
        a = np.array([q.dmass(u[0]) * d[0] for q, u, d in zip(cells, U1, D)])
        src = sum(q.src * q.vol for q in cells)
        mag = np.sum(np.abs(a)) + sum(abs(q.src) * q.vol for q in cells)
        err = np.sum(a) - src
        if abs(err) > 1e-6 * mag:
            return [("mass is not conserved (%s)" % st, "step %d: storage grows by %.9g per second, sources %.9g (magnitude %.3g)" % (k, np.sum(a), src, mag))]
        if c["mode"] == "TH":
            def rate_of(true):
                a = []
                for q, u, d in zip(cells, U1, D):
                    p, T = u
                    rho, dr = q.w.rho(p), q.w.drho(p)
                    S, dS = q.cc.s(p, q.sr), (1 - q.sr) * q.cc.dse(p)
                    h = 1.8890
                    en = h - p / rho
                    den = -1 / rho + p / rho**2 * dr if true else 0.0
                    rock = (feval(f["sd"], q.x) if "sd" in f else 2650.0) * (feval(f["sc"], q.x) if "sc" in f else 1000.0)
                    a.append(q.vol * (q.poro * ((dr * S + rho * dS) * en + rho * S * den) * d[0] + rock * (1 - q.poro) * d[1]))
                return np.array(a)
            es = sum(q.esrc * q.vol for q in cells)
            for true in (0, 1):
                a = rate_of(true)
                mag = np.sum(np.abs(a)) + sum(abs(q.esrc) * q.vol for q in cells)
                err = np.sum(a) - es
                if abs(err) > 1e-6 * mag:
                    if true:
                        out.append(("energy is not conserved (%s, internal energy depends on pressure)" % st, "step %d: %.9g W, sources %.9g (magnitude %.3g)" % (k, np.sum(a), es, mag)))
                    else:
                        return [("energy is not conserved (%s)" % st, "step %d: storage grows by %.9g W, sources %.9g (magnitude %.3g)" % (k, np.sum(a), es, mag))]
    return out[:1]
