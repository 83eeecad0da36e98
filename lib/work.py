"""Workloads shared by the checks: a configuration plus the body of operations, as JSON."""
import gen
from core import Discard, why

FV = ["mpfao", "fvtpf", "mpfao-wedge", "transient", "th", "fvtpf-wedge", "mpfao-ts", "salinity"]
STATES = [["rand", 101325.0, 6000.0], ["rand", 95000.0, 4000.0], ["rand", 106000.0, 3000.0], ["lin", 104000.3, 300.0, -500.0, -2500.0]]


def states(rng, c):
    """fields for residual evaluations"""
    s = lambda: rng.randrange(1, 10000)
    f = c["fields"]
    u = rng.choice(STATES)
    f["u"] = u + [s()] if u[0] == "rand" else u
    f["v"] = ["rand", 0.0, 1.0, s()]
    f["udot"] = ["rand", 0.0, gen.rnd(10 ** rng.uniform(-2, 1)), s()]
    if c["mode"] == "TH":
        f["u1"] = ["rand", 25.0, 8.0, s()]
    if c["mode"] == "SALINITY":
        f["u1"] = ["rand", 0.4, 0.3, s()]
    if c["mode"] != "RICHARDS":
        f["v1"] = ["rand", 0.0, 0.01, s()]
        f["udot1"] = ["rand", 0.0, 1e-3, s()]
    return c


def easy(rng, c):
    """make convergence of the nonlinear solver likely"""
    f = c["fields"]
    if c["stratum"] == "mpfao-ts":
        f["ic"] = ["rand", 88000.0, 3000.0, rng.randrange(1, 10000)]
        if "pbc" in f:
            f["pbc"] = ["hydro", 90000.0, 9000.0, c["mesh"]["box"][5]]
    if c["mode"] == "SALINITY":
        f["ic"] = ["rand", 101325.0, 10.0, rng.randrange(1, 10000)]
        f["ic1"] = ["rand", 0.02, 0.01, rng.randrange(1, 10000)]
        c["tight"] = False
        c["gravity"] = 0.0
        c["mesh"]["amp"] = 0.0
        # no analytic Jacobian for this mode
        c["opts"] = ["-snes_fd_color", "-snes_max_it 40", "-snes_rtol 1e-9", "-snes_atol 1e-30", "-snes_stol 1e-13", "-ksp_rtol 1e-10"]
    return c


def cells(c):
    n = c["mesh"]["n"]
    return n[0] * n[1] * n[2] * (2 if c["mesh"]["type"] == "wedge" else 1)


def fe(rng, disc=None, linear=False, dim=None, amp=None, maxn=4):
    """a steady finite element problem"""
    disc = disc or rng.choice(["WY", "BDM"])
    dim = dim or (rng.choice([2, 3]) if disc == "WY" else 2)
    n = [rng.choice([2, 3, 3, maxn]) for _ in range(dim)] + ([0] if dim == 2 else [])
    lo = [rng.choice([0.0, -0.5]) for _ in range(3)]
    h = [rng.choice([0.25, 0.5, 1.0]) for _ in range(3)]
    box = []
    for d in range(3):
        box += [lo[d], lo[d] + max(n[d], 1) * h[d]]
    f = dict(kx=["const", gen.rnd(rng.uniform(2, 6))], ky=["const", gen.rnd(rng.uniform(2, 6))], kz=["const", gen.rnd(rng.uniform(2, 6))],
             kxy=["const", gen.rnd(rng.uniform(-0.9, 0.9))], kxz=["const", gen.rnd(rng.uniform(-0.9, 0.9))] if dim == 3 else ["const", 0.0],
             kyz=["const", gen.rnd(rng.uniform(-0.9, 0.9))] if dim == 3 else ["const", 0.0])
    f["pbc"] = ["lin"] + [gen.rnd(rng.uniform(-3, 3)) for _ in range(4 if dim == 3 else 3)]
    f["force"] = ["const", 0.0]
    f["vbc"] = ["const", 0.0]
    if not linear:
        f["pbc"] = rng.choice([f["pbc"], ["sin", 1.0, 2.0, 2.0, 1.5, 1.0]])
        f["force"] = ["sin", 0.5, 3.0, 1.0, 2.0, 0.5]
        f["kx"] = ["rand", 4.0, 1.5, rng.randrange(1, 1000)]
    f["v"] = ["rand", 0.0, 1.0, rng.randrange(1, 10000)]
    return dict(stratum="fe-" + disc.lower() + "%dd" % dim, mode="RICHARDS", disc=disc, dim=dim, fields=f, perm="tensor",
                mesh=dict(type="hex", n=n, box=box, amp=(rng.choice([0.0, 0.1, 0.2]) if amp is None else amp), seed=rng.randrange(1000), zonly=0))


def fe_opts(c):
    return ["-dm_distribute 0", "-malloc_debug no", "-ksp_type gmres", "-ksp_rtol 1e-13", "-ksp_atol 1e-50", "-ksp_max_it 4000", "-ksp_gmres_restart 400",
            "-pc_type " + ("jacobi" if c["disc"] == "WY" else "none")] + c.get("opts", [])


def fe_scn(c, nr, body, sched=None, faults=(), extra=(), end=True):
    from simlib import Scenario
    s = Scenario(nr, 1)
    gen.apply_sched(s, sched)
    s.opt(*fe_opts(c))
    s.opt(*extra)
    s.op(*(gen.prelude(c) + gen.settings(c) + (["perm tensor"] if "perm tensor" not in gen.settings(c) else []) + ["setup"]))
    s.op(*body)
    if end:
        s.op(*gen.END)
    for f in faults:
        s.fault(*f)
    return s


def build(c, nr, body, sched=None, faults=(), extra=(), end=True, begin=None):
    if c["disc"] in ("WY", "BDM"):
        return fe_scn(c, nr, body, sched, faults, extra, end)
    return gen.scn(c, nr, body, sched, faults, end, begin, extra)


SOLVERFAIL = ("TDyPreSolveSNESSolver not implemented for MPFA_O", "failed to converge", "diverged", "DIVERGED", "TSStep has failed", "did not converge")


def solver_failure(r):
    """the run ended with the documented error of a solver that gave up, on every rank"""
    if r.outcome != "done" or not all(r.rc):
        return False
    e = [v for _, v in r.errors()]
    return bool(e) and all(any(k in x for k in SOLVERFAIL) for x in e)


def slow(r):
    """the step budget ran out in the middle of a nonlinear solve, or after very many (small, valid) steps"""
    if r.outcome != "budget":
        return False
    b, e = len(r.get("solve.begin", 0)), len(r.get("solve.end", 0))
    return b > 120 or b > e


def state(r):
    """what the run came to, comparable between schedules"""
    return (r.outcome, tuple(r.rc))


def nranks(rng, c, choices=(2, 3, 4, 5)):
    k = cells(c)
    ok = [n for n in choices if k >= 2 * n]
    return rng.choice(ok or [2])


def case(rng, i, strata=FV, kinds=("march", "residual"), maxcells=24, easy_=True, **kw):
    st = strata[i % len(strata)]
    c = gen.config(rng, st, maxcells=maxcells, mincells=4, **kw)
    states(rng, c)
    if easy_:
        easy(rng, c)
    return c


def march_body(c, rng=None, two=False):
    b = ["steplog 1", "natural n", "observe a"]
    if two:
        b += ["run %r" % gen.rnd(c["final"] * 0.6, 6), "observe m"]
    b += ["run final", "observe e"]
    if c["mode"] == "RICHARDS":
        b += ["diag e"]
    b += ["residual r %r" % c["dt"]["init"]]
    return b
