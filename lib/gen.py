"""Random configurations of the simulated system and their scenarios.

A configuration (cfg) is a JSON dictionary that fixes the physical problem completely: mesh, flow mode, discretization,
materials, boundary, sources, initial state and time stepping.  A scenario adds the number of ranks, the schedule, the
faults and the operations.  Everything is derived from a seeded generator.
"""
import copy, random
from simlib import Scenario

G = 9.8068

# strata: (name, mode, disc, time integrator, mesh types)
STRATA = {
    "mpfao": ("RICHARDS", "MPFA_O", "SNES", "hex"),
    "mpfao-wedge": ("RICHARDS", "MPFA_O", "SNES", "wedge"),
    "mpfao-ts": ("RICHARDS", "MPFA_O", "TS", "hex"),
    "transient": ("RICHARDS", "MPFA_O_TRANSIENTVAR", "TS", "hex"),
    "fvtpf": ("RICHARDS", "FV_TPF", "SNES", "hex"),
    "fvtpf-wedge": ("RICHARDS", "FV_TPF", "SNES", "wedge"),
    "th": ("TH", "MPFA_O", "TS", "hex"),
    "salinity": ("SALINITY", "MPFA_O", "SNES", "hex"),
}
SNES_STRATA = ["mpfao", "fvtpf", "salinity", "mpfao-wedge", "fvtpf-wedge"]
ALL_STRATA = list(STRATA)


def rnd(x, n=4):
    return float("%.*g" % (n, x))


def mesh(rng, mt, maxcells=30, disc="MPFA_O", distort=True, mincells=2):
    while True:
        n = [rng.choice([1, 2, 2, 3, 3, 4]) for _ in range(3)]
        k = n[0] * n[1] * n[2] * (2 if mt == "wedge" else 1)
        if mincells <= k <= maxcells and max(n) > 1:
            break
    if disc.startswith("MPFA"):
        n = [max(2, q) for q in n]
        while n[0] * n[1] * n[2] * (2 if mt == "wedge" else 1) > maxcells:
            i = n.index(max(n))
            if n[i] == 2:
                break
            n[i] -= 1
    h = [rng.choice([0.5, 1.0, 2.0]) for _ in range(3)]
    box = []
    for d in range(3):
        lo = rng.choice([0.0, 0.0, -1.0, 2.5])
        box += [lo, lo + n[d] * h[d]]
    amp, zonly = 0.0, 0
    if distort and rng.random() < 0.5:
        amp = rng.choice([0.05, 0.15])
        zonly = 1  # the multi-point flux method requires planar vertical faces
    return dict(type=mt, n=n, box=box, amp=amp, seed=rng.randrange(1000), zonly=zonly)


def config(rng, stratum, maxcells=30, distort=True, source=True, bc=None, dens=None, smooth=False, mincells=2):
    mode, disc, ti, mt = STRATA[stratum]
    c = dict(stratum=stratum, mode=mode, disc=disc, ti=ti)
    c["mesh"] = m = mesh(rng, mt, maxcells, disc, distort, mincells)
    z0, z1 = m["box"][4], m["box"][5]
    f = c["fields"] = {}
    s = lambda: rng.randrange(1, 10000)
    f["poro"] = ["rand", rnd(rng.uniform(0.2, 0.5)), 0.1, s()]
    kmag = 10 ** rng.uniform(-11.5, -10.0)
    c["perm"] = rng.choice(["iso", "diag"])
    if c["perm"] == "diag":
        for d in "xyz":
            f["k" + d] = ["logrand", rnd(kmag * 10 ** rng.uniform(-0.5, 0.5)), 0.3, s()]
    else:
        f["kx"] = ["logrand", rnd(kmag), rng.choice([0.0, 0.5]), s()]
    f["sr"] = rng.choice([["const", 0.0], ["rand", 0.15, 0.05, s()]])
    c["m"] = rnd(rng.uniform(0.35, 0.8), 3)
    c["alpha"] = rnd(10 ** rng.uniform(-4.3, -3.7), 3)
    c["dens"] = dens or rng.choice(["constant", "exponential"])
    c["gravity"] = rng.choice([None, None, 5.0])
    if bc is None:
        bc = rng.choice(["dirichlet", "dirichlet", "neumann", "seepage"]) if mode == "RICHARDS" else "dirichlet"
    c["bc"] = bc
    p0 = 101325.0
    wt = rng.choice([z0, 0.5 * (z0 + z1), z1 + 1.0])
    if bc != "neumann":
        f["pbc"] = ["hydro", p0, rnd(9800 * rng.uniform(0.6, 1.2)), rnd(wt)]
    if source and rng.random() < 0.6:
        f["force"] = ["rand", 0.0, rnd(10 ** rng.uniform(-4, -2)), s()]
    # state: water table in or around the domain with local variation
    f["ic"] = ["rand", rnd(p0 + rng.choice([-8000, 0, 3000]) ), 4000.0, s()]
    if smooth:
        f["ic"] = ["lin", rnd(p0 - 6000), 300.0, -200.0, rnd(-900.0)]
    if mode == "TH":
        c["dens"] = "exponential"
        f["ic"] = ["rand", 90000.0, 8000.0, s()]
        f["ic1"] = ["rand", 25.0, 8.0, s()]
        c["bc"] = "none"
        f.pop("pbc", None)
        if rng.random() < 0.5:
            f["tk"] = ["rand", 1.0, 0.3, s()]
            f["sd"] = ["rand", 2650.0, 200.0, s()]
            f["sc"] = ["rand", 1000.0, 100.0, s()]
        if rng.random() < 0.5:
            f["eforce"] = ["rand", 0.0, 1.0, s()]
    if mode == "SALINITY":
        c["dens"] = "batzle_and_wang"
        f["ic"] = ["rand", 101325.0, 2000.0, s()]
        f["ic1"] = ["rand", 0.4, 0.3, s()]
        c["bc"] = "none"
        f.pop("pbc", None)
        f.pop("force", None)
    c["dt"] = dict(init=rnd(10 ** rng.uniform(-0.5, 1.5), 3), growth=rng.choice([1.25, 1.5, 2.0, 1.0]),
                   red=rng.choice([0.25, 0.5]), max=None)
    c["dt"]["max"] = rnd(c["dt"]["init"] * rng.choice([1.0, 2.0, 5.0]), 4)
    c["final"] = rnd(c["dt"]["init"] * rng.uniform(2.2, 4.5), 5)
    return c


def opts(c):
    o = ["-dm_distribute 0", "-malloc_debug no"]
    o += ["-tdy_vangenuchten_param_m %r" % c["m"], "-tdy_vangenuchten_param_alpha %r" % c["alpha"]]
    o += ["-tdy_water_density " + c["dens"]]
    if c["dens"] == "batzle_and_wang":
        o += ["-tdy_water_viscosity batzle_and_wang"]
    if c.get("gravity") is not None:
        o += ["-tdy_gravity %r" % c["gravity"]]
    if c["bc"] in ("dirichlet", "neumann", "seepage"):
        k = "-tdy_fvtpf_boundary_condition_type" if c["disc"] == "FV_TPF" else "-tdy_mpfao_boundary_condition_type"
        o += [k + " " + {"dirichlet": "DIRICHLET_BC", "neumann": "NEUMANN_BC", "seepage": "SEEPAGE_BC"}[c["bc"]]]
    o += ["-tdy_time_integration_method " + c["ti"]]
    d = c["dt"]
    o += ["-tdy_dt_init %r" % d["init"], "-tdy_dt_max %r" % d["max"], "-tdy_dt_growth_factor %r" % d["growth"],
          "-tdy_dt_reduction_factor %r" % d["red"], "-tdy_final_time %r" % c["final"]]
    if c["ti"] == "TS":
        # only BDF supports the transient variable of MPFA_O_TRANSIENTVAR
        o += ["-ts_type bdf", "-ts_bdf_order 1"] if c["disc"] == "MPFA_O_TRANSIENTVAR" else ["-ts_type beuler"]
        if c.get("ts_adapt"):
            o += ["-ts_adapt_type " + c["ts_adapt"]]
        else:
            o += ["-ts_adapt_type none"]
    if c.get("tight", True):
        o += ["-ksp_type gmres", "-ksp_rtol 1e-12", "-ksp_atol 1e-30", "-ksp_max_it 2000", "-pc_type bjacobi", "-sub_pc_type ilu",
              "-snes_atol 1e-30", "-snes_rtol 1e-10", "-snes_stol 1e-13", "-snes_max_it 30"]
    o += c.get("opts", [])
    return o


def meshop(m):
    return "dm %s %d %d %d %r %r %r %r %r %r %r %d %d" % (m["type"], *m["n"], *m["box"], m["amp"], m["seed"], m["zonly"])


def field(n, f):
    return "field %s %s %s" % (n, f[0], " ".join(repr(x) for x in f[1:]))


def prelude(c):
    """operations up to TDySetFromOptions"""
    return ["init", "create", "mode " + c["mode"], "disc " + c["disc"], meshop(c["mesh"]), "setfromoptions"]


SETOP = dict(poro="poro", sr="sr", tk="tk", sd="sd", sc="sc", pbc="pbc", tbc="tbc", sbc="sbc", force="force", eforce="eforce",
             diff="diff", mw="mw", ptype="ptype", vbc="vbc")


def settings(c):
    o = []
    f = c["fields"]
    for k in f:
        o.append(field(k, f[k]))
    if "kx" in f:
        o.append("perm " + c["perm"])
    for k in SETOP:
        if k in f:
            o.append(SETOP[k])
    return o


def start(c):
    """all operations that bring the system to its initial state"""
    return prelude(c) + settings(c) + ["driver"] + (["ic"] if "ic" in c["fields"] else [])


END = ["destroy", "finalize"]


def scn(c, nr, body, sched=None, faults=(), end=True, begin=None, extra=()):
    s = Scenario(nr, 1)
    apply_sched(s, sched)
    s.opt(*opts(c))
    s.opt(*extra)
    s.op(*(start(c) if begin is None else begin))
    s.op(*body)
    if end:
        s.op(*END)
    for f in faults:
        s.fault(*f)
    return s


PLAIN = dict(seed=1)


def sched(rng, strength=None):
    k = strength if strength is not None else rng.choice([1, 2, 3])
    return dict(seed=rng.randrange(1, 1 << 30), p_switch=rng.choice([0.02, 0.1, 0.4]) if k > 1 else 0.02,
                p_delay=rng.choice([0.05, 0.3, 0.7]), max_delay=rng.choice([1000, 100000, 50000000]),
                p_sync=rng.choice([0, 0.5, 1]), p_collsync=rng.choice([0, 0.5, 1]), p_any=rng.choice([0, 0.3, 1]),
                prio_mode=rng.choice([0, 1]), perturb=rng.choice([0, 85, 171, 127, 255]), stackfill=rng.choice([0, 85, 171, 255]))


def apply_sched(s, d):
    if not d:
        return
    for k, v in d.items():
        if k == "skew":
            s.skew = {int(r): u for r, u in v.items()}
        elif k == "decisions":
            s.decisions = v
        else:
            s.k[k] = v


PARTITIONS = [[], ["-petscpartitioner_type simple"], ["-petscpartitioner_type shell", "-petscpartitioner_shell_random"]]


# ------------------------------------------------------------------ simplification, for minimising a failing case
def simpler(c):
    """simpler configurations, most drastic first"""
    out = []

    def v(fn):
        d = copy.deepcopy(c)
        try:
            if fn(d) is not False and d != c:
                out.append(d)
        except (KeyError, TypeError):
            pass

    f = c["fields"]

    def m2(d):
        n = d["mesh"]["n"]
        d["mesh"]["n"] = [2 if q > 2 else q for q in n]

    v(m2)
    v(lambda d: d["mesh"].update(amp=0.0))
    v(lambda d: d["mesh"].update(box=[0.0, float(d["mesh"]["n"][0]), 0.0, float(d["mesh"]["n"][1]), 0.0, float(max(1, d["mesh"]["n"][2]))]))
    for i in range(3):
        if c["mesh"]["n"][i] > 1:
            def red(d, i=i):
                d["mesh"]["n"][i] -= 1
            v(red)
    for k in ("force", "eforce", "sr", "tk", "sd", "sc", "tbc", "ptype"):
        if k in f:
            v(lambda d, k=k: d["fields"].pop(k))
    for k in list(f):
        if f[k][0] in ("rand", "logrand"):
            v(lambda d, k=k: d["fields"].update({k: ["const", f[k][1]]}))
    v(lambda d: d.update(gravity=None) if d.get("gravity") else False)
    v(lambda d: d.update(dens="constant") if d["mode"] == "RICHARDS" and "dens" in d else False)
    v(lambda d: d.update(final=d["dt"]["init"]) if d["final"] > d["dt"]["init"] else False)
    return out
