"""P18: a setting has the same effect however it is given, takes effect, and settings do not disturb each other."""
import copy
import numpy as np
import gen, work
from core import oracle, Discard, why
from simlib import Scenario
from util import diff_records

RULE = ("a case counts when the runs it compares finished: every way of giving a value must lead to observations equal to 1e-12 of the first way, "
        "another value must change them, and settings that are not used or come in another order must not")
ASSUMPTIONS = ["values given by a call replace those given by options, later calls replace earlier ones",
               "ways that differ only in form (number, function of space, registered name, isotropic or diagonal or full tensor) stand for the same value",
               "defaults are those that the sources state for each option"]
N = dict(quick=330, thorough=4200)
OPT = dict(poro="-tdy_porosity", kx="-tdy_permability", sr="-tdy_residual_satuaration", sd="-tdy_soil_density", sc="-tdy_soil_specific_heat", tk="-tdy_thermal_conductivity")
CST = dict(poro="porocst", sr="srcst", sd="sdcst", sc="sccst", mw="mwcst")
DEFAULT = dict(poro=0.25, kx=1e-12, sr=0.15, sd=2650.0, sc=1000.0, tk=1.0, mw=58.44, diff=1e-6)
OTHER = dict(poro=[0.41, 0.33, 0.27], kx=[3.3e-11, 8e-12], sr=[0.0, 0.07, 0.22], sd=[1900.0, 2800.0], sc=[700.0, 1350.0], tk=[0.4, 2.7], mw=[40.0, 75.5], diff=[3e-6, 5e-7])
RI = ["mpfao", "fvtpf", "mpfao-wedge", "fvtpf-wedge", "mpfao-ts", "transient"]
# quantity -> strata in which it is used
USES = dict(poro=RI + ["th", "salinity"], kx=RI + ["th", "salinity"], sr=RI + ["th", "salinity"], sd=["th"], sc=["th"], tk=["th"], mw=["salinity"], diff=["salinity"],
            pbc=RI + ["th", "salinity"], tbc=["th"], sbc=["salinity"], force=RI + ["th"], eforce=["th"], density=RI + ["th"], viscosity=["salinity"], bctype=["mpfao", "mpfao-wedge", "mpfao-ts", "transient"],
            gmat=["mpfao", "mpfao-ts", "mpfao-wedge", "transient", "th"], dt=RI[:4] + ["salinity"], m=RI + ["th", "salinity"], alpha=RI + ["th", "salinity"], gravity=RI,
            disc=["mpfao", "fvtpf", "mpfao-wedge", "fvtpf-wedge"], mode=["th", "mpfao-ts"])
HEAVY = ["poro", "kx", "sr", "pbc", "force"]


def value(rng, q):
    return rng.choice(OTHER[q] + [DEFAULT[q]])


def bare(rng, c, q):
    """give the other quantities by options or leave them at their defaults, so that a stray write to them shows"""
    f = c["fields"]
    o = c.setdefault("opts", [])
    for k in ["poro", "kx", "sr"] + (["sd", "sc", "tk"] if c["mode"] == "TH" else []):
        if k == q or rng.random() < 0.2:
            continue
        for x in (("kx", "ky", "kz") if k == "kx" else (k,)):
            f.pop(x, None)
        if k == "kx":
            o.append("-tdy_permability %r" % rng.choice([3e-11, 8e-12]))
        elif rng.random() < 0.6:
            o.append("%s %r" % (OPT[k], rng.choice(OTHER[k])))


def cases(rng, tier):
    out = []
    qs = HEAVY + sorted(USES)
    for i in range(N[tier]):
        k = i % 10
        if k == 9:
            c = work.fe(rng)
            q = rng.choice(["kx", "pbc", "quadrature", "force", "order"])
            out.append(dict(kind="order" if q == "order" else "ways", prm=dict(cfg=c, nr=rng.choice([1, 2]), q=q, val=gen.rnd(rng.uniform(0.5, 4)), alt=gen.rnd(rng.uniform(5, 7)),
                                                                             picks=[rng.random() for _ in range(12)], sched=gen.sched(rng, 1), _lists=[])))
            continue
        if k == 8 or k == 7:
            c = work.case(rng, rng.randrange(8), maxcells=10)
            if k == 8 and rng.random() < 0.4:
                bare(rng, c, None)
            out.append(dict(kind=["order", "irrelevant"][k - 7], prm=dict(cfg=c, nr=rng.choice([1, 2]), picks=[rng.random() for _ in range(12)], sched=gen.sched(rng, 1), _lists=[])))
            continue
        q = qs[(i // 10 * 7 + k) % len(qs)]
        c = work.case(rng, 0, strata=[rng.choice(USES[q])], maxcells=10)
        if rng.random() < 0.4:
            bare(rng, c, q)
        prm = dict(cfg=c, nr=rng.choice([1, 1, 2]), q=q, picks=[rng.random() for _ in range(12)], sched=gen.sched(rng, 1), _lists=[])
        b = c["mesh"]["box"]
        if q in DEFAULT:
            prm["val"] = value(rng, q)
            prm["alt"] = rng.choice([x for x in OTHER[q] + [DEFAULT[q]] if x != prm["val"]])
            if q in ("kx", "tk", "diff") and rng.random() < 0.5:
                # not isotropic
                s = dict(kx=2e-11, tk=1.5, diff=2e-6)[q]
                prm["aniso"] = [gen.rnd(s * rng.uniform(0.5, 2)) for _ in range(3)]
        elif q == "pbc":
            prm["val"], prm["alt"] = gen.rnd(101325.0 + rng.uniform(-9000, 6000)), gen.rnd(101325.0 + 9000)
            if c["bc"] == "neumann":
                c["bc"] = "dirichlet"
            prm["const"] = rng.random() < 0.6
        elif q == "tbc":
            prm["val"], prm["alt"], prm["const"] = gen.rnd(rng.uniform(18, 33)), 45.0, rng.random() < 0.6
        elif q == "sbc":
            prm["val"], prm["alt"], prm["const"] = gen.rnd(rng.uniform(0.01, 0.05)), 0.2, False
        elif q in ("force", "eforce"):
            prm["val"], prm["alt"] = gen.rnd(rng.uniform(1e-4, 1e-3)), 5e-3
        elif q == "dt":
            prm["val"], prm["alt"] = c["dt"]["init"], gen.rnd(c["dt"]["init"] * 0.61)
            c["dt"]["max"] = gen.rnd(c["dt"]["init"] * 2)
        elif q in ("m", "alpha", "gravity"):
            prm["val"] = {"m": 0.8, "alpha": 1e-4, "gravity": 9.8068}[q]
            prm["alt"] = {"m": 0.51, "alpha": 1.7e-4, "gravity": 4.0}[q]
        out.append(dict(kind="ways", prm=prm))
    return out


def steady(c):
    return c["disc"] in ("WY", "BDM")


def body(c):
    if steady(c):
        return ["setup", "steady S", "destroy", "finalize"]
    o = ["driver"] + (["ic"] if "ic" in c["fields"] else []) + ["observe a", "residual r %r" % c["dt"]["init"], "run %r" % gen.rnd(c["final"] * 0.6, 6), "observe m", "run final", "observe e"]
    if c["mode"] == "RICHARDS":
        o += ["diag d"]
    return o + ["residual q %r" % c["dt"]["init"], "destroy", "finalize"]


def scn(prm, c, opts=(), early=(), late=(), drop=(), dropopt=(), mode=None, disc=None, shuffle=None, first=()):
    """early: operations before TDySetFromOptions, late: after it and before the driver; drop: settings of the configuration left out"""
    s = Scenario(prm["nr"], 1)
    gen.apply_sched(s, prm["sched"])
    o = work.fe_opts(c) if steady(c) else gen.opts(c)
    s.opt(*[x for x in o if not (set([x.split()[0]]) & set(dropopt))])
    s.opt(*opts)
    st = gen.settings(c)
    if steady(c) and "perm tensor" not in st:
        st.append("perm tensor")
    st = [x for x in st if x.split()[0] not in drop and not (x.split()[0] == "perm" and "perm" in drop) and not (x.split()[0] == "field" and x.split()[1] in drop)]
    fields = [x for x in st if x.startswith("field ")]
    calls = [x for x in st if not x.startswith("field ")]
    late = list(late)
    lf = [x for x in late if x.startswith("field ")]
    lc = [x for x in late if not x.startswith("field ")]
    if shuffle:
        calls = [x for _, x in sorted(zip(shuffle * 5, calls))]
    s.op("init", *first)
    s.op("create", "mode " + (mode or c["mode"]), "disc " + (disc or c["disc"]), gen.meshop(c["mesh"]), *fields, *lf, *early)
    s.op("setfromoptions", *calls, *lc)
    s.op(*body(c))
    return s


def ways(prm):
    """-> [(name, scenario arguments)], [(name, arguments of another value)]"""
    c, q, p = prm["cfg"], prm["q"], prm["picks"]
    v, w = prm.get("val"), prm.get("alt")
    W, A = [], []
    F = lambda n, x: "field %s const %r" % (n, x)
    if steady(c):
        if q == "kx":
            drop = ("perm", "kx", "ky", "kz", "kxy", "kxz", "kyz")
            dg = "%r %r %r" % (v, v * 2, v * 1.5)
            tn = ("%r 0 0 0 %r 0 0 0 %r" % (v, v * 2, v * 1.5)) if c["dim"] == 3 else "%r 0 0 %r" % (v, v * 2)
            kd = [F("kx", v), F("ky", v * 2), F("kz", v * 1.5), F("kxy", 0.0), F("kxz", 0.0), F("kyz", 0.0)]
            W = [("constant diagonal", dict(late=["permcst diag " + dg], drop=drop)), ("constant tensor", dict(late=["permcst tensor " + tn], drop=drop)),
                 ("diagonal function", dict(late=kd + ["perm diag"], drop=drop)), ("tensor function", dict(late=kd + ["perm tensor"], drop=drop))]
            A = [("constant", dict(late=["permcst iso %r" % w], drop=drop))]
            if p[0] < 0.4:
                W = [("constant isotropic", dict(late=["permcst iso %r" % v], drop=drop)), ("constant diagonal", dict(late=["permcst diag %r %r %r" % (v, v, v)], drop=drop)),
                     ("isotropic function", dict(late=[F("kx", v), "permeq iso"], drop=drop)), ("diagonal function", dict(late=[F("kx", v), "permeq diag"], drop=drop)),
                     ("isotropic function replaced", dict(late=[F("kx", v), "permcst diag 1 2 3", "permeq iso"], drop=drop))]
        elif q == "pbc":
            W = [("function", dict(late=["field pbc const %r" % v, "pbc"], drop=("pbc",))), ("option", dict(opts=["-tdy_pressure_bc_value %r" % v], drop=("pbc",))),
                 ("selected", dict(late=["field pbc const %r" % v, "select pbc named_boundary_one"], drop=("pbc",), first=["registerf named_boundary_one pbc", "registerf another_function_2 force"])),
                 ("option naming a function", dict(opts=["-tdy_pressure_bc_func named_boundary_one"], late=["field pbc const %r" % v], drop=("pbc",), first=["registerf named_boundary_one pbc", "registerf another_function_2 force"])),
                 ("option, then function", dict(opts=["-tdy_pressure_bc_value %r" % w], late=["field pbc const %r" % v, "pbc"], drop=("pbc",)))]
            A = [("option", dict(opts=["-tdy_pressure_bc_value %r" % w], drop=("pbc",)))]
        elif q == "quadrature":
            n = int(p[0] * 2)
            W = [("option", dict(opts=["-tdy_quadrature " + ["LUMPED", "FULL"][n]])), ("call", dict(late=["quadrature %s %d" % (c["disc"], n)])),
                 ("option, then call", dict(opts=["-tdy_quadrature " + ["FULL", "LUMPED"][n]], late=["quadrature %s %d" % (c["disc"], n)]))]
            if c["disc"] == "WY" or 1:
                A = []
        else:
            W = [("function", dict(late=["field force const %r" % v, "force"], drop=("force",))),
                 ("selected", dict(late=["field force const %r" % v, "select force fff"], drop=("force",), first=["registerf named_boundary_one pbc", "registerf fff force"])),
                 ("selected, another one before", dict(late=["field force const %r" % v, "select force named_boundary_one", "select force fff"], drop=("force",), first=["registerf named_boundary_one pbc", "registerf fff force"]))]
            A = [("function", dict(late=["field force const %r" % w, "force"], drop=("force",)))]
        return W, A
    if q in DEFAULT:
        drop = {"kx": ("perm", "kx", "ky", "kz")}.get(q, (q,))
        n3 = "%r %r %r"
        nm = {"kx": "perm", "tk": "tk", "diff": "diff"}.get(q)
        if "aniso" in prm:
            a = prm["aniso"]
            W = [("constant diagonal", dict(late=["%scst diag %r %r %r" % (nm, *a)], drop=drop)), ("constant tensor", dict(late=["%scst tensor %r 0 0 0 %r 0 0 0 %r" % (nm, *a)], drop=drop))]
            if q == "kx":
                f = [F("kx", a[0]), F("ky", a[1]), F("kz", a[2])]
                W += [("diagonal function", dict(late=f + ["perm diag"], drop=drop)), ("tensor function", dict(late=f + ["perm tensor"], drop=drop)),
                      ("option, then constant diagonal", dict(opts=["-tdy_permability 7e-11"], late=["permcst diag %r %r %r" % tuple(a)], drop=drop))]
            W += [("constant diagonal after another", dict(late=["%scst iso %r" % (nm, v), "%scst diag %r %r %r" % (nm, *a)], drop=drop))]
            A = [("isotropic", dict(late=["%scst iso %r" % (nm, v)], drop=drop))]
            return W, A
        if nm:
            eq = {"kx": "permeq"}.get(q, q + "eq")
            W = [("constant isotropic", dict(late=["%scst iso %r" % (nm, v)], drop=drop)), ("constant diagonal", dict(late=["%scst diag %r %r %r" % (nm, v, v, v)], drop=drop)),
                 ("constant tensor", dict(late=["%scst tensor %r 0 0 0 %r 0 0 0 %r" % (nm, v, v, v)], drop=drop))]
            W += [(x + " function", dict(late=[F(q, v), "%s %s" % (eq, x)], drop=drop)) for x in ("iso", "diag", "tensor")]
            W += [("function replacing a constant", dict(late=["%scst diag %r %r %r" % (nm, w, v, w), F(q, v), "%s iso" % eq], drop=drop)),
                  ("constant replacing a function", dict(late=[F(q, w), "%s tensor" % eq, "%scst iso %r" % (nm, v)], drop=drop))]
            A = [("constant isotropic", dict(late=["%scst iso %r" % (nm, w)], drop=drop)), ("function", dict(late=[F(q, w), "%s diag" % eq], drop=drop))]
        else:
            W = [("constant", dict(late=["%s %r" % (CST[q], v)], drop=drop)), ("function", dict(late=[F(q, v), q], drop=drop)),
                 ("function replacing a constant", dict(late=["%s %r" % (CST[q], w), F(q, v), q], drop=drop)), ("constant replacing a function", dict(late=[F(q, w), q, "%s %r" % (CST[q], v)], drop=drop))]
            A = [("constant", dict(late=["%s %r" % (CST[q], w)], drop=drop))]
        if q in OPT:
            W += [("option", dict(opts=["%s %r" % (OPT[q], v)], drop=drop)),
                  ("option, then a call", dict(opts=["%s %r" % (OPT[q], w)], late=(["%scst iso %r" % (nm, v)] if nm else ["%s %r" % (CST[q], v)]), drop=drop))]
            A += [("option", dict(opts=["%s %r" % (OPT[q], w)], drop=drop))]
        if v == DEFAULT[q]:
            W += [("default", dict(drop=drop))]
        return W, A
    if q in ("pbc", "tbc", "sbc"):
        nm = dict(pbc="pressure", tbc="temperature", sbc=None)[q]
        f = copy.deepcopy(c["fields"].get(q, ["const", v]))
        if prm["const"] or q not in c["fields"]:
            f = ["const", v]
        fl = gen.field(q, f)
        extra = []
        if q != "pbc":
            # a boundary pressure, so that the boundary matters
            extra = ["field pbc const 104000.0", "pbc"]
        reg = ["registerf named_boundary_one " + q, "registerf another_function_2 force", "registerf cc vbc"]
        drop = (q,)
        W = [("function", dict(late=extra + [fl, q], drop=drop)), ("selected", dict(late=extra + [fl, "select %s named_boundary_one" % q], drop=drop, first=reg)),
             ("selected, another one before", dict(late=extra + [fl, "select %s another_function_2" % q, "select %s named_boundary_one" % q], drop=drop, first=reg)),
             ("function after a selected one", dict(late=extra + [fl, "select %s another_function_2" % q, q], drop=drop, first=reg))]
        if nm:
            W += [("option naming a function", dict(opts=["-tdy_%s_bc_func named_boundary_one" % nm], late=extra + [fl], drop=drop, first=reg)),
                  ("option, then a function", dict(opts=["-tdy_%s_bc_value %r" % (nm, w)], late=extra + [fl, q], drop=drop))]
            if f[0] == "const":
                W += [("option", dict(opts=["-tdy_%s_bc_value %r" % (nm, v)], late=extra, drop=drop)),
                      ("option naming a function and a value", dict(opts=["-tdy_%s_bc_value %r" % (nm, w), "-tdy_%s_bc_func named_boundary_one" % nm], late=extra + [fl], drop=drop, first=reg))]
        A = [("another value", dict(late=extra + ["field %s const %r" % (q, w), q], drop=drop))] if c["bc"] != "seepage" else []
        return W, A
    if q in ("force", "eforce"):
        fl = F(q, v)
        reg = ["registerf named_boundary_one " + q, "registerf another_function_2 pbc"]
        W = [("function", dict(late=[fl, q], drop=(q,))), ("selected", dict(late=[fl, "select %s named_boundary_one" % q], drop=(q,), first=reg)),
             ("selected, another one before", dict(late=[fl, "select %s another_function_2" % q, "select %s named_boundary_one" % q], drop=(q,), first=reg)),
             ("registered twice", dict(late=[fl, "select %s named_boundary_one" % q], drop=(q,), first=["registerf named_boundary_one pbc", "registerf another_function_2 pbc", "registerf named_boundary_one " + q]))]
        A = [("another value", dict(late=[F(q, w), q], drop=(q,))), ("none", dict(drop=(q,)))]
        return W, A
    if q == "density":
        n = ["constant", "exponential"].index(c["dens"])
        W = [("option", {}), ("call", dict(dropopt=["-tdy_water_density"], early=["density %d" % n])), ("option over a call", dict(early=["density %d" % (1 - n)])), ("option in capitals", dict(dropopt=["-tdy_water_density"], opts=["-tdy_water_density " + c["dens"].upper()]))]
        if n == 0:
            W += [("default", dict(dropopt=["-tdy_water_density"]))]
        return W, [("call", dict(dropopt=["-tdy_water_density"], early=["density %d" % (1 - n)]))]
    if q == "viscosity":
        return [("option", {}), ("call", dict(dropopt=["-tdy_water_viscosity"], early=["viscosity 1"])), ("option over a call", dict(early=["viscosity 0"]))], [("constant", dict(dropopt=["-tdy_water_viscosity"]))]
    if q == "bctype":
        n = ["dirichlet", "neumann", "seepage"].index(c["bc"])
        o = "-tdy_mpfao_boundary_condition_type"
        W = [("option", {}), ("call", dict(dropopt=[o], late=["bctype %d" % n])), ("call over an option", dict(dropopt=[o], opts=[o + " " + ["NEUMANN_BC", "SEEPAGE_BC", "DIRICHLET_BC"][n]], late=["bctype %d" % n]))]
        if n == 0:
            W += [("default", dict(dropopt=[o]))]
        return W, []
    if q == "gmat":
        o = "-tdy_mpfao_gmatrix_method MPFAO_GMATRIX_"
        n = int(p[0] * 2)
        W = [("option", dict(opts=[o + ["DEFAULT", "TPF"][n]])), ("call", dict(late=["gmat %d" % n])), ("call over an option", dict(opts=[o + ["TPF", "DEFAULT"][n]], late=["gmat %d" % n]))]
        if n == 0:
            W += [("default", {})]
        return W, []
    if q == "dt":
        # the first step is given by the option or by the call after the driver's setup
        return [("option", {}), ("repeated option", dict(opts=["-tdy_dt_init %r" % v]))], [("option", dict(dropopt=["-tdy_dt_init"], opts=["-tdy_dt_init %r" % w]))]
    if q in ("m", "alpha", "gravity"):
        o = {"m": "-tdy_vangenuchten_param_m", "alpha": "-tdy_vangenuchten_param_alpha", "gravity": "-tdy_gravity"}[q]
        return [("option", dict(dropopt=[o], opts=["%s %r" % (o, v)])), ("default", dict(dropopt=[o]))], [("option", dict(dropopt=[o], opts=["%s %r" % (o, w)]))]
    if q == "disc":
        other = "FV_TPF" if c["disc"] == "MPFA_O" else "MPFA_O"
        bt = {"dirichlet": 0, "neumann": 1, "seepage": 2}[c["bc"]]
        o = "-tdy_discretization "
        return [("call", {}), ("option over a call", dict(disc=other, opts=[o + c["disc"]])), ("option and call", dict(opts=[o + c["disc"]])), ("another one before", dict(disc=other, early=["disc " + c["disc"], gen.meshop(c["mesh"])]))], []
    if q == "mode":
        other = "RICHARDS" if c["mode"] == "TH" else "TH"
        o = "-tdy_mode "
        return [("call", {}), ("option over a call", dict(mode=other, opts=[o + c["mode"]])), ("option and call", dict(opts=[o + c["mode"]])),
                ("another one before", dict(mode=other, early=["mode " + c["mode"], gen.meshop(c["mesh"])]))], []
    raise KeyError(q)


def matters(prm, r):
    """is the quantity one on which the results of this case depend?"""
    c = prm["cfg"]
    if prm["q"] == "gravity":
        # uniform flow through the cells would cancel
        k = c["fields"].get("kx")
        return c["mesh"]["n"][2] > 1 and (c["bc"] == "neumann" or (k is not None and k[0] in ("rand", "logrand") and k[2] > 0.0))
    if prm["q"] in ("sr", "m", "alpha"):
        # some cell has to be unsaturated
        return min(float(np.min(x[1][:, 0])) for x in [r.field("a.soln")]) < 1e5
    return True


def close(a, b):
    """first observation in which two runs differ by more than rounding"""
    for q in range(a.nranks):
        x = [(k, v) for r, k, v in a.rec if r == q and k[0] in "amerqdS"]
        y = [(k, v) for r, k, v in b.rec if r == q and k[0] in "amerqdS"]
        if [k for k, _ in x] != [k for k, _ in y]:
            return "the observations", 1.0
        for (k, v), (_, w) in zip(x, y):
            if isinstance(v, str) or isinstance(w, str):
                if v != w:
                    return k, 1.0
                continue
            if len(v) != len(w):
                return k, 1.0
            v, w = np.asarray(v, float), np.asarray(w, float)
            if v.tobytes() == w.tobytes():
                continue
            s = np.max(np.abs(v)) if len(v) else 0.0
            d = np.abs(v - w)
            if not np.all(d <= 1e-12 * s):
                return k, float(np.nanmax(d) / s) if s else 1.0
    return None


def compare(prm, run, variants, alts, what):
    c = prm["cfg"]
    st = c["stratum"]
    ref = None
    todo = list(variants)
    if len(todo) > 5:
        # the first, and four of the others
        rest = [x for _, x in sorted(zip(prm["picks"], todo[1:]), key=lambda t: t[0])]
        todo = [todo[0]] + rest[:4]
    for n, (name, kw) in enumerate(todo):
        r = run(scn(prm, c, **kw))
        if ref is None:
            if not r.ok:
                if work.solver_failure(r) or work.slow(r):
                    raise Discard(why(r))
                # the first way fails: perhaps every way does
                r2 = run(scn(prm, c, **todo[1][1])) if len(todo) > 1 else r
                if r2.ok:
                    return [("one way of setting %s fails" % what, "%s: given as '%s' the run fails (%s), as '%s' it works" % (st, name, why(r), todo[1][0]))]
                raise Discard(why(r))
            ref = (name, r)
            continue
        if not r.ok:
            return [("one way of setting %s fails" % what, "%s: given as '%s': %s; as '%s' the run works" % (st, name, why(r), ref[0]))]
        d = close(ref[1], r)
        if d:
            return [("%s: the effect depends on how it is given" % what, "%s: '%s' and '%s' lead to different %s (relative difference %.2g)" % (st, ref[0], name, d[0], d[1]))]
    if alts and ref:
        k = int(prm["picks"][-1] * len(alts))
        name, kw = alts[k]
        r = run(scn(prm, c, **kw))
        if r.ok and close(ref[1], r) is None and matters(prm, ref[1]):
            return [("%s has no effect" % what, "%s: the run with another value (%s) gives the same results" % (st, name))]
        if not r.ok and not (work.solver_failure(r) or work.slow(r)):
            return [("one way of setting %s fails" % what, "%s: another value (%s): %s" % (st, name, why(r)))]
    return []


@oracle("ways")
def check_ways(prm, run):
    W, A = ways(prm)
    return compare(prm, run, W, A, prm["q"])


@oracle("order")
def check_order(prm, run):
    c = prm["cfg"]
    p = prm["picks"]
    V = [("order of the configuration", {}), ("another order", dict(shuffle=p)), ("another order", dict(shuffle=p[::-1]))]
    return compare(prm, run, V, [], "the order of the calls")


@oracle("irrelevant")
def check_irrelevant(prm, run):
    c = prm["cfg"]
    p = prm["picks"]
    unused = ["-tdy_gardner_param_n 0.9"]
    calls = ["vbc"]
    if c["mode"] != "TH":
        unused += ["-tdy_soil_density 1200", "-tdy_soil_specific_heat 300", "-tdy_thermal_conductivity 3.5", "-tdy_temperature_bc_value 50"]
        calls += ["sdcst 1000", "sccst 500", "tkcst iso 7.0", "tbc", "eforce"]
    if c["mode"] != "SALINITY":
        calls += ["mwcst 20", "diffcst iso 1e-3", "sbc"]
    unused += ["-tdy_fvtpf_boundary_condition_type NEUMANN_BC" if c["disc"] != "FV_TPF" else "-tdy_mpfao_boundary_condition_type NEUMANN_BC"]
    unused += ["-tdy_quadrature LUMPED", "-tdy_velocity_bc_value 1e-3"]
    if c["disc"] == "FV_TPF":
        unused += ["-tdy_mpfao_gmatrix_method MPFAO_GMATRIX_TPF"]
    if "poro" in c["fields"]:
        unused += ["-tdy_porosity 0.9"]
    if "kx" in c["fields"]:
        unused += ["-tdy_permability 1e-3"]
    if c["fields"].get("sr"):
        unused += ["-tdy_residual_satuaration 0.9"]
    if c["ti"] == "TS":
        unused += ["-tdy_dt_growth_factor 9", "-tdy_dt_reduction_factor 0.1"]
    f = ["field vbc const 1e-4"]
    if c["mode"] != "TH":
        f += ["field tbc const 40", "field eforce const 3.0"]
    if c["mode"] != "SALINITY":
        f += ["field sbc const 0.1"]
    o = [x for x, q in zip(unused, p * 2) if q < 0.5]
    l = [x for x, q in zip(calls, p[::-1] * 2) if q < 0.5]
    V = [("plain", {}), ("options that do not matter", dict(opts=o)), ("calls that do not matter", dict(late=f + l))]
    return compare(prm, run, V, [], "settings that the mode does not use")
