"""P15: output files show exactly the accepted solution."""
import copy, re
import xml.etree.ElementTree as ET
import numpy as np
import gen, work
from core import oracle, Discard, why
from refmodel import Curve, feval
from util import steps, same
from props import p08

RULE = "a case counts when a run wrote at least one output and all its files were compared with the accepted states"
ASSUMPTIONS = ["output is written by the stepping of TDycore itself (SNES); a run left to PETSc's TS writes none",
               "text files carry the digits PETSc prints (6)", "the saturation is that of the van Genuchten curve at the accepted pressure"]
N = dict(quick=300, thorough=4200)


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        st = rng.choice(["fvtpf", "fvtpf", "mpfao", "mpfao", "fvtpf-wedge", "mpfao-wedge", "salinity", "th"])
        c = work.case(rng, 0, strata=[st], maxcells=24)
        d = c["dt"]
        c["final"] = gen.rnd(d["init"] * rng.uniform(2.2, 7), 5)
        faults, q = [], 0
        if c["disc"] == "FV_TPF" and rng.random() < 0.4:
            for _ in range(rng.randrange(1, 4)):
                q += rng.choice([0, 1, 2])
                faults.append(["snes", "any", -1, q, rng.choice([0, 1, 2]), rng.choice([1, 2])])
                q += 1
        mode = rng.choice(["hdf5", "hdf5", "ascii", "none"])
        reg = rng.random() < 0.4 or mode == "none" or st == "th"
        if st == "th":
            mode = "none"
        body = []
        if rng.random() < 0.4:
            body += ["run %r" % gen.rnd(c["final"] * rng.uniform(0.1, 0.9), 5)]
            if rng.random() < 0.5 and mode != "none":
                body += ["writevec", "mark extra"]
        body += ["run final"]
        if i % 19 == 18 and mode != "none" and st != "salinity":
            c["final"] = 100.0
            c["dt"] = dict(init=10.0, growth=1.0, red=0.5, max=10.0)
            faults = []
            body = ["run 100.0", "settimestep 2e-05", "run 100.00002"]
        out.append(dict(kind="output", prm=dict(cfg=c, nr=work.nranks(rng, c, (1, 2, 2, 3, 4, 5)), opt=rng.choice(gen.PARTITIONS), sched=gen.sched(rng, 1), body=body, mode=mode,
                                                interval=rng.choice([1, 1, 2, 3, 0]) if mode != "none" else 0, reg=rng.choice([1, 2, 3, 50]) if reg else 0, faults=faults, chk=rng.random() < 0.3)))
    return out


def shrink(prm):
    from core import default_shrink
    out = default_shrink(prm)
    for u in (dict(opt=[]), dict(interval=1), dict(reg=0), dict(chk=False)):
        d = dict(copy.deepcopy(prm), **u)
        if d != prm and not (u.get("interval") and not prm["interval"]) and (d["reg"] or d["mode"] != "none"):
            out.append(d)
    return out


def expected(r, interval):
    """[(time, attempt, explicit)] of what has to be written, in order"""
    out, att, k, n, last = [], steps(r), 0, 0, None
    for q, key, v in r.rec:
        if q:
            continue
        if key == "solve.end":
            a = att[k]
            if a["reason"] > 0:
                n += 1
                last = (a["time"] + a["dt"], k)
                if interval and n % interval == 0:
                    out.append(last)
            k += 1
        elif key == "mark" and last:
            out.append(last)
    return out


def numbers(b):
    out = []
    for l in b.decode("latin1").split("\n"):
        try:
            out.append(float(l))
        except ValueError:
            pass
    return np.array(out)


def xmf(txt):
    """parsed index, or a description of what is wrong with it"""
    t = re.sub(r"<!DOCTYPE.*?\]>", "", txt, flags=re.S).replace("&HeavyData;", "HD")
    try:
        root = ET.fromstring(t)
    except ET.ParseError as e:
        return None, "not well formed: %s" % e
    return root, None


def check_h5(prm, r, exp, L, nc, nd, posn, sat, st):
    f = L.get("out.h5")
    if f is None or not f["opened"] or f["unreadable"] or not f["complete"]:
        return ("the output file cannot be read (%s)" % st, "%s" % f)
    want = {}
    for t, k in exp:
        for v in ("LiquidPressure", "LiquidSaturation"):
            want["%11.5e_%s" % (t, v)] = k
    if nd == 2:      # the unknowns are separate data sets; both writes of a step write the second one
        for t, k in exp:
            want["%11.5e_SalineConcentration" % t] = k
    have = {k.split("/")[-1]: k for k in f["data"] if "cell_fields/" in k}
    if sorted(want) != sorted(have):
        return ("the output file does not hold the accepted steps (%s)" % st, "interval %d: expected %s, found %s" % (prm["interval"], sorted(want), sorted(have)))
    for n, k in want.items():
        m = values(r, k, np.asarray(f["data"][have[n]]), n.endswith("Saturation"), 1, posn, sat, 0.0, 1 if n.endswith("SalineConcentration") else 0)
        if m:
            return ("the output file does not hold the %s of the accepted state (%s)" % ("saturation" if n.endswith("Saturation") else "pressure", st), "%s: %s" % (n, m))
    x, e = xmf(r.files["out.xmf"].decode("latin1")) if "out.xmf" in r.files else (None, "missing")
    if e:
        return ("the index is not usable", e)
    dims = {k: v for k, v in f["dims"].items()}
    dom = x.find("Domain")
    refs = []
    for d in x.iter("DataItem"):
        t = (d.text or "").strip()
        if t.startswith("HD:"):
            refs.append((t[3:], [int(q) for q in d.get("Dimensions").split()]))
    for p, dm in refs:
        if p not in dims and p.lstrip("/") not in dims:
            return ("the index refers to a data set that does not exist", "%s of %s" % (p, sorted(dims)))
    by = {p: dm for p, dm in refs}
    topo = dims.get("/viz/topology/cells", dims.get("viz/topology/cells"))
    geo = dims.get("/geometry/vertices", dims.get("geometry/vertices"))
    if list(topo) != by.get("/viz/topology/cells") or list(geo) != by.get("/geometry/vertices"):
        return ("the index gives the wrong size of the mesh", "%s, file %s %s" % (by, topo, geo))
    if topo[0] != nc:
        return ("the output file does not hold every cell once (%s)" % st, "%d of %d cells" % (topo[0], nc))
    g = dom.find("Grid")
    tp = g.find("Topology")
    ct = {"hex": "Hexahedron", "wedge": "Wedge"}[prm["cfg"]["mesh"]["type"]]
    if tp.get("TopologyType") != ct or int(tp.get("NumberOfElements")) != nc:
        return ("the index describes the wrong cells", "%s %s" % (tp.get("TopologyType"), tp.get("NumberOfElements")))
    at = [a.get("Name") for a in g.findall("Attribute")]
    wl = ["%11.5e_%s" % (t, v) for t, k in exp for v in ("LiquidPressure", "LiquidSaturation")]
    if at != wl:
        return ("the index does not list each output once in order", "expected %s, found %s" % (wl, at))
    for a in g.findall("Attribute"):
        d = a.find("DataItem")
        sub = d.findall("DataItem")
        p = (sub[1].text or "").strip()[3:]
        if p.split("/")[-1] != a.get("Name") or [int(q) for q in d.get("Dimensions").split()][1] != nc or [int(q) for q in sub[1].get("Dimensions").split()][1] != nc:
            return ("the index describes a data set wrongly", ET.tostring(a).decode()[:300])
    # cells of the index in the order of the values
    cells = np.asarray(f["data"].get("/viz/topology/cells", f["data"].get("viz/topology/cells"))).reshape(topo).astype(int)
    vert = np.asarray(f["data"].get("/geometry/vertices", f["data"].get("geometry/vertices"))).reshape(geo)
    if cells.min() < 0 or cells.max() >= geo[0] or any(len(set(x)) != len(x) for x in cells.tolist()):
        return ("the cells of the output file have wrong vertices", "")
    lo, hi = vert[cells].min(axis=1), vert[cells].max(axis=1)
    if not (np.all(posn[:, :3] > lo - 1e-9) and np.all(posn[:, :3] < hi + 1e-9)):
        k = int(np.argmin(((posn[:, :3] > lo - 1e-9) & (posn[:, :3] < hi + 1e-9)).all(axis=1)))
        return ("the output file lists cells and values in different orders", "%d processes %s: cell %d spans %s..%s, its value belongs to the cell at %s" % (prm["nr"], prm["opt"], k, np.round(lo[k], 4), np.round(hi[k], 4), np.round(posn[k, :3], 4)))
    return None


def values(r, k, v, issat, nd, posn, sat, tol, first=0):
    if v.size != nd * len(posn):
        if not (issat and v.size == len(posn)):
            return "%d values for %d cells" % (v.size, len(posn))
    w = v.size // len(posn)
    pc, x = r.field("solve.x", k)
    pf, y = p08.by_position(posn, v, w)
    x = x[:, first:first + w].copy()
    if issat:
        x[:, 0] = [sat(p, q) for p, q in zip(pc, x[:, 0])]
    e = np.abs(x - y)
    lim = (tol * np.abs(x) + 1e-300) if tol else (1e-11 * np.abs(x) if issat else 0 * x)
    if np.all(e <= lim):
        return None
    i = int(np.argmax((e - lim).max(axis=1)))
    return "the cell at %s has %s in the file and %s in the run" % (np.round(pc[i, :3], 4), y[i], x[i])


@oracle("output")
def output(prm, run):
    c = prm["cfg"]
    st = c["stratum"]
    nd = 1 if c["mode"] == "RICHARDS" else 2
    opts = list(prm["opt"])
    body = ["steplog 2", "natural n"]
    if prm["mode"] != "none":
        body.append("iomode " + prm["mode"])
        opts.append("-output_timestep_interval %d" % prm["interval"])
    if prm["reg"]:
        opts += ["-tdy_regression_test", "-tdy_regression_test_filename reg", "-tdy_regression_test_num_cells_per_process %d" % prm["reg"]]
    if prm["chk"]:
        opts += ["-enable_checkpoint"]
    body += prm["body"] + ["observe e"] + (["regression"] if prm["reg"] else [])
    s = work.build(c, prm["nr"], body, prm["sched"], extra=opts, faults=[tuple(f) for f in prm["faults"]])
    s.keep = ["out.*", "*.txt", "*.regression"]
    r = run(s)
    if not r.ok:
        if work.solver_failure(r) or work.slow(r):
            raise Discard("solver gave up: " + why(r))
        return [("a run with output fails (%s)" % st, why(r))]
    posn = p08.positions(r, "n", nd)
    nc = len(posn)
    curve = Curve(c["m"], c["alpha"])
    srf = c["fields"].get("sr", ["const", 0.0])
    sat = lambda x, p: curve.s(p, feval(srf, x))
    exp = expected(r, prm["interval"]) if prm["mode"] != "none" else []
    nm = ["%11.5e" % t for t, k in exp]
    bad = []
    if prm["mode"] != "none":
        dup = [i for i in range(len(exp)) if nm.index(nm[i]) != i]
        diff = [i for i in dup if exp[nm.index(nm[i])][0] != exp[i][0]]
        if diff:
            i = diff[0]
            bad.append(("two outputs of one run have the same name", "times %.15g and %.15g: %s" % (exp[nm.index(nm[i])][0], exp[i][0], nm[i])))
        # a state written twice (by the stepping and on request) is there once, or listed twice in the index
        if dup and not diff:
            run.info["outputs written twice"] = run.info.get("outputs written twice", 0) + 1
    h = [f for f in r.files if f.endswith(".h5") and "chk" not in f]
    txt = sorted(f for f in r.files if f.endswith(".txt"))
    if prm["mode"] == "hdf5":
        q, L = p08.listing(run, {f: r.files[f] for f in h})
        if not q.ok:
            return [("the output file cannot be read (%s)" % st, why(q))]
        m = check_h5(prm, r, exp, L, nc, nd, posn, sat, st) if not diff else None
        if m:
            return bad + [m]
        if txt:
            return bad + [("a run writes output of another kind", "%s" % txt)]
    elif prm["mode"] == "ascii":
        want = {}
        for t, k in exp:
            for v in ("LiquidPressure", "LiquidSaturation"):
                want["%11.5e_%s.txt" % (t, v)] = k
        if sorted(want) != txt:
            return bad + [("the text files are not those of the accepted steps (%s)" % st, "interval %d: expected %s, found %s" % (prm["interval"], sorted(want), txt))]
        for f, k in want.items():
            m = values(r, k, numbers(r.files[f]), "Saturation" in f, nd, posn, sat, 6e-6)
            if m:
                return bad + [("a text file does not hold the %s of the accepted state (%s)" % ("saturation" if "Saturation" in f else "pressure", st), "%s: %s" % (f, m))]
        if h or "out.xmf" in r.files:
            return bad + [("a run writes output of another kind", "%s" % sorted(r.files))]
    elif txt or h or "out.xmf" in r.files:
        return bad + [("a run writes output that nobody asked for", "%s" % sorted(r.files))]
    if prm["reg"]:
        m = check_reg(prm, r, nc, nd, st)
        if m:
            return bad + [m]
        run.info["regression summaries"] = run.info.get("regression summaries", 0) + 1
    elif "reg.regression" in r.files:
        return bad + [("a run writes output that nobody asked for", "%s" % sorted(r.files))]
    run.info["outputs"] = run.info.get("outputs", 0) + len(exp)
    if not exp and not prm["reg"]:
        run.info["runs that must not write"] = run.info.get("runs that must not write", 0) + 1
    return bad


def check_reg(prm, r, nc, nd, st):
    t = r.files.get("reg.regression")
    if t is None:
        return ("the regression summary is missing (%s)" % st, "")
    sec, cur = {}, None
    for l in t.decode("latin1").split("\n"):
        if l.startswith("--"):
            cur = sec.setdefault(l.strip("- ").split(":")[0], [])
        elif ":" in l:
            a, b = l.split(":")
            cur.append((a.strip(), float(b)))
    per = [r.get("e.soln", q)[0] for q in range(r.nranks)]
    x = np.concatenate(per).reshape(-1, nd)
    names = {1: ["PRESSURE"], 2: ["PRESSURE", "GENERIC"]}[nd]
    if sorted(sec) != sorted(names):
        return ("the regression summary does not list the unknowns (%s)" % st, "%s" % sorted(sec))
    near = lambda a, b: abs(a - b) <= 1e-12 * max(abs(a), abs(b)) + 1e-300
    for d, n in enumerate(names):
        v = dict(sec[n])
        if not near(v["Max"], x[:, d].max()) or not near(v["Min"], x[:, d].min()) or abs(v["Mean"] - x[:, d].mean()) > 1e-11 * np.abs(x[:, d]).max():
            return ("the regression summary gives wrong extremes or means (%s)" % st, "%s: %s, run: %.13e %.13e %.13e" % (n, {k: v[k] for k in ("Max", "Min", "Mean")}, x[:, d].max(), x[:, d].min(), x[:, d].mean()))
        ids = [(int(a), b) for a, b in sec[n] if a not in ("Max", "Min", "Mean")]
        if (not ids and min(x_.size for x_ in per) > 0) or len(set(i for i, _ in ids)) != len(ids):
            return ("the regression summary lists cells more than once or none (%s)" % st, "%s" % ids)
        for i, b in ids:
            if i >= nc or not near(b, x[i, d]):
                return ("the regression summary gives wrong values of cells (%s)" % st, "%s: cell %d: %.13e, run %s" % (n, i, b, x[i, d] if i < nc else "no such cell"))
    return None
