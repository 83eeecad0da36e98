"""P02: results do not depend on the number of processes or on the partition."""
import numpy as np
import gen, work
from core import oracle, Discard, why
from util import fields_close, steps

RULE = "a case counts when the run on one process finished and was compared with runs on other numbers of processes and partitions; distinct by the hash of all observations"
ASSUMPTIONS = ["the reference is the same problem on one process under the plain schedule; cells are matched by their position, natural-order vectors entry by entry",
               "accepted states are compared within the tolerance of the nonlinear solver, residuals and Jacobian actions within round-off"]
N = dict(quick=330, thorough=5000)
RT = 1e-9          # residuals, Jacobian actions: relative to the largest entry
ST = 2e-7          # accepted states


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        k = i % 11
        fvp = ["mpfao", "fvtpf", "mpfao-wedge", "transient", "th", "fvtpf-wedge", "mpfao-ts", "salinity"]
        if k in (3, 8):
            c = work.fe(rng)
            body, kind = ["steady S"], "fe"
        else:
            big = i % 3 == 0
            c = work.case(rng, i // 2 if k != 5 else 0, strata=fvp, maxcells=48 if big else 27)
            if k in (1, 6, 10):
                body, kind = ["mesh m", "jac j %r 4.0 0.01" % c["dt"]["init"]], "jac"
                if c["mode"] == "SALINITY" or c["disc"] == "MPFA_O_TRANSIENTVAR":
                    body, kind = ["residual r %r" % c["dt"]["init"], "natural n"], "residual"
                if c["disc"] == "FV_TPF" and rng.random() < 0.4 and "pbc" in c["fields"]:
                    b = c["mesh"]["box"]
                    c["fields"]["ptype"] = ["side", 0, 0.5 * (b[0] + b[1]) + 0.01] + rng.sample([0, 1, 2], 2)
            else:
                body, kind = ["steplog 1", "natural n", "run final", "observe e"] + (["diag e"] if c["mode"] == "RICHARDS" else []), "march"
        parts = []
        for _ in range(3 if tier == "quick" else 5):
            n = rng.choice([2, 2, 3, 3, 4, 5])
            parts.append(dict(nr=n, opt=rng.choice(gen.PARTITIONS), sched=gen.sched(rng, 1)))
        out.append(dict(kind=kind, prm=dict(cfg=c, body=body, parts=parts, _lists=["parts"])))
    return out


def runs(prm, run, need=True):
    base = run(work.build(prm["cfg"], 1, prm["body"], dict(seed=1)))
    if not base.ok:
        if work.solver_failure(base):
            raise Discard("solver gave up: " + why(base))
        raise Discard("one process: " + why(base))
    for p in prm["parts"]:
        yield base, p, run(work.build(prm["cfg"], p["nr"], prm["body"], p["sched"], extra=p["opt"]))


def judged(prm, run, fn):
    giveup = 0
    n = 0
    for base, p, r in runs(prm, run):
        n += 1
        if not r.ok:
            if work.solver_failure(r):
                giveup += 1
                continue
            return [("run on several processes fails (%s)" % prm["cfg"]["stratum"], "%d processes %s: %s" % (p["nr"], p["opt"], why(r)))]
        m = fn(base, r)
        if m:
            return [("%s depends on the number of processes (%s)" % (m[0], prm["cfg"]["stratum"]), "%d processes %s: %s" % (p["nr"], p["opt"], m[1]))]
    if giveup == n:
        raise Discard("solver gave up")
    return []


def natural_same(a, b, key, rtol, atol=0.0):
    x, y = a.natural(key), b.natural(key)
    if x is None and y is None:
        return None
    if x is None or y is None or len(x) != len(y):
        return "lengths %s / %s" % (None if x is None else len(x), None if y is None else len(y))
    e = np.abs(x - y)
    bad = ~(e <= rtol * np.max(np.abs(x)) + atol)
    if np.any(bad):
        i = int(np.flatnonzero(bad)[0])
        return "%s, natural entry %d: %.15g / %.15g" % (key, i, x[i], y[i])
    return None


@oracle("residual")
def residual(prm, run):
    def f(a, b):
        for i in range(4):
            m = natural_same(a, b, "n.nat%d" % i, 1e-12, 1e-12)
            if m:
                return "natural order", m
        m = fields_close(a, b, "r.R", RT)
        return ("residual", m) if m else None
    return judged(prm, run, f)


@oracle("jac")
def jac(prm, run):
    def f(a, b):
        m = fields_close(a, b, "j.R", RT)
        if m:
            return "residual", m
        m = fields_close(a, b, "j.JV", RT)
        return ("Jacobian action", m) if m else None
    return judged(prm, run, f)


@oracle("fe")
def fe(prm, run):
    def f(a, b):
        for k in ("S.F", "S.KV"):
            m = fields_close(a, b, k, RT, 1e-12)
            if m:
                return "assembled system", m
        ka, kb = a.get("S.ksp", 0)[0], b.get("S.ksp", 0)[0]
        if ka[0] <= 0 or kb[0] <= 0:
            return None
        m = fields_close(a, b, "S.p", 1e-7)
        return ("pressure", m) if m else None
    return judged(prm, run, f)


@oracle("march")
def march(prm, run):
    def f(a, b):
        for i in range(4):
            m = natural_same(a, b, "n.nat%d" % i, 1e-12, 1e-12)
            if m:
                return "natural order", m
        sa = [(round(x["time"], 9), x["dt"], x["dtime"], x["istep"], x["fault"]) for x in steps(a)]
        sb = [(round(x["time"], 9), x["dt"], x["dtime"], x["istep"], x["fault"]) for x in steps(b)]
        if [x["reason"] > 0 for x in steps(a)] != [x["reason"] > 0 for x in steps(b)]:
            return None  # the solver gave up on an attempt in one of them: the states may differ
        if sa != sb:
            i = next((i for i in range(min(len(sa), len(sb))) if sa[i] != sb[i]), min(len(sa), len(sb)))
            return "step history", "attempt %d: %s / %s" % (i, sa[i] if i < len(sa) else None, sb[i] if i < len(sb) else None)
        ta, tb = a.get("e.time", 0)[-1], b.get("e.time", 0)[-1]
        if not np.array_equal(ta, tb):
            return "final time", "%s / %s" % (ta, tb)
        m = fields_close(a, b, "e.soln", ST)
        if m:
            return "accepted state", m
        for k, tol in (("e.sat", 1e-5), ("e.mass", 1e-5), ("e.pres", ST)):
            m = natural_same(a, b, k, tol)
            if m:
                return "diagnostics", m
        return None
    return judged(prm, run, f)
