"""P04: a failed solve leaves no trace; giving up is reported."""
import math
import numpy as np
import gen, work
from core import oracle, Discard, why
from util import steps, same

RULE = "a case counts when at least one solve failed and the history was compared with a run that took the same accepted step sizes without failures"
ASSUMPTIONS = ["retrying is supported by FV_TPF; the other discretizations report an error after the first failure (documented in the code), which is required of them here"]
N = dict(quick=500, thorough=7000)


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        other = i % 8 == 7
        st = rng.choice(["mpfao", "salinity", "th", "mpfao-ts", "mpfao-wedge", "transient"]) if other else rng.choice(["fvtpf", "fvtpf", "fvtpf-wedge"])
        c = work.case(rng, 0, strata=[st], maxcells=18)
        b = c["mesh"]["box"]
        if not other and rng.random() < 0.3 and "pbc" in c["fields"]:
            c["fields"]["ptype"] = ["side", 0, 0.5 * (b[0] + b[1]) + 0.01] + rng.sample([0, 1, 2], 2)
        d = c["dt"]
        d["growth"] = rng.choice([1.25, 1.5, 2.0])
        d["red"] = rng.choice([0.25, 0.5])
        q, faults = 0, []
        if other:
            faults = [["snes", "any", -1, rng.randrange(0, 3), 0, rng.choice([1, 2])]]
        elif rng.random() < 0.12:
            a = rng.randrange(0, 4)
            faults = [["snes", "any", -1, k, 0, rng.choice([1, 2])] for k in range(a, a + 60)]
        else:
            for _ in range(rng.randrange(1, 5)):
                q += rng.choice([0, 0, 1, 2])
                faults.append(["snes", "any", -1, q, rng.choice([0, 1, 2]), rng.choice([0, 1, 2])])
                q += 1
        body = ["keepgoing 1", "steplog 2"]
        if not other and rng.random() < 0.4:
            body += ["run %r" % gen.rnd(c["final"] * rng.uniform(0.2, 0.8), 5), "observe m"]
        body += ["run final", "observe e"]
        if c["mode"] == "RICHARDS":
            body += ["diag e"]
        nr = rng.choice([1, 1, 2, 3])
        if nr > work.cells(c) // 2:
            nr = 1
        out.append(dict(kind="retry" if not other else "giveup", prm=dict(cfg=c, nr=nr, body=body, sched=gen.sched(rng, 1), faults=faults, _lists=[])))
    return out


def scn(prm, faults=None, body=None):
    return work.build(prm["cfg"], prm["nr"], prm["body"] if body is None else body, prm["sched"], faults=[tuple(f) for f in (prm["faults"] if faults is None else faults)])


def basic(prm, r):
    st = prm["cfg"]["stratum"]
    if work.slow(r):
        raise Discard("very many small steps")
    if r.outcome != "done":
        return [("the run does not terminate (%s)" % st, why(r))]
    if any(r.rc) and not all(r.rc):
        return [("a failure is reported on some processes only (%s)" % st, why(r))]


def gaveup(r):
    return not r.ok or any(n != 0 for n in [len(r.errors())])


def prevs(prm, r):
    """every attempt starts from the last accepted state"""
    st = prm["cfg"]["stratum"]
    for q in range(r.nranks):
        at = steps(r, q)
        P, G, X = r.get("solve.prev", q), r.get("solve.guess", q), r.get("solve.x", q)
        good = None
        for k in range(len(at)):
            if good is not None:
                if not same(P[k], good):
                    return [("the previous state of an attempt is not the last accepted state (%s)" % st, "process %d attempt %d (dt %g): differs by %g" % (q, k, at[k]["dt"], np.max(np.abs(P[k] - good)) if len(good) else 0))]
                if not same(G[k], good):
                    return [("an attempt does not start from the last accepted state (%s)" % st, "process %d attempt %d (dt %g): initial guess differs by %g" % (q, k, at[k]["dt"], np.max(np.abs(G[k] - good)) if len(good) else 0))]
            elif not same(P[k], G[k]):
                return [("an attempt does not start from the last accepted state (%s)" % st, "process %d attempt %d: the first guess is not the initial state" % (q, k))]
            else:
                good = P[k]
            if at[k]["reason"] is not None and at[k]["reason"] > 0 and k < len(X):
                good = X[k]
        o = r.get("e.prev", q)
        if o and good is not None and not same(o[0], good):
            return [("the state after the run is not the last accepted one (%s)" % st, "process %d: previous state differs by %g" % (q, np.max(np.abs(o[0] - good))))]
        o = r.get("e.soln", q) if not gaveup(r) or prm["cfg"]["disc"] == "FV_TPF" else None
        if o and good is not None and not same(o[0], good):
            return [("the state after the run is not the last accepted one (%s)" % st, "process %d: solution differs by %g" % (q, np.max(np.abs(o[0] - good))))]


@oracle("retry")
def retry(prm, run):
    r = run(scn(prm))
    st = prm["cfg"]["stratum"]
    v = basic(prm, r) or prevs(prm, r)
    if v:
        return v
    at = steps(r)
    failed = [a for a in at if a["reason"] is not None and a["reason"] < 0]
    if not failed:
        if gaveup(r):
            return [("the run fails without a failed solve (%s)" % st, why(r))]
        raise Discard("no solve failed")
    run.info["failed solves"] = run.info.get("failed solves", 0) + len(failed)
    acc = [a for a in at if a["reason"] is not None and a["reason"] > 0]
    injected = sum(1 for a in at if a["fault"])
    if gaveup(r) and len(failed) < 6:
        return [("the run gives up after few failures (%s)" % st, "%d failures: %s" % (len(failed), why(r)))]
    if len(failed) > 60:
        return [("the run never gives up (%s)" % st, "%d failures" % len(failed))]
    run.info["gave up"] = run.info.get("gave up", 0) + (1 if gaveup(r) else 0)
    for q in range(r.nranks):
        o = r.get("e.time", q)
        if o and o[0][2] != len(acc):
            return [("failed attempts are counted as steps (%s)" % st, "process %d: counter %d, %d accepted" % (q, int(o[0][2]), len(acc)))]
        if o and abs(o[0][0] - sum(a["dt"] for a in acc)) > 1e-12 * max(o[0][0], 1e-30):
            return [("the time after the run is not that of the last accepted state (%s)" % st, "process %d: %.15g / %.15g" % (q, o[0][0], sum(a["dt"] for a in acc)))]
    body = ["steplog 2"] + ["stepexact %s" % repr(float(a["dt"])) for a in acc] + ["observe e"]
    if prm["cfg"]["mode"] == "RICHARDS":
        body += ["diag e"]
    b = run(scn(prm, [], body))
    if not b.ok:
        if b.outcome == "done" and "converge" in why(b):
            return [("an accepted step is not reproduced without the failures (%s)" % st, why(b))]
        return [("the run with the same steps and no failures does not finish (%s)" % st, why(b))]
    for q in range(r.nranks):
        xa = [x for a, x in zip(at, r.get("solve.x", q)) if a["reason"] > 0]
        xb = b.get("solve.x", q)
        for k, (x, y) in enumerate(zip(xa, xb)):
            if not same(x, y):
                return [("accepted states differ from those of a run without failures (%s)" % st, "process %d step %d (dt %g): differ by %g" % (q, k + 1, acc[k]["dt"], np.max(np.abs(x - y))))]
    for key in () if gaveup(r) else ("e.sat", "e.mass", "e.pres"):
        x, y = r.natural(key), b.natural(key)
        if x is not None and y is not None and not same(x, y):
            return [("diagnostics differ from those of a run without failures (%s)" % st, "%s: differ by %g" % (key, np.max(np.abs(x - y))))]
    return []


@oracle("giveup")
def giveup(prm, run):
    r = run(scn(prm))
    st = prm["cfg"]["stratum"]
    ts = prm["cfg"]["ti"] == "TS"
    v = basic(prm, r) or (None if ts else prevs(prm, r))
    if v:
        return v
    at = steps(r)
    failed = [a for a in at if (a["reason"] is not None and a["reason"] < 0) or a["err"]]
    if not failed:
        if gaveup(r):
            return [("the run fails without a failed solve (%s)" % st, why(r))]
        raise Discard("no solve failed")
    if not gaveup(r) and any(a["err"] == 0 for a in failed):
        # success in spite of a failure: then the requested time must have been reached by accepted steps
        acc = [a for a in at if a["reason"] is not None and a["reason"] > 0]
        t = sum(a["dt"] for a in acc)
        if not ts and abs(t - prm["cfg"]["final"]) > 1e-9 * t:
            return [("a failed solve is not reported (%s)" % st, "accepted steps cover %g of %g, all processes report success" % (t, prm["cfg"]["final"]))]
        if ts and at[-1]["reason"] is not None and at[-1]["reason"] < 0:
            return [("a failed solve is not reported (%s)" % st, "the last solve failed and all processes report success")]
    return []
