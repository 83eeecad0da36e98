"""P03: time advances exactly to the requested time in valid steps."""
import math
import gen, work
from core import oracle, Discard, why
from util import steps

RULE = "a case counts when the run finished (or gave up as injected) and its history of attempts was replayed against the rules of step control; distinct by the hash of all observations"
ASSUMPTIONS = ["with TS time integration the step sizes are PETSc's; only times and the step counter are judged",
               "the number of attempts allowed before giving up is taken to be between 6 and 60"]
N = dict(quick=600, thorough=9000)
EPS = 1e-11


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        k = i % 10
        ts = k in (3, 8)
        st = ["th", "mpfao-ts", "transient"][i // 10 % 3] if ts else ["fvtpf", "fvtpf", "mpfao", "fvtpf-wedge", "fvtpf", "salinity", "fvtpf", "mpfao-wedge"][rng.randrange(8)]
        c = work.case(rng, 0, strata=[st], maxcells=12)
        c["mesh"]["amp"] = 0.0
        d = c["dt"]
        d["init"] = gen.rnd(10 ** rng.uniform(-2, 1), 3)
        d["growth"] = rng.choice([1.0, 1.25, 1.5, 2.0, 3.0])
        d["red"] = rng.choice([0.25, 0.5, 0.1, 0.75])
        d["max"] = gen.rnd(d["init"] * rng.choice([0.6, 1.0, 1.7, 4.0, 1e6]), 4)
        n = rng.choice([1, 2, 3, 4])
        t, tg = 0.0, []
        for j in range(n):
            u = rng.random()
            if u < 0.12 and tg:
                tg.append(tg[-1] if rng.random() < 0.5 else gen.rnd(tg[-1] * rng.uniform(0.2, 0.99), 6))
                continue
            t += d["init"] * rng.choice([1e-6, 0.3, 1.0, 1.0, 2.0, rng.uniform(0.5, 3), rng.uniform(2, 9)])
            tg.append(gen.rnd(t, rng.choice([3, 6, 15])))
        c["final"] = max(tg)
        body = ["steplog 1"]
        for j, x in enumerate(tg):
            if j and not ts and rng.random() < 0.2:
                body.append("settimestep %r" % gen.rnd(d["init"] * rng.uniform(0.2, 3), 4))
            body += ["run %r" % x if x != c["final"] or rng.random() < 0.5 else "run final", "observe s%d" % j]
        faults = []
        if c["disc"] == "FV_TPF" and rng.random() < 0.75:
            u = rng.random()
            if u < 0.1:
                a = rng.randrange(0, 4)
                faults = [["snes", "any", -1, q, 0, rng.choice([1, 2])] for q in range(a, a + 60)]
            else:
                q = 0
                for _ in range(rng.randrange(1, 6)):
                    q += rng.randrange(0, 4)
                    faults.append(["snes", "any", -1, q, rng.choice([0, 1]), rng.choice([0, 1, 2])])
                    q += 1
        elif rng.random() < 0.15:
            faults = [["snes", "any", -1, rng.randrange(0, 6), 0, rng.choice([1, 2])]]
        if d["growth"] < 1.5 and len(faults) > 1:
            d["red"] = 0.75
        out.append(dict(kind="ts" if ts else "snes", prm=dict(cfg=c, nr=rng.choice([1, 1, 2, 3]), body=body, sched=gen.sched(rng, 1), faults=faults, _lists=[])))
    return out


def rel(a, b, scale):
    return abs(a - b) <= EPS * max(abs(a), abs(b)) + 4e-16 * abs(scale)


def rounding(at, i, t, T, n):
    """sums of steps may miss T by a rounding error, which the integrator may cover with a tiny step"""
    return i < len(at) and at[i]["dt"] <= 1e-12 * abs(T) and abs(at[i]["time"] - T) <= 1e-12 * abs(T) and at[i]["istep"] == n


def replay(prm, r, q):
    """walk through what process q did; -> None or (class, message)"""
    c = prm["cfg"]
    d = c["dt"]
    at = steps(r, q)
    obs = {}
    i = 0                     # next attempt
    t, n = 0.0, 0             # time, accepted steps
    cap = d["max"]
    nominal = min(d["init"], cap)
    fails = 0
    for l in prm["body"]:
        w = l.split()
        if w[0] == "settimestep":
            nominal = min(float(w[1]), cap)
        elif w[0] == "run":
            T = c["final"] if w[1] == "final" else float(w[1])
            retry = None
            fails = 0
            while t < T - 1e-13 * abs(T) or retry is not None or rounding(at, i, t, T, n):
                if i >= len(at):
                    if work.slow(r):
                        return None
                    if r.ok:
                        return "the run ends before the requested time", "process %d: at time %.17g of %.17g after %d attempts" % (q, t, T, i)
                    if fails < 6 and c["disc"] == "FV_TPF":
                        return "the run gives up after few failures", "process %d: %d failures: %s" % (q, fails, why(r))
                    if fails == 0:
                        return "the run fails without a failed solve", "process %d: %s" % (q, why(r))
                    return None
                a = at[i]
                i += 1
                rem = T - t
                want = retry if retry is not None else min(nominal, rem)
                if not rel(a["time"], t, T):
                    return "a step does not start where the last one ended", "process %d attempt %d: starts at %.17g, the last accepted step ended at %.17g" % (q, i, a["time"], t)
                if retry is None and abs(nominal - rem) <= 1e-9 * nominal:
                    want = a["dt"] if rel(a["dt"], nominal, T) or rel(a["dt"], rem, T) else want
                if not rel(a["dt"], want, T):
                    return ("a step that is cut has the wrong size" if retry is not None else "a step has the wrong size",
                            "process %d attempt %d at time %g: dt %.17g, expected %.17g (nominal %.17g, remaining %.17g, max %g)" % (q, i, t, a["dt"], want, nominal, rem, cap))
                if a["dt"] > cap * (1 + EPS):
                    return "a step exceeds the maximum", "process %d attempt %d: %g > %g" % (q, i, a["dt"], cap)
                if not rel(a["dtime"], a["dt"], T):
                    return "the solver uses another step size than the time integrator", "process %d attempt %d: %.17g / %.17g" % (q, i, a["dtime"], a["dt"])
                if a["istep"] != n:
                    return "the step counter is not the number of accepted steps", "process %d attempt %d: counter %d, %d accepted" % (q, i, a["istep"], n)
                if a["reason"] is None or a["err"]:
                    return None
                if a["reason"] < 0:
                    fails += 1
                    retry = a["dt"] * d["red"]
                    nominal = retry
                    if fails > 60:
                        return "the run never gives up", "process %d: %d failed attempts" % (q, fails)
                else:
                    retry = None
                    n += 1
                    if a["dt"] >= rem * (1 - 1e-15):
                        t = T
                    else:
                        t += a["dt"]
                    nominal = min(nominal * d["growth"], cap)
        elif w[0] == "observe":
            o = r.get(w[1] + ".time", q)
            if not o:
                return None if not r.ok else ("observation missing", w[1])
            o = o[0]
            if not rel(o[0], t, t) :
                return "the run does not end at the requested time", "process %d %s: %.17g, expected %.17g" % (q, w[1], o[0], t)
            if o[2] != n:
                return "the step counter is not the number of accepted steps", "process %d %s: %d, %d accepted" % (q, w[1], int(o[2]), n)
    if i != len(at):
        return "steps are taken beyond the requested time", "process %d: %d attempts, %d expected" % (q, len(at), i)
    return None


def scn(prm):
    return work.build(prm["cfg"], prm["nr"], prm["body"], prm["sched"], faults=[tuple(f) for f in prm["faults"]])


@oracle("snes")
def snes(prm, run):
    r = run(scn(prm))
    st = prm["cfg"]["stratum"]
    # many valid steps that are small for a good reason (repeated cuts, growth factor 1) exhaust the step budget
    if r.outcome != "done" and not work.slow(r):
        return [("the run does not terminate (%s)" % st, why(r))]
    if r.outcome == "done" and any(r.rc) and not all(r.rc):
        return [("processes disagree about success (%s)" % st, why(r))]
    if r.outcome == "done" and any(r.rc) and not any(a["reason"] is not None and a["reason"] < 0 or a["err"] for a in steps(r)):
        return [("the run fails without a failed solve (%s)" % st, why(r))]
    run.info["attempts"] = run.info.get("attempts", 0) + len(steps(r))
    run.info["gave up"] = run.info.get("gave up", 0) + (0 if r.ok else 1)
    for q in range(r.nranks):
        v = replay(prm, r, q)
        if v:
            return [("%s (%s)" % (v[0], prm["cfg"]["disc"]), v[1])]
    return []


@oracle("ts")
def ts(prm, run):
    r = run(scn(prm))
    c = prm["cfg"]
    st = c["stratum"]
    if r.outcome != "done":
        return [("the run does not terminate (%s)" % st, why(r))]
    if any(r.rc) and not all(r.rc):
        return [("processes disagree about success (%s)" % st, why(r))]
    if not r.ok:
        if work.solver_failure(r):
            raise Discard("solver gave up")
        return [("the run fails without a failed solve (%s)" % st, why(r))]
    t = 0.0
    for q in range(r.nranks):
        j = 0
        t = 0.0
        for l in prm["body"]:
            w = l.split()
            if w[0] == "run":
                t = max(t, c["final"] if w[1] == "final" else float(w[1]))
            elif w[0] == "observe":
                o = r.get(w[1] + ".time", q)[0]
                if not rel(o[0], t, t):
                    return [("the run does not end at the requested time (%s)" % st, "process %d %s: %.17g, expected %.17g" % (q, w[1], o[0], t))]
                j += 1
        # counted by a monitor of PETSc's time stepper, once per accepted step
        o = r.get("s%d.time" % (j - 1), q)[0]
        acc = int(o[3])
        conv = sum(1 for a in steps(r, q) if a["reason"] is not None and a["reason"] > 0)
        if c["disc"] != "MPFA_O_TRANSIENTVAR" and conv != acc:
            return [("accepted steps are not those the nonlinear solver solved (%s)" % st, "process %d: %d, %d solves" % (q, acc, conv))]
        if o[2] != acc:
            return [("the step counter is not the number of accepted steps (%s)" % st, "process %d: %d, %d accepted" % (q, int(o[2]), acc))]
    return []
