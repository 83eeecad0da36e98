"""P16: observers and clocks do not change the simulation; the timing profile is sound."""
import csv, io
import gen, work
from core import oracle, Discard, why
from util import same

RULE = ("a case counts when the plain run finished and the accepted states, steps and return codes of every observed run equal its own bitwise, "
        "or when the timing profile was read back completely")
ASSUMPTIONS = ["clocks: per-process skew, jumps forward and backward at random steps and stalled processes, all of the simulator; profiles are judged only under monotone clocks"]
N = dict(quick=300, thorough=4000)
QUIET = {"clock"}


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        fe = i % 10 in (3, 8)
        prof = i % 3 == 2
        if fe:
            c = work.fe(rng)
            nr = rng.choice([1, 2, 3])
        else:
            c = work.case(rng, rng.randrange(8), maxcells=18)
            nr = rng.choice([1, 2, 3])
            if nr > work.cells(c) // 2:
                nr = 1
        snes = c.get("ti") == "SNES"
        if prof:
            body = ["steady S"] if fe else ["steplog 1"] + (["run %r" % gen.rnd(c["final"] * 0.5, 5)] if rng.random() < 0.5 else []) + ["run final", "observe e"]
            faults = []
            if not fe and c["disc"] == "FV_TPF":
                faults = [["snes", "any", -1, rng.randrange(0, 3), 0, rng.choice([1, 2])] for _ in range(rng.choice([0, 1, 2]))]
            out.append(dict(kind="profile", prm=dict(cfg=c, nr=nr, body=body, faults=faults, sched=gen.sched(rng), how=rng.choice(["option", "option", "call"]),
                                                     skew={str(q): rng.randrange(-5000000, 5000000) for q in range(nr)} if rng.random() < 0.5 else {}, _lists=["faults"])))
            continue
        obs = []
        for _ in range(rng.choice([2, 3])):
            o = dict(opts=[], first=[], mid=[], end=[], faults=[], skew={})
            pick = lambda: rng.random() < 0.4
            if pick():
                o["opts"].append("-tdy_timers")
            elif pick():
                o["first"].append("timers_on")
            if fe:
                if pick():
                    o["end"].append("timers_write x.csv")
            else:
                if snes and pick():
                    o["opts"] += ["-enable_checkpoint", "-checkpoint_timestep_interval %d" % rng.choice([1, 2, 3])]
                if pick():
                    o["first"].append("iomode " + rng.choice(["ascii", "hdf5"]))
                    if snes:
                        o["opts"].append("-output_timestep_interval %d" % rng.choice([1, 2, 4]))
                    if pick():
                        o["mid"].append("writevec")
                    o["end"].append("writevec")
                if pick():
                    o["opts"] += ["-tdy_regression_test", "-tdy_regression_test_filename reg", "-tdy_regression_test_num_cells_per_process %d" % rng.choice([1, 2])]
                    o["end"].append("regression")
                if pick():
                    o["mid"].append("diag dm")
                    if pick():
                        o["first"].append("diag df")
                if pick():
                    o["first"].append("natural nf")
                    o["mid"].append("natural nm")
                if pick():
                    o["mid"].append("geticraw")
                if pick():
                    o["first"].append("mesh gf")
                if pick():
                    o["mid"].append("checkpoint")
                if pick() and pick():
                    o["mid"].append("timers_write y.csv")
            if pick():
                o["skew"] = {str(q): rng.randrange(-5000000, 5000000) for q in range(nr)}
            if pick():
                for _ in range(rng.choice([1, 2])):
                    o["faults"].append(["clock", "any", -1, rng.randrange(1, 4000), rng.choice([-1, 0]), rng.choice([-10 ** 9, -10 ** 6, 10 ** 6, 10 ** 9])])
            if nr > 1 and pick():
                for _ in range(rng.choice([1, 2])):
                    o["faults"].append(["stall", "any", rng.randrange(nr), rng.randrange(1, 3000), 0, rng.choice([100, 2000])])
            o["sched"] = gen.sched(rng)
            obs.append(o)
        out.append(dict(kind="neutral", prm=dict(cfg=c, nr=nr, obs=obs, snesfail=[rng.randrange(0, 3)] if not fe and c["disc"] == "FV_TPF" and rng.random() < 0.3 else [], _lists=["obs"])))
    return out


def neutral_scn(prm, o):
    c = prm["cfg"]
    if c["disc"] in ("WY", "BDM"):
        body = ["steady S"] + (["mark mid"] if not o else []) + (o["end"] if o else [])
        body = (o["first"] if o else []) + body
    else:
        body = ["steplog 2", "observe a"] + (o["first"] if o else []) + ["run %r" % gen.rnd(c["final"] * 0.6, 6), "observe m"]
        body += (o["mid"] if o else []) + ["run final", "observe e"] + (o["end"] if o else [])
    f = [["snes", "any", -1, k, 0, 1] for k in prm["snesfail"]] + (o["faults"] if o else [])
    s = work.build(c, prm["nr"], body, o["sched"] if o else gen.PLAIN, faults=[tuple(x) for x in f], extra=o["opts"] if o else [])
    if o and o["skew"]:
        s.skew = {int(q): u for q, u in o["skew"].items()}
    return s


@oracle("neutral")
def neutral(prm, run):
    st = prm["cfg"]["stratum"]
    base = run(neutral_scn(prm, None))
    if base.outcome != "done":
        raise Discard(why(base))
    giveup = not base.ok
    if giveup and not work.solver_failure(base):
        return [("the run fails (%s)" % st, why(base))]
    if giveup:
        raise Discard("solver gave up")
    for o in prm["obs"]:
        r = run(neutral_scn(prm, o))
        for k in o["faults"]:
            run.info["fault " + k[0]] = run.info.get("fault " + k[0], 0) + 1
        w = "with %s" % ", ".join(o["opts"] + o["first"] + o["mid"] + o["end"] + (["skewed clocks"] if o["skew"] else []) + [f[0] for f in o["faults"]])
        if r.outcome != "done" or not r.ok:
            return [("a run with observers or another clock fails (%s)" % st, "%s: %s" % (w, why(r)))]
        for q in range(r.nranks):
            for k in dict.fromkeys(k for rr, k, _ in base.rec if rr == q):
                if k in QUIET or k == "mark":
                    continue
                a, b = base.get(k, q), r.get(k, q)
                if len(a) != len(b):
                    return [("observers or the clock change the history (%s)" % st, "%s: process %d: %d %s, %d without" % (w, q, len(b), k, len(a)))]
                for n, (x, y) in enumerate(zip(a, b)):
                    if not same(x, y):
                        return [("observers or the clock change the simulation (%s)" % st, "%s: process %d: %s no. %d differs" % (w, q, k, n))]
    return []




@oracle("profile")
def profile(prm, run):
    c = prm["cfg"]
    st = c["stratum"]
    on = prm["how"] == "option"
    # enabling by a call happens after the setup
    body = ([] if on else ["timers_on"]) + prm["body"] + ["timers_open t", "timers_write prof.csv"]
    s = work.build(c, prm["nr"], body, prm["sched"], faults=[tuple(f) for f in prm["faults"]], extra=["-tdy_timers"] if on else [])
    if prm["skew"]:
        s.skew = {int(q): u for q, u in prm["skew"].items()}
    s.keep = ["*.csv"]
    r = run(s)
    if r.outcome == "done" and not r.ok and work.solver_failure(r):
        raise Discard("solver gave up")
    if r.outcome != "done" or not r.ok:
        if work.slow(r):
            raise Discard("slow")
        return [("a run with timers fails (%s)" % st, why(r))]
    for q in range(r.nranks):
        if r.get("t.open", q):
            return [("a timer is started and never stopped (%s)" % st, "process %d: %s" % (q, ", ".join(sorted(set(r.get("t.open", q))))))]
        if r.get("t.stage", q)[0][0] != 0:
            return [("a profiling stage is entered and never left (%s)" % st, "process %d" % q)]
    for name in ("prof.csv", "tdycore_profile.csv"):
        m = check_profile(prm, r, name, on)
        if m:
            return [("%s (%s)" % (m[0], st), "%s: %s" % (name, m[1]))]
    return []


def check_profile(prm, r, name, meta):
    c, nr = prm["cfg"], prm["nr"]
    if name not in r.files:
        return "no timing profile was written", "%s" % sorted(r.files)
    lines = r.files[name].decode(errors="replace").split("\n")
    if "METADATA" in lines:
        k = lines.index("METADATA")
        rows, tail = lines[:k], [x for x in lines[k + 1:] if x]
    else:
        rows, tail = lines, []
    if meta:
        n = work.cells(c) if c["mesh"]["n"][2] else c["mesh"]["n"][0] * c["mesh"]["n"][1]
        want = ["Mode,Discretization,NumProc,NumCells", "%s,%s,%d,%d" % (c["mode"], c["disc"], nr, n)]
        if tail != want:
            return "the timing profile does not describe the run", "%s, expected %s" % (tail, want)
    elif tail:
        return "the timing profile does not describe the run", "%s" % tail
    head = rows[0].split(",")
    if head[:5] != ["Stage Name", "Event Name", "Rank", "Count", "Time"]:
        return "the timing profile is malformed", rows[0][:100]
    seen = {}
    last = {}
    for x in rows[1:]:
        if not x:
            continue
        f = x.split(",")
        if len(f) < 6:
            return "the timing profile is malformed", x[:100]
        key = (f[0], f[1])
        rk, cnt, t = int(f[2]), int(f[3]), float(f[4])
        if rk in seen.setdefault(key, {}):
            return "the timing profile lists a timer twice", "%s of process %d" % (key, rk)
        seen[key][rk] = (cnt, t)
        if not t >= 0:
            return "the timing profile contains a negative time", x[:120]
        if cnt < 0:
            return "the timing profile contains a negative count", x[:120]
        if f[1] != "summary" and cnt == 0 and t != 0:
            return "the timing profile counts no call but a time", x[:120]
    for key, d in seen.items():
        if sorted(d) != list(range(nr)):
            return "the timing profile does not cover all processes", "%s: %s of %d" % (key, sorted(d), nr)
    stages = dict.fromkeys(k[0] for k in seen)
    tot = [sum(seen[(s, "summary")][q][1] for s in stages if (s, "summary") in seen) for q in range(nr)]
    for key, d in seen.items():
        for q, (cnt, t) in d.items():
            if key[1] != "summary" and t > tot[q] * (1 + 1e-5) + 1e-5:
                return "a timer runs longer than the program", "%s of process %d: %g s of %g s" % (key, q, t, tot[q])
    return None
