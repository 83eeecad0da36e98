"""P01: outcome and all observations are the same for every schedule, message delay and content of unwritten memory."""
import gen, work
from core import oracle, Discard, why
from util import diff_records

RULE = "a case counts when the reference run finished and its observations were compared with those of every other schedule; distinct by the hash of all observations"
ASSUMPTIONS = ["the reference is the run under the plain round-robin schedule with zeroed memory; the others use random schedules, delays, synchronous or eager "
               "sends, wildcard matching orders, clock skew and other fill bytes for fresh heap and stack memory",
               "the message layer is the simulator's, whose monitor reports collective mismatches, truncation, reused buffers, leaked or invalid handles"]
N = dict(quick=220, thorough=2600)
IOBODIES = {
    "checkpoint": (["run final", "observe e"], ["-enable_checkpoint", "-checkpoint_timestep_interval 2"]),
    "ascii": (["iomode ascii", "run final", "writevec", "observe e"], []),
    "hdf5": (["iomode hdf5", "writevec", "run final", "writevec", "observe e"], []),
    "regression": (["run final", "regression", "observe e"], ["-tdy_regression_test", "-tdy_regression_test_filename reg", "-tdy_regression_test_num_cells_per_process 2"]),
    "timers": (["run final", "observe e", "timers_write prof.csv"], ["-tdy_timers"]),
    "natural": (["natural n", "icraw 100000 4000 7", "observe a", "residual r 10", "geticraw"], []),
    "cycle": (["run final", "observe e", "destroy"], []),
}


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        k = i % 10
        nv = 3 if tier == "quick" else 6
        if k in (3, 8):
            c = work.fe(rng)
            n = rng.choice([2, 3, 4])
            prm = dict(cfg=c, nr=n, body=["steady S"], opts=[])
        elif k in (1, 6):
            c = work.case(rng, i // 2, strata=["mpfao", "fvtpf", "th", "mpfao-wedge", "fvtpf-wedge", "transient"])
            b, o = IOBODIES[rng.choice(sorted(IOBODIES))]
            prm = dict(cfg=c, nr=work.nranks(rng, c), body=b, opts=o)
        elif k == 9:
            c = work.case(rng, i // 10, strata=["mpfao", "fvtpf", "th", "mpfao-wedge"])
            prm = dict(cfg=c, nr=work.nranks(rng, c), body=["mesh m", "jac j %r 4.0 0.01" % c["dt"]["init"]], opts=[])
        else:
            c = work.case(rng, i)
            prm = dict(cfg=c, nr=work.nranks(rng, c), body=work.march_body(c, two=rng.random() < 0.4), opts=[])
        if c["disc"] == "FV_TPF" and "pbc" in c["fields"] and rng.random() < 0.3:
            b = c["mesh"]["box"]
            t = rng.sample([0, 1, 2], 2)
            c["fields"]["ptype"] = ["side", 0, 0.5 * (b[0] + b[1]) + 0.01, t[0], t[1]]
        prm["opts"] = prm["opts"] + (rng.choice(gen.PARTITIONS) if rng.random() < 0.6 else [])
        prm["variants"] = []
        for j in range(nv):
            s = gen.sched(rng)
            if rng.random() < 0.4:
                s["skew"] = {str(q): rng.randrange(-5000000, 5000000) for q in range(prm["nr"])}
            prm["variants"].append(s)
        prm["_lists"] = ["variants"]
        out.append(dict(kind="schedules", prm=prm))
    return out


# observations that are times of the clock and not results
CLOCKED = {"clock"}


def scn(prm, sched):
    s = work.build(prm["cfg"], prm["nr"], prm["body"], sched, extra=prm["opts"])
    s.keep = ["*.h5", "*.xmf", "*.txt", "*.regression"]
    return s


@oracle("schedules")
def schedules(prm, run):
    base = run(scn(prm, dict(seed=1, perturb=0, stackfill=0)))
    if base.outcome != "done":
        return [("run does not complete (%s)" % prm["cfg"]["stratum"], "plain schedule: " + why(base))]
    if not base.ok:
        if work.solver_failure(base):
            pass
        elif any(base.rc):
            return [("run fails (%s)" % prm["cfg"]["stratum"], "plain schedule: " + why(base))]
    bad = []
    for v in prm["variants"]:
        r = run(scn(prm, v))
        if r.outcome != base.outcome:
            bad.append(("run does not complete under every schedule (%s)" % prm["cfg"]["stratum"], "%s; plain schedule: ok" % why(r)))
            break
        if list(r.rc) != list(base.rc):
            bad.append(("return codes depend on the schedule (%s)" % prm["cfg"]["stratum"], "%s / %s" % (why(base), why(r))))
            break
        d = diff_records(base, r, skip=CLOCKED)
        if d:
            bad.append(("%s depends on the schedule or on unwritten memory (%s)" % (d[0], prm["cfg"]["stratum"]), d[1]))
            break
        if base.ok:
            if sorted(base.files) != sorted(r.files):
                bad.append(("files depend on the schedule", "%s / %s" % (sorted(base.files), sorted(r.files))))
                break
            for f in base.files:
                if base.files[f] != r.files[f] and not f.endswith(".h5"):
                    bad.append(("file %s depends on the schedule" % f.split("_")[-1], "%d / %d bytes" % (len(base.files[f]), len(r.files[f]))))
                    break
        if bad:
            break
    if not bad and not base.ok:
        raise Discard("solver gave up: " + why(base))
    return bad
