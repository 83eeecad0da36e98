"""Running the cases of a check: evaluation, gating, minimisation, replay, evidence."""
import copy, hashlib, importlib, json, os, random, subprocess, sys, threading, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
from simlib import Pool, Scenario, NPROC, FAULTS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUBS = ["MPI library (simulated, Open MPI ABI)", "file system calls of libc (simulated disk over a scratch directory)",
         "wall clocks", "solver failures and allocation failures (injected on the real code paths)"]
REAL = ["TDycore (all of /repo/src, compiled from the working tree)", "PETSc 3.17.3", "HDF5", "METIS/ParMETIS", "BLAS/LAPACK"]


class Discard(Exception):
    """the case decides nothing (e.g. the solver did not converge)"""


class Pools:
    def __init__(self):
        self.p = {}
        self.lock = threading.Lock()

    def get(self, variant):
        with self.lock:
            if variant not in self.p:
                env = None
                if variant == "asan":
                    env = dict(ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:allocator_may_return_null=1",
                               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=0")
                self.p[variant] = Pool(variant=variant, env=env)
            return self.p[variant]

    def close(self):
        for p in self.p.values():
            p.close()


class Runner:
    """handed to an oracle: runs scenarios and remembers what they did"""

    def __init__(self, pools):
        self.pools = pools
        self.hashes = []
        self.scns = []
        self.info = {}

    def __call__(self, s, variant="std"):
        r = self.pools.get(variant).run(s)
        self.hashes.append(r.hash)
        self.scns.append((s, r))
        return r

    def need(self, s, variant="std"):
        """run; discard the case unless the run succeeded"""
        r = self(s, variant)
        if not r.ok:
            raise Discard(why(r))
        return r


def why(r):
    """short, stable description of how a run ended"""
    if r.outcome != "done":
        return "%s: %s" % (r.outcome, (r.msg or "").split("\n")[0][:160])
    if any(r.rc):
        e = [v for _, v in r.errors()]
        w = r.get("operr.what")
        return "error %s in op '%s'%s" % (sorted(set(x for x in r.rc if x)), w[0] if w else "?", (" (" + e[0][:200] + ")") if e else "")
    return "ok"


ORACLES = {}


def oracle(kind):
    def deco(f):
        ORACLES[kind] = f
        return f
    return deco


def evaluate(pools, case):
    """-> (violations [(class, message)], runner, discard reason or None)"""
    R = Runner(pools)
    try:
        v = ORACLES[case["kind"]](case["prm"], R)
        return list(v or []), R, None
    except Discard as d:
        return [], R, str(d)
    except Exception as e:
        if os.environ.get("VERIF_RAISE"):
            raise
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return [("observations of the run cannot be judged", "%s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))], R, None


# -------------------------------------------------------------------- minimisation
def default_shrink(prm):
    out = []

    def v(fn):
        d = copy.deepcopy(prm)
        try:
            if fn(d) is not False and d != prm:
                out.append(d)
        except (KeyError, TypeError, IndexError):
            pass

    for i in range(len(prm.get("faults") or [])):
        v(lambda d, i=i: d["faults"].pop(i))
    if prm.get("sched"):
        v(lambda d: d.update(sched=dict(seed=1)))
        for k in list(prm["sched"]):
            if k != "seed":
                v(lambda d, k=k: d["sched"].pop(k))
    if prm.get("extra"):
        for i in range(len(prm["extra"])):
            v(lambda d, i=i: d["extra"].pop(i))
    if isinstance(prm.get("nr"), int) and prm["nr"] > 1:
        for n in range(1, prm["nr"]):
            v(lambda d, n=n: d.update(nr=n))
    if isinstance(prm.get("cfg"), dict):
        for c in gen.simpler(prm["cfg"]):
            v(lambda d, c=c: d.update(cfg=c))
    out = [d for d in out if not isinstance(d.get("cfg"), dict) or "mesh" not in d["cfg"] or valid_mesh(d["cfg"]["mesh"], d.get("nr"))]
    for k in prm.get("_lists", []):      # lists of independent items
        for i in range(len(prm.get(k, []))):
            if len(prm[k]) > 1:
                v(lambda d, k=k, i=i: d[k].pop(i))
    return out


def valid_mesh(m, nr):
    """simplified cases stay in the domain of the generators: every process owns cells"""
    k = 1
    for n in m["n"]:
        k *= max(n, 1)
    if m["type"] == "wedge":
        k *= 2
    return k >= max(4, 2 * (nr if isinstance(nr, int) else 1))


def minimise(pools, case, cls, deadline, shrink):
    cur = case
    tried = 0
    best = True
    while best and time.time() < deadline:
        best = False
        cands = shrink(cur["prm"])
        # evaluate candidates in parallel batches, keep the first that still fails
        for i in range(0, len(cands), NPROC):
            if time.time() > deadline:
                break
            batch = [dict(cur, prm=p) for p in cands[i:i + NPROC]]
            from concurrent.futures import ThreadPoolExecutor

            def ev(c):
                try:
                    return any(x[0] == cls for x in evaluate(pools, c)[0])
                except Exception:
                    return False
            with ThreadPoolExecutor(NPROC) as ex:
                res = list(ex.map(ev, batch))
            tried += len(batch)
            for c, ok in zip(batch, res):
                if ok:
                    cur = c
                    best = True
                    break
            if best:
                break
    return cur, tried


# -------------------------------------------------------------------- known findings
def known_findings():
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out


def is_known(prop, case, cls, msg, kf):
    for k in kf:
        if k["property"] == prop and k["class"] == cls and k.get("kind", case["kind"]) == case["kind"]:
            if all(s in msg for s in k.get("contains", [])) and all(getpath(case["prm"], q) == v for q, v in k.get("where", {}).items()):
                return k
    return None


def getpath(d, q):
    for x in q.split("."):
        d = d.get(x) if isinstance(d, dict) else None
    return d


# -------------------------------------------------------------------- the check
def strength(n):
    return n


def build(variants):
    t = time.time()
    for v in variants:
        p = subprocess.run(["bash", os.path.join(HERE, "build.sh"), v], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            sys.stdout.write(p.stdout[-6000:])
            print("BUILD FAILED (%s)" % v)
            sys.exit(2)
    return time.time() - t


def load(prop):
    return importlib.import_module("props.%s" % prop.lower())


def run_check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = load(prop)
    tb = build(getattr(mod, "VARIANTS", ["std"]))
    pools = Pools()
    rng = random.Random("%s/%s/%d" % (prop, tier, seed))
    budget = float(os.environ.get("VERIF_BUDGET", 0)) or (getattr(mod, "QUICK_BUDGET", 240) if tier == "quick" else getattr(mod, "THOROUGH_BUDGET", 700))
    deadline = t0 + tb + budget
    cases = mod.cases(rng, tier)
    kf = known_findings()
    viol = {}       # class -> (case, msg)
    known = {}
    stats = dict(cases=0, discarded=0, distinct=set(), discards={}, kinds={}, skipped=0, info={})
    lock = threading.Lock()
    replaydir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(replaydir, exist_ok=True)
    errors = []

    def one(case):
        if time.time() > deadline or (len(viol) >= 4) or errors:
            with lock:
                stats["skipped"] += 1
            return
        try:
            v, R, disc = evaluate(pools, case)
        except Exception:
            with lock:
                errors.append((case, traceback.format_exc()))
            return
        with lock:
            stats["cases"] += 1
            stats["kinds"][case["kind"]] = stats["kinds"].get(case["kind"], 0) + 1
            if disc is not None:
                stats["discarded"] += 1
                d = "%s: %s" % (case["kind"], disc[:160])
                stats["discards"][d] = stats["discards"].get(d, 0) + 1
            else:
                stats["distinct"].add(hashlib.sha1("".join(R.hashes).encode()).hexdigest())
            for k, x in R.info.items():
                stats["info"][k] = stats["info"].get(k, 0) + x
            for cls, msg in v:
                k = is_known(prop, case, cls, msg, kf)
                if k:
                    known.setdefault(k["what"], (case, msg))
                elif cls not in viol:
                    viol[cls] = (case, msg, list(R.hashes))

    pool0 = pools.get(getattr(mod, "VARIANTS", ["std"])[0])
    pool0.map(one, cases)
    if errors:
        print("CHECK ERROR in case %s\n%s" % (json.dumps(errors[0][0]), errors[0][1]))
        pools.close()
        sys.exit(2)
    # determinism sample: the first cases again
    det = 0
    detbad = None
    if not viol:
        for c in cases[:getattr(mod, "DETSAMPLE", 2)]:
            a = evaluate(pools, c)[1].hashes
            b = evaluate(pools, c)[1].hashes
            det += len(a)
            if a != b:
                detbad = c
    report = []
    shrink = getattr(mod, "shrink", default_shrink)
    for cls, (case, msg, hashes) in list(viol.items())[:3]:
        # gate: the same case again gives the same executions and the same violation
        v2, R2, _ = evaluate(pools, case)
        same = R2.hashes == hashes
        again = any(c == cls for c, _ in v2)
        if not again:
            print("NOTE: %s/%s did not recur on re-evaluation (hashes %s); not reported" % (prop, cls, "equal" if same else "differ"))
            continue
        mcase, tried = minimise(pools, case, cls, time.time() + (60 if tier == "quick" else 180), shrink)
        v3, R3, _ = evaluate(pools, mcase)
        m3 = [m for c, m in v3 if c == cls]
        if not m3:
            mcase, v3, R3, m3 = case, v2, R2, [m for c, m in v2 if c == cls]
        name = "%s-%s-%s.json" % (prop, "".join(ch if ch.isalnum() else "_" for ch in cls)[:40], hashlib.sha1(json.dumps(mcase, sort_keys=True).encode()).hexdigest()[:10])
        path = os.path.join(replaydir, name)
        with open(path, "w") as f:
            json.dump(dict(property=prop, cls=cls, message=m3[0], case=mcase, original_case=case, seed=seed, tier=tier, minimisation_evaluations=tried,
                           hashes=R3.hashes, scenarios=[s.text("@SCRATCH@") for s, r in R3.scns],
                           outcomes=[why(r) for s, r in R3.scns], fired=[r.j["fired"] for s, r in R3.scns]), f, indent=1)
        q = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "replay", path, "--no-build"], stdout=subprocess.PIPE, text=True)
        fresh = q.returncode == 1
        print("%s: %s: %s" % (prop, cls, m3[0]))
        print("  case: %s" % json.dumps(mcase))
        print("  re-evaluation: %s; fresh-process replay: %s" % ("same hashes" if same else "hashes differ", "exact" if fresh else "class recurs only" if q.returncode == 3 else "not reproduced"))
        if q.returncode in (1, 3):
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)))
            report.append(dict(cls=cls, message=m3[0], replay=os.path.relpath(path, HERE), exact=fresh))
    for w in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    st = {}
    for p in pools.p.values():
        for k, x in p.stats.items():
            if isinstance(x, dict):
                d = st.setdefault(k, {})
                for a, b in x.items():
                    d[a] = d.get(a, 0) + b
            else:
                st[k] = st.get(k, 0) + x
    il = set()
    for p in pools.p.values():
        il |= p.il
    wall = time.time() - t0
    runwall = max(wall - tb, 1e-3)
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"), wall_s=round(wall, 2),
              coverage=dict(evaluations=st.get("runs", 0), distinct_nontrivial=len(stats["distinct"]),
                            rule=getattr(mod, "RULE", "a case counts when all its runs finished as the oracle requires; distinct by the hash of all observations of all its runs"),
                            samples=[c for c in cases[:3]],
                            cases=stats["cases"], cases_discarded=stats["discarded"], discard_reasons=stats["discards"], cases_skipped_time=stats["skipped"],
                            cases_by_kind=stats["kinds"], simulated_runs=st.get("runs", 0), runs_per_hour=int(st.get("runs", 0) * 3600 / runwall),
                            seeds_per_hour=int(len(cases) * 3600 / runwall), simulated_seconds=round(st.get("vtime", 0), 3), scheduler_steps=st.get("steps", 0),
                            context_switches=st.get("switches", 0), messages=st.get("messages", 0), collectives=st.get("collectives", 0), disk_operations=st.get("io", 0),
                            faults_fired=st.get("fired", {}), runs_by_ranks=st.get("nranks", {}), distinct_interleavings=len(il),
                            interleaving_measure="hash over the sequence of (rank, event) decisions of the scheduler", counters=stats["info"],
                            determinism_sample=dict(runs=det, mismatches=0 if detbad is None else 1),
                            real_components=REAL, stub_components=STUBS),
              assumptions=getattr(mod, "ASSUMPTIONS", []), violations=report, known_findings=sorted(known))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases (%d discarded, %d skipped), %d runs, %d distinct interleavings, build %.0fs, total %.0fs" % (
        prop, tier, stats["cases"], stats["discarded"], stats["skipped"], st.get("runs", 0), len(il), tb, wall))
    if os.environ.get("VERIF_VERBOSE"):
        for d, n in sorted(stats["discards"].items(), key=lambda x: -x[1]):
            print("   discard %dx %s" % (n, d))
        print("   counters", stats["info"])
    pools.close()
    if detbad is not None:
        print("NOTE: two evaluations of one case differ: %s" % json.dumps(detbad))
    sys.exit(1 if report else 0)


def run_replay(path, nobuild):
    with open(path) as f:
        j = json.load(f)
    mod = load(j["property"])
    if not nobuild:
        build(getattr(mod, "VARIANTS", ["std"]))
    pools = Pools()
    v, R, disc = evaluate(pools, j["case"])
    pools.close()
    m = [m for c, m in v if c == j["cls"]]
    same = R.hashes == j["hashes"]
    print("class %s: %s; hashes %s" % (j["cls"], m[0] if m else "NOT reproduced", "equal" if same else "differ"))
    if m:
        print("VIOLATION property=%s replay=%s" % (j["property"], path))
        return 1 if same else 3
    return 0
