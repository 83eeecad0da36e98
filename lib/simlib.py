"""Scenario construction, parallel execution under the simulator, result parsing."""
import json, os, shutil, struct, subprocess, sys, tempfile, threading, queue, time
import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("TDY_BUILD", os.path.join(HERE, "build"))
NPROC = len(os.sched_getaffinity(0))

OUTCOME = {0: "done", 1: "deadlock", 2: "budget", 3: "crash-fault", 4: "abort", 5: "mpi-misuse", 6: "signal",
           7: "premature-exit", 8: "simulator-limit"}
FAULTS = ["io_eio", "io_enospc", "io_short", "io_torn", "crash", "stall", "clock", "alloc", "snes", "io_crash"]


class Scenario:
    """A simulated execution: system configuration, workload, schedule parameters, faults."""

    def __init__(self, nranks=1, seed=0, **kw):
        self.k = dict(nranks=nranks, seed=seed)
        self.k.update(kw)
        self.opts = []
        self.ops = []
        self.faults = []
        self.skew = {}
        self.decisions = None
        self.files = {}      # input files placed in the scratch directory before the run
        self.keep = None     # glob patterns of output files to load into the result
        self.logs = False

    def copy(self):
        s = Scenario()
        s.k = dict(self.k)
        s.opts = list(self.opts)
        s.ops = list(self.ops)
        s.faults = [tuple(f) for f in self.faults]
        s.skew = dict(self.skew)
        s.decisions = self.decisions
        s.files = dict(self.files)
        s.keep = self.keep
        s.logs = self.logs
        return s

    def op(self, *lines):
        for l in lines:
            for q in str(l).split("\n"):
                q = q.strip()
                if q:
                    self.ops.append(q)
        return self

    def opt(self, *a):
        for x in a:
            self.opts.append(str(x))
        return self

    def fault(self, kind, cls="-", rank=-1, n=0, a=0, b=0):
        self.faults.append((kind, cls, rank, int(n), int(a), int(b)))
        return self

    def text(self, scratch):
        L = []
        for k, v in self.k.items():
            L.append("%s %s" % (k, v))
        L.append("scratch " + scratch)
        for r, u in self.skew.items():
            L.append("skew %d %d" % (r, u))
        for f in self.faults:
            L.append("fault %s %s %d %d %d %d" % f)
        if self.decisions is not None:
            L.append("decisions " + self.decisions)
        for o in self.opts:
            L.append("opt " + o)
        for o in self.ops:
            L.append("op " + o)
        return "\n".join(L) + "\n"

    def tojson(self):
        import base64
        return dict(k=self.k, opts=self.opts, ops=self.ops, faults=[list(f) for f in self.faults],
                    skew={str(k): v for k, v in self.skew.items()}, decisions=self.decisions,
                    files={k: base64.b64encode(v).decode() for k, v in self.files.items()}, keep=self.keep)

    @staticmethod
    def fromjson(j):
        import base64
        s = Scenario()
        s.k = j["k"]
        s.opts = j["opts"]
        s.ops = j["ops"]
        s.faults = [tuple(f) for f in j["faults"]]
        s.skew = {int(k): v for k, v in j["skew"].items()}
        s.decisions = j["decisions"]
        s.files = {k: base64.b64decode(v) for k, v in j["files"].items()}
        s.keep = j["keep"]
        return s


class Result:
    """What a simulated execution did."""

    def __init__(self, path, nranks):
        with open(path, "rb") as f:
            head = f.readline()
            raw = f.read()
        self.j = json.loads(head)
        self.nranks = nranks
        self.outcome = OUTCOME[self.j["outcome"]]
        self.msg = self.j["msg"]
        self.hash = self.j["hash"]
        self.ilhash = self.j["ilhash"]
        self.rc = self.j["rc"]
        self.done = self.j["done"]
        self.rec = []          # (rank, key, value) in simulation order
        self.files = {}
        self.logs = []
        o = 0
        n = len(raw)
        while o + 16 <= n:
            kl, cnt, ty, rank = struct.unpack_from("<IIII", raw, o)
            o += 16
            key = raw[o:o + kl].decode()
            o += kl
            t = chr(ty)
            if t == "d":
                v = np.frombuffer(raw, "<f8", cnt, o).copy()
                o += 8 * cnt
            elif t == "i":
                v = np.frombuffer(raw, "<i4", cnt, o).copy()
                o += 4 * cnt
            else:
                v = raw[o:o + cnt].decode("latin1")
                o += cnt
            self.rec.append((rank, key, v))

    @property
    def ok(self):
        return self.outcome == "done" and all(r == 0 for r in self.rc)

    def get(self, key, rank=None):
        return [v for r, k, v in self.rec if k == key and (rank is None or r == rank)]

    def has(self, key):
        return any(k == key for _, k, _ in self.rec)

    def by_rank(self, key, nth=0):
        """list over ranks of the nth record called key (None where missing)"""
        out = [None] * self.nranks
        cnt = [0] * self.nranks
        for r, k, v in self.rec:
            if k == key:
                if cnt[r] == nth:
                    out[r] = v
                cnt[r] += 1
        return out

    def cells(self, nth=0):
        c = self.by_rank("cells", nth)
        return [x.reshape(-1, 4) for x in c]

    def field(self, key, nth=0, cells_nth=0):
        """global array sorted by cell position: (centroid+volume, values[n,ndof])"""
        c = np.concatenate(self.cells(cells_nth))
        parts = self.by_rank(key, nth)
        if any(p is None for p in parts):
            return None
        v = np.concatenate(parts)
        nd = len(v) // len(c) if len(c) else 0
        v = v.reshape(len(c), nd)
        i = order(c)
        return c[i], v[i]

    def count(self, key):
        cnt = [0] * self.nranks
        for r, k, v in self.rec:
            if k == key:
                cnt[r] += 1
        return min(cnt)

    def natural(self, key, nth=0):
        """assemble a vector dumped as key@offset"""
        out = {}
        cnt = {}
        for r, k, v in self.rec:
            if k.startswith(key + "@"):
                c = cnt.get(r, 0)
                cnt[r] = c + 1
                if c == nth and len(v):
                    out[int(k.split("@")[1])] = v
        if not out:
            return None
        return np.concatenate([out[k] for k in sorted(out)])

    def errors(self):
        return [(r, v) for r, k, v in self.rec if k == "perr"]


def order(c):
    q = np.round(c[:, :3], 7) + 0.0
    return np.lexsort((q[:, 0], q[:, 1], q[:, 2]))


class Pool:
    """Simulator workers.  Each runs one simulated execution at a time."""

    def __init__(self, n=None, variant="std", env=None):
        self.n = n or NPROC
        self.exe = os.path.join(BUILD, variant, "simrun")
        self.base = tempfile.mkdtemp(prefix="tdysim.", dir=os.environ.get("TDY_SCRATCH", None))
        self.env = dict(os.environ)
        self.env.pop("PETSC_OPTIONS", None)
        if env:
            self.env.update(env)
        self.lock = threading.Lock()
        self.stats = dict(runs=0, steps=0, vtime=0.0, fired={k: 0 for k in FAULTS}, messages=0, collectives=0, io=0,
                          switches=0, nranks={})
        self.il = set()
        self.procs = [None] * self.n
        self.free = queue.Queue()
        for i in range(self.n):
            self.free.put(i)
        self.k = 0

    def _proc(self, i):
        if self.procs[i] is None or self.procs[i].poll() is not None:
            cpus = sorted(os.sched_getaffinity(0))
            self.procs[i] = subprocess.Popen([self.exe, "-c", str(cpus[i % len(cpus)])], stdin=subprocess.PIPE,
                                             stdout=subprocess.PIPE, env=self.env, text=True, bufsize=1)
        return self.procs[i]

    def run(self, s, keepdir=None):
        i = self.free.get()
        try:
            with self.lock:
                self.k += 1
                k = self.k
            # the directory name has a fixed length: paths are part of the program's input
            d = os.path.join(self.base, "w%02d" % i)
            shutil.rmtree(d, ignore_errors=True)
            os.mkdir(d)
            for f, b in s.files.items():
                p = os.path.join(d, f)
                with open(p, "wb") as g:
                    g.write(b)
            sf = d + ".scn"
            rf = d + ".res"
            with open(sf, "w") as g:
                g.write(s.text(d))
            if os.path.exists(rf):
                os.unlink(rf)
            p = self._proc(i)
            p.stdin.write("%s %s\n" % (sf, rf))
            p.stdin.flush()
            ans = p.stdout.readline()
            if ans.strip() != "0":
                raise RuntimeError("simulator failed on\n" + s.text(d) + "\nanswer=%r" % ans)
            r = Result(rf, s.k["nranks"])
            if s.keep:
                import fnmatch
                for f in sorted(os.listdir(d)):
                    if any(fnmatch.fnmatch(f, g) for g in s.keep):
                        with open(os.path.join(d, f), "rb") as g:
                            r.files[f] = g.read()
            if s.k.get("dump_log"):
                r.iolog = parse_iolog(rf + ".iolog", d)
                os.unlink(rf + ".iolog")
            if not r.ok or s.logs:
                for q in range(s.k["nranks"]):
                    try:
                        with open("%s.log.%d" % (d, q), errors="replace") as g:
                            t = g.read()
                            k = t.find("ERROR: AddressSanitizer")
                            r.logs.append(t[k:k + 6000] if k >= 0 else t[-3000:])
                    except OSError:
                        pass
            with self.lock:
                st = self.stats
                st["runs"] += 1
                st["steps"] += r.j["steps"]
                st["vtime"] += r.j["vtime"]
                st["messages"] += r.j["nmsg"]
                st["collectives"] += r.j["ncoll"]
                st["switches"] += r.j["switches"]
                st["io"] += sum(r.j["io"].values())
                for f in FAULTS:
                    st["fired"][f] += r.j["fired"][f]
                nr = str(s.k["nranks"])
                st["nranks"][nr] = st["nranks"].get(nr, 0) + 1
                self.il.add(r.ilhash)
            return r
        finally:
            self.free.put(i)

    def map(self, fn, items):
        """run fn(item) on all items with as many threads as workers; keeps order"""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(self.n) as ex:
            return list(ex.map(fn, items))

    def close(self):
        for p in self.procs:
            if p is not None:
                try:
                    p.stdin.close()
                    p.wait(5)
                except Exception:
                    p.kill()
        shutil.rmtree(self.base, ignore_errors=True)


def parse_iolog(path, d):
    """list of (op, cls, rank, off, len, data, path, path2) of the simulated disk"""
    out = []
    with open(path, "rb") as f:
        while True:
            l = f.readline()
            if not l:
                break
            t = l.decode().split()
            dl = int(t[5])
            data = f.read(dl) if dl else b""
            f.read(1)
            out.append((int(t[0]), int(t[1]), int(t[2]), int(t[3]), int(t[4]), data, t[6], t[7]))
    return out
