"""Independent reference model of flow and storage on orthogonal box grids (structured indices, no mesh data structure)."""
import bisect
import math
import numpy as np

M64 = (1 << 64) - 1


def mix(z):
    z &= M64
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return z ^ (z >> 31)


def llround(x):
    return int(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)


def hash01(seed, x):
    h = mix(seed + 0x9E3779B97F4A7C15)
    for d in range(3):
        k = llround(x[d] * 1e7) & M64
        h = mix(h ^ ((k + 0x9E3779B97F4A7C15 * (d + 1)) & M64))
    return (h >> 11) * (1.0 / 9007199254740992.0)


def feval(f, x):
    """value of a generated field (the same definition the driver uses)"""
    k, p = f[0], list(f[1:]) + [0] * 10
    if k == "lin":
        return p[0] + p[1] * x[0] + p[2] * x[1] + p[3] * x[2]
    if k == "rand":
        return p[0] + p[1] * (2 * hash01(int(p[2]), x) - 1)
    if k == "logrand":
        return p[0] * 10. ** (p[1] * (2 * hash01(int(p[2]), x) - 1))
    if k == "hydro":
        return p[0] + p[1] * (p[2] - x[2])
    if k == "sin":
        return p[0] + p[1] * math.sin(p[2] * x[0] + p[3] * x[1] + p[4] * x[2])
    if k == "side":
        return p[2] if x[int(p[0])] < p[1] else p[3]
    return p[0]


PREF = 101325.0


class Water:
    def __init__(self, dens):
        self.dens = dens

    def rho(self, p):
        if self.dens == "constant":
            return 998.0
        return 997.16 * math.exp(1e-8 * (p - PREF)) if p >= PREF else 997.16

    def drho(self, p):
        if self.dens == "constant" or p < PREF:
            return 0.0
        return 1e-8 * self.rho(p)

    mu = 9.94e-4


class Curve:
    """van Genuchten saturation with Mualem relative permeability, smoothed near full saturation"""

    def __init__(self, m, alpha):
        self.m, self.alpha = m, alpha
        self.x1 = 0.99

    def se(self, p):
        pc = PREF - p
        if pc <= 0:
            return 1.0
        n = 1.0 / (1.0 - self.m)
        return (1.0 + (self.alpha * pc) ** n) ** (-self.m)

    def dse(self, p):
        pc = PREF - p
        if pc <= 0:
            return 0.0
        n = 1.0 / (1.0 - self.m)
        u = (self.alpha * pc) ** n
        return self.m * n * self.alpha * u / (self.alpha * pc) * (1 + u) ** (-self.m - 1)

    def s(self, p, sr):
        return sr + (1.0 - sr) * self.se(p)

    def kr0(self, se):
        m = self.m
        return math.sqrt(se) * (1.0 - (1.0 - se ** (1.0 / m)) ** m) ** 2

    def kr(self, se):
        if se <= self.x1:
            return self.kr0(se)
        # cubic with the value and slope of the curve at x1 and value 1, slope 0 at 1
        m, x1 = self.m, self.x1
        q = 1.0 - x1 ** (1.0 / m)
        g = 1.0 - q ** m
        slope = 0.5 / math.sqrt(x1) * g * g + math.sqrt(x1) * 2 * g * (m * q ** (m - 1)) * (1.0 / m) * x1 ** (1.0 / m - 1)
        h = 1.0 - x1
        t = (se - x1) / h
        return (2 * t**3 - 3 * t**2 + 1) * self.kr0(x1) + (t**3 - 2 * t**2 + t) * h * slope + (-2 * t**3 + 3 * t**2)


class Grid:
    def __init__(self, cfg):
        self.c = cfg
        m = cfg["mesh"]
        assert m["type"] == "hex" and (m["amp"] == 0 or m["zonly"] == 2)
        self.n = n = [max(k, 1) for k in m["n"]]
        b = m["box"]
        self.lo = [b[0], b[2], b[4]]
        self.hi = [b[1], b[3], b[5]]
        self.lines = [[self.lo[d] + (self.hi[d] - self.lo[d]) * i / n[d] for i in range(n[d] + 1)] for d in range(3)]
        if m["n"][2] == 0:  # two dimensions
            self.lo[2], self.hi[2], self.lines[2] = -0.5, 0.5, [-0.5, 0.5]
        self.f = cfg["fields"]
        self.w = Water(cfg.get("dens"))
        self.cc = Curve(cfg.get("m", 0.8), cfg.get("alpha", 1e-4))
        self.g = cfg["gravity"] if cfg.get("gravity") is not None else 9.8068

    def see(self, pts):
        """the grid lines, from the positions of the cells (their spacing is the mesh generator's choice)"""
        if self.c["mesh"]["amp"] == 0:
            return
        for d in range(3):
            cs = sorted(pts[:, d])
            cs = cs[::len(cs) // self.n[d]]
            assert len(cs) == self.n[d]
            L = [self.lo[d]]
            for x in cs:
                L.append(2 * x - L[-1])
            if abs(L[-1] - self.hi[d]) > 1e-9 * (self.hi[d] - self.lo[d]):
                raise AssertionError("the cells do not fill the box")
            self.lines[d] = L[:-1] + [self.hi[d]]

    def size(self, c):
        return [self.lines[d][c[d] + 1] - self.lines[d][c[d]] for d in range(3)]

    def vol(self, c):
        h = self.size(c)
        return h[0] * h[1] * h[2]

    def cells(self):
        for k in range(self.n[2]):
            for j in range(self.n[1]):
                for i in range(self.n[0]):
                    yield (i, j, k)

    def pos(self, c):
        return [0.5 * (self.lines[d][c[d]] + self.lines[d][c[d] + 1]) for d in range(3)]

    def index(self, pts):
        """structured index -> row of the array of positions"""
        out = {}
        for r, p in enumerate(pts):
            c = tuple(bisect.bisect_right(self.lines[d], p[d]) - 1 for d in range(3))
            out[c] = r
        return out

    def fld(self, name, x, default=0.0):
        return feval(self.f[name], x) if name in self.f else default

    def perm(self, x, d):
        if self.c["perm"] == "iso":
            return self.fld("kx", x)
        return self.fld("k" + "xyz"[d], x)

    def storage(self, p, x):
        """per volume"""
        return self.w.rho(p) * self.fld("poro", x) * self.cc.s(p, self.fld("sr", x, 0.15))

    def dstorage(self, p, x):
        sr = self.fld("sr", x, 0.15)
        return self.fld("poro", x) * (self.w.drho(p) * self.cc.s(p, sr) + self.w.rho(p) * (1 - sr) * self.cc.dse(p))

    def bctype(self, x):
        if "ptype" in self.f:
            return ["dirichlet", "neumann", "seepage"][int(self.fld("ptype", x))]
        return self.c["bc"]

    def flux(self, p):
        """net outflow of every cell; p: dict cell -> pressure.  Also a scale per cell."""
        tpf = self.c["disc"] == "FV_TPF"
        out = {c: 0.0 for c in self.cells()}
        mag = {c: 0.0 for c in self.cells()}
        kink = False
        for c in self.cells():
            for d in range(3):
                for s in (-1, 1):
                    e = list(c)
                    e[d] += s
                    e = tuple(e)
                    h = self.size(c)
                    area = h[(d + 1) % 3] * h[(d + 2) % 3]
                    x = self.pos(c)
                    K = self.perm(x, d)
                    sr = self.fld("sr", x, 0.15)
                    rho = self.w.rho(p[c])
                    kr = self.cc.kr(self.cc.se(p[c]))
                    if 0 <= e[d] < self.n[d]:
                        y = self.pos(e)
                        Ke = self.perm(y, d)
                        T = area / (0.5 * h[d] / K + 0.5 * self.size(e)[d] / Ke)
                        rho_e = self.w.rho(p[e])
                        kr_e = self.cc.kr(self.cc.se(p[e]))
                        w = self.size(e)[d] / (h[d] + self.size(e)[d]) if tpf else 0.5  # the nearer cell has more weight
                        rm = w * rho + (1.0 - w) * rho_e
                        pe = p[e]
                        dz = (y[2] - x[2])
                        seep = False
                    else:
                        xf = list(x)
                        xf[d] += 0.5 * s * h[d]
                        bt = self.bctype(xf)
                        if bt == "neumann":
                            continue
                        pe = feval(self.f["pbc"], xf) if "pbc" in self.f else p[c]
                        T = K / (0.5 * h[d]) * area
                        rho_e = self.w.rho(PREF)
                        kr_e = self.cc.kr(self.cc.se(pe))
                        rm = rho_e if tpf else 0.5 * (rho + rho_e)
                        dz = xf[2] - x[2]
                        seep = bt == "seepage" and pe <= PREF
                    dphi = p[c] - pe - rm * self.g * dz
                    if seep and dphi < 0:
                        continue
                    k = kr if dphi >= 0 else kr_e
                    q = rm * T * k / self.w.mu * dphi
                    if abs(dphi) < 1e-7 * (abs(p[c]) + abs(rm * self.g * dz)):
                        kink = True
                    out[c] += q
                    if k < 1.01e-8:  # mobilities below this are taken as zero
                        mag[c] += abs(q) * 1.1e10
                    mag[c] += rm * T * k / self.w.mu * (abs(p[c]) + abs(pe) + abs(rm * self.g * dz))
        return out, mag, kink

    def residual(self, pts, U, prev=None, dt=None, udot=None):
        """expected residual per row of pts and its scale"""
        self.see(pts)
        idx = self.index(pts)
        p = {c: float(U[idx[c]]) for c in self.cells()}
        fl, mag, kink = self.flux(p)
        R = np.zeros(len(pts))
        S = np.zeros(len(pts))
        for c in self.cells():
            r = idx[c]
            x = self.pos(c)
            src = self.fld("force", x)
            vol = self.vol(c)
            if udot is not None:
                a = vol * (1.0 if self.c["disc"] == "MPFA_O_TRANSIENTVAR" else self.dstorage(p[c], x)) * float(udot[r])
                R[r] = a + fl[c] - src * vol
                S[r] = abs(a) + mag[c] + abs(src) * vol
            else:
                a = self.storage(p[c], x) * vol / dt
                b = self.storage(float(prev[r]), x) * vol / dt
                R[r] = a - b + fl[c] - src * vol
                S[r] = abs(a) + abs(b) + mag[c] + abs(src) * vol
        return R, S, kink

    def residual2(self, pts, U, prev=None, dt=None, udot=None):
        """two equations: TH (mass, energy; without gravity) or SALINITY (mass, salt).  Expected residual, scale, kink"""
        self.see(pts)
        idx = self.index(pts)
        th = self.c["mode"] == "TH"
        f = self.f
        q = {}
        for c in self.cells():
            x = self.pos(c)
            p, s = (float(v) for v in U[idx[c]])
            frac = 0.0 if th else salt_fraction(s, self.fld("mw", x, 58.44))
            q[c] = dict(x=x, p=p, s=s, rho=self.w.rho(p) if th else bw_density(p, 25.0, frac), mu=self.w.mu if th else bw_viscosity(25.0, frac),
                        kr=self.cc.kr(self.cc.se(p)), K=[self.perm(x, d) for d in range(3)],
                        D=self.fld("tk", x, 1.0) if th else self.fld("diff", x, 1e-6))
        H = 1.8890
        R = np.zeros((len(pts), 2))
        S = np.zeros((len(pts), 2))
        kink = False
        for c in self.cells():
            a = q[c]
            r = idx[c]
            h = self.size(c)
            vol = self.vol(c)
            for d in range(3):
                for sg in (-1, 1):
                    e = list(c)
                    e[d] += sg
                    e = tuple(e)
                    area = h[(d + 1) % 3] * h[(d + 2) % 3]
                    if 0 <= e[d] < self.n[d]:
                        b = q[e]
                        he = self.size(e)[d]
                        T = area / (0.5 * h[d] / a["K"][d] + 0.5 * he / b["K"][d])
                        TD = area / (0.5 * h[d] / a["D"] + 0.5 * he / b["D"])
                        dz = b["x"][2] - a["x"][2]
                    else:
                        if self.c["bc"] == "neumann":
                            continue
                        xf = list(a["x"])
                        xf[d] += 0.5 * sg * h[d]
                        pb = feval(f["pbc"], xf) if "pbc" in f else a["p"]
                        n2 = "tbc" if th else "sbc"
                        b = dict(p=pb, s=feval(f[n2], xf) if n2 in f else a["s"], rho=self.w.rho(PREF) if th else bw_density(PREF, 25.0, 0.0),
                                 mu=self.w.mu if th else bw_viscosity(25.0, 0.0), kr=self.cc.kr(self.cc.se(pb)))
                        T = area * a["K"][d] / (0.5 * h[d])
                        TD = area * a["D"] / (0.5 * h[d])
                        dz = xf[2] - a["x"][2]
                    rm = 0.5 * (a["rho"] + b["rho"])
                    grav = 0.0 if th else rm * self.g * dz
                    dphi = a["p"] - b["p"] - grav
                    if dphi != 0.0 and abs(dphi) < 1e-7 * (abs(a["p"]) + abs(grav)):
                        kink = True
                    up = a if dphi >= 0 else b
                    k = rm * T * up["kr"] / up["mu"]
                    fm = k * dphi
                    mm = k * (abs(a["p"]) + abs(b["p"]) + abs(grav))
                    R[r, 0] += fm
                    S[r, 0] += mm
                    if th:
                        R[r, 1] += fm * H + TD * (a["s"] - b["s"])
                        S[r, 1] += mm * H + TD * (abs(a["s"]) + abs(b["s"]))
                    else:
                        R[r, 1] += fm * up["s"] + rm * TD * (a["s"] - b["s"])
                        S[r, 1] += mm * abs(up["s"]) + rm * TD * (abs(a["s"]) + abs(b["s"]))
            x = a["x"]
            src = [self.fld("force", x), self.fld("eforce", x) if th else 0.0]
            sr = self.fld("sr", x, 0.15)
            poro = self.fld("poro", x)
            if th:
                rock = self.fld("sd", x, 2650.0) * self.fld("sc", x, 1000.0)
                dm = self.dstorage(a["p"], x)
                en = H - a["p"] / a["rho"]
                den = -1 / a["rho"] + a["p"] / a["rho"]**2 * self.w.drho(a["p"])
                ud = [float(v) for v in udot[r]]
                st = [dm * ud[0], (dm * en + poro * a["rho"] * self.cc.s(a["p"], sr) * den) * ud[0] + rock * (1 - poro) * ud[1]]
                sc = [abs(v) for v in st]
            else:
                p0, s0 = (float(v) for v in prev[r])
                m1 = a["rho"] * poro * self.cc.s(a["p"], sr) / dt
                m0 = bw_density(p0, 25.0, salt_fraction(s0, self.fld("mw", x, 58.44))) * poro * self.cc.s(p0, sr) / dt
                st = [m1 - m0, m1 * a["s"] - m0 * s0]
                sc = [m1 + m0, abs(m1 * a["s"]) + abs(m0 * s0)]
            for k in range(2):
                R[r, k] += (st[k] - src[k]) * vol
                S[r, k] += (sc[k] + abs(src[k])) * vol
        return R, S, kink


    def residual_wy(self, pts, U, udot, dim):
        """transient finite element residual with one-point mobility per cell: flow part, storage part, scale"""
        self.see(pts)
        idx = self.index(pts)
        f = self.f
        Fl = np.zeros(len(pts))
        St = np.zeros(len(pts))
        S = np.zeros(len(pts))
        for c in self.cells():
            r = idx[c]
            x = self.pos(c)
            h = self.size(c)
            vol = np.prod(h[:dim])
            p = float(U[r])
            kr = self.cc.kr(self.cc.se(p))
            for d in range(dim):
                K = self.perm(x, d) * kr
                area = vol / h[d]
                for sg in (-1, 1):
                    e = list(c)
                    e[d] += sg
                    e = tuple(e)
                    if 0 <= e[d] < self.n[d]:
                        y = self.pos(e)
                        pe = float(U[idx[e]])
                        Ke = self.perm(y, d) * self.cc.kr(self.cc.se(pe))
                        T = area / (0.5 * h[d] / K + 0.5 * self.size(e)[d] / Ke)
                    else:
                        xf = list(x)
                        xf[d] += 0.5 * sg * h[d]
                        pe = feval(f["pbc"], xf) if "pbc" in f else 0.0
                        T = area * K / (0.5 * h[d])
                    Fl[r] += T * (p - pe)
                    S[r] += T * (abs(p) + abs(pe))
            src = self.fld("force", x)
            Fl[r] -= src * vol
            St[r] = self.fld("poro", x) * (1 - self.fld("sr", x, 0.15)) * self.cc.dse(p) * float(udot[r]) * vol
            S[r] += abs(src) * vol + abs(St[r])
        return Fl, St, S


def salt_fraction(psi, mw):
    return psi * mw / (psi * mw + 999.0)


def bw_density(P, T, S):
    p = P * 1e-6
    pw = 1 + 1e-6 * (-80. * T - 3.3 * T**2 + 0.00175 * T**3 + 489. * p - 2. * T * p + 0.016 * p * T**2 - 1.3e-5 * T**3 * p - 0.333 * p**2 - 0.002 * T * p**2)
    return 1000. * pw + S * (0.668 + 0.44 * S + 1e-6 * (300. * p - 2400. * p * S + T * (240. * T - 3300. * S - 13. * p + 47. * p * S))) * 1000.


def bw_viscosity(T, S):
    return 1e-3 * (0.1 + 0.333 * S + (1.65 + 91.9 * S**3) * math.exp((-0.42 * (S**0.8 - 0.17)**2 + 0.045) * T**0.8))
