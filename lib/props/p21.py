"""P21: the distributed mesh is a consistent copy of the global mesh."""
import numpy as np
import gen, work
from core import oracle, Discard, why

RULE = "a case counts when the meshes of every process were read back completely and compared with the box, with each other and with the mesh of one process"
ASSUMPTIONS = ["meshes are boxes of hexahedra or wedges, regular or with interior vertices moved vertically such that faces stay planar where the code assumes it",
               "geometry is compared within 1e-9 relative to the size of the domain"]
N = dict(quick=260, thorough=4000)
STRATA = ["mpfao", "fvtpf", "mpfao-wedge", "fvtpf-wedge", "transient", "th", "salinity", "fvtpf", "fe"]


def cases(rng, tier):
    out = []
    for i in range(N[tier]):
        st = STRATA[i % len(STRATA)]
        big = rng.choice([12, 30, 60, 100])
        if st == "fe":
            c = work.fe(rng, maxn=6)
        else:
            c = gen.config(rng, st, maxcells=big, mincells=4)
        k = work.cells(c) if c["mesh"]["n"][2] else c["mesh"]["n"][0] * c["mesh"]["n"][1]
        runs = []
        for _ in range(3):
            n = rng.choice([1, 2, 3, 4, 5, 6, 8])
            if k < 2 * n:
                n = 2
            runs.append(dict(nr=n, opts=rng.choice(gen.PARTITIONS), sched=gen.sched(rng)))
        out.append(dict(kind="mesh", prm=dict(cfg=c, runs=runs, late=rng.random() < 0.3, _lists=["runs"])))
    return out


class Mesh:
    def __init__(self, r, q):
        g = lambda k: (np.array(r.get("g." + k, q)[0], float) if r.get("g." + k, q) else None)
        self.cells = None
        self.dmcells = g("dmcells").reshape(-1, 5)
        self.dmfaces = g("dmfaces").reshape(-1, 7)
        c = g("mcells")
        if c is None:
            return
        if not len(c):
            g = lambda k: np.zeros(0)
        self.cells = c.reshape(-1, 6)
        f = g("faces").reshape(-1, 12)
        self.finternal, self.flocal, self.area = f[:, 0] > 0, f[:, 1] > 0, f[:, 2]
        self.fx, self.fn = f[:, 3:6], f[:, 6:9]
        self.fc = f[:, 9:11].astype(int)
        v = g("verts").reshape(-1, 4)
        self.vlocal, self.vx = v[:, 0] > 0, v[:, 1:4]
        self.geo = g("facegeo").reshape(-1, 7)
        self.cv, self.cf, self.cn, self.fv = (self.lists(g(k)) for k in ("cellverts", "cellfaces", "cellneigh", "faceverts"))
        x = self.lists(g("vertconn"))
        self.vc, self.vs, self.vf, self.vsf, self.vb = (x[i::5] for i in range(5))
        s = g("subcells")
        self.sub = None
        if s is not None and len(c):
            self.sub, k = [], 0
            while k < len(s):
                cell, T, n = int(s[k]), s[k + 1], int(s[k + 2])
                k += 3
                self.sub.append(dict(cell=cell, T=T, faces=s[k:k + n].astype(int), areas=s[k + n:k + 2 * n], up=s[k + 2 * n:k + 3 * n].astype(int),
                                     nu=s[k + 3 * n:k + 6 * n].reshape(-1, 3), x=s[k + 6 * n:k + 9 * n].reshape(-1, 3)))
                k += 9 * n
        self.own = self.cells[:, 0] > 0
        self.cx, self.vol, self.nat = self.cells[:, 1:4], self.cells[:, 4], self.cells[:, 5].astype(int)

    @staticmethod
    def lists(a):
        out, k = [], 0
        while k < len(a):
            n = int(a[k])
            out.append([int(x) for x in a[k + 1:k + 1 + n]])
            k += n + 1
        return out


def nearest(a, b, tol):
    """for every row of a the row of b at the same place, -1 if there is none"""
    if not len(a) or not len(b):
        return np.full(len(a), -1)
    d = np.linalg.norm(a[:, None, :] - b[None, :, :], axis=2)
    k = d.argmin(1)
    k[d[np.arange(len(a)), k] > tol] = -1
    return k


def intrinsic(m, box, planar, st, q):
    """what holds for the mesh of one process by itself"""
    L = max(box[1] - box[0], box[3] - box[2], box[5] - box[4])
    tol = 1e-9 * L
    bad = lambda what, detail: [(what + " (%s)" % st, "process %d: %s" % (q, detail))]
    owned = np.flatnonzero(m.own)
    if (m.vol <= 0).any():
        return bad("a cell has no volume", m.cx[m.vol <= 0][0])
    # cells, faces and vertices name each other
    for c in owned:
        if len(set(m.cv[c])) != len(m.cv[c]) or len(set(m.cf[c])) != len(m.cf[c]):
            return bad("a cell lists a vertex or face twice", m.cx[c])
        neigh = set()
        for f in m.cf[c]:
            if c not in m.fc[f]:
                return bad("a cell and its face do not name each other", "cell at %s, face at %s" % (m.cx[c], m.fx[f]))
            o = [x for x in m.fc[f] if x != c]
            if m.finternal[f]:
                if len(o) != 1 or o[0] < 0:
                    return bad("an interior face does not join two cells", m.fx[f])
                neigh.add(o[0])
            elif o and o[0] >= 0:
                return bad("a boundary face joins two cells", m.fx[f])
            if not set(m.fv[f]) <= set(m.cv[c]):
                return bad("a face has vertices that its cell does not have", m.fx[f])
        if any(x >= 0 for x in m.cn[c]) and set(x for x in m.cn[c] if x >= 0) != neigh:
            return bad("the neighbours of a cell are not those across its faces", "cell at %s: %s, %s" % (m.cx[c], sorted(m.cn[c]), sorted(neigh)))
        # closed surface and volume
        s, v = np.zeros(3), 0.0
        for f in m.cf[c]:
            if abs(np.linalg.norm(m.fn[f]) - 1) > 1e-9:
                return bad("a normal has not unit length", "face at %s: %s" % (m.fx[f], m.fn[f]))
            out = m.fn[f] if m.fc[f][0] == c else -m.fn[f]
            if out @ (m.fx[f] - m.cx[c]) <= 0:
                return bad("a normal does not point from the first to the second cell", "face at %s: %s" % (m.fx[f], m.fn[f]))
            s += m.area[f] * out
            v += m.area[f] * (out @ (m.fx[f] - m.cx[c])) / 3
        if planar and np.abs(s).max() > 1e-9 * L * L:
            return bad("the surface of a cell is not closed", "cell at %s: %s" % (m.cx[c], s))
        if planar and abs(v - m.vol[c]) > 1e-9 * m.vol[c]:
            return bad("the volume of a cell is not that enclosed by its faces", "cell at %s: %r, %r" % (m.cx[c], m.vol[c], v))
    mine = sorted(set(f for c in owned for f in m.cf[c]))
    for f in mine:
        if len(m.fv[f]) not in (3, 4) or m.area[f] <= 0:
            return bad("a face has no area", m.fx[f])
        up, dn, w, u, pa = m.geo[f, 0], m.geo[f, 1], m.geo[f, 2], m.geo[f, 3:6], m.geo[f, 6]
        n = m.fn[f]
        if m.finternal[f]:
            a, b = m.cx[m.fc[f][0]], m.cx[m.fc[f][1]]
            d = np.linalg.norm(b - a)
            e = (b - a) / d
            if planar and (abs(up + dn - d) > tol or abs((a + e * up - m.fx[f]) @ n) > tol):
                return bad("the distances of a face from its two cells are wrong", "face at %s: %r and %r" % (m.fx[f], up, dn))
        else:
            k = [x for x in m.fc[f] if x >= 0][0]
            e = (m.cx[k] - m.fx[f]) @ n * n
            d = np.linalg.norm(e)
            up2, dn2 = (up, dn) if m.fc[f][1] == k else (dn, up)
            if planar and m.fc[f][1] == k and (abs(up) > tol or abs(dn - d) > tol):
                return bad("the distance of a boundary face from its cell is wrong", "face at %s: %r and %r, expected 0 and %r" % (m.fx[f], up, dn, d))
            e = m.geo[f, 3:6] if m.fc[f][1] != k else None
        if m.finternal[f] and np.abs(u - e).max() > 1e-9:
            return bad("the direction between two cells is wrong", "face at %s: %s, expected %s" % (m.fx[f], u, e))
        if abs(pa - m.area[f] * (u @ n)) > 1e-9 * m.area[f]:
            return bad("the projected area of a face is wrong", "face at %s" % m.fx[f])
        if up + dn > 0 and abs(w - up / (up + dn)) > 1e-9:
            return bad("the weights of the two cells of a face are wrong", "face at %s: %r" % (m.fx[f], w))
    # vertices that belong to owned cells see all cells and faces around them
    allf = {}
    for f in mine:
        for v in m.fv[f]:
            allf.setdefault(v, set()).add(f)
    cells_of = {}
    for c in range(len(m.cells)):
        for v in m.cv[c]:
            cells_of.setdefault(v, set()).add(c)
    for v in sorted(set(v for c in owned for v in m.cv[c])):
        if set(m.vc[v]) != cells_of[v] or len(m.vc[v]) != len(cells_of[v]):
            return bad("the cells around a vertex are wrong", "vertex at %s: %d, expected %d" % (m.vx[v], len(m.vc[v]), len(cells_of[v])))
        if not allf[v] <= set(m.vf[v]) or len(set(m.vf[v])) != len(m.vf[v]):
            return bad("the faces around a vertex are wrong", "vertex at %s: %s" % (m.vx[v], sorted(m.vf[v])))
        for f in m.vf[v]:
            if v not in m.fv[f]:
                return bad("a vertex lists a face that it is not part of", "vertex at %s, face at %s" % (m.vx[v], m.fx[f]))
    if m.sub is not None:
        per = len(m.sub) // len(m.cells)
        tot = {}
        for i, s in enumerate(m.sub):
            c = s["cell"]
            if not m.own[c]:
                continue
            if s["T"] <= 0:
                return bad("a subcell has no volume", "cell at %s" % m.cx[c])
            if not set(s["faces"]) <= set(m.cf[c]):
                return bad("a subcell has a face that its cell does not have", "cell at %s" % m.cx[c])
            g = (m.fx[s["faces"]] - m.cx[c]) @ s["nu"].T
            if np.abs(g + s["T"] * np.eye(3)).max() > 1e-9 * max(s["T"], L ** 3 * 1e-3):
                return bad("the gradient of a subcell is not exact for linear pressures", "cell at %s, subcell %d" % (m.cx[c], i % per))
            for f, a in zip(s["faces"], s["areas"]):
                tot[(c, f)] = tot.get((c, f), 0) + a
        if planar:
            for (c, f), a in tot.items():
                if abs(a - m.area[f]) > 1e-9 * m.area[f]:
                    return bad("the parts of a face do not add up to the face", "face at %s: %r of %r" % (m.fx[f], a, m.area[f]))
    return []


def on_boundary(x, box, dim, tol):
    return any(abs(x[d] - box[2 * d + s]) < tol for d in range(dim) for s in (0, 1))


def whole(ms, box, dim, expected, st):
    """what holds for the meshes of all processes together"""
    L = max(box[1] - box[0], box[3] - box[2])
    tol = 1e-9 * L
    bad = lambda what, detail: [(what + " (%s)" % st, str(detail))]
    vol = 1.0
    for d in range(dim):
        vol *= box[2 * d + 1] - box[2 * d]
    own = np.concatenate([m.dmcells[m.dmcells[:, 0] > 0] for m in ms])
    if len(own) != expected:
        return bad("cells are owned more than once or not at all", "%d cells owned by %d processes, the mesh has %d" % (len(own), len(ms), expected))
    d = np.linalg.norm(own[:, None, 1:4] - own[None, :, 1:4], axis=2) + np.eye(len(own)) * L
    if d.min() < tol:
        return bad("a cell is owned by two processes", own[d.min(1).argmin(), 1:4])
    if abs(own[:, 4].sum() - vol) > 1e-9 * vol:
        return bad("the volumes of the cells do not add up to that of the domain", "%r, expected %r" % (own[:, 4].sum(), vol))
    for q, m in enumerate(ms):
        for f in m.dmfaces:
            if f[2] and (f[0] == 1) != on_boundary(f[3:6], box, dim, tol):
                return bad("the boundary is marked wrongly", "process %d: face at %s: %d" % (q, f[3:6], f[0]))
    if ms[0].cells is None:
        return []
    own = np.concatenate([m.cells[m.own] for m in ms])
    if len(own) != expected:
        return bad("cells are owned more than once or not at all", "%d cells owned by %d processes, the mesh has %d" % (len(own), len(ms), expected))
    if abs(own[:, 4].sum() - vol) > 1e-9 * vol:
        return bad("the volumes of the cells do not add up to that of the domain", "%r, expected %r" % (own[:, 4].sum(), vol))
    if sorted(own[:, 5].astype(int)) != list(range(expected)):
        return bad("natural numbers of the cells are not a permutation", sorted(own[:, 5].astype(int))[:20])
    bx, ba, bn = [], [], []
    for q, m in enumerate(ms):
        for c in np.flatnonzero(m.own):
            for f in m.cf[c]:
                b = on_boundary(m.fx[f], box, 3, tol)
                if b == bool(m.finternal[f]):
                    return bad("a face on the boundary counts as interior or the other way round", "process %d: face at %s" % (q, m.fx[f]))
                if not m.flocal[f]:
                    k = [x for x in m.fc[f] if x >= 0]
                    if all(m.own[x] for x in k):
                        return bad("a face between cells of a process is not its own", "process %d: face at %s" % (q, m.fx[f]))
                if b:
                    bx.append(m.fx[f])
                    ba.append(m.area[f])
    want = 2 * sum((box[2 * a + 1] - box[2 * a]) * (box[2 * b + 1] - box[2 * b]) for a, b in ((0, 1), (0, 2), (1, 2)))
    if abs(sum(ba) - want) > 1e-9 * want:
        return bad("the boundary faces do not add up to the boundary of the domain", "%r, expected %r" % (sum(ba), want))
    return []


def against(m, ref, box, st, q):
    """the mesh of a process against that of one process"""
    L = max(box[1] - box[0], box[3] - box[2], box[5] - box[4])
    tol = 1e-9 * L
    bad = lambda what, detail: [(what + " (%s)" % st, "process %d: %s" % (q, detail))]
    ci, fi, vi = nearest(m.cx, ref.cx, tol), nearest(m.fx, ref.fx, tol), nearest(m.vx, ref.vx, tol)
    if (ci < 0).any() or (vi < 0).any():
        return bad("a process has a cell or vertex that the mesh does not have", (m.cx[ci < 0] if (ci < 0).any() else m.vx[vi < 0])[0])
    if not len(m.cells):
        return []
    if np.abs(m.vol - ref.vol[ci]).max() > 1e-9 * ref.vol.max():
        return bad("the volume of a cell differs from that of one process", "")
    if (m.nat != ref.nat[ci]).any():
        k = np.flatnonzero(m.nat != ref.nat[ci])[0]
        return bad("the natural number of a cell differs from that of one process", "cell at %s (%s): %d, %d" % (m.cx[k], "own" if m.own[k] else "ghost", m.nat[k], ref.nat[ci[k]]))
    for c in np.flatnonzero(m.own):
        if sorted(fi[f] for f in m.cf[c]) != sorted(ref.cf[ci[c]]) or sorted(vi[v] for v in m.cv[c]) != sorted(ref.cv[ci[c]]):
            return bad("the faces or vertices of a cell differ from those of one process", m.cx[c])
        for f in m.cf[c]:
            g = fi[f]
            if abs(m.area[f] - ref.area[g]) > 1e-9 * ref.area[g] or abs(abs(m.fn[f] @ ref.fn[g]) - 1) > 1e-9 or m.finternal[f] != ref.finternal[g]:
                return bad("area, normal or kind of a face differ from those of one process", m.fx[f])
            a = sorted(ci[x] if x >= 0 else -1 for x in m.fc[f])
            b = sorted(x if x >= 0 else -1 for x in ref.fc[g])
            if a != b:
                return bad("the cells at a face differ from those of one process", m.fx[f])
            x, y = m.geo[f], ref.geo[g]
            same = (m.fn[f] @ ref.fn[g]) > 0
            if not m.finternal[f] or same:
                ok = np.abs(x - y).max() <= 1e-9 * max(L, ref.area[g])
            else:
                ok = np.abs(np.array([x[1], x[0], 1 - x[2], -x[3], -x[4], -x[5], x[6]]) - y).max() <= 1e-9 * max(L, ref.area[g])
            if not ok:
                return bad("distances or projected area at a face differ from those of one process", "face at %s: %s, %s" % (m.fx[f], x, y))
    return []


@oracle("mesh")
def mesh(prm, run):
    c = prm["cfg"]
    st = c["stratum"]
    fe = c["disc"] in ("WY", "BDM")
    box = c["mesh"]["box"]
    dim = 3 if c["mesh"]["n"][2] else 2
    n = 1
    for k in c["mesh"]["n"]:
        n *= max(k, 1)
    n *= 2 if c["mesh"]["type"] == "wedge" else 1
    ref = None
    for d in [dict(nr=1, opts=[], sched=gen.PLAIN)] + prm["runs"]:
        body = ["meshx g"]
        if fe:
            s = work.build(c, d["nr"], body, d["sched"], extra=d["opts"])
        else:
            begin = gen.prelude(c) + gen.settings(c) + ["driver"]
            if prm["late"]:
                body = ["ic", "residual r %r" % c["dt"]["init"]] + body
            s = work.build(c, d["nr"], body, d["sched"], extra=d["opts"], begin=begin)
        r = run(s)
        if not r.ok:
            if ref is None:
                raise Discard(why(r))
            return [("the mesh cannot be set up on several processes (%s)" % st, "%d processes: %s" % (d["nr"], why(r)))]
        ms = [Mesh(r, q) for q in range(r.nranks)]
        planar = not fe
        v = whole(ms, box, dim, n, st) if not (fe and c["mesh"]["amp"]) or True else []
        if v:
            return v
        if fe:
            continue
        for q, m in enumerate(ms):
            v = intrinsic(m, box, planar, st, q)
            if v:
                return v
            if ref is not None:
                v = against(m, ref, box, st, q)
                if v:
                    return v
        if ref is None:
            ref = ms[0]
    return []
