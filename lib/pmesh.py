"""Unstructured meshes in the PFLOTRAN format, generated from parameters, with their geometry computed from the vertices.

All faces are planar: the vertices are those of a lattice under a projective map."""
import random
import numpy as np

# faces of each cell type, by number of vertices (PFLOTRAN's vertex order)
FACES = {8: [[0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7], [0, 3, 2, 1], [4, 5, 6, 7]],
         6: [[0, 1, 4, 3], [1, 2, 5, 4], [2, 0, 3, 5], [0, 2, 1], [3, 4, 5]],
         5: [[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4], [0, 3, 2, 1]],
         4: [[0, 1, 3], [1, 2, 3], [0, 3, 2], [0, 2, 1]]}
PERM = [[0, 1, 2, 3], [1, 2, 3, 0], [2, 3, 0, 1], [3, 0, 1, 2]]


def rotate(rng, cell):
    """another valid vertex order of the same cell"""
    k = len(cell)
    if k == 8:
        q = rng.choice(PERM)
        lo, hi = [cell[i] for i in q], [cell[4 + i] for i in q]
        if rng.random() < 0.5:  # upside down
            lo, hi = hi[::-1], lo[::-1]
        return lo + hi
    if k == 6:
        q = rng.choice([[0, 1, 2], [1, 2, 0], [2, 0, 1]])
        lo, hi = [cell[i] for i in q], [cell[3 + i] for i in q]
        if rng.random() < 0.5:
            lo, hi = hi[::-1], lo[::-1]
        return lo + hi
    if k == 5:
        q = rng.choice(PERM)
        return [cell[i] for i in q] + [cell[4]]
    q = rng.choice([[0, 1, 2, 3], [1, 2, 0, 3], [2, 0, 1, 3], [0, 3, 1, 2], [1, 3, 2, 0]])
    return [cell[i] for i in q]


class Mesh:
    """prm: n (lattice), kind (hex|wedge|pyramid|tet|mixed), seed, map (strength of the projective map), shuffle"""

    def __init__(self, prm):
        self.prm = prm
        rng = random.Random(prm["seed"])
        n = prm["n"]
        vid = lambda i, j, k: i + (n[0] + 1) * (j + (n[1] + 1) * k)
        h = prm.get("h", [1.0, 1.0, 1.0])
        g = [[0.0] for _ in range(3)]
        for d in range(3):
            for _ in range(n[d]):
                g[d].append(g[d][-1] + h[d] * (rng.uniform(0.6, 1.4) if prm["graded"] else 1.0))
        V = [[g[0][i], g[1][j], g[2][k]] for k in range(n[2] + 1) for j in range(n[1] + 1) for i in range(n[0] + 1)]
        C = []
        for j in range(n[1]):
            for i in range(n[0]):
                col = rng.choice(["hex", "wedge", "pyr"]) if prm["kind"] == "mixed" else prm["kind"]
                flip = rng.random() < 0.5
                for k in range(n[2]):
                    x = [vid(i, j, k), vid(i + 1, j, k), vid(i + 1, j + 1, k), vid(i, j + 1, k),
                         vid(i, j, k + 1), vid(i + 1, j, k + 1), vid(i + 1, j + 1, k + 1), vid(i, j + 1, k + 1)]
                    t = col
                    if col == "pyr" and rng.random() < 0.5:
                        t = "hex"
                    if t == "hex":
                        C.append(x)
                    elif t == "wedge":
                        for q in ([[0, 1, 2], [0, 2, 3]] if flip else [[0, 1, 3], [1, 2, 3]]):
                            C.append([x[a] for a in q] + [x[4 + a] for a in q])
                    elif t in ("pyr", "pyramid"):
                        V.append([sum(V[a][d] for a in x) / 8 for d in range(3)])
                        for fc in FACES[8]:
                            C.append([x[a] for a in fc[::-1]] + [len(V) - 1])
                    else:
                        for q in ((1, 2), (1, 5), (3, 2), (3, 7), (4, 5), (4, 7)):  # the paths from corner 0 to corner 6
                            C.append([x[0], x[q[0]], x[q[1]], x[6]])
        V = np.array(V)
        s = prm["map"]
        size = V.max(axis=0)
        if s:
            A = np.eye(3) + s * np.array([[rng.uniform(-0.5, 0.5) for _ in range(3)] for _ in range(3)])
            w = s * np.array([rng.uniform(-0.4, 0.4) for _ in range(3)]) / size
            V = (V - 0.5 * size) @ A.T / (1 + (V - 0.5 * size) @ w)[:, None] + 0.5 * size
        # tetrahedra: positive orientation
        out = []
        for c in C:
            if len(c) == 4 and np.linalg.det(V[c[1:]] - V[c[0]]) < 0:
                c = [c[0], c[2], c[1], c[3]]
            if prm["shuffle"]:
                c = rotate(rng, c)
            out.append(c)
        C = out
        if prm["shuffle"]:
            rng.shuffle(C)
            q = list(range(len(V)))
            rng.shuffle(q)
            W = np.empty_like(V)
            for a, b in enumerate(q):
                W[b] = V[a]
            V, C = W, [[q[a] for a in c] for c in C]
        self.V, self.C = V, C
        self.geometry()

    def text(self, dbl=0):
        mv = max(len(c) for c in self.C)
        L = ["%d %d %d %d" % (len(self.C), mv, len(self.V), dbl)]
        for c in self.C:
            L.append(" ".join(map(str, [len(c)] + [a + 1 for a in c] + [0] * (mv - len(c)))))
        L += ["%r %r %r" % tuple(map(float, v)) for v in self.V]
        return ("\n".join(L) + "\n").encode()

    def geometry(self):
        V = self.V
        self.cen = np.array([V[c].mean(axis=0) for c in self.C])
        self.vol = np.zeros(len(self.C))
        own = {}
        for i, c in enumerate(self.C):
            o = self.cen[i]
            for f in FACES[len(c)]:
                f = [c[a] for a in f]
                own.setdefault(frozenset(f), []).append((i, f))
                n = self.areavec(f)
                self.vol[i] += abs(float(n @ (V[f[0]] - o))) / 3.0
        self.con = {}
        self.nb = [set() for _ in self.C]
        self.closed = 0
        for k, l in own.items():
            assert len(l) <= 2
            if len(l) < 2:
                self.closed += 1
                continue
            (a, f), (b, _) = l
            self.nb[a].add(b)
            self.nb[b].add(a)
            self.con[frozenset((a, b))] = self.conn(a, b, f)

    def areavec(self, f):
        P = self.V[f]
        return 0.5 * sum((np.cross(P[i] - P[0], P[i + 1] - P[0]) for i in range(1, len(f) - 1)), np.zeros(3))

    def conn(self, a, b, f):
        """a dict: area, projected area, distance from either centroid to where the line between them meets the face"""
        n = self.areavec(f)
        A = float(np.linalg.norm(n))
        d = self.cen[b] - self.cen[a]
        L = float(np.linalg.norm(d))
        t = float(n @ (self.V[f].mean(axis=0) - self.cen[a])) / float(n @ d)
        return dict(a=a, b=b, area=A, proj=abs(float(n @ d)) / L, da=abs(t) * L, db=abs(1 - t) * L, u=d / L)
