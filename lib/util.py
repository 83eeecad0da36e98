"""Comparisons of what runs observed."""
import numpy as np
import gen
from core import Discard, why
from simlib import order

SKIP_KEYS = set()


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return len(a) == len(b) and a.tobytes() == b.tobytes()


def diff_records(r0, r1, skip=()):
    """first difference between the observations of two runs, rank by rank (bitwise); None when equal"""
    for q in range(r0.nranks):
        a = [(k, v) for r, k, v in r0.rec if r == q and k not in skip]
        b = [(k, v) for r, k, v in r1.rec if r == q and k not in skip]
        if [k for k, _ in a] != [k for k, _ in b]:
            ka, kb = [k for k, _ in a], [k for k, _ in b]
            i = next((i for i in range(min(len(ka), len(kb))) if ka[i] != kb[i]), min(len(ka), len(kb)))
            return "observations", "rank %d: observation %d is %s / %s" % (q, i, ka[i] if i < len(ka) else "missing", kb[i] if i < len(kb) else "missing")
        for (k, x), (_, y) in zip(a, b):
            if not same(x, y):
                if isinstance(x, str):
                    return k, "rank %d: %s = %.80r / %.80r" % (q, k, x, y)
                n = min(len(x), len(y))
                with np.errstate(invalid="ignore"):
                    d = np.flatnonzero(~((x[:n] == y[:n]) | (np.isnan(x[:n].astype(float)) & np.isnan(y[:n].astype(float)))))
                if len(d) == 0 and len(x) == len(y):
                    continue
                i = int(d[0]) if len(d) else n
                return k, "rank %d: %s[%d] = %r / %r (%d of %d entries differ)" % (
                    q, k, i, float(x[i]) if i < len(x) else None, float(y[i]) if i < len(y) else None, len(d), len(x))
    return None


def fields_close(ra, rb, key, rtol, atol=0.0, nth=0, scale=None):
    """compare a cell field of two runs by cell position; -> message or None"""
    fa, fb = ra.field(key, nth), rb.field(key, nth)
    if fa is None or fb is None:
        return None if fa is fb else "%s missing in one run" % key
    pa, a = fa
    pb, b = fb
    if a.shape != b.shape:
        return "%s: %s / %s values" % (key, a.shape, b.shape)
    if not np.allclose(pa[:, :3], pb[:, :3], atol=1e-6):
        return "%s: the cells are at different positions" % key
    for d in range(a.shape[1]):
        s = np.max(np.abs(a[:, d])) if scale is None else np.asarray(scale)[:, d] if np.ndim(scale) == 2 else scale
        e = np.abs(a[:, d] - b[:, d])
        bad = ~(e <= rtol * s + atol)
        if np.any(bad):
            k = int(np.argmax(np.where(np.isnan(e), np.inf, e)))
            return "%s[%d] of the cell at (%g, %g, %g): %.15g / %.15g (scale %.3g)" % (key, d, *pa[k, :3], a[k, d], b[k, d], float(np.max(s)))
    return None


def steps(r, rank=0):
    """attempts of time steps: list of dicts (from steplog)"""
    out = []
    b = r.get("solve.begin", rank)
    e = r.get("solve.end", rank)
    for i in range(len(b)):
        x = dict(n=int(b[i][0]), time=b[i][1], dt=b[i][2], dtime=b[i][3], istep=int(b[i][4]))
        if i < len(e):
            x.update(reason=int(e[i][1]), fault=int(e[i][2]), err=int(e[i][3]))
        else:
            x.update(reason=None, fault=0, err=0)
        out.append(x)
    return out


def hard(r):
    """the run broke off in a way that no input justifies"""
    return r.outcome not in ("done",)
