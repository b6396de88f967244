"""Finite differences and the length of field lines."""

import itertools

import numpy as np

from mc.engine import Family
from zoidberg import diff

ASSUMPTIONS = ["at least 3 (second order) or 5 (fourth order) points along the axis"]


def place(f, axis, ndim, other):
    """f(i) * g(other indices) + h(other indices), varies along `axis`"""
    shp = [other] * ndim
    shp[axis] = len(f)
    idx = np.indices(shp).astype(float)
    g = np.ones(shp)
    h = np.zeros(shp)
    for d in range(ndim):
        if d != axis % ndim:
            g = g * (1 + (d + 1) * idx[d])
            h = h + (d + 2) * idx[d] ** 2
    s = [None] * ndim
    s[axis] = slice(None)
    return f[tuple(s)], g, h


def want_c2(f, periodic):
    n = len(f)
    out = np.zeros(n)
    for i in range(n):
        if periodic:
            out[i] = (f[(i + 1) % n] - f[(i - 1) % n]) / 2
        else:
            j = min(max(i, 1), n - 2)
            out[i] = (f[j + 1] - f[j - 1]) / 2
    return out


def want_c4(f, periodic):
    """Derivative of the polynomial through the closest five points"""
    n = len(f)
    out = np.zeros(n)
    for i in range(n):
        if periodic:
            c = [(k, f[(i + k) % n]) for k in range(-2, 3)]
        else:
            j = min(max(i, 2), n - 3)
            c = [(j + k - i, f[j + k]) for k in range(-2, 3)]
        # Lagrange, derivative at 0
        for a, fa in c:
            s = 0.0
            for b, _ in c:
                if b == a:
                    continue
                p = 1.0 / (a - b)
                for e, _ in c:
                    if e not in (a, b):
                        p *= -e / (a - e)
                s += p
            out[i] += s * fa
    return out


def operator(ctl, nmax, extra):
    """The operators are linear: their action on every unit vector, and sums of
    these, in every dimension and along every axis"""
    op = ctl.choose("operator", ["c2", "c4"])
    periodic = ctl.choose("periodic", [None, False, True])
    lo = 3 if op == "c2" else 5
    n = ctl.choose("n", nmax if isinstance(nmax, list) else range(lo, nmax + 1))
    ndim = ctl.choose("ndim", [1, 2, 3])
    axis = ctl.choose("axis", list(range(ndim)) + list(range(-ndim, 0)))
    i = ctl.choose("unit", range(n))
    j = ctl.choose("second", [None] + (list(range(i + 1, n)) if extra else []))
    dtype = ctl.choose("dtype", [float, int, np.float32])
    ctl.go()
    f = np.zeros(n)
    f[i] = 1.0
    if j is not None:
        f[j] = -3.0
    a, g, h = place(f, axis, ndim, 3)
    F = (2 * (a * g + h)).astype(dtype)
    keep = F.copy()
    fn = getattr(diff, op)
    got = fn(F, axis) if periodic is None else fn(F, axis, periodic)
    ctl.step()
    ctl.check(np.array_equal(F, keep), "input-modified")
    w = (want_c2 if op == "c2" else want_c4)(f, bool(periodic))
    aw, _, _ = place(w, axis, ndim, 3)
    want = np.broadcast_to(2 * aw * g, F.shape)
    tol = 1e-10 if dtype != np.float32 else 1e-4
    ctl.close(got, want, op, atol=tol, rtol=tol, msg=f"axis {axis}")
    ctl.see(got)


def exact(ctl, nmax):
    """Exact for polynomials"""
    op = ctl.choose("operator", ["c2", "c4"])
    lo = 3 if op == "c2" else 5
    n = ctl.choose("n", nmax if isinstance(nmax, list) else range(lo, nmax + 1))
    deg = ctl.choose("degree", range(0, 3 if op == "c2" else 5))
    off = ctl.choose("offset", [-3.0, 0.0, 0.7])
    ctl.go()
    x = np.arange(n) + off
    got = getattr(diff, op)(x**deg, 0)
    want = deg * x ** max(deg - 1, 0)
    sl = slice(1, -1) if op == "c2" and deg == 2 else slice(None)
    ctl.close(got[sl], want[sl], "polynomial", atol=1e-8)
    ctl.step()
    ctl.see(got)


# ------------------------------------------------------------- length of lines
def fine(fR, fZ, y0, y1):
    x, w = np.polynomial.legendre.leggauss(40)
    m = 12
    s = 0.0
    for k in range(m):
        a, b = y0 + (y1 - y0) * k / m, y0 + (y1 - y0) * (k + 1) / m
        y = (a + b) / 2 + x * (b - a) / 2
        e = 1e-5
        dR = (fR(y + e) - fR(y - e)) / (2 * e)
        dZ = (fZ(y + e) - fZ(y - e)) / (2 * e)
        s += np.sum(w * np.sqrt(dR**2 + dZ**2 + fR(y) ** 2)) * (b - a) / 2
    return s


LINES = {
    "circle": (lambda y: 2.0 + 0 * y, lambda y: 0.5 + 0 * y),
    "helix": (lambda y: 1.5 + 0 * y, lambda y: -0.7 * y),
    "outward": (lambda y: 1.0 + 0.3 * y, lambda y: 0 * y),
    "cubic": (lambda y: 2.0 + 0.2 * y - 0.1 * y**2 + 0.03 * y**3, lambda y: 0.4 * y**2 - 0.05 * y**3),
    "tiny": (lambda y: 1e-3 + 0 * y, lambda y: 2.0 * y),
}
GRIDS = {
    "2": [0.0, 0.5],
    "3": [0.0, 0.2, 0.4],
    "4": [-0.5, 0.0, 0.5, 1.0],
    "uneven": [0.3, 0.35, 0.6, 0.7, 1.4],
    "long": list(np.linspace(0, 7.0, 15)),
    "negative": [-4.0, -3.5, -3.0, -2.5],
}


def length(ctl, refines):
    """Arrays of lines: every combination of line in every position"""
    g = ctl.choose("y", list(GRIDS))
    refine = ctl.choose("refine", refines)
    shp = ctl.choose("shape", [(), (1,), (3,), (2, 2)])
    kinds = []
    n = int(np.prod(shp))
    for i in range(n):
        kinds.append(ctl.choose(f"line {i}", list(LINES) if i < 2 else ["helix"]))
    form = ctl.choose("y as", ["list", "array"])
    ctl.go()
    y = np.array(GRIDS[g])
    # lines of at most third order are represented exactly, with enough points
    RZ = np.zeros((len(y), n, 2))
    want = np.zeros(n)
    for i, k in enumerate(kinds):
        fR, fZ = LINES[k]
        if k == "cubic" and len(y) < 4:
            # use the polynomial through the points
            pR, pZ = (np.polyfit(y, f(y), len(y) - 1) for f in (fR, fZ))
            fR, fZ = (lambda t, p=pR: np.polyval(p, t)), (lambda t, p=pZ: np.polyval(p, t))
        RZ[:, i, 0], RZ[:, i, 1] = fR(y), fZ(y)
        want[i] = fine(fR, fZ, y[0], y[-1])
    RZ = RZ.reshape((len(y),) + shp + (2,))
    keep = RZ.copy()
    kw = {} if refine is None else dict(refine=refine)
    yy = y if form == "array" else GRIDS[g]
    got = diff.field_line_length(RZ, yy, **kw)
    ctl.step()
    ctl.check(np.array_equal(RZ, keep) and np.array_equal(y, yy), "input-modified")
    r = 100 if refine is None else refine
    h = np.max(np.diff(y)) / r
    ctl.check(np.shape(got) == shp, "shape", f"{np.shape(got)} {shp}")
    ctl.close(np.reshape(got, n), want, "length", rtol=0.3 * h**2 + 1e-8, atol=0)
    ctl.see(np.asarray(got))


def families(tier):
    t = tier != "quick"
    return [
        Family("operator", operator, "3-%d points, 1-3 dimensions, every axis, every unit vector%s" % ((12, " and pair") if t else (9, "")), nmax=12 if t else 9, extra=t),
        Family("long", operator, "33-130 points, every axis, every unit vector", nmax=[33, 64, 130] if t else [33, 64], extra=False),
        Family("exact-long", exact, "polynomials up to the order", nmax=[33, 100]),
        Family("exact", exact, "polynomials up to the order", nmax=20 if t else 12),
        Family("length", length, "5 lines, 6 grids in y, arrays of up to 4 lines", refines=[None, 10, 20, 40, 300] if t else [None, 20]),
    ]
