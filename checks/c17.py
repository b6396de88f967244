"""Periodic lines in a poloidal plane (RZline, SpectralLine)."""

import itertools

import numpy as np
from scipy.interpolate import CubicSpline

from mc import lib
from mc.engine import Family
from zoidberg import rzline, spectralline

ASSUMPTIONS = ["lines with 4 or more points that do not intersect themselves"]
TP = 2 * np.pi


def shape(name, n):
    t = np.arange(n) * TP / n
    if name == "circle":
        return 2.0 + 0.5 * np.cos(t), 0.5 * np.sin(t)
    if name == "ellipse":
        return 1.0 + 0.4 * np.cos(t), 0.3 + 1.1 * np.sin(t)
    if name == "bean":
        r = 1 + 0.3 * np.cos(t) - 0.2 * np.sin(2 * t)
        return 3.0 + r * np.cos(t), -0.5 + r * np.sin(t)
    if name == "uneven":
        s = t + 0.4 * np.sin(t)
        return 2.0 + np.cos(s), 0.7 * np.sin(s)
    if name == "corner":
        s = np.arange(n) * 4.0 / n
        i, f = np.floor(s).astype(int), s % 1
        cx, cz = np.array([1.0, 3.0, 3.0, 1.0, 1.0]), np.array([0.0, 0.0, 1.0, 1.0, 0.0])
        return cx[i] + f * (cx[i + 1] - cx[i]), cz[i] + f * (cz[i + 1] - cz[i])
    raise KeyError(name)


def area(r, z):
    return 0.5 * np.sum(r * np.roll(z, -1) - np.roll(r, -1) * z)


class Ref:
    """Periodic interpolation of the points in the order of the line"""

    def __init__(self, r, z, k):
        n = len(r)
        self.n, self.k = n, k
        t = np.arange(n + 1) * TP / n
        self.p = [np.append(v, v[0]) for v in (r, z)]
        self.t = t
        if k == 3:
            self.s = [CubicSpline(t, v, bc_type="periodic") for v in self.p]

    def pos(self, th):
        th = np.mod(th, TP)
        if self.k == 3:
            return [s(th) for s in self.s]
        return [np.interp(th, self.t, v) for v in self.p]

    def der(self, th, m):
        th = np.mod(th, TP)
        if self.k == 3:
            return [s(th, m) for s in self.s]
        i = np.clip(np.floor(th / self.t[1]).astype(int), 0, self.n - 1)
        return [np.diff(v)[i] / self.t[1] for v in self.p]

    def arc(self, m=400):
        """length from 0 to each control point, with fine Gauss quadrature"""
        if self.k == 1:
            return np.append(0, np.cumsum(np.hypot(np.diff(self.p[0]), np.diff(self.p[1]))))
        x, w = np.polynomial.legendre.leggauss(24)
        h = TP / self.n
        out = [0.0]
        for i in range(self.n):
            acc = 0.0
            for s in range(8):
                th = (i + (s + (x + 1) / 2) / 8) * h
                acc += np.sum(w * np.hypot(*self.der(np.minimum(th, TP - 1e-13), 1))) * h / 16
            out.append(out[-1] + acc)
        return np.array(out)


def line(ctl, shapes, ns, orders, rolls):
    name = ctl.choose("shape", shapes)
    n = ctl.choose("n", ns)
    rev = ctl.flag("reversed")
    roll = ctl.choose("start", rolls)
    k = ctl.choose("spline_order", orders)
    lists = ctl.flag("lists")
    anti = ctl.choose("anticlockwise", [None, True, False])
    ctl.go()
    r, z = shape(name, n)
    r, z = np.roll(r, roll), np.roll(z, roll)
    if rev:
        r, z = r[::-1].copy(), z[::-1].copy()
    a, b = (r.tolist(), z.tolist()) if lists else (r.copy(), z.copy())
    kw = {} if anti is None else dict(anticlockwise=anti)
    if k is not None:
        kw["spline_order"] = k
    ln = rzline.RZline(a, b, **kw)
    ctl.step()
    ctl.check(np.array_equal(a, r) and np.array_equal(b, z), "input-modified")
    for v in (a, b):
        v[0] = 77.0
        v[-1] = -3.0
    flip = rev and anti is not False
    er, ez = (r[::-1], z[::-1]) if flip else (r, z)
    ctl.close(ln.R, er, "points-R", atol=1e-14)
    ctl.close(ln.Z, ez, "points-Z", atol=1e-14)
    if anti is not False:
        ctl.check(area(ln.R, ln.Z) > 0, "clockwise")
    ctl.close(ln.theta, np.arange(n) * TP / n, "theta")
    k = k or 3
    ref = Ref(er, ez, k)
    # positions at the points, and periodically repeated, and in between
    R, Z = ln.position()
    ctl.close(R, er, "at-points-R", atol=1e-9)
    ctl.close(Z, ez, "at-points-Z", atol=1e-9)
    th = np.concatenate([np.linspace(-7, 13, 161), np.arange(-n, 2 * n) * TP / n])
    if k in (1, 3):
        for got, want, w in zip(ln.position(th), ref.pos(th), "RZ"):
            ctl.close(got, want, "position-" + w, atol=1e-8)
    thn = np.linspace(0.01, 6.2, 57)
    for m in range(-2, 3):
        for f in (ln.Rvalue, ln.Zvalue):
            ctl.close(f(thn + m * TP), f(thn), "periodic", atol=1e-9)
            ctl.close(f(thn + m * TP, deriv=1), f(thn, deriv=1), "periodic-deriv", atol=1e-8)
    if k == 3:
        for d in (1, 2):
            for f, want in zip((ln.Rvalue, ln.Zvalue), ref.der(thn, d)):
                ctl.close(f(thn, deriv=d), want, f"derivative-{d}", atol=1e-6)
    else:
        mid = (np.arange(n) + 0.4) * TP / n
        e = 1e-4
        for f in (ln.Rvalue, ln.Zvalue):
            ctl.close(f(mid, deriv=1), (f(mid + e) - f(mid - e)) / (2 * e), "derivative-1", atol=1e-4)
    ctl.close(np.array(ln.Rvalue(th[3])), np.array(ln.Rvalue(th)[3]), "scalar-theta", atol=1e-12)
    # straight lines
    ref1 = Ref(er, ez, 1)
    for got, want, w in zip(ln.positionPolygon(th), ref1.pos(th), "RZ"):
        ctl.close(got, want, "polygon-" + w, atol=1e-9)
    for got, want in zip(ln.positionPolygon(), (er, ez)):
        ctl.close(got, want, "polygon-points", atol=1e-12)
    ctl.step(8)
    ctl.see(ln.R, ln.Z)


WEIGHTS = {
    "none": None,
    "const": lambda t: 2.5 + 0 * t,
    "cos": lambda t: 1 + 0.5 * np.cos(t),
    "step": lambda t: np.where(t < np.pi, 1.0, 3.0),
}


def dist(ctl, shapes, ns, orders, samples):
    name = ctl.choose("shape", shapes)
    n = ctl.choose("n", ns)
    k = ctl.choose("spline_order", orders)
    roll = ctl.choose("start", [0, 3])
    sample = ctl.choose("sample", samples)
    wn = ctl.choose("weights", list(WEIGHTS))
    ctl.go()
    r, z = (np.roll(v, roll) for v in shape(name, n))
    ln = rzline.RZline(r, z, spline_order=k)
    ref = Ref(r, z, k)
    t = np.arange(n) * TP / n
    w = None if WEIGHTS[wn] is None else WEIGHTS[wn](t)
    kw = {} if sample is None else dict(sample=sample)
    keep = lib.cc((w,))
    got = ln.distance(weights=w, **kw)
    ctl.step()
    if w is not None:
        ctl.check(np.array_equal(w, keep[0]), "input-modified")
    ctl.check(np.shape(got) == (n + 1,), "shape", str(np.shape(got)))
    ctl.close(got[0], 0.0, "start", atol=1e-14)
    arc = ref.arc()
    s = 20 if sample is None else sample
    tol = 1e-9 if k == 1 else 2.5 / s**2 * (TP / n) ** 2 + 1e-6
    seg = np.diff(arc)
    if w is None or wn == "const":
        f = 1.0 if w is None else 2.5
        ctl.close(got, f * arc, "distance", atol=tol * f * arc[-1])
    else:
        wp = np.append(w, w[0])
        lo, hi = np.minimum(wp[:-1], wp[1:]), np.maximum(wp[:-1], wp[1:])
        # the weights are only known at the points, so allow for the sampling
        slack = 1e-9 + (0 if k == 1 else 0.1 * (np.max(w) - np.min(w)))
        for b, c in ((np.roll(lo, 1), np.roll(hi, 1)), (np.roll(lo, -1), np.roll(hi, -1))):
            if k != 1:
                lo, hi = np.minimum(lo, b), np.maximum(hi, c)
        d = np.diff(got)
        ctl.check(np.all(d >= (lo - slack) * seg * (1 - 10 * tol)), "weighted-too-short", str(d / seg))
        ctl.check(np.all(d <= (hi + slack) * seg * (1 + 10 * tol)), "weighted-too-long", str(d / seg))
        g3 = ln.distance(weights=3 * w, **kw)
        ctl.close(g3, 3 * got, "not-linear-in-weights", atol=1e-9)
    ctl.see(got)


def spaced(ctl, shapes, ns, orders, nums):
    name = ctl.choose("shape", shapes)
    n = ctl.choose("n", ns)
    k = ctl.choose("spline_order", orders)
    roll = ctl.choose("start", [0, 2])
    m = ctl.choose("new n", nums)
    wn = ctl.choose("weights", ["none", "const", "step"])
    ctl.go()
    r, z = (np.roll(v, roll) for v in shape(name, n))
    ln = rzline.RZline(r, z, spline_order=k)
    ref = Ref(r, z, k)
    w = None if wn == "none" else WEIGHTS[wn](np.arange(n) * TP / n)
    kw = {}
    if m is not None:
        kw["n"] = m
    if w is not None:
        kw["weights"] = w
    new = ln.equallySpaced(**kw)
    ctl.step()
    m = m or n
    ctl.check(new.R.shape == (m,) and new.Z.shape == (m,), "size", str(new.R.shape))
    ctl.check(area(new.R, new.Z) > 0, "clockwise")
    ctl.close([new.R[0], new.Z[0]], [r[0], z[0]], "first-point", atol=1e-8)
    ctl.check(np.array_equal(ln.R, r) and np.array_equal(ln.Z, z), "line-modified")
    # every new point lies on the line; at which distance along it?
    th = np.linspace(0, TP, 6000 * 2 + 1)
    R, Z = ref.pos(np.minimum(th, TP - 1e-12))
    acc = np.append(0, np.cumsum(np.hypot(np.diff(R), np.diff(Z))))
    L = acc[-1]
    where = []
    last = 0
    for i in range(m):
        d = np.hypot(R - new.R[i], Z - new.Z[i])
        d[:last] = 99
        j = int(np.argmin(d))
        ctl.check(d[j] < 1e-3 * L, "not-on-the-line", f"point {i} is {d[j]} away")
        where.append(acc[j])
        last = j
    where = np.array(where)
    if wn != "step":
        # linear interpolation between the control points
        h = 1.0 / n
        tol = 2e-3 * L if k == 1 else L * (2e-3 + 3 * h * h)
        ctl.close(where, np.arange(m) * L / m, "spacing", atol=tol, rtol=0)
    else:
        # fraction of weighted length, with weights 1 (first half) and 3
        d = np.diff(np.append(where, L))
        half = acc[6000]
        i1 = [i for i in range(m) if where[i] + d[i] < half - 0.5 * L / n]
        i2 = [i for i in range(m) if where[i] > half + 1.5 * L / n and where[i] + d[i] < L - 1.5 * L / n]
        if len(i1) > 1 and len(i2) > 1:
            q = np.mean(d[i1]) / np.mean(d[i2])
            ctl.check(2.2 < q < 3.8, "weighted-spacing", f"ratio {q}")
    ctl.see(new.R, new.Z)


def closest(ctl, shapes, ns, nq):
    name = ctl.choose("shape", shapes)
    n = ctl.choose("n", ns)
    i = ctl.choose("edge", range(max(ns)))
    f = ctl.choose("fraction", nq)
    off = ctl.choose("offset", [-0.05, 0.0, 0.05, 0.4])
    opt = ctl.choose("options", [{}, dict(niter=4), dict(subdivide=30), dict(niter=1, subdivide=200)])
    ctl.go()
    if i >= n:
        return
    r, z = shape(name, n)
    ln = rzline.RZline(r, z)
    ref = Ref(r, z, 1)
    j = (i + 1) % n
    e = np.array([r[j] - r[i], z[j] - z[i]])
    p = np.array([r[i], z[i]]) + f * e + off * np.array([e[1], -e[0]])
    th = ln.closestPoint(p[0], p[1], **opt)
    ctl.step()
    ctl.check(np.shape(th) == () and 0 <= th < TP + 1e-12, "range", str(th))
    R, Z = ref.pos(float(th))
    d = np.hypot(R - p[0], Z - p[1])
    # true distance to the polygon
    best = 1e9
    for a in range(n):
        A = np.array([r[a], z[a]])
        E = np.array([r[(a + 1) % n], z[(a + 1) % n]]) - A
        s = np.clip(np.dot(p - A, E) / np.dot(E, E), 0, 1)
        best = min(best, np.hypot(*(A + s * E - p)))
    h = np.hypot(*e)
    ctl.check(d <= best + 0.01 * h, "not-closest", f"distance {d}, closest {best}, theta {th}")
    ctl.see(round(float(th), 6))


def makers(ctl):
    kind = ctl.choose("kind", ["circle", "shaped"])
    n = ctl.choose("n", [None, 5, 8, 33])
    R0 = ctl.choose("R0", [None, 0.0, -2.0, 5.0])
    a = ctl.choose("a", [None, 0.1, 1.7])
    el = ctl.choose("elong", [None, 0.5] if kind == "shaped" else [None])
    tr = ctl.choose("triang", [None, 0.3, -0.3] if kind == "shaped" else [None])
    ind = ctl.choose("indent", [None, 0.05] if kind == "shaped" else [None])
    ctl.go()
    kw = {k: v for k, v in (("n", n), ("R0", R0), ("elong", el), ("triang", tr), ("indent", ind)) if v is not None}
    if a is not None:
        kw["r" if kind == "circle" else "a"] = a
    ln = (rzline.circle if kind == "circle" else rzline.shaped_line)(**kw)
    ctl.step()
    n = n or 20
    t = np.arange(n) * TP / n
    if kind == "circle":
        R0 = 1.0 if R0 is None else R0
        a = 0.5 if a is None else a
        R, Z = R0 + a * np.cos(t), a * np.sin(t)
    else:
        R0 = 3.0 if R0 is None else R0
        a = 1.0 if a is None else a
        el, tr, ind = (v or 0.0 for v in (el, tr, ind))
        R = R0 - ind + (a + ind * np.cos(t)) * np.cos(t + tr * np.sin(t))
        Z = (1 + el) * a * np.sin(t)
    ctl.close(ln.R, R, "R", atol=1e-12)
    ctl.close(ln.Z, Z, "Z", atol=1e-12)
    ctl.see(ln.R, ln.Z)


def spectral(ctl, nums):
    name = ctl.choose("shape", ["circle", "ellipse", "bean"])
    n = ctl.choose("n", [12, 21])
    num = ctl.choose("modes", nums)
    m = ctl.choose("new n", [None, 7, 30])
    ctl.go()
    if name == "bean" and num < 3 or num == 1 and name == "bean":
        return
    r, z = shape(name, n)
    sl = spectralline.SpectralLine(rzline.RZline(r, z), num)
    t = np.arange(n) * TP / n - np.pi
    ctl.close(sl.Rvalue(t), r, "R", atol=1e-6)
    ctl.close(sl.Zvalue(t), z, "Z", atol=1e-6)
    ctl.check(sl.cost < 1e-10, "cost", str(sl.cost))
    new = sl.equallySpaced(**({} if m is None else dict(num=m)))
    m = m or n
    # same curve, starting half way around
    th = np.arange(m) * TP / m - np.pi
    R, Z = shape_at(name, th)
    ctl.close(new.R, R, "new-R", atol=1e-5)
    ctl.close(new.Z, Z, "new-Z", atol=1e-5)
    ctl.step(4)
    ctl.see(new.R, new.Z)


def shape_at(name, t):
    if name == "circle":
        return 2.0 + 0.5 * np.cos(t), 0.5 * np.sin(t)
    if name == "ellipse":
        return 1.0 + 0.4 * np.cos(t), 0.3 + 1.1 * np.sin(t)
    r = 1 + 0.3 * np.cos(t) - 0.2 * np.sin(2 * t)
    return 3.0 + r * np.cos(t), -0.5 + r * np.sin(t)


def families(tier):
    t = tier != "quick"
    sh = ["circle", "ellipse", "bean", "uneven", "corner"]
    return [
        Family("line", line, "5 shapes, 5-%d points, every start, both orientations, spline orders 1-5" % (16 if t else 12),
               shapes=sh, ns=[5, 6, 7, 8, 11, 12, 16] if t else [6, 8, 12], orders=[None, 1, 2, 3, 4, 5] if t else [None, 1, 3, 5],
               rolls=range(6) if t else [0, 1, 3]),
        Family("distance", dist, "5 shapes, spline orders 1 and 3, 4 weights, 1-40 samples", shapes=sh, ns=[8, 12, 20, 33] if t else [8, 20],
               orders=[1, 3], samples=[None, 1, 2, 5, 20, 40] if t else [None, 1, 5]),
        Family("equally", spaced, "5 shapes, new sizes, weights", shapes=sh, ns=[12, 16, 24, 40] if t else [16, 24], orders=[1, 3],
               nums=[None, 5, 10, 17, 40] if t else [None, 10, 37]),
        Family("many-points", line, "lines of 50-150 points", shapes=sh, ns=[50, 150], orders=[1, 3], rolls=[0, 31]),
        Family("many-distance", dist, "lines of 50-150 points", shapes=sh, ns=[50, 150], orders=[1, 3], samples=[None, 3]),
        Family("many-equally", spaced, "lines of 50-150 points, new sizes", shapes=sh, ns=[50, 150], orders=[1, 3], nums=[None, 7, 300]),
        Family("closest", closest, "points next to every edge of 4 shapes", shapes=["circle", "ellipse", "bean", "uneven"], ns=[8, 13, 20, 101] if t else [8, 13, 50],
               nq=[0.0, 0.1, 0.37, 0.5, 0.73, 0.95] if t else [0.0, 0.37, 0.73]),
        Family("makers", makers, "circle and shaped_line with all combinations of arguments"),
        Family("spectral", spectral, "3 shapes, 1-%d modes" % (5 if t else 4), nums=[3, 4, 5] if t else [3, 4]),
    ]
