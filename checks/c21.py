"""Magnetic fields: components, direction of the field, physical constraints."""

import os
import sys

import numpy as np

from mc import lib
from mc.engine import Family
from zoidberg import boundary, field

ASSUMPTIONS = [
    "derivatives for divergence and curl are central differences of the returned field",
    "points inside of the coils and away from the axis of the torus",
]

REPO = os.environ.get("ZB_REPO", "/repo")


def pts(shape, x0=0.0, z0=0.0, s=0.3):
    n = int(np.prod(shape))
    t = 0.4 + 2.1 * np.arange(n)
    r = s * (0.3 + 0.7 * ((0.37 * np.arange(n)) % 1))
    return (x0 + r * np.cos(t)).reshape(shape), (z0 + r * np.sin(t)).reshape(shape)


SHAPES = [(1,), (5,), (2, 3), (2, 2, 2)]


def direction_ok(ctl, f, x, z, y, B, R):
    """field_direction and Bmag follow from the components"""
    Bx, By, Bz = B
    ctl.close(f.Bmag(x, z, y), np.sqrt(Bx**2 + By**2 + Bz**2), "Bmag", rtol=1e-9)
    dx, dz = f.field_direction([x, z], y)
    Rm = 1.0 if R is None else R
    ctl.close(dx, Rm * Bx / By, "direction-x", rtol=1e-9, atol=1e-12)
    ctl.close(dz, Rm * Bz / By, "direction-z", rtol=1e-9, atol=1e-12)
    if x.ndim == 1:
        flat = np.column_stack((x, z)).flatten()
        keep = flat.copy()
        got = f.field_direction(flat, y, flatten=True)
        ctl.close(got, np.column_stack((Rm * Bx / By, Rm * Bz / By)).flatten(), "direction-flat", rtol=1e-9, atol=1e-12)
        ctl.check(np.array_equal(flat, keep), "input-modified")
    ctl.step(3)


def components(ctl, f, x, z, y, B, R):
    xk, zk = x.copy(), z.copy()
    for name, want in zip("xyz", B):
        got = getattr(f, f"B{name}func")(x, z, y)
        want = np.broadcast_to(want, x.shape)
        ctl.close(np.broadcast_to(got, x.shape), want, "B" + name, rtol=1e-9, atol=1e-13)
    r = f.Rfunc(x, z, y)
    ctl.check((r is None) == (R is None), "geometry", str(r))
    if R is not None:
        ctl.close(np.broadcast_to(r, x.shape), np.broadcast_to(R, x.shape), "R", rtol=1e-12)
    ctl.check(np.array_equal(x, xk) and np.array_equal(z, zk), "input-modified")
    ctl.step(4)
    direction_ok(ctl, f, x, z, y, [np.broadcast_to(b, x.shape) for b in B], R)
    ctl.see(np.array([np.broadcast_to(b, x.shape) for b in B]))


def slab(ctl):
    curved = ctl.flag("curved")
    By = ctl.choose("By", [None, 0.5, -2.0, 1])
    Bz = ctl.choose("Bz", [None, 0.0, -0.3])
    xc = ctl.choose("xcentre", [None, 1.5])
    bp = ctl.choose("Bzprime", [None, 0.0, -0.7])
    Rm = ctl.choose("Rmaj", [None, 3.0] if curved else [None])
    shp = ctl.choose("shape", SHAPES)
    y = ctl.choose("y", [0.0, 4.0])
    ctl.go()
    kw = {k: v for k, v in (("By", By), ("Bz", Bz), ("xcentre", xc), ("Bzprime", bp), ("Rmaj", Rm)) if v is not None}
    f = (field.CurvedSlab if curved else field.Slab)(**kw)
    By, Bz, xc, bp = (d if v is None else v for v, d in ((By, 1.0), (Bz, 0.1), (xc, 0.0), (bp, 1.0)))
    x, z = pts(shp, 0.4, 0.1)
    R = (1.0 if Rm is None else Rm) if curved else None
    components(ctl, f, x, z, y, (0.0, By, Bz + (x - xc) * bp), R)
    ctl.check(isinstance(f.boundary, boundary.NoBoundary), "boundary")


def coils(kw, y, x, z):
    rad, per, I = (kw.get(k, d) for k, d in (("radius", 0.8), ("yperiod", np.pi), ("I_coil", 0.05)))
    xc, zc = kw.get("xcentre", 0.0), kw.get("zcentre", 0.0)
    Bx, Bz, A = 0.0, 0.0, 0.0
    for i in range(4):
        a = i * np.pi / 2 + 2 * np.pi * y / per
        dx, dz = x - (xc + rad * np.cos(a)), z - (zc + rad * np.sin(a))
        r2 = dx**2 + dz**2
        c = (-1) ** i * I
        Bx = Bx + 0.2 * c * dz / r2
        Bz = Bz - 0.2 * c * dx / r2
        A = A - 0.1 * c * np.log(r2)
    return Bx, Bz, A


_cache = {}


def make(cls, **kw):
    key = (cls.__name__, tuple(sorted(kw.items())))
    if key not in _cache:
        _cache[key] = cls(**kw)
    return _cache[key]


def stellarator(ctl, ys):
    kind = ctl.choose("field", ["StraightStellarator", "RotatingEllipse"])
    xc = ctl.choose("xcentre", [2.5, 3.0] if kind == "RotatingEllipse" else [None, 1.5])
    zc = ctl.choose("zcentre", [None, 0.4])
    rad = ctl.choose("radius", [None, 1.1])
    per = ctl.choose("yperiod", [None, 10.0])
    I = ctl.choose("I_coil", [None, 0.3, -0.1])
    Bt = ctl.choose("Btor", [None, 2.5] if kind == "RotatingEllipse" else [None])
    y = ctl.choose("y", ys)
    shp = ctl.choose("shape", [(6,), (2, 2)])
    ctl.go()
    kw = {k: v for k, v in (("xcentre", xc), ("zcentre", zc), ("radius", rad), ("yperiod", per), ("I_coil", I), ("Btor", Bt)) if v is not None}
    f = make(getattr(field, kind), **kw)
    x, z = pts(shp, kw.get("xcentre", 0.0), kw.get("zcentre", 0.0))
    Bx, Bz, A = coils(kw, y, x, z)
    tor = kind == "RotatingEllipse"
    components(ctl, f, x, z, y, (Bx, kw.get("Btor", 1.0) / x if tor else 1.0, Bz), x if tor else None)
    # the coils return after a period
    P = kw.get("yperiod", np.pi)
    for n in (-1, 1, 2):
        ctl.close(f.Bxfunc(x, z, y + n * P), Bx, "period-x", atol=1e-10)
        ctl.close(f.Bzfunc(x, z, y + n * P), Bz, "period-z", atol=1e-10)
    # vector potential
    e = 1e-5
    ctl.close((f.Afunc(x + e, z, y) - f.Afunc(x - e, z, y)) / (2 * e), Bz, "A-Bz", atol=1e-7)
    ctl.close((f.Afunc(x, z + e, y) - f.Afunc(x, z - e, y)) / (2 * e), -Bx, "A-Bx", atol=1e-7)
    ctl.step(4)


def pinch(ctl):
    xc = ctl.choose("xcentre", [None, 2.5])
    zc = ctl.choose("zcentre", [None, -0.4])
    sh = ctl.choose("shear", [None, 0.3, -1.0])
    Bt = ctl.choose("Btor", [None, 2.5])
    y = ctl.choose("y", [0.0, 1.0])
    shp = ctl.choose("shape", SHAPES)
    ctl.go()
    kw = {k: v for k, v in (("xcentre", xc), ("zcentre", zc), ("shear", sh), ("Btor", Bt)) if v is not None}
    f = make(field.Screwpinch, **kw)
    x0, z0 = kw.get("xcentre", 1.5), kw.get("zcentre", 0.0)
    a = kw.get("shear", 0)
    x, z = pts(shp, x0, z0)
    r = np.hypot(x - x0, z - z0)
    components(ctl, f, x, z, y, (-a * r * (z - z0), kw.get("Btor", 1.0) / x, a * r * (x - x0)), x)


def physical(ctl, f, x, z, y, R0, scale):
    """Vacuum field: no divergence, no curl, in cylindrical coordinates"""
    e = 2e-4 * R0

    def B(x, z, y):
        return [np.asarray(g(x, z, y)) + np.zeros(np.shape(x)) for g in (f.Bxfunc, f.Byfunc, f.Bzfunc)]

    def d(k):
        h = [0.0, 0.0, 0.0]
        h[k] = e if k < 2 else e / R0
        lo = B(x - h[0], z - h[1], y - h[2])
        hi = B(x + h[0], z + h[1], y + h[2])
        return [(b - a) / (2 * h[k]) for a, b in zip(lo, hi)]

    B0 = B(x, z, y)
    dR, dZ, dP = d(0), d(1), d(2)
    tol = 3e-5 * scale / R0
    ctl.close(dR[0] + B0[0] / x + dP[1] / x + dZ[2], np.zeros(x.shape), "divergence", atol=tol)
    ctl.close(dR[2] - dZ[0], np.zeros(x.shape), "curl-phi", atol=tol)
    ctl.close(dR[1] + B0[1] / x - dP[0] / x, np.zeros(x.shape), "curl-z", atol=tol)
    ctl.close(dP[2] / x - dZ[1], np.zeros(x.shape), "curl-R", atol=tol)
    ctl.step(18)
    return B0


def dommaschk(ctl, modes, R0s, pairs):
    R0 = ctl.choose("R_0", R0s)
    B0 = ctl.choose("B_0", [1.0, 2.5])
    m = ctl.choose("mode", modes)
    c = ctl.choose("coefficient", [0, 1, 2, 3])
    second = ctl.choose("second mode", [None] + pairs)
    y = ctl.choose("y", [0.0, 0.7, -2.0])
    ctl.go()
    A = np.zeros((4, 6, 4))
    if c > 1 and m[1] == 0:
        return
    A[m[0], m[1], c] = 0.1
    if second:
        A[second] = -0.2
    keep = A.copy()
    key = ("D", R0, B0, m, c, second)
    if key not in _cache:
        _cache.clear()
        _cache[key] = field.DommaschkPotentials(A, R_0=R0, B_0=B0)
    f = _cache[key]
    ctl.check(np.array_equal(A, keep), "input-modified")
    t = np.array([0.2, 1.7, 3.0, 4.4, 5.5])
    x, z = R0 * (1 + 0.15 * np.cos(t)), R0 * 0.2 * np.sin(t)
    B = physical(ctl, f, x, z, y, R0, max(1.0, B0))
    one = np.array([R0])
    ctl.close(f.Byfunc(one, one * 0, 0.0), np.array([B0]), "on-axis", rtol=1e-9)
    ctl.close(np.broadcast_to(f.Rfunc(x, z, y), x.shape), x, "R")
    # toroidal symmetry of a single mode
    if m[0] and not second:
        for b, g in zip(B, (f.Bxfunc, f.Byfunc, f.Bzfunc)):
            ctl.close(np.asarray(g(x, z, y + 2 * np.pi / m[0])) + 0 * x, b, "period", atol=1e-9)
    direction_ok(ctl, f, x, z, y, B, x)
    # linear in the coefficients: scaled so that the normalisation drops out
    A2 = 2 * A
    key2 = ("D2", R0, B0, m, c, second)
    if key2 not in _cache:
        _cache[key2] = field.DommaschkPotentials(A2, R_0=R0, B_0=B0)
    f2 = _cache[key2]

    def raw(g):
        return [np.asarray(h(x, y, z)) + 0 * x for h in (g.Bxf, g.Byf, g.Bzf)]

    if all(hasattr(f, n) for n in ("Bxf", "Byf", "Bzf")):
        for b1, b2, vac in zip(raw(f), raw(f2), (0 * x, R0 / x, 0 * x)):
            ctl.close(b2 - vac, 2 * (b1 - vac), "linear", atol=1e-8)
    ctl.see(np.array(B))


def eqdsk(ctl, npts):
    """Values at every nth point of the file and between"""
    from freeqdsk import geqdsk

    if "eq" not in _cache:
        fn = os.path.join(REPO, "examples", "test_1.geqdsk")
        with open(fn) as fh:
            data = geqdsk.read(fh)
        _cache["eq"] = field.GEQDSK(fn), data
    f, data = _cache["eq"]
    psi = data["psi"]
    nr, nz = psi.shape
    r = np.linspace(data["rleft"], data["rleft"] + data["rdim"], nr)
    zz = np.linspace(data["zmid"] - data["zdim"] / 2, data["zmid"] + data["zdim"] / 2, nz)
    i = ctl.choose("i", range(3, nr - 3, npts))
    off = ctl.choose("offset", [0.0, 0.3])
    ctl.go()
    j = np.arange(3, nz - 3, 2)
    z = zz[j] + off * (zz[1] - zz[0])
    x = np.full(z.shape, r[i] + off * (r[1] - r[0]))
    p = f.attributes["psi"]
    if off == 0:
        want = psi[i, j] if psi.shape == (nr, nz) else None
        ctl.close(p(x, z, 0.0), want, "psi", atol=1e-9)
    e = 1e-5
    ctl.close(f.Bxfunc(x, z, 0.0), -(p(x, z + e, 0) - p(x, z - e, 0)) / (2 * e) / x, "Bx", atol=1e-5, rtol=1e-4)
    ctl.close(f.Bzfunc(x, z, 0.0), (p(x + e, z, 0) - p(x - e, z, 0)) / (2 * e) / x, "Bz", atol=1e-5, rtol=1e-4)
    By = f.Byfunc(x, z, 0.0)
    lo, hi = min(data["fpol"]), max(data["fpol"])
    ctl.check(np.all((By * x > lo - 0.2 * (hi - lo)) & (By * x < hi + 0.2 * (hi - lo))), "toroidal")
    # no poloidal field on the axis
    ax, az = np.array([data["rmagx"]]), np.array([data["zmagx"]])
    ctl.close(p(ax, az, 0.0), [data["simagx"]], "axis-psi", atol=1e-4)
    for g in (f.Bxfunc, f.Bzfunc):
        ctl.close(g(ax, az, 0.0), [0.0], "axis-B", atol=5e-3)
    ctl.close(f.Rfunc(x, z, 0.0), x, "R")
    lim = inside(data["rlim"], data["zlim"], x, z)
    ctl.check(np.array_equal(f.boundary.outside(x, 0.0, z), ~lim), "limiter")
    direction_ok(ctl, f, x, z, 0.3, [f.Bxfunc(x, z, 0.3), By, f.Bzfunc(x, z, 0.3)], x)
    s = f.Byfunc(float(x[2]), float(z[2]), 0.0)
    ctl.close(np.squeeze(s), By[2], "scalar")
    ctl.step(9)
    ctl.see(By)


def inside(px, pz, x, z):
    from matplotlib.path import Path

    return Path(np.column_stack((px, pz))).contains_points(np.column_stack((x, z)))


def write_eqdsk(fn, nx, ny, zmid, lim, sign):
    """Elliptic flux surfaces around (1.6, zmid + 0.1)"""
    from freeqdsk import geqdsk

    rl, rd, zd = 0.7, 1.8, 2.6
    r, z = np.linspace(rl, rl + rd, nx), np.linspace(zmid - zd / 2, zmid + zd / 2, ny)
    R, Z = np.meshgrid(r, z, indexing="ij")
    psi = sign * (0.3 + flux(R, Z, zmid))
    t = np.linspace(0, 2 * np.pi, 200, endpoint=False)
    edge = 0.25
    s = np.linspace(0, 1, nx)
    L = np.array([[1.0, 2.2, 2.2, 1.5, 1.0], [-0.9, -0.9, 1.1, 1.2, 0.9]])
    d = dict(
        nx=nx, ny=ny, rdim=rd, zdim=zd, rcentr=1.6, rleft=rl, zmid=zmid, rmagx=1.6, zmagx=zmid + 0.1,
        simagx=sign * 0.3, sibdry=sign * (0.3 + edge), bcentr=2.0, cpasma=1e5,
        fpol=3.0 - 0.5 * s**2, pres=1000.0 * (1 - s) ** 2, ffprime=0 * s, pprime=0 * s, psi=psi, qpsi=1 + s,
        rbdry=1.6 + edge**0.5 * np.cos(t), zbdry=zmid + 0.1 + (edge / 0.7) ** 0.5 * np.sin(t),
        nbdry=200, rlim=L[0] if lim else np.array([]), zlim=L[1] + zmid if lim else np.array([]), nlim=5 if lim else 0,
    )
    with open(fn, "w") as fh:
        geqdsk.write(d, fh)
    return L + np.array([[0.0], [zmid]])


def flux(R, Z, zmid):
    return (R - 1.6) ** 2 + 0.7 * (Z - zmid - 0.1) ** 2 + 0.1 * (R - 1.6) * (Z - zmid - 0.1) ** 2


def synthetic(ctl, sizes):
    nx, ny = ctl.choose("size", sizes)
    zmid = ctl.choose("zmid", [0.0, -0.4])
    lim = ctl.flag("limiter")
    sign = ctl.choose("sign of the flux", [1, -1])
    shp = ctl.choose("shape", [(12,), (3, 4)])
    ctl.go()
    fn = os.path.join(ctl.scratch(), "g.eqdsk")
    L = write_eqdsk(fn, nx, ny, zmid, lim, sign)
    f = field.GEQDSK(fn)
    t = np.arange(12) * 1.1
    s = np.array([0.05, 0.2, 0.3, 0.4])[np.arange(12) % 4]
    X, Z = (1.6 + s * np.cos(t)).reshape(shp), (zmid + 0.1 + s * np.sin(t)).reshape(shp)
    u, v = X - 1.6, Z - zmid - 0.1
    psi = sign * (0.3 + flux(X, Z, zmid))
    Bx = -sign * (1.4 * v + 0.2 * u * v) / X
    Bz = sign * (2 * u + 0.1 * v**2) / X
    pn = np.clip(flux(X, Z, zmid) / 0.25, 0, 1)
    # the flux is cut off at the edge of the core, which is only resolved by the grid
    f0, p0 = 3.0 - 0.5 * pn**2, 1000.0 * (1 - pn) ** 2
    near = pn < 0.5
    for y in (0.0, 2.0):
        ctl.close(f.attributes["psi"](X, Z, y), psi, "psi", atol=1e-6)
        ctl.close(f.Bxfunc(X, Z, y), Bx, "Bx", atol=1e-6)
        ctl.close(f.Bzfunc(X, Z, y), Bz, "Bz", atol=1e-6)
        B, p = f.Byfunc(X, Z, y), f.pressure(X, Z, y)
        ctl.check(B.shape == shp and p.shape == shp, "shape")
        ctl.close((B * X)[near], f0[near], "By-core", atol=0.02)
        ctl.close(p[near], p0[near], "pressure-core", atol=25.0)
        ctl.close(f.Rfunc(X, Z, y), X, "R")
    direction_ok(ctl, f, X, Z, 0.3, [f.Bxfunc(X, Z, 0.3), B, f.Bzfunc(X, Z, 0.3)], X)
    # far outside of the core
    xo, zo = np.array([0.75, 2.45, 2.4]), zmid + np.array([-1.25, -1.2, 1.28])
    ctl.close(f.Byfunc(xo, zo, 0.0) * xo, np.full(3, 2.5), "By-outside", atol=0.01)
    ctl.close(f.pressure(xo, zo, 0.0), np.zeros(3), "pressure-outside", atol=5.0)
    gx, gz = np.meshgrid(np.linspace(0.75, 2.45, 11), zmid + np.linspace(-1.25, 1.25, 12), indexing="ij")
    out = f.boundary.outside(gx, 0.0, gz)
    want = ~inside(L[0], L[1], gx.ravel(), gz.ravel()).reshape(gx.shape) if lim else np.zeros(gx.shape, dtype=bool)
    ctl.check(np.array_equal(out, want), "limiter")
    ctl.step(14)
    ctl.see(Bx, Bz, pn)


class Parts(field.MagneticField):
    """Only some of the functions are overridden"""

    def __init__(self, which, bad=None, geom=None):
        self.bad = bad
        if "x" in which:
            self.Bxfunc = lambda x, z, y: 0.3 * x + y
        if "y" in which:
            self.Byfunc = self.by
        if "z" in which:
            self.Bzfunc = lambda x, z, y: z - 2.0
        if "all" in which:
            self.Bxyzfunc = lambda x, z, y: (x * 0 + 5.0, x * 0 + 2.0, x * 0 - 1.0)
        if geom:
            self.Rfunc = lambda x, z, y: x + 1.0

    def by(self, x, z, y):
        b = 2.0 + 0.1 * x
        if self.bad is not None:
            b = b.copy()
            b.flat[self.bad[0]] = self.bad[1]
        return b


def general(ctl):
    which = [k for k in ("x", "y", "z", "all") if ctl.flag("overrides " + k)]
    geom = ctl.flag("cylindrical")
    shp = ctl.choose("shape", [(1,), (4,), (2, 2)])
    y = ctl.choose("y", [0.0, 1.5])
    bad = ctl.choose("By at one point", [None, 0.0, 1e-9, -1e-9, 1e-6] if "y" in which else [None])
    n = int(np.prod(shp))
    at = ctl.choose("point", range(n)) if bad is not None else 0
    ctl.go()
    f = Parts(which, None if bad is None else (at, bad), geom)
    x, z = pts(shp, 2.0, 0.5)
    Bx = 0.3 * x + y if "x" in which else 0 * x
    By = 2.0 + 0.1 * x if "y" in which else np.ones(shp)
    Bz = z - 2.0 if "z" in which else 0 * x
    if bad is not None:
        By = By.copy()
        By.flat[at] = bad
    if "all" in which:
        Bx, By, Bz = 0 * x + 5.0, 0 * x + 2.0, 0 * x - 1.0
    R = x + 1.0 if geom else 1.0
    ctl.step()
    if np.min(np.abs(By)) < 1e-8:
        ctl.raises(ValueError, "small-By", f.field_direction, [x, z], y)
        return
    dx, dz = f.field_direction([x, z], y)
    ctl.close(dx, R * Bx / By, "direction-x", rtol=1e-10)
    ctl.close(dz, R * Bz / By, "direction-z", rtol=1e-10)
    if len(shp) == 1:
        got = f.field_direction(np.column_stack((x, z)).flatten(), y, flatten=True)
        ctl.close(got, np.column_stack((R * Bx / By, R * Bz / By)).flatten(), "direction-flat", rtol=1e-10)
    if "all" not in which:
        ctl.close(f.Bmag(x, z, y), np.sqrt(Bx**2 + By**2 + Bz**2), "Bmag", rtol=1e-10)
    ctl.close(np.zeros(shp) + f.pressure(x, z, y), np.zeros(shp), "pressure")
    ctl.see(dx, dz)


def families(tier):
    t = tier != "quick"
    modes = [(m, l) for m in range(4) for l in range(6)] if t else [(0, 1), (0, 2), (1, 2), (2, 3), (3, 4), (1, 5), (2, 0), (1, 1)]
    return [
        Family("slab", slab, "all combinations of the parameters of slab and curved slab"),
        Family("stellarator", stellarator, "all combinations of parameters of the two coil fields", ys=[0.0, 0.4, 3.0, -1.0] if t else [0.0, 0.4]),
        Family("screwpinch", pinch, "all combinations of parameters"),
        Family("dommaschk", dommaschk, "%d modes, 4 coefficients, single and in pairs" % len(modes), modes=modes,
               R0s=[1.0, 1.7] if t else [1.0, 1.7], pairs=[(1, 2, 1), (2, 3, 2)] if t else [(1, 2, 1)]),
        Family("geqdsk", eqdsk, "the example file, points of the file and in between", npts=1 if t else 4),
        Family("synthetic", synthetic, "files with an analytic flux, different sizes in R and Z", sizes=[(33, 33), (33, 49), (65, 40), (41, 90)] if t else [(33, 49), (65, 40)]),
        Family("general", general, "every combination of overridden functions, weak toroidal field at every point"),
    ]
