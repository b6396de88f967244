"""Grids between two lines: size, boundaries, shape of the cells."""

import matplotlib.pyplot as plt
import numpy as np

from mc import lib
from mc.engine import Family
from zoidberg import poloidal_grid as zpol
from zoidberg import rzline

ASSUMPTIONS = ["lines around each other that are not too far from circles, with 20 or more points"]
TP = 2 * np.pi
HARD = ("precise", "conformal", "legacy", "aligned")  # may need more iterations


def lines(name, n, start_in, start_out):
    t = np.arange(n) * TP / n
    ti, to = t + start_in, t + start_out
    if name == "concentric":
        return (2 + 0.3 * np.cos(ti), 0.3 * np.sin(ti)), (2 + 0.9 * np.cos(to), 0.9 * np.sin(to))
    if name == "shifted":
        return (2.1 + 0.3 * np.cos(ti), 0.1 + 0.3 * np.sin(ti)), (2 + 0.9 * np.cos(to), 0.9 * np.sin(to))
    if name == "ellipse":
        return (2 + 0.3 * np.cos(ti), 0.4 * np.sin(ti)), (2 + 0.8 * np.cos(to), 1.1 * np.sin(to))
    if name == "bean":
        r = 1 + 0.15 * np.cos(2 * to)
        return (2 + 0.35 * np.cos(ti), 0.35 * np.sin(ti)), (2 + r * np.cos(to), r * np.sin(to))
    raise KeyError(name)


def make(name, n, si=0.0, so=0.0, rev=0):
    a, b = lines(name, n, si, so)
    if rev & 1:
        a = [v[::-1] for v in a]
    if rev & 2:
        b = [v[::-1] for v in b]
    return rzline.RZline(*a), rzline.RZline(*b)


def dist_to(line, R, Z):
    t = np.linspace(0, TP, 3001)
    r, z = line.position(t)
    a = np.column_stack((r[:-1], z[:-1]))
    e = np.column_stack((np.diff(r), np.diff(z)))
    out = np.empty(R.shape)
    for k in np.ndindex(R.shape):
        p = np.array([R[k], Z[k]]) - a
        s = np.clip(np.sum(p * e, axis=1) / np.sum(e * e, axis=1), 0, 1)
        out[k] = np.min(np.hypot(*(p - s[:, None] * e).T))
    return out


def folded(R, Z):
    """Signed area of each of the triangles of each cell"""
    def tri(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])

    P = [(R[:-1], Z[:-1]), (R[1:], Z[1:])]
    Q = [tuple(np.roll(v, -1, axis=1) for v in p) for p in P]
    return np.array([tri(P[0], P[1], Q[1]), tri(P[0], Q[1], Q[0]), tri(P[0], P[1], Q[0]), tri(P[1], Q[1], Q[0])])


def judge(ctl, R, Z, inner, outer, nx, nz, ni, no):
    ctl.check(R.shape == (nx, nz) and Z.shape == (nx, nz), "size", f"{R.shape}, expected {(nx, nz)}")
    i, o = ni, nx - 1 - no
    ctl.check(np.max(dist_to(inner, R[i], Z[i])) < 1e-5, "inner-line", lambda: f"{np.max(dist_to(inner, R[i], Z[i]))} away from the inner line")
    ctl.check(np.max(dist_to(outer, R[o], Z[o])) < 1e-5, "outer-line", lambda: f"{np.max(dist_to(outer, R[o], Z[o]))} away from the outer line")
    core = folded(R[i : o + 1], Z[i : o + 1])
    ctl.check(np.all(core > 0), "folded", lambda: f"{np.sum(core <= 0)} triangles with the wrong orientation")
    for k in range(no):
        for v in (R, Z):
            ctl.close(v[o + 1 + k], v[o] + (k + 1) * (v[o] - v[o - 1]), "outer-extension", atol=1e-10)
    for k in range(ni):
        for v in (R, Z):
            ctl.close(v[i - 1 - k], v[i] + (k + 1) * (v[i] - v[i + 1]), "inner-extension", atol=1e-10)


def equation(R, Z, relax):
    """How far each point would move to solve its difference equation"""
    nx, nz = R.shape
    dx, dz = 1.0 / (nx - 1), TP / nz
    z = lambda v, k: np.roll(v, -k, axis=1)
    d = lambda v: ((v[2:] - v[:-2]) / (2 * dx), relax * (z(v, 1) - z(v, -1))[1:-1] / (2 * dz))
    (Rx, Rz), (Zx, Zz) = d(R), d(Z)
    a, b, c = Rz**2 + Zz**2, Rz * Rx + Zz * Zx, Rx**2 + Zx**2
    out = 0
    for v in (R, Z):
        vxx = (v[2:] - 2 * v[1:-1] + v[:-2]) / dx**2
        vzz = (z(v, 1) - 2 * v + z(v, -1))[1:-1] / dz**2
        vxz = ((z(v, 1) - z(v, -1))[2:] - (z(v, 1) - z(v, -1))[:-2]) / (4 * dx * dz)
        out = out + ((a * vxx - 2 * b * vxz + c * vzz) / (2 * a / dx**2 + 2 * c / dz**2)) ** 2
    return np.sqrt(np.max(out)) if np.size(out) else 0.0


def elliptic(ctl, names, sizes, ns, exts, opts, starts, coords=(True,)):
    name = ctl.choose("lines", names)
    nx, nz = ctl.choose("nx,nz", sizes)
    n = ctl.choose("points", ns)
    ni, no = ctl.choose("nx_inner,nx_outer", exts)
    on = ctl.choose("options", list(opts))
    si, so = ctl.choose("starts", starts)
    rev = ctl.choose("reversed", [0, 1, 2, 3] if starts[0] == (si, so) else [0])
    rc = ctl.choose("return_coords", coords)
    ctl.go()
    inner, outer = make(name, n, si, so, rev)
    keep = lib.cc([inner.R, inner.Z, outer.R, outer.Z])
    kw = dict(opts[on])
    if ni:
        kw["nx_inner"] = ni
    if no:
        kw["nx_outer"] = no
    ctl.step()
    plt.close("all")
    try:
        g = zpol.grid_elliptic(inner, outer, nx, nz, return_coords=rc, **kw)
    except RuntimeError as e:
        # No convergence within the number of iterations
        ctl.check(max(nx, nz) > 16 or on in HARD, "no-convergence", str(e))
        ctl.see("no convergence")
        return
    for a, b in zip(keep, [inner.R, inner.Z, outer.R, outer.Z]):
        ctl.check(np.array_equal(a, b), "input-modified")
    if not rc:
        ctl.check(isinstance(g, zpol.StructuredPoloidalGrid), "type", str(type(g)))
        ctl.check((g.nx, g.nz) == (nx, nz), "grid-size", f"{g.nx}, {g.nz}")
        R, Z = zpol.grid_elliptic(inner, outer, nx, nz, return_coords=True, **kw)
        ctl.close(g.R, R, "grid-R", atol=1e-14)
        ctl.close(g.Z, Z, "grid-Z", atol=1e-14)
        return
    R, Z = g
    judge(ctl, R, Z, inner, outer, nx, nz, ni, no)
    core = slice(ni, nx - no)
    e = equation(R[core], Z[core], kw.get("dz_relax", 10 / 3))
    ctl.check(e < 1.5 * kw.get("tol", 1e-10) ** 0.5, "equation", f"the difference equation is violated by {e}")
    o = nx - 1 - no
    if kw.get("inner_ort", True):
        # the outer points are evenly spaced in the angle of the line
        r, z = outer.position(np.arange(nz) * TP / nz)
        ctl.close(R[o], r, "outer-R", atol=1e-9)
        ctl.close(Z[o], z, "outer-Z", atol=1e-9)
    if name == "concentric" and kw.get("tol", 1e-10) <= 1e-14:
        rad = np.hypot(R - 2, Z)[core]
        k = kw.get("dz_relax", 10 / 3)
        x = np.linspace(0, 1, nx - ni - no)[:, None]
        p = 1 - 1 / k**2
        want = 0.3 * 3**x if abs(p) < 1e-9 else (0.3**p + x * (0.9**p - 0.3**p)) ** (1 / p)
        ctl.close(rad, np.broadcast_to(want, rad.shape), "radius", atol=0.006 if nx > 7 else 0.015, rtol=0)
    # the poloidal angle of a line across the grid changes little for circles
    if name == "concentric" and kw.get("inner_ort", True):
        th = np.unwrap(np.arctan2(Z, R - 2), axis=0)[core]
        ctl.check(np.max(np.abs(th - th[-1])) < 0.15, "twisted", lambda: str(np.max(np.abs(th - th[-1]))))
    ctl.see(R, Z)


def annulus(ctl, names, sizes, ns):
    name = ctl.choose("lines", names)
    nx, nz = ctl.choose("nx,nz", sizes)
    n = ctl.choose("points", ns)
    start = ctl.choose("start", [0.0, 0.7])
    rc = ctl.choose("return_coords", [False, True] if nx > 3 else [True])
    rev = ctl.choose("reversed", [0, 1, 2, 3])
    ctl.go()
    inner, outer = make(name, n, start, start, rev)
    g = zpol.grid_annulus(inner, outer, nx, nz, show=False, return_coords=rc)
    ctl.step()
    R, Z = g if rc else (g.R, g.Z)
    ctl.check(R.shape == (nx, nz), "size", str(R.shape))
    t = np.arange(nz) * TP / nz
    x = np.linspace(0, 1, nx)[:, None]
    for v, a, b in ((R, inner.Rvalue(t), outer.Rvalue(t)), (Z, inner.Zvalue(t), outer.Zvalue(t))):
        ctl.close(v, a + x * (b - a), "position", atol=1e-10)
    if not rc:
        ctl.check((g.nx, g.nz) == (nx, nz), "grid-size")
    if rev in (0, 3) or name == "concentric" and rev == 0:
        ctl.check(np.all(folded(R, Z) > 0), "folded") if nz > 8 and rev == 0 else None
    ctl.see(R, Z)


def families(tier):
    t = tier != "quick"
    names = ["concentric", "shifted", "ellipse", "bean"]
    opts = {
        "default": {},
        "aligned": dict(inner_ort=False),
        "legacy": dict(inner_ort=False, legacy_align=True),
        "precise": dict(tol=1e-16),
        "conformal": dict(tol=1e-16, dz_relax=1.0),
        "relax": dict(dz_relax=2.0),
        "maxfac": dict(maxfac_inner=3),
        "restrict": dict(restrict_size=8, restrict_factor=2),
        "unrestricted": dict(restrict_size=100),
    }
    st = [(0.0, 0.0), (0.5, 0.5), (0.3, 2.0), (3.0, -1.0)]
    return [
        Family("elliptic", elliptic, "4 pairs of lines, 9 sets of options, sizes that are coarsened or not", names=names,
               sizes=[(4, 12), (5, 16), (8, 20), (12, 24), (6, 30), (24, 21), (21, 45), (3, 16), (2, 30), (3, 40)] if t else [(4, 12), (8, 16), (3, 30), (22, 21)], ns=[20, 40] if t else [24],
               exts=[(0, 0)], opts=opts, starts=st),
        Family("extended", elliptic, "points inside and outside of the lines", names=names, sizes=[(8, 16), (9, 26), (7, 24), (30, 20)] if t else [(8, 16), (7, 24)], ns=[24],
               exts=[(0, 1), (1, 0), (2, 3), (1, 1), (3, 2)], opts={k: opts[k] for k in ("default", "aligned", "restrict", "relax")},
               starts=st[1:3], coords=(True, False)),
        Family("annulus", annulus, "straight lines between the boundaries", names=names, sizes=[(2, 2), (2, 9), (3, 12), (5, 16), (9, 33)], ns=[20, 33]),
    ]
