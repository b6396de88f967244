"""Poloidal grids: the relation between index and position."""

import itertools

import numpy as np

from mc import lib
from mc.engine import Family
from zoidberg import poloidal_grid as zpol

ASSUMPTIONS = [
    "curvilinear grids: smooth annuli (shifted, elongated, sheared, stretched, both directions of the angle)",
    "the edge of a curvilinear grid is half a cell inside of the last point; within 0.02 cells of it both answers are accepted",
]


def shaped(ctl, what, x, z):
    """The same index in one of the forms a caller can use"""
    f = what
    if f == "scalar":
        return [(float(a), float(b)) for a, b in zip(np.ravel(x), np.ravel(z))]
    if f == "list":
        return [(list(np.ravel(x)), list(np.ravel(z)))]
    return [(np.array(x), np.array(z))]


def rect(ctl, nxs, nzs, Ls, centres):
    mxg = ctl.choose("MXG", [None, 0, 1, 2])
    m = 2 if mxg is None else mxg
    nx = ctl.choose("nx", [n for n in nxs if n > 2 * m])
    nz = ctl.choose("nz", nzs)
    Lx, Lz = ctl.choose("Lx,Lz", Ls)
    rc, zc = ctl.choose("centre", centres)
    form = ctl.choose("form", ["array", "list", "scalar"])
    ctl.go()
    kw = {} if mxg is None else {"MXG": mxg}
    g = zpol.RectangularPoloidalGrid(nx, nz, Lx, Lz, rc, zc, **kw)
    dR, dZ = Lx / (nx - 2 * m), Lz / nz
    xi = np.arange(-4, 4 * nx + 2) / 4.0
    zi = np.arange(-4, 4 * nz + 2) / 4.0
    if form == "scalar":
        xi, zi = xi[::3], zi[::5]
    X, Z = np.meshgrid(xi, zi, indexing="ij")
    # the edges of the domain are half-way between guard cell and domain
    Rw = rc - Lx / 2 + (X - (m - 0.5)) * dR
    Zw = zc - Lz / 2 + (Z + 0.5) * dZ
    ctl.check(g.R.shape == (nx, nz) and g.Z.shape == (nx, nz), "shape")
    i, k = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    ctl.close(g.R, rc - Lx / 2 + (i - m + 0.5) * dR, "R")
    ctl.close(g.Z, zc - Lz / 2 + (k + 0.5) * dZ, "Z")
    for a, b, rw, zw in ((a, b, rw, zw) for (a, b), (rw, zw) in zip(
            shaped(ctl, form, X, Z), shaped(ctl, form, Rw, Zw))):
        ctl.step(2)
        r, z = g.getCoordinate(a, b)
        ctl.close(r, rw, "position-R")
        ctl.close(z, zw, "position-Z")
        u, v = g.findIndex(rw, zw)
        ctl.close(u, a, "index-x")
        ctl.close(v, b, "index-z")
        for dx, dz in itertools.product(range(3), repeat=2):
            if dx + dz == 0:
                continue
            p, q = g.getCoordinate(a, b, dx=dx, dz=dz)
            ctl.step()
            ctl.close(p, 0 * np.asarray(a) + (dR if (dx, dz) == (1, 0) else 0.0), "derivative-R", msg=f"{dx},{dz}")
            ctl.close(q, 0 * np.asarray(a) + (dZ if (dx, dz) == (0, 1) else 0.0), "derivative-Z", msg=f"{dx},{dz}")
    ctl.see(g.R, g.Z, form)


GEOM = {
    "circle": dict(),
    "elongated": dict(elong=1.7, R0=3.1, Z0=-0.4),
    "sheared": dict(shear=0.5, Z0=0.3),
    "stretched": dict(power=1.4, rin=0.1, phase=2.0),
    "small": dict(rin=0.02, rout=0.05, R0=0.1),
    "dense": dict(power=0.7, shear=-0.3),
}


def mapping(geom, nx, nz, flip, x, z):
    a = dict(R0=2.0, Z0=0.0, rin=0.2, rout=0.6, shear=0.0, elong=1.0, power=1.0, phase=0.0)
    a.update(GEOM[geom])
    s = np.clip(x / (nx - 1.0), 0, None) ** a["power"]
    r = a["rin"] + (a["rout"] - a["rin"]) * s
    th = (2 * np.pi * z / nz) * (-1 if flip else 1) + a["phase"] + a["shear"] * s
    return a["R0"] + r * np.cos(th), a["Z0"] + a["elong"] * r * np.sin(th)


def structured(ctl, sizes, geoms, forms):
    geom = ctl.choose("geometry", geoms)
    nx, nz = ctl.choose("nx,nz", sizes)
    flip = ctl.flag("clockwise")
    form = ctl.choose("form", forms)
    ctl.go()
    i, k = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    R, Z = mapping(geom, nx, nz, flip, i, k)
    R0, Z0 = R.copy(), Z.copy()
    g = zpol.StructuredPoloidalGrid(R, Z)
    # grid points
    r, z = g.getCoordinate(i, k)
    ctl.step()
    ctl.close(r, R0, "grid-point-R")
    ctl.close(z, Z0, "grid-point-Z")
    # lattice of indices
    xi = np.arange(0, 4 * (nx - 1) + 1) / 4.0
    zi = np.arange(0, 4 * nz) / 4.0 + 0.1
    if form == "scalar":
        xi, zi = xi[::5], zi[::7]
    X, K = np.meshgrid(xi, zi, indexing="ij")
    scale = np.ptp(R0)
    smooth = 20.0 * (2 * np.pi / nz) ** 4 + (0.02 if geom == "stretched" else 1e-3)
    for a, b in shaped(ctl, form, X, K):
        r, z = g.getCoordinate(a, b)
        ctl.step(5)
        rw, zw = mapping(geom, nx, nz, flip, np.asarray(a), np.asarray(b))
        # close to the smooth mapping the grid was made from
        ctl.close(r, rw, "interpolated-R", atol=scale * smooth)
        ctl.close(z, zw, "interpolated-Z", atol=scale * smooth)
        # periodic in z
        for sh in (-2 * nz, -nz, nz, 5 * nz):
            r2, z2 = g.getCoordinate(a, np.asarray(b) + sh)
            ctl.close(r2, r, "periodic-R")
            ctl.close(z2, z, "periodic-Z")
        # derivatives are derivatives of the position
        h = 1e-4
        aa, bb = np.clip(np.asarray(a), h, nx - 1 - h), np.asarray(b)
        for dx, dz in ((1, 0), (0, 1)):
            p, q = g.getCoordinate(aa, bb, dx=dx, dz=dz)
            rp, zp = g.getCoordinate(aa + h * dx, bb + h * dz)
            rm, zm = g.getCoordinate(aa - h * dx, bb - h * dz)
            ctl.step(3)
            ctl.close(p, (rp - rm) / (2 * h), "derivative-R", atol=1e-5 * scale, rtol=1e-5)
            ctl.close(q, (zp - zm) / (2 * h), "derivative-Z", atol=1e-5 * scale, rtol=1e-5)
            for d2x, d2z in ((1, 0), (0, 1)):
                p, q = g.getCoordinate(aa, bb, dx=dx + d2x, dz=dz + d2z)
                u, v = g.getCoordinate(aa + h * d2x, bb + h * d2z, dx=dx, dz=dz)
                s, t = g.getCoordinate(aa - h * d2x, bb - h * d2z, dx=dx, dz=dz)
                near_knot = np.abs(bb + 0.5 - np.floor(bb + 0.5) - 0.5) < 0.01
                ok = ~near_knot
                ctl.close(np.where(ok, p, 0), np.where(ok, (u - s) / (2 * h), 0), "second-R", atol=1e-3 * scale)
                ctl.close(np.where(ok, q, 0), np.where(ok, (v - t) / (2 * h), 0), "second-Z", atol=1e-3 * scale)
        # and back. The tolerance of the squared distance is 1e-12
        rl = r.tolist() if form == "list" else (r if form == "array" else float(r))
        zl = z.tolist() if form == "list" else (z if form == "array" else float(z))
        rc, zc = np.array(r), np.array(z)
        u, v = g.findIndex(rl, zl)
        ctl.step()
        ctl.close(r, rc, "input-modified", atol=0, rtol=0)
        ctl.close(z, zc, "input-modified", atol=0, rtol=0)
        check_index(ctl, g, geom, np.asarray(a), np.asarray(b), u, v, scale)
    for bad in (-0.01, nx - 0.99, -5, nx + 3):
        ctl.raises(ValueError, "out-of-range", g.getCoordinate, np.array([1.0, bad]), np.array([0.5, 0.5]))
    ctl.close(R, R0, "input-modified", atol=0, rtol=0)
    ctl.see(g.R, g.Z, form)


def check_index(ctl, g, geom, a, b, u, v, scale):
    nx, nz = g.R.shape
    u, v = np.asarray(u), np.asarray(v)
    ctl.check(u.shape == a.shape and v.shape == a.shape, "index-shape", f"{u.shape} {a.shape}")
    inside = (a > 0.52) & (a < nx - 1.52)
    ctl.close(u[inside], a[inside], "index-x", atol=1e-4)
    d = (v - b + nz / 2) % nz - nz / 2
    ctl.close(d[inside], 0 * a[inside], "index-z", atol=1e-4)
    lo, hi = a < 0.48, a > nx - 1.48
    ctl.check(np.all(u[lo] == -1), "inner-marked", lambda: f"{a[lo]} -> {u[lo]}")
    ctl.check(np.all(u[hi] == nx), "outer-marked", lambda: f"{a[hi]} -> {u[hi]}")


def beyond(ctl, sizes, geoms):
    """Points inside of the inner and outside of the outer edge"""
    geom = ctl.choose("geometry", geoms)
    nx, nz = ctl.choose("nx,nz", sizes)
    flip = ctl.flag("clockwise")
    where = ctl.choose("x", [-0.9, -0.3, 0.2, None, -1.2, -1.0, -0.6, 0.3, 1.5])
    ctl.go()
    i, k = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    R, Z = mapping(geom, nx, nz, flip, i, k)
    g = zpol.StructuredPoloidalGrid(R, Z)
    if where is None:
        x = 0.0
    elif where in (-0.9, -0.3, 0.2):
        x = where if where > 0 else 0.0
    else:
        x = nx - 1 + where
    zi = np.arange(0, 4 * nz) / 4.0
    r, z = mapping(geom, nx, nz, flip, x + 0 * zi, zi)
    if where is not None and where in (-0.9, -0.3):
        # towards the middle
        m = np.array([np.mean(R[0]), np.mean(Z[0])])
        f = 1 + where
        r, z = m[0] + (r - m[0]) * f, m[1] + (z - m[1]) * f
    u, v = g.findIndex(r, z)
    ctl.step()
    if x < 0.48:
        ctl.check(np.all(u == -1), "inner-marked", lambda: str(u[u != -1]))
    elif x > nx - 1.45:
        ctl.check(np.all(u == nx), "outer-marked", lambda: str(u[u != nx]))
    elif x < nx - 1.55:
        ctl.close(u, x + 0 * u, "index-x", atol=0.1, rtol=0)
    ctl.see(u, geom, where)


def edges(ctl, sizes, geoms, offsets):
    """Indices just on either side of half a cell, and positions far away"""
    geom = ctl.choose("geometry", geoms)
    nx, nz = ctl.choose("nx,nz", sizes)
    flip = ctl.flag("clockwise")
    side = ctl.choose("side", ["inner", "outer", "far"])
    off = ctl.choose("distance", offsets if side != "far" else [1.02, 1.3, 3.0, 30.0, 1e4])
    ctl.go()
    i, k = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    g = zpol.StructuredPoloidalGrid(*mapping(geom, nx, nz, flip, i, k))
    zi = np.arange(0, 8 * nz) / 8.0
    x = off if side == "inner" else nx - 1 - off
    if side == "far":
        m = np.mean(g.R), np.mean(g.Z)
        r, z = g.getCoordinate(nx - 1.0 + 0 * zi, zi)
        r, z = m[0] + (r - m[0]) * off, m[1] + (z - m[1]) * off
        off = 0
    else:
        r, z = g.getCoordinate(x + 0 * zi, zi)
    u, v = g.findIndex(r, z)
    ctl.step()
    if off < 0.5:
        want = -1 if side == "inner" else nx
        ctl.check(np.all(u == want), f"{side}-marked", lambda: str(u[u != want]))
    else:
        ctl.close(u, x + 0 * u, f"{side}-index-x", atol=1e-4, rtol=0)
        ctl.close((v - zi + nz / 2) % nz, nz / 2 + 0 * zi, f"{side}-index-z", atol=1e-4, rtol=0)
    ctl.see(u, geom, side)


def batches(ctl, geoms, n):
    """The answer for a point does not depend on the other points asked for"""
    geom = ctl.choose("geometry", geoms)
    nx, nz = 7, 20
    i, k = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    x = [0.0, 0.3, 0.7, 2.5, 3.1, 5.2, 5.7, 6.0]
    z = [0.5, 19.5, 3.3, 7.25, 12.0, 16.9, 2.2, 9.9]
    use = [ctl.choose(f"point {m}", [False, True]) for m in range(n)]
    order = ctl.choose("order", ["forwards", "backwards"])
    ctl.go()
    sel = [m for m in range(n) if use[m]]
    if order == "backwards":
        sel = sel[::-1]
    if not sel:
        return
    R, Z = mapping(geom, nx, nz, False, i, k)
    g = zpol.StructuredPoloidalGrid(R, Z)
    r, z = g.getCoordinate(np.array(x)[sel], np.array(z)[sel])
    u, v = g.findIndex(r, z)
    ctl.step(1 + len(sel))
    for m, s in enumerate(sel):
        a, b = g.findIndex(r[m], z[m])
        ctl.close(u[m], a, "batch-x", atol=1e-5, msg=f"point {s}")
        if 0 <= a < nx:
            ctl.close((v[m] - b + nz / 2) % nz, nz / 2, "batch-z", atol=1e-5, msg=f"point {s}")
    ctl.see(u, v)


OFFSETS = [0.02, 0.2, 0.4, 0.45, 0.49, 0.499, 0.501, 0.51, 0.53, 0.56, 0.6, 0.65, 0.7, 0.8, 0.9]


def families(tier):
    g = list(GEOM)
    if tier == "quick":
        return [
            Family("rect", rect, "nx 1-7, nz 1-5, 4 guard cell settings, index lattice of 1/4 including the outside",
                   nxs=range(1, 8), nzs=range(1, 6), Ls=[(1.0, 1.0), (0.3, 2.5)], centres=[(0.0, 0.0), (3.5, -1.25)]),
            Family("structured", structured, "5 geometries, nx 5-7, nz 14-25, index lattice of 1/4",
                   sizes=[(5, 20), (6, 25), (7, 14)], geoms=g, forms=["array", "list", "scalar"]),
            Family("rect-large", rect, "larger grids", nxs=[20, 65], nzs=[33], Ls=[(0.3, 2.5)], centres=[(3.5, -1.25)]),
            Family("structured-large", structured, "larger grids, 5 geometries", sizes=[(24, 72), (5, 150), (40, 40)], geoms=[k for k in g if k != "dense"], forms=["array"]),
            Family("beyond", beyond, "9 positions inside/outside of the grid",
                   sizes=[(5, 20), (7, 16)], geoms=g),
            Family("edges", edges, "15 indices around half a cell from both edges, far away positions",
                   sizes=[(5, 20), (8, 12), (12, 32)], geoms=g, offsets=OFFSETS),
            Family("batches", batches, "all subsets of 7 points in both orders", geoms=g[:3], n=7),
        ]
    return [
        Family("rect", rect, "nx 1-12, nz 1-10, 4 guard cell settings, index lattice of 1/4",
               nxs=range(1, 13), nzs=range(1, 11), Ls=[(1.0, 1.0), (0.3, 2.5), (20.0, 0.01)],
               centres=[(0.0, 0.0), (3.5, -1.25), (-2.0, 7.0)]),
        Family("structured", structured, "5 geometries, nx 5-12, nz 14-48, index lattice of 1/4",
               sizes=[(5, 20), (6, 25), (7, 14), (8, 32), (12, 48), (9, 21)], geoms=g, forms=["array", "list", "scalar"]),
        Family("beyond", beyond, "9 positions inside/outside of the grid",
               sizes=[(5, 20), (7, 16), (12, 48), (8, 25)], geoms=g),
        Family("edges", edges, "64 indices around half a cell from both edges, far away positions",
               sizes=[(5, 20), (8, 12), (12, 32), (7, 16), (20, 64)], geoms=g, offsets=sorted(set(OFFSETS) | {n / 50 for n in range(1, 50) if n != 25})),
        Family("batches", batches, "all subsets of 8 points in both orders", geoms=g, n=8),
    ]
