"""Coefficients of the perpendicular diffusion operator (finite volume)."""

import os

import numpy as np
from boututils.datafile import DataFile

from mc import lib
from mc.engine import Family
from zoidberg import poloidal_grid as zpol
from zoidberg import stencil_dagp_fv as dagp

ASSUMPTIONS = [
    "anti-clockwise curvilinear grids (the convention of the grid generators)",
    "cell volumes are compared with the exact integral with 0.1% accuracy for curvilinear grids (cell edges are approximated by 11 segments)",
]

ACC = 1e-3


def make(kind, nx, nz, var):
    """var: a different grid of the same kind"""
    if kind == "rect":
        return zpol.RectangularPoloidalGrid(nx, nz, 1.0 + 0.2 * var, 1.5, 3.0 + 0.1 * var, -0.2, MXG=1)
    kw = dict(circle={}, elongated=dict(elong=1.6, Z0=0.3), sheared=dict(shear=0.4), stretched=dict(power=1.2))[kind]
    return lib.annulus(nx, nz, R0=2.0 + 0.1 * var, rin=0.25 - 0.03 * var, rout=0.7, phase=0.2 * var, **kw)


def apply(c, f, shape, wrap=None):
    """The operator as BOUT++ applies it. wrap: change of f in one period of z"""
    up, dn = np.roll(f, -1, axis=-1), np.roll(f, 1, axis=-1)
    if wrap is not None:
        up[..., -1] += wrap
        dn[..., 0] -= wrap
    res = np.zeros(shape)
    dx = f[1:] - f[:-1]
    dz = 0.5 * ((up - dn)[1:] + (up - dn)[:-1])
    fx = c["dagp_fv_XX"][:-1] * dx + c["dagp_fv_XZ"][:-1] * dz
    res[:-1] += fx
    res[1:] -= fx
    # all x differences averaged over the two cells of the face
    d2 = f[2:] - f[:-2]
    d2 = 0.5 * (d2 + np.roll(d2, -1, axis=-1))
    fz = c["dagp_fv_ZX"][1:-1] * d2 + c["dagp_fv_ZZ"][1:-1] * (up - f)[1:-1]
    res[1:-1] += fz
    res[1:-1] -= np.roll(fz, 1, axis=-1)
    return res, fx, fz


def check_slice(ctl, g, kind, slab, c, tag=""):
    """c: coefficients of this slice (nx, nz)"""
    nx, nz = g.nx, g.nz
    R, Z = g.R, g.Z
    Lz = g.Lz if kind == "rect" else None
    for k, v in c.items():
        ctl.check(v.shape == (nx, nz), "shape", k)
        ctl.check(np.all(np.isfinite(v)), "finite", k)
    vol = c["dagp_fv_volume"][1:-1]
    ctl.check(np.all(vol > 0), "volume-positive", str(vol.min()))
    # The cell is the image of the square of one index around its centre.
    # Exact integral with Gauss points
    q, w = np.polynomial.legendre.leggauss(4)
    I, K = np.meshgrid(np.arange(1, nx - 1), np.arange(nz), indexing="ij")
    want = np.zeros(I.shape)
    area = np.zeros(I.shape)
    for a, wa in zip(q, w):
        for b, wb in zip(q, w):
            x, z = I + 0.5 * a, K + 0.5 * b
            rx, zx = g.getCoordinate(x, z, dx=1)
            rz, zz = g.getCoordinate(x, z, dz=1)
            r, _ = g.getCoordinate(x, z)
            J = np.abs(rx * zz - rz * zx) * wa * wb / 4
            area += J
            want += J if slab else J * r
    # straight edges, or edges approximated by short segments
    acc = 1e-9 if kind == "rect" else ACC
    ctl.close(vol, want, "volume", rtol=acc)
    # exact for linear functions: the flux through a face is the gradient
    # times the area of the face, and over a cell these add up to the integral
    # of the divergence, 1/R for R in cylindrical geometry
    for nm, f in (("R", R), ("Z", Z), ("R-2Z", R - 2 * Z), ("1", np.ones_like(R))):
        wrap = None
        if Lz is not None:
            wrap = {"R": 0.0, "Z": Lz, "R-2Z": -2 * Lz, "1": 0.0}[nm]
        res, fx, fz = apply(c, f, R.shape, wrap)
        w0 = np.zeros(I.shape)
        if not slab and nm in ("R", "R-2Z"):
            w0 = area
        ctl.close(res[1:-1], w0, f"linear-{nm}", atol=acc * np.max(area), rtol=0)
        face = faces(g, slab)
        gr = {"R": (1, 0), "Z": (0, 1), "R-2Z": (1, -2), "1": (0, 0)}[nm]
        for flux, (nr, nzz), side in ((fx, face[0], "x"), (fz, face[1], "z")):
            ctl.close(flux, gr[0] * nr + gr[1] * nzz, f"face-{side}-{nm}", atol=acc * np.max(np.hypot(nr, nzz)), rtol=0)
    # diffusion is towards a minimum
    ctl.check(np.all(c["dagp_fv_XX"][:-1] > 0) and np.all(c["dagp_fv_ZZ"][1:-1] > 0), "sign")
    ctl.check(np.all(c["dagp_fv_XX"][-1] == 0) and np.all(c["dagp_fv_XZ"][-1] == 0), "outer-row")
    for k in ("dagp_fv_ZX", "dagp_fv_ZZ"):
        ctl.check(np.all(c[k][0] == 0) and np.all(c[k][-1] == 0), "outer-row", k)


def faces(g, slab):
    """Normal vectors (times area) of the faces towards higher x and z"""
    nx, nz = g.nx, g.nz
    q, w = np.polynomial.legendre.leggauss(4)
    out = []
    I, K = np.meshgrid(np.arange(nx - 1) + 0.5, np.arange(nz), indexing="ij")
    n = np.zeros((2,) + I.shape)
    for a, wa in zip(q, w):
        r, z = g.getCoordinate(I, K + 0.5 * a, dz=1)
        m = 1.0 if slab else g.getCoordinate(I, K + 0.5 * a)[0]
        n += np.array([z, -r]) * 0.5 * wa * m
    out.append(n)
    I, K = np.meshgrid(np.arange(1, nx - 1), np.arange(nz) + 0.5, indexing="ij")
    n = np.zeros((2,) + I.shape)
    for a, wa in zip(q, w):
        r, z = g.getCoordinate(I + 0.5 * a, K, dx=1)
        m = 1.0 if slab else g.getCoordinate(I + 0.5 * a, K)[0]
        n += np.array([-z, r]) * 0.5 * wa * m
    out.append(n)
    return out


def coefficients(ctl, kinds, sizes, slices):
    kind = ctl.choose("poloidal grid", kinds)
    nx, nz = ctl.choose("nx,nz", sizes["rect" if kind == "rect" else "other"])
    slab = ctl.flag("slab")
    n = ctl.choose("slices", slices)
    var = [ctl.choose(f"variant {i}", [0, 1]) for i in range(min(n, 4))]
    var = [var[i % len(var)] for i in range(n)]
    ctl.go()
    pols = [make(kind, nx, nz, v) for v in var]
    RZ = [(p.R.copy(), p.Z.copy()) for p in pols]
    out = dagp.doit(pols, isSlab=slab)
    ctl.step()
    names = {"dagp_fv_XX", "dagp_fv_XZ", "dagp_fv_ZX", "dagp_fv_ZZ", "dagp_fv_volume"}
    ctl.check(set(out) == names, "names", str(sorted(out)))
    for i, p in enumerate(pols):
        ctl.close(p.R, RZ[i][0], "grid-modified", atol=0, rtol=0)
        ctl.close(p.Z, RZ[i][1], "grid-modified", atol=0, rtol=0)
        c = {k: v[:, i] for k, v in out.items()}
        check_slice(ctl, p, kind, slab, c)
    ctl.see(*[out[k] for k in sorted(out)])


def reading(ctl):
    """Coefficients written to a file are read back"""
    kind = ctl.choose("poloidal grid", ["rect", "circle", "sheared"])
    nx, nz = ctl.choose("nx,nz", [(5, 3), (6, 8)] if kind == "rect" else [(5, 24), (7, 25)])
    n = ctl.choose("slices", [1, 2, 3])
    ctl.go()
    pols = [make(kind, nx, nz, v % 2) for v in range(n)]
    out = dagp.doit(pols)
    fn = os.path.join(ctl.scratch(), "grid.nc")
    R, Z = (np.array([getattr(p, k) for p in pols]).transpose(1, 0, 2) for k in "RZ")
    with DataFile(fn, write=True, create=True) as f:
        for k, v in dict(out, R=R, Z=Z).items():
            f.write(k, v)
    RZ, vol, cx, cz = dagp.load(fn)
    ctl.step()
    ctl.close(RZ, np.array([R, Z]), "read-positions", rtol=0, atol=0)
    ctl.close(vol, out["dagp_fv_volume"], "read-volume", rtol=0, atol=0)
    for i, k in enumerate("XZ"):
        ctl.close(cx[..., i], out["dagp_fv_X" + k][:-1], "read-X" + k, rtol=0, atol=0)
        ctl.close(cz[..., i], out["dagp_fv_Z" + k][1:-1], "read-Z" + k, rtol=0, atol=0)
    ctl.see(vol, cx, cz)


def families(tier):
    t = tier != "quick"
    k = ["circle", "elongated", "sheared", "stretched"]
    common = [Family("reading", reading, "coefficients read from a file")]
    if not t:
        return common + [
            Family("rect", coefficients, "rectangular, nz 1-8, slab and toroidal, 1-2 slices", kinds=["rect"],
                   sizes={"rect": [(4, n) for n in range(1, 9)] + [(7, 5)]}, slices=[1, 2]),
            Family("curvilinear", coefficients, "4 geometries, 3 sizes, slab and toroidal, 1-2 slices", kinds=k,
                   sizes={"other": [(6, 24), (5, 25), (8, 32)]}, slices=[1, 2]),
            Family("large", coefficients, "larger grids, 7 slices", kinds=["rect"] + k,
                   sizes={"rect": [(34, 20), (5, 70)], "other": [(20, 66)]}, slices=[7]),
        ]
    return common + [
        Family("rect", coefficients, "rectangular, nx 4-8, nz 1-12, slab and toroidal, 1-4 slices", kinds=["rect"],
               sizes={"rect": [(m, n) for m in range(4, 9) for n in range(1, 13)]}, slices=[1, 2, 3, 4]),
        Family("curvilinear", coefficients, "4 geometries, nx 5-12, nz 24-64, 1-3 slices", kinds=k,
               sizes={"other": [(m, n) for m in (5, 6, 8, 12) for n in (24, 25, 32, 64)]}, slices=[1, 2, 3]),
        Family("large", coefficients, "larger grids, 7-20 slices", kinds=["rect"] + k,
               sizes={"rect": [(34, 20), (5, 70), (70, 140)], "other": [(20, 66), (40, 130)]}, slices=[7, 20]),
    ]
