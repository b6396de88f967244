"""Metric tensor of the 3D grid, and with the magnetic field."""

import itertools

import numpy as np

from mc import lib
from mc.engine import Family
from zoidberg import field as zfield
from zoidberg import grid as zgrid
from zoidberg import poloidal_grid as zpol
from zoidberg import zoidberg as zb

ASSUMPTIONS = ["curvilinear grids are smooth annuli, so that the tangent vectors are known"]


def ys(ctl, nymax, spacings):
    if isinstance(nymax, list):
        # many slices, regular patterns of spacings
        ny = ctl.choose("ny", nymax)
        sp = [ctl.choose(f"dy{j}", spacings) for j in range(3)]
        sp = [sp[j % 3] for j in range(ny)]
    else:
        ny = ctl.choose("ny", range(1, nymax + 1))
        sp = [ctl.choose(f"dy{j}", spacings) for j in range(ny)]
    start = ctl.choose("y0", [0.0, 0.35])
    per = ctl.flag("periodic")
    y = start + np.concatenate([[0], np.cumsum(sp)])
    return ny, y[:-1], y[-1] - y[0], per


def ref_dy(y, Ly, per):
    """Half of the distance to the neighbours on both sides"""
    ny = len(y)
    if ny == 1:
        return np.array([Ly])
    up = np.append(y[1:], y[0] + Ly) - y
    down = y - np.insert(y[:-1], 0, y[-1] - Ly)
    dy = 0.5 * (up + down)
    if not per:  # one sided at the ends
        dy[0], dy[-1] = y[1] - y[0], y[-1] - y[-2]
    return dy


KEYS = ["dx", "dy", "dz", "gxx", "gyy", "gzz", "gxz", "g_xx", "g_yy", "g_zz", "g_xz"]


def tangents(par, nx, nz):
    R0, rin, rout, elong, shear, phase = par
    i, k = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    s = i / (nx - 1.0)
    r = rin + (rout - rin) * s
    th = 2 * np.pi * k / nz + shear * s + phase
    # derivatives with respect to the normalised coordinate, index / n
    fx, fz = nx / (nx - 1.0), 2 * np.pi
    rx = (rout - rin) * np.cos(th) - r * np.sin(th) * shear
    zx = elong * ((rout - rin) * np.sin(th) + r * np.cos(th) * shear)
    return (rx * fx, zx * fx, -r * np.sin(th) * fz, elong * r * np.cos(th) * fz)


def build(kind, nx, nz, ny, y, Ly, per):
    pols, pars = [], []
    for j in range(ny):
        if kind == "rect":
            Lx, Lz = 1.0 + 0.3 * j, 2.0 - 0.2 * j
            pols.append(zpol.RectangularPoloidalGrid(nx, nz, Lx, Lz, 3.0, 0.0, MXG=1))
            pars.append((Lx / (nx - 2), Lz / nz))
        else:
            e, sh = (1.0, 0.0) if kind == "circle" else (1.3, 0.3)
            par = (2.0 + 0.1 * j, 0.2 + 0.02 * j, 0.6 + 0.05 * j, e, sh, 0.1 * j)
            pols.append(lib.annulus(nx, nz, R0=par[0], rin=par[1], rout=par[2], elong=e, shear=sh, phase=par[5]))
            pars.append(par)
    return zgrid.Grid(pols, y, Ly, yperiodic=per), pols, pars


def expected(kind, nx, nz, pars, dy):
    ny = len(pars)
    m = {k: np.zeros((nx, ny, nz)) for k in KEYS}
    for j, p in enumerate(pars):
        if kind == "rect":
            m["dx"][:, j], m["dz"][:, j] = p
            m["g_xx"][:, j] = m["gxx"][:, j] = m["g_zz"][:, j] = m["gzz"][:, j] = 1.0
        else:
            rx, zx, rz, zz = tangents(p, nx, nz)
            m["dx"][:, j], m["dz"][:, j] = 1.0 / nx, 1.0 / nz
            gxx, gzz, gxz = rx**2 + zx**2, rz**2 + zz**2, rx * rz + zx * zz
            det = gxx * gzz - gxz**2
            m["g_xx"][:, j], m["g_zz"][:, j], m["g_xz"][:, j] = gxx, gzz, gxz
            m["gxx"][:, j], m["gzz"][:, j], m["gxz"][:, j] = gzz / det, gxx / det, -gxz / det
    m["dy"][...] = dy[None, :, None]
    m["g_yy"][...] = m["gyy"][...] = 1.0
    return m


def compare(ctl, got, want, kind, skip=(), tag="metric"):
    tol = 1e-9 if kind == "rect" else 2e-2
    for k, w in want.items():
        if k in skip:
            continue
        g = np.asarray(got[k]) + 0 * w if np.ndim(got[k]) == 0 else np.asarray(got[k])
        # splines are less accurate on the first and last row
        scale = np.max(np.abs(w))
        if k.endswith("xz"):
            scale = np.sqrt(np.max(want[k[:-2] + "xx"]) * np.max(want[k[:-2] + "zz"]))
        a = tol * scale if k not in ("dx", "dy", "dz") else 1e-9
        ctl.close(g, w, f"{tag}-{k}", atol=a, rtol=1e-9)
    # the two forms of the tensor are inverse to each other, exactly
    x, z, c = got["g_xx"], got["g_zz"], got["g_xz"]
    X, Z, C = got["gxx"], got["gzz"], got["gxz"]
    one = np.ones(np.shape(x))
    ctl.close(x * X + c * C, one, f"{tag}-inverse", atol=1e-9)
    ctl.close(z * Z + c * C, one, f"{tag}-inverse", atol=1e-9)
    ctl.close(x * C + c * Z, 0 * one, f"{tag}-inverse", atol=1e-8 * np.max(x * np.abs(C) + 1))
    ctl.close(C * z + c * X, 0 * one, f"{tag}-inverse", atol=1e-8 * np.max(z * np.abs(C) + 1))
    ctl.check(np.all(x > 0) and np.all(z > 0) and np.all(x * z > c**2), f"{tag}-positive")
    ctl.close(got["g_yy"] * got["gyy"], one, f"{tag}-inverse-y", atol=1e-9)


def grids(ctl, kinds, sizes, nymax, spacings):
    kind = ctl.choose("poloidal grid", kinds)
    nx, nz = ctl.choose("nx,nz", sizes[kind])
    ny, y, Ly, per = ys(ctl, nymax, spacings)
    ctl.go()
    g, pols, pars = build(kind, nx, nz, ny, y, Ly, per)
    dy = ref_dy(y, Ly, per)
    got = g.metric()
    ctl.step()
    for k in KEYS:
        ctl.check(k in got, "missing", k)
        ctl.check(np.shape(got[k]) == (nx, ny, nz), "shape", k)
    want = expected(kind, nx, nz, pars, dy)
    compare(ctl, got, want, kind)
    if per:
        ctl.close(np.sum(np.asarray(got["dy"]), axis=1), np.full((nx, nz), Ly), "dy-sum")
    if kind != "rect":
        # The area of the cells is the area of the annulus
        J = np.sqrt(got["g_xx"] * got["g_zz"] - got["g_xz"] ** 2)
        for j, p in enumerate(pars):
            dA = (J * got["dx"] * got["dz"])[:, j]
            w = np.ones(nx)
            w[[0, -1]] = 0.5
            A = np.sum(dA * w[:, None])
            ctl.close(A, np.pi * p[3] * (p[2] ** 2 - p[1] ** 2), "area", rtol=2e-2)
        m2 = pols[0].metric()
        for k in m2:
            ctl.close(np.asarray(got[k])[:, 0], m2[k], "slice", msg=k)
    ctl.see(*[got[k] for k in KEYS])


class Full(lib.TorusRotation):
    """Cylindrical, with all components and a dependence on y"""

    def Byfunc(self, x, z, phi):
        return (1.5 + 0.2 * np.cos(phi)) / np.asarray(x) + 0.1 * np.asarray(z)

    def pressure(self, x, z, phi):
        return 1.0 + np.asarray(x) * 2 - np.asarray(z) * phi


class Cart(Full):
    def Rfunc(self, x, z, phi):
        return None


FIELDS = {
    "torus": lambda: lib.TorusRotation(0.3, 2.0, p=0.7),
    "full": lambda: Full(0.5, 2.0),
    "cartesian": lambda: Cart(0.5, 2.0),
    "shear": lambda: lib.ShearSlab(0.1, 0.4),
    "slab": lambda: zfield.Slab(By=0.8, Bz=0.3, Bzprime=0.2),
    "curved": lambda: zfield.CurvedSlab(By=0.8, Bz=0.3, Bzprime=0.2, Rmaj=2.5),
}


def with_field(ctl, kinds, sizes, nymax, spacings):
    kind = ctl.choose("poloidal grid", kinds)
    nx, nz = ctl.choose("nx,nz", sizes[kind])
    fname = ctl.choose("field", list(FIELDS))
    ny, y, Ly, per = ys(ctl, nymax, spacings)
    again = ctl.choose("calls", [1, 2])
    ctl.go()
    g, pols, pars = build(kind, nx, nz, ny, y, Ly, per)
    fld = FIELDS[fname]()
    for _ in range(again):
        got, bjg = zb.get_metric(g, fld)
        ctl.step()
    want = expected(kind, nx, nz, pars, ref_dy(y, Ly, per))
    B = np.zeros((nx, ny, nz))
    P = np.zeros((nx, ny, nz))
    for j in range(ny):
        R, Z = pols[j].R, pols[j].Z
        bx, by, bz = (np.asarray(f(R, Z, y[j])) for f in (fld.Bxfunc, fld.Byfunc, fld.Bzfunc))
        B[:, j] = np.sqrt(bx**2 + by**2 + bz**2)
        P[:, j] = fld.pressure(R, Z, y[j])
        rm = fld.Rfunc(R, Z, y[j])
        rm = 1.0 if rm is None else rm
        # length of the field line per y
        want["g_yy"][:, j] = (rm * B[:, j] / by) ** 2
        want["gyy"][:, j] = 1 / want["g_yy"][:, j]
    compare(ctl, got, want, kind, skip=("g_yy", "gyy"))
    ctl.close(got["g_yy"], want["g_yy"], "g_yy", rtol=1e-9)
    ctl.close(got["gyy"], want["gyy"], "gyy", rtol=1e-9)
    ctl.close(got["Bxy"], B, "B", rtol=1e-9)
    ctl.close(got["B"], B, "B", rtol=1e-9)
    ctl.close(got["pressure"], P, "pressure", rtol=1e-9)
    ctl.close(bjg, B * np.sqrt(got["g_xx"] * got["g_zz"] - got["g_xz"] ** 2), "flux", rtol=1e-9)
    ctl.see(got["g_yy"], B)


def families(tier):
    sz = {"rect": [(3, 1), (4, 3)], "circle": [(6, 24)], "sheared": [(7, 28)]}
    if tier == "quick":
        return [
            Family("grid", grids, "rectangular / circular / sheared, ny<=6, every pattern of 2 spacings in y",
                   kinds=list(sz), sizes=sz, nymax=6, spacings=[0.2, 0.5]),
            Family("field", with_field, "6 fields, ny<=3, every pattern of 2 spacings in y",
                   kinds=list(sz), sizes=sz, nymax=3, spacings=[0.2, 0.5]),
            Family("large", with_field, "6 fields, larger grids with 9 slices",
                   kinds=list(sz), sizes={"rect": [(34, 3), (5, 40)], "circle": [(20, 80)], "sheared": [(24, 70)]}, nymax=[9], spacings=[0.02, 0.05]),
        ]
    sz = {"rect": [(3, 1), (4, 3), (9, 8)], "circle": [(6, 24), (12, 40)], "sheared": [(7, 28), (16, 64)]}
    return [
        Family("grid", grids, "rectangular / circular / sheared, ny<=8, every pattern of 2 spacings in y",
               kinds=list(sz), sizes=sz, nymax=8, spacings=[0.2, 0.5]),
        Family("grid3", grids, "ny<=5, every pattern of 3 spacings in y",
               kinds=list(sz), sizes=sz, nymax=5, spacings=[0.2, 0.5, 0.03]),
        Family("field", with_field, "6 fields, ny<=4, every pattern of 2 spacings in y",
               kinds=list(sz), sizes=sz, nymax=4, spacings=[0.2, 0.5]),
        Family("large", with_field, "6 fields, larger grids with 9-33 slices",
               kinds=list(sz), sizes={"rect": [(34, 3), (5, 40)], "circle": [(20, 80)], "sheared": [(24, 70), (70, 140)]}, nymax=[9, 33], spacings=[0.02, 0.05]),
    ]
