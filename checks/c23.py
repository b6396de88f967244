"""Jacobian, length and field of the cells, integrated along the field lines."""

import numpy as np

from mc import lib, mapref
from mc.engine import Family
from zoidberg import fieldtracer
from zoidberg import zoidberg as zb

ASSUMPTIONS = [
    "cylindrical geometry, fields with analytically known field lines",
    "in grids that are not periodic in y only the cells with two neighbours are judged",
    "the metric of the poloidal grid is taken as given (it has its own check)",
]

FIELDS = {
    "torus": lambda: lib.TorusRotation(0.6, 2.0),
    "spiral": lambda: lib.Cylinder(0.06, 0.1),
    "ripple": lambda: Ripple(),
}


class Ripple(lib.Cylinder):
    """The strength varies along the line, but not its direction"""

    def __init__(self):
        super().__init__(0.05, 0.2)

    def s(self, phi):
        return 1.0 + 0.4 * np.sin(2 * np.pi * phi / 1.2 + 0.3)

    def Byfunc(self, x, z, phi):
        return super().Byfunc(x, z, phi) * self.s(phi)

    def Bxfunc(self, x, z, phi):
        return super().Bxfunc(x, z, phi) * self.s(phi)

    def Bzfunc(self, x, z, phi):
        return super().Bzfunc(x, z, phi) * self.s(phi)


def length(fld, R, Z, y0, ya, yb):
    """Exact length of the lines through (R, Z) at y0, from ya to yb"""
    t, w = np.polynomial.legendre.leggauss(24)
    y = (ya + yb) / 2 + (yb - ya) / 2 * t
    e = 1e-5
    tot = 0.0
    for yy, ww in zip(y, w):
        r0, z0 = fld.line(R, Z, y0, yy - e)
        r1, z1 = fld.line(R, Z, y0, yy + e)
        r, _ = fld.line(R, Z, y0, yy)
        tot = tot + ww * np.sqrt(((r1 - r0) / (2 * e)) ** 2 + ((z1 - z0) / (2 * e)) ** 2 + r**2)
    return tot * (yb - ya) / 2


def average(fld, R, Z, y0, ya, yb, n=None):
    """Mean of R B0 / B along the line; trapezoidal with n intervals if given"""
    B0 = fld.Byfunc(R, Z, y0)
    if n is None:
        t, w = np.polynomial.legendre.leggauss(24)
        y, w = (ya + yb) / 2 + (yb - ya) / 2 * t, w / 2
    else:
        y = np.linspace(ya, yb, n + 1)
        w = np.ones(n + 1) / n
        w[0] = w[-1] = 0.5 / n
    tot = 0.0
    for yy, ww in zip(y, w):
        r, z = fld.line(R, Z, y0, yy)
        tot = tot + ww * r * B0 / fld.Byfunc(r, z, yy)
    return tot


def cells(ctl, kinds, sizes, fields, nys, refines, pers, chunks):
    kind = ctl.choose("poloidal grid", kinds)
    fname = ctl.choose("field", fields)
    nx, nz = ctl.choose("nx,nz", sizes)
    per = ctl.choose("periodic", pers)
    ny = ctl.choose("ny", nys)
    refine = ctl.choose("refine_parallel_integral", refines)
    n_chunks = ctl.choose("n_chunks", chunks)
    tr = ctl.choose("tracer", ["default", "given"])
    ctl.go()
    s = mapref.Setup(kind, nx, ny, nz, per)
    if kind == "rect":
        from zoidberg import grid as zgrid
        from zoidberg import poloidal_grid as zpol

        s.par = [(a, b, c + 2.5, d) for a, b, c, d in s.par]
        s.pols = [zpol.RectangularPoloidalGrid(nx, nz, p[0] * (nx - 2), p[1] * nz, p[2], p[3], MXG=1) for p in s.par]
        s.grid = zgrid.Grid(list(s.pols), s.y, s.Ly, yperiodic=per)
    fld = FIELDS[fname]()
    kw = {}
    if refine is not None:
        kw["refine_parallel_integral"] = refine
    if n_chunks is not None:
        kw["n_chunks"] = n_chunks
    if tr == "given":
        kw["field_tracer"] = mapref.Recorder(fld)
    out = zb.make_maps(s.grid, fld, quiet=True, rtol=1e-9, **kw)
    ctl.step()
    if tr == "given":
        rt = kw["field_tracer"].rtols
        ctl.check(rt == {1e-9}, "tolerance", f"traced with tolerances {rt} instead of 1e-9")
    r = 10 if refine is None else refine
    dy = s.Ly / ny
    for k in ("J", "Ly", "Ly_cell_ylow", "Ly_cell_yhigh", "By", "By_cell_ylow", "By_cell_yhigh"):
        ctl.check(k in out, "missing", k)
        ctl.check(out[k].shape == (nx, ny, nz), "shape", f"{k} {out[k].shape}")
        ctl.check(np.all(np.isfinite(out[k])), "not-finite", k)
    for j in range(ny):
        if not per and j in (0, ny - 1):
            continue
        R, Z = s.pos(j)
        y = s.y[j]
        for post, a, b in (("_cell_ylow", -1.0, 0.0), ("", -0.5, 0.5), ("_cell_yhigh", 0.0, 1.0)):
            want = length(fld, R, Z, y, y + a * dy, y + b * dy)
            ctl.close(out["Ly" + post][:, j], want, "length" + post, rtol=2e-5 + 0.02 * (dy / (2 * r)) ** 2, atol=0, msg=f"y index {j}")
            rr, zz = fld.line(R, Z, y, y + (a + b) / 2 * dy)
            ctl.close(out["By" + post][:, j], fld.Byfunc(rr, zz, y + (a + b) / 2 * dy), "field" + post, rtol=1e-5, msg=f"y index {j}")
        m = s.pols[j].metric()
        Jp = np.sqrt(m["g_xx"] * m["g_zz"] - m["g_xz"] ** 2)
        exact = average(fld, R, Z, y, y - dy / 2, y + dy / 2)
        tol = 1.5 * np.abs(average(fld, R, Z, y, y - dy / 2, y + dy / 2, 2 * r) - exact)
        d = np.abs(out["J"][:, j] / Jp - exact)
        ctl.compared += d.size
        ctl.check(np.all(d <= tol + 2e-5 * exact), "jacobian", lambda: f"y index {j}: relative error {np.max(d / exact)}, allowed {np.max(tol / exact)}")
    ctl.see(out["J"], out["Ly"])


def families(tier):
    t = tier != "quick"
    return [
        Family("refine", cells, "2 kinds of grid, 3 fields, refinement 1-%d" % (16 if t else 6), kinds=["rect", "annulus"], sizes=[(5, 6), (4, 9)] if t else [(4, 6)],
               fields=list(FIELDS), nys=[1, 2, 3, 4] if t else [1, 3], refines=[None, 1, 2, 3, 5, 8, 16] if t else [None, 1, 2, 5], pers=[True, False], chunks=[None]),
        Family("large", cells, "larger grids, 6 slices, several numbers of chunks", kinds=["rect", "annulus"], sizes=[(20, 34)], fields=list(FIELDS), nys=[6],
               refines=[None, 3] if t else [3], pers=[True, False], chunks=[None, 7, 30]),
        Family("chunks", cells, "every number of chunks up to more than nx", kinds=["rect", "annulus"], sizes=[(4, 5), (7, 4)] if t else [(5, 5)],
               fields=["torus", "ripple"] if t else ["ripple"], nys=[1, 3], refines=[1, 3] if t else [2], pers=[True], chunks=range(1, 10) if t else range(1, 8)),
    ]
