"""The grid file contains everything BOUT++ reads, for all writer options."""

import os
import uuid

import numpy as np
from boututils.datafile import DataFile

from mc import lib, mapref
from mc.engine import Family
from zoidberg import field as zfield
from zoidberg import grid as zgrid
from zoidberg import zoidberg as zb

from .c07 import ref_dy

ASSUMPTIONS = [
    "the files are read back with boututils, as BOUT++ tools do",
    "the splines used for the metric of traced slices are compared with 3% accuracy away from the x ends",
]


class Cyl(lib.TorusRotation):
    """all quantities depend on all coordinates"""

    def Byfunc(self, x, z, phi):
        return (1.5 + 0.2 * np.cos(phi)) / np.asarray(x) + 0.1 * np.asarray(z)

    def pressure(self, x, z, phi):
        return 1.0 + np.asarray(x) * 2 - np.asarray(z) * phi

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.attributes = {
            "psi": lambda x, z, y: np.asarray(x) ** 2 + np.asarray(z) + y,
            "extra": lambda x, z, y: np.asarray(x) - 3 * np.asarray(z) * y,
        }


class CylZ(lib.Cylinder):
    """does not depend on Z, as rectangular grids are periodic in Z"""

    def Byfunc(self, x, z, phi):
        return (1.5 + 0.2 * np.cos(phi)) / np.asarray(x)

    def pressure(self, x, z, phi):
        return 1.0 + np.asarray(x) * 2 - np.asarray(z) * phi

    def __init__(self):
        super().__init__(0.03, 0.1)
        self.attributes = {"psi": lambda x, z, y: np.asarray(x) ** 2 + np.asarray(z) + y}


FIELDS = {
    "cylz": CylZ,
    "cyl": lambda: Cyl(0.3, 2.0),
    "torus": lambda: lib.TorusRotation(0.3, 2.0, p=0.5),
    "shear": lambda: lib.ShearSlab(0.1, 0.05),
    "slab": lambda: zfield.Slab(By=0.8, Bz=0.1, Bzprime=0.05),
}

OLD = {"g_yy": "g_22", "gyy": "g22", "gxx": "g11", "gxz": "g13", "gzz": "g33",
       "g_xx": "g_11", "g_xz": "g_13", "g_zz": "g_33"}


def vname(k, new):
    if new:
        return k
    for post in ("_cell_ylow", "_cell_yhigh", ""):
        if post and k.endswith(post) or not post:
            b = k[: -len(post)] if post else k
            return OLD.get(b, b) + post


def files(ctl, kinds, nslices, ymax, ways, fields, ypos=("even",), sizes={"rect": (6, 5), "structured": (7, 24)}):
    kind = ctl.choose("poloidal grid", kinds)
    fname = ctl.choose("field", [f for f in fields if f not in
                                 (("slab", "cylz") if kind == "structured" else ("cyl", "torus"))])
    per = ctl.flag("periodic")
    ny = ctl.choose("ny", ymax if isinstance(ymax, list) else range(1, ymax + 1))
    nslice = ctl.choose("nslice", nslices)
    new = ctl.flag("new names")
    m2d = ctl.flag("2D metric")
    way = ctl.choose("written by", ways)
    yp = ctl.choose("y positions", ypos)
    ctl.go()
    nx, nz = sizes[kind]
    s = mapref.Setup(kind, nx, ny, nz, per, ypos=yp)
    if kind == "rect":
        s.par = [(a, b, c + 3.0, d) for a, b, c, d in s.par]
        from zoidberg import poloidal_grid as zpol

        s.pols = [zpol.RectangularPoloidalGrid(nx, nz, p[0] * (nx - 2), p[1] * nz, p[2], p[3], MXG=1) for p in s.par]
        s.grid = zgrid.Grid(list(s.pols), s.y, s.Ly, yperiodic=per)
    fld = FIELDS[fname]()
    maps = zb.make_maps(s.grid, fld, nslice=nslice, quiet=True, refine_parallel_integral=2, MXG=1)
    given = lib.cc(maps)
    d = ctl.scratch()
    fn = os.path.join(d, "g.nc")
    extra = {"mine": np.arange(nx * ny * nz).reshape(nx, ny, nz) * 0.5}
    if way == "write_maps":
        zb.write_maps(s.grid, fld, maps, gridfile=fn, new_names=new, metric2d=m2d, quiet=True)
        extra = {}
    elif way == "writer":
        with zb.MapWriter(fn, new_names=new, metric2d=m2d, quiet=True) as mw:
            mw.add_grid_field(s.grid, fld)
            mw.write_dict(dict(extra))
            mw.add_maps(maps)
    elif way == "writer-open":
        mw = zb.MapWriter(fn, new_names=new, metric2d=m2d, quiet=True)
        mw.open()
        mw.add_field(fld)
        mw.add_grid(s.grid)
        mw.add_maps(maps)
        mw.write_dict(dict(extra))
        mw.__exit__(None, None, None)
    elif way == "rewritten":
        # a second run replaces the file
        other = mapref.Setup("rect", 6, 2, 4, True)
        o = zb.make_maps(other.grid, lib.ShearSlab(0.1, 0.1), quiet=True, refine_parallel_integral=1)
        zb.write_maps(other.grid, lib.ShearSlab(0.1, 0.1), o, gridfile=fn, quiet=True)
        zb.write_maps(s.grid, fld, maps, gridfile=fn, new_names=new, metric2d=m2d, quiet=True)
        extra = {}
    ctl.step(3)
    ctl.check(os.listdir(d) == ["g.nc"], "left-over-files", str(os.listdir(d)))
    with DataFile(fn) as f:
        names = set(f.list())
        got = {k: np.asarray(f[k]) for k in names}
        attrs = {k: f.read_file_attribute(k) for k in f.list_file_attributes()}
    # the maps are written unchanged
    for k, v in given.items():
        ctl.check(k in got, "map-missing", k)
        ctl.close(got[k], v, "map-differs", atol=0, rtol=0, msg=k)
        ctl.close(maps[k], v, "caller-maps-changed", atol=0, rtol=0, msg=k)
    for k, v in extra.items():
        ctl.check(k in got, "extra-missing", k)
        ctl.close(got[k], v, "extra-differs", atol=0, rtol=0, msg=k)
    ctl.close(got["Rxy"], given["R"], "Rxy")
    for k, v in (("nx", nx), ("ny", ny), ("nz", nz), ("ixseps1", nx + 1), ("ixseps2", nx + 1),
                 ("MXG", 1), ("MYG", nslice)):
        ctl.check(k in got and int(got[k]) == v, "scalar", f"{k}: {got.get(k)} != {v}")
    # identification
    ctl.check(attrs.get("id") == attrs.get("grid_id"), "grid-id", str(attrs))
    uuid.UUID(attrs["grid_id"])
    ctl.check(attrs.get("software_name") == "zoidberg", "software", str(attrs))
    ctl.check(attrs.get("title") == "BOUT++ grid file", "title", str(attrs))
    ctl.check("software_version" in attrs, "version", str(attrs))
    check_metric(ctl, s, fld, given, got, new, m2d, nslice)
    ctl.see(got["R"], sorted(names), got[vname("g_yy", new)])


def field_values(fld, R, Z, y):
    bx, by, bz = (np.asarray(f(R, Z, y)) + 0 * R for f in (fld.Bxfunc, fld.Byfunc, fld.Bzfunc))
    B = np.sqrt(bx**2 + by**2 + bz**2)
    rm = fld.Rfunc(R, Z, y)
    rm = 1.0 if rm is None else np.asarray(rm)
    return B, (rm * B / by) ** 2, np.asarray(fld.pressure(R, Z, y)) + 0 * R


def check_metric(ctl, s, fld, maps, got, new, m2d, nslice):
    nx, ny, nz = s.nx, s.ny, s.nz
    shape = (nx, ny, nz)
    dy = ref_dy(s.y, s.Ly, s.per)
    B, gyy, P = np.zeros(shape), np.zeros(shape), np.zeros(shape)
    for j in range(ny):
        B[:, j], gyy[:, j], P[:, j] = field_values(fld, maps["R"][:, j], maps["Z"][:, j], s.y[j])
    want = {"Bxy": B, "B": B, "pressure": P, "dy": np.zeros(shape) + dy[None, :, None], "gyy": 1 / gyy}
    if isinstance(fld, zfield.Slab):
        for post in ("", "_cell_ylow", "_cell_yhigh"):
            want["g_yy" + post] = gyy
    else:
        for post in ("", "_cell_ylow", "_cell_yhigh"):
            want["g_yy" + post] = (maps["Ly" + post] / dy[None, :, None]) ** 2
    gm = s.grid.metric()
    for k in ("dx", "dz", "gxx", "gzz", "gxz", "g_xx", "g_zz", "g_xz"):
        want[k] = np.zeros(shape) + np.asarray(gm[k])
    for k, w in want.items():
        n = vname(k, new)
        ctl.check(n in got, "metric-missing", n)
        if m2d:
            w = w[0, 0, 0] if k == "dz" else w[:, :, 0]
        ctl.close(got[n], w, "metric", rtol=1e-9, msg=n)
    for k, w in want.items():
        n = vname(k, not new)
        ctl.check(n == vname(k, new) or n not in got, "both-names", n)
    # quantities defined by the field
    for k, fn in fld.attributes.items():
        ctl.check(k in got, "attribute-missing", k)
        w = np.zeros(shape)
        for j in range(ny):
            w[:, j] = fn(maps["R"][:, j], maps["Z"][:, j], s.y[j])
        ctl.close(got[k], w, "attribute", msg=k)
    # parallel slices: quantities at the ends of the field lines
    for off in [o for a in range(1, nslice + 1) for o in (a, -a)]:
        pre = lambda k: mapref.name(vname(k, new), off)
        yoff = s.y + off * s.Ly / ny  # uniform spacing
        Rp, Zp = maps[mapref.name("R", off)], maps[mapref.name("Z", off)]
        B, gyy, P = np.zeros(shape), np.zeros(shape), np.zeros(shape)
        for j in range(ny):
            B[:, j], gyy[:, j], P[:, j] = field_values(fld, Rp[:, j], Zp[:, j], yoff[j])
        for k, w in (("Bxy", B), ("B", B), ("pressure", P), ("g_yy", gyy), ("gyy", 1 / gyy),
                     ("dy", np.full(shape, s.Ly / ny))):
            ctl.check(pre(k) in got, "slice-missing", pre(k))
            ctl.close(got[pre(k)], w, "slice", rtol=1e-9, msg=pre(k))
        tangent = {}
        for nm, A in (("R", Rp), ("Z", Zp)):
            Lz = np.array([p[1] * nz if (s.kind == "rect" and nm == "Z") else 0.0 for p in s.par])
            up, dn = np.roll(A, -1, axis=2), np.roll(A, 1, axis=2)
            up[..., -1] += Lz
            dn[..., 0] -= Lz
            c = (2 * np.pi / nz) / np.sin(2 * np.pi / nz) if s.kind != "rect" else 1.0
            tangent[nm] = (np.gradient(A, axis=0), 0.5 * (up - dn) * c)
        xx = sum(t[0] ** 2 for t in tangent.values())
        zz = sum(t[1] ** 2 for t in tangent.values())
        xz = sum(t[0] * t[1] for t in tangent.values())
        for k in ("dx", "dz", "g_xx", "g_zz", "g_xz", "gxx", "gzz", "gxz"):
            ctl.check(pre(k) in got, "slice-missing", pre(k))
            ctl.check(got[pre(k)].shape == shape, "slice-shape", pre(k))
        dx, dz = got[pre("dx")], got[pre("dz")]
        # away from the ends in x, where a one-sided difference is used
        q = slice(1, -1)
        sc = np.max(np.sqrt(xx * zz)) * 0.03
        ctl.close((got[pre("g_xx")] * dx**2)[q], xx[q], "slice-g_xx", atol=0.03 * np.max(xx), rtol=0, msg=str(off))
        ctl.close((got[pre("g_zz")] * dz**2)[q], zz[q], "slice-g_zz", atol=0.03 * np.max(zz), rtol=0, msg=str(off))
        ctl.close((got[pre("g_xz")] * dx * dz)[q], xz[q], "slice-g_xz", atol=sc, rtol=0, msg=str(off))
        gg = [got[pre(k)] for k in ("g_xx", "g_zz", "g_xz", "gxx", "gzz", "gxz")]
        ctl.close(gg[0] * gg[3] + gg[2] * gg[5], np.ones(shape), "slice-inverse", atol=1e-6)
        ctl.close(gg[1] * gg[4] + gg[2] * gg[5], np.ones(shape), "slice-inverse", atol=1e-6)


def ids(ctl, n):
    """Every file gets its own id; updates keep the old one"""
    k = ctl.choose("files", range(2, n + 1))
    same = ctl.flag("same name")
    ctl.go()
    s = mapref.Setup("rect", 6, 2, 4, True)
    fld = lib.ShearSlab(0.1, 0.1)
    maps = zb.make_maps(s.grid, fld, quiet=True, refine_parallel_integral=1)
    d = ctl.scratch()
    seen = set()
    for i in range(k):
        fn = os.path.join(d, "g.nc" if same else f"g{i}.nc")
        zb.write_maps(s.grid, fld, maps, gridfile=fn, quiet=True)
        ctl.step()
        with DataFile(fn) as f:
            seen.add(f.read_file_attribute("grid_id"))
    ctl.check(len(seen) == k, "id-reused", str(seen))


def nonfinite(ctl):
    """Files with NaN or infinities are refused"""
    what = ctl.choose("variable", ["forward_xt_prime", "R", "forward_R", "By", "extra"])
    bad = ctl.choose("value", [np.nan, np.inf, -np.inf])
    where = ctl.choose("cell", [(0, 0, 0), (2, 1, 3), (5, 1, 3)])
    ctl.go()
    s = mapref.Setup("rect", 6, 2, 4, True)
    fld = lib.ShearSlab(0.1, 0.1)
    maps = zb.make_maps(s.grid, fld, quiet=True, refine_parallel_integral=1)
    d = ctl.scratch()
    fn = os.path.join(d, "g.nc")
    if what == "extra":
        maps["extra"] = np.zeros((6, 2, 4))
    maps[what] = np.array(maps[what])
    maps[what][where] = bad
    ctl.step()
    ctl.raises(Exception, "not-refused", zb.write_maps, s.grid, fld, maps, gridfile=fn, quiet=True)


def families(tier):
    w = ["write_maps", "writer", "writer-open", "rewritten"]
    t = tier != "quick"
    return [
        Family("files", files, "all writer options, rectangular and curvilinear, 4 fields, nslice<=%d, ny<=%d" % ((3, 4) if t else (2, 3)),
               kinds=["rect", "structured"], nslices=[1, 2, 3] if t else [1, 2], ymax=4 if t else 3, ways=w if t else w[:3],
               fields=list(FIELDS) if t else ["cyl", "cylz", "shear", "slab"]),
        Family("rewritten", files, "a second file replaces the first", kinds=["rect"], nslices=[1], ymax=2, ways=["rewritten"],
               fields=["cylz", "slab"]),
        Family("y", files, "y positions not starting at zero", kinds=["rect", "structured"], nslices=[1, 2], ymax=3,
               ways=["write_maps"], fields=["cyl", "cylz"], ypos=["shifted"]),
        Family("large", files, "larger grids, 9 slices, 4 slices in each direction", kinds=["rect", "structured"], nslices=[4], ymax=[9],
               ways=["write_maps"], fields=list(FIELDS), sizes={"rect": (34, 17), "structured": (12, 66)}),
        Family("ids", ids, "up to %d files" % (6 if t else 3), n=6 if t else 3),
        Family("nonfinite", nonfinite, "3 bad values in 3 cells of 5 variables"),
    ]
