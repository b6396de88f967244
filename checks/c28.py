"""Tracing on field aligned grids (EMC3), with stand-ins for xemc3 and eudist."""

import importlib.util
import itertools
import os
import sys
import types

import numpy as np
import xarray as xr

import zoidberg
from mc.engine import Family

ASSUMPTIONS = [
    "xemc3 and eudist are not installed: a dataset accessor and a mesh with the documented behaviour stand in for them",
    "all planes of the grid are affine images of each other, so that the position within a cell, which the tracer keeps, "
    "is exactly the one on the field line",
    "field lines stay within 1 percent of the grid",
]


# --- stand-ins


@xr.register_dataset_accessor("emc3")
class Accessor:
    def __init__(self, ds):
        self.ds = ds

    def isel(self, **kw):
        kw = {k: v for k, v in kw.items() if k in self.ds.dims}
        if "phi" in kw:
            assert kw["phi"] == 0
            kw["delta_phi"] = 0
        return self.ds.isel(**kw)

    def sel(self, phi):
        """linear interpolation between the planes"""
        phi = float(phi)
        b = self.ds["phi_bounds"].data
        for i, (p, q) in enumerate(b):
            if p - 1e-12 <= phi <= q + 1e-12:
                t = (phi - p) / (q - p)
                lo, hi = (self.ds.isel(phi=i, delta_phi=d) for d in (0, 1))
                return lo * (1 - t) + hi * t
        raise ValueError(f"phi={phi} is not between the planes")

    def __getitem__(self, k):
        assert k in ("R_corners", "z_corners")
        a = self.ds[k[:2] + "bounds"].transpose("r", "theta", "delta_r", "delta_theta").data
        nr, nt = a.shape[:2]
        out = np.empty((nr + 1, nt + 1))
        for i, j in itertools.product(range(nr + 1), range(nt + 1)):
            p, q = min(i, nr - 1), min(j, nt - 1)
            out[i, j] = a[p, q, i - p, j - q]
        return xr.DataArray(out, dims=("rc", "tc"))


class PolyMesh:
    def __init__(self):
        pass

    def find_cell(self, rz, guess=-1):
        """number of the cell that contains the point, or -1"""
        nr, nz = self.grid.shape[0] - 1, self.grid.shape[1] - 1
        cells = list(range(nr * nz))
        if guess >= 0:
            cells.insert(0, int(guess))
        for c in cells:
            i, j = c // nz, c % nz
            if not (i < nr and j < nz):
                continue
            p = [self.grid[i, j], self.grid[i + 1, j], self.grid[i + 1, j + 1], self.grid[i, j + 1]]
            s = []
            for k in range(4):
                a, b = p[k], p[(k + 1) % 4]
                s.append((b[0] - a[0]) * (rz[1] - a[1]) - (b[1] - a[1]) * (rz[0] - a[0]))
            s = np.array(s)
            if np.all(s >= 0) or np.all(s <= 0):
                return c
        return -1


def load():
    """A copy of the module that finds the stand-in for eudist"""
    fn = os.path.join(os.path.dirname(zoidberg.__file__), "fieldtracer.py")
    m = types.ModuleType("eudist")
    m.PolyMesh = PolyMesh
    old = sys.modules.get("eudist")
    sys.modules["eudist"] = m
    try:
        spec = importlib.util.spec_from_file_location("zoidberg._fieldtracer_emc3", fn)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
    finally:
        if old is None:
            del sys.modules["eudist"]
        else:
            sys.modules["eudist"] = old
    return mod


TRACER = load()

R0, Z0 = 3.0, 0.2


def mat(kind, phi):
    """The affine map from the plane at zero to the one at phi"""
    if kind == "rotation":
        c, s = np.cos(0.9 * phi), np.sin(0.9 * phi)
        return np.array([[c, -s], [s, c]])
    if kind == "elliptic":
        # rotation along ellipses, does not commute with the first plane
        c, s = np.cos(-1.3 * phi), np.sin(-1.3 * phi)
        d = np.diag([1.0, 1.15])
        return d @ np.array([[c, -s], [s, c]]) @ np.linalg.inv(d)
    if kind == "none":
        return np.eye(2)
    raise ValueError(kind)


def dataset(kind, nr, nt, nphi, zones, start, period):
    """Annulus, from start to start + period, split into zones in radius"""
    rs = np.linspace(0.2, 1.0, nr * zones + 1)
    th = 2 * np.pi * np.arange(nt + 1) / nt
    ph = np.linspace(start, start + period, nphi + 1)
    ell = 1.15 if kind == "elliptic" else 1.0
    R = np.zeros((zones, nr, nt, nphi, 2, 2, 2))
    Z = np.zeros_like(R)
    for z, i, j, k, a, b, c in np.ndindex(R.shape):
        r, t = rs[z * nr + i + a], th[j + b]
        v = mat(kind, ph[k + c] - start) @ np.array([r * np.cos(t), ell * r * np.sin(t)])
        R[z, i, j, k, a, b, c], Z[z, i, j, k, a, b, c] = R0 + v[0], Z0 + v[1]
    pb = np.stack([ph[:-1], ph[1:]], axis=1)
    dims = ("zone", "r", "theta", "phi", "delta_r", "delta_theta", "delta_phi")
    ds = xr.Dataset({
        "R_bounds": (dims, R), "z_bounds": (dims, Z), "phi_bounds": (("phi", "delta_phi"), pb),
    })
    ds = ds.assign_coords(zone=np.arange(zones))
    if zones == 1:
        ds = ds.isel(zone=0, drop=True)
    return ds


class Field:
    def __init__(self, ds):
        self.ds = ds

    def field_direction(self, *a):
        raise AssertionError("not used")


# positions: radius and angle; the second number is the distance beyond the grid
POINTS = {
    "inside": [(0.45, 0.3), (0.62, 2.9)],
    "all around": [(0.31 + 0.1 * k, 0.4 + 1.1 * k) for k in range(6)],
    "one": [(0.7, 4.0)],
    "other zone": [(0.9, 5.5), (0.25, 1.0), (0.93, 3.3)],
}


def lines(ctl, kinds, sizes, zones, starts, points, spans, shapes):
    kind = ctl.choose("planes", kinds)
    nr, nt, nphi = ctl.choose("nr,ntheta,nphi", sizes)
    nz = ctl.choose("zones", zones)
    start = ctl.choose("first plane", starts)
    pts = ctl.choose("points", points)
    span = ctl.choose("y", spans)
    shape = ctl.choose("shape", shapes)
    ctl.go()
    period = 0.8
    ell = 1.15 if kind == "elliptic" else 1.0
    y = start + period * np.asarray(span, dtype=float) / 4.0
    tr = TRACER.EMC3FieldTracer(Field(dataset(kind, nr, nt, nphi, nz, start, period)))
    q = POINTS[pts]
    v = np.array([[r * np.cos(t), ell * r * np.sin(t)] for r, t in q]).T
    x, z = R0 + v[0], Z0 + v[1]
    if shape == "2d":
        x, z = x.reshape(1, -1), z.reshape(1, -1)
    keep = x.copy(), z.copy(), y.copy()
    out = tr.follow_field_lines(x, z, y)
    ctl.step()
    for a, b in zip(keep, (x, z, y)):
        ctl.check(np.array_equal(a, b), "input-modified")
    ctl.check(out.shape == (len(y),) + x.shape + (2,), "shape", f"{out.shape}")
    for i, yy in enumerate(y):
        w = mat(kind, yy - y[0]) @ v
        o = out[i].reshape(-1, 2)
        ctl.close(o[:, 0], R0 + w[0], "R", atol=1e-5, msg=f"y={yy} from {y[0]}")
        ctl.close(o[:, 1], Z0 + w[1], "Z", atol=1e-5, msg=f"y={yy} from {y[0]}")
    ctl.see(out)


def edge(ctl, kinds, sizes, zones, dists, angles, spans):
    """Positions just outside of the grid belong to the closest cell"""
    kind = ctl.choose("planes", kinds)
    nr, nt, nphi = ctl.choose("nr,ntheta,nphi", sizes)
    nz = ctl.choose("zones", zones)
    inner = ctl.flag("inner edge")
    k = ctl.choose("angle", angles)
    d = ctl.choose("distance", dists)
    span = ctl.choose("y", spans)
    ctl.go()
    period = 0.8
    # next to a grid point, so that it is the closest one
    t = 2 * np.pi * k / nt
    r = 0.2 - d if inner else 1.0 + d
    v = np.array([[r * np.cos(t)], [r * np.sin(t)]])
    y = period * np.asarray(span, dtype=float) / 4.0
    tr = TRACER.EMC3FieldTracer(Field(dataset(kind, nr, nt, nphi, nz, 0.0, period)))
    out = tr.follow_field_lines(R0 + v[0], Z0 + v[1], y)
    ctl.step()
    for i, yy in enumerate(y):
        w = mat(kind, yy - y[0]) @ v
        ctl.close(out[i, 0], np.array([R0 + w[0, 0], Z0 + w[1, 0]]), "edge", atol=1e-5, msg=f"y={yy}")
    ctl.see(out)


def families(tier):
    q = tier == "quick"
    # in quarters of a period
    within = [(0, 1), (0, 2, 3), (3, 1), (1, 2, 3, 1), (2, 2, 3)]
    across = [(0, 5), (3, 5), (2, 3, 6), (1, -1), (2, 1, -2), (3, 5, 7, 9)]
    far = [(1, 9), (0, 13), (1, 6, 10, 14), (2, -6), (3, -1, -5, -9), (9, 10), (-3, -2), (-3, 2), (6, 1), (6, 13), (-5, -11)]
    sizes = [(3, 16, 4), (4, 24, 8)]
    if not q:
        sizes = sizes + [(2, 32, 4), (6, 20, 8)]
    return [
        Family("within", lines, "one period", kinds=["none", "rotation", "elliptic"], sizes=sizes, zones=[1, 2, 3], starts=[0.0, 0.4],
               points=list(POINTS), spans=within, shapes=["1d", "2d"]),
        Family("across", lines, "to the next and previous periods", kinds=["rotation", "elliptic"], sizes=sizes, zones=[1, 2],
               starts=[0.0, 0.4], points=list(POINTS), spans=across, shapes=["1d"]),
        Family("far", lines, "several periods, starting in any", kinds=["rotation"] if q else ["rotation", "elliptic"],
               sizes=sizes[:1] if q else sizes, zones=[1, 2], starts=[0.0, 0.4], points=["inside", "other zone"],
               spans=far, shapes=["1d"]),
        Family("edge", edge, "just outside of the inner and outer edge, at every grid point", kinds=["rotation"], sizes=sizes,
               zones=[1, 2], dists=[1e-5, 3e-4, 3e-3], angles=range(0, 16, 1), spans=[(0, 2), (3, 1)]),
    ]
