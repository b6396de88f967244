"""Reference model of the field line maps, for fields with known lines."""

import itertools

import numpy as np

from mc import lib
from zoidberg import boundary, fieldtracer
from zoidberg import field as zfield
from zoidberg import grid as zgrid
from zoidberg import poloidal_grid as zpol
from zoidberg import zoidberg as zb


class Setup:
    """A grid with analytically known index <-> position relation"""

    def __init__(self, kind, nx, ny, nz, per, vary=True, other=0.0, ypos="even"):
        self.kind, self.nx, self.ny, self.nz, self.per = kind, nx, ny, nz, per
        self.Ly = 1.2
        n = np.arange(ny)
        self.y = n * self.Ly / ny if per else (n + 0.5) * self.Ly / ny
        if ypos == "uneven":
            self.y = self.y + 0.2 * self.Ly / ny * np.sin(2.0 * n + 1.0)
        elif ypos == "shifted":
            # does not start at zero
            self.y = self.y - 0.7 if per else self.y + 0.3 * self.y[0]
        self.pols = []
        self.par = []
        for j in range(ny):
            if kind == "rect":
                Lx, Lz = 1.0 + 0.1 * j * vary + other, 1.5 + 0.06 * j * vary
                p = zpol.RectangularPoloidalGrid(nx, nz, Lx, Lz, 0.1 * j * vary, -0.2, MXG=1)
                self.par.append((Lx / (nx - 2), Lz / nz, 0.1 * j * vary, -0.2))
            else:
                ph, R0 = 0.15 * j * vary, 2.0 + 0.02 * j * vary
                rin, rout = 0.3 - 0.01 * j * vary + other, 0.8 + 0.01 * j * vary + other
                p = lib.annulus(nx, nz, R0=R0, rin=rin, rout=rout, phase=ph)
                self.par.append((R0, rin, rout, ph))
            self.pols.append(p)
        if kind == "rect" and not vary:
            self.pols = [self.pols[0]] * ny
        self.grid = zgrid.Grid(list(self.pols), self.y, self.Ly, yperiodic=per)

    # -- y direction
    def target(self, j, off):
        """(index of the poloidal grid or None, y) for an offset"""
        ny, Ly = self.ny, self.Ly
        if off == int(off):
            t = j + int(off)
            if self.per:
                return t % ny, self.y[t % ny] + (t // ny) * Ly
            if t < 0:
                return None, 0.0
            if t >= ny:
                return None, Ly
            return t, self.y[t]
        lo, hi = int(np.floor(j + off)), int(np.floor(j + off)) + 1
        return None, 0.5 * (self.target(lo, 0)[1] + self.target(hi, 0)[1])

    # -- index space
    def pos(self, j):
        """Positions of the cell centres, independently of the grid class"""
        x, z = np.meshgrid(np.arange(self.nx), np.arange(self.nz), indexing="ij")
        p = self.par[j]
        if self.kind == "rect":
            return (
                p[2] + (x - (self.nx - 1) / 2) * p[0],
                p[3] + (z - (self.nz - 1) / 2) * p[1],
            )
        r = p[1] + (p[2] - p[1]) * x / (self.nx - 1)
        th = 2 * np.pi * z / self.nz + p[3]
        return p[0] + r * np.cos(th), r * np.sin(th)

    def cellpos(self, j, xo, zo):
        """Bilinear position at an offset from the cell centres"""
        R, Z = self.pos(j)
        if self.kind == "rect":
            return R + xo * self.par[j][0], Z + zo * self.par[j][1]
        s = 1 if zo > 0 else -1
        out = []
        for A in (R, Z):
            B = (1 - abs(zo)) * A + abs(zo) * np.roll(A, -s, axis=1)
            d = np.empty_like(B)
            if xo > 0:
                d[:-1] = B[1:] - B[:-1]
                d[-1] = d[-2]
            else:
                d[1:] = B[1:] - B[:-1]
                d[0] = d[1]
            out.append(B + xo * d)
        return out

    def index(self, j, R, Z):
        p = self.par[j]
        if self.kind == "rect":
            return (
                (R - p[2]) / p[0] + (self.nx - 1) / 2,
                (Z - p[3]) / p[1] + (self.nz - 1) / 2,
            )
        r = np.hypot(R - p[0], Z)
        th = np.arctan2(Z, R - p[0]) - p[3]
        return (r - p[1]) / (p[2] - p[1]) * (self.nx - 1), th / (2 * np.pi) * self.nz

    def check_index(self, ctl, j, R, Z, xi, zi, out, tag):
        """Is (xi, zi) the index of (R, Z) in the poloidal grid j?

        out: -1 not outside the boundary, 1 outside, 0 too close to tell"""
        if j is None:
            ctl.check(np.all(xi == -1) and np.all(zi == -1), tag + "-no-slice",
                      "expected -1 beyond the last slice")
            return
        xa, za = self.index(j, R, Z)
        for a in xi, zi:
            ctl.check(np.all(a[out == 1] == -1), tag + "-boundary",
                      lambda: f"points outside of the boundary have index {a[out == 1]}")
        ok = out == -1
        if self.kind == "rect":
            ctl.close(xi[ok], xa[ok], tag + "-x", atol=2e-5)
            ctl.close(zi[ok], za[ok], tag + "-z", atol=2e-5)
            return
        nx = self.nx
        sel = ok & (xa < 0.35)
        ctl.check(np.all(xi[sel] == -1), tag + "-inner", lambda: f"{xi[sel]} != -1")
        sel = ok & (xa > nx - 1.35)
        ctl.check(np.all(xi[sel] == nx), tag + "-outer", lambda: f"{xi[sel]} != {nx}")
        sel = ok & (xa > 0.65) & (xa < nx - 1.65)
        ctl.close(xi[sel], xa[sel], tag + "-x", atol=0.05, rtol=0)
        d = (zi - za + self.nz / 2) % self.nz - self.nz / 2
        ctl.close(d[sel], 0 * d[sel], tag + "-z", atol=0.05, rtol=0)
        ins = ok & (xi >= 0) & (xi <= nx - 1)
        if np.any(ins):
            r, z = self.pols[j].getCoordinate(xi[ins], zi[ins])
            ctl.close(r, R[ins], tag + "-position-R", atol=1e-5)
            ctl.close(z, Z[ins], tag + "-position-Z", atol=1e-5)


def near(bnd, x, y, z, eps=1e-4):
    """1 outside, -1 not outside, 0 undecided because of rounding"""
    o = [bnd(x + a, y, z + b) for a in (-eps, 0, eps) for b in (-eps, 0, eps)]
    return np.where(np.all(o, axis=0), 1, np.where(np.any(o, axis=0), 0, -1))


class YBoundary:
    """The boundary moves with y"""

    def __init__(self, x0, k):
        self.x0, self.k = x0, k

    def outside(self, x, y, z):
        return x > self.x0 + self.k * y


def with_boundary(kind, fld, xc, w, zc):
    """Gives the field a boundary, and returns a reference for it"""
    if kind == "none":
        return lambda x, y, z: np.zeros(np.shape(x), dtype=bool)
    if kind == "box":
        b = (xc - w, xc + 0.8 * w, zc - 0.7 * w, zc + 0.9 * w)
        fld.boundary = boundary.RectangularBoundaryXZ(*b)
        return lambda x, y, z: (x < b[0]) | (x > b[1]) | (z < b[2]) | (z > b[3])
    if kind == "polygon":
        px = np.array([xc - 0.9 * w, xc + w, xc - 0.9 * w])
        pz = np.array([zc - 0.9 * w, zc, zc + 0.9 * w])
        fld.boundary = boundary.PolygonBoundaryXZ(px, pz)

        def ref(x, y, z):
            return (x < xc - 0.9 * w) | (np.abs(z - zc) > 0.9 * w * (xc + w - x) / (1.9 * w))

        return ref
    if kind == "moving":
        fld.boundary = YBoundary(xc + 0.1 * w, 0.3 * w)
        return lambda x, y, z: x > xc + 0.1 * w + 0.3 * w * y
    raise ValueError(kind)


class Recorder:
    """A tracer that notes the tolerance it is asked for"""

    def __init__(self, fld):
        self.tracer = fieldtracer.FieldTracer(fld)
        self.rtols = set()

    def follow_field_lines(self, x_values, z_values, y_values, rtol=None, **kw):
        self.rtols.add(rtol)
        return self.tracer.follow_field_lines(x_values, z_values, y_values, rtol=rtol, **kw)


def name(base, off):
    if abs(off) == 0.5:
        return f"{base}_cell_y{'low' if off < 0 else 'high'}"
    s = f"_{abs(off)}" if abs(off) > 1 else ""
    return f"{'forward' if off > 0 else 'backward'}_{base}{s}"


def fields(kind):
    if kind == "rect":
        return {
            "shear": lambda: lib.ShearSlab(0.1, 0.4),
            "rotation": lambda: lib.Rotation(0.5, 0.05, -0.1),
            "wobble": lambda: lib.Wobble(0.2, 0.3, 0.05, 2.1),
            "cyl": lambda: lib.Cylinder(0.05, 0.2),
        }
    return {
        "torus": lambda: lib.TorusRotation(0.6, 2.0),
        "spiral": lambda: lib.Cylinder(0.06, 0.1),
        "wobble": lambda: lib.Wobble(0.1, 0.12, 0.02, 2.1),
    }
