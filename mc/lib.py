"""Grids, fields and reference models shared by the checks."""

import numpy as np

from zoidberg import field as zfield
from zoidberg import grid as zgrid
from zoidberg import poloidal_grid as zpol


# ---------------------------------------------------------------- fields with
# exactly known field lines.  ``line(x, z, y0, y1)`` is the reference model.
class ShearSlab(zfield.MagneticField):
    """Cartesian, dz/dy = a + b * x, x constant."""

    def __init__(self, a=0.05, b=0.3):
        self.a, self.b = a, b

    def Byfunc(self, x, z, phi):
        return np.full(np.shape(x), 2.0)

    def Bxfunc(self, x, z, phi):
        return np.zeros(np.shape(x))

    def Bzfunc(self, x, z, phi):
        return 2.0 * (self.a + self.b * np.asarray(x))

    def line(self, x, z, y0, y1):
        return x + 0 * z, z + (self.a + self.b * x) * (y1 - y0)


class Rotation(zfield.MagneticField):
    """Cartesian, rotation around (xc, zc) with angle w * dy."""

    def __init__(self, w=0.13, xc=0.0, zc=0.0):
        self.w, self.xc, self.zc = w, xc, zc

    def Byfunc(self, x, z, phi):
        return np.full(np.shape(x), 1.5)

    def Bxfunc(self, x, z, phi):
        return -1.5 * self.w * (np.asarray(z) - self.zc)

    def Bzfunc(self, x, z, phi):
        return 1.5 * self.w * (np.asarray(x) - self.xc)

    def line(self, x, z, y0, y1):
        a = self.w * (y1 - y0)
        dx, dz = x - self.xc, z - self.zc
        return (
            self.xc + dx * np.cos(a) - dz * np.sin(a),
            self.zc + dx * np.sin(a) + dz * np.cos(a),
        )


class Wobble(zfield.MagneticField):
    """Cartesian, depends on y: dx/dy = a cos(k y), dz/dy = b sin(k y) + c."""

    def __init__(self, a=0.04, b=0.03, c=0.01, k=1.0):
        self.a, self.b, self.c, self.k = a, b, c, k

    def Byfunc(self, x, z, phi):
        return np.ones(np.shape(x))

    def Bxfunc(self, x, z, phi):
        return np.zeros(np.shape(x)) + self.a * np.cos(self.k * phi)

    def Bzfunc(self, x, z, phi):
        return np.zeros(np.shape(x)) + self.b * np.sin(self.k * phi) + self.c

    def line(self, x, z, y0, y1):
        k = self.k
        return (
            x + self.a * (np.sin(k * y1) - np.sin(k * y0)) / k + 0 * z,
            z
            - self.b * (np.cos(k * y1) - np.cos(k * y0)) / k
            + self.c * (y1 - y0)
            + 0 * x,
        )


class Cylinder(zfield.MagneticField):
    """Cylindrical: dR/dphi = R * Bx / By = c * (R), dZ/dphi = R * Bz / By = b.

    By ~ 1/R, Bx = c / R, Bz = b / R**2
    """

    def __init__(self, c=0.02, b=0.05, cosz=0.0):
        self.c, self.b = c, b

    def Rfunc(self, x, z, phi):
        return np.asarray(x) + 0.0

    def Byfunc(self, x, z, phi):
        return 3.0 / np.asarray(x)

    def Bxfunc(self, x, z, phi):
        return 3.0 * self.c / np.asarray(x)

    def Bzfunc(self, x, z, phi):
        return 3.0 * self.b / np.asarray(x) ** 2

    def line(self, x, z, y0, y1):
        return x * np.exp(self.c * (y1 - y0)), z + self.b * (y1 - y0)


class TorusRotation(zfield.MagneticField):
    """Cylindrical coordinates, circular flux surfaces around (R0, 0).

    dR/dphi = -w (Z), dZ/dphi = w (R - R0): By = 1/R, so Bx = -w Z / R**2
    """

    def __init__(self, w=0.2, R0=2.0, B=1.0, p=0.0):
        self.w, self.R0, self.B, self.p = w, R0, B, p

    def Rfunc(self, x, z, phi):
        return np.asarray(x) + 0.0

    def Byfunc(self, x, z, phi):
        return self.B / np.asarray(x)

    def Bxfunc(self, x, z, phi):
        return -self.B * self.w * np.asarray(z) / np.asarray(x) ** 2

    def Bzfunc(self, x, z, phi):
        return self.B * self.w * (np.asarray(x) - self.R0) / np.asarray(x) ** 2

    def pressure(self, x, z, phi):
        return self.p * (np.asarray(x) + 2 * np.asarray(z)) + self.p * phi

    def line(self, x, z, y0, y1):
        a = self.w * (y1 - y0)
        dx, dz = x - self.R0, z
        return (
            self.R0 + dx * np.cos(a) - dz * np.sin(a),
            dx * np.sin(a) + dz * np.cos(a),
        )


# ---------------------------------------------------------------- grids
def annulus(nx, nz, R0=2.0, Z0=0.0, rin=0.2, rout=0.6, shear=0.0, elong=1.0, power=1.0,
            phase=0.0):
    """A structured poloidal grid between two closed curves"""
    s = np.linspace(0, 1, nx)[:, None] ** power
    r = rin + (rout - rin) * s
    th = np.linspace(0, 2 * np.pi, nz, endpoint=False)[None, :] + phase
    th = th + shear * s
    R = R0 + r * np.cos(th)
    Z = Z0 + elong * r * np.sin(th)
    return zpol.StructuredPoloidalGrid(R, Z)


def rect_grid(nx, ny, nz, Lx, Ly, Lz, xc=0.0, zc=0.0, per=True):
    return zgrid.rectangular_grid(
        nx, ny, nz, Lx, Ly, Lz, xcentre=xc, zcentre=zc, yperiodic=per
    )


def cc(a):
    """A deep copy of arrays in dicts / lists"""
    if isinstance(a, dict):
        return {k: cc(v) for k, v in a.items()}
    if isinstance(a, (list, tuple)):
        return type(a)(cc(x) for x in a)
    if isinstance(a, np.ndarray):
        return a.copy()
    return a
