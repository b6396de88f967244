"""Neighbours in y: getPoloidalGrid for every index."""

import numpy as np

from mc.engine import Family
from zoidberg import grid as zgrid
from zoidberg import poloidal_grid as zpol

from .c07 import ys

ASSUMPTIONS = []


def model(y, Ly, per, i):
    """(which grid, y) for an integer index"""
    ny = len(y)
    if per:
        return i % ny, y[i % ny] + (i // ny) * Ly
    if i < 0:
        return None, 0.0
    if i >= ny:
        return None, Ly
    return i, y[i]


def lookup(ctl, nymax, spacings, turns):
    ny, y, Ly, per = ys(ctl, nymax, spacings)
    one = ctl.flag("one poloidal grid for all y")
    kind = ctl.choose("y as", ["list", "array"])
    itype = ctl.choose("index as", [int, np.int64, float, np.float64])
    ctl.go()
    if not per:
        y, Ly = y - y[0] + 0.3 * y[0], Ly + 0.5
    if one:
        p = zpol.RectangularPoloidalGrid(3, 2, 1.0, 1.0, MXG=1)
        pols = [p] * ny
        arg = p
    else:
        pols = [zpol.RectangularPoloidalGrid(3, 2, 1.0 + j, 1.0, MXG=1) for j in range(ny)]
        arg = list(pols)
    # Not periodic unless asked for
    kw = {"yperiodic": per} if per or kind == "list" else {}
    g = zgrid.Grid(arg, list(y) if kind == "list" else y.copy(), Ly, **kw)
    ctl.check(g.numberOfPoloidalGrids() == ny, "number")
    ctl.check(tuple(g.shape) == (3, ny, 2), "shape")
    last = -np.inf
    for q in range(-4 * ny * turns, 4 * ny * turns + 1):
        i = q / 4.0
        frac = q % 4
        if frac and itype not in (float, np.float64):
            continue
        pol, yy = g.getPoloidalGrid(itype(i))
        ctl.step()
        if frac == 0:
            m, yw = model(y, Ly, per, q // 4)
            ctl.check(pol is (None if m is None else pols[m]), "wrong-slice", f"index {i}")
            ctl.close(yy, yw, "y", msg=f"index {i}")
        else:
            lo, hi = model(y, Ly, per, q // 4), model(y, Ly, per, q // 4 + 1)
            ctl.check(pol is None, "slice-between", f"index {i}")
            ctl.close(yy, lo[1] + (hi[1] - lo[1]) * frac / 4.0, "y-between", msg=f"index {i}")
        if per:
            ctl.check(yy > last, "order", f"index {i}")
            last = yy
    ctl.see(y, Ly, per, one)


def rectangular(ctl, nymax):
    ny = ctl.choose("ny", range(1, nymax + 1))
    nx = ctl.choose("nx", [5, 6, 9])
    nz = ctl.choose("nz", [1, 2, 5])
    Ly = ctl.choose("Ly", [1.0, 10.0, 2 * np.pi])
    per = ctl.flag("periodic")
    xc, zc = ctl.choose("centre", [(0, 0), (2.0, -1.5)])
    default = not per and not xc and Ly == 10.0 and ctl.flag("everything else by default")
    ctl.go()
    Lx, Lz = 1.5, 0.7
    if default:
        Lx = Lz = 1.0
        g = zgrid.rectangular_grid(nx, ny, nz)
    else:
        g = zgrid.rectangular_grid(nx, ny, nz, Lx, Ly, Lz, xcentre=xc, zcentre=zc, yperiodic=per)
    ctl.check(tuple(g.shape) == (nx, ny, nz), "shape")
    n = np.arange(ny)
    y = n * Ly / ny if per else (n + 0.5) * Ly / ny
    ctl.check(g.yperiodic == per, "periodic")
    ctl.close(g.Ly, Ly, "Ly")
    for j in range(ny):
        pol, yy = g.getPoloidalGrid(j)
        ctl.step()
        ctl.close(yy, y[j], "y")
        x, z = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
        ctl.close(pol.R, xc + (x - (nx - 1) / 2) * Lx / (nx - 4), "R")
        ctl.close(pol.Z, zc + (z - (nz - 1) / 2) * Lz / nz, "Z")
    ctl.see(y, g.shape, per, xc)


def bad(ctl):
    ny = ctl.choose("ny", range(1, 5))
    n = ctl.choose("grids", [k for k in range(1, 6) if k != ny])
    ctl.go()
    p = [zpol.RectangularPoloidalGrid(3, 2, 1.0, 1.0, MXG=1) for _ in range(n)]
    ctl.step()
    ctl.raises(Exception, "length-mismatch", zgrid.Grid, p, np.arange(ny) * 0.1, 1.0)


def families(tier):
    t = tier != "quick"
    return [
        Family("lookup", lookup, "ny<=%d, every pattern of spacings in y, all quarter indices within +-%d turns" % ((5, 5) if t else (4, 3)),
               nymax=5 if t else 4, spacings=[0.2, 0.5], turns=5 if t else 3),
        Family("many", lookup, "9-40 slices, regular patterns of spacings", nymax=[9, 16, 40] if t else [9, 16], spacings=[0.2, 0.5], turns=2),
        Family("rectangular", rectangular, "rectangular_grid, ny<=%d" % (12 if t else 7), nymax=12 if t else 7),
        Family("mismatch", bad, "number of poloidal grids and y positions"),
    ]
