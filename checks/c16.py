"""Boundary objects: which points are outside."""

import itertools
from fractions import Fraction as F

import numpy as np

from mc.engine import Family
from zoidberg import boundary

ASSUMPTIONS = [
    "points exactly on the outline of a polygon are not judged",
    "vertices and points on a lattice with dyadic coordinates",
]


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def on_segment(p, a, b):
    return (
        cross(a, b, p) == 0
        and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
        and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])
    )


def meet(a, b, c, d):
    s = lambda v: (v > 0) - (v < 0)
    d1, d2 = s(cross(c, d, a)), s(cross(c, d, b))
    d3, d4 = s(cross(a, b, c)), s(cross(a, b, d))
    if d1 * d2 < 0 and d3 * d4 < 0:
        return True
    return on_segment(a, c, d) or on_segment(b, c, d) or on_segment(c, a, b) or on_segment(d, a, b)


def simple(poly):
    n = len(poly)
    e = [(poly[i], poly[(i + 1) % n]) for i in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            if j == i + 1 or (i == 0 and j == n - 1):
                # neighbours may only share their common vertex
                (a, b), (c, d) = e[i], e[j]
                shared = b if b == c else a
                o1 = a if shared == b else b
                o2 = d if shared == c else c
                if on_segment(o1, c, d) or on_segment(o2, a, b):
                    return False
            elif meet(*e[i], *e[j]):
                return False
    return True


def triangles(poly):
    """Ear clipping: the reference does not use crossing numbers"""
    p = list(poly)
    area = sum(p[i - 1][0] * p[i][1] - p[i][0] * p[i - 1][1] for i in range(len(p)))
    if area < 0:
        p = p[::-1]
    out = []
    while len(p) > 3:
        for i in range(len(p)):
            a, b, c = p[i - 1], p[i], p[(i + 1) % len(p)]
            if cross(a, b, c) == 0:
                del p[i]
                break
            if cross(a, b, c) < 0:
                continue
            if any(
                cross(a, b, q) >= 0 and cross(b, c, q) >= 0 and cross(c, a, q) >= 0
                for q in p
                if q not in (a, b, c)
            ):
                continue
            out.append((a, b, c))
            del p[i]
            break
        else:
            raise AssertionError("no ear")
    out.append(tuple(p))
    return out


def reference(poly, X, Z):
    """outside, on the outline. All arithmetic on small integers is exact"""
    inside = np.zeros(X.shape, dtype=bool)
    for a, b, c in triangles(poly):
        t = np.ones(X.shape, dtype=bool)
        for u, v in ((a, b), (b, c), (c, a)):
            t &= (v[0] - u[0]) * (Z - u[1]) - (v[1] - u[1]) * (X - u[0]) >= 0
        inside |= t
    edge = np.zeros(X.shape, dtype=bool)
    n = len(poly)
    for i in range(n):
        u, v = poly[i], poly[(i + 1) % n]
        cr = (v[0] - u[0]) * (Z - u[1]) - (v[1] - u[1]) * (X - u[0])
        edge |= (
            (cr == 0)
            & (X >= min(u[0], v[0])) & (X <= max(u[0], v[0]))
            & (Z >= min(u[1], v[1])) & (Z <= max(u[1], v[1]))
        )
    return ~inside, edge


def polygon(ctl, nx, nz, n, sub, mappings, closed):
    """Every simple polygon with vertices on the lattice, any start, both orientations"""
    lattice = [(i * sub, j * sub) for i in range(nx) for j in range(nz)]
    poly = []
    for k in range(n - 1):
        poly.append(ctl.choose(f"vertex {k}", [p for p in lattice if p not in poly]))
    ctl.go()
    X, Z = np.meshgrid(
        np.arange(-sub, nx * sub + 1), np.arange(-2 * sub, (nz + 2) * sub), indexing="ij"
    )
    for last in [p for p in lattice if p not in poly]:
        pl = poly + [last]
        if not simple(pl):
            continue
        out, edge = reference(pl, X, Z)
        for sc, ox, oz in mappings:
            px = np.array([p[0] for p in pl]) * sc + ox
            pz = np.array([p[1] for p in pl]) * sc + oz
            if closed:
                px, pz = np.append(px, px[0]), np.append(pz, pz[0])
            b = boundary.PolygonBoundaryXZ(px, pz)
            x, z = X * sc + ox, Z * sc + oz
            got = b.outside(x, 0.3, z)
            ctl.step()
            ctl.check(np.shape(got) == x.shape, "shape", str(np.shape(got)))
            bad = (np.asarray(got, dtype=bool) != out) & ~edge
            ctl.compared += x.size
            if np.any(bad):
                i = tuple(np.argwhere(bad)[0])
                ctl.fail(
                    "polygon",
                    f"{list(zip(px.tolist(), pz.tolist()))}: ({x[i]}, {z[i]}) outside={got[i]}",
                )
        ctl.see(out)


def many(ctl, teeth, starts):
    """Combs with many vertices, every start, both orientations, as lists, integers or floats"""
    n = ctl.choose("teeth", teeth)
    deep = ctl.choose("depth of the teeth", [2, 5])
    vertical = ctl.flag("turned")
    form = ctl.choose("as", [list, lambda a: np.array(a), lambda a: np.array(a, dtype=float) / 4 - 3.0])
    pl = []
    for k in range(n):
        # every second tooth is higher
        pl += [(4 * k, 6), (4 * k + 2, 8 + 2 * (k % 2)), (4 * k + 4, 8 - deep)]
    pl += [(4 * n, 0), (0, 0)]
    if vertical:
        pl = [(b, a) for a, b in pl]
    if ctl.flag("other orientation"):
        pl = pl[::-1]
    s = ctl.choose("first vertex", range(len(pl)) if starts is None else starts)
    ctl.go()
    pl = pl[s:] + pl[:s]
    a = max(p[0] for p in pl)
    b = max(p[1] for p in pl)
    X, Z = np.meshgrid(np.arange(-1, a + 2), np.arange(-1, b + 2), indexing="ij")
    # repeated vertices make no difference
    out, edge = reference([p for k, p in enumerate(pl) if p != pl[k - 1]], X, Z)
    px, pz = form([p[0] for p in pl]), form([p[1] for p in pl])
    x, z = np.array(form(X)), np.array(form(Z))
    keep = list(px), list(pz), x.copy(), z.copy()
    got = np.asarray(boundary.PolygonBoundaryXZ(px, pz).outside(x, 0.0, z), dtype=bool)
    ctl.step()
    ctl.check(keep[0] == list(px) and keep[1] == list(pz) and np.array_equal(x, keep[2]) and np.array_equal(z, keep[3]), "input-modified")
    bad = (got != out) & ~edge
    ctl.compared += x.size
    if np.any(bad):
        i = tuple(np.argwhere(bad)[0])
        ctl.fail("comb", f"({x[i]}, {z[i]}) outside={got[i]}")
    ctl.see(out)


def shapes(ctl):
    """Array shapes, y is ignored, inputs are not modified"""
    kind = ctl.choose("boundary", ["none", "rect", "polygon"])
    shp = ctl.choose("shape", [(1,), (0,), (4,), (2, 3), (2, 1, 3), (1, 1)])
    yk = ctl.choose("y", [0.0, -3.0, 1e6, "array"])
    ctl.go()
    n = int(np.prod(shp))
    x = (np.arange(n) * 0.37 % 1.5 - 0.2).reshape(shp)
    z = (np.arange(n) * 0.53 % 1.6 - 0.3).reshape(shp)
    y = np.linspace(-1, 1, n).reshape(shp) if yk == "array" else yk
    if kind == "none":
        b, want = boundary.NoBoundary(), np.zeros(shp, dtype=bool)
    else:
        want = (x < 0) | (x > 1) | (z < 0.125) | (z > 0.75)
        if kind == "rect":
            b = boundary.RectangularBoundaryXZ(0.0, 1.0, 0.125, 0.75)
        else:
            b = boundary.PolygonBoundaryXZ([0.0, 1.0, 1.0, 0.0], [0.125, 0.125, 0.75, 0.75])
    xc, zc = x.copy(), z.copy()
    got = b.outside(x, y, z)
    ctl.step()
    ctl.check(np.shape(got) == shp, "shape", str(np.shape(got)))
    ctl.check(np.array_equal(np.asarray(got, dtype=bool), want), "value", f"{got} {want}")
    ctl.check(np.array_equal(x, xc) and np.array_equal(z, zc), "input-modified")


def rect(ctl, vals):
    """Every rectangle and every position relative to each side"""
    x0 = ctl.choose("xmin", vals[:-1])
    x1 = ctl.choose("xmax", [v for v in vals if v > x0])
    z0 = ctl.choose("zmin", vals[:-1])
    z1 = ctl.choose("zmax", [v for v in vals if v > z0])
    ctl.go()
    b = boundary.RectangularBoundaryXZ(x0, x1, z0, z1)
    pts = sorted({v for w in vals for v in (w, np.nextafter(w, 99), np.nextafter(w, -99), w + 0.125)})
    X, Z = np.meshgrid(pts, pts, indexing="ij")
    got = b.outside(X, 0.0, Z)
    ctl.step()
    want = np.array([[not (x0 <= x <= x1 and z0 <= z <= z1) for z in pts] for x in pts])
    ctl.compared += want.size
    ctl.check(np.array_equal(got, want), "rectangle", "differs")
    ctl.see(want)


def families(tier):
    m = [(1.0, 0.0, 0.0), (0.125, -1.25, -3.5)]
    q = [
        Family("triangles", polygon, "all ordered triangles on a 4x4 lattice, points at half spacing", nx=4, nz=4, n=3, sub=2, mappings=m, closed=False),
        Family("quads", polygon, "all ordered simple quadrilaterals on a 3x3 lattice, points at half spacing", nx=3, nz=3, n=4, sub=2, mappings=m, closed=False),
        Family("pentagons", polygon, "all ordered simple pentagons on a 3x3 lattice", nx=3, nz=3, n=5, sub=2, mappings=m[1:], closed=False),
        Family("closed", polygon, "triangles on a 3x3 lattice with the first point repeated", nx=3, nz=3, n=3, sub=2, mappings=m[:1], closed=True),
        Family("many", many, "combs of up to 60 teeth, several starts", teeth=[2, 3, 17, 60], starts=[0, 1, 2, 3, 4, 5, -1, -2]),
        Family("comb", many, "combs of 4 teeth, every start", teeth=[4], starts=None),
        Family("shapes", shapes, "6 array shapes"),
        Family("rect", rect, "all rectangles with sides in 5 values", vals=[-2.0, -0.5, 0.0, 0.25, 3.0]),
    ]
    if tier == "quick":
        return q
    return q + [
        Family("hexagons", polygon, "all ordered simple hexagons on a 3x3 lattice", nx=3, nz=3, n=6, sub=2, mappings=m[1:], closed=False),
        Family("quads4", polygon, "all ordered simple quadrilaterals on a 4x4 lattice, points at a third", nx=4, nz=4, n=4, sub=3, mappings=m, closed=False),
    ]
