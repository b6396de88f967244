"""Increasing the resolution in y along the field lines."""

import contextlib
import io
import warnings

import numpy as np

from mc.engine import Family
from zoidberg import progress
from zoidberg import zoidberg as zb

if hasattr(progress, "stdout"):  # the progress bar
    progress.stdout = io.StringIO()

ASSUMPTIONS = [
    "the maps are forward maps in index space, smooth, and without folding",
    "values are only judged where the field lines around the point stay inside the index space: "
    "elsewhere there is nothing to interpolate from",
]


def coefficients(ny):
    """Different affine functions of x and z on every slice"""
    j = np.arange(ny)
    return np.sin(1 + 2.0 * j), 0.3 * np.cos(1 + 3.0 * j), 0.2 * np.sin(2 + 5.0 * j)


def shifts(kind, nx, ny, nz):
    """Shift in x and z of the field lines from every slice to the next"""
    j = np.arange(ny)
    if kind == "none":
        return np.zeros(ny), np.zeros(ny)
    if kind == "x":
        return np.ones(ny), np.zeros(ny)
    if kind == "-x":
        return -np.ones(ny), np.zeros(ny)
    if kind == "z":
        return np.zeros(ny), np.ones(ny)
    if kind == "-z":
        return np.zeros(ny), -np.ones(ny)
    if kind == "xz":
        return np.ones(ny), -np.ones(ny)
    if kind == "varying":
        return (j % 3 - 1.0), ((j + 1) % 3 - 1.0)
    if kind == "fraction":
        return 0.3 + 0.0 * j, -0.45 + 0.2 * (j % 2)
    raise ValueError(kind)


def call(ctl, f, maps, n, quiet):
    keep = f.copy(), {k: v.copy() for k, v in maps.items()}
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        args = {} if n is None else {"upscale_factor": n}
        if quiet is not None:
            args["quiet"] = quiet
        out = zb.upscale(f, maps, **args)
    ctl.step()
    ctl.check(np.array_equal(keep[0], f), "input-modified", "field")
    for k in maps:
        ctl.check(np.array_equal(keep[1][k], maps[k]), "input-modified", k)
    return out


def make(nx, ny, nz, kind):
    I, J, K = np.meshgrid(np.arange(nx), np.arange(ny), np.arange(nz), indexing="ij")
    sx, sz = shifts(kind, nx, ny, nz)
    return I, J, K, sx, sz, {
        "forward_xt_prime": I + sx[J],
        "forward_zt_prime": K + sz[J],
    }


def slices(ctl, sizes, kinds, factors):
    """Every slice of the field is unchanged, for any field"""
    nx, ny, nz = ctl.choose("nx,ny,nz", sizes)
    kind = ctl.choose("shift", kinds)
    n = ctl.choose("factor", factors)
    layout = ctl.choose("layout", ["as grid", "transposed"])
    quiet = ctl.choose("quiet", [None, True, False])
    ctl.go()
    I, J, K, sx, sz, maps = make(nx, ny, nz, kind)
    f = np.sin(1.0 + (I * 7 + J * 31 + K * 3) ** 2 % 17)
    nn = 4 if n is None else n
    if layout == "transposed" and len({nx, ny, nz}) < 3:
        layout = "as grid"
    got = call(ctl, f if layout == "as grid" else np.ascontiguousarray(f.T), maps, n, quiet)
    ctl.check(got.shape == (nx, nn * ny, nz), "shape", f"{got.shape}")
    ctl.close(got[:, ::nn], f, "slice", msg=f"{kind} {n}", rtol=1e-9, atol=1e-9)
    ctl.see(got)


def between(ctl, sizes, kinds, factors):
    """Affine functions that differ from slice to slice, linear along the field lines"""
    nx, ny, nz = ctl.choose("nx,ny,nz", sizes)
    kind = ctl.choose("shift", kinds)
    n = ctl.choose("factor", factors)
    ctl.go()
    I, J, K, sx, sz, maps = make(nx, ny, nz, kind)
    a, b, c = coefficients(ny)
    exact = kind != "fraction"
    if not exact:
        b = 0 * b
        c = 0 * c
    f = a[J] + b[J] * I + c[J] * K
    got = call(ctl, f, maps, n, True)
    i, k = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")

    def inside(start, s, n):
        """The lines on both sides start and end inside"""
        ends = [fn(start + d) + e for fn, d in ((np.floor, -1e-6), (np.ceil, 1e-6)) for e in (0, s)]
        return np.all([(e >= 0) & (e <= n - 1) for e in ends], axis=0)

    for j in range(ny):
        for m in range(n):
            t = m / n
            x0, z0 = i - t * sx[j], k - t * sz[j]
            u = (j + 1) % ny
            want = (1 - t) * (a[j] + b[j] * x0 + c[j] * z0) + t * (
                a[u] + b[u] * (x0 + sx[j]) + c[u] * (z0 + sz[j])
            )
            ok = inside(x0, sx[j], nx) & inside(z0, sz[j], nz)
            ctl.close(got[:, j * n + m][ok], want[ok], "between",
                      msg=f"slice {j} + {m}/{n}", rtol=1e-8, atol=1e-8)
    ctl.see(got)


def aligned(ctl, sizes, factors, fields):
    """Structures along the field lines stay along them: shear and rotation"""
    n1, ny = ctl.choose("nx=nz, ny", sizes)
    n = ctl.choose("factor", factors)
    field = ctl.choose("field lines", fields)
    ctl.go()
    nx = nz = n1
    I, J, K = np.meshgrid(np.arange(nx), np.arange(ny), np.arange(nz), indexing="ij")
    xc, zc = (nx - 1) / 2, (nz - 1) / 2
    w = 2 * np.pi / nx
    if field == "shear":
        step = lambda x, z: (x, z + 0.08 * (x - xc))
    elif field == "shift":
        step = lambda x, z: (x + 0.4, z - 0.7)
    else:
        step = lambda x, z: (xc + 0.97 * (x - xc), zc + 1.02 * (z - zc))
    xt, zt = step(I, K)
    f = np.cos(w * (I - xc)) * np.cos(0.7 * w * (K - zc)) + 0.1 * J
    got = call(ctl, f, {"forward_xt_prime": xt, "forward_zt_prime": zt}, n, True)
    fn = lambda x, z, j: np.cos(w * (x - xc)) * np.cos(0.7 * w * (z - zc)) + 0.1 * j
    mx = nx // 4
    # Invert x = x0 + t (step(x0) - x0) by fixed point iteration
    i, k = np.meshgrid(np.arange(mx, nx - mx), np.arange(mx, nz - mx), indexing="ij")
    for j in range(ny):
        u = (j + 1) % ny
        for m in range(n):
            t = m / n
            x0, z0 = i * 1.0, k * 1.0
            for _ in range(60):
                xs, zs = step(x0, z0)
                x0, z0 = x0 + (i - (x0 + t * (xs - x0))), z0 + (k - (z0 + t * (zs - z0)))
            xs, zs = step(x0, z0)
            want = (1 - t) * fn(x0, z0, j) + t * fn(xs, zs, u)
            ctl.close(got[mx : nx - mx, j * n + m, mx : nz - mx], want, "aligned",
                      msg=f"slice {j} + {m}/{n}", rtol=0, atol=0.03 * (24 / nx) ** 2)
    ctl.see(got)


def refused(ctl):
    """Fields that do not belong to the grid are refused"""
    shape = ctl.choose("shape", [(5, 3, 6), (5, 2), (30,), (4, 2, 5), (1, 1, 1)])
    ctl.go()
    I, J, K, sx, sz, maps = make(5, 2, 6, "none")
    ctl.step()
    ctl.raises(ValueError, "accepted", zb.upscale, np.zeros(shape), maps)


def families(tier):
    q = tier == "quick"
    kinds = ["none", "x", "-x", "z", "-z", "xz", "varying", "fraction"]
    return [
        Family("slices", slices, "5 (8) sizes, 8 shifts, 4 (7) factors, 2 layouts, with and without progress bar",
               sizes=[(5, 2, 6), (4, 1, 5), (6, 3, 4), (5, 4, 8), (3, 2, 7)]
               + ([] if q else [(8, 5, 6), (7, 1, 4), (4, 7, 9)]),
               kinds=kinds, factors=[None, 1, 2, 3] + ([] if q else [4, 5, 8])),
        Family("between", between, "every slice and position, 4 (7) sizes, 8 shifts, 4 (7) factors",
               sizes=[(6, 2, 7), (5, 1, 6), (7, 3, 6), (6, 4, 8)] + ([] if q else [(9, 5, 7), (8, 2, 12), (12, 7, 9)]),
               kinds=kinds, factors=[1, 2, 3, 4] + ([] if q else [5, 6, 8])),
        Family("aligned", aligned, "shear, shift and compression",
               sizes=[(24, 1), (24, 3), (32, 2)] + ([] if q else [(48, 4), (64, 2)]),
               factors=[2, 4] + ([] if q else [3, 5]), fields=["shear", "shift", "compression"]),
        Family("large", between, "larger grids, more slices", sizes=[(20, 9, 33), (40, 3, 12)], kinds=kinds, factors=[2, 3, 10]),
        Family("refused", refused, "5 wrong shapes"),
    ]
