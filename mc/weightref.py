"""Reference model of the parallel map operators.

Written from the documentation of the module, with plain dictionaries instead
of arrays: for every evolving cell and direction the samples are split into
those that reach the interior and those that end in the radial boundary.
"""

import math

import numpy as np


def hits(x, nx, mxg):
    return x < mxg or x > nx - mxg - 1


def catmull_rom(f_m1, f_0, f_1, f_2, u):
    """Uniform Catmull-Rom spline segment (Hermite form with central slopes)"""
    m0 = 0.5 * (f_1 - f_m1)
    m1 = 0.5 * (f_2 - f_0)
    h00 = 2 * u**3 - 3 * u**2 + 1
    h10 = u**3 - 2 * u**2 + u
    h01 = -2 * u**3 + 3 * u**2
    h11 = u**3 - u**2
    return h00 * f_0 + h10 * m0 + h01 * f_1 + h11 * m1


def interpolate(plane, x, z, mxg):
    """Value of the field plane[x, z] at a mapped position.

    z is periodic; at the radial boundary the outermost evolving value is used
    in place of the boundary values.
    """
    nx, nz = plane.shape
    ib, kb = math.floor(x), math.floor(z)

    def row(i):
        i = min(max(i, mxg), nx - mxg - 1)
        return catmull_rom(*[plane[i, (kb + k) % nz] for k in (-1, 0, 1, 2)], z - kb)

    return catmull_rom(*[row(ib + i) for i in (-1, 0, 1, 2)], x - ib)


def dense_rows(ctl, ops, d, ncells):
    """Check the CSR arrays and return them as dense matrix"""
    rows = np.asarray(ops[f"{d}_rows"])
    cols = np.asarray(ops[f"{d}_columns"])
    w = np.asarray(ops[f"{d}_weights"])
    n = int(ops[f"n_{d}_legs"])
    ctl.check(rows.shape == (n + 1,), "csr-rows", f"{rows.shape} for {n} legs")
    ctl.check(rows[0] == 0, "csr-first")
    ctl.check(np.all(np.diff(rows) >= 0), "csr-monotonic")
    ctl.check(rows[-1] == len(cols) == len(w), "csr-length")
    ctl.check(np.all(np.isfinite(w)), "csr-finite")
    ctl.check(
        len(cols) == 0 or (cols.min() >= 0 and cols.max() < ncells), "csr-columns"
    )
    A = np.zeros((n, ncells))
    for i in range(n):
        row = cols[rows[i] : rows[i + 1]]
        ctl.check(len(set(row.tolist())) == len(row), "csr-duplicates", lambda: f"{d} row {i}: columns {row}")
        np.add.at(A[i], cols[rows[i] : rows[i + 1]], w[rows[i] : rows[i + 1]])
    return A


def check_structure(ctl, maps, ops):
    """Numbering of cells and legs, and leg weights."""
    nx, ny, nz = maps["R"].shape
    mxg = int(maps["MXG"])
    num = np.asarray(ops["cell_number"])
    ncells = int(ops["total_cells"])
    inner = slice(mxg, nx - mxg)
    nevol = (nx - 2 * mxg) * ny * nz
    ctl.check(num.shape == (nx, ny, nz), "cell-shape")
    ctl.check(
        sorted(num.ravel()) == list(range(nx * ny * nz)),
        "cell-bijection",
        lambda: f"cell numbers {num.ravel()}",
    )
    ctl.check(
        nevol == 0 or np.all(num[inner] < nevol), "evolving-first", "evolving cells"
    )
    ctl.check(
        np.all(num[:mxg] < nevol + mxg * ny * nz),
        "inner-boundary-before-outer",
    )
    w = np.asarray(maps.get("subcell_weights", np.ones(1)), float)
    used = []
    for d in ("forward", "backward"):
        xt = np.asarray(maps.get(f"{d}_xt_primes", maps.get(f"{d}_xt_prime")), float)
        if xt.ndim == 3:
            xt = xt[..., None]
        bnd = np.asarray(ops[f"{d}_cell_number"])
        il = np.asarray(ops[f"{d}_leg_interior_number"])
        bl = np.asarray(ops[f"{d}_leg_boundary_number"])
        lw = np.asarray(ops[f"{d}_leg_weights"])
        n = int(ops[f"n_{d}_legs"])
        ctl.check(lw.shape == (n,), "leg-weight-shape")
        for a, t in ((bnd, "boundary"), (il, "interior-leg"), (bl, "boundary-leg")):
            ctl.check(a.shape == (nx, ny, nz), f"{t}-shape")
            ctl.check(np.all(a >= -1), f"{t}-marker", f"{d}: {np.unique(a[a < -1])} instead of -1")
        legs = []
        for x in range(nx):
            for y in range(ny):
                for z in range(nz):
                    ijk = (x, y, z)
                    if not mxg <= x < nx - mxg:
                        ctl.check(
                            bnd[ijk] < 0 and il[ijk] < 0 and bl[ijk] < 0,
                            "guard-cell-has-leg",
                            f"{d} {ijk}",
                        )
                        continue
                    h = [hits(v, nx, mxg) for v in xt[ijk]]
                    ctl.check(
                        (bnd[ijk] >= 0) == any(h),
                        "boundary-cell-iff-hit",
                        f"{d} {ijk} x'={xt[ijk]} number {bnd[ijk]}",
                    )
                    ctl.check(
                        (bl[ijk] >= 0) == any(h),
                        "boundary-leg-iff-hit",
                        f"{d} {ijk} x'={xt[ijk]} leg {bl[ijk]}",
                    )
                    ctl.check(
                        (il[ijk] >= 0) == (not all(h)),
                        "interior-leg-iff-interior",
                        f"{d} {ijk} x'={xt[ijk]} leg {il[ijk]}",
                    )
                    if any(h):
                        used.append(int(bnd[ijk]))
                        legs.append(int(bl[ijk]))
                        ctl.close(
                            lw[bl[ijk]],
                            sum(a for a, b in zip(w, h) if b),
                            "boundary-leg-weight",
                            msg=f"{d} {ijk}",
                        )
                    if not all(h):
                        legs.append(int(il[ijk]))
                        ctl.close(
                            lw[il[ijk]],
                            sum(a for a, b in zip(w, h) if not b),
                            "interior-leg-weight",
                            msg=f"{d} {ijk}",
                        )
        ctl.check(sorted(legs) == list(range(n)), "leg-bijection", f"{d} {legs} {n}")
    ctl.check(
        sorted(used) == list(range(nx * ny * nz, ncells)),
        "boundary-cell-bijection",
        lambda: f"{sorted(used)} should be {nx * ny * nz}..{ncells - 1}",
    )


def check_operator(ctl, maps, ops, probes):
    """Rows of both operators, applied to the probe fields."""
    nx, ny, nz = maps["R"].shape
    mxg = int(maps["MXG"])
    num = np.asarray(ops["cell_number"])
    ncells = int(ops["total_cells"])
    w = np.asarray(maps.get("subcell_weights", np.ones(1)), float)
    for d, off in (("forward", 1), ("backward", -1)):
        A = dense_rows(ctl, ops, d, ncells)
        xt = np.asarray(maps.get(f"{d}_xt_primes", maps.get(f"{d}_xt_prime")), float)
        zt = np.asarray(maps.get(f"{d}_zt_primes", maps.get(f"{d}_zt_prime")), float)
        if xt.ndim == 3:
            xt, zt = xt[..., None], zt[..., None]
        ctl.close(A.sum(axis=1), np.ones(len(A)), "row-sum", msg=d)
        il = ops[f"{d}_leg_interior_number"]
        bl = ops[f"{d}_leg_boundary_number"]
        bnd = ops[f"{d}_cell_number"]
        vec = np.empty((len(probes), ncells))
        for p, f in enumerate(probes):
            vec[p] = 1e3 + np.arange(ncells)  # marks boundary cells
            vec[p][num.ravel()] = f.ravel()
        out = A @ vec.T
        # radial boundary cells must not be used
        guard = np.concatenate((num[:mxg].ravel(), num[nx - mxg :].ravel()))
        for x in range(mxg, nx - mxg):
            for y in range(ny):
                for z in range(nz):
                    ijk = (x, y, z)
                    h = np.array([hits(v, nx, mxg) for v in xt[ijk]])
                    if h.any():
                        e = np.zeros(ncells)
                        e[bnd[ijk]] = 1
                        ctl.close(A[bl[ijk]], e, "boundary-row", msg=f"{d} {ijk}")
                    if not h.all():
                        row = A[il[ijk]]
                        ctl.check(
                            np.all(np.abs(row[guard]) < 1e-9),
                            "weight-on-radial-boundary",
                            f"{d} {ijk} x'={xt[ijk]}",
                        )
                        W = w[~h].sum()
                        for p, f in enumerate(probes):
                            want = (
                                sum(
                                    w[s]
                                    * interpolate(
                                        f[:, (y + off) % ny, :],
                                        xt[ijk][s],
                                        zt[ijk][s],
                                        mxg,
                                    )
                                    for s in np.flatnonzero(~h)
                                )
                                / W
                            )
                            ctl.close(
                                out[il[ijk], p],
                                want,
                                "interpolated-value",
                                atol=1e-7,
                                msg=f"{d} {ijk} x'={xt[ijk]} z'={zt[ijk]}",
                            )
