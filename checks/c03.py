"""Cell and leg numbering of the parallel map operators."""

import itertools

import numpy as np

from mc import weightref
from mc.engine import Family
from zoidberg import weights

ASSUMPTIONS = [
    "maps given to the operator construction are finite and the sub-cell weights sum to one"
]


def base_maps(nx, ny, nz, mxg):
    R = np.arange(nx * ny * nz, dtype=float).reshape(nx, ny, nz)
    return {"R": R, "Z": -R, "MXG": mxg, "MYG": 1}


def value(cls, nx, mxg, n):
    """A mapped x for each class; n varies the value within the class"""
    lo, hi = mxg, nx - mxg - 1
    if cls == "lo":
        return [-1.0, mxg - 0.01, -0.3, mxg - 1e-7][n % 4] if mxg else [-1.0, -1.5, -2.0, -1e-7][n % 4]
    if cls == "hi":
        return [nx + 0.0, hi + 0.01, hi + 0.75, hi + 1e-7][n % 4]
    if cls == "edge-lo":
        return float(lo)
    if cls == "edge-hi":
        return float(hi)
    return lo + (hi - lo) * ((n * 3 + 1) % 8) / 8.0


def single(ctl, shapes, classes):
    """One sample per cell: all classifications of all cells, both directions"""
    nx, ny, nz, mxg = ctl.choose("nx,ny,nz,mxg", shapes)
    fallback = ctl.flag("maps without sub-cell arrays")
    cells = list(itertools.product(range(mxg, nx - mxg), range(ny), range(nz)))
    maps = base_maps(nx, ny, nz, mxg)
    n = 0
    for d in ("forward", "backward"):
        # Guard cells: mapped out of the domain, must not matter
        xt = np.full((nx, ny, nz), -1.0)
        zt = np.full((nx, ny, nz), -1.0)
        for c in cells:
            cls = ctl.choose(f"{d}{c}", classes)
            xt[c] = value(cls, nx, mxg, n)
            zt[c] = (n * 5 % 16) / 4.0 - 1.0
            n += 1
        maps[f"{d}_xt_prime"], maps[f"{d}_zt_prime"] = xt, zt
        if not fallback:
            maps[f"{d}_xt_primes"] = xt[..., None]
            maps[f"{d}_zt_primes"] = zt[..., None]
            maps["subcell_weights"] = np.ones(1)
    ctl.go()
    run(ctl, maps)


def run(ctl, maps):
    keep = {k: np.array(v, copy=True) for k, v in maps.items()}
    ops = weights.calculate_parallel_map_operators(maps)
    ctl.step()
    for k in keep:
        ctl.check(np.array_equal(keep[k], maps[k]), "input-modified", k)
    weightref.check_structure(ctl, maps, ops)
    cells = weights.assign_cell_space_numbers(maps)
    nx, ny, nz = maps["R"].shape
    ctl.check(cells["N_evolving"] == (nx - 2 * maps["MXG"]) * ny * nz, "evolving-count",
              f"{cells['N_evolving']} evolving cells")
    ctl.check(cells["N_cells"] == ops["total_cells"], "cell-count", f"{cells['N_cells']}")
    for d in ("forward", "backward"):
        A = weightref.dense_rows(ctl, ops, d, int(ops["total_cells"]))
        ctl.close(A.sum(axis=1), np.ones(len(A)), "row-sum", msg=d)
    ctl.see(ops["forward_leg_weights"], ops["backward_leg_weights"],
            ops["forward_cell_number"], ops["backward_cell_number"],
            ops["forward_leg_interior_number"], ops["backward_leg_interior_number"])


WEIGHTS = {
    1: np.array([1.0]),
    2: np.array([0.25, 0.75]),
    3: np.array([5.0, 8.0, 5.0]) / 18,
    4: np.array([0.1, 0.2, 0.3, 0.4]),
    9: np.outer([5.0, 8.0, 5.0], [5.0, 8.0, 5.0]).ravel() / 18**2,
    25: np.arange(1.0, 26.0) / 325,
}


def multi(ctl, shapes, nsamples, classes):
    """Several samples per cell with unequal weights"""
    nx, ny, nz, mxg = ctl.choose("nx,ny,nz,mxg", shapes)
    ns = ctl.choose("samples", nsamples)
    cells = list(itertools.product(range(mxg, nx - mxg), range(ny), range(nz)))
    maps = base_maps(nx, ny, nz, mxg)
    maps["subcell_weights"] = WEIGHTS[ns].copy()
    n = 0
    for d in ("forward", "backward"):
        xt = np.full((nx, ny, nz, ns), -1.0)
        zt = np.full((nx, ny, nz, ns), -1.0)
        for c in cells:
            cl = ctl.choose(
                f"{d}{c}", list(itertools.product(classes, repeat=ns))
            )
            for s, k in enumerate(cl):
                xt[c + (s,)] = value(k, nx, mxg, n)
                zt[c + (s,)] = (n * 7 % 24) / 4.0 - 2.0
                n += 1
        maps[f"{d}_xt_primes"], maps[f"{d}_zt_primes"] = xt, zt
        maps[f"{d}_xt_prime"], maps[f"{d}_zt_prime"] = xt[..., 0], zt[..., 0]
    ctl.go()
    run(ctl, maps)


def large(ctl, shapes, nsamples, coeffs, mods):
    """Larger grids, with regular patterns of the classes"""
    nx, ny, nz, mxg = ctl.choose("nx,ny,nz,mxg", shapes)
    ns = ctl.choose("samples", nsamples)
    m = ctl.choose("classes", mods)
    co = [ctl.choose(f"coefficient {k}", coeffs) for k in "xyz"]
    ctl.go()
    cells = list(itertools.product(range(mxg, nx - mxg), range(ny), range(nz)))
    maps = base_maps(nx, ny, nz, mxg)
    maps["subcell_weights"] = WEIGHTS[ns].copy()
    n = 0
    for f, d in enumerate(("forward", "backward")):
        xt = np.full((nx, ny, nz, ns), -1.0)
        zt = np.full((nx, ny, nz, ns), -1.0)
        for c in cells:
            for s in range(ns):
                k = (co[0] * c[0] + co[1] * c[1] + co[2] * c[2] + (f + 1) * s + f) % m
                xt[c + (s,)] = value(("in" if m == 1 else ["hi", "in", "lo", "in", "in"][k % 5]), nx, mxg, n)
                zt[c + (s,)] = (n * 7 % (4 * nz)) / 4.0 - nz / 2
                n += 1
        maps[f"{d}_xt_primes"], maps[f"{d}_zt_primes"] = xt, zt
        maps[f"{d}_xt_prime"], maps[f"{d}_zt_prime"] = xt[..., 0], zt[..., 0]
    run(ctl, maps)


def invalid(ctl):
    """Inconsistent sub-cell weights are refused"""
    bad = ctl.choose("weights", ["missing", "length", "sum", "2d"])
    maps = base_maps(5, 1, 2, 1)
    for d in ("forward", "backward"):
        maps[f"{d}_xt_primes"] = np.full((5, 1, 2, 2), 2.0)
        maps[f"{d}_zt_primes"] = np.full((5, 1, 2, 2), 1.0)
    w = {"length": np.ones(3) / 3, "sum": np.array([0.5, 0.4]), "2d": np.full((1, 2), 0.5)}
    if bad != "missing":
        maps["subcell_weights"] = w[bad]
    ctl.go()
    ctl.step()
    ctl.raises(ValueError, "bad-weights-accepted", weights.calculate_parallel_map_operators, maps)


def families(tier):
    three = ["in", "lo", "hi"]
    five = three + ["edge-lo", "edge-hi"]
    if tier == "quick":
        return [
            Family("single-3", single, "1 sample, 3 classes, up to 3 evolving cells, both directions",
                   shapes=[(3, 1, 2, 1), (3, 2, 1, 1), (4, 1, 1, 1), (3, 1, 3, 1), (5, 1, 2, 2), (2, 1, 1, 0)],
                   classes=three),
            Family("single-5", single, "1 sample, 5 classes, up to 2 evolving cells",
                   shapes=[(4, 1, 1, 1), (5, 1, 2, 2), (3, 2, 1, 1), (6, 1, 1, 2)], classes=five),
            Family("multi-2", multi, "2 and 3 samples, every in/low/high pattern, up to 2 evolving cells",
                   shapes=[(3, 1, 1, 1), (5, 1, 1, 2), (3, 1, 2, 1)], nsamples=[2], classes=three),
            Family("multi-3", multi, "3 and 4 samples, every in/high pattern, 1-2 evolving cells",
                   shapes=[(3, 1, 1, 1), (4, 1, 1, 1)], nsamples=[3], classes=["in", "hi"]),
            Family("large", large, "5 larger grids, 1-3 samples, all regular patterns", shapes=[(12, 4, 9, 2), (9, 2, 17, 1), (8, 7, 2, 3), (20, 1, 6, 0), (16, 9, 2, 5)],
                   nsamples=[1, 3, 9], coeffs=[0, 1, 2], mods=[3, 5]),
            Family("wide", large, "rows with many entries: 25 samples over a larger grid", shapes=[(14, 1, 12, 1), (11, 2, 9, 2)],
                   nsamples=[25], coeffs=[1], mods=[1, 2, 5]),
            Family("invalid", invalid, "4 kinds of inconsistent weights"),
        ]
    return [
        Family("single-3", single, "1 sample, 3 classes, up to 4 evolving cells",
               shapes=[(3, 1, 2, 1), (3, 2, 2, 1), (4, 1, 2, 1), (3, 1, 4, 1), (3, 4, 1, 1), (6, 2, 1, 2), (2, 1, 2, 0), (5, 1, 2, 2)],
               classes=three),
        Family("single-5", single, "1 sample, 5 classes, up to 3 evolving cells",
               shapes=[(5, 1, 1, 1), (5, 1, 3, 2), (3, 3, 1, 1), (6, 1, 1, 2)], classes=five),
        Family("multi-2", multi, "2 samples, in/low/high, up to 2 evolving cells",
               shapes=[(3, 1, 1, 1), (5, 1, 1, 2), (3, 1, 2, 1), (4, 1, 1, 1), (3, 2, 1, 1)], nsamples=[2], classes=three),
        Family("multi-3", multi, "3 and 4 samples, in/high, up to 2 evolving cells",
               shapes=[(3, 1, 1, 1), (4, 1, 1, 1), (3, 1, 2, 1)], nsamples=[3, 4], classes=["in", "hi"]),
        Family("large", large, "5 larger grids, 1-4 samples, all regular patterns", shapes=[(12, 4, 9, 2), (9, 2, 17, 1), (8, 7, 2, 3), (20, 1, 6, 0), (16, 9, 2, 5)],
               nsamples=[1, 2, 3, 4, 9, 25], coeffs=[0, 1, 2, 3, 5], mods=[2, 3, 5, 11]),
        Family("wide", large, "rows with many entries: 25 samples over a larger grid", shapes=[(14, 1, 12, 1), (11, 2, 9, 2), (20, 1, 16, 1)],
               nsamples=[25], coeffs=[1, 2], mods=[1, 2, 5]),
        Family("invalid", invalid, "4 kinds of inconsistent weights"),
    ]
