"""Values given by the parallel interpolation operators."""

import itertools

import numpy as np

from mc import weightref
from mc.engine import Family
from zoidberg import weights

ASSUMPTIONS = [
    "positions are on a lattice of 1/8 (quick: 1/4) cells in x and z; the reference is an independent Hermite form of the Catmull-Rom spline"
]


def probes(nx, ny, nz):
    """Fields that tell apart every cell (distinct, irregular values)"""
    i, j, k = np.meshgrid(np.arange(nx), np.arange(ny), np.arange(nz), indexing="ij")
    n = i * ny * nz + j * nz + k
    a = np.cos(1.7 * n) + 0.01 * n
    b = np.where((i + 2 * j + 3 * k) % 5 == 0, 1.0, 0.0) + 0.3 * i - 0.1 * j
    return [a, b]


def lattice(ctl, shapes, frac, turn=(-2, -1, 0, 1)):
    """All positions (x', z') on a lattice, for each y and both directions"""
    nx, ny, nz, mxg = ctl.choose("nx,ny,nz,mxg", shapes)
    xq = ctl.choose("x' * frac", list(range(mxg * frac, (nx - mxg - 1) * frac + 1)))
    turns = ctl.choose("z turns", list(turn))
    ctl.go()
    x = xq / frac
    zpos = [turns * nz + q / frac for q in range(nz * frac)]
    cells = list(itertools.product(range(mxg, nx - mxg), range(ny), range(nz)))
    for start in range(0, len(zpos), max(1, (nx - 2 * mxg) * nz)):
        maps = {"R": np.zeros((nx, ny, nz)), "MXG": mxg, "MYG": 1}
        for d in ("forward", "backward"):
            xt = np.full((nx, ny, nz), float(x))
            zt = np.zeros((nx, ny, nz))
            for c in cells:
                n = start + (c[0] - mxg) * nz + c[2]
                zt[c] = zpos[n % len(zpos)]
            maps[f"{d}_xt_prime"], maps[f"{d}_zt_prime"] = xt, zt
        ops = weights.calculate_parallel_map_operators(maps)
        ctl.step()
        weightref.check_operator(ctl, maps, ops, probes(nx, ny, nz))
        ctl.see(x, ops["forward_weights"], ops["forward_columns"])


def close_to_cells(ctl, shapes, eps):
    """Positions very close to a cell centre in x or z, on either side"""
    nx, ny, nz, mxg = ctl.choose("nx,ny,nz,mxg", shapes)
    ix = ctl.choose("x cell", list(range(mxg, nx - mxg)))
    ex = ctl.choose("x distance", [0.0] + [s * e for e in eps for s in (1, -1)])
    ez = ctl.choose("z distance", [0.0, 0.5] + [s * e for e in eps for s in (1, -1)])
    ctl.go()
    x = ix + ex
    maps = {"R": np.zeros((nx, ny, nz)), "MXG": mxg, "MYG": 1}
    k = np.arange(nz)[None, None, :] + np.zeros((nx, ny, nz))
    for d in ("forward", "backward"):
        maps[f"{d}_xt_prime"] = np.full((nx, ny, nz), x)
        maps[f"{d}_zt_prime"] = k + ez
    ops = weights.calculate_parallel_map_operators(maps)
    ctl.step()
    weightref.check_structure(ctl, maps, ops)
    weightref.check_operator(ctl, maps, ops, probes(nx, ny, nz))
    ctl.see(x, ez, ops["forward_weights"])


def samples(ctl, shapes, frac):
    """Two and three samples per cell with different positions and weights.
    Some may end in the boundary; the rest is renormalised."""
    nx, ny, nz, mxg = ctl.choose("nx,ny,nz,mxg", shapes)
    w = ctl.choose("weights", [[0.25, 0.75], [0.2, 0.3, 0.5]])
    pos = [-1.0] + [mxg + q / frac for q in range(0, (nx - 2 * mxg - 1) * frac + 1)]
    pos += [float(nx)]
    xs = [ctl.choose(f"x'{s}", pos) for s in range(len(w))]
    ctl.go()
    cells = list(itertools.product(range(mxg, nx - mxg), range(ny), range(nz)))
    maps = {"R": np.zeros((nx, ny, nz)), "MXG": mxg, "MYG": 1}
    maps["subcell_weights"] = np.array(w)
    for f, d in enumerate(("forward", "backward")):
        xt = np.zeros((nx, ny, nz, len(w)))
        zt = np.zeros((nx, ny, nz, len(w)))
        for n, c in enumerate(cells):
            for s in range(len(w)):
                xt[c + (s,)] = xs[(s + f) % len(w)]
                zt[c + (s,)] = ((n * 3 + s * 5 + f) % (6 * nz)) / 4.0 - nz / 2.0
        maps[f"{d}_xt_primes"], maps[f"{d}_zt_primes"] = xt, zt
    ops = weights.calculate_parallel_map_operators(maps)
    ctl.step()
    weightref.check_structure(ctl, maps, ops)
    weightref.check_operator(ctl, maps, ops, probes(nx, ny, nz))
    ctl.see(ops["forward_weights"], ops["backward_weights"], ops["forward_leg_weights"])


def exactness(ctl, shapes, frac):
    """Constants, linear and quadratic fields in x are reproduced away from
    the boundary, whatever the position in z; grid points are reproduced."""
    nx, ny, nz, mxg = ctl.choose("nx,ny,nz,mxg", shapes)
    lo, hi = mxg + 1, nx - mxg - 2
    xq = ctl.choose("x' * frac", list(range(lo * frac, hi * frac + 1)))
    ctl.go()
    x = xq / frac
    maps = {"R": np.zeros((nx, ny, nz)), "MXG": mxg, "MYG": 1}
    z = np.arange(nx * ny * nz).reshape(nx, ny, nz) * 0.37 - 3.0
    for d in ("forward", "backward"):
        maps[f"{d}_xt_prime"] = np.full((nx, ny, nz), x)
        maps[f"{d}_zt_prime"] = z
    ops = weights.calculate_parallel_map_operators(maps)
    ctl.step()
    i = np.arange(nx)[:, None, None] + np.zeros((nx, ny, nz))
    for d in ("forward", "backward"):
        A = weightref.dense_rows(ctl, ops, d, int(ops["total_cells"]))
        for deg in range(3):
            vec = np.full(int(ops["total_cells"]), 1e6)
            vec[ops["cell_number"].ravel()] = (i**deg).ravel()
            ctl.close(A @ vec, np.full(len(A), x**deg), f"degree-{deg}", msg=d)
    ctl.see(ops["forward_weights"])


EPS = [1e-1, 1e-2, 1e-3, 1e-4, 1e-6]


def families(tier):
    if tier == "quick":
        return [
            Family("lattice", lattice, "x', z' on a 1/4 lattice, z' over 4 turns, 1-3 y slices",
                   shapes=[(6, 1, 3, 1), (5, 3, 4, 1), (7, 2, 2, 2), (5, 2, 5, 2), (4, 2, 1, 1), (4, 2, 3, 0)], frac=4),
            Family("close-to-cells", close_to_cells, "x' and z' at distances 1e-1 to 1e-6 from every cell centre",
                   shapes=[(6, 2, 3, 1), (7, 1, 4, 2)], eps=EPS),
            Family("samples", samples, "2 and 3 samples, all combinations of x' on a 1/2 lattice and both boundaries",
                   shapes=[(5, 2, 2, 1), (6, 1, 3, 2)], frac=2),
            Family("exactness", exactness, "x' on a 1/8 lattice", shapes=[(8, 2, 5, 2), (7, 3, 4, 1)], frac=8),
            Family("far", lattice, "z' many turns away", shapes=[(6, 1, 3, 1), (5, 3, 4, 1), (4, 2, 1, 1)], frac=2, turn=[-40, -9, 8, 30, 1000]),
            Family("large", lattice, "larger grids, x', z' on a 1/2 lattice, z' over 4 turns", shapes=[(18, 2, 12, 2), (11, 3, 20, 3)], frac=2),
        ]
    return [
        Family("lattice", lattice, "x', z' on a 1/8 lattice, z' over 4 turns, 1-4 y slices",
               shapes=[(nx, ny, nz, mxg) for mxg in (0, 1, 2) for nx in range(2 * mxg + 1, 2 * mxg + 6)
                       for ny in (1, 2, 3, 4) for nz in (1, 2, 3, 5, 6)], frac=8),
        Family("close-to-cells", close_to_cells, "x' and z' at distances 1e-1 to 1e-6 from every cell centre",
               shapes=[(6, 2, 3, 1), (7, 1, 4, 2), (4, 3, 2, 0)], eps=EPS + [0.3, 3e-2, 3e-3, 3e-4, 1e-9]),
        Family("samples", samples, "2 and 3 samples, all combinations of x' on a 1/4 lattice and both boundaries",
               shapes=[(5, 2, 2, 1), (6, 1, 3, 2), (6, 3, 2, 1)], frac=4),
        Family("exactness", exactness, "x' on a 1/16 lattice",
               shapes=[(8, 2, 5, 2), (7, 3, 4, 1), (9, 1, 6, 0)], frac=16),
        Family("far", lattice, "z' many turns away", shapes=[(6, 1, 3, 1), (5, 3, 4, 1), (4, 2, 1, 1), (6, 2, 5, 2)], frac=4, turn=[-1000, -40, -9, -5, 4, 8, 30, 1000]),
        Family("large", lattice, "larger grids, x', z' on a 1/4 lattice, z' over 4 turns",
               shapes=[(18, 2, 12, 2), (11, 3, 20, 3), (24, 1, 33, 1)], frac=4),
    ]
