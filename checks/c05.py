"""Partial boundary handling: modify_maps."""

import itertools

import numpy as np

from mc import weightref
from mc.engine import Family
from mc.lib import cc
from zoidberg import weights

from .c03 import WEIGHTS, value

ASSUMPTIONS = []


def build(nx, ny, nz, mxg, ns, pattern):
    """pattern[(direction, cell)] = (centre class, sample classes)"""
    R = np.arange(nx * ny * nz, dtype=float).reshape(nx, ny, nz)
    maps = {"R": R, "Z": -2 * R, "MXG": mxg, "MYG": 1, "other": R + 0.5}
    maps["subcell_weights"] = WEIGHTS[ns].copy()
    n = 0
    for d in ("forward", "backward"):
        xt = np.zeros((nx, ny, nz))
        zt = np.zeros((nx, ny, nz))
        xts = np.zeros((nx, ny, nz, ns))
        zts = np.zeros((nx, ny, nz, ns))
        for c in itertools.product(range(nx), range(ny), range(nz)):
            cen, sam = pattern[d, c]
            xt[c] = value(cen, nx, mxg, n)
            zt[c] = (n * 5 % 16) / 4.0
            for s, k in enumerate(sam):
                n += 1
                xts[c + (s,)] = value(k, nx, mxg, n)
                zts[c + (s,)] = (n * 7 % 24) / 4.0 - 1.0
            n += 1
        maps.update({
            f"{d}_xt_prime": xt, f"{d}_zt_prime": zt,
            f"{d}_xt_primes": xts, f"{d}_zt_primes": zts,
        })
    return maps


def reference(maps, partial):
    """Sample maps and centre maps that the operators must correspond to"""
    ref = cc(maps)
    nx, ny, nz = ref["R"].shape
    mxg = ref["MXG"]
    for d in ("forward", "backward"):
        for c in itertools.product(range(nx), range(ny), range(nz)):
            h = [weightref.hits(v, nx, mxg) for v in ref[f"{d}_xt_primes"][c]]
            if partial:
                if any(h):
                    ref[f"{d}_xt_prime"][c] = -1
            elif any(h) and not all(h):
                cx, cz = ref[f"{d}_xt_prime"][c], ref[f"{d}_zt_prime"][c]
                whole = weightref.hits(cx, nx, mxg)
                for s, hit in enumerate(h):
                    if hit or whole:
                        ref[f"{d}_xt_primes"][c + (s,)] = cx
                        ref[f"{d}_zt_primes"][c + (s,)] = cz
    return ref


def compare(ctl, maps, partial):
    ref = reference(maps, partial)
    nx, ny, nz = maps["R"].shape
    mxg = maps["MXG"]
    given = {k: np.array(v, copy=True) for k, v in maps.items()}
    out = weights.modify_maps(maps, partial_boundaries=partial)
    ctl.step()
    for k in ("forward_xt_primes", "forward_zt_primes", "backward_xt_primes",
              "backward_zt_primes", "subcell_weights"):
        ctl.check(k not in out, "sub-cell-maps-left", k)
    for k in ("R", "Z", "MXG", "MYG", "other"):
        ctl.close(out[k], given[k], "unrelated-modified", atol=0, rtol=0, msg=k)
    for d in ("forward", "backward"):
        for v in ("xt", "zt"):
            ctl.close(out[f"{d}_{v}_prime"], ref[f"{d}_{v}_prime"], f"centre-{v}", msg=d)
    weightref.check_structure(ctl, ref, out)
    f = np.cos(1.3 * np.arange(nx * ny * nz)).reshape(nx, ny, nz)
    weightref.check_operator(ctl, ref, out, [f])
    # A cell is marked to hit the boundary if it has a boundary leg, and
    # without partial boundaries there is exactly one leg per cell
    for d in ("forward", "backward"):
        il = out[f"{d}_leg_interior_number"][mxg : nx - mxg]
        bl = out[f"{d}_leg_boundary_number"][mxg : nx - mxg]
        if partial:
            x = out[f"{d}_xt_prime"][mxg : nx - mxg]
            marked = (x < mxg) | (x > nx - mxg - 1)
            ctl.check(np.all(marked[bl >= 0]), "unmarked-boundary", d)
        else:
            ctl.check(np.all((il >= 0) != (bl >= 0)), "split-cell", d)
            ctl.close(out[f"{d}_leg_weights"], np.ones(il.size), "leg-weight-one", msg=d)
    ctl.see(out["forward_weights"], out["forward_xt_prime"], out["backward_xt_prime"],
            out["backward_weights"], partial)


def patterns(ctl, shapes, nsamples, classes):
    nx, ny, nz, mxg = ctl.choose("nx,ny,nz,mxg", shapes)
    partial = ctl.flag("partial boundaries")
    ns = ctl.choose("samples", nsamples)
    opts = list(itertools.product(classes, itertools.product(classes, repeat=ns)))
    pat = {}
    for d in ("forward", "backward"):
        guard = ctl.choose(f"{d} guard cells", [opts[0], opts[-1], opts[1]])
        for c in itertools.product(range(nx), range(ny), range(nz)):
            if mxg <= c[0] < nx - mxg:
                pat[d, c] = ctl.choose(f"{d}{c}", opts)
            else:
                pat[d, c] = guard
    ctl.go()
    compare(ctl, build(nx, ny, nz, mxg, ns, pat), partial)


def probe(ctl, shapes, nsamples, classes, cells):
    """One cell of a larger grid with every pattern, in each direction; the
    other cells do not hit a boundary, or all do"""
    nx, ny, nz, mxg = ctl.choose("nx,ny,nz,mxg", shapes)
    partial = ctl.flag("partial boundaries")
    ns = ctl.choose("samples", nsamples)
    rest = ctl.choose("other cells", ["in", "hi"])
    opts = list(itertools.product(classes, itertools.product(classes, repeat=ns)))
    d0 = ctl.choose("direction", ["forward", "backward"])
    cell = ctl.choose("cell", [c for c in [
        (mxg, 0, 0), (nx - mxg - 1, ny - 1, nz - 1), (nx // 2, 0, nz // 2), (mxg, ny - 1, 1)][:cells]])
    pat = {(d, c): (rest, (rest,) * ns) for d in ("forward", "backward")
           for c in itertools.product(range(nx), range(ny), range(nz))}
    pat[d0, cell] = ctl.choose("pattern", opts)
    ctl.go()
    compare(ctl, build(nx, ny, nz, mxg, ns, pat), partial)


def large(ctl, shapes, nsamples, coeffs, mods):
    """Larger grids with regular patterns"""
    nx, ny, nz, mxg = ctl.choose("nx,ny,nz,mxg", shapes)
    partial = ctl.flag("partial boundaries")
    ns = ctl.choose("samples", nsamples)
    m = ctl.choose("classes", mods)
    co = [ctl.choose(f"coefficient {k}", coeffs) for k in "xyz"]
    ctl.go()
    cl = ["hi", "in", "lo", "in", "in"]
    pat = {}
    for f, d in enumerate(("forward", "backward")):
        for c in itertools.product(range(nx), range(ny), range(nz)):
            k = co[0] * c[0] + co[1] * c[1] + co[2] * c[2] + f
            pat[d, c] = (cl[k % m % 5], tuple(cl[(k + (k // m) * (s + f)) % m % 5] for s in range(ns)))
    compare(ctl, build(nx, ny, nz, mxg, ns, pat), partial)


def families(tier):
    two, three = ["in", "hi"], ["in", "lo", "hi"]
    if tier == "quick":
        return [
            Family("one-cell", patterns, "1 evolving cell, 1-2 samples, centre and samples in/low/high, both directions",
                   shapes=[(3, 1, 1, 1), (5, 1, 1, 2)], nsamples=[1, 2], classes=three),
            Family("probe", probe, "one cell of a larger grid, 1-3 samples, centre and samples in/low/high",
                   shapes=[(6, 2, 4, 1), (7, 1, 3, 2)], nsamples=[1, 2, 3], classes=three, cells=2),
            Family("two-cells", patterns, "2 evolving cells, 1 sample in/high", shapes=[(3, 1, 2, 1), (4, 1, 1, 1), (3, 2, 1, 1)],
                   nsamples=[1], classes=two),
            Family("three-samples", patterns, "1 evolving cell, 3 samples in/high", shapes=[(3, 1, 1, 1)], nsamples=[3], classes=two),
            Family("large", large, "4 larger grids, 1-4 samples, all regular patterns", shapes=[(10, 4, 7, 2), (7, 2, 17, 1), (8, 7, 2, 3), (12, 1, 6, 0)],
                   nsamples=[1, 2, 9], coeffs=[0, 1, 2], mods=[3, 5]),
        ]
    return [
        Family("one-cell", patterns, "1 evolving cell, 1-2 samples, in/low/high",
               shapes=[(3, 1, 1, 1), (5, 1, 1, 2), (1, 1, 1, 0)], nsamples=[1, 2], classes=three),
        Family("probe", probe, "one cell of a larger grid, 1-4 samples, centre and samples in/low/high",
               shapes=[(6, 2, 4, 1), (7, 1, 3, 2), (4, 3, 2, 0)], nsamples=[1, 2, 3, 4], classes=three, cells=4),
        Family("two-cells", patterns, "2 evolving cells, 1 sample in/low/high and 2 samples in/high",
               shapes=[(3, 1, 2, 1), (4, 1, 1, 1), (3, 2, 1, 1)], nsamples=[1, 2], classes=two),
        Family("two-cells-3", patterns, "2 evolving cells, 1 sample in/low/high",
               shapes=[(3, 1, 2, 1), (4, 1, 1, 1)], nsamples=[1], classes=three),
        Family("three-samples", patterns, "1 evolving cell, 3-4 samples in/high",
               shapes=[(3, 1, 1, 1), (5, 1, 1, 2)], nsamples=[3, 4], classes=two),
        Family("large", large, "4 larger grids, 1-4 samples, all regular patterns", shapes=[(10, 4, 7, 2), (7, 2, 17, 1), (8, 7, 2, 3), (12, 1, 6, 0)],
               nsamples=[1, 2, 3, 4, 9, 25], coeffs=[0, 1, 2, 3], mods=[2, 3, 5, 11]),
    ]
