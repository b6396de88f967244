"""Sub-cell sampling: several field lines in each cell, for every offset."""

import numpy as np
from numpy.polynomial.legendre import leggauss

from mc import mapref
from mc.engine import Family
from zoidberg import zoidberg as zb

from . import c01

ASSUMPTIONS = c01.ASSUMPTIONS + [
    "positions between cell centres are bilinear in the index, as the maps of BOUT++ assume",
]


def samples(ctl, kinds, sizes, nslices, boundaries, spd, pers, ymax=None, ypos=("even",), nys=None):
    kind = ctl.choose("poloidal grid", kinds)
    F = mapref.fields(kind)
    fname = ctl.choose("field", [f for f in F if f != "cyl"])
    nx, nz = ctl.choose("nx,nz", sizes[kind])
    per = ctl.choose("periodic", pers)
    ny = ctl.choose("ny", nys or range(1, ymax + 1))
    nslice = ctl.choose("nslice", nslices)
    bnd = ctl.choose("boundary", boundaries)
    n = ctl.choose("samples per dimension", spd)
    yp = ctl.choose("y positions", ypos)
    ctl.go()
    s = mapref.Setup(kind, nx, ny, nz, per, ypos=yp)
    fld = F[fname]()
    a = (0.0, 0.55, -0.2) if kind == "rect" else (2.0, 0.75, 0.0)
    ref_out = mapref.with_boundary(bnd, fld, *a)
    kw = dict(quiet=True, refine_parallel_integral=1, n_chunks=1, nslice=nslice)
    rec = mapref.Recorder(fld)
    if bnd == "none":
        kw.update(field_tracer=rec, rtol=1e-7)
    out = zb.make_maps(s.grid, fld, samples_per_dim=n, **kw)
    if bnd == "none":
        ctl.check(rec.rtols == {1e-7}, "tolerance", f"traced with tolerances {rec.rtols} instead of 1e-7")
    one = zb.make_maps(s.grid, fld, **kw)
    ctl.step(2)
    # Everything but the samples is the same as with a single field line
    for k, v in one.items():
        if "_primes" not in k and k != "subcell_weights":
            ctl.close(out[k], v, "centre-changed", atol=1e-10, msg=k)
    ctl.check(set(one) == set(out), "names", lambda: str(set(one) ^ set(out)))

    xs, ws = leggauss(n)
    ref = [(0.5 * xs[i], 0.5 * xs[k], 0.25 * ws[i] * ws[k]) for i in range(n) for k in range(n)]
    w = np.asarray(out["subcell_weights"])
    ctl.check(w.shape == (n * n,), "weights-shape", str(w.shape))
    ctl.close(np.sum(w), 1.0, "weights-sum")
    offs = [o for a in range(1, nslice + 1) for o in (a, -a)]
    for off in offs:
        for b in "xz":
            k = mapref.name(f"{b}t_primes", off)
            ctl.check(out[k].shape == (nx, ny, nz, n * n), "shape", k)
    # Which sample is which quadrature point: the order is free, but has to be
    # the same as the order of the weights
    order = find_order(ctl, s, fld, ref_out, out, ref, offs)
    if order is None:
        return
    for i, r in enumerate(order):
        ctl.close(w[i], ref[r][2], "weight", msg=f"sample {i} at {ref[r][:2]}")
    for j in range(ny):
        for off in offs:
            t, yt = s.target(j, off)
            for i, r in enumerate(order):
                R, Z = s.cellpos(j, *ref[r][:2])
                Rt, Zt = fld.line(R, Z, s.y[j], yt)
                xi, zi = (out[mapref.name(f"{b}t_primes", off)][:, j, :, i] for b in "xz")
                o = mapref.near(ref_out, Rt, yt, Zt)
                s.check_index(ctl, t, Rt, Zt, xi, zi, o, "sample")
    ctl.see(out["forward_xt_primes"], out["backward_zt_primes"])


def find_order(ctl, s, fld, ref_out, out, ref, offs):
    """The quadrature point of each sample, from an arbitrary cell which is
    inside for all samples"""
    for j in range(s.ny):
        for off in offs:
            t, yt = s.target(j, off)
            if t is None:
                continue
            X, O = [], []
            for xo, zo, _ in ref:
                R, Z = s.cellpos(j, xo, zo)
                Rt, Zt = fld.line(R, Z, s.y[j], yt)
                X.append(np.array(s.index(t, Rt, Zt)))
                O.append(mapref.near(ref_out, Rt, yt, Zt))
            X, O = np.array(X), np.array(O)  # sample, xz, nx, nz
            ok = np.all(O == -1, axis=0)
            if s.kind != "rect":
                ok &= np.all((X[:, 0] > 1.2) & (X[:, 0] < s.nx - 2.2), axis=0)
            if not np.any(ok):
                continue
            c = tuple(np.argwhere(ok)[0])
            got = np.array([out[mapref.name(f"{b}t_primes", off)][c[0], j, c[1]] for b in "xz"]).T
            want = X[:, :, c[0], c[1]]
            d = got[:, None, :] - want[None, :, :]
            if s.kind != "rect":
                d[..., 1] = (d[..., 1] + s.nz / 2) % s.nz - s.nz / 2
            d = np.hypot(d[..., 0], d[..., 1])
            order = np.argmin(d, axis=1)
            ctl.check(sorted(order) == list(range(len(ref))), "quadrature-points",
                      f"samples {got.tolist()}, expected {want.tolist()}")
            return order
    return None


def families(tier):
    sz = {"rect": [(4, 3), (5, 1)], "structured": [(6, 16)]}
    full = {"rect": [(4, 3), (5, 1), (3, 6)], "structured": [(6, 16), (7, 20)]}
    b4 = ["none", "box", "polygon", "moving"]
    if tier == "quick":
        return [
            Family("rect", samples, "rectangular, 3 fields, ny<=3, nslice 1-2, 2-3 samples per dimension, 4 boundaries",
                   kinds=["rect"], sizes=sz, nslices=[1, 2], boundaries=b4, spd=[2, 3], pers=[False, True], ymax=3),
            Family("structured", samples, "curvilinear, 3 fields, ny<=2, nslice 1-2, 2-3 samples per dimension",
                   kinds=["structured"], sizes=sz, nslices=[1, 2], boundaries=["none", "box", "moving"], spd=[2, 3],
                   pers=[False, True], ymax=2),
            Family("y", samples, "y positions uneven or not starting at zero", kinds=["rect", "structured"], sizes=sz,
                   nslices=[1, 2], boundaries=["moving"], spd=[2], pers=[False, True], ymax=3, ypos=["uneven", "shifted"]),
            Family("large", samples, "larger grids, many slices, 4-6 samples per dimension", kinds=["rect", "structured"],
                   sizes={"rect": [(10, 24)], "structured": [(10, 40)]}, nslices=[3], boundaries=["none", "moving"], spd=[2, 4, 5, 6],
                   pers=[False, True], nys=[5]),
        ]
    return [
        Family("rect", samples, "rectangular, 3 sizes, 3 fields, ny<=4, nslice 1-3, 2-5 samples per dimension, 4 boundaries",
               kinds=["rect"], sizes=full, nslices=[1, 2, 3], boundaries=b4, spd=[2, 3, 4, 5], pers=[False, True], ymax=4),
        Family("structured", samples, "curvilinear, 3 fields, ny<=3, nslice 1-3, 2-4 samples per dimension",
               kinds=["structured"], sizes=full, nslices=[1, 2, 3], boundaries=b4, spd=[2, 3, 4],
               pers=[False, True], ymax=3),
        Family("y", samples, "y positions uneven or not starting at zero", kinds=["rect", "structured"], sizes=full,
               nslices=[1, 2], boundaries=["moving", "none"], spd=[2, 3], pers=[False, True], ymax=3, ypos=["uneven", "shifted"]),
        Family("large", samples, "larger grids, many slices, 2-9 samples per dimension", kinds=["rect", "structured"],
               sizes={"rect": [(16, 20), (40, 36)], "structured": [(14, 50)]}, nslices=[1, 4], boundaries=["none", "moving"],
               spd=[2, 4, 5, 6, 7, 9], pers=[False, True], nys=[5, 9]),
    ]
