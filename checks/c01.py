"""make_maps: the maps of every cell and every offset follow the field lines."""

import numpy as np

from mc import lib, mapref
from mc.engine import Family
from zoidberg import fieldtracer
from zoidberg import zoidberg as zb

ASSUMPTIONS = [
    "fields with analytically known field lines, so the oracle is independent of the tracer",
    "points within 1e-4 of a boundary, and within 0.15 cells of the edge of a curvilinear grid, may be on either side",
]


def maps(ctl, kinds, sizes, nslices, boundaries, tracers, pers, ymax=None, ypos=("even",), nys=None):
    kind = ctl.choose("poloidal grid", kinds)
    F = mapref.fields(kind)
    fname = ctl.choose("field", list(F))
    nx, nz = ctl.choose("nx,nz", sizes[kind])
    per = ctl.choose("periodic", pers)
    ny = ctl.choose("ny", nys or range(1, ymax + 1))
    nslice = ctl.choose("nslice", nslices)
    bnd = ctl.choose("boundary", boundaries)
    tr = ctl.choose("tracer", tracers)
    yp = ctl.choose("y positions", ypos)
    ctl.go()
    s = mapref.Setup(kind, nx, ny, nz, per, ypos=yp)
    if kind == "rect" and fname == "cyl":
        # major radius away from zero
        s = mapref.Setup(kind, nx, ny, nz, per, ypos=yp)
        s.par = [(a, b, c + 3.0, d) for a, b, c, d in s.par]
        from zoidberg import grid as zgrid, poloidal_grid as zpol

        s.pols = [zpol.RectangularPoloidalGrid(nx, nz, p[0] * (nx - 2), p[1] * nz, p[2], p[3], MXG=1) for p in s.par]
        s.grid = zgrid.Grid(list(s.pols), s.y, s.Ly, yperiodic=per)
    fld = F[fname]()
    if kind == "rect":
        xc = 3.0 if fname == "cyl" else 0.0
        ref_out = mapref.with_boundary(bnd, fld, xc, 0.55, -0.2)
    else:
        ref_out = mapref.with_boundary(bnd, fld, 2.0, 0.75, 0.0)
    kw = {}
    lines = fld
    if tr == "given":
        # follow another field than the one which defines the boundary
        lines = F[list(F)[0]]() if fname == "cyl" else F[[f for f in F if f != "cyl"][-1]]()
        kw["field_tracer"] = fieldtracer.FieldTracer(lines)
    elif tr == "tight":
        kw.update(rtol=1e-9, MXG=1)
    elif tr == "recorded":
        kw.update(rtol=1e-7, field_tracer=mapref.Recorder(fld))
    out = zb.make_maps(s.grid, fld, nslice=nslice, quiet=True, refine_parallel_integral=1,
                       n_chunks=1, **kw)
    ctl.step()
    if tr == "recorded":
        r = kw["field_tracer"].rtols
        ctl.check(r == {1e-7}, "tolerance", f"traced with tolerances {r} instead of 1e-7")
    check(ctl, s, lines, ref_out, nslice, out, kw.get("MXG", 2))
    for j in range(ny):
        R, Z = s.pos(j)
        ctl.close(out["By"][:, j], fld.Byfunc(R, Z, s.y[j]) * np.ones_like(R), "By", msg=f"y={j}")


def check(ctl, s, fld, ref_out, nslice, out, mxg):
    nx, ny, nz = s.nx, s.ny, s.nz
    ctl.check(int(out["MXG"]) == mxg, "MXG", out["MXG"])
    ctl.check(int(out["MYG"]) == nslice, "MYG", out["MYG"])
    offs = [o for a in range(1, nslice + 1) for o in (a, -a)]
    bases = ["R", "Z", "xt_prime", "zt_prime"]
    want = {mapref.name(b, o) for o in offs for b in bases + ["xt_primes", "zt_primes"]}
    have = {k for k in out if k.startswith(("forward", "backward"))}
    ctl.check(have == want, "names", lambda: f"{sorted(have ^ want)}")
    for j in range(ny):
        R, Z = s.pos(j)
        ctl.close(out["R"][:, j], R, "R", msg=f"y={j}")
        ctl.close(out["Z"][:, j], Z, "Z", msg=f"y={j}")
        for off in [0.5, -0.5] + offs:
            t, yt = s.target(j, off)
            Rt, Zt = fld.line(R, Z, s.y[j], yt)
            m = f"y={j} offset={off}"
            if abs(off) == 0.5 and not s.per and not 0 <= j + off <= ny - 1:
                continue  # the half cell at the end of an open field line
            for b, w in (("R", Rt), ("Z", Zt)):
                a = out[mapref.name(b, off)]
                ctl.check(a.shape == (nx, ny, nz), "shape", mapref.name(b, off))
                ctl.close(a[:, j], w, f"end-{b}", atol=2e-5, msg=m)
            if abs(off) == 0.5:
                continue
            xi, zi = (out[mapref.name(b, off)][:, j] for b in ("xt_prime", "zt_prime"))
            o = mapref.near(ref_out, Rt, yt, Zt)
            s.check_index(ctl, t, Rt, Zt, xi, zi, o, "index")
            for b, c in (("xt_prime", xi), ("zt_prime", zi)):
                a = out[mapref.name(b + "s", off)]
                ctl.close(a[:, j], c[..., None], "single-sample", atol=0, rtol=0, msg=m)
    ctl.close(out["subcell_weights"], np.ones(1), "weights")
    ctl.see(*[out[k] for k in sorted(out) if "_prime" in k], out["R_cell_yhigh"])


def families(tier):
    sz = {"rect": [(4, 3), (5, 1)], "structured": [(6, 16)]}
    full = {"rect": [(4, 3), (5, 1), (3, 6), (8, 8)], "structured": [(6, 16), (7, 20)]}
    b4 = ["none", "box", "polygon", "moving"]
    if tier == "quick":
        return [
            Family("rect", maps, "rectangular grids, 4 fields, ny<=3, nslice 1-2, 4 boundaries, 4 tracers",
                   kinds=["rect"], sizes=sz, nslices=[1, 2], boundaries=b4,
                   tracers=["default", "given", "tight", "recorded"], pers=[False, True], ymax=3),
            Family("structured", maps, "curvilinear grids different in each slice, 3 fields, ny<=3, nslice 1-2",
                   kinds=["structured"], sizes=sz, nslices=[1, 2], boundaries=["none", "box", "moving"],
                   tracers=["default", "given"], pers=[False, True], ymax=3),
            Family("y", maps, "y positions uneven or not starting at zero, nslice 0-3", kinds=["rect", "structured"],
                   sizes=sz, nslices=[0, 1, 2, 3], boundaries=["none", "moving"], tracers=["default"],
                   pers=[False, True], ymax=4, ypos=["uneven", "shifted"]),
            Family("far", maps, "3 slices", kinds=["rect"], sizes={"rect": [(4, 3)]}, nslices=[3],
                   boundaries=["none", "moving"], tracers=["default"], pers=[False, True], ymax=4),
            Family("large", maps, "larger grids, many slices", kinds=["rect", "structured"],
                   sizes={"rect": [(36, 40), (5, 130)], "structured": [(24, 70)]}, nslices=[1, 5, 12],
                   boundaries=["none", "polygon", "moving"], tracers=["default"], pers=[False, True], nys=[9]),
        ]
    return [
        Family("rect", maps, "rectangular grids, 4 sizes, 4 fields, ny<=5, nslice 1-3, 4 boundaries, 4 tracers",
               kinds=["rect"], sizes=full, nslices=[1, 2, 3], boundaries=b4,
               tracers=["default", "given", "tight", "recorded"], pers=[False, True], ymax=5),
        Family("structured", maps, "curvilinear grids different in each slice, 3 fields, ny<=4, nslice 1-3",
               kinds=["structured"], sizes=full, nslices=[1, 2, 3], boundaries=b4,
               tracers=["default", "given", "tight"], pers=[False, True], ymax=4),
        Family("y", maps, "y positions uneven or not starting at zero, nslice 0-4", kinds=["rect", "structured"],
               sizes=full, nslices=[0, 1, 2, 3, 4], boundaries=b4, tracers=["default", "tight"],
               pers=[False, True], ymax=5, ypos=["uneven", "shifted"]),
        Family("far", maps, "4-5 slices, ny<=6", kinds=["rect"], sizes={"rect": [(4, 3)]}, nslices=[4, 5],
               boundaries=["none", "moving"], tracers=["default"], pers=[False, True], ymax=6),
        Family("large", maps, "larger grids, many slices", kinds=["rect", "structured"],
               sizes={"rect": [(36, 40), (5, 130), (70, 9), (130, 30)], "structured": [(24, 70), (40, 130)]}, nslices=[1, 5, 12],
               boundaries=["none", "polygon", "moving"], tracers=["default", "tight"], pers=[False, True], nys=[9, 20]),
    ]
