"""Fields from VMEC files: Fourier coefficients to components."""

import os

import numpy as np

from mc.engine import Family
from zoidberg import field

ASSUMPTIONS = [
    "files in which the field has the same modes as the surfaces",
    "compared inside the last surface, away from it by more than the resolution, within a tolerance "
    "that is given by the linear interpolation",
]

TP = 2 * np.pi


# name: list of (m, n, {coefficient: (constant, slope in s)}), with n including
# the number of field periods. Positions are linear in s e^{iu} in each plane.
def geometry(name, nfp, asym):
    N = nfp
    m = {
        "circle": [(0, 0, dict(rmnc=(3.0, 0))), (1, 0, dict(rmnc=(0, 0.8), zmns=(0, 0.8)))],
        "tall": [(0, 0, dict(rmnc=(2.5, 0))), (1, 0, dict(rmnc=(0, 0.6), zmns=(0, 1.1)))],
        "ellipse": [
            (0, 0, dict(rmnc=(3.0, 0))),
            (1, 0, dict(rmnc=(0, 0.8), zmns=(0, 0.8))),
            (1, N, dict(rmnc=(0, 0.25), zmns=(0, -0.25))),
        ],
        "helix": [
            (0, 0, dict(rmnc=(3.0, 0))),
            (0, N, dict(rmnc=(0.3, 0), zmns=(0.3, 0))),
            (1, 0, dict(rmnc=(0, 0.8), zmns=(0, 0.8))),
        ],
        "both": [
            (0, 0, dict(rmnc=(3.0, 0))),
            (0, N, dict(rmnc=(0.2, 0), zmns=(-0.25, 0))),
            (1, 0, dict(rmnc=(0, 0.8), zmns=(0, 0.7))),
            (1, N, dict(rmnc=(0, 0.2), zmns=(0, -0.15))),
            (1, -N, dict(rmnc=(0, 0.05), zmns=(0, 0.1))),
        ],
    }[name]
    m = [(a, b, dict(c)) for a, b, c in m]
    if asym:
        m[0][2]["zmnc"] = (0.4, 0)
        for a, b, c in m:
            if a == 1 and b == 0:
                c["rmns"] = (0, 0.12)
                c["zmnc"] = (0, -0.1)
    return m


FIELDS = {
    # constant and varying rotation, toroidal field with a cosine
    "rotation": {(0, 0): dict(bsupumnc=(0.3, 0), bsupvmnc=(0.7, 0))},
    "reversed": {(0, 0): dict(bsupumnc=(0.2, 0), bsupvmnc=(-0.8, 0))},
    "shear": {(0, 0): dict(bsupumnc=(0.2, 0.3), bsupvmnc=(0.7, -0.2))},
    "cosine": {(0, 0): dict(bsupumnc=(0.3, 0), bsupvmnc=(0.7, 0)), (1, 0): dict(bsupumnc=(0, 0.1), bsupvmnc=(0, -0.2))},
    "helical": {(0, 0): dict(bsupumnc=(0.3, 0), bsupvmnc=(0.7, 0)), (1, "N"): dict(bsupumnc=(0, 0.1), bsupvmnc=(0, 0.15))},
}
ASYM = {"rotation": {}, "shear": {(1, 0): dict(bsupvmns=(0, 0.15), bsupumns=(0, 0.1))}}


def modes(geo, nfp, asym, fld):
    m = geometry(geo, nfp, asym)
    add = [FIELDS[fld]] + ([ASYM.get(fld, {})] if asym else [])
    for f in add:
        for (a, b), c in f.items():
            b = nfp if b == "N" else b
            for x, y, d in m:
                if (x, y) == (a, b):
                    d.update(c)
                    break
            else:
                m.append((a, b, dict(c)))
    return m


def write(fn, m, ns, mpol, ntor, asym):
    from netCDF4 import Dataset

    s = np.linspace(0, 1, ns)
    sh = s - 0.5 / (ns - 1)
    names = ["rmnc", "zmns", "bsupumnc", "bsupvmnc"]
    if asym:
        names += ["rmns", "zmnc", "bsupumns", "bsupvmns"]
    with Dataset(fn, "w") as f:
        f.createDimension("mn_mode", len(m))
        f.createDimension("radius", ns)
        for i, k in enumerate(("xm", "xn")):
            f.createVariable(k, "f8", ("mn_mode",))[:] = [x[i] for x in m]
        for k, v in dict(ns=ns, mpol=mpol, ntor=ntor).items():
            f.createVariable(k, "i4", ())[...] = v
        if asym:
            f.createVariable("iasym", "i4", ())[...] = 1
        for k in names:
            v = f.createVariable(k, "f8", ("radius", "mn_mode"))
            for i, (_, _, c) in enumerate(m):
                a, b = c.get(k, (0, 0))
                if k.startswith("bsup"):
                    x = a + b * sh
                    x[0] = 0
                else:
                    x = a + b * s
                v[:, i] = x


def series(m, k, s, u, v, du=0, dv=0):
    """Sum of the modes with name k, or its derivative"""
    out = 0
    for a, b, c in m:
        x, y = c.get(k, (0, 0))
        ph = a * u - b * v
        w = (x + y * s) * (a if du else 1) * (-b if dv else 1)
        if (k[-1] == "c") == (du + dv == 0):
            out = out + w * np.cos(ph)
        elif k[-1] == "s" and du + dv == 0:
            out = out + w * np.sin(ph)
        elif k[-1] == "c":
            out = out - w * np.sin(ph)
    return out


def both(m, k, *a, **kw):
    return sum(series(m, k + e, *a, **kw) for e in "cs")


def exact(m, s, u, v):
    R, Z = both(m, "rmn", s, u, v), both(m, "zmn", s, u, v)
    bu, bv = both(m, "bsupumn", s, u, v), both(m, "bsupvmn", s, u, v)
    Br = bu * both(m, "rmn", s, u, v, du=1) + bv * both(m, "rmn", s, u, v, dv=1)
    Bz = bu * both(m, "zmn", s, u, v, du=1) + bv * both(m, "zmn", s, u, v, dv=1)
    return R, Z, Br, R * bv, Bz


def invert(m, R, Z, v):
    """(s, u) from position: linear in s e^{iu}"""
    R0, Z0 = (both(m, k, 0.0, 0.0, v) for k in ("rmn", "zmn"))
    a = np.array([[both(m, k, 1.0, u, v) - c for u in (0, TP / 4)] for k, c in (("rmn", R0), ("zmn", Z0))])
    p = np.linalg.solve(a, np.array([np.ravel(R) - R0, np.ravel(Z) - Z0]))
    return np.hypot(*p).reshape(np.shape(R)), np.arctan2(p[1], p[0]).reshape(np.shape(R))


def linear(fld):
    return fld in ("rotation", "reversed")


_made = {}


def make(geo, nfp, asym, fld, ns, ntheta, nzeta, nr, nz):
    """The field object is the same for all points: one file, one object"""
    key = geo, nfp, asym, fld, ns, ntheta, nzeta, nr, nz
    if key not in _made:
        import tempfile

        _made.clear()
        m = modes(geo, nfp, asym, fld)
        d = tempfile.mkdtemp(prefix="zbmc_")
        fn = os.path.join(d, "wout.nc")
        try:
            write(fn, m, ns, 12, max(abs(x[1]) for x in m), asym)
            kw = dict(ntheta=ntheta, nzeta=nzeta, nr=nr, nz=nz)
            _made[key] = m, field.VMEC(fn, **{k: v for k, v in kw.items() if v is not None})
        finally:
            import shutil

            shutil.rmtree(d)
    return _made[key]


def inside(ctl, geos, nfps, flds, sizes, ss, us):
    geo = ctl.choose("geometry", geos)
    axi = geo in ("circle", "tall")
    nfp = ctl.choose("nfp", [1] if axi else nfps)
    asym = ctl.flag("asymmetric")
    fld = ctl.choose("field", flds)
    ns, ntheta, nzeta, nr, nz = ctl.choose("ns,ntheta,nzeta,nr,nz", sizes)
    ctl.go()
    if nzeta is None and not axi:
        nzeta = 9
    m, B = make(geo, nfp, asym, fld, ns, ntheta, nzeta, nr, nz)
    ctl.step()
    axisym = all(x[1] == 0 for x in m)
    n = 2 if nzeta is None else nzeta
    for k in range(n):
        v = TP * k / (n - 1) % TP
        for s in ss:
            for u in us:
                R, Z, Br, Bp, Bz = exact(m, s, u, v)
                # Error of the interpolation is zero if the field is linear
                tol = 1e-8 if linear(fld) else 0.55 / ns
                for turn in (-2, -1, 0, 1, 3):
                    got = [f(np.array([R]), np.array([Z]), v + TP * turn) for f in (B.Bxfunc, B.Byfunc, B.Bzfunc)]
                    ctl.step(3)
                    if k == 0 and turn == 1:
                        ctl.see(np.array(got))
                    for g, w, name in zip(got, (Br, Bp, Bz), ("radial", "toroidal", "vertical")):
                        # rounding in the turns moves by next to nothing
                        ctl.close(g, [w], name, atol=tol + 1e-7, rtol=0, msg=f"s={s} u={u} y={v}+{turn} turns")
                ctl.close(B.Rfunc(np.array([R]), np.array([Z]), v), [R], "major-radius")
        if k + 1 < n:
            # between: linear, where both planes are inside
            for f in (0.25, 0.5):
                v2 = TP * (k + 1) / (n - 1)
                for s in ss:
                    for u in us:
                        R, Z = exact(m, s, u, v)[:2]
                        s2, u2 = invert(m, R, Z, v2)
                        if s2 > max(ss):
                            continue
                        a, b = exact(m, s, u, v)[2:], exact(m, s2, u2, v2)[2:]
                        y = v + f * (v2 - v)
                        for fn, x1, x2, name in zip((B.Bxfunc, B.Byfunc, B.Bzfunc), a, b, ("radial", "toroidal", "vertical")):
                            tol = 1e-8 if linear(fld) else 0.55 / ns
                            ctl.close(fn(np.array([R]), np.array([Z]), y), [(1 - f) * x1 + f * x2], name + "-between", atol=tol, rtol=0, msg=f"s={s} u={u} y={y}")
                            ctl.step()
    if axisym:
        ctl.see(geo, fld)
    # Away from the plasma there is only a toroidal field
    R, Z = np.array([0.2, 9.0, 3.0, 3.0]), np.array([0.0, 0.0, 5.0, -5.0])
    ctl.close(B.Bxfunc(R, Z, 0.3), np.zeros(4), "outside")
    ctl.close(B.Bzfunc(R, Z, 0.3), np.zeros(4), "outside")
    ctl.close(B.Byfunc(R, Z, 0.3), np.ones(4), "outside")
    # the shape of the input does not matter
    R, Z = exact(m, np.array([[0.2, 0.5], [0.6, 0.3]]), np.array([[0.1, 2.0], [4.0, 5.0]]), 0.0)[:2]
    for f in (B.Bxfunc, B.Byfunc, B.Bzfunc):
        g = f(R, Z, 0.0)
        one = [f(np.array([r]), np.array([z]), 0.0)[0] for r, z in zip(R.ravel(), Z.ravel())]
        ctl.close(g, np.array(one).reshape(2, 2), "shape", atol=1e-12)
    ctl.close(B.Bmag(R, Z, 0.0), np.sqrt(sum(f(R, Z, 0.0) ** 2 for f in (B.Bxfunc, B.Byfunc, B.Bzfunc))), "magnitude")


def families(tier):
    t = tier != "quick"
    big = [(17, 33, 9, 41, 45), (12, 40, 5, 51, 40)]
    return [
        Family("exact", inside, "geometries x field periods x symmetry; fields that interpolation reproduces exactly",
               geos=["circle", "tall", "ellipse", "helix", "both"], nfps=[1, 2, 5] if t else [1, 2], flds=["rotation", "reversed"],
               sizes=[(5, 16, 5, 24, 30), (9, 17, 4, 33, 21), (8, 20, None, None, None)] + (big if t else []),
               ss=[0.02, 0.1, 0.35, 0.6, 0.8] if t else [0.02, 0.3, 0.75], us=np.arange(8 if t else 5) * 1.3),
        Family("profiles", inside, "varying fields", geos=["circle", "ellipse", "both"] if not t else ["circle", "tall", "ellipse", "helix", "both"],
               nfps=[1, 2] if t else [1], flds=["shear", "cosine", "helical"],
               sizes=big if t else big[:1], ss=[0.02, 0.1, 0.5, 0.8], us=np.arange(6) * 1.1),
    ]
