"""Poincare tracing: every revolution and slice."""

import itertools

import numpy as np

from mc import lib
from mc.engine import Family
from zoidberg import fieldtracer

from .c14 import FIELDS, start

ASSUMPTIONS = ["fields with analytically known field lines"]


def compare(ctl, fld, got, ys, x, z, want_y, period, revs):
    x, z = np.broadcast_arrays(np.atleast_1d(x), np.atleast_1d(z))
    ctl.close(ys, want_y, "slices")
    ctl.check(got.shape == (revs, len(want_y)) + x.shape + (2,), "shape", str(got.shape))
    for r in range(revs):
        for k, yk in enumerate(want_y):
            y = yk + r * period
            xw, zw = fld.line(x, z, want_y[0], y)
            tol = 5e-5 * (1 + y)
            ctl.close(got[r, k, ..., 0], xw, "x", atol=tol, msg=f"revolution {r} slice {k}")
            ctl.close(got[r, k, ..., 1], zw, "z", atol=tol, msg=f"revolution {r} slice {k}")


def given(ctl, fields, values, nmax, periods, revss, novers, forms):
    fname = ctl.choose("field", fields)
    period = ctl.choose("period", periods)
    n = ctl.choose("slices", range(1, nmax + 1))
    rest = list(values)
    sl = []
    for i in range(n):
        v = ctl.choose(f"slice {i}", rest)
        rest.remove(v)
        sl.append(v * period)
    revs = ctl.choose("revs", [r for r in revss if r * n > 1])
    nover = ctl.choose("nover", novers)
    form = ctl.choose("form", forms)
    ctl.go()
    fld = FIELDS[fname]()
    x, z = start((3,), "array")
    if form == "scalar":
        x, z = 1.8, 0.1
    elif form == "2d":
        x, z = start((2, 2), "array")
    arg = tuple(sl) if form == "2d" else (list(sl) if form != "array" else np.array(sl))
    keep = lib.cc((x, z, arg))
    kw = {} if nover is None else {"nover": nover}
    got, ys = fieldtracer.trace_poincare(fld, x, z, period, y_slices=arg, revs=revs, **kw)
    ctl.step()
    for a, b in zip(keep, (x, z, arg)):
        ctl.check(np.array_equal(a, b), "input-modified", f"{a} -> {b}")
    compare(ctl, fld, got, ys, x, z, np.array(sorted(sl)), period, revs)
    ctl.see(got)


def equal(ctl, fields, nmax, periods, revss, novers):
    fname = ctl.choose("field", fields)
    period = ctl.choose("period", periods)
    n = ctl.choose("nplot", nmax if isinstance(nmax, list) else [None] + list(range(1, nmax + 1)))
    revs = ctl.choose("revs", revss)
    nover = ctl.choose("nover", novers)
    ctl.go()
    m = 3 if n is None else n
    r = 20 if revs is None else revs
    if m * r < 2:
        return
    fld = FIELDS[fname]()
    x, z = start((4,), "array")
    kw = {k: v for k, v in (("nplot", n), ("revs", revs), ("nover", nover)) if v is not None}
    got, ys = fieldtracer.trace_poincare(fld, x, z, period, **kw)
    ctl.step()
    compare(ctl, fld, got, ys, x, z, np.arange(m) * period / m, period, r)
    ctl.see(got)


def errors(ctl):
    sl = ctl.choose("slices", [None, [-0.1], [0.5, 2.1], [0.0, -1e-9], [1.0, 3.0, 0.2], [2.0000001], [3.0, 1.0], [1.0, -1.0, 0.2]])
    ctl.go()
    x, z = start((2,), "array")
    for revs in (1, 2):
        ctl.step()
        ctl.raises(ValueError, "accepted", fieldtracer.trace_poincare, FIELDS["shear"](), x, z, 2.0,
                   y_slices=sl, nplot=None, revs=revs)
        if sl is not None:
            ctl.raises(ValueError, "accepted", fieldtracer.trace_poincare, FIELDS["shear"](), x, z, 2.0,
                       y_slices=sl, revs=revs)


def families(tier):
    t = tier != "quick"
    return [
        Family("given", given, "all orders of up to %d of %d slices including the ends of the period" % ((4, 5) if t else (3, 4)),
               fields=["rotation", "wobble", "torus"] if t else ["wobble", "torus"],
               values=[0.0, 0.25, 0.6, 0.9, 1.0] if t else [0.0, 0.25, 0.6, 1.0],
               nmax=4 if t else 3, periods=[0.7, 2.0] if t else [0.7], revss=[1, 2, 3] if t else [1, 3], novers=[None, 1, 2, 7] if t else [None, 1],
               forms=["1d", "array", "scalar", "2d"]),
        Family("equal", equal, "nplot 1-%d, revs, nover" % (6 if t else 4), fields=["rotation", "wobble", "torus", "shear"], nmax=6 if t else 4,
               periods=[0.7, 2.0, 2 * np.pi], revss=[None, 1, 2, 5], novers=[None, 1, 3]),
        Family("many", equal, "12-33 slices, 20 revolutions", fields=["wobble", "torus"], nmax=[12, 33], periods=[0.7], revss=[20], novers=[None, 30]),
        Family("errors", errors, "slices outside of the period"),
    ]
