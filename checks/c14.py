"""Field line tracers."""

import itertools
import sys
import types

import numpy as np

from mc import lib
from mc.engine import Family
from zoidberg import fieldtracer

ASSUMPTIONS = [
    "fields with analytically known field lines",
    "the trapezoidal tracer is compared with an accuracy of its order: 2e-4 for 20 steps",
]

FIELDS = {
    "shear": lambda: lib.ShearSlab(0.1, 0.4),
    "rotation": lambda: lib.Rotation(0.5, 1.8, 0.1),
    "wobble": lambda: lib.Wobble(0.2, 0.3, 0.05, 1.3),
    "cylinder": lambda: lib.Cylinder(0.05, 0.2),
    "torus": lambda: lib.TorusRotation(0.4, 2.0),
}
YS = {
    "up": [0.0, 0.7],
    "down": [0.3, -0.9],
    "three": [0.1, 0.2, 1.4],
    "down3": [1.0, 0.9, -0.6, -0.7],
    "turns": [0.0, 2.0, 2.1, 6.5],
    "int": [0, 1, 2],
}
# The reversible tracer also follows lines forth and back in one call
YR = dict(YS, **{
    "return": [0.1, 0.7, 0.1],
    "wander": [0.0, 0.5, -0.3, 0.2],
    "rest": [0.2, 0.2, 0.6, 0.6],
    "intback": [1, 0, 2, 1],
})


def start(shape, kind):
    n = int(np.prod(shape))
    x = 1.6 + 0.9 * ((np.arange(n) * 7) % 11) / 11.0
    z = -0.4 + 0.9 * ((np.arange(n) * 5) % 13) / 13.0
    if kind == "int":
        x, z = 1 + np.arange(n) % 3, np.arange(n) % 2
    return x.reshape(shape), z.reshape(shape)


def tracers(which, fld):
    if which == "default":
        return fieldtracer.FieldTracer(fld), 2e-5
    if which == "reversible":
        return fieldtracer.FieldTracerReversible(fld), 2e-3
    if which == "reversible-fine":
        return fieldtracer.FieldTracerReversible(fld, rtol=1e-14, nsteps=100), 1e-4


def shapes(ctl, fields, whichs, shp, ys):
    which = ctl.choose("tracer", whichs)
    fname = ctl.choose("field", fields)
    shape = ctl.choose("shape", shp)
    form = ctl.choose("form", ["array", "list", "x scalar", "z scalar", "x 0-d", "strided", "int"])
    yn = ctl.choose("y", list(ys))
    yform = ctl.choose("y as", ["list", "array", "tuple"])
    ctl.go()
    fld = FIELDS[fname]()
    t, tol = tracers(which, fld)
    x, z = start(shape, form)
    X, Z = x, z
    if form == "x scalar":
        X = float(np.ravel(x)[0])
        x = np.zeros(shape) + X
    elif form == "z scalar":
        Z = float(np.ravel(z)[0])
        z = np.zeros(shape) + Z
    elif form == "x 0-d":
        X = np.array(np.ravel(x)[0])
        x = np.zeros(shape) + X
    elif form == "list":
        X, Z = x.tolist(), z.tolist()
    elif form == "strided":
        X = np.repeat(x[..., None], 2, axis=-1)[..., 0]
        Z = np.asfortranarray(z)
    y = YS[yn]
    Y = {"list": list, "array": np.array, "tuple": tuple}[yform](y)
    keep = lib.cc((X, Z, Y))
    got = t.follow_field_lines(X, Z, Y)
    ctl.step()
    for a, b in zip(keep, (X, Z, Y)):
        ctl.close(b, a, "input-modified", atol=0, rtol=0)
    check(ctl, fld, got, x, z, y, tol)
    # a second call gives the same
    ctl.close(t.follow_field_lines(X, Z, Y), got, "second-call", atol=1e-12)
    ctl.see(got)


def check(ctl, fld, got, x, z, y, tol):
    x, z = np.atleast_1d(x), np.atleast_1d(z)
    ctl.check(got.shape == (len(y),) + x.shape + (2,), "shape", str(got.shape))
    ctl.close(got[0, ..., 0], x, "start-x")
    ctl.close(got[0, ..., 1], z, "start-z")
    for j in range(1, len(y)):
        xw, zw = fld.line(x, z, y[0], y[j])
        s = 1 + abs(y[j] - y[0]) ** 2
        ctl.close(got[j, ..., 0], xw, "line-x", atol=tol * s, msg=f"y={y[j]}")
        ctl.close(got[j, ..., 1], zw, "line-z", atol=tol * s, msg=f"y={y[j]}")


def sizes(ctl, ns, whichs, fields):
    """Numbers of points around the size of the internal pieces"""
    which = ctl.choose("tracer", whichs)
    fname = ctl.choose("field", fields)
    n = ctl.choose("n", ns)
    two = ctl.choose("shape", ["1d", "2d", "scalar"])
    ctl.go()
    fld = FIELDS[fname]()
    t, tol = tracers(which, fld)
    m = [k for k in (7, 5, 3, 2, 1) if n % k == 0][0]
    shape = (n // m, m) if two == "2d" else (n,)
    x = 1.5 + np.linspace(0, 1, n).reshape(shape)
    z = -0.3 + 0.6 * np.cos(np.arange(n)).reshape(shape)
    X = x
    if two == "scalar":
        X = 1.7
        x = np.zeros(shape) + X
    y = [0.2, 0.5, 0.9]
    got = t.follow_field_lines(X, z, y)
    ctl.step()
    check(ctl, fld, got, x, z, y, tol)
    ctl.see(n, two, fname)


def errors(ctl, whichs):
    which = ctl.choose("tracer", whichs)
    a = ctl.choose("x shape", [(2,), (3,), (2, 3), (3, 2), (6,), (1, 2)])
    b = ctl.choose("z shape", [(2,), (3,), (2, 3), (3, 2), (6,), (1, 2)])
    y = ctl.choose("y", ["ok", "one", "none", "2d"])
    ctl.go()
    t, tol = tracers(which, FIELDS["shear"]())
    Y = {"ok": [0.0, 0.3], "one": [0.5], "none": [], "2d": [[0.0, 0.3], [0.0, 0.4]]}[y]
    x, z = np.full(a, 1.7), np.full(b, 0.2)
    ctl.step()
    if y != "ok" or a != b:
        ctl.raises(ValueError, "accepted", t.follow_field_lines, x, z, Y)
    else:
        ctl.check(t.follow_field_lines(x, z, Y).shape == (2,) + a + (2,), "shape")
    ctl.see(which, a, b, y)


def reversible(ctl, fields, shp, steps):
    """Following a line back ends where it started"""
    fname = ctl.choose("field", fields)
    shape = ctl.choose("shape", shp)
    n = ctl.choose("nsteps", steps)
    how = ctl.choose("given", ["constructor", "call"])
    yn = ctl.choose("y", list(YR))
    ctl.go()
    fld = FIELDS[fname]()
    if how == "constructor":
        t, kw = fieldtracer.FieldTracerReversible(fld, rtol=1e-20, nsteps=n), {}
    else:
        t, kw = fieldtracer.FieldTracerReversible(fld), dict(rtol=1e-20, nsteps=n)
    x, z = start(shape, "array")
    y = YR[yn]
    there = t.follow_field_lines(x, z, y, **kw)
    back = t.follow_field_lines(there[-1, ..., 0], there[-1, ..., 1], y[::-1], **kw)
    ctl.step(2)
    ctl.close(back[::-1], there, "not-reversible", atol=1e-7)
    if n >= 20:
        check(ctl, fld, there, x, z, y, 2e-3)
    # the scheme itself: the trapezoidal rule holds for every step
    xs, zs = there[0, ..., 0].copy(), there[0, ..., 1].copy()
    if n == 1:
        for j in range(1, len(y)):
            dy = y[j] - y[j - 1]
            a = np.array(fld.field_direction((there[j - 1, ..., 0], there[j - 1, ..., 1]), y[j - 1]))
            b = np.array(fld.field_direction((there[j, ..., 0], there[j, ..., 1]), y[j]))
            d = there[j] - there[j - 1]
            ctl.close(np.moveaxis(d, -1, 0), 0.5 * (a + b) * dy, "trapezoidal", atol=1e-6)
    ctl.see(there)


class Pendulum(lib.zfield.MagneticField):
    """Strongly nonlinear, with a field line that stays where it is"""

    def __init__(self, x0, z0, a):
        self.x0, self.z0, self.a = x0, z0, a

    def Bxfunc(self, x, z, phi):
        return z - self.z0 + 0 * x

    def Byfunc(self, x, z, phi):
        return np.ones_like(x + z)

    def Bzfunc(self, x, z, phi):
        return -np.sin(self.a * (x - self.x0)) * (1 + 0.3 * z) + 0 * x

    def Rfunc(self, x, z, phi):
        return np.ones_like(x + z)


def converged(ctl, ns, steps):
    """The implicit equations are solved at all points"""
    n = ctl.choose("points", ns)
    fixed = ctl.choose("fixed points", ["first", "last", "all but first", "all but last", "all but middle", "none"])
    nst = ctl.choose("nsteps", steps)
    rtol = ctl.choose("rtol", [None, 1e-10, 1e-14])
    y = ctl.choose("y", [[0.0, 0.6], [0.3, -0.3], [0.0, 0.4, 0.8, 0.4], [0.0, 0.0, 0.5]])
    a = ctl.choose("a", [1.0, 4.0])
    ctl.go()
    fld = Pendulum(1.3, 0.0, a)
    x = 1.3 + 0.5 * np.cos(1 + np.arange(n))
    z = 0.4 * np.sin(2.0 * np.arange(n) + 1)
    m = {"first": np.arange(n) == 0, "last": np.arange(n) == n - 1, "none": np.zeros(n, bool),
         "all but first": np.arange(n) > 0, "all but last": np.arange(n) < n - 1, "all but middle": np.arange(n) != n // 2}[fixed]
    x[m], z[m] = 1.3, 0.0
    yy = [y[0]]
    for b in y[1:]:
        yy += list(yy[-1] + (b - yy[-1]) * np.arange(1, nst + 1) / nst)
    t = fieldtracer.FieldTracerReversible(fld)
    kw = {} if rtol is None else dict(rtol=rtol)
    there = t.follow_field_lines(x, z, y, nsteps=nst, **kw)
    # every step on its own
    ref = t.follow_field_lines(x, z, yy, nsteps=1, **kw)
    ctl.step(2)
    ctl.close(ref[::nst], there, "substeps", atol=1e-6)
    for j in range(1, len(yy)):
        dy = yy[j] - yy[j - 1]
        u = np.array(fld.field_direction((ref[j - 1, ..., 0], ref[j - 1, ..., 1]), yy[j - 1]))
        v = np.array(fld.field_direction((ref[j, ..., 0], ref[j, ..., 1]), yy[j]))
        d = ref[j] - ref[j - 1]
        # the last Newton step is smaller than sqrt(rtol); what remains is smaller by a factor
        # of that and of the accuracy of the finite differences
        ctl.close(np.moveaxis(d, -1, 0), 0.5 * (u + v) * dy, "not-converged", atol=3e-6 if rtol is None else 3e-8 if rtol == 1e-10 else 1e-9,
                  msg=f"step {j}")
    ctl.close(there[:, m, 0], np.full((len(y), m.sum()), 1.3), "fixed-x", atol=1e-9)
    ctl.close(there[:, m, 1], np.zeros((len(y), m.sum())), "fixed-z", atol=1e-9)
    ctl.see(there)


def accuracy(ctl):
    """A smaller tolerance is used when it is asked for"""
    fname = ctl.choose("field", ["rotation", "torus"])
    rtol = ctl.choose("rtol", [1e-3, 1e-6, 1e-10])
    n = ctl.choose("n", [5, 1001])
    ctl.go()
    fld = FIELDS[fname]()
    t = fieldtracer.FieldTracer(fld)
    x, z = start((n,), "array")
    y = [0.0, 6.0]
    got = t.follow_field_lines(x, z, y, rtol=rtol)
    ctl.step()
    xw, zw = fld.line(x, z, 0.0, 6.0)
    err = np.max(np.hypot(got[1, :, 0] - xw, got[1, :, 1] - zw))
    # the absolute tolerance of the integrator stays at 1.5e-8
    ctl.check(err < 100 * max(rtol, 3e-8), "inaccurate", f"error {err} with rtol {rtol}")
    if rtol == 1e-3:
        ref = t.follow_field_lines(x, z, y)
        e2 = np.max(np.hypot(ref[1, :, 0] - xw, ref[1, :, 1] - zw))
        ctl.check(err > 3 * e2, "tolerance-ignored", f"errors {err}, {e2}")
    ctl.see(fname, rtol, n)


# ---------------------------------------------------------------- FusionSC
def fusionsc(ctl, depth):
    """The wrapper around the fusionsc library, with a stand-in for it"""
    seq = []
    for i in range(depth):
        seq.append((
            ctl.choose(f"y {i}", ["up", "down", "three", "down3"]),
            ctl.choose(f"shape {i}", [(3,), (2, 2)]),
            ctl.choose(f"rtol {i}", [None, 1e-3, 1e-6]),
        ))
    given = ctl.choose("arguments", [{}, {"targetError": 1e-4}, {"stepSize": 0.1}])
    ctl.go()
    fld = FIELDS["torus"]()
    log = []

    def poincare(points, field, phis, nturns, direction="ccw", **kw):
        assert field == "the field"
        X, Y, Z = (np.asarray(p) for p in points)
        log.append((direction, kw))
        R, ph = np.hypot(X, Y), np.arctan2(Y, X)
        out = np.zeros((3, len(phis)) + X.shape + (nturns,))
        for i, phi in enumerate(phis):
            r, z = fld.line(R, Z, ph, ph + (phi - ph))
            out[0, i, ..., 0], out[1, i, ..., 0], out[2, i, ..., 0] = r * np.cos(phi), r * np.sin(phi), z
        return out

    mod = types.ModuleType("fusionsc")
    mod.flt = types.SimpleNamespace(poincareInPhiPlanes=poincare)
    old = sys.modules.get("fusionsc")
    sys.modules["fusionsc"] = mod
    try:
        t = fieldtracer.FusionSCTracer("the field", **given)
        for yn, shape, rtol in seq:
            x, z = start(shape, "array")
            y = np.array(YS[yn])
            keep = lib.cc((x, z, y))
            got = t.follow_field_lines(x, z, y, rtol=rtol)
            ctl.step()
            check(ctl, fld, got, x, z, y, 1e-8)
            for a, b in zip(keep, (x, z, y)):
                ctl.close(b, a, "input-modified", atol=0, rtol=0)
            d, kw = log[-1]
            ctl.check(d == ("ccw" if y[1] > y[0] else "cw"), "direction", d)
            want = dict(given)
            if rtol is not None:
                want["targetError"] = rtol
            ctl.check(kw == want, "options", f"{kw}, expected {want}")
    finally:
        if old is None:
            del sys.modules["fusionsc"]
        else:
            sys.modules["fusionsc"] = old
    ctl.see(seq, sorted(given))


def families(tier):
    w = ["default", "reversible"]
    if tier == "quick":
        return [
            Family("shapes", shapes, "2 tracers, 3 fields, 5 shapes, 7 forms of the start, 6 sets of y", fields=["rotation", "wobble", "cylinder"],
                   whichs=w, shp=[(1,), (2,), (5,), (2, 3), (2, 1, 2)], ys=YS),
            Family("sizes", sizes, "numbers of points around multiples of 1000", ns=[1, 2, 999, 1000, 1001, 1999, 2000, 2001, 3500],
                   whichs=["default"], fields=["shear"]),
            Family("errors", errors, "all pairs of 6 shapes, 4 kinds of y", whichs=w),
            Family("reversible", reversible, "5 fields, 3 numbers of steps, 10 sets of y", fields=list(FIELDS), shp=[(3,), (2, 2)], steps=[1, 2, 20]),
            Family("converged", converged, "4 numbers of points, 6 places of fixed points, 3 tolerances", ns=[2, 3, 7, 400], steps=[1, 2]),
            Family("accuracy", accuracy, "3 tolerances"),
            Family("fusionsc", fusionsc, "all sequences of 2 calls", depth=2),
        ]
    return [
        Family("shapes", shapes, "3 tracers, 5 fields, 6 shapes, 7 forms of the start, 6 sets of y", fields=list(FIELDS),
               whichs=w + ["reversible-fine"], shp=[(1,), (2,), (5,), (2, 3), (2, 1, 2), (1, 1)], ys=YS),
        Family("sizes", sizes, "numbers of points around multiples of 1000",
               ns=[1, 2, 998, 999, 1000, 1001, 1002, 1500, 1998, 1999, 2000, 2001, 2999, 3000, 3001, 3500, 4999, 7001],
               whichs=["default", "reversible"], fields=list(FIELDS)),
        Family("errors", errors, "all pairs of 6 shapes, 4 kinds of y", whichs=w),
        Family("reversible", reversible, "5 fields, 5 numbers of steps, 10 sets of y", fields=list(FIELDS), shp=[(3,), (2, 2), (40,)],
               steps=[1, 2, 3, 20, 50]),
        Family("converged", converged, "6 numbers of points, 6 places of fixed points, 3 tolerances", ns=[2, 3, 5, 7, 400, 5000], steps=[1, 2, 3, 5]),
        Family("accuracy", accuracy, "3 tolerances"),
        Family("fusionsc", fusionsc, "all sequences of 3 calls", depth=3),
    ]
