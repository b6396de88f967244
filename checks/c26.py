"""Fields from web services: conversion, saved files, failures and interruptions,
with a stand-in for the service."""

import itertools
import os
import pickle
import sys
import time
import types

import numpy as np

from mc.engine import Family
from zoidberg import field

ASSUMPTIONS = [
    "the web services are replaced by stand-ins that give an analytic field, and can fail",
    "saved fields were saved by this version; the directory is used by one process at a time",
    "toroidal angles within the range that was requested",
    "the plasma field is always that of the reference equilibrium (the service is asked for no other)",
]

TP = 2 * np.pi


class Obj(types.SimpleNamespace):
    pass


def cyl(tag, R, phi, Z):
    """Cylindrical components; different for everything that can be asked for"""
    h = 1 + sum((i + 1) * ord(c) for i, c in enumerate(repr(tag))) % 97 / 17
    return (
        0.1 * h * Z * np.cos(phi) + 0.02 * R,
        2.0 + 0.3 * h * R + 0.1 * np.sin(phi + h) - 0.2 * Z,
        -0.2 * h * R * np.sin(phi) + 0.3 * Z * Z,
    )


def cart(tag, x, y, z):
    R, phi = np.hypot(x, y), np.arctan2(y, x)
    br, bp, bz = cyl(tag, R, phi, z)
    return br * np.cos(phi) - bp * np.sin(phi), br * np.sin(phi) + bp * np.cos(phi), bz


COILS = {}
for _t in range(5):
    for _i in range(10):
        COILS[160 + _t + 5 * _i] = _t
for _i in range(10):
    COILS[210 + 2 * _i] = 5
    COILS[211 + 2 * _i] = 6
SETS = {-1: [1] * 7, "FMM002": [13423] * 5 + [-3544] * 2}
WINDINGS = [108] * 5 + [36] * 2


class Failure(Exception):
    pass


class Kill(BaseException):
    pass


class Service:
    def __init__(self, ctl, plan=None):
        self.ctl = ctl
        self.plan = plan or []
        self.asked = 0
        self.url = None

    def tag(self, config):
        if hasattr(config, "configIds"):
            return config.configIds
        ids, cur = list(config.coilsIds), list(config.coilsIdsCurrents)
        self.ctl.check(sorted(ids) == sorted(COILS) and len(cur) == len(ids), "coils", f"{ids}")
        for name, s in SETS.items():
            if all(c == s[COILS[i]] * WINDINGS[COILS[i]] for i, c in zip(ids, cur)):
                return name
        self.ctl.fail("coil-currents", str(list(zip(ids, cur)))[:300])

    def may_fail(self):
        i = self.asked
        self.asked += 1
        if i < len(self.plan) and self.plan[i]:
            raise self.plan[i]("the service does not answer")

    def magneticField(self, pos, config, *a, **kw):
        self.may_fail()
        if isinstance(pos, str):  # VMEC service
            tag, pos = "vmec " + pos, config
        else:
            tag = self.tag(config)
        B = cart(tag, *(np.asarray(v, dtype=float) for v in (pos.x1, pos.x2, pos.x3)))
        return Obj(field=Obj(x1=list(B[0]), x2=list(B[1]), x3=list(B[2])))

    def getPlasmaField(self, a, url, pos, b):
        self.may_fail()
        B = cyl("plasma", *(np.asarray(v, dtype=float) for v in (pos.x1, pos.x2, pos.x3)))
        return Obj(x1=list(B[0]), x2=list(B[1]), x3=list(B[2]))


CURRENT = []


class Client:
    """May be kept and used again; asks the present service"""

    def __init__(self, url, *a, **k):
        self.types = Obj(Points3D=Obj, MagneticConfig=Obj)

    @property
    def service(self):
        return CURRENT[0]


class Patched:
    """Installs the stand-ins; everything happens in a scratch directory"""

    def __init__(self, service, cwd, kill=None):
        self.service, self.cwd, self.kill = service, cwd, kill

    def __enter__(self):
        import xarray as xr

        service, kill = self.service, self.kill

        CURRENT[:] = [service]

        osa = types.ModuleType("osa")
        osa.Client = Client
        self.old = sys.modules.get("osa"), time.sleep, getattr(field, "tracer", None), os.getcwd()
        sys.modules["osa"] = osa
        time.sleep = lambda t: None
        field.tracer = None
        os.chdir(self.cwd)
        self.org = xr.Dataset.to_netcdf, pickle.dump, os.replace, os.rename
        if kill:
            to_nc, dump, rep, ren = self.org

            def stop(where):
                kill["n"] -= 1
                if kill["n"] < 0 and not kill.get("done"):
                    kill["done"] = where
                    return True
                return False

            def torn(fn, part):
                with open(fn, "rb") as f:
                    dat = f.read()
                with open(fn, "wb") as f:
                    f.write(dat[: int(len(dat) * part)] if part < 1 else dat[:-1])

            def to_netcdf(ds, path=None, *a, **k):
                if not stop("save"):
                    return to_nc(ds, path, *a, **k)
                if kill["part"] >= 0:
                    to_nc(ds, path, *a, **k)
                    torn(path, kill["part"])
                kill["how"]()

            def pdump(obj, f, *a, **k):
                if not stop("pickle"):
                    return dump(obj, f, *a, **k)
                if kill["part"] >= 0:
                    dat = pickle.dumps(obj)
                    f.write(dat[: int(len(dat) * kill["part"])] if kill["part"] < 1 else dat[:-1])
                    f.flush()
                kill["how"]()

            def moved(fn):
                def move(*a, **k):
                    if stop("rename"):
                        kill["how"]()
                    return fn(*a, **k)

                return move

            xr.Dataset.to_netcdf, pickle.dump = to_netcdf, pdump
            os.replace, os.rename = moved(rep), moved(ren)
        return self

    def __exit__(self, *a):
        import xarray as xr

        xr.Dataset.to_netcdf, pickle.dump, os.replace, os.rename = self.org
        osa, time.sleep, field.tracer, cwd = self.old
        if osa is None:
            del sys.modules["osa"]
        else:
            sys.modules["osa"] = osa
        os.chdir(cwd)


BASE = dict(nx=3, ny=4, nz=3, x_range=(4.0, 6.0), z_range=(-1.0, 1.2), phimax=TP, configuration=0, include_plasma_field=False)
# Similar requests, that differ in one thing
REQUESTS = {
    "base": {},
    "configuration": dict(configuration=1),
    "larger configuration": dict(configuration=10),
    "coils": dict(configuration=-1),
    "other coils": dict(configuration="FMM002"),
    "nx": dict(nx=4),
    "ny": dict(ny=5),
    "nz": dict(nz=4),
    "inner": dict(x_range=(4.01, 6.0)),
    "outer": dict(x_range=(4.0, 6.3)),
    "bottom": dict(z_range=(-1.1, 1.2)),
    "top": dict(z_range=(-1.0, 1.3)),
    "period": dict(phimax=TP / 5),
    "plasma": dict(include_plasma_field=True),
    "plasma and nx": dict(include_plasma_field=True, nx=4),
    "slightly shifted": dict(x_range=(4.003, 6.0)),
    "slightly higher": dict(z_range=(-1.0, 1.2037)),
    "almost one period": dict(phimax=TP - 0.002),
    "slightly shifted with plasma": dict(x_range=(4.003, 6.0), include_plasma_field=True),
}


def judge(ctl, B, q, msg=""):
    """All points of the lattice, and between them"""
    r = np.linspace(*q["x_range"], q["nx"])
    z = np.linspace(*q["z_range"], q["nz"])
    y = np.linspace(0, q["phimax"], q["ny"])

    def lattice(i, j, k):
        v = np.array(cyl(q["configuration"], r[i], y[j], z[k]))
        if q["include_plasma_field"]:
            v = v + np.array(cyl("plasma", r[i], y[j], z[k]))
        return v

    full = q["phimax"] == TP
    for j in range(q["ny"] - 1):
        for f in (0.0, 0.4):
            for turn in (0, 1, -2) if full else (0,):
                pts, want = [], []
                for i in range(q["nx"] - 1):
                    for k in range(q["nz"] - 1):
                        for fi, fk in ((0, 0), (0.3, 0.6), (1, 1)):
                            w = 0
                            for a, b, c in itertools.product((0, 1), repeat=3):
                                g = (fi if a else 1 - fi) * (f if b else 1 - f) * (fk if c else 1 - fk)
                                w = w + g * lattice(i + a, j + b, k + c)
                            e = 1e-9
                            pts.append((r[i] + min(fi, 1 - e) * (r[i + 1] - r[i]), z[k] + min(fk, 1 - e) * (z[k + 1] - z[k])))
                            want.append(w)
                R, Z = np.array(pts).T
                p = y[j] + (f + 1e-10) * (y[j + 1] - y[j]) + turn * TP
                got = np.array([fn(R, Z, p) for fn in (B.Bxfunc, B.Byfunc, B.Bzfunc)]).T
                ctl.close(got, np.array(want), "components", atol=1e-6, msg=f"{msg} y={p}")
    for R1, Z1 in ((r[0] - 0.2, z[0]), (r[-1] + 0.1, z[-1]), (r[1], z[0] - 0.1), (r[-1], z[-1] + 3.0)):
        out = np.array([fn(np.array([R1]), np.array([Z1]), p) for fn in (B.Bxfunc, B.Byfunc, B.Bzfunc)]).flatten()
        ctl.check(out[0] == 0 and out[2] == 0 and np.isfinite(out[1]) and out[1] != 0, "outside", f"R={R1} Z={Z1}: {out}")
    ctl.close(B.Rfunc(R, Z, p), R, "major-radius")
    ctl.close(B.Bmag(R, Z, p), np.sqrt(np.sum(got**2, axis=1)), "magnitude")
    ctl.see(repr(sorted(q.items(), key=str)), got)


def same(ctl, B, others, q, msg=""):
    """A saved field gives the same values, not only about the same"""
    r, y, z = np.meshgrid(np.linspace(*q["x_range"], 4), np.linspace(0, q["phimax"], 4), np.linspace(*q["z_range"], 4), indexing="ij")
    for o in others:
        for fn in ("Bxfunc", "Byfunc", "Bzfunc"):
            ctl.close(getattr(B, fn)(r, z, y), getattr(o, fn)(r, z, y), "saved-values", rtol=1e-12, atol=1e-14, msg=f"{msg} {fn}")


def construct(ctl, d, q, plan=None, kill=None):
    s = Service(ctl, plan)
    with Patched(s, d, kill):
        B = field.W7X_vacuum(**q)
    ctl.step()
    return B, s


def rounded(q):
    q = {k: v for k, v in q.items() if k not in ("include_plasma_field",)}
    return str({k: [round(x, 2) for x in np.atleast_1d(v)] if k.endswith(("range", "max")) else v for k, v in q.items()})


def histories(ctl, names, depth):
    """Every sequence of constructions in one directory"""
    seq = [ctl.choose(f"request {i}", names) for i in range(depth)]
    ctl.go()
    d = ctl.scratch()
    fields = []
    seen = set()
    for name in seq:
        q = dict(BASE, **REQUESTS[name])
        B, s = construct(ctl, d, q)
        judge(ctl, B, q, name)
        same(ctl, B, [b for b, _, n in fields if n == name], q, name)
        # a request with the same rounded ranges may replace what was saved
        key = rounded(q)
        for k in [k for k in seen if rounded(dict(BASE, **REQUESTS[k])) == key and k != name]:
            seen.discard(k)
        n = (name not in seen) * (1 + q["include_plasma_field"])
        # a plasma or vacuum part may have been saved for another request
        ctl.check(s.asked <= n, "asked-again", f"{name} asked {s.asked} times")
        seen.add(name)
        fields.append((B, q, name))
    for B, q, name in fields[:-1]:
        judge(ctl, B, q, f"first {name}, after the others")


def faults(ctl, names, hows, parts, again):
    """Failing requests, and interruptions while saving"""
    name = ctl.choose("request", names)
    q = dict(BASE, **REQUESTS[name])
    plasma = q["include_plasma_field"]
    kind = ctl.choose("fault", ["request", "saving"])
    plan, kill = None, None
    if kind == "request":
        plan = [ctl.choose(f"attempt {i}", [None, Failure, OSError, ValueError]) for i in range(3)]
    else:
        how = ctl.choose("how", hows)
        kill = dict(n=ctl.choose("at save", range(4)), part=ctl.choose("part written", parts))
    after = ctl.choose("then", again)
    ctl.go()
    d = ctl.scratch()
    if kind == "request":
        try:
            B, s = construct(ctl, d, q, plan)
        except (Failure, OSError, ValueError) as e:
            # A request is repeated once
            two = plan[0] and plan[1]
            one = plasma and any(plan)
            ctl.check(two or one, "request-not-repeated", f"{plan} {e!r}")
        else:
            ctl.check(not (plan[0] and plan[1]), "failure-ignored")
            judge(ctl, B, q, "with failures")
    elif how == "kill":
        pid = os.fork()
        if pid == 0:
            try:
                kill["how"] = lambda: os._exit(7)
                construct(ctl, d, q, None, kill)
            except BaseException:
                os._exit(9)
            os._exit(0)
        rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        ctl.check(rc in (0, 7), "saving-failed", f"exit code {rc}")
    else:
        exc = Kill if how == "interrupt" else OSError

        def stop():
            raise exc("while saving")

        kill["how"] = stop
        try:
            B, s = construct(ctl, d, q, None, kill)
        except exc:
            ctl.check("done" in kill, "exception")
        else:
            judge(ctl, B, q, "saving")
    for i, other in enumerate([name] + after + [name]):
        p = dict(BASE, **REQUESTS[other])
        try:
            B, s = construct(ctl, d, p)
        except BaseException as e:
            if type(e).__name__ == "_Timeout":
                raise
            ctl.fail("later-run-fails", f"{other} after {kind}: {type(e).__name__}: {e}")
        judge(ctl, B, p, f"run {i} after a fault")
    ctl.check(s.asked == 0, "asked-again")


def other_fields(ctl, shapes):
    """Fields that ask the service for every position, or for the one of an equilibrium"""
    kind = ctl.choose("kind", ["on demand", "vmec", "fusionsc"])
    if kind == "vmec":
        vid = ctl.choose("vmec_id", ["w7x_ref_171", "w7x_ref_9"])
        n = ctl.choose("nx,ny,nz", [(3, 4, 3), (2, 5, 4), (4, 3, 5)])
        rng = ctl.choose("ranges", [((4.0, 6.0), (-1.0, 1.2)), ((5.0, 5.5), (0.0, 0.3))])
        ctl.go()
        s = Service(ctl)
        with Patched(s, ctl.scratch()):
            B = field.W7X_VMEC(nx=n[0], ny=n[1], nz=n[2], x_range=rng[0], z_range=rng[1], vmec_id=vid)
        ctl.step()
        judge(ctl, B, dict(nx=n[0], ny=n[1], nz=n[2], x_range=rng[0], z_range=rng[1], phimax=TP, configuration="vmec " + vid, include_plasma_field=False))
        return
    conf = ctl.choose("configuration", [0, 3, -1, "FMM002"]) if kind == "on demand" else 5
    shape = ctl.choose("shape", shapes)
    yform = ctl.choose("y", ["number", "array"])
    y0 = ctl.choose("angle", [0.0, 0.7, 2.0, 4.5, -1.0, 7.5])
    fail = ctl.choose("first attempt", [None, Failure]) if kind == "on demand" else None
    ctl.go()
    n = int(np.prod(shape))
    R = (4.0 + 0.37 * np.arange(n)).reshape(shape)
    Z = (0.3 * np.cos(np.arange(n))).reshape(shape)
    y = y0 if yform == "number" else y0 + 0.1 * np.arange(n).reshape(shape)
    want = cyl(conf, R, y, Z)
    s = Service(ctl, [fail])
    with Patched(s, ctl.scratch()):
        if kind == "on demand":
            B = field.W7X_vacuum_on_demand(conf)
        else:
            B = field.FusionSCField(Obj(interpolateXyz=lambda X: np.array(cart(5, *[np.asarray(x) for x in X]))))
        for fn, w, name in zip((B.Bxfunc, B.Byfunc, B.Bzfunc), want, ("radial", "toroidal", "vertical")):
            ctl.close(fn(R, Z, y), w, name, atol=1e-10)
            ctl.step()
        for g, w, name in zip(B.Bxyzfunc(R, Z, y), want, ("radial", "toroidal", "vertical")):
            ctl.close(g, w, name + "-together", atol=1e-10)
        ctl.close(B.Bmag(R, Z, y), np.sqrt(sum(w**2 for w in want)), "magnitude", atol=1e-10)
        ctl.close(B.Rfunc(R, Z, y), R, "major-radius")
        ctl.close(B.pressure(R, Z, y), np.zeros(shape), "pressure")
        if yform == "number" and len(shape) == 1:
            d = B.field_direction(np.array([R, Z]).T.flatten(), y, flatten=True)
            w = np.array([R * want[0] / want[1], R * want[2] / want[1]]).T.flatten()
            ctl.close(d, w, "direction", atol=1e-10)
    ctl.see(kind, conf, shape, np.array(want))


def defaults(ctl):
    """Without arguments: the device within its vacuum vessel, the standard configuration"""
    kind = ctl.choose("class", ["vacuum", "vmec"])
    y = ctl.choose("angle", [0.1, 3.3, 6.2])
    given = ctl.choose("given", ["nothing", "ny"])
    ctl.go()
    kw = {"ny": 64} if given == "ny" else {}
    with Patched(Service(ctl), ctl.scratch()):
        B = (field.W7X_vacuum if kind == "vacuum" else field.W7X_VMEC)(**kw)
    ctl.step()
    R, Z = np.meshgrid(np.linspace(4.2, 6.4, 45), np.linspace(-1.3, 1.3, 37), indexing="ij")
    tags = [0] if kind == "vacuum" else ["vmec " + v for v in ("w7x_ref_171",)]
    got = np.array([fn(R, Z, y) for fn in (B.Bxfunc, B.Byfunc, B.Bzfunc)])
    want = np.array(cyl(tags[0], R, y, Z))
    # the error is that in y; in R and Z the lattice is fine
    dy = TP / (kw.get("ny", 32) - 1)
    ctl.close(got[2], want[2], "default", rtol=0, atol=1e-3 + 0.125 * dy**2 * 10)
    k = np.abs(np.diff(got[2] - want[2], 2, axis=1)).max()
    ctl.check(k < 5e-4, "default-resolution", f"kinks of {k} between the points in Z")
    ctl.see(got)


def families(tier):
    t = tier != "quick"
    names = list(REQUESTS)
    return [
        Family("histories", histories, "all sequences of %d of %d similar requests in one directory" % (2, len(names)), names=names, depth=2),
        Family("faults", faults, "every pattern of failing requests; interruption of every save and rename, after writing a part of it; then further requests",
               names=["base", "plasma", "coils"] if t else ["base", "plasma"], hows=["kill", "interrupt", "disk full"],
               parts=[-1, 0, 0.1, 0.5, 0.9, 1] if t else [-1, 0, 0.5, 1], again=[[], ["nx"], ["plasma"]] if t else [[], ["plasma"]]),
        Family("others", other_fields, "fields without a lattice, and of an equilibrium",
               shapes=[(1,), (3,), (2, 3), (2, 1, 2)]),
        Family("defaults", defaults, "fields with everything by default"),
    ] + ([Family("long", histories, "sequences of 3", names=["base", "configuration", "larger configuration", "coils", "nx", "outer", "period", "plasma", "slightly shifted", "slightly shifted with plasma"], depth=3)] if t else [])
