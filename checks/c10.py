"""Results do not depend on what was computed before, and inputs are left alone."""

import os
import pickle
import traceback

import numpy as np
from boututils.datafile import DataFile

from mc import lib, mapref
from mc.engine import VERIF, Family  # noqa
from zoidberg import boundary, fieldtracer, weights
from zoidberg import field as zfield
from zoidberg import stencil_dagp_fv as dagp
from zoidberg import zoidberg as zb

from . import c09

ASSUMPTIONS = ["sequential use of shared grid, field, tracer and map objects"]


class Ctx:
    """Objects a script keeps and uses again"""

    def __init__(self, kind, per, scratch, maps=None):
        nx, nz = (6, 4) if kind == "rect" else (6, 16)
        self.s = mapref.Setup(kind, nx, 2, nz, per)
        self.grid = self.s.grid
        self.kind = kind
        if kind == "rect":
            self.f1, self.f2 = lib.Wobble(0.1, 0.1, 0.02, 2.0), lib.ShearSlab(0.1, 0.2)
            self.f1.attributes = {"psi": lambda x, z, y: x + z + y}
            self.f2.boundary = boundary.RectangularBoundaryXZ(-0.3, 0.4, -2, 2)
        else:
            self.f1, self.f2 = c09.Cyl(0.3, 2.0), lib.Wobble(0.05, 0.05, 0.01, 2.0)
        # The same kind of grid and field, but with other parameters
        self.s2 = mapref.Setup(kind, nx, 2, nz, per, other=0.1)
        self.f3 = lib.Wobble(0.2, 0.05, 0.01, 1.5) if kind == "rect" else c09.Cyl(0.2, 2.05)
        self.t1 = fieldtracer.FieldTracerReversible(self.f1)
        self.maps = maps or self.first_maps()
        self.scratch = scratch
        self.n = 0
        self.x = np.array([2.1, 2.3, 1.8]) if kind != "rect" else np.array([0.1, 0.3, -0.2])
        self.z = np.array([0.3, 0.1, 0.4])
        self.y = np.array([0.0, 0.4, 0.7])

    def first_maps(self):
        maps = zb.make_maps(self.grid, self.f1, quiet=True, refine_parallel_integral=1, MXG=1, samples_per_dim=2)
        maps["Rxy"] = maps["R"].copy()
        return maps

    def snapshot(self):
        d = {"maps." + k: np.array(v, copy=True) for k, v in self.maps.items()}
        for s in self.s, self.s2:
            for j in range(2):
                p = s.pols[j]
                k = "" if s is self.s else "other "
                d[f"{k}R{j}"], d[f"{k}Z{j}"] = np.array(p.R, copy=True), np.array(p.Z, copy=True)
        d["y"] = np.array(self.grid.ycoords, copy=True)
        d["Ly"] = np.array(self.grid.Ly)
        for k in "xyz":
            d["start." + k] = getattr(self, k).copy()
        d["attr1"] = np.array([ord(c) for c in ",".join(sorted(self.f1.attributes))])
        d["attr2"] = np.array([ord(c) for c in ",".join(sorted(self.f2.attributes))])
        return d

    def file(self, fn):
        with DataFile(fn) as f:
            return {k: np.asarray(f[k]) for k in f.list()}

    # --- operations
    def metric(self):
        return self.grid.metric()

    def metric1(self):
        m, b = zb.get_metric(self.grid, self.f1)
        return {**m, "BJg": b}

    def metric2(self):
        m, b = zb.get_metric(self.grid, self.f2)
        return {**m, "BJg": b}

    def maps1(self):
        return zb.make_maps(self.grid, self.f1, quiet=True, refine_parallel_integral=1, n_chunks=2)

    def maps2(self):
        return zb.make_maps(self.grid, self.f2, nslice=2, quiet=True, refine_parallel_integral=1)

    def maps3(self):
        return zb.make_maps(self.grid, self.f1, quiet=True, field_tracer=self.t1, refine_parallel_integral=1)

    def write(self):
        self.n += 1
        fn = os.path.join(self.scratch, f"{self.n}.nc")
        zb.write_maps(self.grid, self.f1, self.maps, gridfile=fn, quiet=True)
        return self.file(fn)

    def write_new(self):
        self.n += 1
        fn = os.path.join(self.scratch, f"{self.n}.nc")
        with zb.MapWriter(fn, new_names=True, metric2d=False) as mw:
            mw.add_grid_field(self.grid, self.f1)
            mw.add_maps(self.maps)
            mw.add_dagp()
        return self.file(fn)

    def dagp(self):
        return dagp.doit([self.s.pols[1]])

    def index(self):
        R, Z = self.s.pols[0].R[1:-1] + 0.01, self.s.pols[0].Z[1:-1] - 0.01
        u, v = self.s.pols[1].findIndex(R, Z)
        r, z = self.s.pols[1].getCoordinate(np.clip(u, 0, self.s.nx - 1), v)
        return {"u": u, "v": v, "r": r, "z": z}

    def weights(self):
        return weights.calculate_parallel_map_operators(lib.cc(self.maps))

    def partial(self):
        return weights.modify_maps(lib.cc(self.maps), partial_boundaries=True)

    def trace(self):
        return {"trace": self.t1.follow_field_lines(self.x, self.z, self.y)}

    def poincare(self):
        r, y = fieldtracer.trace_poincare(self.f1, self.x, self.z, 1.2, nplot=2, y_slices=self.y, revs=3)
        return {"r": np.asarray(r), "y": np.asarray(y)}

    # --- the same operations for other objects of the same kind
    def metric_f3(self):
        m, b = zb.get_metric(self.grid, self.f3)
        return {**m, "BJg": b}

    def metric_g2(self):
        m, b = zb.get_metric(self.s2.grid, self.f1)
        return {**m, "BJg": b}

    def maps_f3(self):
        return zb.make_maps(self.grid, self.f3, quiet=True, refine_parallel_integral=1, n_chunks=2)

    def maps_g2(self):
        return zb.make_maps(self.s2.grid, self.f1, quiet=True, refine_parallel_integral=1, n_chunks=2)

    def dagp_g2(self):
        return dagp.doit([self.s2.pols[1]])

    def index_g2(self):
        R, Z = self.s.pols[0].R[1:-1] + 0.01, self.s.pols[0].Z[1:-1] - 0.01
        u, v = self.s2.pols[1].findIndex(R, Z)
        r, z = self.s2.pols[1].getCoordinate(np.clip(u, 0, self.s.nx - 1), v)
        return {"u": u, "v": v, "r": r, "z": z}

    def poincare_f3(self):
        r, y = fieldtracer.trace_poincare(self.f3, self.x, self.z, 1.2, nplot=2, y_slices=self.y, revs=3)
        return {"r": np.asarray(r), "y": np.asarray(y)}

    def trace_f3(self):
        t = fieldtracer.FieldTracerReversible(self.f3)
        return {"trace": t.follow_field_lines(self.x, self.z, self.y)}


OPS = ["metric", "metric1", "metric2", "maps1", "maps2", "maps3", "write", "write_new", "dagp", "index",
       "weights", "partial", "trace", "poincare"]
OTHERS = ["metric1", "metric_f3", "metric_g2", "maps1", "maps_f3", "maps_g2", "dagp", "dagp_g2", "index", "index_g2",
          "poincare", "poincare_f3", "trace", "trace_f3", "write"]
_ref = {}


def result(x):
    return {k: np.array(v, copy=True) for k, v in x.items() if not isinstance(v, str)}


def forked(fn, *args):
    """fn(*args) in a new process, so that nothing stays behind in this one"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = (True, fn(*args))
            except BaseException as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = " > ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-3:])
                out = (False, f"{type(e).__name__}: {e} (in {where})")
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def play(kind, per, seq, scratch, maps):
    c = Ctx(kind, per, scratch, maps)
    snaps, outs = [c.snapshot()], []
    for op in seq:
        outs.append(result(getattr(c, op)()))
        snaps.append(c.snapshot())
    return outs, snaps


def maps_for(ctl, kind, per):
    """Maps to work with, always the same"""
    key = "maps", kind, per
    if key not in _ref:
        ok, r = forked(lambda: Ctx(kind, per, None).maps)
        ctl.check(ok, "single-operation", f"maps: {r}")
        _ref[key] = r
    return lib.cc(_ref[key])


def reference(ctl, op, kind, per):
    """The result of an operation, as the only one of a process"""
    key = op, kind, per
    if key not in _ref:
        ok, r = forked(play, kind, per, [op], ctl.scratch(), maps_for(ctl, kind, per))
        ctl.check(ok, "single-operation", f"{op}: {r}")
        _ref[key] = r[0][0]
    return _ref[key]


def history(ctl, kinds, ops, depth):
    kind = ctl.choose("poloidal grid", kinds)
    per = ctl.flag("periodic")
    seq = [ctl.choose(f"operation {i}", ops) for i in range(depth)]
    ctl.go()
    ok, r = forked(play, kind, per, seq, ctl.scratch(), maps_for(ctl, kind, per))
    ctl.check(ok, "sequence-failed", f"{seq}: {r}")
    outs, snaps = r
    before = snaps[0]
    for i, op in enumerate(seq):
        out = outs[i]
        ctl.step()
        want = reference(ctl, op, kind, per)
        ctl.check(set(out) == set(want), "keys", lambda: f"{op} after {seq[:i]}: {set(out) ^ set(want)}")
        for k, v in want.items():
            ctl.close(out[k], v, f"history-{op}", atol=1e-10, rtol=1e-9, msg=f"{k} of {op} after {seq[:i]}")
        after = snaps[i + 1]
        ctl.check(set(after) == set(before), "state-keys", lambda: f"{op}: {set(after) ^ set(before)}")
        for k, v in before.items():
            ctl.close(after[k], v, f"modified-by-{op}", atol=0, rtol=0, msg=k)
    ctl.see(kind, per, seq)


def fields(ctl, names, depth):
    """Making or using one field does not change others"""
    seq = [ctl.choose(f"field {i}", names) for i in range(depth)]
    ctl.go()
    ok, r = forked(play_fields, seq)
    ctl.check(ok, "fields-failed", f"{seq}: {r}")
    ctl.step(len(seq))
    for done, m, attr, v in r:
        want = ["psi"] if m == "GEQDSK" else []
        ctl.check(attr == want, "attributes", f"{m} has {attr} after {done}")
        if m not in _ref:
            ok, one = forked(play_fields, [m])
            ctl.check(ok, "field-failed", f"{m}: {one}")
            _ref[m] = one[0][3]
        ctl.close(v, _ref[m], "values", atol=1e-12, rtol=1e-10, msg=f"{m} after {done}")
    ctl.see(seq)


def play_fields(seq):
    made, out = [], []
    for i, n in enumerate(seq):
        made.append((n, make(n)))
        for m, f in made:
            out.append((seq[: i + 1], m, sorted(f.attributes), sample(f)))
    out.append((seq, "MagneticField", sorted(zfield.MagneticField().attributes), np.zeros(1)))
    return out


FIELDS = ["Slab", "Slab/2", "StraightStellarator", "StraightStellarator/2", "RotatingEllipse", "RotatingEllipse/2",
          "Screwpinch", "Screwpinch/2", "GEQDSK", "DommaschkPotentials", "DommaschkPotentials/2", "CurvedSlab",
          "CurvedSlab/2"]


def make(n):
    if n == "MagneticField":
        return zfield.MagneticField()
    n, _, other = n.partition("/")
    if n == "GEQDSK":
        return zfield.GEQDSK(os.path.join(os.environ.get("ZB_REPO", "/repo"), "examples", "test_1.geqdsk"))
    if n == "DommaschkPotentials":
        A = np.zeros((3, 4, 4))
        A[1, 2, 1] = 0.5
        if other:
            A[2, 1, 0] = 0.3
        return zfield.DommaschkPotentials(A)
    kw = {
        "Slab": dict(By=1.5, Bz=0.2),
        "CurvedSlab": dict(Rmaj=2.0, Bz=0.2),
        "StraightStellarator": dict(I_coil=0.3, radius=1.1),
        "RotatingEllipse": dict(I_coil=0.3, radius=1.1, Btor=2.0),
        "Screwpinch": dict(shear=0.4, xcentre=1.4),
    }[n]
    if n == "Screwpinch" and not other:
        return zfield.Screwpinch(shear=0.2)
    return getattr(zfield, n)(**(kw if other else {}))


def sample(f):
    if type(f) is zfield.MagneticField:
        return np.zeros(1)
    x, z = np.array([1.05, 0.9]), np.array([0.02, -0.03])
    return np.array([np.broadcast_to(np.asarray(g(x, z, 0.3), dtype=float), (2,)) for g in (f.Bxfunc, f.Byfunc, f.Bzfunc)])


def families(tier):
    if tier == "quick":
        return [
            Family("rect", history, "all sequences of 2 of 14 operations, rectangular grid", kinds=["rect"], ops=OPS, depth=2),
            Family("structured", history, "all sequences of 2 of 14 operations, curvilinear grid", kinds=["structured"], ops=OPS, depth=2),
            Family("others", history, "all sequences of 2 of 15 operations on two grids and fields of the same kind",
                   kinds=["rect", "structured"], ops=OTHERS, depth=2),
            Family("core", history, "all sequences of 3 of 5 operations that share the grid", kinds=["rect"],
                   ops=["metric", "metric1", "maps1", "write", "write_new"], depth=3),
            Family("fields", fields, "all sequences of 2 fields, with different parameters", names=FIELDS, depth=2),
        ]
    return [
        Family("rect", history, "all sequences of 3 of 14 operations, rectangular grid", kinds=["rect"], ops=OPS, depth=3),
        Family("structured", history, "all sequences of 3 of 10 operations, curvilinear grid", kinds=["structured"],
               ops=["metric", "metric1", "metric2", "maps2", "write", "write_new", "dagp", "index", "weights", "trace"], depth=3),
        Family("others", history, "all sequences of 3 of 15 operations on two grids and fields of the same kind",
               kinds=["rect", "structured"], ops=OTHERS, depth=3),
        Family("core", history, "all sequences of 4 of 6 operations that share the grid", kinds=["rect"],
               ops=["metric", "metric1", "metric2", "maps1", "write", "write_new"], depth=4),
        Family("fields", fields, "all sequences of 3 fields, with different parameters", names=FIELDS, depth=3),
    ]
