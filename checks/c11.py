"""Interrupting and resuming the computation of the DAGP coefficients."""

import os

import numpy as np
from boututils.datafile import DataFile

from mc import lib, mapref
from mc.engine import Family
from zoidberg import grid as zgrid
from zoidberg import poloidal_grid as zpol
from zoidberg import stencil_dagp_fv as dagp
from zoidberg import zoidberg as zb

ASSUMPTIONS = [
    "an interruption is an exception (e.g. Ctrl-C) in any access to the file or in the computation; "
    "the file is then closed. Power loss inside of the HDF5 library is not modelled.",
]


class Crash(BaseException):
    pass


class Faults:
    """Decides at every injection point whether the run is interrupted"""

    def __init__(self, ctl, crashes):
        self.ctl, self.left, self.n, self.on = ctl, crashes, 0, False

    def point(self, what):
        if not self.on:
            return
        self.n += 1
        if self.left and self.ctl.flag(f"crash at {what}"):
            self.left -= 1
            raise Crash()


class Var:
    """A netCDF variable whose accesses can fail before or after they are done"""

    def __init__(self, v, faults, name):
        self.__dict__.update(v=v, faults=faults, name=name)

    def __getattr__(self, k):
        return getattr(self.v, k)

    def __getitem__(self, i):
        return self.v[i]

    def __setitem__(self, i, val):
        self.faults.point(f"before {self.name}")
        self.v[i] = val
        self.faults.point(f"after {self.name}")


class Variables:
    def __init__(self, d, faults):
        self.d, self.faults = d, faults

    def __getitem__(self, k):
        return Var(self.d[k], self.faults, k)

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def get(self, k, default=None):
        return self[k] if k in self.d else default

    def keys(self):
        return self.d.keys()

    def items(self):
        return [(k, self[k]) for k in self.d]

    def values(self):
        return [self[k] for k in self.d]


class Handle:
    def __init__(self, h, faults):
        self.__dict__.update(h=h, faults=faults)

    def __getattr__(self, k):
        if k == "variables":
            return Variables(self.h.variables, self.faults)
        return getattr(self.h, k)

    def createVariable(self, k, *a, **kw):
        self.faults.point(f"before create {k}")
        v = self.h.createVariable(k, *a, **kw)
        self.faults.point(f"after create {k}")
        return Var(v, self.faults, k)


def make_grid(kind, ny, faults, seen):
    class Rect(zpol.RectangularPoloidalGrid):
        def getCoordinate(self, *a, **k):
            if faults.on and "me" in self.__dict__:
                seen.append(self.me)
                faults.point(f"computation {self.me}")
            return super().getCoordinate(*a, **k)

    class Str(zpol.StructuredPoloidalGrid):
        def getCoordinate(self, *a, **k):
            if faults.on and "me" in self.__dict__:
                seen.append(self.me)
                faults.point(f"computation {self.me}")
            return super().getCoordinate(*a, **k)

    pols = []
    for j in range(ny):
        if kind == "rect":
            p = Rect(5, 4, 1.0 + 0.1 * j, 1.5, 3.0, 0.0, MXG=1)
        else:
            q = lib.annulus(5, 12, rin=0.2 + 0.02 * j, phase=0.1 * j)
            p = Str(q.R, q.Z)
        p.me = j
        pols.append(p)
    return zgrid.Grid(pols, np.arange(ny) * 0.2, 0.2 * ny, yperiodic=True), pols


def read(fn):
    with DataFile(fn) as f:
        return {k: np.ma.getdata(f[k]) for k in f.list()}


def resume(ctl, kinds, nys, crashes, ways, compute):
    kind = ctl.choose("poloidal grid", kinds)
    ny = ctl.choose("ny", nys)
    way = ctl.choose("resumed by", ways)
    ctl.go()
    faults = Faults(ctl, crashes)
    seen = []
    g, pols = make_grid(kind, ny, faults if compute else Faults(ctl, 0), seen)
    fld = lib.ShearSlab(0.1, 0.05) if kind == "rect" else lib.TorusRotation(0.2)
    d = ctl.scratch()
    fn = os.path.join(d, "g.nc")
    extra = np.arange(np.prod(g.shape)).reshape(g.shape) * 0.25
    with zb.MapWriter(fn, quiet=True) as mw:
        mw.add_grid_field(g, fld)
        mw.write_dict({"other": extra})
    before = read(fn)
    runs = 0
    first = True
    hist = []
    done = False
    while not done:
        runs += 1
        ctl.check(runs < 20, "endless")
        mw = zb.MapWriter(fn, create=False, quiet=True)
        try:
            with mw:
                if way == "grid-field":
                    mw.add_grid_field(g, fld)
                else:
                    mw.grid, mw.field = g, None
                    mw.add_field(fld)
                    mw.add_grid(g)
                h = mw.f.impl.handle
                mw.f.impl.handle = Handle(h, faults)
                start = len(seen)
                faults.on = True
                try:
                    mw.add_dagp()
                    ctl.step()
                finally:
                    faults.on = False
                    mw.f.impl.handle = h
            done = True
        except Crash:
            pass
        # slices which are complete in the file are never computed again
        new = set(seen[start:])
        ctl.check(not new & set(hist), "computed-again", f"{new} after {hist}")
        state = read(fn)
        ctl.see(kind, ny, sorted(state), *[np.asarray(state[k]) for k in sorted(state)])
        hist = complete(ctl, state, ny, kind, pols, hist, compute)
    out = read(fn)
    want = dagp_ref(kind, ny, pols)
    for k, v in want.items():
        ctl.check(k in out, "missing", k)
        ctl.close(out[k], v, "wrong", atol=1e-12, rtol=1e-9, msg=k)
    for k, v in before.items():
        ctl.close(out[k], v, "other-data-changed", atol=0, rtol=0, msg=k)
    # a further run leaves everything as it is
    faults.on = False
    n = len(seen)
    with zb.MapWriter(fn, create=False, quiet=True) as mw:
        mw.add_grid_field(g, fld)
        mw.add_dagp()
        ctl.step()
    again = read(fn)
    ctl.check(len(seen) == n, "computed-again", "all slices were complete")
    for k, v in out.items():
        ctl.close(again[k], v, "changed-by-second-run", atol=0, rtol=0, msg=k)


_ref = {}


def dagp_ref(kind, ny, pols):
    """Each slice on its own, without a file"""
    if (kind, ny) not in _ref:
        outs = [dagp.doit([p], isSlab=False) for p in pols]
        _ref[kind, ny] = {k: np.concatenate([o[k] for o in outs], axis=1) for k in outs[0]}
    return _ref[kind, ny]


def complete(ctl, state, ny, kind, pols, hist, compute):
    """Slices the file claims to be complete. They have to be correct."""
    if "_dagp_generation_progress" not in state:
        return []
    n = int(state["_dagp_generation_progress"])
    want = dagp_ref(kind, ny, pols)
    if n <= 0:
        return []
    for k, v in want.items():
        ctl.check(k in state, "incomplete-marked-complete", k)
        ctl.close(np.asarray(state[k])[:, :n], v[:, :n], "incomplete-marked-complete", atol=1e-12, rtol=1e-9, msg=k)
    return list(range(n)) if compute else []


def families(tier):
    t = tier != "quick"
    w = ["grid-field", "separately"]
    return [
        Family("writes", resume, "every interruption of the file accesses, %d slices" % (3 if t else 2),
               kinds=["rect"], nys=[1, 2, 3] if t else [1, 2], crashes=1, ways=w, compute=False),
        Family("writes-structured", resume, "every interruption of the file accesses, curvilinear, 2 slices",
               kinds=["structured"], nys=[2], crashes=1, ways=w[:1], compute=False),
        Family("compute", resume, "every interruption of computation and file accesses, 3 slices",
               kinds=["rect", "structured"], nys=[3], crashes=1, ways=w[:1], compute=True),
        Family("many", resume, "every interruption of the file accesses, 11 slices", kinds=["rect"], nys=[11], crashes=1, ways=w[:1], compute=False),
        Family("twice", resume, "every pair of interruptions%s, 2 slices" % (" of computation and file accesses" if t else " of file accesses"),
               kinds=["rect"], nys=[2], crashes=2, ways=w[:1], compute=t),
    ] + ([
        Family("three", resume, "every triple of interruptions of file accesses, 1 slice", kinds=["rect"], nys=[1], crashes=3,
               ways=w[:1], compute=False)] if t else [])
