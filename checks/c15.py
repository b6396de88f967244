"""FieldTracerWeb: splitting into requests, retries and order of the results,
with a stand-in for the web service and a controlled pool of workers."""

import multiprocessing
import sys
import time
import types

import numpy as np

from mc import lib
from mc.engine import Family
from zoidberg import fieldtracer

ASSUMPTIONS = [
    "the web service is replaced by a stand-in that follows analytically known lines, "
    "the worker pool by one in which every request can fail or time out",
    "at least one attempt is allowed (retry >= 1)",
]


class Obj(types.SimpleNamespace):
    pass


class Server:
    """Traces in the direction of the field, or against it if inverted"""

    def __init__(self, forward, fld):
        self.forward, self.fld = forward, fld
        self.requests = []
        self.steps = []

    def trace(self, p, config, task, *rest):
        s = (1 if self.forward else -1) * (-1 if config.inverseField else 1)
        x1, x2, x3 = (np.atleast_1d(np.asarray(a, dtype=float)) for a in (p.x1, p.x2, p.x3))
        R, ph = np.hypot(x1, x2), np.arctan2(x2, x1)
        out = []
        self.requests.append(len(x1))
        self.steps.append(task.step)
        for r, f, z in zip(R, ph, x3):
            if hasattr(task, "linesPhi"):
                d = s * abs(task.linesPhi.phi)
            else:
                d = s * task.step * task.lines.numSteps
            n = np.linspace(0, 1, 4)
            rr, zz = self.fld.line(r, z, f, f + d * n)
            rr = rr + 0 * n
            out.append(Obj(vertices=Obj(x1=rr * np.cos(f + d * n), x2=rr * np.sin(f + d * n), x3=zz + 0 * n)))
        return Obj(lines=out)


def install(server):
    types_ns = Obj(Points3D=Obj, LineTracing=Obj, Task=Obj, LinePhiSpan=Obj, MagneticConfig=Obj)

    class Client:
        def __init__(self, url):
            self.types = types_ns
            self.service = server

    osa = types.ModuleType("osa")
    osa.Client = Client
    req = types.ModuleType("requests")
    req.get = lambda *a, **k: Obj(raise_for_status=lambda: None)
    return {"osa": osa, "requests": req}


class FakePool:
    """Every request can be answered, fail, or not be answered in time"""

    def __init__(self, plan):
        self.plan = plan

    def __call__(self, *a, **k):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    terminate = join = close

    def apply_async(self, fn, args=(), kwds=None, **kw):
        plan = self.plan

        class Res:
            def get(self, timeout=None):
                plan.timeouts.append(timeout)
                plan.fault()
                return fn(*args, **(kwds or {}))

        return Res()


class Plan:
    def __init__(self, ctl, budget):
        self.ctl, self.left, self.failures, self.timeouts = ctl, budget, 0, []

    def fault(self):
        if self.left:
            k = self.ctl.choose("answer", ["ok", "error", "timeout"])
            if k != "ok":
                self.left -= 1
                self.failures += 1
                if k == "error":
                    raise RuntimeError("server error")
                raise multiprocessing.TimeoutError()


class Patched:
    def __init__(self, mods, pool):
        self.mods, self.pool = mods, pool

    def __enter__(self):
        self.old = {k: sys.modules.get(k) for k in self.mods}
        sys.modules.update(self.mods)
        self.sleep, time.sleep = time.sleep, lambda *a: None
        self.p1 = getattr(fieldtracer, "Pool", None)
        fieldtracer.Pool = self.pool
        self.p2, multiprocessing.Pool = multiprocessing.Pool, self.pool

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        time.sleep = self.sleep
        fieldtracer.Pool = self.p1
        multiprocessing.Pool = self.p2


def web(ctl, ns, chunks, ys, retries, extra, forwards, configs, shapes):
    forward = ctl.choose("direction of the field", forwards)
    conf = ctl.choose("configuration", configs)
    n = ctl.choose("points", ns)
    chunk = ctl.choose("chunk", chunks)
    given = ctl.choose("chunk and retry given to", ["constructor", "call"])
    yn = ctl.choose("y", list(ys))
    shape = ctl.choose("shape", shapes)
    retry = ctl.choose("retry", retries)
    ctl.go()
    y = ys[yn]
    fld = lib.TorusRotation(0.4, 5.5) if conf != "cyl" else lib.Cylinder(0.02, 0.1)
    server = Server(forward, fld)
    eff = 3 if retry is None else retry
    plan = Plan(ctl, eff + extra)
    with Patched(install(server), FakePool(plan)):
        kw = {}
        args = dict(chunk=chunk) if retry is None else dict(chunk=chunk, retry=retry)
        if given == "constructor":
            kw, args = args, {}
        if conf == "config":
            kw["config"] = Obj(name="mine")
        else:
            kw["configId"] = 0
        t = fieldtracer.FieldTracerWeb(**kw)
        x = 5.2 + 0.6 * np.arange(n) / max(n, 1)
        z = -0.3 + 0.1 * np.arange(n)
        X, Z = x, z
        if shape == "2d" and n % 2 == 0:
            X, Z = x.reshape(2, -1), z.reshape(2, -1)
        elif shape == "scalar":
            Z = 0.25
            z = np.zeros(n) + Z
        server.requests.clear()
        keep = lib.cc((X, Z))
        out = None
        try:
            out = t.follow_field_lines(X, Z, y, **args)
        except (RuntimeError, multiprocessing.TimeoutError) as e:
            ctl.check(plan.failures >= eff, "gave-up-early", f"{plan.failures} failures, retry={eff}: {e!r}")
        ctl.step()
    for a, b in zip(keep, (X, Z)):
        ctl.close(b, a, "input-modified", atol=0, rtol=0)
    if out is None:
        ctl.see("failed", plan.failures, eff)
        return
    ctl.check(plan.failures < eff, "too-many-retries", f"{plan.failures} failures, retry={eff}")
    shp = (len(y),) + np.shape(X) + (2,)
    ctl.check(out.shape == shp, "shape", f"{out.shape} != {shp}")
    got = out.reshape(len(y), n, 2)
    for j in range(len(y)):
        r, zz = fld.line(x, z, y[0], y[j])
        ctl.close(got[j, :, 0], r, "wrong-line-x", atol=1e-8, msg=f"y[{j}]")
        ctl.close(got[j, :, 1], zz, "wrong-line-z", atol=1e-8, msg=f"y[{j}]")
    ctl.check(max(server.requests) <= chunk, "request-too-large", str(server.requests))
    ctl.see(got, plan.failures)


YS = {"up": [0.1, 0.4], "down": [0.1, -0.4], "three": [0.0, 0.2, 0.7], "down3": [1.0, 0.8, 0.1]}


def options(ctl):
    """Options of the call are used instead of those of the tracer, and these
    instead of the defaults"""
    names = ["stepsize", "timeout", "retry", "chunk"]
    own = {k: ctl.flag(f"{k} of the tracer") for k in names}
    of_call = {k: ctl.flag(f"{k} of the call") for k in names}
    ctl.go()
    a = dict(stepsize=0.02, timeout=77, retry=2, chunk=2)
    b = dict(stepsize=0.05, timeout=99, retry=4, chunk=3)
    fld = lib.TorusRotation(0.4, 5.5)
    server = Server(True, fld)
    want = dict(stepsize=0.01, timeout=1800, retry=3, chunk=10000)
    want.update({k: a[k] for k in names if own[k]})
    want.update({k: b[k] for k in names if of_call[k]})
    plan = Plan(ctl, 0)
    fails = [want["retry"] - 1]

    def fault():
        if fails[0]:
            fails[0] -= 1
            raise RuntimeError("server error")

    plan.fault = fault
    kw = {k: a[k] for k in names if own[k]}
    if "timeout" in kw:
        kw["run_timeout"] = kw.pop("timeout")
    x, z = 5.2 + 0.1 * np.arange(5), np.zeros(5)
    with Patched(install(server), FakePool(plan)):
        t = fieldtracer.FieldTracerWeb(configId=0, **kw)
        server.requests.clear()
        server.steps.clear()
        out = t.follow_field_lines(x, z, [0.0, 0.3], **{k: b[k] for k in names if of_call[k]})
    ctl.step()
    r, zz = fld.line(x, z, 0.0, 0.3)
    ctl.close(out[1, :, 0], r, "line-x", atol=1e-8)
    ctl.close(out[1, :, 1], zz, "line-z", atol=1e-8)
    ctl.check(set(server.steps) == {want["stepsize"]}, "stepsize", f"{server.steps}, expected {want}")
    ctl.check(server.requests == [min(want["chunk"], 5 - i) for i in range(0, 5, want["chunk"])], "chunk", f"{server.requests}, expected {want}")
    ctl.check(set(plan.timeouts) <= {want["timeout"]}, "timeout", f"{plan.timeouts}, expected {want}")
    if want["chunk"] < 5:
        ctl.check(fails[0] == 0, "retry", f"{fails}")
    ctl.see(own, of_call)


def errors(ctl):
    a = ctl.choose("x shape", [(2,), (3,), (2, 2), (1,)])
    b = ctl.choose("z shape", [(2,), (3,), (2, 2), (1,)])
    y = ctl.choose("y", ["ok", "one", "2d"])
    ctl.go()
    with Patched(install(Server(True, lib.TorusRotation(0.4, 5.5))), FakePool(Plan(ctl, 0))):
        t = fieldtracer.FieldTracerWeb(configId=0)
        Y = {"ok": [0.0, 0.3], "one": [0.5], "2d": [[0.0, 0.3], [0.0, 0.4]]}[y]
        x, z = np.full(a, 5.7), np.full(b, 0.2)
        ctl.step()
        if y != "ok" or (a != b and (1,) not in (a, b)):
            ctl.raises(ValueError, "accepted", t.follow_field_lines, x, z, Y)
        else:
            s = a if b == (1,) else b
            ctl.check(t.follow_field_lines(x, z, Y).shape == (2,) + s + (2,), "shape")
    ctl.see(a, b, y)


def families(tier):
    if tier == "quick":
        return [
            Family("requests", web, "1-5 points in requests of 1-3, both directions, 4 sets of y, no faults", ns=range(1, 6), chunks=[1, 2, 3, 100],
                   ys=YS, retries=[None], extra=-3, forwards=[True, False], configs=["id", "config", "cyl"], shapes=["1d", "2d", "scalar"]),
            Family("faults", web, "every sequence of failures and timeouts, up to 4 requests, retry 1-3", ns=[3, 4], chunks=[1, 2],
                   ys={"up": YS["up"], "down3": YS["down3"]}, retries=[1, 2, 3, None], extra=1, forwards=[True], configs=["id"], shapes=["1d"]),
            Family("options", options, "every combination of options of the tracer and the call"),
            Family("errors", errors, "all pairs of 4 shapes"),
        ]
    return [
        Family("requests", web, "1-9 points in requests of 1-6, both directions, 4 sets of y, no faults", ns=range(1, 10), chunks=[1, 2, 3, 4, 5, 6, 100],
               ys=YS, retries=[None], extra=-3, forwards=[True, False], configs=["id", "config", "cyl"], shapes=["1d", "2d", "scalar"]),
        Family("faults", web, "every sequence of failures and timeouts, up to 6 requests, retry 1-5", ns=[2, 3, 4, 6], chunks=[1, 2],
               ys={"up": YS["up"], "down3": YS["down3"]}, retries=[1, 2, 3, 4, 5, None], extra=1, forwards=[True, False], configs=["id"], shapes=["1d", "2d"]),
        Family("options", options, "every combination of options of the tracer and the call"),
        Family("errors", errors, "all pairs of 4 shapes"),
    ]
