"""CachingFieldTracer is transparent, also after interrupted runs."""

import os
import resource
import signal
import sys

import numpy as np

from mc import lib
from mc.engine import Family
from zoidberg import fieldtracer

ASSUMPTIONS = [
    "interrupted runs: the process is killed when any number of bytes is written to a file, "
    "or before/after a file is renamed",
    "the hash of the file name has no accidental collisions",
]


class Stub:
    """A deterministic tracer whose result depends on all arguments"""

    def __init__(self):
        self.calls = []
        self.hook = None

    def follow_field_lines(self, x_values, z_values, y_values, rtol=None, **kw):
        self.calls.append(1)
        if self.hook:
            h, self.hook = self.hook, None
            h()
        return expected(x_values, z_values, y_values, rtol=rtol, **kw)


def expected(x, z, y, rtol=None, **kw):
    x, z = np.atleast_1d(x).astype(float), np.atleast_1d(z).astype(float)
    if x.size == 1 and z.shape != x.shape:
        x = np.zeros(z.shape) + x
    if z.size == 1 and z.shape != x.shape:
        z = np.zeros(x.shape) + z
    y = np.asarray(y, dtype=float)
    out = np.zeros((len(y),) + x.shape + (2,))
    r = 0.0 if rtol is None else rtol * 1e3 + 0.01
    for k, v in kw.items():
        if v is not None:
            r += 0.3 * v * len(k)
    i = np.arange(x.size).reshape(x.shape)
    for j in range(len(y)):
        out[j, ..., 0] = x * np.exp((y[j] - y[0]) / 3) + r + 0.1 * z * j + 1e-3 * i * j
        out[j, ..., 1] = z - np.sin(y[j]) / 7 + r / 3 + x * j
    return out


A = np.array
# Arguments which are easily taken for each other
ARGS = {
    "1d": (A([1.5, 2.5]), A([0.1, 0.2]), A([0.0, 0.5]), {}),
    "1d-tiny": (A([1.5, np.nextafter(2.5, 3)]), A([0.1, 0.2]), A([0.0, 0.5]), {}),
    "1d-eps": (A([1.5, 2.5 + 1e-7]), A([0.1, 0.2]), A([0.0, 0.5]), {}),
    "1d-z": (A([1.5, 2.5]), A([0.1, 0.2 + 1e-9]), A([0.0, 0.5]), {}),
    "swapped": (A([0.1, 0.2]), A([1.5, 2.5]), A([0.0, 0.5]), {}),
    "back": (A([1.5, 2.5]), A([0.1, 0.2]), A([0.5, 0.0]), {}),
    "sign": (A([1.5, 2.5]), A([-0.1, 0.2]), A([0.0, 0.5]), {}),
    "order": (A([2.5, 1.5]), A([0.2, 0.1]), A([0.0, 0.5]), {}),
    "row": (A([[1.5, 2.5]]), A([[0.1, 0.2]]), A([0.0, 0.5]), {}),
    "column": (A([[1.5], [2.5]]), A([[0.1], [0.2]]), A([0.0, 0.5]), {}),
    "3y": (A([1.5, 2.5]), A([0.1, 0.2]), A([0.0, 0.5, 1.0]), {}),
    "split1": (A([1.5]), A([2.5, 0.1]), A([0.2, 0.0, 0.5]), {}),
    "split2": (A([1.5, 2.5, 0.1]), A([0.2]), A([0.0, 0.5]), {}),
    "list": ([1.5, 2.5], [0.1, 0.2], [0.0, 0.5], {}),
    "single": (A([1.5, 2.5], dtype="f4"), A([0.1, 0.2], dtype="f4"), A([0.0, 0.5]), {}),
    "scalar": (1.5, 0.1, [0.0, 0.5], {}),
    "one": (A([1.5]), A([0.1]), A([0.0, 0.5]), {}),
    "scalar-x": (1.5, A([0.1, 0.2]), A([0.0, 0.5]), {}),
    "rtol": (A([1.5, 2.5]), A([0.1, 0.2]), A([0.0, 0.5]), {"rtol": 1e-6}),
    "rtol2": (A([1.5, 2.5]), A([0.1, 0.2]), A([0.0, 0.5]), {"rtol": 1e-8}),
    "rtol-none": (A([1.5, 2.5]), A([0.1, 0.2]), A([0.0, 0.5]), {"rtol": None}),
    "scalar-z": (A([0.1, 0.2]), 1.5, A([0.0, 0.5]), {}),
    "rtol-zero": (A([1.5, 2.5]), A([0.1, 0.2]), A([0.0, 0.5]), {"rtol": 0.0}),
    "nsteps": (A([1.5, 2.5]), A([0.1, 0.2]), A([0.0, 0.5]), {"nsteps": 7}),
    "eps": (A([1.5, 2.5]), A([0.1, 0.2]), A([0.0, 0.5]), {"eps": 7}),
    "long3": (np.linspace(1, 2, 1500) + (np.arange(1500) == 1499) * 1e-6, np.linspace(0, 0.1, 1500), A([0.0, 0.5]), {}),
    "long4": (np.linspace(1, 2, 1500) + 0, np.linspace(0, 0.1, 1500) + (np.arange(1500) == 1200) * 1e-6, A([0.0, 0.5]), {}),
    "long": (np.linspace(1, 2, 1500) + 0, np.linspace(0, 0.1, 1500), A([0.0, 0.5]), {}),
    "long2": (np.linspace(1, 2, 1500) + (np.arange(1500) == 700) * 1e-6, np.linspace(0, 0.1, 1500), A([0.0, 0.5]), {}),
}


def call(ctl, t, name):
    x, z, y, kw = ARGS[name]
    keep = lib.cc((x, z, y))
    got = t.follow_field_lines(x, z, y, **kw)
    ctl.step()
    want = expected(x, z, y, **kw)
    ctl.check(isinstance(got, np.ndarray), "type", str(type(got)))
    ctl.close(got, want, "wrong-result", atol=0, rtol=1e-15, msg=name)
    for a, b in zip(keep, (x, z, y)):
        ctl.close(b, a, "input-modified", atol=0, rtol=0, msg=name)
    return got


def same(a, b):
    """Calls with the same arguments"""
    a, b = ({"rtol-none": "1d", "list": "1d"}.get(k, k) for k in (a, b))
    return a == b


def sequences(ctl, names, depth, names2=None):
    seq = [ctl.choose(f"call {i}", names if i < 2 or names2 is None else names2) for i in range(depth)]
    restart = [ctl.choose(f"restart before {i}", [False, True]) for i in range(1, depth)]
    ctl.go()
    cache = os.path.join(ctl.scratch(), "c_%s")
    stub = Stub()
    t = fieldtracer.CachingFieldTracer(stub, cachename=cache)
    for i, n in enumerate(seq):
        if i and restart[i - 1]:
            t = fieldtracer.CachingFieldTracer(stub, cachename=cache)
        before = len(stub.calls)
        got = call(ctl, t, n)
        new = len(stub.calls) - before
        if n in seq[:i]:
            ctl.check(new == 0, "not-cached", f"{n} was traced again in {seq}")
        elif not any(same(n, m) for m in seq[:i]):
            ctl.check(new == 1, "wrong-cache-entry", f"{n} was not traced, after {seq[:i]}")
        got += 1.0  # the result belongs to the caller
    ctl.see(seq, restart)


def two_names(ctl):
    """Caches with different names are separate; the default goes to the
    current directory"""
    n = ctl.choose("call", ["1d", "column", "rtol", "scalar"])
    how = ctl.choose("name", ["default", "given"])
    ctl.go()
    d = ctl.scratch()
    os.chdir(d)

    class Other(Stub):
        def follow_field_lines(self, *a, **k):
            return super().follow_field_lines(*a, **k) * 2

    a = fieldtracer.CachingFieldTracer(Stub(), **({} if how == "default" else {"cachename": "first_%s"}))
    call(ctl, a, n)
    ctl.check(len(os.listdir(d)) == 1, "files", str(os.listdir(d)))
    b = fieldtracer.CachingFieldTracer(Other(), cachename="second_%s")
    x, z, y, kw = ARGS[n]
    for _ in range(2):
        ctl.close(b.follow_field_lines(x, z, y, **kw), 2 * expected(x, z, y, **kw), "other-cache", rtol=1e-15)
        call(ctl, a, n)
    ctl.see(n, how)


def in_child(fn):
    """Run in a process that can be killed"""
    pid = os.fork()
    if pid == 0:
        try:
            fn()
            os._exit(0)
        except BaseException:
            os._exit(1)
    return os.waitpid(pid, 0)[1]


def torn(ctl, names, how, pre):
    """The process is killed after k bytes were written"""
    n = ctl.choose("interrupted call", names)
    kind = ctl.choose("interruption", how)
    first = ctl.choose("cached before", pre)
    x, z, y, kw = ARGS[n]
    size = expected(x, z, y).size * 25
    k = ctl.choose("bytes", range(size + 2)) if kind != "none" else 0
    after = ctl.choose("then", ["same", "restart"])
    ctl.go()
    cache = os.path.join(ctl.scratch(), "c_%s")
    stub = Stub()
    t = fieldtracer.CachingFieldTracer(stub, cachename=cache)
    if first:
        call(ctl, t, first)

    def run():
        signal.setitimer(signal.ITIMER_REAL, 0)
        if kind == "error":  # disk full
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        else:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
        t.follow_field_lines(x, z, y, **kw)

    st = in_child(run)
    ctl.step()
    if after == "restart":
        t = fieldtracer.CachingFieldTracer(stub, cachename=cache)
    before = len(stub.calls)
    call(ctl, t, n)
    new = len(stub.calls) - before
    call(ctl, t, n)
    ctl.check(len(stub.calls) - before == new, "not-cached-after-crash", f"{k} bytes")
    if first:
        call(ctl, t, first)
    ctl.see(n, kind, first, st != 0, new, after)


class Crash(BaseException):
    pass


def renames(ctl, names):
    """Interrupted at the change of a file name, or in the tracer"""
    n = ctl.choose("interrupted call", names)
    point = ctl.choose("interrupted", ["before rename", "after rename", "in tracer"])
    times = ctl.choose("times", [1, 2])
    ctl.go()
    cache = os.path.join(ctl.scratch(), "c_%s")
    stub = Stub()
    x, z, y, kw = ARGS[n]
    saved = {k: getattr(os, k) for k in ("rename", "replace", "link")}

    def wrap(f):
        def g(*a, **k):
            if point == "before rename":
                raise Crash()
            f(*a, **k)
            raise Crash()

        return g

    for _ in range(times):
        t = fieldtracer.CachingFieldTracer(stub, cachename=cache)
        try:
            if point == "in tracer":
                def h():
                    raise Crash()
                stub.hook = h
            else:
                for k, f in saved.items():
                    setattr(os, k, wrap(f))
            t.follow_field_lines(x, z, y, **kw)
        except Crash:
            pass
        finally:
            stub.hook = None
            for k, f in saved.items():
                setattr(os, k, f)
    for _ in range(2):
        call(ctl, t, n)
        t = fieldtracer.CachingFieldTracer(stub, cachename=cache)
    ctl.see(n, point, times)


def interleaved(ctl, names):
    """Another user of the cache runs while the tracer is busy"""
    n = ctl.choose("call", names)
    m = ctl.choose("meanwhile", names)
    again = ctl.flag("twice")
    ctl.go()
    cache = os.path.join(ctl.scratch(), "c_%s")
    stub, stub2 = Stub(), Stub()
    t = fieldtracer.CachingFieldTracer(stub, cachename=cache)
    u = fieldtracer.CachingFieldTracer(stub2, cachename=cache)

    def other():
        call(ctl, u, m)
        if again:
            call(ctl, u, n)

    stub.hook = other
    call(ctl, t, n)
    call(ctl, u, n)
    call(ctl, t, m)
    ctl.see(n, m, again)


def processes(ctl, names, pre):
    """Two processes share the cache: every order of their file operations and
    traced lines"""
    calls = [ctl.choose(f"call of process {i}", names) for i in range(2)]
    first = ctl.choose("cached before", pre)
    ctl.go()
    d = ctl.scratch()
    cache = os.path.join(d, "c_%s")
    if first:
        call(ctl, fieldtracer.CachingFieldTracer(Stub(), cachename=cache), first)
    procs = [Child(d, cache, n) for n in calls]
    try:
        waiting = [True, True]
        while any(waiting):
            p = [i for i in (0, 1) if waiting[i]]
            i = p[0] if len(p) == 1 else ctl.choose("next", [0, 1])
            waiting[i] = procs[i].step()
            ctl.step()
        for i, p in enumerate(procs):
            ctl.check(p.result == b"ok", "second-process", lambda: f"process {i}, {calls[i]}: {p.result.decode()} after {p.points}")
            ctl.see(p.points)
    finally:
        for p in procs:
            p.end()
    for n in calls:
        t = fieldtracer.CachingFieldTracer(Stub(), cachename=cache)
        call(ctl, t, n)
        call(ctl, t, n)


class Child:
    """Makes one call in a process of its own, which stops before every access
    to a file in the directory, and in the tracer"""

    def __init__(self, directory, cache, name):
        self.points = []
        self.result = b"nothing"
        a, self.go = os.pipe()
        self.read, b = os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(a)
            os.close(b)
            self.wait()
            return
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(self.go)
            os.close(self.read)

            def point(what):
                os.write(b, b"." + what.encode() + b"\n")
                if os.read(a, 1) != b"g":
                    os._exit(2)

            def audit(event, args):
                if event in ("open", "os.rename", "os.link", "os.remove") and str(args[0]).startswith(directory):
                    point(event)

            x, z, y, kw = ARGS[name]
            stub = Stub()
            stub.hook = lambda: point("traced")
            t = fieldtracer.CachingFieldTracer(stub, cachename=cache)
            want = expected(x, z, y, **kw)
            point("start")
            sys.addaudithook(audit)
            try:
                got = t.follow_field_lines(x, z, y, **kw)
                ok = got.shape == want.shape and np.allclose(got, want, rtol=1e-15, atol=0)
                msg = b"ok" if ok else b"wrong result"
            except BaseException as e:
                msg = f"failed with {e!r}".encode()
            os.write(b, b"=" + msg.replace(b"\n", b" ") + b"\n")
        finally:
            os._exit(0)

    def wait(self):
        """Until the next point; is there one?"""
        line = b""
        while not line.endswith(b"\n"):
            c = os.read(self.read, 1)
            if not c:
                return False
            line += c
        if line[:1] == b"=":
            self.result = line[1:-1]
            return False
        self.points.append(line[1:-1].decode())
        return True

    def step(self):
        try:
            os.write(self.go, b"g")
        except BrokenPipeError:
            return False
        return self.wait()

    def end(self):
        os.close(self.go)
        os.close(self.read)
        os.waitpid(self.pid, 0)


def families(tier):
    names = [k for k in ARGS]
    few = ["1d", "1d-eps", "column", "row", "3y", "rtol", "split1", "scalar"]
    if tier == "quick":
        return [
            Family("sequences", sequences, "all sequences of 2 of 29 similar calls", names=names, depth=2),
            Family("three", sequences, "all sequences of 3 of 8 calls, with restarts", names=few, depth=3),
            Family("names", two_names, "2 caches"),
            Family("torn", torn, "killed / disk full after every number of bytes", names=["scalar"], how=["killed", "error"],
                   pre=[None, "1d"]),
            Family("renames", renames, "interruptions at renames and in the tracer", names=few),
            Family("interleaved", interleaved, "all pairs of 8 calls", names=few),
            Family("processes", processes, "all interleavings of the file operations of two processes", names=["1d", "column"],
                   pre=[None, "1d"]),
        ]
    return [
        Family("sequences", sequences, "all sequences of 3 of 24 similar calls, with restarts",
               names=[k for k in names if not k.startswith("long")], depth=3),
        Family("long", sequences, "all sequences of 2 of 29 similar calls", names=names, depth=2),
        Family("four", sequences, "all sequences of 4 of 8 calls, with restarts", names=few, depth=4),
        Family("names", two_names, "2 caches"),
        Family("torn", torn, "killed / disk full after every number of bytes", names=["scalar", "1d", "row", "3y", "rtol"],
               how=["killed", "error"], pre=[None, "1d"]),
        Family("renames", renames, "interruptions at renames and in the tracer", names=names),
        Family("interleaved", interleaved, "all pairs of 23 calls", names=names),
        Family("processes", processes, "all interleavings of the file operations of two processes", names=["1d", "column", "rtol", "scalar"],
               pre=[None, "1d"]),
    ]
