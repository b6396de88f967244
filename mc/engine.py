"""Bounded exhaustive exploration of the real zoidberg code.

A *harness* is a function ``fn(ctl)``.  Every nondeterministic decision (an
input, a configuration value, the next operation of a history, whether a fault
happens at an injection point) is taken with ``ctl.choose``.  The engine runs
the harness once for every possible sequence of decisions (stateless depth
first search, as in VeriSoft/CHESS), on the implementation in /repo, and the
harness compares everything observable with a small reference model.

There is no sampling: an exploration either covers the complete decision tree
of the family (``exhaustive: true``) or stops because a violation was found.
"""

import hashlib
import itertools
import json
import multiprocessing as mp
import os
import queue
import re
import signal
import sys
import tempfile
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXEC_TIMEOUT = 240.0  # seconds for a single execution; "does not terminate"
UNIT_SECONDS = 1.0  # after this time a worker gives the rest of its subtree back
MAX_REPORTS = 8  # stop exploring after this many distinct violations


class Violation(Exception):
    def __init__(self, tag, msg):
        super().__init__(msg)
        self.tag = tag
        self.msg = msg


class _Cut(BaseException):
    """Raised while splitting work: an undecided choice was reached."""

    def __init__(self, nopts):
        self.nopts = nopts


class _Leaf(BaseException):
    """Raised while splitting work: all choices of this execution are made."""


class _Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise _Timeout()


def _short(x):
    if isinstance(x, (bool, int, float, str, type(None))):
        return x
    if isinstance(x, (tuple, list)):
        return [_short(y) for y in x]
    if isinstance(x, np.generic):
        return x.item()
    if callable(x):
        return getattr(x, "__name__", str(type(x)))
    return str(x)[:80]


class Ctl:
    """Controls one execution."""

    def __init__(self, prefix=(), split=False):
        self.prefix = list(prefix)
        self.split = split
        self.path = []  # indices taken
        self.width = []  # number of options at each choice
        self.log = []  # [name, value]
        self.steps = 0
        self.compared = 0
        self.digests = set()
        self.soft = []
        self.scratchdirs = []

    # --- nondeterminism
    def choose(self, name, options):
        options = list(options)
        assert options, f"no options for {name}"
        d = len(self.path)
        if d < len(self.prefix):
            i = self.prefix[d]
        elif self.split:
            raise _Cut(len(options))
        else:
            i = 0
        self.path.append(i)
        self.width.append(len(options))
        self.log.append([name, _short(options[i])])
        return options[i]

    def flag(self, name):
        return self.choose(name, [False, True])

    def go(self):
        """Mark that the input choices are made (used to split work)."""
        if self.split:
            raise _Leaf()

    # --- observation
    def step(self, n=1):
        """n calls into the implementation under test."""
        self.steps += n

    def see(self, *objs):
        """Record an observed state, for the count of distinct states."""
        h = hashlib.blake2b(digest_size=10)
        for o in objs:
            if isinstance(o, np.ndarray):
                if o.dtype.kind == "f":
                    o = np.round(o, 7) + 0.0
                h.update(str(o.shape).encode())
                h.update(np.ascontiguousarray(o).tobytes())
            else:
                h.update(repr(o).encode())
            h.update(b"|")
        self.digests.add(h.digest())

    # --- judgement
    def fail(self, tag, msg):
        raise Violation(tag, msg)

    def report(self, tag, msg):
        """A violation after which the execution can go on."""
        self.soft.append((tag, msg))

    def check(self, cond, tag, msg=""):
        self.compared += 1
        if not cond:
            raise Violation(tag, msg() if callable(msg) else msg)

    def close(self, got, want, tag, atol=1e-9, rtol=1e-9, msg="", soft=False):
        got = np.asarray(got)
        want = np.asarray(want)
        self.compared += max(1, want.size)
        if got.shape != want.shape:
            v = f"{msg} shape {got.shape}, expected {want.shape}"
        else:
            got = np.asarray(got, dtype=complex if got.dtype.kind == "c" else float)
            ok = np.abs(got - want) <= atol + rtol * np.abs(want)
            if np.all(ok):
                return True
            bad = np.argwhere(~ok)
            i = tuple(bad[0])
            v = (
                f"{msg} {len(bad)} of {want.size} values differ, first at "
                f"{tuple(int(k) for k in i)}: got {got[i]!r}, expected {want[i]!r}"
            )
        if soft:
            self.report(tag, v)
            return False
        raise Violation(tag, v)

    def raises(self, exc, tag, fn, *args, **kw):
        self.compared += 1
        try:
            fn(*args, **kw)
        except exc:
            return
        except Exception as e:  # noqa
            raise Violation(tag, f"raised {type(e).__name__} ({e}), expected {exc}")
        raise Violation(tag, f"expected {exc}, but nothing was raised")

    def scratch(self):
        d = tempfile.mkdtemp(prefix="zbmc_")
        self.scratchdirs.append(d)
        return d

    def cleanup(self):
        import shutil

        for d in self.scratchdirs:
            shutil.rmtree(d, ignore_errors=True)


class Family:
    """A decision tree to explore exhaustively."""

    def __init__(self, name, fn, bound, timeout=None, **params):
        self.name = name
        self.fn = fn
        self.bound = bound
        self.params = params
        self.timeout = timeout or EXEC_TIMEOUT

    def run(self, ctl):
        return self.fn(ctl, **self.params)


_FAMILIES = {}
_DEVNULL = None


class _quiet:
    """Silence stdout of the code under test (it prints a lot)."""

    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = open(os.devnull, "w")

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.old


def execute(fam, prefix, split=False):
    ctl = Ctl(prefix, split)
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, fam.timeout)
    cwd = os.getcwd()
    try:
        with _quiet():
            fam.run(ctl)
    except (_Cut, _Leaf):
        raise
    except Violation as v:
        err = (v.tag, v.msg)
    except _Timeout:
        err = ("no-termination", f"did not terminate within {fam.timeout} s")
    except BaseException as e:  # the code under test raised for valid input
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-3:]
        err = (
            f"exception-{type(e).__name__}",
            f"{type(e).__name__}: {e} (in {' > '.join(where)})",
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(cwd)
        ctl.cleanup()
    found = list(ctl.soft)
    if err:
        found.append(err)
    return ctl, found


def _next_prefix(ctl, keep):
    """Depth first: the next decision sequence below the first `keep` choices."""
    path, width = list(ctl.path), ctl.width
    while len(path) > keep:
        if path[-1] + 1 < width[len(path) - 1]:
            path[-1] += 1
            return path
        path.pop()
    return None


def _explore_unit(arg):
    name, prefix = arg
    fam = _FAMILIES[name]
    out = dict(
        family=name, execs=0, steps=0, compared=0, digests=set(), nodes=0, viol=[],
        samples=[], maxdepth=0, complete=True, rest=[],
    )
    t0 = time.time()
    cur = list(prefix)
    tags = set()
    while cur is not None:
        prev_len = len(cur)
        ctl, found = execute(fam, cur)
        out["execs"] += 1
        out["steps"] += ctl.steps
        out["compared"] += ctl.compared
        out["digests"] |= ctl.digests or {
            hashlib.blake2b(repr((name, ctl.log)).encode(), digest_size=10).digest()
        }
        # decision nodes visited for the first time in this execution
        out["nodes"] += len(ctl.path) - max(prev_len - 1, 0) if out["execs"] > 1 else len(ctl.path)
        out["maxdepth"] = max(out["maxdepth"], len(ctl.path))
        if len(out["samples"]) < 1:
            out["samples"].append(ctl.log)
        for tag, msg in found:
            if tag not in tags or len(out["viol"]) < 3:
                tags.add(tag)
                out["viol"].append((tag, msg, ctl.path, ctl.log))
        if len(tags) >= MAX_REPORTS or "no-termination" in tags:
            out["complete"] = False
            break
        nxt = _next_prefix(ctl, len(prefix))
        if nxt is not None and time.time() - t0 > UNIT_SECONDS:
            # give the rest of this subtree back, so that others can help
            for d in range(len(prefix), len(ctl.path)):
                for i in range(ctl.path[d] + 1, ctl.width[d]):
                    out["rest"].append(tuple(ctl.path[:d]) + (i,))
            break
        cur = nxt
    return out


def _split(fam, want):
    """Cut the decision tree into at least `want` subtrees (if it is that big)."""
    units = [()]
    done = []
    while units and len(units) + len(done) < want:
        nxt = []
        for p in units:
            try:
                execute(fam, p, split=True)
                done.append(p)  # no choices left, and no ctl.go(): a leaf
            except _Leaf:
                done.append(p)
            except _Cut as c:
                nxt += [p + (i,) for i in range(c.nopts)]
        units = nxt
    return done + units


def known_findings(prop):
    """Lines 'finding: property=<id> key=<family>/<tag> <text>' of the file."""
    out = {}
    fn = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def run_check(prop, families, tier, assumptions=(), jobs=None, only=None):
    t0 = time.time()
    jobs = jobs or min(8, os.cpu_count() or 1)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = known_findings(prop)
    seen_known = {}
    unlisted = []
    total = dict(states=set(), execs=0, steps=0, compared=0, nodes=0)
    per_family = {}
    samples = []
    complete = True
    for fam in families:
        _FAMILIES[fam.name] = fam
    work = []
    for fam in families:
        if only and fam.name not in only:
            continue
        per_family[fam.name] = dict(
            bound=fam.bound, executions=0, decision_nodes=0, max_depth=0, work_units=0
        )
        try:
            units = _split(fam, 6 * jobs)
        except Exception as e:
            print("internal error while splitting", fam.name, repr(e))
            raise
        per_family[fam.name]["work_units"] = len(units)
        work += [(fam.name, p) for p in units]
    ctx = mp.get_context("fork")
    pool = ctx.Pool(jobs, maxtasksperchild=None)
    try:
        results = queue.SimpleQueue()
        pending = 0
        for w in work:
            pool.apply_async(_explore_unit, (w,), callback=results.put, error_callback=results.put)
            pending += 1
        while pending:
            out = results.get()
            pending -= 1
            if isinstance(out, BaseException):
                raise out
            pf = per_family[out["family"]]
            for p in out["rest"]:
                w = (out["family"], p)
                pool.apply_async(_explore_unit, (w,), callback=results.put, error_callback=results.put)
                pending += 1
                pf["work_units"] += 1
            pf["executions"] += out["execs"]
            pf["decision_nodes"] += out["nodes"]
            pf["max_depth"] = max(pf["max_depth"], out["maxdepth"])
            total["execs"] += out["execs"]
            total["steps"] += out["steps"]
            total["compared"] += out["compared"]
            total["nodes"] += out["nodes"]
            total["states"] |= out["digests"]
            complete = complete and out["complete"]
            if len([s for s in samples if s["family"] == out["family"]]) < 2:
                samples += [
                    dict(family=out["family"], decisions=s) for s in out["samples"]
                ]
            for tag, msg, path, log in out["viol"]:
                key = f"{out['family']}/{tag}"
                if key in known:
                    seen_known[key] = msg
                elif not any(u["key"] == key for u in unlisted):
                    unlisted.append(
                        dict(key=key, family=out["family"], path=path, log=log, msg=msg)
                    )
            if len(unlisted) >= MAX_REPORTS or any(
                u["key"].endswith("/no-termination") for u in unlisted
            ):
                complete = False
                break
    finally:
        pool.terminate()
        pool.join()

    for key, text in known.items():
        if key in seen_known:
            print(f"KNOWN-FINDING: property={prop} {key} {text}")
    replay_dir = os.path.join(VERIF, "evidence", "replay")
    for n, u in enumerate(unlisted):
        os.makedirs(replay_dir, exist_ok=True)
        fn = os.path.join(replay_dir, f"{prop}-{n}.json")
        with open(fn, "w") as f:
            json.dump(
                dict(
                    property=prop,
                    tier=tier,
                    family=u["family"],
                    key=u["key"],
                    choices=[int(i) for i in u["path"]],
                    decisions=u["log"],
                    message=u["msg"],
                    replay_cmd=f"bash /verif/run.sh {prop} {tier} --replay {fn}",
                ),
                f,
                indent=1,
                default=str,
            )
        print(f"{u['key']}: {u['msg']}")
        print("  decisions:", json.dumps(u["log"], default=str)[:600])
        print(f"VIOLATION property={prop} replay={fn}")
    wall = time.time() - t0
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=len(total["states"]),
            transitions=total["steps"],
            traces_validated_against_impl=total["execs"],
            decision_nodes=total["nodes"],
            values_compared_with_model=total["compared"],
            exhaustive=bool(complete and not only),
            families=per_family,
            samples=samples[:12],
            how=(
                "states: distinct observed states (digests of outputs / abstract "
                "states of the reference model); transitions: calls into the "
                "implementation; traces: complete executions of the implementation, "
                "each compared step by step with the reference model; every decision "
                "sequence within the bounds was executed"
            ),
        ),
        assumptions=list(assumptions),
        wall_s=round(wall, 3),
        violations=len(unlisted),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        f"{prop} {tier}: {total['execs']} executions, {len(total['states'])} states, "
        f"{total['steps']} calls, {total['compared']} comparisons, {wall:.1f} s, "
        f"{len(unlisted)} violations"
    )
    return 1 if unlisted else 0


def replay(families, fn):
    d = json.load(open(fn))
    fam = {f.name: f for f in families}[d["family"]]
    ctl, found = execute(fam, d["choices"])
    for name, val in ctl.log:
        print(f"  {name} = {val}")
    for tag, msg in found:
        print(f"{tag}: {msg}")
    if not found:
        print("no violation")
        return 0
    print(f"VIOLATION property={d['property']} replay={fn}")
    return 1
