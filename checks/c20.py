"""smooth: corners of closed lines are rounded, wherever the arrays start."""

import numpy as np

from mc.engine import Family
from zoidberg.smooth import find_outliers, smooth

ASSUMPTIONS = ["closed lines with evenly spaced points and corners that are further apart than the range of smoothing"]

SHAPES = {
    "square": [(0, 0), (1, 0), (1, 1), (0, 1)],
    "rect": [(0, 0), (2, 0), (2, 1), (0, 1)],
    "L": [(0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2)],
    "triangle": [(0, 0), (1, 0), (0.5, 3**0.5 / 2)],
    "diamond": [(2, 0), (0, 1), (-2, 0), (0, -1)],
    "drop": None,
    "hexagon": [(np.cos(a), np.sin(a)) for a in np.arange(6) * np.pi / 3],
    "circle": None,
}


def points(name, per):
    if name == "circle":
        t = np.arange(6 * per) * 2 * np.pi / (6 * per)
        return 3 + np.cos(t), np.sin(t)
    if name == "drop":
        # a circle with a single corner at (1 + sqrt(2), 0)
        n = int(round(per * 1.5 * np.pi / 1.5))
        a = np.pi / 4 + np.arange(n) * 1.5 * np.pi / n
        x, z = list(np.cos(a)), list(np.sin(a))
        m = int(round(n / (1.5 * np.pi)))
        p0, tip, p1 = np.array([0.5**0.5, -(0.5**0.5)]), np.array([2**0.5, 0]), np.array([0.5**0.5, 0.5**0.5])
        for u, v in ((p0, tip), (tip, p1)):
            for i in range(m):
                q = u + (v - u) * i / m
                x.append(q[0])
                z.append(q[1])
        return 3 + np.array(x), np.array(z)
    v = SHAPES[name]
    r, z = [], []
    for i, a in enumerate(v):
        b = v[(i + 1) % len(v)]
        k = per * int(round(np.hypot(b[0] - a[0], b[1] - a[1])))
        for j in range(k):
            r.append(a[0] + (b[0] - a[0]) * j / k)
            z.append(a[1] + (b[1] - a[1]) * j / k)
    return 3 + np.array(r), np.array(z)


def corners(r, z, cutoff, b):
    """The definition: the cosine of the angle at p between the directions to
    the points one and two ranges before it"""
    n = len(r)
    out = set()
    for i in range(n):
        p1, p2, p3 = (np.array([r[j % n], z[j % n]]) for j in (i, i - b, i - 2 * b))
        u, v = p1 - p2, p1 - p3
        c = np.dot(u, v) / np.sqrt(np.dot(u, u) * np.dot(v, v))
        if c < cutoff:
            out.add((i - b) % n)
    return out


_cache = {}


def base(name, per, cutoff, bounds, find, frame):
    """Smoothed with the arrays starting in the middle of a side"""
    key = (name, per, cutoff, bounds, find, frame)
    if key not in _cache:
        r, z = points(name, per)
        m = per // 2
        r0, z0 = apply(frame, r, z)
        a, b = smooth(np.roll(r0, -m), np.roll(z0, -m), cutoff=cutoff, bounds=bounds, bounds_find=find)
        _cache[key] = np.roll(a, m), np.roll(b, m)
    return _cache[key]


def apply(frame, r, z):
    if frame == "turned":
        return -z, r
    if frame == "shifted":
        return r + 5.0, z - 11.0
    return r, z


def start(ctl, names, pers, bnds, cutoffs, step):
    """Every start of the arrays"""
    name = ctl.choose("shape", names)
    per = ctl.choose("points per unit", pers)
    bounds = ctl.choose("bounds", bnds)
    find = ctl.choose("bounds_find", [None, bounds - 1])
    cutoff = ctl.choose("cutoff", cutoffs)
    r, z = points(name, per)
    n = len(r)
    k = ctl.choose("start", range(0, n, step))
    frame = ctl.choose("frame", ["as is", "turned", "shifted"] if k % 7 == 0 else ["as is"])
    ctl.go()
    r1, z1 = apply(frame, r, z)
    R, Z = np.roll(r1, -k), np.roll(z1, -k)
    Rk, Zk = R.copy(), Z.copy()
    out = smooth(R, Z, cutoff=cutoff, bounds=bounds, bounds_find=find)
    ctl.step()
    ctl.check(np.array_equal(R, Rk) and np.array_equal(Z, Zk), "input-modified")
    ctl.check(out is not None, "failed", "None returned")
    a, b = (np.roll(v, k) for v in out)
    ctl.check(a.shape == r.shape and b.shape == r.shape, "size")
    # which points may change?
    cs = set()
    for d in range(1, (find or bounds) + 1):
        cs |= corners(r, z, cutoff, d)
    win = {(c + d) % n for c in cs for d in range(-bounds, bounds + 1)}
    keep = np.array([i for i in range(n) if i not in win], dtype=int)
    ctl.check(len(keep) > 0, "internal-all-points")
    ctl.close(a[keep], r1[keep], "moved-R", atol=1e-12, rtol=0)
    ctl.close(b[keep], z1[keep], "moved-Z", atol=1e-12, rtol=0)
    if not cs:
        ctl.check(np.array_equal(a, r1) and np.array_equal(b, z1), "changed-without-corner")
    # wherever the arrays start
    ba, bb = base(name, per, cutoff, bounds, find, "as is")
    ba, bb = apply(frame, ba, bb)
    ctl.close(a, ba, "depends-on-start-R", atol=2e-5, rtol=0)
    ctl.close(b, bb, "depends-on-start-Z", atol=2e-5, rtol=0)
    # the corners are gone, and the line has no jumps
    for c in cs:
        near = [(c + d) % n for d in range(-bounds, bounds + 1)]
        turn0 = max(turn(r1, z1, i) for i in near)
        turn1 = max(turn(a, b, i) for i in near)
        ctl.check(turn1 < turn0 * 0.75, "still-sharp", f"turned {turn0} before and {turn1} after at {c}")
    gap = np.hypot(a - np.roll(a, 1), b - np.roll(b, 1))
    gap0 = np.hypot(r - np.roll(r, 1), z - np.roll(z, 1))
    ctl.check(np.max(gap) < 3.1 * np.max(gap0) and np.min(gap) > np.min(gap0) / 4, "gap", f"{np.min(gap)} {np.max(gap)} {np.max(gap0)}")
    ctl.see(a, b)


def turn(r, z, i):
    n = len(r)
    u = np.array([r[i] - r[i - 1], z[i] - z[i - 1]])
    v = np.array([r[(i + 1) % n] - r[i], z[(i + 1) % n] - z[i]])
    return abs(np.arctan2(u[0] * v[1] - u[1] * v[0], np.dot(u, v)))


def outliers(ctl, names, pers, bnds, cutoffs):
    name = ctl.choose("shape", names)
    per = ctl.choose("points per unit", pers)
    bounds = ctl.choose("bounds", bnds)
    cutoff = ctl.choose("cutoff", cutoffs)
    rev = ctl.flag("reversed")
    k = ctl.choose("start", range(len(points(name, per)[0])))
    ctl.go()
    r, z = (np.roll(v, -k) for v in points(name, per))
    if rev:
        r, z = r[::-1].copy(), z[::-1].copy()
    got = find_outliers(r, z, cutoff=cutoff, bounds=bounds)
    ctl.step()
    n = len(r)
    g = {int(i) % n for i in got}
    lo, hi = corners(r, z, cutoff - 1e-9, bounds), corners(r, z, cutoff + 1e-9, bounds)
    ctl.check(lo <= g <= hi, "corners", f"{sorted(g)}, expected {sorted(hi)}")
    ctl.see(sorted(g))


def families(tier):
    t = tier != "quick"
    names = ["square", "rect", "L", "triangle", "diamond", "drop", "hexagon", "circle"]
    return [
        Family("start", start, "%d shapes, every start of the arrays" % (8 if t else 6), names=names if t else ["square", "L", "triangle", "drop", "hexagon", "circle"], pers=[20, 24, 30] if t else [20],
               bnds=[3, 4, 5] if t else [4], cutoffs=[0.75, 0.9] if t else [0.75], step=1),
        Family("outliers", outliers, "corners found in 8 shapes, both orientations, every start", names=names, pers=[6, 10] if t else [6],
               bnds=[1, 2, 3, 4] if t else [1, 2, 3], cutoffs=[0.75, 0.9, 0.99] if t else [0.75, 0.96]),
    ]
