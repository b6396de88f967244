"""Lines from unordered points: every order of the points gives the same line."""

import numpy as np

from mc.engine import Family
from zoidberg import rzline

ASSUMPTIONS = [
    "points sampled from a closed line so that neighbours on the line are closest to each other; "
    "the variants that need it only get points on a convex line",
    "line_from_points_alphashape needs a package that is not installed, and is not explored",
]

TP = 2 * np.pi


def curve(name, n):
    t = np.arange(n) * TP / n
    if name == "circle":
        return 2 + np.cos(t), np.sin(t)
    if name == "offset":
        t = t + 0.3
        return 2 + np.cos(t), -1 + np.sin(t)
    if name == "ellipse":
        t = t + 0.1
        return 1 + 0.8 * np.cos(t), 1.2 * np.sin(t)
    if name == "wobbly":
        t = t + 0.12 * np.sin(2 * t)
        return 3 + np.cos(t), np.sin(t)
    if name == "bean":
        r = 1 - 0.25 * np.cos(t)
        return 3 + r * np.cos(t), r * np.sin(t)
    raise KeyError(name)


FN = {
    "nearest": rzline.line_from_points,
    "fast": rzline.line_from_points_fast,
    "two_opt": rzline.line_from_points_two_opt,
    "hull": rzline.line_from_points_convex_hull,
}


def judge(ctl, ln, r, z, k):
    n = len(r)
    ctl.check(ln.R.shape == (n,) and ln.Z.shape == (n,), "size", f"{ln.R.shape} from {n} points")
    for i in range(n):
        if np.allclose(np.roll(ln.R, -i), r, atol=1e-12) and np.allclose(np.roll(ln.Z, -i), z, atol=1e-12):
            break
    else:
        ctl.fail("order", f"R={ln.R.tolist()} Z={ln.Z.tolist()}")
    ctl.check(ln.spline_order == (k or 3), "spline_order", str(ln.spline_order))
    R, Z = ln.position()
    ctl.close(R, ln.R, "line-R", atol=1e-9)
    ctl.close(Z, ln.Z, "line-Z", atol=1e-9)


def poly_reference(R, Z):
    """Insert into the nearest edge. None if it is not clear which one that is"""

    def orient(p):
        q = np.array(p)
        a = np.sum(q[:, 0] * np.roll(q[:, 1], -1) - np.roll(q[:, 0], -1) * q[:, 1])
        if abs(a) < 1e-3:
            return None
        return list(p) if a > 0 else list(p)[::-1]

    pts = [np.array(v) for v in zip(R, Z)]
    cur = pts[:3]
    for p in pts[3:]:
        cur = orient(cur)
        if cur is None:
            return None
        d = []
        for i, a in enumerate(cur):
            e = cur[(i + 1) % len(cur)] - a
            s = np.clip(np.dot(p - a, e) / np.dot(e, e), 0, 1)
            d.append(np.hypot(*(a + s * e - p)))
        i = int(np.argmin(d))
        if sorted(d)[1] < 1.03 * d[i] + 1e-6:
            return None
        dv = [np.hypot(*(v - p)) for v in cur]
        near = {k for k, v in enumerate(dv) if v <= min(dv) * 1.0001}
        if not near <= {i, (i + 1) % len(cur)}:
            return None  # only edges next to the nearest point are looked at
        cur.insert(i + 1, p)
    cur = orient(cur)
    return None if cur is None else np.array(cur).T


def insertion(ctl, names, ns, ks):
    name = ctl.choose("line", names)
    n = ctl.choose("n", ns)
    k = ctl.choose("spline_order", ks)
    lists = ctl.flag("lists")
    left = list(range(n))
    perm = []
    for i in range(n):
        j = ctl.choose(f"point {i}", left)
        left.remove(j)
        perm.append(j)
    ctl.go()
    r, z = curve(name, n)
    R, Z = r[perm], z[perm]
    want = poly_reference(R, Z)
    if lists:
        R, Z = R.tolist(), Z.tolist()
    try:
        ln = rzline.line_from_points_poly(R, Z, **({} if k is None else dict(spline_order=k)))
    except AssertionError:
        if want is None:
            return  # a polygon without area
        raise
    ctl.step()
    ctl.check(np.array_equal(R, r[perm]) and np.array_equal(Z, z[perm]), "input-modified")
    got = sorted(zip(ln.R, ln.Z))
    ctl.close(np.array(got), np.array(sorted(zip(r, z))), "points", atol=1e-12)
    ctl.check(np.sum(ln.R * np.roll(ln.Z, -1) - np.roll(ln.R, -1) * ln.Z) > -1e-9, "clockwise")
    ctl.check(ln.spline_order == (k or 3), "spline_order")
    if want is not None:
        judge(ctl, ln, *want, k)
    ctl.see(ln.R, ln.Z, want is None)


def orders(ctl, fns, names, ns, ks):
    fn = ctl.choose("function", fns)
    name = ctl.choose("line", names)
    n = ctl.choose("n", ns)
    k = ctl.choose("spline_order", ks)
    left = list(range(n))
    perm = []
    for i in range(n):
        j = ctl.choose(f"point {i}", left)
        left.remove(j)
        perm.append(j)
    ctl.go()
    r, z = curve(name, n)
    R, Z = r[perm], z[perm]
    Rk, Zk = R.copy(), Z.copy()
    kw = {} if k is None else dict(spline_order=k)
    ln = FN[fn](R, Z, **kw)
    ctl.step()
    ctl.check(np.array_equal(R, Rk) and np.array_equal(Z, Zk), "input-modified")
    judge(ctl, ln, r, z, k)
    ctl.see(ln.R, ln.Z)


def bigger(ctl, fns, names, ns):
    """Structured orders of more points: every rotation and stride, both ways,
    and every transposition"""
    fn = ctl.choose("function", fns)
    name = ctl.choose("line", names)
    n = ctl.choose("n", ns)
    kind = ctl.choose("kind", ["stride", "swap"])
    if kind == "stride":
        s = ctl.choose("stride", [s for s in range(1, n) if np.gcd(s, n) == 1])
        o = ctl.choose("start", range(n))
        perm = [(o + s * i) % n for i in range(n)]
    else:
        i = ctl.choose("i", range(n - 1))
        j = ctl.choose("j", range(i + 1, n))
        perm = list(range(n))
        perm[i], perm[j] = j, i
    lists = ctl.flag("lists") if fn in ("nearest",) else False
    ctl.go()
    r, z = curve(name, n)
    R, Z = r[perm], z[perm]
    if lists:
        R, Z = R.tolist(), Z.tolist()
    ln = FN[fn](R, Z)
    ctl.step()
    judge(ctl, ln, r, z, None)
    ctl.see(ln.R, ln.Z)


def neighbour_path(P, start):
    left = [i for i in range(len(P)) if i != start]
    path = [start]
    while left:
        d = [np.hypot(*(P[i] - P[path[-1]])) for i in left]
        s = sorted(d)
        if len(s) > 1 and s[1] < s[0] * (1 + 1e-6):
            return None  # not clear which one is the closest
        path.append(left.pop(int(np.argmin(d))))
    return path


_starts = {}


def good_starts(name, gaps):
    """The starts from which going to the closest point follows the line"""
    key = name, gaps
    if key not in _starts:
        t = np.cumsum([0] + list(gaps))
        t = 0.2 + t[:-1] * TP / t[-1]
        if name == "flat":
            P = np.array([3 + 2.5 * np.cos(t), np.sin(t)]).T
        else:
            P = np.array([1 + 0.8 * np.cos(t), 1.2 * np.sin(t)]).T
        n = len(P)
        good = []
        for s in range(n):
            path = neighbour_path(P, s)
            if path is None:
                continue
            d = np.diff(path + [s]) % n
            if np.all(d == 1) or np.all(d == n - 1):
                good.append(s)
        _starts[key] = P, good
    return _starts[key]


def uneven(ctl, names, ns, steps, dup):
    """Uneven distances: not every start gives the line, but the shortest of all
    of them is it. Every pattern of distances, every rotation of the points."""
    name = ctl.choose("line", names)
    n = ctl.choose("n", ns)
    gaps = tuple(ctl.choose(f"gap {i}", steps) for i in range(n))
    P, good = good_starts(name, gaps)
    if not 0 < len(good) < n:
        ctl.go()
        return
    o = ctl.choose("rotation", range(n))
    rev = ctl.flag("reversed") if dup else False
    ctl.go()
    perm = [(i + o) % n for i in range(n)]
    if rev:
        perm = perm[::-1]
    # The polygon in this order is convex, so it is the shortest one
    ln = rzline.line_from_points(P[perm, 0], P[perm, 1], spline_order=1)
    ctl.step()
    judge(ctl, ln, *P.T, 1)
    ctl.see(gaps, o, ln.R)


def presorted(ctl, names, ns):
    """is_sorted keeps the order, even of lines for which sorting would fail"""
    name = ctl.choose("line", names)
    n = ctl.choose("n", ns)
    o = ctl.choose("start", range(max(ns)))
    rev = ctl.flag("reversed")
    k = ctl.choose("spline_order", [None, 1, 3])
    ctl.go()
    if name == "comb":
        # nearest neighbours are on the other side
        m = n // 2
        r = np.concatenate([np.arange(m) * 1.0, np.arange(n - m)[::-1] * 1.0])
        z = np.concatenate([np.zeros(m), np.full(n - m, 0.1)])
    else:
        r, z = curve(name, n)
    R, Z = np.roll(r, o), np.roll(z, o)
    if rev:
        R, Z = R[::-1].copy(), Z[::-1].copy()
    ln = rzline.line_from_points(R, Z, is_sorted=True, spline_order=k)
    ctl.step()
    judge(ctl, ln, r, z, k)
    ctl.see(ln.R, ln.Z)


def families(tier):
    t = tier != "quick"
    return [
        Family("orders", orders, "all orders of 4-%d points on 5 lines, 5 algorithms" % (7 if t else 6),
               fns=["nearest", "fast", "two_opt"], names=["circle", "offset", "ellipse", "wobbly"],
               ns=[4, 5, 6, 7] if t else [4, 5, 6], ks=[None, 1] if t else [None, 1]),
        Family("insertion", insertion, "all orders of 4-%d points, the insertion algorithm against its definition" % (7 if t else 6),
               names=["circle", "offset", "ellipse", "wobbly", "bean"], ns=[4, 5, 6, 7] if t else [4, 5, 6], ks=[None, 1]),
        Family("hull", orders, "all orders of 4-%d points on convex lines" % (7 if t else 6), fns=["hull"],
               names=["circle", "offset", "ellipse", "wobbly"], ns=[4, 5, 6, 7] if t else [4, 5, 6], ks=[None, 1]),
        Family("bean", orders, "all orders of points of a line that is not convex", fns=["nearest", "fast", "two_opt"],
               names=["bean"], ns=[6, 7, 8] if t else [6, 7], ks=[None]),
        Family("bigger", bigger, "all rotations, strides and transpositions of %s points" % ("12-24" if t else "12-16"),
               fns=["nearest", "fast", "two_opt", "hull"], names=["circle", "offset", "ellipse", "wobbly"], ns=[12, 16, 17, 24] if t else [12, 16]),
        Family("long", bigger, "all rotations, strides and transpositions of 37 points", fns=["nearest", "fast", "hull"],
               names=["circle", "wobbly"], ns=[37]),
        Family("uneven", uneven, "all patterns of distances between %s points, all rotations" % ("8-11" if t else "8-10"),
               names=["flat", "tall"] if t else ["flat"], ns=[8, 9, 10, 11] if t else [8, 10], steps=[1, 3], dup=t),
        Family("sorted", presorted, "is_sorted", names=["circle", "bean", "comb"], ns=[8, 11, 12]),
    ]
