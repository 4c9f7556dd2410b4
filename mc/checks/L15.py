from fractions import Fraction as F
from itertools import combinations, permutations
from math import atan2, gcd, isqrt

from .. import gen, lpref
from ..core import check
from ..lputil import raises, snap

TITLE = "graph_polyhedron()"
BOUNDS = ("Every set of 1 to 3 rows (thorough: 1 to 4, and every order of 3) out of 14 (parallel, opposite, redundant, zero, "
          "fractional, tenths, passing crossings at 0.01), all <= or all >=, in three windows, drawn by the real matplotlib (Agg) and read back from the figure; "
          "compared with the exact corners of the region. Programs with mixed or equality rows or another number of variables are refused. Polygons of 5 to 12 edges, of up to 32 edges and 64 rows. Regions with rows multiplied or divided by 1e3 to 1e6. A fixed selection of every family also by seven detours (the program copied, its last row or variable added later, another program handled first) with every query asked before.")
ASSUMPTIONS = ["the picture need not separate corners closer than 1e-5 of the window", "nothing is required of the picture when the region in the window is empty", "sign restrictions are not part of the picture"]

ROWS = [(1, 1, 2), (1, -1, 0), (2, 1, 5), (1, 3, 7), (-1, 2, 3), (0, 1, 2), (1, 0, -1), (0, 0, 1), (2, 2, 4), (1, 1, 3), (-1, -1, -2), (3, -2, 1), (-3, -1, 4), (0, -2, 1)]
TENTHS = [(1, 3, 3), (3, 1, 6), (1, -1, 0), (7, 1, 1), (-1, -3, -3)]

# lines passing close to each other's crossings, within the region and outside it
NEAR = [(100, 0, 100), (0, 100, 100), (100, 100, 199), (100, 100, 201), (100, -100, 1), (-100, 100, -1), (-100, -100, 1), (-100, 0, -1)]


def plain_families(tier):
    t = tier == "thorough"

    def sets(pool, sizes, windows, D=1, order=False):
        for k in sizes:
            for chosen in combinations(pool, k):
                for rows in (permutations(chosen) if order else [chosen]):
                    for rel in ("<=", ">="):
                        for w in windows:
                            yield {"p": gen.program([r[:2] for r in rows], [r[2] for r in rows], (1, 1), [rel] * k, "++", "max", 0, D), "window": w}

    def refused():
        for rel in (["<=", ">="], ["=", "<="], ["=", "="], [">=", "="]):
            yield {"p": gen.program([(1, 1), (1, -1)], [4, 1], (1, 1), rel, "++", "max"), "window": None}
        for n in (1, 3):
            yield {"p": gen.program([(1,) * n], [4], (1,) * n, ["<="], "+" * n, "max"), "window": None}

    return [
        ("refused", refused),
        ("small sets", lambda: sets(ROWS, (1, 2), (1000, 5, -3))),
        ("tenths", lambda: sets(TENTHS, (1, 2, 3), (1000, 2), 10)),
        ("triples", lambda: sets(ROWS, (3,), (1000, 4), order=t)),
        ("near misses", lambda: sets(NEAR, (3, 4), (50, 4), 100)),
        ("polygons", lambda: polygons(t)),
        ("many edges", lambda: many_edges(t)),
        ("quadruples", lambda: sets(ROWS, (4,), (10,)) if t else iter(())),
        ("magnitudes", lambda: magnitudes(sets, 1 if t else 9)),
    ]


def families(tier):
    fams = plain_families(tier)
    return fams + lpref.warmed(fams, 150 if tier == "thorough" else 30)


def magnitudes(sets, step):
    """The same regions with every row, or every other row, multiplied or divided."""
    pools = [sets(ROWS, (1, 2), (1000, 5, -3)), sets(ROWS, (3,), (1000, 4)), sets(NEAR, (3, 4), (50, 4), 100), polygons(False)]
    for pool in pools:
        for case in gen.every(pool, step):
            p = case["p"]
            for s in (1000, 10 ** 5, 10 ** 6):
                yield {**case, "p": {**p, "D": p["D"] * s}}
                yield {**case, "p": {**p, "A": [[v * s for v in r] for r in p["A"]], "b": [v * s for v in p["b"]]}}
            for odd in (0, 1):
                f = [10 ** 4 if i % 2 == odd else 1 for i in range(len(p["A"]))]
                yield {**case, "p": {**p, "D": p["D"] * 10 ** 4, "A": [[v * k for v in r] for r, k in zip(p["A"], f)], "b": [v * k for v, k in zip(p["b"], f)]}}


def polygons(t):
    """5 to 12 edges around a centre, in three orders, as upper or lower bounds."""
    normals = [(1, 0), (2, 1), (1, 1), (1, 2), (0, 1), (-1, 2), (-1, 1), (-2, 1), (-1, 0), (-2, -1), (-1, -1), (-1, -2), (0, -1), (1, -2), (1, -1), (2, -1)]
    for k in range(5, 13):
        for shift in range(0, 16, 1 if t else 4):
            some = [normals[(shift + i * 16 // k) % 16] for i in range(k)]
            for cx, cy in ((0, 0), (3, -2)):
                for order in (some, some[::-1], some[1::2] + some[::2]):
                    for room in (4, 7):
                        for s, rel in ((1, "<="), (-1, ">=")):
                            for w in (1000, 5):
                                rows = [(s * a, s * b, s * (a * cx + b * cy + room * max(abs(a), abs(b)))) for a, b in order]
                                yield {"p": gen.program([r[:2] for r in rows], [r[2] for r in rows], (1, 1), [rel] * k, "++", "max"), "window": w}


def many_edges(t):
    """Round regions of 16 to 32 edges, and the same with rows that do not count, written twice or doubled."""
    around = sorted({(a, b) for a in range(-3, 4) for b in range(-3, 4) if gcd(a, b) == 1}, key=lambda v: atan2(v[1], v[0]))
    for step in (2, 1) if not t else (3, 2, 1):
        some = around[::step]
        for cx, cy in ((0, 0), (3, -2)):
            for order in (some, some[::-1], some[1::2] + some[::2], some[::3] + some[1::3] + some[2::3]):
                for extra in ((), some[:5], some) if len(some) < 20 or t else ((), some[:5]):
                    for s, rel in ((1, "<="), (-1, ">=")):
                        for w in (20, 5) if t else (20 if len(order) > 20 else 5,):
                            rows = [(s * a, s * b, s * (10 * (a * cx + b * cy) + isqrt(2500 * (a * a + b * b)))) for a, b in order]
                            rows = [(10 * a, 10 * b, c) for a, b, c in rows] + [(20 * s * a, 20 * s * b, s * (20 * (a * cx + b * cy) + 2 * isqrt(2500 * (a * a + b * b)))) for a, b in extra[:5]]
                            rows += [(10 * s * a, 10 * s * b, s * (10 * (a * cx + b * cy) + 400)) for a, b in extra[5:]]
                            p = gen.program([r[:2] for r in rows], [r[2] for r in rows], (1, 1), [rel] * len(rows), "++", "max", 0, 10)
                            want = corners(p, w)
                            if all(max(abs(u[0] - v[0]), abs(u[1] - v[1])) > F(1, 1000) for u, v in zip(want, want[1:] + want[:1])):
                                yield {"p": p, "window": w}


def corners(p, w):
    """Exact corners of the region in the window, in boundary order."""
    sign = 1 if p["rel"][0] == "<=" else -1
    lines = [(sign * r[0], sign * r[1], sign * F(b)) for r, b in zip(p["A"], p["b"])]
    lines += [(1, 0, F(w)), (-1, 0, F(w)), (0, 1, F(w)), (0, -1, F(w))]
    points = set()
    for (a, b, c), (d, e, f) in combinations(lines, 2):
        det = a * e - b * d
        if det:
            x, y = (c * e - b * f) / F(det), (a * f - c * d) / F(det)
            if all(g * x + h * y <= k for g, h, k in lines):
                points.add((x, y))
    points = sorted(points)
    if len(points) < 3:
        return points

    def half(seq):
        out = []
        for q in seq:
            while len(out) >= 2 and (out[-1][0] - out[-2][0]) * (q[1] - out[-2][1]) - (out[-1][1] - out[-2][1]) * (q[0] - out[-2][0]) <= 0:
                out.pop()
            out.append(q)
        return out[:-1]
    hull = half(points) + half(points[::-1])
    check(len(hull) == len(points), "internal: corners not in convex position")
    return hull


def same(u, v):
    return abs(u[0] - v[0]) <= 1e-6 * (1 + abs(v[0])) and abs(u[1] - v[1]) <= 1e-6 * (1 + abs(v[1]))


def compact(points):
    """The cyclic sequence of points without immediate repetitions."""
    out = []
    for q in points:
        if not out or not same(out[-1], q):
            out.append(q)
    while len(out) > 1 and same(out[0], out[-1]):
        out.pop()
    return out


def matches(drawn, want):
    if len(drawn) != len(want):
        return False
    n = len(want)
    for seq in (want, want[::-1]):
        for k in range(n):
            if all(same(d, seq[(i + k) % n]) for i, d in enumerate(drawn)):
                return True
    return False


_shown = []


def run(case, ctx):
    from matplotlib import pyplot as plt
    plt.show = lambda *a, **k: _shown.append(1)
    p, w = case["p"], case["window"]
    lp = lpref.build(p)
    before = snap(lp)
    ctx.state(lpref.key(p), w)
    ctx.call()
    plt.close("all")
    try:
        if w is None:
            check(raises(ArithmeticError, lp.graph_polyhedron), "a program that cannot be drawn was accepted")
            check(snap(lp) == before, "a refused drawing changed the program")
            return
        want = corners(p, abs(w))
        if not want:
            try:
                lp.graph_polyhedron(w)
            except (Exception, SystemExit):  # noqa: B902
                pass
            ctx.note("empty region")
            check(snap(lp) == before, "drawing changed the program")
            return
        if w == 1000:
            lp.graph_polyhedron()
        else:
            lp.graph_polyhedron(w)
        check(snap(lp) == before, "drawing changed the program")
        patches = [q for f in plt.get_fignums() for a in plt.figure(f).axes for q in a.patches]
        lines = [q for f in plt.get_fignums() for a in plt.figure(f).axes for q in a.lines]
        check(len(patches) == 1, "{} filled polygons were drawn", len(patches))
        exact = [(float(x), float(y)) for x, y in want]
        for kind, data in [("polygon", q.get_xy()) for q in patches] + [("outline", q.get_xydata()) for q in lines]:
            drawn = compact([(float(x), float(y)) for x, y in data])
            check(matches(drawn, exact), "the {} has corners {}, the region {}", kind, drawn, exact)
        ctx.note(f"{min(len(want), 3)} or more corners")
    finally:
        plt.close("all")
