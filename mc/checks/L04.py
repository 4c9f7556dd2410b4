from fractions import Fraction as F
from itertools import product

from .. import gen, lpref, stub
from ..core import check

TITLE = "certificate verifiers"
BOUNDS = ("Every SEF program of the families crossed with every candidate vector of a grid (infeasibility and optimality: "
          "all of {-1,-1/2,0,1/2,1,2}^m or tenths; unboundedness: all points x rays of {0,1,2}^n x {-1,0,1,2}^n), lists and "
          "arrays, compared with exact arithmetic; candidates also scaled by 2^-16 and 2^8 and moved in one entry by 2^-12 or 2^-9. 2x11, 2x30 and 3x7 programs, Klee-Minty cubes, flows and assignments of up to 40 columns (certificates there: dual vectors of bases, rows of their inverses, basic solutions, edges leaving bases, their sums, and damaged ones). A fixed selection of every family also by seven detours (the program copied, its last row or variable added later, another program handled first) with every query asked before.")
ASSUMPTIONS = ["grid values make every tested quantity either exactly zero or at least 1e-5 in size"]


def plain_families(tier):
    t = tier == "thorough"
    return [
        ("1x2", lambda: gen.sef(1, 2, range(-2, 3), [(v,) for v in (-2, 0, 1)], [(1, 1), (1, -1), (-1, -2), (0, 0)])),
        ("2x2", lambda: gen.sef(2, 2, (-1, 0, 1, 2), [(1, 2), (-1, 1), (0, 0)] if t else [(-1, 1)], [(1, 1), (-1, 2)] if t else [(1, -1)])),
        ("tenths", lambda: gen.sef_lists([[(1, 2, 3), (3, 3, -3)], [(3, -1, -2), (1, 7, 1)], [(1, -3, 2), (-2, 6, -4)], [(1, 1, -2), (3, -3, 0)]],
                                         [(3, 3), (-1, 7), (0, -3), (6, 12)], [(1, 2, 3), (3, -1, -7), (-1, -2, -3), (1, 1, 1)], (5,), 10)),
        ("2x11", lambda: gen.sef_wide(2, 11, (0, 1, 2, 3, 4) if t else (0, 2), rotations=t)),
        ("3x7", lambda: gen.sef_wide(3, 7, (0, 1, 2), rotations=False)),
        ("2x30", lambda: ({**p, "large": True} for p in gen.sef_wide(2, 30, (0, 1, 2), bs=[(4, 7), (0, 0), (-3, 5)], rotations=False))),
        ("large", lambda: gen.every(gen.many_pivots(t, True), 1 if t else 2)),
        ("2x3", lambda: gen.sef(2, 3, (-1, 0, 1), [(1, -1), (0, 1)] if t else [(0, 1)], [(1, -1, 0)])),
    ]


def families(tier):
    fams = plain_families(tier)
    return fams + lpref.warmed(fams, 60 if tier == "thorough" else 12, ("2x11", "3x6", "many small rows"))


def candidates(p):
    """Points: basic solutions and their sums; directions: the edges leaving bases, their sums, and these bent or reversed."""
    m, n = len(p["b"]), len(p["c"])
    points, rays = [], []
    for B in lpref.bases(p["A"]):
        points.append(lpref.basic_solution(p["A"], p["b"], B))
        for j in range(n):
            if j not in B:
                d = lpref.basic_solution(p["A"], [-r[j] for r in p["A"]], B)
                d[j] = F(1)
                rays.append(d)
    good = [x for x in points if min(x) >= 0][:5]
    bad = [x for x in points if min(x) < 0][:4]
    up = [d for d in rays if min(d) >= 0][:12]
    down = [d for d in rays if min(d) < 0][:12]
    bent = [[v + (F(1, 2) if k == j else 0) for k, v in enumerate(d)] for d in up[:2] for j in range(n)]
    xs = good + bad + [[(u + v) / 2 for u, v in zip(good[0], x)] for x in good[1:]] + [[v + (F(1, 2) if k == j else 0) for k, v in enumerate(x)] for x in good[:1] for j in range(n)]
    sums = [[u + v for u, v in zip(d, e)] for d, e in zip(up, up[1:])]
    return xs, up + down + sums + bent + [[-v for v in d] for d in up[:3]] + [[F(0)] * n]


def near(lp, p, ctx, np, cols, y, k):
    """The same vector scaled far down and up, and moved in one entry by 1/4096: judged exactly like the others."""
    powers = [F(1, 65536), F(256)]
    for v in [[s * e for e in y] for s in powers] + [[e + (s if i == j else 0) for i, e in enumerate(y)] for j in range(len(y)) for s in (F(1, 4096), F(-1, 4096))]:
        yA = [sum(a * e for a, e in zip(col, v)) for col in cols]
        farkas = all(e >= 0 for e in yA) and sum(a * e for a, e in zip(p["b"], v)) < 0
        dual = all(e >= c for e, c in zip(yA, p["c"]))
        fv = [float(e) for e in v]
        got = lp.verify_infeasibility(fv if k % 2 else np.array(fv), show_steps=False)
        check(bool(got) == farkas, "verify_infeasibility({}) is {}, Farkas certificate: {}", fv, got, farkas)
        got = lp.verify_optimality(fv if k % 2 else np.array(fv), show_steps=False)
        check(bool(got) == dual, "verify_optimality({}) is {}, dual feasible: {}", fv, got, dual)
        ctx.call(2)


def judge_ray(lp, p, ctx, x, d):
    """One point and one direction, exactly."""
    feasible = min(x) >= 0 and all(sum(a * v for a, v in zip(r, x)) == b for r, b in zip(p["A"], p["b"]))
    ray = min(d) >= 0 and all(sum(a * v for a, v in zip(r, d)) == 0 for r in p["A"]) and sum(c * v for c, v in zip(p["c"], d)) > 0
    fx, fd = [float(v) for v in x], [float(v) for v in d]
    got = lp.verify_unboundedness(fx, fd, show_steps=False)
    ctx.call()
    check(bool(got) == (feasible and ray), "verify_unboundedness({}, {}) is {}, feasible point: {}, improving ray: {}", fx, fd, got, feasible, ray)


def run_large(p, ctx):
    """Vectors made from bases (one beginning at every column), units and sums, each moved in one entry; judged exactly by definition."""
    lp = lpref.build(p)
    m, n = len(p["b"]), len(p["c"])
    cols = [[r[j] for r in p["A"]] for j in range(n)]
    ctx.state(lpref.key(p))
    bases = lpref.some_bases(p["A"], max(1, n // 10))
    ys = [[F(0)] * m, [F(1)] * m, [F(-1)] * m] + [[F(s if i == k else 0) for i in range(m)] for k in range(m) for s in (1, -1)]
    for B in bases:
        y = lpref.solve_square([cols[j] for j in B], [p["c"][j] for j in B])
        ys += [y] + [[v + (s if i == k else 0) for i, v in enumerate(y)] for k in (0, m // 2, m - 1) for s in (F(1, 16), F(-1, 16), 8)]
        for k in range(m):  # rows of the inverse: signs of a Farkas certificate
            r = lpref.solve_square([cols[j] for j in B], [F(int(i == k)) for i in range(m)])
            ys += [r, [-v for v in r]]
    best = lpref.status_by_certificate(p)
    if best[0] != "unbounded":
        y = certificate(p, best[0])
        if y is not None:
            ys += [y] + [[v + (s if i == k else 0) for i, v in enumerate(y)] for k in range(m) for s in (F(1, 64), F(-1, 64))]
    for y in ys:
        yA = [sum(a * v for a, v in zip(col, y)) for col in cols]
        fy = [float(v) for v in y]
        if any(F(v) != w for v, w in zip(fy, y)):
            near_zero = any(v != 0 and abs(v) < F(1, 10 ** 6) for v in yA + [a - c for a, c in zip(yA, p["c"])] + [sum(b * v for b, v in zip(p["b"], y))])
            if near_zero:
                continue
        farkas = min(yA) >= 0 and sum(b * v for b, v in zip(p["b"], y)) < 0
        dual = all(v >= c for v, c in zip(yA, p["c"]))
        ctx.note(("dual feasible" if dual else "no bound") + (", farkas" if farkas else ""))
        got = lp.verify_infeasibility(fy, show_steps=False)
        check(bool(got) == farkas, "verify_infeasibility({}) is {}, Farkas certificate: {}", fy, got, farkas)
        got = lp.verify_optimality(fy, show_steps=False)
        check(bool(got) == dual, "verify_optimality({}) is {}, dual feasible: {}", fy, got, dual)
        ctx.call(2)
    points = [lpref.basic_solution(p["A"], p["b"], B) for B in bases]
    for B, x in zip(bases, points):
        for j in [j for j in range(n) if j not in B][::max(1, n // 10)]:
            d = lpref.basic_solution(p["A"], [-r[j] for r in p["A"]], B)
            d[j] = F(1)
            if all(F(float(v)) == v for v in x + d):
                for v in (d, [-u for u in d], [u + F(int(i == n - 1)) for i, u in enumerate(d)]):
                    judge_ray(lp, p, ctx, x, v)
                judge_ray(lp, p, ctx, [u + F(int(i == n - 1)) for i, u in enumerate(x)], d)


def certificate(p, status):
    """An exact dual optimum or Farkas vector of the program, from the library's answer made exact on its basis; None if that is no certificate."""
    if status == "infeasible":
        return None
    lp = lpref.build(p)
    x, basis, _ = lp.two_phase_simplex(show_steps=False)
    B = [int(j) - 1 for j in basis]
    return lpref.solve_square([[r[j] for r in p["A"]] for j in B], [p["c"][j] for j in B]) if len(B) == len(p["b"]) else None


def run(p, ctx):
    import numpy as np
    stub.fast_steps()
    if "large" in p:
        return run_large(p, ctx)
    lp = lpref.build(p)
    m, n = len(p["b"]), len(p["c"])
    ctx.state(lpref.key(p))
    cols = [[r[j] for r in p["A"]] for j in range(n)]
    if p["D"] == 1:
        grid = [F(-1), F(-1, 2), F(0), F(1, 2), F(1), F(2)]
    else:
        grid = [F(-7, 10), F(-3, 10), F(-1, 10), F(0), F(1, 10), F(1, 5), F(3, 10), F(1)]
    for k, y in enumerate(product(grid, repeat=m)):
        yA = [sum(a * v for a, v in zip(col, y)) for col in cols]
        yb = sum(a * v for a, v in zip(p["b"], y))
        farkas = all(v >= 0 for v in yA) and yb < 0
        dual = all(v >= c for v, c in zip(yA, p["c"]))
        fy = [float(v) for v in y]
        arg = np.array(fy) if k % 2 else fy
        got = lp.verify_infeasibility(arg, show_steps=bool(k % 3))
        check(bool(got) == farkas, "verify_infeasibility({}) is {}, Farkas certificate: {}", fy, got, farkas)
        got = lp.verify_optimality(arg, show_steps=bool(k % 3))
        check(bool(got) == dual, "verify_optimality({}) is {}, dual feasible: {}", fy, got, dual)
        ctx.call(2)
        if not k % 7 or n <= 3 and (farkas or dual):
            near(lp, p, ctx, np, cols, y, k)
    if p["D"] == 1:
        xs, ds = product((0, 1, 2), repeat=n), list(product((-1, 0, 1, 2), repeat=n))
        den = 1
    else:
        xs, ds = product((0, 1, 2, 10), repeat=n), list(product((-3, 0, 1, 3), repeat=n))
        den = 10
    if n > 4:
        xs, ds, den = *candidates(p), 1
    for x in xs:
        feasible = min(x) >= 0 and all(sum(a * v for a, v in zip(r, x)) == b * den for r, b in zip(p["A"], p["b"]))
        if n <= 4 and not feasible and any(v == 2 for v in x):
            continue  # infeasible points: those over {0, 1} (and 10) suffice
        for k, d in enumerate(ds):
            ray = (all(v >= 0 for v in d) and all(sum(a * v for a, v in zip(r, d)) == 0 for r in p["A"])
                   and sum(c * v for c, v in zip(p["c"], d)) > 0)
            if not feasible and not ray:
                continue
            fx, fd = [float(v) / den for v in x], [v / 10 if den == 10 else float(v) for v in d]
            got = lp.verify_unboundedness(np.array(fx) if k % 2 else fx, np.array(fd) if k % 3 else fd, show_steps=bool(k % 2))
            ctx.call()
            check(bool(got) == (feasible and ray), "verify_unboundedness({}, {}) is {}, feasible point: {}, improving ray: {}",
                  fx, fd, got, feasible, ray)
            if feasible and ray and p["D"] == 1 and (n <= 3 or k < 6):
                for s in (F(1, 65536), F(256)):
                    judge_ray(lp, p, ctx, [F(v) for v in x], [s * v for v in d])
                for j in range(n):
                    for s in (F(1, 512), F(-1, 512)):
                        judge_ray(lp, p, ctx, [F(v) for v in x], [v + (s if i == j else 0) for i, v in enumerate(d)])
                        judge_ray(lp, p, ctx, [v + (s if i == j else 0) for i, v in enumerate(x)], [F(v) for v in d])
    for op in ("verify_infeasibility", "verify_optimality"):
        q = lpref.build(dict(p, rel=["<="] * m))
        try:
            getattr(q, op)([0.0] * m)
        except ArithmeticError:
            continue
        check(False, "{} accepted a program that is not in standard equality form", op)
