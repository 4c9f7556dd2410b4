from .. import gen, lpref, stub
from ..core import check

TITLE = "two_phase_simplex(): certified outcomes"
BOUNDS = ("All standard-equality-form programs with 1x2, 1x3, 2x2, 2x3 (and 2x4, 3x4) small integer data, 3x5 and 4x6 lists "
          "with every row sign and column order, dependent rows in every order, near ties, tenths, cycling examples. "
          "Every certificate is recomputed from its definition against the program data; true status from exact elimination. Programs with all or some of their numbers multiplied or divided by 1000, and of 10 to 12 rows with small coefficients. Programs of 2 to 5 rows and 10 to 12 columns. Up to 32 columns most of which are parallel. Programs that take dozens of pivots: Klee-Minty cubes, boxes, flows, shortest paths, assignments and transports with up to 40 columns. A fixed selection of every family also by seven detours (the program copied, its last row or variable added later, another program handled first) with every query asked before.")
ASSUMPTIONS = ["certificates are compared with tolerance 1e-6"]


def magnitudes(t):
    ways = ("x1000", "/1000", "rows", "b", "c", "A")
    c3 = [(1, 1, 1), (1, -1, 2), (-1, 0, -1), (0, 0, 1)]
    yield from gen.scaled(gen.every(gen.sef(2, 3, (-1, 0, 1), [(0, 0), (1, 2), (-1, 1), (0, -1), (2, 0)], c3, (0,)), 5 if t else 31), ways)
    yield from gen.scaled(gen.every(gen.sef_dependent(), 1 if t else 5), ways)
    yield from gen.scaled(gen.cycling(sef_form=True, rowperms=False), ways)
    yield from gen.scaled(gen.sef_lists(gen.SEF35, [(0, 0, 0), (1, 2, 3), (2, 2, 2)], [(1, 1, 1, 1, 1), (1, -1, 2, 0, -1)], (0,), rowsigns=t), ways)


def plain_families(tier):
    t = tier == "thorough"
    c3 = [(1, 1, 1), (1, -1, 2), (-1, 0, -1), (0, 0, 1)]
    fams = [
        ("1x2", lambda: gen.sef(1, 2, range(-2, 3), [(v,) for v in range(-2, 3)], [(1, 1), (1, -1), (-1, -2), (0, 1), (2, -1)], (0, 3))),
        ("1x3", lambda: gen.sef(1, 3, range(-1, 3), [(v,) for v in (-1, 0, 2)], c3, (1,))),
        ("2x2", lambda: gen.sef(2, 2, range(-1, 3), [(u, v) for u in (-1, 0, 2) for v in (0, 1)], [(1, 1), (1, -1), (-1, -1)], (0,))),
        ("2x3", lambda: gen.sef(2, 3, (-1, 0, 1), [(0, 0), (1, 2), (-1, 1), (0, -1), (2, 0)], c3 if t else c3[:2], (0,))),
        ("cycling", lambda: gen.cycling(sef_form=True, rowperms=t)),
        ("dependent", lambda: gen.sef_dependent()),
        ("near ties", lambda: gen.sef_near_ties()),
        ("decimals", lambda: gen.sef_decimals()),
        ("3x5 lists", lambda: gen.sef_lists(gen.SEF35, [(0, 0, 0), (1, 2, 3), (1, 0, 0), (0, 2, 1), (2, 2, 2)],
                                            [(1, 1, 1, 1, 1), (1, -1, 2, 0, -1), (-1, -1, -1, -1, -1)], (0,), rowsigns=True)),
        ("3x5 permuted", lambda: gen.sef_lists(gen.SEF35, [(0, 0, 0), (1, 0, 1)] if t else [(0, 0, 0)], [(1, -1, 2, 0, -1)], (0,), colperms=True)),
        ("4x6 lists", lambda: gen.sef_lists(gen.SEF46, [(0, 0, 0, 0), (1, 2, 3, 1), (1, 0, 0, 0), (0, 1, 1, 0), (2, 2, 2, 4)],
                                            [(1, 1, 1, 1, 1, 1), (1, -1, 2, 0, -1, 1), (-1, -1, -1, -1, 0, -1)], (0,), rowsigns=True)),
        ("3x4 binary", lambda: gen.sef(3, 4, (0, 1), [(0, 0, 0), (1, 1, 1)] if t else [(0, 0, 1)], [(1, 2, -1, 1)], (0,))),
        ("2x11", lambda: gen.sef_wide(2, 11)),
        ("3x10", lambda: gen.sef_wide(3, 10, rotations=t)),
        ("4x11", lambda: gen.sef_wide(4, 11, rotations=t)),
        ("5x12", lambda: gen.sef_wide(5, 12, rotations=t)),
        ("parallel columns", lambda: gen.sef_parallel(((3, 4), (5, 13), (8, 18), (12, 20)) if t else ((3, 9), (8, 18)))),
        ("other magnitudes", lambda: magnitudes(t)),
        ("many pivots", lambda: gen.many_pivots(t, True)),
        ("many small rows", lambda: gen.small_diagonals((10, 11, 12) if t else (10, 12), True)),
        ("2x4", lambda: gen.sef(2, 4, (-1, 0, 1), [(0, 0), (1, -1), (0, 2)] if t else [(0, 1)], [(1, -1, 1, 0)], (0,))),
    ]
    if t:
        fams += [
            ("3x3", lambda: gen.sef(3, 3, (-1, 0, 1), [(0, 0, 0), (1, 2, 3)], [(1, -1, 1)], (0,))),
            ("4x6 permuted", lambda: gen.sef_lists(gen.SEF46, [(0, 0, 0, 0), (1, 0, 0, 1)], [(1, -1, 2, 0, -1, 1)], (0,), colperms=True)),
        ]
    return fams


def families(tier):
    fams = plain_families(tier)
    return fams + lpref.warmed(fams, 150 if tier == "thorough" else 30)


def dot(u, v):
    return sum(a * b for a, b in zip(u, v))


def judge(p, lp, res, status, optimum):
    A, b, c, z = lpref.data(p)
    m, n = len(b), len(c)
    x, basis, cert = res
    T = 1e-6
    if status == "optimal":
        check(x is not None and basis is not None, "no solution/basis although the optimum is {}: {}", optimum, res)
        xs = lpref.clean_list(x)
        s = 1 + max(map(abs, xs))
        check(len(xs) == n and lpref.slack_violation(p, xs) <= T * s, "infeasible solution {}", xs)
        check(abs(lpref.value(p, xs) - optimum) <= T * s * (1 + abs(optimum)), "solution {} is not optimal ({})", xs, optimum)
        basis = [int(i) for i in basis]
        check(len(set(basis)) == len(basis) and all(1 <= i <= n for i in basis), "bad basis {}", basis)
        r = lpref.rank(p["A"])
        check(len(basis) == r and lpref.rank([[row[i - 1] for i in basis] for row in p["A"]]) == (r if basis else 0),
              "{} is not a basis", basis)
        check(all(abs(v) <= T for j, v in enumerate(xs) if j + 1 not in basis), "solution {} is not basic for {}", xs, basis)
        ys = lpref.clean_list(cert)
        check(len(ys) == m, "certificate of length {}", len(ys))
        sy = 1 + max(map(abs, ys))
        check(all(dot(ys, [A[i][j] for i in range(m)]) >= c[j] - T * sy for j in range(n)), "dual vector {} is not dual feasible", ys)
        check(abs(dot(ys, b) + z - optimum) <= T * sy * (1 + abs(optimum)), "dual vector {} has value {}, optimum {}", ys, dot(ys, b) + z, optimum)
        check(lp.verify_optimality(cert, show_steps=False), "verify_optimality rejects the returned certificate {}", ys)
        check(lp.is_feasible(x, show_steps=False), "is_feasible rejects the returned solution {}", xs)
    elif status == "infeasible":
        check(x is None and basis is None, "infeasible program, but returned {}", res)
        check(not isinstance(cert, tuple), "infeasible program, but an unboundedness certificate was returned: {}", res)
        ys = lpref.clean_list(cert)
        check(len(ys) == m, "certificate of length {}", len(ys))
        s = max(map(abs, ys))
        check(s > 0 and all(dot(ys, [A[i][j] for i in range(m)]) >= -T * s for j in range(n)) and dot(ys, b) < -1e-9,
              "{} is not a Farkas certificate", ys)
        check(lp.verify_infeasibility(cert, show_steps=False), "verify_infeasibility rejects the returned certificate {}", ys)
    else:
        check(x is None and basis is None, "unbounded program, but returned {}", res)
        check(isinstance(cert, (tuple, list)) and len(cert) == 2, "no unboundedness certificate: {}", res)
        xs, ds = lpref.clean_list(cert[0]), lpref.clean_list(cert[1])
        check(len(xs) == n and len(ds) == n, "certificate lengths: {}", cert)
        check(lpref.slack_violation(p, xs) <= T * (1 + max(map(abs, xs))), "the point {} of the certificate is infeasible", xs)
        s = max(map(abs, ds))
        check(s > 0 and all(d >= -T * s for d in ds) and all(abs(dot(r, ds)) <= T * s for r in A) and dot(c, ds) > 1e-9,
              "{} is not an improving ray", ds)
        check(lp.verify_unboundedness(cert[0], cert[1], show_steps=False), "verify_unboundedness rejects {}", cert)


def run(p, ctx):
    stub.fast_steps()
    status, optimum = lpref.status(p) if len(p["c"]) <= 12 and "large" not in p else lpref.status_by_certificate(p)
    lp = lpref.build(p)
    ctx.state(lpref.key(p))
    judge(p, lp, lp.two_phase_simplex(show_steps=False), status, optimum)
    judge(p, lp, lp.two_phase_simplex(), status, optimum)
    ctx.call(4)
    ctx.note(status)
