from itertools import permutations

from .. import gen, lpref, stub
from ..core import check
from . import L02

TITLE = "simplex pivoting as a transition system on bases"
BOUNDS = ("For every program of the families (full row rank): the complete graph of simplex_iteration over all feasible "
          "bases, each basis listed in every order (first four orders for m=4), is executed and checked edge by edge and "
          "for cycles; simplex() is run from every feasible basis. The families include programs on which other pivoting rules cycle. The same with all or some of the numbers multiplied by 1000 or divided by up to 10^6. 2x11 and 3x10 programs with all their bases. Klee-Minty cubes, boxes and assignments with up to 24 columns: the path from the basis of slacks, every edge of it. A fixed selection of every family also by seven detours (the program copied, its last row or variable added later, another program handled first) with every query asked before.")
ASSUMPTIONS = ["comparison tolerance 1e-6", "Bland's rule is not required, only absence of cycles"]


def plain_families(tier):
    t = tier == "thorough"
    return [
        ("1x3", lambda: gen.sef(1, 3, (-1, 0, 1, 2), [(v,) for v in (-1, 0, 2)], [(1, 1, 1), (1, -1, 2), (-1, 0, -1)], (1,))),
        ("2x3", lambda: gen.sef(2, 3, (-1, 0, 1), [(0, 0), (1, 2), (-1, 1)] if t else [(0, 0), (-1, 1)], [(1, -1, 2), (-1, 1, 1)] if t else [(1, -1, 2)], (2,))),
        ("cycling", lambda: gen.cycling(sef_form=True, rowperms=t)),
        ("cycles of other rules", lambda: gen.other_rules(reverse=t)),
        ("near ties", lambda: gen.sef_near_ties()),
        ("decimals", lambda: gen.sef_decimals()),
        ("3x5 lists", lambda: gen.sef_lists(gen.SEF35, [(0, 0, 0), (1, 2, 3), (1, 0, 0)], [(1, 1, 1, 1, 1), (1, -1, 2, 0, -1)], (1,), rowsigns=t)),
        ("3x5 permuted", lambda: gen.sef_lists(gen.SEF35 if t else gen.SEF35[:2], [(0, 0, 0)], [(1, -1, 2, 0, -1)], (0,), colperms=True)),
        ("4x6 lists", lambda: gen.sef_lists(gen.SEF46, [(0, 0, 0, 0), (1, 0, 0, 1), (2, 2, 2, 4)], [(1, -1, 2, 0, -1, 1), (1, 1, 1, 1, 1, 1)], (0,), rowsigns=t)),
        ("2x11", lambda: gen.sef_wide(2, 11, (0, 1, 2, 3, 4) if t else (0, 1), rotations=t)),
        ("3x10", lambda: gen.sef_wide(3, 10, (0, 1, 2, 3, 4) if t else (0,), rotations=False)),
        ("many pivots", lambda: from_slacks(gen.many_pivots(t))),
        ("other magnitudes", lambda: gen.scaled(gen.every(gen.sef_lists(gen.SEF35, [(0, 0, 0), (1, 2, 3), (1, 0, 0)], [(1, -1, 2, 0, -1)], (1,), rowsigns=True), 1 if t else 5))),
        ("2x4", lambda: gen.sef(2, 4, (-1, 0, 1), [(0, 0), (1, 1)] if t else [(0, 1)], [(1, 1, -1, 2)], (0,)) if t else iter(())),
    ]


def from_slacks(programs):
    """Those whose slacks are a feasible basis, in standard equality form."""
    for p in programs:
        if set(p["rel"]) == {"<="} and min(p["b"]) >= 0:
            A, b, c = lpref.to_sef(p)
            yield {**gen.program(A, b, c, ["="] * len(b), "+" * len(c), "max", 2), "large": True}


def families(tier):
    fams = plain_families(tier)
    return fams + lpref.warmed(fams, 150 if tier == "thorough" else 30)


def close(u, v, tol=1e-6):
    return abs(u - v) <= tol * (1 + abs(v))


def canonical(p, B):
    """Exact canonical form for the sorted basis B: rows, rhs, objective, constant."""
    m = len(p["b"])
    cols = [[r[j] for j in B] for r in p["A"]]
    n = len(p["c"])
    aug = [list(c) + list(r) + [v] for c, r, v in zip(cols, p["A"], p["b"])]
    red, _ = lpref.rref(aug)
    rows = [red[i][m:m + n] for i in range(m)]
    rhs = [red[i][m + n] for i in range(m)]
    d = p["D"]
    cb = [p["c"][j] for j in B]
    obj = [p["c"][j] - sum(cb[i] * rows[i][j] for i in range(m)) for j in range(n)]
    z = p["z"] + sum(cb[i] * rhs[i] for i in range(m))
    return rows, rhs, [o / d for o in obj], z / d


def same_canonical(lp, want, n):
    """The program equals the canonical form up to the order of its rows."""
    rows, rhs, obj, z = want
    got = [[float(v) for v in r] + [float(v2)] for r, v2 in zip(lp.A, lp.b)]
    exp = [[float(v) for v in r] + [float(v2)] for r, v2 in zip(rows, rhs)]
    if len(got) != len(exp):
        return False
    left = list(exp)
    for g in got:
        k = next((i for i, e in enumerate(left) if all(close(a, b) for a, b in zip(g, e))), None)
        if k is None:
            return False
        del left[k]
    return (all(close(float(a), float(b)) for a, b in zip(lp.c, obj)) and close(float(lp.z), float(z)) and lp.is_sef
            and lp.objective == "max" and not lp.free_variables and not lp.negative_variables)


def run_large(p, ctx):
    """The path of iterations from the basis of slacks, checked edge by edge."""
    status, optimum = lpref.status_by_certificate(p)
    m, n = len(p["b"]), len(p["c"])
    lp = lpref.build(p)
    for start in (range(n - m, n), range(n - m, n)[::-1]):
        basis, seen, value = [j + 1 for j in start], set(), None
        first = list(basis)
        while basis is not None:
            B = tuple(sorted(j - 1 for j in basis))
            check(B not in seen, "simplex iterations cycle through basis {}", basis)
            seen.add(B)
            ctx.state(lpref.key(p), B)
            x = lpref.basic_solution(p["A"], p["b"], B)
            check(min(x) >= 0, "the basis {} is not feasible", basis)
            here = lpref.value(p, x)
            check(value is None or here >= value, "the objective got worse at {}", basis)
            value = here
            sol, nxt, out = lp.simplex_iteration(list(basis), show_steps=False)
            ctx.call()
            check(same_canonical(out, canonical(p, B), n), "iteration from {} did not return the canonical form of the basis", basis)
            if sol is not None:
                check(status == "optimal" and close(lpref.value(p, lpref.clean_list(sol)), float(optimum)), "iteration from {} reported {} as optimal, the optimum is {}", basis, sol, optimum)
                break
            check(nxt is not None or status == "unbounded", "iteration from {} reported unboundedness of an {} program", basis, status)
            basis = None if nxt is None else [int(j) for j in nxt]
        ctx.note(f"{len(seen) // 10 * 10} or more iterations")
        L02.judge(p, lp, lp.simplex(first, show_steps=False), status, optimum)
        ctx.call()


def run(p, ctx):
    stub.fast_steps()
    if "large" in p:
        return run_large(p, ctx)
    if lpref.rank(p["A"]) < len(p["A"]):
        ctx.note("skipped: dependent rows")
        return
    status, optimum = lpref.status(p)
    feasible = {}
    for B in lpref.bases(p["A"]):
        x = lpref.basic_solution(p["A"], p["b"], B)
        if all(v >= 0 for v in x):
            feasible[B] = x
    n = len(p["c"])
    lp = lpref.build(p)
    edges = {}
    for B, x in feasible.items():
        ctx.state(lpref.key(p), B)
        value = lpref.value(p, x)
        orders = list(permutations(B))
        if len(B) >= 3:
            orders = [orders[0], orders[-1], orders[len(orders) // 2], orders[1]]
        want = canonical(p, B)
        for order in orders:
            basis = [j + 1 for j in order]
            sol, nxt, out = lp.simplex_iteration(list(basis), show_steps=False)
            ctx.call()
            check(same_canonical(out, want, n), "iteration from {} did not return the canonical form of the basis", basis)
            if sol is not None:
                check(status == "optimal", "iteration from {} reported an optimum of an {} program", basis, status)
                xs = lpref.clean_list(sol)
                check(lpref.slack_violation(p, xs) <= 1e-6 * (1 + max(map(abs, xs))) and close(lpref.value(p, xs), float(optimum)),
                      "iteration from {} reported {} as optimal, the optimum is {}", basis, xs, optimum)
                check(sorted(nxt) == sorted(basis), "optimal basis {} reported from {}", nxt, basis)
                target = "optimal"
            elif nxt is None:
                check(status == "unbounded", "iteration from {} reported unboundedness of an {} program", basis, status)
                target = "unbounded"
            else:
                target = tuple(sorted(int(i) - 1 for i in nxt))
                check(target in feasible, "iteration from {} moved to {} which is not a feasible basis", basis, nxt)
                check(lpref.value(p, feasible[target]) >= value, "iteration from {} to {} made the objective worse", basis, nxt)
                check(target != B, "iteration from {} does not move", basis)
                if len(edges.get(B, ())) and target not in edges[B]:
                    ctx.note("order of the list changes the successor")
            edges.setdefault(B, set()).add(target)
    # no cycle, and every path ends
    state = {}

    def visit(B):
        state[B] = 1
        for t in edges[B]:
            if isinstance(t, tuple):
                if state.get(t) == 1:
                    check(False, "simplex iterations cycle through basis {}", [j + 1 for j in t])
                if t not in state:
                    visit(t)
        state[B] = 2

    for B in feasible:
        if B not in state:
            visit(B)
    for B in feasible:
        basis = [j + 1 for j in reversed(B)]
        res = lp.simplex(basis, show_steps=False)
        ctx.call()
        L02.judge(p, lp, res, status, optimum)
