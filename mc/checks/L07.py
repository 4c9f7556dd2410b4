from itertools import permutations, product

from .. import gen, lpref, stub
from ..core import check
from ..lputil import raises, snap
from .L03 import canonical, close

TITLE = "to_canonical_form(), is_canonical_form_for()"
BOUNDS = ("Every SEF program of the families with every basis in every order, converted by copy and in place and compared "
          "with the exact canonical form; the canonical-form test asked for every index list of basis length (and near misses) "
          "of the original, of every canonical form, and of canonical forms damaged in one entry; all non-bases up to length m+1 refused. The same with all or some of the numbers multiplied by 1000 or divided by up to 10^6. 2x11 and 3x6 programs. 2x30 programs, Klee-Minty cubes, flows, assignments of up to 40 columns (a basis beginning at every, or a fixed part of the, columns). A fixed selection of every family also by seven detours (the program copied, its last row or variable added later, another program handled first) with every query asked before.")
ASSUMPTIONS = ["the canonical-form test is judged for index lists in increasing order only"]


def plain_families(tier):
    t = tier == "thorough"
    return [
        ("1x2", lambda: gen.sef(1, 2, range(-2, 3), [(v,) for v in (-2, 0, 3)], [(1, -2), (0, 1)], (0, 3))),
        ("2x2", lambda: gen.sef(2, 2, (-1, 0, 1, 2), [(1, -2)], [(3, -1)], (2,))),
        ("2x3", lambda: gen.sef(2, 3, (-1, 0, 1), [(-1, 2)], [(1, -2, 3)] if not t else [(1, -2, 3), (0, 0, 1)], (2,))),
        ("3x5", lambda: gen.sef_lists(gen.SEF35 if t else gen.SEF35[:3], [(1, -2, 3)], [(1, -1, 2, 0, -3)], (1,), rowsigns=t)),
        ("tenths", lambda: gen.sef_lists([[(1, 2, 3, 10), (3, 3, 3, 0)], [(7, 1, 1, 2), (1, 3, 9, 1)]], [(3, -7)], [(1, 2, 3, 4)], (5,), 10)),
        ("2x11", lambda: gen.sef_wide(2, 11, (0, 1, 2, 3, 4) if t else (0,), bs=[(4, -3), (0, 0)], rotations=False)),
        ("3x6", lambda: gen.sef_wide(3, 6, (0, 1, 2, 3, 4) if t else (0,), bs=[(4, -3, 2)], rotations=False)),
        ("2x30", lambda: ({**p, "large": True} for p in gen.sef_wide(2, 30, (0, 1) if t else (0,), bs=[(4, -3)], rotations=False))),
        ("large", lambda: gen.every(gen.many_pivots(t, True), 1 if t else 3)),
        ("other magnitudes", lambda: gen.scaled(gen.every(gen.sef(2, 3, (-1, 0, 1, 2), [(-1, 2)], [(1, -2, 3)], (2,)), 1 if t else 13))),
        ("2x4", lambda: gen.sef(2, 4, (0, 1, 2), [(1, -2)], [(1, -2, 3, 0)], (2,)) if t else iter(())),
    ]


def families(tier):
    fams = plain_families(tier)
    return fams + lpref.warmed(fams, 60 if tier == "thorough" else 12, ("2x11", "3x6", "many small rows"))


def run_large(p, ctx):
    """A basis beginning at every column, in three orders; near misses of it."""
    import numpy as np
    m, n = len(p["b"]), len(p["c"])
    lp = lpref.build(p)
    before = snap(lp)
    for B in lpref.some_bases(p["A"], max(1, n // 12)):
        rows, rhs, obj, z = canonical(p, B)
        ctx.state(lpref.key(p), B)
        for k, order in enumerate((range(m), range(m)[::-1], [*range(m // 2, m), *range(m // 2)])):
            basis = [B[i] + 1 for i in order]
            q = lpref.build(p) if k == 1 else lp
            out = q.to_canonical_form(np.array(basis) if k == 2 else list(basis), False, k == 1)
            ctx.call()
            want = [[float(v) for v in rows[i]] for i in order]
            check(all(close(float(a), w) for r, wr in zip(out.A, want) for a, w in zip(r, wr)), "basis {}: A is {} instead of {}", basis, out.A.tolist(), want)
            check(all(close(float(v), float(rhs[i])) for v, i in zip(out.b, order)), "basis {}: b is {}", basis, out.b.tolist())
            check(all(close(float(v), float(w)) for v, w in zip(out.c, obj)) and close(float(out.z), float(z)), "basis {}: objective {} + {} instead of {} + {}", basis, out.c.tolist(), out.z, obj, z)
            check(out.A.shape == (m, n) and snap(out)[4:9] == before[4:9] and snap(lp) == before, "basis {}: form changed", basis)
            if k == 0:
                check(bool(out.is_canonical_form_for(basis)), "is_canonical_form_for denies {}", basis)
                for i in range(0, m, max(1, m // 4)):
                    for j in range(n):
                        other = sorted(basis[:i] + [j + 1] + basis[i + 1:])
                        if len(set(other)) == m and other != basis:
                            same = all(abs(rows[r][v - 1] - (1 if r == c else 0)) < 1e-9 for c, v in enumerate(other) for r in range(m)) and all(abs(obj[v - 1]) < 1e-9 for v in other)
                            check(bool(out.is_canonical_form_for(other)) == same, "is_canonical_form_for answers wrongly for {} in the form for {}", other, basis)
                            ctx.call()
                for j in B[::max(1, m // 4)]:
                    bad = [[float(v) for v in r] for r in rows]
                    bad[-1][j] += 0.25
                    q = lpref.build({**p, "D": 1, "A": bad, "b": [float(v) for v in rhs], "c": [float(v) for v in obj], "z": float(z)})
                    check(not q.is_canonical_form_for(basis), "is_canonical_form_for({}) overlooks the last row of column {}", basis, j + 1)
                    ctx.call()
        for bad in ([B[0] + 1] + [v + 1 for v in B[:-1]], [v + 1 for v in B[:-1]], [v + 1 for v in B] + [next(j for j in range(1, n + 1) if j - 1 not in B)], [0] + [v + 1 for v in B[1:]], [v + 1 for v in B[:-1]] + [n + 1]):
            check(len(bad) == m == 1 and bad == [B[0] + 1] or raises(ValueError, lp.to_canonical_form, list(bad), False), "{} is not a basis but was accepted", bad)
            ctx.call()
    check(snap(lp) == before, "a refused or copying operation changed the program")


def run(p, ctx):
    import numpy as np
    stub.fast_steps()
    if "large" in p:
        return run_large(p, ctx)
    m, n = len(p["b"]), len(p["c"])
    lp = lpref.build(p)
    before = snap(lp)
    bases = set(lpref.bases(p["A"])) if lpref.rank(p["A"]) == m else set()
    for B in sorted(bases):
        rows, rhs, obj, z = canonical(p, B)
        ctx.state(lpref.key(p), B)
        for order in permutations(range(m)):
            basis = [B[k] + 1 for k in order]
            for mode in ("copy", "in place", "array"):
                q = lpref.build(p) if mode == "in place" else lp
                arg = np.array(basis) if mode == "array" else list(basis)
                out = q.to_canonical_form(arg, False, mode == "in place")
                ctx.call()
                check((out is q) == (mode == "in place"), "{}: wrong object returned", mode)
                want = [[float(v) for v in rows[k]] for k in order]
                check(out.A.shape == (m, n) and all(close(float(a), w) for r, wr in zip(out.A, want) for a, w in zip(r, wr)),
                      "basis {}: A is {} instead of {}", basis, out.A.tolist(), want)
                check(all(close(float(v), float(rhs[k])) for v, k in zip(out.b, order)), "basis {}: b is {}", basis, out.b.tolist())
                check(all(close(float(v), float(w)) for v, w in zip(out.c, obj)), "basis {}: c is {} instead of {}", basis, out.c.tolist(), obj)
                check(close(float(out.z), float(z)), "basis {}: constant {} instead of {}", basis, out.z, z)
                check(snap(out)[4:9] == before[4:9], "basis {}: form changed", basis)
                check(snap(lp) == before, "to_canonical_form changed the program it was asked to copy")
                check(list(basis) == [int(i) for i in arg], "the index list was modified")
        # the test on the canonical form (sorted basis), for every sorted index list
        out = lp.to_canonical_form([j + 1 for j in B], False)
        can = [[float(v) for v in r] for r in rows]
        can_obj = [float(v) for v in obj]
        judge_all(out, can, can_obj, m, n, ctx)
        # damage one entry in a basis column / basis objective coefficient
        for j in B:
            for i in range(m):
                bad = [list(r) for r in can]
                bad[i][j] += 0.5 if (i + j) % 2 else -0.001
                q = lpref.build({**p, "D": 1, "A": bad, "b": [float(v) for v in rhs], "c": can_obj, "z": float(z)})
                judge_all(q, bad, can_obj, m, n, ctx)
            bad = list(can_obj)
            bad[j] -= 0.001
            q = lpref.build({**p, "D": 1, "A": can, "b": [float(v) for v in rhs], "c": bad, "z": float(z)})
            judge_all(q, can, bad, m, n, ctx)
    d = p["D"]
    judge_all(lp, [[v / d for v in r] for r in p["A"]], [v / d for v in p["c"]], m, n, ctx)
    # everything that is not a basis is refused
    for length in range(1, m + 2):
        for idx in product(range(0, n + 2), repeat=length):
            if tuple(sorted(i - 1 for i in idx)) in bases:
                continue
            check(raises(ValueError, lp.to_canonical_form, list(idx), False), "{} is not a basis but was accepted", list(idx))
            ctx.call()
    check(snap(lp) == before, "a refused or copying operation changed the program")
    for change in ({"rel": ["<="] * m}, {"obj": "min"}, {"sign": "f" * n}):
        q = lpref.build({**p, **change})
        basis = [j + 1 for j in (min(bases) if bases else range(m))]
        check(raises(ArithmeticError, q.to_canonical_form, basis, False), "accepted a program with {}", change)
        check(raises(ArithmeticError, q.to_canonical_form, basis, False, True), "accepted a program with {}", change)
        ctx.call(2)


def judge_all(q, A, c, m, n, ctx):
    from itertools import combinations
    for idx in combinations(range(n), m):
        want = (all(abs(A[i][j] - (1 if idx[i] == j else 0)) < 1e-9 for i in range(m) for j in idx)
                and all(abs(c[j]) < 1e-9 for j in idx))
        got = q.is_canonical_form_for([j + 1 for j in idx])
        ctx.call()
        check(bool(got) == want, "is_canonical_form_for({}) is {} for A={}, c={}", [j + 1 for j in idx], got, A, c)
    for idx in ([1] * m if m > 1 else [], list(range(n, n + m)) if m > 1 else [n + 1], [0] + list(range(1, m)), list(range(1, m))):
        if not idx or len(idx) == m and len(set(idx)) == m and max(idx) <= n and min(idx) >= 1:
            continue
        try:
            got = q.is_canonical_form_for(list(idx))
        except (ValueError, IndexError, ArithmeticError):
            got = False
        ctx.call()
        check(not got, "is_canonical_form_for({}) is {} although this is no basis", idx, got)
