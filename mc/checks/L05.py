from .. import gen, lpref, stub
from ..core import check
from ..lputil import from_lp, shapes, snap

TITLE = "to_sef()"
BOUNDS = ("Complete products of relations, signs and senses over coefficient lists for 1x1 to 3x3, 2x4 and 1x5 programs (up "
          "to three free variables in every position); copy and in-place conversion compared with the exact documented form, "
          "and the true status of the returned program with that of the original by exact elimination. 2x11, 4x7 and 11x2 programs, 25 to 40 variables or rows (thorough: 60), Klee-Minty cubes, flows and assignments. A fixed selection of every family also by seven detours (the program copied, its last row or variable added later, another program handled first) with every query asked before.")
ASSUMPTIONS = []


def plain_families(tier):
    t = tier == "thorough"
    return [
        ("1x1", lambda: gen.full(1, 1, range(-2, 3), [(v,) for v in (-2, 0, 1)], [(v,) for v in (-1, 0, 2)], (0, 3))),
        ("1x2", lambda: gen.full(1, 2, (-1, 0, 2), [(v,) for v in (-1, 0, 2)], [(1, -2), (0, 1)], (1,))),
        ("2x2", lambda: gen.full(2, 2, (-1, 0, 2) if t else (-1, 2), [(1, -2), (-1, 2)], [(3, -1)], (2,))),
        ("2x3", lambda: gen.over(gen.M23, [(2, -1), (-2, 0)], [(1, -2, 3)], (2,))),
        ("3x3", lambda: gen.over(gen.M33 if t else gen.M33[2:4], [(2, 1, -3), (-1, 0, 2)], [(1, -2, 4)], (-1,), objs=("max", "min") if t else ("min",))),
        ("2x4", lambda: gen.over(gen.M24 if t else gen.M24[1:2], [(2, -1)], [(1, -2, 3, 5)], (2,))),
        ("1x5", lambda: gen.over([[(1, 2, 3, 4, 5)]], [(-3,)], [(5, -4, 3, -2, 1)], (2,))),
        ("2x11", lambda: gen.wide(2, 11, tables=(0, 1) if t else (0,), every=t)),
        ("4x7", lambda: gen.wide(4, 7, tables=(0,), every=False, bs=[(1, -2, 3, 4)], objs=("min",) if not t else ("min", "max"))),
        ("25 to 40 variables or rows", lambda: gen.vast(t)),
        ("many pivots", lambda: gen.many_pivots(t)),
        ("11x2", lambda: gen.tall(11, 2, tables=(0, 1) if t else (0,), objs=("min", "max") if t else ("max",))),
        ("2x2 tenths", lambda: gen.over([[(1, 3), (7, -2)]], [(3, -7)], [(1, -3)], (1,), D=10)),
    ]


def families(tier):
    fams = plain_families(tier)
    return fams + lpref.warmed(fams, 150 if tier == "thorough" else 30)


def status(p):
    return lpref.status_by_certificate(p) if p.get("large") else lpref.status(p)


def run(p, ctx):
    stub.fast_steps()
    d = p["D"]
    A, b, c = lpref.to_sef(p)
    k = len(p["c"]) + p["sign"].count("f")  # the columns after these are slack columns, with entries 1 and -1
    want = ([[v / d for v in r[:k]] + [float(v) for v in r[k:]] for r in A], [v / d for v in b], [v / d for v in c])
    already = p["obj"] == "max" and set(p["rel"]) == {"="} and set(p["sign"]) == {"+"}
    lp = lpref.build(p)
    check(bool(lp.is_sef) == already, "is_sef is {} for this program", lp.is_sef)
    before = snap(lp)
    ctx.state(lpref.key(p))
    for mode in ("copy", "in place", "copy again"):
        q = lpref.build(p) if mode == "in place" else lp
        out = q.to_sef(mode != "copy", mode == "in place")
        ctx.call()
        if mode == "in place":
            check(out is q, "to_sef in place returned another object")
        else:
            check(out is not lp, "to_sef returned the program itself")
        got = snap(out)
        check(got[4] == "max" and set(got[5]) <= {"="} and not got[6] and not got[7] and got[8], "{}: not in standard equality form: {}", mode, got)
        check(got[:3] == want, "{}: data {} instead of {}", mode, got[:3], want)
        check(shapes(out) == ((len(b), len(c)), (len(b),), (len(c),)), "{}: shapes {}", mode, shapes(out))
        check(abs(got[3]) == abs(p["z"] / d) if p["obj"] == "min" else got[3] == p["z"] / d, "{}: constant {}", mode, got[3])
        if already:
            check(got[3] == before[3], "constant changed")
        if mode == "copy":
            st, v = status(p)
            st2, v2 = status({**from_lp(out), "large": "large" in p})
            check(st == st2, "the original is {}, the converted program {}", st, st2)
            if st == "optimal":
                s = 1 if p["obj"] == "max" else -1
                z, z2 = p["z"] / d, got[3]
                check(abs(s * (v - z) - (v2 - z2)) < 1e-6, "optimum {} became {}", v, v2)
        again = out.to_sef(False)
        check(snap(again)[:9] == got[:9], "converting a converted program changes it")
        ctx.call()
    check(snap(lp) == before, "to_sef changed the program it was asked to copy")
