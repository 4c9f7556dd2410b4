from .. import gen, lpref, stub
from ..core import check
from .L05 import status
from ..lputil import from_lp, shapes, snap

TITLE = "dual()"
BOUNDS = ("Complete products of relations, signs and senses over coefficient lists for 1x1 to 3x3, 2x4 and 4x2 programs; the "
          "dual compared with the textbook table, the dual of the dual with the original, and the exact status and optimum of "
          "the returned dual with those of the program. 2x11, 4x7 and 11x2 programs, 25 to 40 variables or rows (thorough: 60), Klee-Minty cubes, flows and assignments. A fixed selection of every family also by seven detours (the program copied, its last row or variable added later, another program handled first) with every query asked before.")
ASSUMPTIONS = []


def plain_families(tier):
    t = tier == "thorough"
    return [
        ("1x1", lambda: gen.full(1, 1, range(-2, 3), [(v,) for v in (-2, 0, 1)], [(v,) for v in (-1, 0, 2)], (0, 3))),
        ("1x2", lambda: gen.full(1, 2, (-1, 0, 2), [(v,) for v in (-1, 0, 2)], [(1, -2), (0, 1)], (1,))),
        ("2x1", lambda: gen.full(2, 1, (-1, 0, 2), [(-1, 2), (0, 1)], [(-1,), (2,)], (1,))),
        ("2x2", lambda: gen.full(2, 2, (-1, 0, 2) if t else (-1, 2), [(1, -2)], [(3, -1)], (2,))),
        ("2x3", lambda: gen.over(gen.M23 if t else gen.M23[:4], [(2, -1)], [(1, -2, 3)], (2,))),
        ("3x3", lambda: gen.over(gen.M33 if t else gen.M33[2:3], [(2, 1, -3)], [(1, -2, 4)], (-1,))),
        ("4x2", lambda: gen.over([[(1, 2), (3, 1), (1, -1), (0, 2)]], [(2, -1, 0, 3)], [(1, 2)], (1,))),
        ("2x11", lambda: gen.wide(2, 11, tables=(0, 1) if t else (0,), every=t)),
        ("4x7", lambda: gen.wide(4, 7, tables=(0,), every=False, bs=[(1, -2, 3, 4)], objs=("min",) if not t else ("min", "max"))),
        ("25 to 40 variables or rows", lambda: gen.vast(t)),
        ("many pivots", lambda: gen.many_pivots(t)),
        ("11x2", lambda: gen.tall(11, 2, tables=(0, 1) if t else (0,), objs=("min", "max") if t else ("max",))),
        ("2x2 tenths", lambda: gen.over([[(1, 3), (7, -2)]], [(3, -7)], [(1, -3)], (1,), D=10)),
    ]


def families(tier):
    fams = plain_families(tier)
    return fams + lpref.warmed(fams, 150 if tier == "thorough" else 30)


DUAL_REL = {("max", "+"): ">=", ("max", "-"): "<=", ("max", "f"): "=", ("min", "+"): "<=", ("min", "-"): ">=", ("min", "f"): "="}
DUAL_SIGN = {("max", "<="): "+", ("max", ">="): "-", ("max", "="): "f", ("min", "<="): "-", ("min", ">="): "+", ("min", "="): "f"}


def run(p, ctx):
    stub.fast_steps()
    lp = lpref.build(p)
    before = snap(lp)
    want = {"A": [list(col) for col in zip(*p["A"])], "b": p["c"], "c": p["b"], "z": 0, "D": p["D"],
            "obj": "min" if p["obj"] == "max" else "max", "rel": [DUAL_REL[p["obj"], s] for s in p["sign"]],
            "sign": "".join(DUAL_SIGN[p["obj"], r] for r in p["rel"])}
    expected = snap(lpref.build(want))
    ctx.state(lpref.key(p))
    for k in range(2):
        dual = lp.dual(bool(k))
        ctx.call()
        got = snap(dual)
        check(got == expected, "dual is {} instead of {}", got, expected)
        check(shapes(dual) == ((len(p["c"]), len(p["b"])), (len(p["c"]),), (len(p["b"]),)), "shapes {}", shapes(dual))
    second = snap(dual.dual())
    ctx.call()
    check(second[:3] + second[4:9] == before[:3] + before[4:9], "dual of the dual is {} instead of {}", second, before)
    check(second[3] == 0, "dual of the dual has constant {}", second[3])
    check(snap(lp) == before and snap(dual) == expected, "dual() changed a program")
    st, v = status(p)
    st2, v2 = status({**from_lp(dual), "large": "large" in p})
    if st == "optimal":
        check(st2 == "optimal" and abs(v - p["z"] / p["D"] - v2) < 1e-9, "optimum {} but the dual is {} {}", v, st2, v2)
    elif st == "unbounded":
        check(st2 == "infeasible", "unbounded, but the dual is {}", st2)
    else:
        check(st2 != "optimal", "infeasible, but the dual has an optimum")
