"""Observation of LinearProgram objects through their public interface."""

from fractions import Fraction


def snap(lp):
    """Everything a program is, except its recorded steps."""
    return (
        [[float(v) for v in r] for r in lp.A], [float(v) for v in lp.b], [float(v) for v in lp.c], float(lp.z),
        lp.objective, list(lp.inequalities), [int(i) for i in lp.free_variables], [int(i) for i in lp.negative_variables],
        bool(lp.is_sef), type(lp).__name__,
    )


def shapes(lp):
    return tuple(lp.A.shape), tuple(lp.b.shape), tuple(lp.c.shape)


def from_lp(lp, limit=10 ** 7):
    """The program as an exact reference dict (entries rounded to fractions with bounded denominator)."""
    def f(v):
        return Fraction(float(v)).limit_denominator(limit)
    A = [[f(v) for v in r] for r in lp.A]
    b = [f(v) for v in lp.b]
    c = [f(v) for v in lp.c]
    z = f(lp.z)
    den = 1
    for v in [w for r in A for w in r] + b + c + [z]:
        den = den * v.denominator // _gcd(den, v.denominator)
    n = len(c)
    sign = "".join("f" if j + 1 in lp.free_variables else "-" if j + 1 in lp.negative_variables else "+" for j in range(n))
    return {"A": [[int(v * den) for v in r] for r in A], "b": [int(v * den) for v in b], "c": [int(v * den) for v in c],
            "z": int(z * den), "D": den, "obj": lp.objective, "rel": list(lp.inequalities), "sign": sign}


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def raises(kinds, f, *a, **k):
    """True if f raises one of kinds; any other exception propagates."""
    try:
        f(*a, **k)
    except kinds:
        return True
    return False
