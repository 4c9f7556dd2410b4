"""Checks the reference against itself: three independent exact methods must agree on every program of a family."""
import itertools

from . import gen, lpref


def main():
    n = 0
    for p in itertools.chain(gen.full(1, 1, range(-2, 3), [(-1,), (0,), (2,)], [(1,), (-1,)]),
                             gen.over(gen.M23[:3], [(2, 1)], [(1, -2, 1)], (2,), objs=("max",)),
                             gen.full(2, 1, (-1, 0, 1), [(1, -1), (0, 2)], [(1,)])):
        a, b = lpref.status(p), lpref.status_by_bases(p)
        c = lpref.status_by_certificate(p)
        assert a == b == c, (p, a, b, c)
        n += 1
    print("reference agrees with itself on", n, "programs")


if __name__ == "__main__":
    main()
