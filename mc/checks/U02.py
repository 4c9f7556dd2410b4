from collections import deque
from functools import lru_cache
from itertools import permutations, product

from ..core import check
from ..lputil import raises

TITLE = "DisjointSet"
BOUNDS = ("Every sequence of unions and finds (of known and unknown items) up to length 4 (thorough: 5) over 3 items and up to length 3 (thorough: 4) over 4 items; every "
          "sequence of merging unions of 5 (thorough: 6) items, all of them or not, with every orientation; every way to merge up to 7 (thorough: 8) items into one set, the two members "
          "of every union chosen in every way, up to renaming and the order of independent unions, with nothing or everything found in between; after every sequence all representatives are asked for twice; "
          "the four pairs of 8 items merged pairwise in every way, with every item looked for first; chains and tournaments of up to 2048 unions, looked through from either end; every item list with and without duplicates up to length 3.")
ASSUMPTIONS = []


def operations(n, unknown=True):
    ops = [("union", i, j) for i, j in product(range(n), repeat=2)] + [("find", i) for i in range(n)]
    return ops + ([("find", -1), ("union", 0, -1), ("union", -1, n - 1), ("union", -1, -1)] if unknown else [])


def families(tier):
    t = tier == "thorough"

    def sequences(n, depth, prefix):
        for head in product(operations(n), repeat=prefix):
            yield {"n": n, "ops": [list(o) for o in head], "more": depth - prefix}

    def trees(n):
        """Sequences of unions of representatives or members, deduplicated by the partition of trees they describe."""
        every = [(i, j) for i, j in permutations(range(n), 2)]
        for first in every:
            yield {"n": n, "first": list(first)}

    def merged(k):
        for i in range(1, k):
            for left in range(COUNT[i]):
                for right in range(0, COUNT[k - i], 200):
                    yield {"merge": [i, k - i], "left": left, "right": right}

    def chains():
        for n in (64, 2048) if not t else (16, 32, 64, 500, 2048):
            for how in ("forward", "backward", "outer", "pairs", "star", "tournament", "tournament of seconds", "tournament backwards"):
                for order in (1, -1):
                    yield {"n": n, "chain": how, "order": order}

    def halves():
        for left in product((0, 1), (2, 3), (0, 1)):
            for right in product((4, 5), (6, 7), (0, 1)):
                yield {"halves": [list(left), list(right)]}

    def lists():
        for k in range(4):
            for items in product(("a", "b", "ab"), repeat=k):
                yield {"items": list(items)}

    return [("item lists", lists), ("1 item", lambda: sequences(1, 4, 1)), ("2 items", lambda: sequences(2, 4 if not t else 5, 1)), ("3 items", lambda: sequences(3, 5 if t else 4, 2)),
            ("4 items", lambda: sequences(4, 4 if t else 3, 1 if not t else 2)), ("unions of 5 items", lambda: trees(5))] + ([("unions of 6 items", lambda: trees(6))] if t else []) + [
        (f"merges of {k} items", lambda k=k: merged(k)) for k in range(2, 9 if t else 8)] + [("pairs of pairs of pairs", halves), ("chains", chains)]


NAMES = ["b", "ab", "a", "ba", "", "c", "abc", "cb"]


COUNT = {1: 1, 2: 1, 3: 4, 4: 28, 5: 272, 6: 3312, 7: 47872}


@lru_cache(None)
def merges(k):
    """Every way to merge the items 0..k-1 into one set: lists of unions, up to renaming and the order of independent unions."""
    if k == 1:
        return [()]
    return [history for i in range(1, k) for left in merges(i) for history in joined(i, k - i, left)]


def joined(i, j, left, rights=slice(None)):
    for right in merges(j)[rights]:
        moved = tuple((a + i, b + i) for a, b in right)
        for a in range(i):
            for b in range(i, i + j):
                yield left + moved + ((a, b),)


def play(D, names, ops, ctx):
    d = D(list(names))
    label = list(range(len(names)))
    for op in ops:
        ctx.call()
        args = [names[i] if i >= 0 else "zz" for i in op[1:]]
        if -1 in op:
            check(raises(ValueError, getattr(d, op[0]), *args), "{} was accepted", op)
        elif op[0] == "union":
            d.union(*args)
            a, b = label[op[1]], label[op[2]]
            label = [a if x == b else x for x in label]
        else:
            got = d.find(*args)
            check(got in names and label[names.index(got)] == label[op[1]], "find({}) is {}", args, got)
    return d, label


def verify(d, names, label, ctx):
    for _ in (0, 1):
        reps = [d.find(v) for v in names]
        for i, r in enumerate(reps):
            check(r in names and label[names.index(r)] == label[i], "the representative of {} is {}", names[i], r)
        for i in range(len(names)):
            for j in range(i):
                check((reps[i] == reps[j]) == (label[i] == label[j]), "{} and {} have the representatives {} and {}", names[i], names[j], reps[i], reps[j])
        check([d.find(r) for r in reps] == reps, "a representative has another representative")
        backwards = [d.find(v) for v in reversed(names)]
        check(backwards[::-1] == reps, "finding changed the partition")
        ctx.call(3)


def run(case, ctx):
    from pytimize.utilities import DisjointSet as D
    if "items" in case:
        items = case["items"]
        if len(set(items)) < len(items):
            check(raises(ValueError, D, items), "duplicates were accepted")
            return
        d = D(items)
        check(items == case["items"] and [d.find(v) for v in items] == items, "fresh items are not on their own")
        if items:
            kept = list(items)
            items.append("later")
            check(raises(ValueError, d.find, "later"), "an item was added from outside")
            verify(d, kept, list(range(len(kept))), ctx)
        return
    n = case.get("n")
    if "chain" in case:
        names = [f"i{k}" for k in range(n)]
        how = case["chain"]
        ops = {"forward": [(k, k + 1) for k in range(n - 1)], "backward": [(k + 1, k) for k in range(n - 1)][::-1], "outer": [(k, n - 1 - k) for k in range(n // 2)],
               "pairs": [(k, k + 1) for k in range(0, n - 1, 2)], "star": [(k, 0) for k in range(1, n)],
               "tournament": [(k, k + step) for e in range(20) for step in [2 ** e] for k in range(0, n - step, 2 * step)],
               "tournament of seconds": [(k + 2 * step - 1, k + step - 1) for e in range(20) for step in [2 ** e] for k in range(0, n - 2 * step + 1, 2 * step)],
               "tournament backwards": [(k + step, k) for e in range(20) for step in [2 ** e] for k in range(0, n - step, 2 * step)]}[how]
        d = D(names)
        parent = list(range(n))

        def root(k):
            while parent[k] != k:
                k = parent[k]
            return k
        for i, j in ops:
            d.union(names[i], names[j])
            parent[root(i)] = root(j)
        reps = {}
        for k in range(n)[::case["order"]]:
            reps.setdefault(d.find(names[k]), set()).add(root(k))
            check(d.find(d.find(names[k])) == d.find(names[k]), "a representative has another representative")
        check(all(len(v) == 1 for v in reps.values()) and len(reps) == len({root(k) for k in range(n)}), "{}: {} sets", how, len(reps))
        ctx.call(n)
        return
    if "halves" in case:
        (a, b, flip), (c, e, flop) = case["halves"]
        for u, v in [p for pair in product(range(4), range(4, 8)) for p in (pair, pair[::-1])]:
            history = [(0, 1), (2, 3), (4, 5), (6, 7), (b, a) if flip else (a, b), (e, c) if flop else (c, e), (u, v)]
            for first in range(8):
                d, label = play(D, NAMES, [("union", *x) for x in history] + [("find", first)], ctx)
                found = d.find(NAMES[first])
                check([d.find(w) for w in NAMES] == [found] * 8, "not all items have the same representative")
            ctx.validated()
            ctx.state(history)
        return
    if "merge" in case:
        i, j = case["merge"]
        n = i + j
        for history in joined(i, j, merges(i)[case["left"]], slice(case["right"], case["right"] + 200)):
            for names in (NAMES[:n], NAMES[n - 1::-1]):
                for found in (False, True):
                    ops = []
                    for e in history:
                        ops.append(("union", *e))
                        ops.extend(("find", v) for v in range(n) if found)
                    d, label = play(D, names, ops, ctx)
                    verify(d, names, label, ctx)
            ctx.validated()
            ctx.state(n, history)
        return
    names = NAMES[:n]
    if "first" in case:
        # every sequence of merging unions: breadth first over the labelled partitions with their whole history of merges
        edges = list(permutations(range(n), 2))
        queue = deque([[tuple(case["first"])]])
        while queue:
            history = queue.popleft()
            d, label = play(D, names, [("union", *e) for e in history], ctx)
            verify(d, names, label, ctx)
            ctx.validated()
            ctx.state(n, history)
            if len(history) < n - 1:
                for e in edges:
                    if label[e[0]] != label[e[1]] and (n < 6 or e > history[-1] or len(history) < 2):
                        queue.append(history + [e])
        return
    every = operations(n)
    for depth in range(case["more"] + 1):
        for tail in product(every, repeat=depth):
            d, label = play(D, names, [tuple(o) for o in case["ops"]] + list(tail), ctx)
            verify(d, names, label, ctx)
            ctx.validated()
            ctx.state(n, label, [d.find(v) for v in names])
