import random
from itertools import permutations

from ..core import check
from ..graphs import case_graph, named, pairs, renamed, structured, undirected, warmed
from ..lputil import raises

TITLE = "bfs(), dfs(), traverse()"
BOUNDS = ("Every labelled graph with up to 4 (thorough 5) vertices, every start vertex, under several insertion and set iteration orders (all of them up to "
          "3 vertices), names that differ in length, the default and five other ordering functions (ties included); random traversal is explored over every "
          "outcome of the random choices (all shuffles) up to 4 (thorough 5) vertices; eleven structured families up to 20 vertices and a path with 1200, a star, tree and grid with up to 101. Small graphs also with names of up to nine alphabets (blanks, for digraphs the empty name, names that run together, punctuation, digits, upper case, long names, last characters), and by eleven detours (something missing, surplus, different or of other weight, then corrected; another graph first) with every query asked before the change.")
ASSUMPTIONS = ["the random choices are made through the random module's shared generator (any of its integer-drawing functions); a traversal that uses another "
               "source is judged on its outcome only"]

KEYS = {
    "default": None,
    "reverse": lambda v: tuple(-ord(ch) for ch in v),
    "length": len,
    "constant": lambda v: 0,
    "last": lambda v: v[-1],
    "index": lambda v: (7 * ord(v[0]) + 3 * len(v)) % 11,
}


def families(tier):
    t, deep = True, tier == "thorough"

    def graphs(n, orders, slot_orders, keys, kind="words"):
        for mask in range(1 << len(pairs(n))):
            for order in orders:
                for slots in slot_orders:
                    for key in keys:
                        yield {"n": n, "mask": mask, "order": list(order), "slots": slots and list(slots), "key": key, "names": kind}

    def shuffles(n):
        for mask in range(0, 1 << len(pairs(n)), 1 if n < 4 else 5 if n == 4 else 100):
            yield {"n": n, "mask": mask, "order": list(range(n)), "slots": None, "rng": True, "names": "words"}

    fams = []
    for n in range(1, 4):
        every = list(permutations(range(n)))
        fams.append((f"{n} vertices", lambda n=n, every=every: graphs(n, every, every, KEYS)))
    e4, e5 = list(permutations(range(4))), list(permutations(range(5)))
    fams.append(("4 vertices", lambda: graphs(4, e4[::6], e4 if t else e4[::3], KEYS)))
    fams.append(("4 vertices, other names", lambda: graphs(4, e4[::9], e4[::9], KEYS, "other")))
    fams.append(("5 vertices", lambda: graphs(5, e5[::31] if t else [e5[77]], e5[::11] if t else [None, e5[50]], KEYS if t else ["default", "reverse", "constant"])))
    def shaped():
        for name, n in structured((6, 8, 10) if not t else range(6, 21), (("path", 1200), ("tree", 1100), ("star", 200)) if t else (("path", 1200), ("star", 60), ("tree", 101), ("grid", 40))):
            for order in (list(range(n)), list(reversed(range(n)))):
                for slots in (None, [(5 * i + 3) % 64 for i in range(n)]) if n < 50 else (None,):
                    for key in ("default", "reverse", "constant", "length")[:4 if n < 50 else 2]:
                        yield {"n": n, "shape": name, "order": order, "slots": slots, "key": key, "names": "words"}

    if deep:
        e6 = list(permutations(range(6)))
        fams.append(("5 vertices, more orders", lambda: graphs(5, e5[::17], e5[::7], KEYS)))
        fams.append(("6 vertices", lambda: graphs(6, [e6[377]], [None, e6[250]], ["default", "reverse"])))
    fams.append(("structured", shaped))
    for n in range(1, 6 if t else 5):
        fams.append((f"random, {n} vertices", lambda n=n: shuffles(n)))
    fams += [("names", lambda: renamed((c for n in (1, 2, 3) for c in graphs(n, [tuple(range(n))], [None], KEYS)))),
             ("names, 4 vertices", lambda: renamed(graphs(4, [(2, 0, 3, 1)], [None], ["default", "reverse"]))),
             ("names, random", lambda: renamed((c for n in (1, 2, 3) for c in shuffles(n))))]
    fams += [("up to 3 vertices, after other questions", lambda: warmed((c for n in (1, 2, 3) for c in graphs(n, list(permutations(range(n)))[:3], [None], list(KEYS)[:3])))),
             ("4 vertices, after other questions", lambda: warmed(graphs(4, [(2, 0, 3, 1)], [None, (2, 0, 3, 1)], list(KEYS)[:3]))),
             ("random, after other questions", lambda: warmed((c for n in (1, 2, 3) for c in shuffles(n))))]
    return fams


def bfs_valid(adjacency, start, seq, key):
    """seq is a breadth-first order in which the new neighbours of each vertex come in the order of key."""
    seen, end = {start}, 1
    if not seq or seq[0] != start:
        return False
    for pos, current in enumerate(seq):
        if pos >= end:
            return False
        new = [v for v in adjacency[current] if v not in seen]
        block = seq[end:end + len(new)]
        if sorted(block) != sorted(new):
            return False
        keys = [v if key is None else key(v) for v in block]
        if any(a > b for a, b in zip(keys, keys[1:])):
            return False
        seen |= set(new)
        end += len(new)
    return len(seq) == end


def dfs_valid(adjacency, start, seq, key):
    """seq is a depth-first preorder in which each vertex continues with the least unvisited neighbour."""
    if not seq or seq[0] != start or len(set(seq)) != len(seq):
        return False
    seen, path, rest = {start}, [start], list(seq[1:])
    while path:
        open_ = [v for v in adjacency[path[-1]] if v not in seen]
        if not open_:
            path.pop()
            continue
        if not rest or rest[0] not in open_:
            return False
        nxt = rest.pop(0)
        value = (lambda v: v) if key is None else key
        if any(value(v) < value(nxt) for v in open_):
            return False
        seen.add(nxt)
        path.append(nxt)
    return not rest


class Choices:
    """Enumerates every outcome of the integer draws of the shared generator (stateless search)."""

    def __init__(self):
        self.script, self.drawn = [], []

    def below(self, n):
        k = len(self.drawn)
        value = self.script[k][0] if k < len(self.script) else 0
        self.drawn.append((value, n))
        return value

    def next(self):
        """Advances to the next branch; False when all are explored."""
        done = self.drawn
        while done and done[-1][0] + 1 >= done[-1][1]:
            done.pop()
        if not done:
            return False
        done[-1] = (done[-1][0] + 1, done[-1][1])
        self.script, self.drawn = done, []
        return True


def random_walks(g, names, ctx):
    inst = random.seed.__self__
    choices = Choices()
    old = inst.__dict__.get("_randbelow")
    inst._randbelow = choices.below
    outcomes = set()
    try:
        for start in names:
            choices.script, choices.drawn = [], []
            while True:
                out = list(g.traverse(start, "rng"))
                ctx.call()
                ctx.note("random outcomes")
                check(sorted(out) == sorted(names), "random traversal gave {}", out)
                outcomes.add(tuple(out))
                if not choices.next():
                    break
    finally:
        if old is None:
            del inst._randbelow
        else:
            inst._randbelow = old
    for out in outcomes:
        ctx.state("rng", out)


def run(case, ctx):
    n, plain = case_graph(case)
    edges = [(e, 1) for e in plain]
    names = named(n, case["names"], case["slots"])
    g = undirected(names, edges, None, case["order"], flip=True)
    before = (g.vertices, g.edges, g.graph)
    if case.get("rng"):
        random_walks(g, names, ctx)
        check(raises(ValueError, lambda: list(g.traverse("zz", "rng"))), "an unknown start vertex was accepted")
        check((g.vertices, g.edges, g.graph) == before, "the graph was changed")
        return
    adjacency = {name: [] for name in names}
    for u, v in plain:
        adjacency[names[u]].append(names[v])
        adjacency[names[v]].append(names[u])
    key = KEYS[case["key"]]
    for start in names if n < 50 else [names[0], names[n // 2], names[-1]]:
        b, d = list(g.traverse(start, "bfs", key)), list(g.traverse(start, "dfs", key))
        ctx.call(2)
        check(bfs_valid(adjacency, start, b, key), "breadth-first from {}: {}", start, b)
        check(dfs_valid(adjacency, start, d, key), "depth-first from {}: {}", start, d)
        ctx.state(n, plain, tuple(b), tuple(d))
        if key is None:
            check(list(g.bfs(start)) == b and list(g.traverse(start)) == b and list(g.traverse(start=start, method="bfs", order=None)) == b,
                  "two breadth-first traversals differ")
            check(list(g.dfs(start)) == d, "two depth-first traversals differ")
            ctx.call(4)
            one, two = g.traverse(start), g.traverse(start)  # interleaved walks do not disturb each other
            check([w for pair in zip(one, two) for w in pair] == [w for w in b for _ in (0, 1)], "interleaved traversals disturb each other")
            walk = g.traverse(start, "dfs")
            check([next(walk)] + list(walk) == d, "an interrupted traversal differs")
    for f in (lambda: g.bfs("zz"), lambda: g.dfs("zz"), lambda: list(g.traverse("zz", "bfs", key)), lambda: list(g.traverse("zz", "dfs", key))):
        check(raises(ValueError, f), "an unknown start vertex was accepted")
        ctx.call()
    check((g.vertices, g.edges, g.graph) == before, "the graph was changed")
