"""Reference graph theory and builders shared by the graph checks."""

from itertools import combinations, permutations
from math import inf


class V(str):
    """A vertex name with a chosen hash: permuting the hashes permutes the iteration order of sets of names."""

    def __new__(cls, text, slot):
        self = super().__new__(cls, text)
        self.slot = slot
        return self

    def __hash__(self):
        return self.slot

    def __reduce__(self):
        return (V, (str(self), self.slot))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


# names whose lexical order differs from their listed order, names made of the letters of other names
NAMES = ["b", "ab", "a", "ba", "c", "abc"]
WORDS = ["south", "n", "no", "north", "s", "so"]


NAMING = None  # set per case: the alphabet that replaces the usual names

ALPHABETS = {
    "empty": ["b", "", "a", " ", "c", "  ", "d", "e"],  # undirected graphs refuse the empty name
    "blank": [" ", "a", "  ", "b", "\t", "a ", " a", "_"],
    "joined": ["a", "bc", "ab", "c", "b", "abc", "ca", "bca"],  # pairs of names that run together to the same text
    "joined backwards": ["c", "ab", "bc", "a", "abc", "b", "bca", "ca"],
    "marks": ["a-b", "b", "a", "b-a", "a:b", "b-c", "c", "a,b"],
    "digits": ["10", "9", "2", "010", "1", "0", "01", "1.0"],
    "case": ["B", "a", "b", "A", "aB", "Ab", "\u00e9", "E\u0301"],
    "long": [f"a name that begins like all the others and is long, {c}" for c in "dacbhgfe"],
    "last": ["z", "zzz", "~", "\uffff", "y", "\U0010ffff", "}", "|"],
}
DIRECTED_NAMES = tuple(ALPHABETS)
UNDIRECTED_NAMES = tuple(a for a in ALPHABETS if a != "empty")
PRINTABLE = ("joined", "joined backwards", "digits", "case", "long")


def renamed(cases, kinds=UNDIRECTED_NAMES, step=1):
    """Every (step-th) case with the names of every alphabet."""
    for k, case in enumerate(cases):
        if k % step == 0:
            for kind in kinds:
                yield {**case, "naming": kind}


def named(n, kind="words", slots=None):
    if NAMING is not None:
        chosen = ALPHABETS[NAMING]
        base = chosen[:n] if n <= len(chosen) else [f"{chosen[i % len(chosen)]}{i}" for i in range(n)]
        return [V(t, s) for t, s in zip(base, slots)] if slots is not None else list(base)
    base = [f"v{i}" for i in range(n)] if n > 6 else WORDS[:n] if kind == "words" else NAMES[:n]
    return [V(t, s) for t, s in zip(base, slots)] if slots is not None else list(base)


def pairs(n):
    return list(combinations(range(n), 2))


def arcs(n):
    return list(permutations(range(n), 2))


def components(n, edges):
    """Connected components as frozensets of indices."""
    label = list(range(n))
    for u, v in edges:
        a, b = label[u], label[v]
        if a != b:
            label = [a if x == b else x for x in label]
    groups = {}
    for i, x in enumerate(label):
        groups.setdefault(x, set()).add(i)
    return {frozenset(g) for g in groups.values()}


def distances(n, weights, start):
    """Bellman-Ford over undirected weights {(u, v): w}."""
    d = [inf] * n
    d[start] = 0
    for _ in range(n):
        old = list(d)
        for (u, v), w in weights.items():
            d[v] = min(d[v], d[u] + w)
            d[u] = min(d[u], d[v] + w)
        if d == old:
            break
    return d


def min_cut(n, capacity, source, sink):
    """Smallest capacity of a set of indices that contains source and not sink, by enumeration."""
    rest = [v for v in range(n) if v not in (source, sink)]
    best = inf
    for mask in range(1 << len(rest)):
        side = {source} | {v for k, v in enumerate(rest) if mask >> k & 1}
        best = min(best, sum(c for (u, v), c in capacity.items() if u in side and v not in side))
    return best


WARM = None  # set per case: the detour on which a graph is built, with every query asked on the way

UNDIRECTED_DETOURS = ("edge last", "edge too many", "other weights", "vertex last", "complete", "each edge", "exchanged weights", "another first edge", "another last edge", "another middle edge", "another graph first")
DIRECTED_DETOURS = ("arc last", "arc too many", "other weights", "node last", "complete", "each arc", "exchanged weights", "another first arc", "another last arc", "another middle arc", "another graph first")


def warmed(cases, kinds=UNDIRECTED_DETOURS, step=1):
    """Every (step-th) case with every detour."""
    for k, case in enumerate(cases):
        if k % step == 0:
            for kind in kinds:
                yield {**case, "warm": kind}


def _quietly(f, *args):
    """Asks a question; the answer, if it is a container handed out, is changed afterwards."""
    try:
        out = f(*args)
    except Exception:  # noqa: B902 - refusals are judged elsewhere, on the final graph
        return None
    if isinstance(out, list):
        out.append(None)
    elif isinstance(out, (set, dict)):
        out.clear()
    return out


def ask_everything(g):
    """Asks the graph every query it has."""
    names = [v for v in list(getattr(g, "vertices", None) or getattr(g, "nodes", ()))]
    everything = ("is_connected", "is_cyclic", "is_tree", "has_spanning_tree", "partition", "copy", "is_empty", "minimum_spanning_tree", "formulate_max_stable_set", "__repr__")
    single = ("cut", "ncut", "degree", "indegree", "outdegree", "connections", "has_vertex", "has_node", "get_vertex_weight", "bfs", "dfs")
    double = ("shortest_path", "formulate_shortest_path", "ford_fulkerson", "preflow_push")
    couples = ("has_edge", "has_arc", "get_edge_weight")
    for q in everything:
        if hasattr(g, q):
            _quietly(getattr(g, q))
    for v in names:
        for q in single:
            if hasattr(g, q):
                _quietly(getattr(g, q), v)
        for q in ("cut", "ncut", "degree", "connections"):
            if hasattr(g, q):
                _quietly(getattr(g, q), {v, names[0]})
                _quietly(getattr(g, q), set(names) - {v})
        for u in names:
            if u != v:
                for q in double:
                    if hasattr(g, q):
                        _quietly(getattr(g, q), v, u)
                for q in couples:
                    if hasattr(g, q):
                        _quietly(getattr(g, q), (v, u))
    if hasattr(g, "create_residual"):
        _quietly(g.create_residual, {})
    if hasattr(g, "__eq__"):
        _quietly(g.__eq__, g)


def _replaced(items, missing):
    """(position of the item that comes in last, the missing one in its place) for the 'another ...' detours."""
    if WARM.startswith("another") and items and missing:
        where = {"first": 0, "last": -1, "middle": len(items) // 2}[WARM.split()[1]]
        return where % len(items), missing[where if where <= 0 else len(missing) // 2]
    return None


def _exchanged(items):
    """The items with their weights in the opposite order."""
    return [(e, w) for (e, _), (_, w) in zip(items, reversed(items))]


def warm_undirected(names, edges, vertices, order):
    """The same graph by a detour."""
    from pytimize.graphs import UndirectedGraph
    g = UndirectedGraph()
    edges = list(edges)
    order = list(order) if order is not None else list(range(len(names)))
    weight = lambda i: 0 if vertices is None else vertices[i]
    wrong = 3 if WARM == "other weights" else 0
    late = order[-1:] if WARM == "vertex last" else []
    for i in order:
        if i not in late:
            g.add_vertex(names[i], weight(i) + wrong * (1 + i))
    mine = {frozenset(e) for e, _ in edges}
    missing = [e for e in pairs(len(names)) if frozenset(e) not in mine]
    extra = missing[:1] if WARM == "edge too many" else missing if WARM == "complete" else []
    swap = _replaced(edges, missing)
    if swap:
        (e, w), other = edges[swap[0]], swap[1]
        for f, v in edges:
            if f != e:
                g.add_edge((names[f[0]], names[f[1]]), v)
        g.add_edge((names[other[0]], names[other[1]]), w)
        ask_everything(g)
        g.remove_edge((names[other[1]], names[other[0]]))
        g.add_edge((names[e[0]], names[e[1]]), w)
        return g
    if WARM == "exchanged weights":
        for e, w in _exchanged(edges):
            g.add_edge((names[e[0]], names[e[1]]), w)
        for i, j in zip(order, reversed(order)):
            g.set_vertex_weight(names[i], weight(j))
        ask_everything(g)
        for e, w in edges:
            g.set_edge_weight((names[e[1]], names[e[0]]), w)
        for i in order:
            g.set_vertex_weight(names[i], weight(i))
        return g
    for k, e in enumerate(extra):
        g.add_edge((names[e[1]], names[e[0]]), k)
    last = edges[-1:] if WARM == "edge last" else [x for x in edges if set(x[0]) & set(late)]
    for k, (e, w) in enumerate(edges):
        if (e, w) not in last:
            g.add_edge((names[e[0]], names[e[1]]), w + wrong * (1 + k % 2))
    ask_everything(g)
    for i in late:
        g.add_vertex(names[i], weight(i))
        ask_everything(g)
    for e, w in last:
        g.add_edge((names[e[0]], names[e[1]]), w)
        if late:
            ask_everything(g)
    for k, e in enumerate(extra):
        g.remove_edge((names[e[0]], names[e[1]]))
        if k % 2:
            ask_everything(g)
    if wrong:
        for e, w in edges:
            g.set_edge_weight((names[e[1]], names[e[0]]), w)
        ask_everything(g)
        for i in order:
            g.set_vertex_weight(names[i], weight(i))
    if WARM == "each edge":
        for e, w in edges:
            g.remove_edge((names[e[1]], names[e[0]]))
            ask_everything(g)
            g.add_edge((names[e[0]], names[e[1]]), w)
    return g


def warm_directed(names, capacity, order):
    from pytimize.graphs import DirectedGraph
    g = DirectedGraph()
    capacity = list(capacity)
    order = list(order) if order is not None else list(range(len(names)))
    wrong = 3 if WARM == "other weights" else 0
    late = order[-1:] if WARM == "node last" else []
    for i in order:
        if i not in late:
            g.add_node(names[i])
    mine = {tuple(a) for a, _ in capacity}
    missing = [a for a in arcs(len(names)) if a not in mine]
    extra = missing[:1] if WARM == "arc too many" else missing if WARM == "complete" else []
    swap = _replaced(capacity, missing)
    if swap:
        (a, w), other = capacity[swap[0]], swap[1]
        for b, v in capacity:
            if b != a:
                g.add_arc((names[b[0]], names[b[1]]), v)
        g.add_arc((names[other[0]], names[other[1]]), w)
        ask_everything(g)
        g.remove_arc((names[other[0]], names[other[1]]))
        g.add_arc((names[a[0]], names[a[1]]), w)
        return g
    if WARM == "exchanged weights":
        for a, w in _exchanged(capacity):
            g.add_arc((names[a[0]], names[a[1]]), w)
        ask_everything(g)
        for a, w in capacity:
            g.set_arc_weight((names[a[0]], names[a[1]]), w)
        return g
    for k, a in enumerate(extra):
        g.add_arc((names[a[0]], names[a[1]]), 1 + k)
    last = capacity[-1:] if WARM == "arc last" else [x for x in capacity if set(x[0]) & set(late)]
    for k, (a, w) in enumerate(capacity):
        if (a, w) not in last:
            g.add_arc((names[a[0]], names[a[1]]), w + wrong * (1 + k % 2))
    if WARM == "arc too many":
        g.add_arc(("zz", names[0]), 2)
    ask_everything(g)
    if WARM == "arc too many":
        g.set_arc_weight(("zz", names[0]), 1)
        g.remove_arc(("zz", names[0]))
        g.add_arc((names[0], "zz"), 1)
        g.add_arc(("zz", "yy"), 1)
        g.remove_arc(("zz", "yy"), True)
        ask_everything(g)
        keep = [x for x in (names[0],) if g.connections(x) == 1]
        g.remove_arc((names[0], "zz"), True)
        for x in keep:
            g.add_node(x)
    for i in late:
        g.add_node(names[i])
        ask_everything(g)
    for a, w in last:
        g.add_arc((names[a[0]], names[a[1]]), w)
        if late:
            ask_everything(g)
    for k, a in enumerate(extra):
        g.remove_arc((names[a[0]], names[a[1]]))
        if k % 2:
            ask_everything(g)
    if wrong:
        for a, w in capacity:
            g.set_arc_weight((names[a[0]], names[a[1]]), w)
    if WARM == "each arc":
        for a, w in capacity:
            g.remove_arc((names[a[0]], names[a[1]]))
            ask_everything(g)
            g.add_arc((names[a[0]], names[a[1]]), w)
    return g


def undirected(names, edges, vertices=None, order=None, flip=False):
    """The graph built by the public operations: all vertices in the given order, then the edges."""
    from pytimize.graphs import UndirectedGraph
    if WARM == "another graph first":
        mine = {frozenset(e) for e, _ in edges}
        other = UndirectedGraph()
        for i in reversed(range(len(names))):
            other.add_vertex(names[i], 1 + i)
        for k, e in enumerate(pairs(len(names))):
            if frozenset(e) not in mine or k % 3 == 0:
                other.add_edge((names[e[0]], names[e[1]]), 2 + k)
        ask_everything(other)
    elif WARM is not None and names:
        return warm_undirected(names, edges, vertices, order)
    g = UndirectedGraph()
    for i in order if order is not None else range(len(names)):
        g.add_vertex(names[i], 0 if vertices is None else vertices[i])
    for k, ((u, v), w) in enumerate(edges):
        g.add_edge((names[v], names[u]) if flip and k % 2 == 0 else (names[u], names[v]), w)
    return g


def directed(names, capacity, order=None):
    from pytimize.graphs import DirectedGraph
    if WARM == "another graph first":
        mine = {tuple(a) for a, _ in capacity}
        other = DirectedGraph()
        for i in reversed(range(len(names))):
            other.add_node(names[i], 1 + i)
        for k, a in enumerate(arcs(len(names))):
            if a not in mine or k % 3 == 0:
                other.add_arc((names[a[0]], names[a[1]]), 2 + k)
        ask_everything(other)
    elif WARM is not None and names:
        return warm_directed(names, capacity, order)
    g = DirectedGraph()
    for i in order if order is not None else range(len(names)):
        g.add_node(names[i])
    for (u, v), w in capacity:
        g.add_arc((names[u], names[v]), w)
    return g


SHAPES = ("path", "cycle", "star", "complete", "two cycles", "tree", "grid", "cycle and path", "empty", "matching", "tail")


def shape(name, n):
    """Edges of a structured graph on n vertices."""
    half = n // 2
    if name == "path":
        return [(i, i + 1) for i in range(n - 1)]
    if name == "cycle":
        return [(i, i + 1) for i in range(n - 1)] + [(0, n - 1)]
    if name == "star":
        return [(0, i) for i in range(1, n)]
    if name == "complete":
        return pairs(n)
    if name == "two cycles":
        return [(i, i + 1) for i in range(n - 1) if i + 1 != half] + [(0, half - 1), (half, n - 1)]
    if name == "tree":
        return [((i - 1) // 2, i) for i in range(1, n)]
    if name == "grid":
        return [(i, i + 1) for i in range(n - 1) if i % 3 != 2] + [(i, i + 3) for i in range(n - 3)]
    if name == "cycle and path":
        return [(i, i + 1) for i in range(n - 1) if i + 1 != half] + [(half, n - 1)]
    if name == "matching":
        return [(i, i + 1) for i in range(0, n - 1, 2)]
    if name == "tail":  # a path that ends in a triangle
        return [(i, i + 1) for i in range(n - 1)] + [(n - 3, n - 1)]
    return []


def case_graph(case):
    """(number of vertices, edges) of a case."""
    if "shape" in case:
        return case["n"], shape(case["shape"], case["n"])
    return case["n"], [e for k, e in enumerate(pairs(case["n"])) if case["mask"] >> k & 1]


def structured(sizes, long=()):
    for n in sizes:
        for name in SHAPES:
            yield name, n
    for name, n in long:
        yield name, n
