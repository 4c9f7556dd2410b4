from collections import deque
from itertools import combinations, product

from ..core import check
from ..lputil import raises

TITLE = "UndirectedGraph as an abstract weighted graph"
BOUNDS = ("State exploration: from every abstract state over 3 names (vertices absent or with weight 0/2/5, edges absent or with weight 0/3, all "
          "combinations; reached by a shortest history) every operation of the alphabet is executed (refused ones too) and every answer of the "
          "graph is compared with the abstract graph; sequence exploration: every operation sequence up to the stated depth over 2 and 3 names; the same over seven other pairs of names (blank, numbers, long, ...); every operation after long histories over 12 names, and prefixes of long histories over 30; every "
          "constructor argument combination over 3 names.")
ASSUMPTIONS = ["set_*_weight is exercised with nonnegative weights only; empty names are not exercised"]

NAMES = ("ba", "b", "a")
WEIGHTS = (0, 3)
OTHER = ((" ", "  "), ("a", "A"), ("1", "01"), ("-1", "0"), ("a,b", "a"), ("None", "é"), ("a" * 40, "a" * 41))
MANY = tuple(f"n{k}" for k in range(12))


def shapes(names):
    """Lists of pairs of names: a path, star, cycle, complete and bipartite graph, and an edge beside isolated vertices."""
    n = len(names)
    yield [(i, i + 1) for i in range(n - 1)]
    yield [(0, i) for i in range(1, n)]
    yield [(i, (i + 1) % n) for i in range(n)]
    yield [(j, i) for i in range(n) for j in range(i)]
    yield [(i, j) for i in range(0, n, 2) for j in range(1, n, 2)]
    yield [(n - 1, n - 2)]


def long_histories(names, kind, full=True):
    """Building a shape; building it after some vertices; building it and taking it down again from the front, or half of it from the back."""
    ops = alphabet(names, full)
    where = {op: i for i, op in reversed(list(enumerate(ops)))}
    for shape in shapes(names):
        pairs = [(names[i], names[j]) for i, j in shape]
        build = [where[("add_" + kind, u, v, 3)] for u, v in pairs]
        down = [where[("remove_" + kind, u, v)] for u, v in pairs]
        vertices = [where[("add_vertex", v, 2)] for v in names[::3]]
        yield build
        yield vertices + build[::-1]
        yield build + down
        yield build + vertices + down[::-1][:len(down) // 2 + 1] + build


def alphabet(names, full=True):
    ops = []
    for i, u in enumerate(names):
        for w in (0, 2):
            ops.append(("add_vertex", u, w))
        ops.append(("set_vertex_weight", u, 5))
        if full:
            ops.append(("add_vertex", u, -1))
            ops.append(("add_edge", u, u, 0))
            ops.append(("add_vertex", u, None))
        for v in names:
            if u != v:
                ops.append(("add_edge", u, v, 3))
                ops.append(("remove_edge", u, v))
                if full:
                    ops.append(("set_edge_weight", u, v, 0))
                    ops.append(("add_edge", u, v, -1))
                    ops.append(("add_edge", u, v, None))
                elif u < v:
                    ops.append(("set_edge_weight", u, v, 0))
    if full:
        ops += [("remove_edge", names[0], "zz"), ("set_edge_weight", "zz", names[0], 3), ("set_vertex_weight", "zz", 3), ("remove_edge", names[0], names[0])]
    return ops


def model_apply(state, op):
    """(new state, refused).  state = (vertices dict, edges dict over frozensets)"""
    vs, es = dict(state[0]), dict(state[1])
    kind = op[0]
    if kind == "add_vertex":
        w = op[2] or 0
        if w < 0 or op[1] in vs:
            return state, True
        vs[op[1]] = w
    elif kind == "set_vertex_weight":
        if op[1] not in vs:
            return state, True
        vs[op[1]] = op[2]
    else:
        e = frozenset(op[1:3])
        if kind == "add_edge":
            w = op[3] or 0
            if w < 0 or len(e) == 1 or e in es:
                return state, True
            es[e] = w
            for v in op[1:3]:
                vs.setdefault(v, 0)
        elif e not in es:
            return state, True
        elif kind == "remove_edge":
            del es[e]
        else:
            es[e] = op[3]
    return (vs, es), False


def real_apply(g, op):
    """True if refused."""
    kind = op[0]
    if kind == "add_vertex":
        return raises(ValueError, g.add_vertex, op[1], *([] if op[2] is None else [op[2]]))
    if kind == "set_vertex_weight":
        return raises(ValueError, g.set_vertex_weight, op[1], op[2])
    if kind == "remove_edge":
        return raises(ValueError, g.remove_edge, (op[1], op[2]))
    return raises(ValueError, getattr(g, kind), (op[1], op[2]), *([] if op[3] is None else [op[3]]))


def observe(g, state, names):
    vs, es = state
    check(dict(g.vertices) == vs, "vertices {} instead of {}", g.vertices, vs)
    got = g.edges
    check({frozenset(e): w for e, w in got.items()} == es and len(got) == len(es), "edges {} instead of {}", got, [(sorted(e), w) for e, w in es.items()])
    adjacency = {v: {u for e in es if v in e for u in e if u != v} for v in vs}
    check({v: set(c) for v, c in g.graph.items()} == adjacency, "adjacency {} instead of {}", g.graph, adjacency)
    check(bool(g.is_empty()) == (not vs), "is_empty is {}", g.is_empty())
    for u in tuple(names) + ("zz",):
        check(bool(g.has_vertex(u)) == (u in vs), "has_vertex({!r}) is wrong", u)
        if u in vs:
            check(g.get_vertex_weight(u) == vs[u], "weight of {} is {}", u, g.get_vertex_weight(u))
        else:
            check(raises(ValueError, g.get_vertex_weight, u), "weight of the missing vertex {}", u)
        for v in names:
            e = frozenset((u, v))
            check(bool(g.has_edge((u, v))) == (e in es), "has_edge({!r}) is wrong", (u, v))
            if e in es:
                check(g.get_edge_weight((u, v)) == es[e], "weight of {} is {}", (u, v), g.get_edge_weight((u, v)))
            else:
                check(raises(ValueError, g.get_edge_weight, (u, v)), "weight of the missing edge {}", (u, v))


def all_states(names):
    """A shortest history for every reachable abstract state (breadth first)."""
    def key(s):
        return tuple(sorted(s[0].items())), tuple(sorted((tuple(sorted(e)), w) for e, w in s[1].items()))
    ops = alphabet(names)
    start = ({}, {})
    seen = {key(start)}
    queue = deque([(start, ())])
    while queue:
        state, history = queue.popleft()
        yield history
        for i, op in enumerate(ops):
            new, refused = model_apply(state, op)
            if not refused and key(new) not in seen:
                seen.add(key(new))
                queue.append((new, history + (i,)))


def families(tier):
    t = tier == "thorough"

    def states(names, then):
        for history in all_states(names):
            yield {"names": names, "full": True, "ops": list(history), "then": then}

    def sequences(names, full, depth, prefix):
        n = len(alphabet(names, full))
        for head in product(range(n), repeat=prefix):
            yield {"names": names, "full": full, "ops": list(head), "then": depth - prefix}

    def constructors():
        edges = [None, {}] + [dict(c) for k in (1, 2, 3) for c in combinations([(("a", "b"), 3), (("c", "a"), 2), (("c", "b"), 0)], k)]
        vertices = [None, {}, {"a": 4}, {"d": 1}, {"b": 2, "a": 0, "d": 3}]
        graphs = [None, {}, {"a": []}, {"d": []}] + [
            {"a": ["b"]}, {"b": ["a"]}, {"a": ["b"], "b": ["a"]}, {"a": ["b", "c"], "d": []}, {"a": ["b", "c"], "b": ["a", "c"], "c": ["a", "b"]},
            {"c": ["b"], "b": ["c"], "a": []}, {"b": [], "c": ["b"]}, {"c": ["b"], "b": []}]
        for g, e, v in product(graphs, edges, vertices):
            yield {"graph": g, "edges": None if e is None else [[list(k), w] for k, w in e.items()], "vertices": v}

    def many():
        for history in long_histories(MANY, "edge"):
            yield {"names": MANY, "full": True, "ops": history, "then": 1}

    def crowd():
        names = tuple(f"n{k}" for k in range(30))
        for history in long_histories(names, "edge"):
            for k in range(len(history), 0, -29 if not t else -5):
                yield {"names": names, "full": True, "ops": history[:k], "then": 0}

    return [("constructor", constructors), ("12 names", many), ("30 names", crowd),
            ("other names", lambda: (c for names in OTHER for c in states(names, 1))), ("sequences over other names", lambda: (c for names in OTHER for c in sequences(names, True, 2, 1))), ("sequences over 2 names", lambda: sequences(NAMES[1:], True, 4, 1)),
            ("sequences over 3 names", lambda: sequences(NAMES, False, 5 if t else 3, 2)), ("every state, every operation", lambda: states(NAMES, 2 if t else 1))]


def construct(case, ctx):
    from pytimize.graphs import UndirectedGraph
    graph = None if case["graph"] is None else {v: set(c) for v, c in case["graph"].items()}
    edges = None if case["edges"] is None else {tuple(k): w for k, w in case["edges"]}
    given = {} if case["vertices"] is None else dict(case["vertices"])
    kwargs = {k: v for k, v in (("graph", graph), ("edges", edges), ("vertices", None if case["vertices"] is None else given)) if v is not None}
    vs, es = {}, {}
    for u, c in (graph or {}).items():
        vs[u] = 0
        for v in c:
            vs[v] = 0
            es[frozenset((u, v))] = 0
    for (u, v), w in (edges or {}).items():
        vs.setdefault(u, 0)
        vs.setdefault(v, 0)
        es[frozenset((u, v))] = w
    vs.update(given)
    kept = repr((graph and sorted((k, sorted(v)) for k, v in graph.items()), edges, given))
    g = UndirectedGraph(**kwargs)
    h = UndirectedGraph(*[kwargs.get(k) for k in ("graph", "edges", "vertices")])
    ctx.call(2)
    check(repr((graph and sorted((k, sorted(v)) for k, v in graph.items()), edges, given)) == kept, "the arguments were changed")
    for other in (g, h):
        observe(other, (vs, es), ("a", "b", "c", "d"))
    # later changes to the arguments are not operations on the graph, nor the other way round
    if graph is not None:
        for c in graph.values():
            c.add("q")
    if edges is not None:
        edges[("q", "r")] = 1
    given["q"] = 2
    observe(g, (vs, es), ("a", "b", "c", "d"))
    g.add_edge(("q", "a"), 1)
    observe(h, (vs, es), ("a", "b", "c", "d"))
    ctx.state("constructed", sorted(vs.items()), sorted((sorted(e), w) for e, w in es.items()))


def run(case, ctx):
    if "ops" not in case:
        return construct(case, ctx)
    from pytimize.graphs import UndirectedGraph
    names = case["names"]
    ops = alphabet(names, case["full"])

    def play(history):
        g, state = UndirectedGraph(), ({}, {})
        for i in history:
            state, refused = model_apply(state, ops[i])
            check(real_apply(g, ops[i]) == refused, "{} was {}refused", ops[i], "not " if refused else "")
            ctx.call()
        return g, state

    for depth in range(case["then"] + 1):
        for tail in product(range(len(ops)), repeat=depth):
            g, state = play(case["ops"] + list(tail))
            observe(g, state, names)
            ctx.state(sorted(state[0].items()), sorted((sorted(e), w) for e, w in state[1].items()))
            ctx.validated()
