from itertools import combinations, product

from ..core import check
from ..graphs import SHAPES, shape
from .G01 import MANY, OTHER, long_histories, all_states, alphabet, model_apply, observe, real_apply

TITLE = "copies, views and equality of undirected graphs"
BOUNDS = ("Every abstract state over 2 and 3 names, over seven other pairs of names, and long histories over 12 names; after copying, every operation sequence of the stated length on either side (interleavings "
          "included), and every mutation of every table handed out; equality: every ordered pair of states over 3 names with weights 0/1, each built "
          "in several orders and orientations; structured graphs with up to 26 (thorough: 60) vertices, each against itself in other orders and orientations and against its neighbours (one weight, edge or vertex different).")
ASSUMPTIONS = ["tables handed out are changed through their own interface where they are mutable"]

NAMES = ("ba", "b", "a")


def families(tier):
    t = tier == "thorough"

    def copies(names, depth, limit=None, full=True):
        for k, history in enumerate(all_states(names)):
            if limit is None or len(history) >= limit:
                yield {"names": names, "ops": list(history), "depth": depth, "full": full}

    def equality():
        every = list(small_states())
        for i in range(len(every)):
            yield {"eq": i}

    def many():
        for history in long_histories(MANY, "edge"):
            yield {"names": MANY, "ops": history, "depth": 1, "full": True}

    def equal_shapes():
        for n in (5, 8, 12, 17, 26) if not t else (*range(4, 20), 30, 60):
            for name in SHAPES:
                yield {"shape": name, "n": n}

    return [("copies, 12 names", many), ("equality, up to 17 names", equal_shapes), ("copies, other names", lambda: (c for names in OTHER for c in copies(names, 1))), ("copies, 2 names", lambda: copies(NAMES[1:], 2)), ("copies, 3 names", lambda: copies(NAMES, 2 if t else 1, 0)),
            ("equality", equality)]


def small_states():
    """Every weighted graph over 3 names with vertex weights 0/1 on isolated or first vertices and edge weights 0/1."""
    es = list(combinations(NAMES, 2))
    for weights in product((None, 0, 1), repeat=3):
        edges = {e: w for e, w in zip(es, weights) if w is not None}
        used = {v for e in edges for v in e}
        for vweights in product((None, 0, 1), repeat=3):
            vs = {v: w for v, w in zip(NAMES, vweights) if w is not None}
            if used <= set(vs):
                yield vs, edges


def build(vs, edges, style):
    from pytimize.graphs import UndirectedGraph
    vlist, elist = list(vs.items()), list(edges.items())
    if style & 1:
        vlist.reverse()
        elist.reverse()
    turn = (lambda e: (e[1], e[0])) if style & 2 else (lambda e: e)
    if style == 3:
        return UndirectedGraph(edges={turn(e): w for e, w in elist}, vertices=dict(vlist))
    g = UndirectedGraph()
    if style == 1:
        for e, w in elist:
            g.add_edge(turn(e), w)
        for v, w in vlist:
            if g.has_vertex(v):
                g.set_vertex_weight(v, w)
            else:
                g.add_vertex(v, w)
    else:
        for v, w in vlist:
            g.add_vertex(v, w)
        for e, w in elist:
            g.add_edge(turn(e), w)
    return g


def mutate_tables(g):
    """Changes every table the graph hands out as far as the tables allow it; yields the table names."""
    for name in ("graph", "edges", "vertices"):
        table = getattr(g, name)
        try:
            for key in list(table):
                value = table[key]
                if isinstance(value, (set, list)):
                    value.clear()
                    getattr(value, "add", getattr(value, "append", None))("zz")
            for key in list(table):
                table[key] = {"q"} if name == "graph" else 77
            table["new" if name != "edges" else ("new", "old")] = {"q"} if name == "graph" else 5
            table.pop(next(iter(table)))
        except (TypeError, AttributeError):
            pass
        yield name


def play(ops, history):
    from pytimize.graphs import UndirectedGraph
    g, state = UndirectedGraph(), ({}, {})
    for i in history:
        state, _ = model_apply(state, ops[i])
        real_apply(g, ops[i])
    return g, state


def equal_shape(case, ctx):
    """A large graph against itself and its neighbours, each built in several ways."""
    n = case["n"]
    names = [f"{'ab'[i % 2]}{i}" for i in range(n)]
    edges = {(names[u], names[v]): k % 4 for k, (u, v) in enumerate(shape(case["shape"], n))}
    vertices = {v: i % 3 for i, v in enumerate(names)}
    versions = [(vertices, edges)]
    for v in (names[0], names[n // 2], names[-1]):
        versions.append(({**vertices, v: 7}, edges))
        if not any(v in e for e in edges):
            versions.append(({u: w for u, w in vertices.items() if u != v}, edges))
    for e in list(edges)[::max(1, len(edges) // 3)]:
        versions.append((vertices, {**edges, e: 7}))
        versions.append((vertices, {f: w for f, w in edges.items() if f != e}))
    missing = [(u, v) for u, v in combinations(names, 2) if (u, v) not in edges and (v, u) not in edges]
    for e in missing[:1] + missing[-1:]:
        versions.append((vertices, {**edges, e: 0}))
        if edges:
            first = next(iter(edges))
            versions.append((vertices, {**{f: w for f, w in edges.items() if f != first}, e: edges[first]}))
    versions.append(({**vertices, "more": 0}, edges))
    built = [(k, build(*version, style)) for k, version in enumerate(versions) for style in range(4)]
    ctx.state(n, case["shape"])
    for k, g in built:
        for j, h in built:
            ctx.call(2)
            check(bool(g == h) == (k == j) and bool(g != h) == (k != j), "graphs {} and {} compare {}", versions[k], versions[j], g == h)


def run(case, ctx):
    if "shape" in case:
        return equal_shape(case, ctx)
    if "eq" in case:
        every = list(small_states())
        mine = every[case["eq"]]
        others = [(build(*o, 0), o) for o in every]
        for style in range(4):
            g = build(*mine, style)
            ctx.state("eq", sorted(mine[0].items()), sorted(mine[1].items()))
            for k, (h, other) in enumerate(others):
                same = other == mine
                ctx.call(2)
                check(bool(g == h) == same and bool(h == g) == same and bool(g != h) == (not same), "graphs {} and {} compare {}", mine, other, g == h)
        return
    names = case["names"]
    ops = alphabet(names, case["full"])
    sides = [(side, i) for side in (0, 1) for i in range(len(ops))]
    for depth in range(1, case["depth"] + 1):
        for tail in product(sides, repeat=depth):
            g, state = play(ops, case["ops"])
            both = [g, g.copy()]
            states = [state, state]
            for side, i in tail:
                states[side], refused = model_apply(states[side], ops[i])
                check(real_apply(both[side], ops[i]) == refused, "{} was {}refused", ops[i], "not " if refused else "")
                ctx.call()
            for k in (0, 1):
                observe(both[k], states[k], names)
            check(bool(both[0] == both[1]) == (states[0] == states[1]), "copy and original compare wrongly")
            ctx.validated()
    g, state = play(ops, case["ops"])
    h = g.copy()
    check(g == h and h == g and type(h) is type(g), "a copy differs")
    ctx.state(sorted(state[0].items()), sorted((sorted(e), w) for e, w in state[1].items()))
    for k, other in ((g, h), (h, g), (h.copy(), g)):
        for table in mutate_tables(k):
            ctx.call()
            observe(k, state, names)
            observe(other, state, names)
    # tables obtained earlier do not follow later changes
    before = {name: repr(sorted((v, sorted(c)) if name == "graph" else (v, c) for v, c in getattr(g, name).items())) for name in ("graph", "edges", "vertices")}
    tables = {name: getattr(g, name) for name in before}
    g.add_edge(("new", "old"), 1)
    for v in list(state[0]):
        g.set_vertex_weight(v, 9)
        g.add_edge((v, "new"), 4)
    for e in state[1]:
        g.set_edge_weight(tuple(e), 8)
        g.remove_edge(tuple(e))
    for name, table in tables.items():
        check(repr(sorted((v, sorted(c)) if name == "graph" else (v, c) for v, c in table.items())) == before[name], "the {} obtained earlier changed to {}", name, table)
    observe(h, state, names)
