from itertools import combinations

from ..core import check
from ..graphs import DIRECTED_DETOURS, DIRECTED_NAMES, arcs, directed, named, pairs, renamed, shape, structured, undirected, warmed

TITLE = "cut(), ncut(), degree(), indegree(), outdegree(), connections()"
BOUNDS = ("Every digraph with up to 3 nodes and a third (thorough: all) of those with 4, every undirected graph with up to 4 (thorough: 5) vertices, with names "
          "made of the letters of other names; every subset of the vertices and of unknown names, as set, frozenset, list, tuple and single name. Eleven structured families up to 33 (thorough: 40) vertices, four of them up to 101, with sets of every size. Small graphs also with names of up to nine alphabets (blanks, for digraphs the empty name, names that run together, punctuation, digits, upper case, long names, last characters), and by eleven detours (something missing, surplus, different or of other weight, then corrected; another graph first) with every query asked before the change.")
ASSUMPTIONS = ["collections given as argument contain no duplicates"]

NAMES = {"letters": ["ab", "a", "b", "ba", "abc"], "single": ["p", "q", "r", "s", "t"]}
UNKNOWN = ["c", "bab", ""]


def families(tier):
    t, deep = True, tier == "thorough"

    def graphs(kind, n, step=1):
        slots = arcs(n) if kind == "directed" else pairs(n)
        for mask in range(0, 1 << len(slots), step):
            for names in NAMES:
                yield {"kind": kind, "n": n, "mask": mask, "names": names}

    fams = ([(f"directed, {n} nodes", lambda n=n: graphs("directed", n)) for n in (0, 1, 2, 3)] + [(f"undirected, {n} vertices", lambda n=n: graphs("undirected", n)) for n in (0, 1, 2, 3, 4)]
            + [("directed, 4 nodes", lambda: graphs("directed", 4, 1 if t else 3))] + ([("undirected, 5 vertices", lambda: graphs("undirected", 5))] if t else []))
    fams += [("names, undirected", lambda: renamed(c for n in (1, 2, 3) for c in graphs("undirected", n) if c["names"] == "letters")),
             ("names, directed", lambda: renamed((c for n in (1, 2, 3) for c in graphs("directed", n) if c["names"] == "letters"), DIRECTED_NAMES)),
             ("structured", lambda: ({"kind": kind, "n": n, "shape": s} for s, n in structured((7, 8, 9, 12, 16, 20, 33) if not deep else (*range(6, 26), 33, 40), (("path", 90), ("star", 70), ("tree", 101), ("grid", 64))) for kind in ("undirected", "directed")))]
    fams += [("undirected, after other questions", lambda: warmed((c for n in (1, 2, 3, 4) for c in graphs("undirected", n)))),
             ("directed, after other questions", lambda: warmed((c for n in (1, 2, 3) for c in graphs("directed", n, 1 if t else 2)), DIRECTED_DETOURS))]
    if deep:
        fams += [("undirected, larger", lambda: (c for n, step in ((5, 1),) for c in graphs("undirected", n, step))), ("directed, 5 nodes", lambda: graphs("directed", 5, 97))]
    return fams


def items(collection):
    out = list(collection)
    check(len(set(out)) == len(out), "an edge is listed twice in {}", out)
    return out


def run(case, ctx):
    n = case["n"]
    names = named(n) if "naming" in case or "shape" in case else NAMES[case["names"]][:n]
    directed_ = case["kind"] == "directed"
    if "shape" in case:
        chosen = shape(case["shape"], n)
        if directed_:  # some arcs backwards, some both ways
            chosen = [a for k, (u, v) in enumerate(chosen) for a in ([(u, v)], [(v, u)], [(u, v), (v, u)])[k % 3]]
    else:
        slots = arcs(n) if directed_ else pairs(n)
        chosen = [e for k, e in enumerate(slots) if case["mask"] >> k & 1]
    g = (directed if directed_ else undirected)(names, [(e, 1 + k) for k, e in enumerate(chosen)])
    edges = [(names[u], names[v]) for u, v in chosen]
    unknown = [v for v in UNKNOWN if v not in names]
    pool = names + (unknown if n < 4 else unknown[:1])
    if "shape" in case:
        arguments = {frozenset(part) for k in range(n + 1) for part in (pool[:k], pool[k:], pool[k::2], pool[:k:3], pool[k // 2:k], pool[:k] + pool[k + 1:])}
        arguments = sorted(arguments, key=lambda a: (len(a), sorted(a)))
    else:
        arguments = [frozenset(c) for k in range(len(pool) + 1) for c in combinations(pool, k)]
    before = (sorted(g.arcs), sorted(g.nodes)) if directed_ else (g.vertices, g.edges, g.graph)

    def ask(arg, side):
        ctx.call()
        if directed_:
            out = {e for e in edges if e[0] in side and e[1] not in side}
            into = {e for e in edges if e[1] in side and e[0] not in side}
            check(set(items(g.cut(arg))) == out, "cut({!r}) is {} instead of {}", arg, g.cut(arg), out)
            check(set(items(g.ncut(arg))) == into, "ncut({!r}) is {} instead of {}", arg, g.ncut(arg), into)
            counts = (g.outdegree(arg), g.indegree(arg), g.connections(arg))
            check(counts == (len(out), len(into), len(out) + len(into)), "out, in and all connections of {!r} are {}", arg, counts)
        else:
            cross = {frozenset(e) for e in edges if (e[0] in side) != (e[1] in side)}
            got = items(g.cut(arg))
            check({frozenset(e) for e in got} == cross and len(got) == len(cross), "cut({!r}) is {}", arg, got)
            check(g.degree(arg) == len(cross), "degree({!r}) is {}", arg, g.degree(arg))

    for name in pool:
        ask(name, {name})
    for side in arguments:
        ordered = sorted(side)
        for arg in (set(side), ordered, tuple(reversed(ordered)), side, {v: 1 for v in ordered}):
            kept = (type(arg), sorted(arg), list(arg) if isinstance(arg, (list, tuple)) else None)
            ask(arg, side)
            check(kept == (type(arg), sorted(arg), list(arg) if isinstance(arg, (list, tuple)) else None), "the argument was changed to {!r}", arg)
        ctx.state(case["kind"], n, case.get("mask", case.get("shape")), ordered)
    first = g.cut(names[:1])
    if hasattr(first, "clear"):
        first.clear()  # the answer is not a live part of the graph
    for side in arguments[:3]:
        ask(set(side), side)
    check((sorted(g.arcs), sorted(g.nodes)) == before if directed_ else (g.vertices, g.edges, g.graph) == before, "the graph was changed")
