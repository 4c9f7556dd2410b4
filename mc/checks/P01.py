from itertools import product

from ..core import check

TITLE = "GraphParser.parse()"
BOUNDS = ("Every string up to length 6 (thorough: 7) over {a, 1, -, :, ., space}, every string up to length 5 (thorough: 6) over an alphabet with tabs, newlines, underscores, other "
          "letters, digits and spaces of other scripts and punctuation, and every sequence of up to 5 (thorough: 6) tokens from a list of names, weights and separators, "
          "compared with an independent character-by-character reader of the four notations; every list of up to 3 items per notation with 40 names and weights, and lists of up to 1000 (thorough: 3000) items, also with one wrong item. Every accepted text is read again after the first answer was changed.")
ASSUMPTIONS = ["names consist of letters, digits and underscores; weights are decimal numbers without sign or exponent"]

PLAIN = "a1-:. "
ODD = "a_1-: \n\té٣ ,+"
TOKENS = ["a", "bc", "12", "-", ":", ".", " ", "3.5", "  ", "\n", "xy:4", "u-v", "pq"]
NAMES = ["a", "B", "_", "7", "foo", "x_1", "12", "é", "Zz9"]
WEIGHTS = ["0", "1", "12", "3.5", "0.25", "007", "10.0", "99999999999", "0.1"]


def families(tier):
    t = tier == "thorough"

    def strings(alphabet, length, prefix):
        for k in range(min(prefix, length + 1)):
            for head in product(alphabet, repeat=k):
                yield {"head": "".join(head), "alphabet": alphabet, "more": [0]}
        for head in product(alphabet, repeat=prefix):
            yield {"head": "".join(head), "alphabet": alphabet, "more": list(range(length - prefix + 1))}

    def tokens(depth):
        for head in product(TOKENS, repeat=2):
            yield {"head": "".join(head), "alphabet": TOKENS, "more": list(range(depth - 1))}

    def lists():
        for kind in ("pair", "dash", "pair:", "dash:"):
            for first in items(kind):
                yield {"kind": kind, "first": first}

    def long():
        for kind in ("pair", "dash", "pair:", "dash:"):
            for count in (5, 12, 40, 63, 64, 65, 99, 100, 101, 150, 255, 256, 257, 400, 700, 1000) if not t else list(range(4, 130)) + [200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 3000]:
                yield {"kind": kind, "count": count}

    return [("long", long), ("plain", lambda: strings(PLAIN, 7 if t else 6, 3)), ("odd", lambda: strings(ODD, 6 if t else 5, 2)), ("tokens", lambda: tokens(6 if t else 5)), ("lists", lists)]


def items(kind):
    if kind.startswith("pair"):
        names = [(a, b) for a, b in (("a", "b"), ("1", "2"), ("_", "é"), ("x", "x"), ("9", "Q"))]
        text = [a + b for a, b in names]
    else:
        names = [(a, b) for a in NAMES[::2] for b in NAMES[1::3]] + [("foo", "foo")]
        text = [a + "-" + b for a, b in names]
    out = []
    for k, ((a, b), s) in enumerate(zip(names, text)):
        if kind.endswith(":"):
            for w in WEIGHTS[k % 3::3]:
                out.append([s + ":" + w, [a, b, float(w)]])
        else:
            out.append([s, [a, b, 0]])
    return out


def name_char(ch):
    return ch.isalnum() or ch == "_"


def number(text):
    whole, dot, part = text.partition(".")
    if not whole.isdecimal() or dot and not part.isdecimal():
        return None
    return float(text)


def read(text):
    """The edges of the expression, or None: split at single whitespace characters, classify every item."""
    chunks, current = [], ""
    for ch in text:
        if ch.isspace():
            chunks.append(current)
            current = ""
        else:
            current += ch
    chunks.append(current)
    edges, notation = [], set()
    for chunk in chunks:
        ends, colon, weight = chunk.partition(":")
        value = number(weight) if colon else 0
        if value is None:
            return None
        if "-" in ends:
            a, _, b = ends.partition("-")
            if not a or not b or not all(map(name_char, a + b)):
                return None
            notation.add(("dash", bool(colon)))
        elif len(ends) == 2 and all(map(name_char, ends)):
            a, b = ends
            notation.add(("pair", bool(colon)))
        else:
            return None
        edges.append((a, b, value))
    return edges if len(notation) == 1 else None


def judge(text, wanted, parse, ctx, again=True):
    try:
        got = parse(text)
    except ValueError:
        got = None
    ctx.call()
    if wanted is None:
        check(got is None, "{!r} was read as {}", text, got)
    else:
        check(got is not None and [tuple(e) for e in got] == wanted, "{!r} was read as {} instead of {}", text, got, wanted)
        ctx.validated()
        ctx.note("accepted")
        ctx.state(text)
        if again and isinstance(got, list):  # the answer is the caller's: changing it changes no later answer
            got.reverse()
            got.append(None)
            judge(text, wanted, parse, ctx, False)


def run(case, ctx):
    from pytimize.parsers import GraphParser
    parse = GraphParser.parse
    if "count" in case:
        every = items(case["kind"])
        for shift in (0, 3):
            chosen = [every[(k + shift) % len(every)] for k in range(case["count"])]
            for sep in " \n":
                text, wanted = sep.join(s for s, _ in chosen), [tuple(e) for _, e in chosen]
                judge(text, wanted, parse, ctx)
                for k in (0, 1, len(chosen) // 2, len(chosen) - 1):  # one thing wrong somewhere
                    for wrong in ("", "a", "a-", "abc", "ab:", "a-b:1:2", "ab:x", "ab:1" if ":" not in case["kind"] else "ab", "aa-b" if "pair" in case["kind"] else "ab"):
                        judge(sep.join(s if j != k else wrong for j, (s, _) in enumerate(chosen)), None, parse, ctx)
        return
    if "kind" in case:
        first, edge = case["first"]
        every = items(case["kind"])
        judge(first, [tuple(edge)], parse, ctx)
        for k, (s, e) in enumerate(every):
            sep = " \n\t\u00a0"[k % 4]
            judge(first + sep + s, [tuple(edge), tuple(e)], parse, ctx)
            judge(first + sep * 2 + s, None, parse, ctx)
            for s2, e2 in every[k % 5::5]:
                judge(first + " " + s + sep + s2, [tuple(edge), tuple(e), tuple(e2)], parse, ctx)
        for other in ("pair", "dash", "pair:", "dash:"):
            if other != case["kind"]:
                for s, _ in items(other):
                    judge(first + " " + s, None, parse, ctx)
                    judge(s + " " + first, None, parse, ctx)
                    judge(s + " " + first + " " + first, None, parse, ctx)
        return
    for k in case["more"]:
        for tail in product(case["alphabet"], repeat=k):
            text = case["head"] + "".join(tail)
            judge(text, read(text), parse, ctx)
