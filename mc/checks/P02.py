from itertools import permutations, product

from ..core import check

TITLE = "LinearParser.parse()"
BOUNDS = ("Every string up to length 7 (thorough: 8) over {1, 0, x, _, +, -, .}, every string up to length 5 (thorough: 6) over a larger alphabet with spaces, newlines, letters and "
          "operators, every sequence of up to 6 tokens from a list of terms and fragments, compared with an independent reader; sums of up to 3 terms with all "
          "coefficients, signs, orders and indices of a list; every size from 0 to 6 and unspecified; parse_multiple() on every list of up to 3 of seven expressions; sums of up to 300 (thorough: 349) terms, also with one wrong term. Every accepted text is read again after the first answer was changed.")
ASSUMPTIONS = ["digits are ASCII digits", "any exception counts as a refusal"]

PLAIN = "10x_+-."
ODD = "12x_+- .\nXy*e|,"
TOKENS = ["1x_1", "2x_2", "3.5x_10", "x_", "1", "20", "+", "-", ".", " ", "_", "x", "0", "\n", "1x_01", "1x_0"]
LISTED = ["1x_1", "-2.5x_3+1x_1", "0x_2", "1x_1+1x_1", "x_1", "", "1x_0"]
COEFFICIENTS = ["0", "1", "2.5", "007", "10.0", "0.125", "123456789"]


def families(tier):
    t = tier == "thorough"

    def strings(alphabet, length, prefix):
        for k in range(prefix):
            for head in product(alphabet, repeat=k):
                yield {"head": "".join(head), "alphabet": alphabet, "more": [0]}
        for head in product(alphabet, repeat=prefix):
            yield {"head": "".join(head), "alphabet": alphabet, "more": list(range(length - prefix + 1))}

    def tokens(depth):
        for head in product(TOKENS, repeat=2):
            yield {"head": "".join(head), "alphabet": TOKENS, "more": list(range(depth - 1))}

    def completions():
        for head in ("1x_1", "1x_1+", "-2.5x_3", "-2.5x_3-1x_1", "0x_2+", "1x_2+1x_", "3x_12-0.5x_"):
            for a in PLAIN + " ":
                yield {"head": head + a, "alphabet": PLAIN, "more": list(range(5 if t else 4))}

    def sums():
        for indices in list(permutations((1, 2, 4), 1)) + list(permutations((1, 2, 4, 12), 2)) + list(permutations((1, 3, 4), 3)) + [(2, 2), (1, 3, 1), (5, 5, 5)]:
            for signs in product(("-", ""), *([("+", "-")] * (len(indices) - 1))):
                yield {"indices": list(indices), "signs": list(signs)}

    def lists():
        for k in range(4):
            for texts in product(LISTED, repeat=k):
                for size in (None, 1, 3):
                    yield {"texts": list(texts), "size": size}

    def long():
        for count in (4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 30, 31, 32, 33, 60, 64, 65, 99, 100, 101, 128, 200, 300) if not t else range(4, 350):
            for order in ("up", "down", "odd first"):
                yield {"count": count, "order": order}

    return [("lists", lists), ("long", long), ("plain", lambda: strings(PLAIN, 8 if t else 7, 3)), ("odd", lambda: strings(ODD, 6 if t else 5, 2)), ("tokens", lambda: tokens(6)), ("completions", completions), ("sums", sums)]


DIGITS = "0123456789"


def read(text):
    """{index: coefficient} with indices from 1, or None."""
    pos, out = 0, {}

    def digits():
        nonlocal pos
        start = pos
        while pos < len(text) and text[pos] in DIGITS:
            pos += 1
        return text[start:pos]

    while True:
        sign = 1.0
        if pos < len(text) and text[pos] == "-":
            sign, pos = -1.0, pos + 1
        elif pos < len(text) and text[pos] == "+":
            if not out:
                return None
            pos += 1
        elif out:
            return None
        whole = digits()
        if not whole:
            return None
        if pos < len(text) and text[pos] == ".":
            pos += 1
            part = digits()
            if not part:
                return None
            whole += "." + part
        if text[pos:pos + 2] != "x_":
            return None
        pos += 2
        index = digits()
        if not index or int(index) == 0 or int(index) in out:
            return None
        out[int(index)] = sign * float(whole)
        if pos == len(text):
            return out


def judge(text, wanted, size, parse, ctx, again=True):
    refused, got = False, None
    try:
        got = parse(text) if size is None else parse(text, size)
    except Exception:  # noqa: B902 - any error is a refusal
        refused = True
    ctx.call()
    if wanted is None or size is not None and max(wanted) > size:
        check(refused, "{!r} with size {} was read as {}", text, size, got)
        return
    length = max(wanted) if size is None else size
    check(got is not None, "{!r} with size {} was refused", text, size)
    check(tuple(got.shape) == (1, length) and [float(v) for v in got[0]] == [wanted.get(j, 0.0) for j in range(1, length + 1)], "{!r} with size {} was read as {}", text, size, got)
    ctx.validated()
    ctx.note("accepted")
    ctx.state(text, size)
    if again:  # the answer is the caller's: changing it changes no later answer
        got.fill(99)
        judge(text, wanted, size, parse, ctx, False)


def run(case, ctx):
    from pytimize.parsers import LinearParser
    parse = LinearParser.parse
    if "texts" in case:
        wanted = [read(text) for text in case["texts"]]
        good = all(w is not None and (case["size"] is None or max(w) <= case["size"]) for w in wanted)
        refused = False
        try:
            LinearParser.parse_multiple(case["texts"], case["size"])
        except Exception:  # noqa: B902 - any error is a refusal
            refused = True
        ctx.call()
        check(refused != good, "the list {} with size {} was {}", case["texts"], case["size"], "refused" if refused else "accepted")
        return
    if "count" in case:
        n = case["count"]
        indices = list(range(1, n + 1))
        if case["order"] == "down":
            indices.reverse()
        elif case["order"] == "odd first":
            indices = indices[::2] + indices[1::2]
        for step in (1, 7):
            terms = [(("-", "+", "+")[k % 3], COEFFICIENTS[k * step % len(COEFFICIENTS)], i * step) for k, i in enumerate(indices)]
            text = "".join(f"{s}{c}x_{i}" for s, c, i in terms).lstrip("+")
            wanted = {i: (-1.0 if s == "-" else 1.0) * float(c) for s, c, i in terms}
            check(read(text) == wanted, "the reference reader is wrong about {!r}", text)
            for size in (None, n * step, n * step - 1, n * step + 1, 10 * n):
                judge(text, wanted, size, parse, ctx)
            for k in {0, n // 2, n - 1}:  # one thing wrong somewhere
                for wrong in ("+1x_0", "+1x_", "+x_1", "+1x_" + str(terms[(k + 1) % n][2]), "-", "+1y_1", " "):
                    judge("".join(f"{s}{c}x_{i}" if j != k else wrong for j, (s, c, i) in enumerate(terms)).lstrip("+"), None, None, parse, ctx)
        return
    if "indices" in case:
        k = len(case["indices"])
        for coefficients in product(COEFFICIENTS if k < 3 else COEFFICIENTS[1:5], repeat=k):
            text = "".join(f"{s}{c}x_{i}" for s, c, i in zip(case["signs"], coefficients, case["indices"]))
            wanted = {i: (-1.0 if s == "-" else 1.0) * float(c) for s, c, i in zip(case["signs"], coefficients, case["indices"])}
            if len(set(case["indices"])) < k:
                wanted = None
            check(read(text) == wanted, "the reference reader is wrong about {!r}", text)
            for size in (None, 0, 1, 2, 3, 4, 5, 6, 12, 13):
                judge(text, wanted, size, parse, ctx)
        return
    for k in case["more"]:
        for tail in product(case["alphabet"], repeat=k):
            text = case["head"] + "".join(tail)
            if len(text) < 40:
                wanted = read(text)
                if wanted is None or max(wanted) < 10 ** 4:
                    judge(text, wanted, None, parse, ctx)
                    if wanted is not None and len(text) < 12:
                        judge(text, wanted, max(wanted), parse, ctx)
                        judge(text, wanted, max(wanted) - 1, parse, ctx)
