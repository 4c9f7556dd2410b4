#!/usr/bin/env python3
"""Systematic small changes of one source file, to find what no check notices.

usage: mutate.py FILE OUT.jsonl PROP[,PROP...] [--jobs N] [--lines A-B] [--skip OUT2.jsonl]

Every mutant that passes the stable tests is given to the checks, one after another, until
one reports a violation.  OUT.jsonl gets one line per mutant: killed by the tests, caught by
a check, or SURVIVED.  Survivors are read by hand: equivalent, or a gap in the checks.
Used while developing only; no registered check depends on it.
"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["*"], ast.Pow: ["*"], ast.MatMult: [],
       ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.BitXor: ["|"]}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any", "floor": "ceil", "ceil": "floor", "append": "insert_", "zeros": "ones", "ones": "zeros",
         "argmin": "argmax", "argmax": "argmin", "is_positive": "is_negative", "is_negative": "is_positive", "union": "intersection", "hstack": "vstack"}


def mutants(source):
    """Yields (line, description, new source)."""
    tree = ast.parse(source)
    lines = source.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = source.encode()

    def span(node):
        return starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset

    def put(a, b, text):
        return (raw[:a] + text.encode() + raw[b:]).decode()

    def text(node):
        a, b = span(node)
        return raw[a:b].decode()

    docs = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            docs.add(id(node.body[0]))
            docs.add(id(node.body[0].value))
        if isinstance(node, ast.FunctionDef):
            for a in ast.walk(node.args):
                if isinstance(a, ast.arg) and a.annotation:
                    docs.update(id(x) for x in ast.walk(a.annotation))
            if node.returns:
                docs.update(id(x) for x in ast.walk(node.returns))
        if isinstance(node, ast.AnnAssign):
            docs.update(id(x) for x in ast.walk(node.annotation))
        if isinstance(node, ast.Raise) and isinstance(node.exc, ast.Call):
            docs.update(id(x) for x in ast.walk(node.exc))
        if isinstance(node, ast.JoinedStr):
            docs.update(id(x) for x in ast.walk(node) if isinstance(x, ast.Constant) and x.value in ("", " "))
    for node in ast.walk(tree):
        if id(node) in docs or not hasattr(node, "lineno"):
            continue
        a, b = span(node)
        ln = node.lineno
        if isinstance(node, ast.Compare):
            left = node.left
            for op, right in zip(node.ops, node.comparators):
                x, y = span(left)[1], span(right)[0]
                for new in CMP[type(op)]:
                    yield ln, f"{text(node)} -> {new}", put(x, y, f" {new} ")
                left = right
        elif isinstance(node, (ast.BinOp, ast.AugAssign)):
            l, r = (node.left, node.right) if isinstance(node, ast.BinOp) else (node.target, node.value)
            for new in BIN.get(type(node.op), []):
                x, y = span(l)[1], span(r)[0]
                gap = raw[x:y].decode()
                old = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
                       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}[type(node.op)]
                if old in gap:
                    yield ln, f"{text(node)} -> {new}", put(x, y, gap.replace(old, new, 1))
        elif isinstance(node, ast.BoolOp):
            word, other = (" and ", " or ") if isinstance(node.op, ast.And) else (" or ", " and ")
            for i, (l, r) in enumerate(zip(node.values, node.values[1:])):
                x, y = span(l)[1], span(r)[0]
                gap = raw[x:y].decode()
                if word.strip() in gap:
                    yield ln, f"{text(node)} -> {other}", put(x, y, gap.replace(word.strip(), other.strip(), 1))
            for v in node.values:
                x, y = span(v)
                yield ln, f"drop {text(v)} of {text(node)}", put(x, y, "True" if isinstance(node.op, ast.And) else "False")
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            if not (isinstance(node.op, ast.USub) and isinstance(node.operand, ast.Constant)):
                yield ln, f"{text(node)} -> operand", put(a, b, "(" + text(node.operand) + ")")
        elif isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                yield ln, f"{v} -> {not v}", put(a, b, str(not v))
            elif isinstance(v, (int, float)):
                for new in {v + 1, v - 1 if v > 0 else v + 2}:
                    yield ln, f"{v} -> {new} in {lines[ln - 1].strip()[:80]}", put(a, b, repr(new))
            elif isinstance(v, str) and text(node)[:1] in "\"'":
                yield ln, f"{v!r} -> other in {lines[ln - 1].strip()[:80]}", put(a, b, repr(v + "_" if v != "" else "_"))
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            x, y = span(node.test)
            yield ln, f"if {text(node.test)} -> False", put(x, y, "False")
            if not isinstance(node, ast.While):
                yield ln, f"if {text(node.test)} -> True", put(x, y, "True")
        elif isinstance(node, ast.comprehension):
            pass
        elif isinstance(node, ast.Call):
            f = node.func
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "tolist", "items", "keys") and not node.args:
                if f.attr != "items":
                    yield ln, f"{text(node)} -> without {f.attr}", put(a, b, text(f.value))
            elif len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], ast.Starred):
                yield ln, f"{text(node)[:100]} -> argument", put(a, b, "(" + text(node.args[0]) + ")")
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if name in NAMES and name != "append":
                x, y = span(f)
                yield ln, f"{text(node)[:100]} -> {NAMES[name]}", put(y - len(name), y, NAMES[name])
            for k in node.keywords:
                pass
            if len(node.args) >= 2:
                x, y = span(node.args[0])[0], span(node.args[1])[1]
                yield ln, f"{text(node)[:100]} -> arguments swapped", put(x, y, text(node.args[1]) + ", " + text(node.args[0]))
                if not node.keywords:
                    x, y = span(node.args[-2])[1], span(node.args[-1])[1]
                    yield ln, f"{text(node)[:100]} -> last argument dropped", put(x, y, "")
        elif isinstance(node, ast.Slice):
            for side in ("lower", "upper"):
                n = getattr(node, side)
                if n is not None:
                    x, y = span(n)
                    yield ln, f"{text(node)} -> no {side} in {lines[ln - 1].strip()[:80]}", put(x, y, "")
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Continue, ast.Break, ast.Raise, ast.Delete)) and not isinstance(getattr(node, "value", None), ast.Yield):
            new = "pass" if not isinstance(node, ast.Return) else "return None"
            if not (isinstance(node, ast.Return) and node.value is None) and text(node) != new:
                yield ln, f"delete {text(node)[:100]}", put(a, b, new)
        if isinstance(node, ast.Break):
            yield ln, "break -> continue", put(a, b, "continue")
        if isinstance(node, ast.Continue):
            yield ln, "continue -> break", put(a, b, "break")
        if isinstance(node, ast.For):
            x, y = span(node.iter)
            if not text(node.iter).endswith(".items()"):
                yield ln, f"for {text(node.iter)} -> reversed", put(x, y, f"list({text(node.iter)})[::-1]")
            yield ln, f"for {text(node.iter)} -> without the first", put(x, y, f"list({text(node.iter)})[1:]")
            yield ln, f"for {text(node.iter)} -> without the last", put(x, y, f"list({text(node.iter)})[:-1]")


def run(item):
    index, path, ln, what, new, props = item
    scratch = POOL.get()
    target = os.path.join(scratch, path)
    original = open(os.path.join(REPO, path)).read()
    record = {"n": index, "line": ln, "what": what}
    try:
        try:
            compile(new, path, "exec")
        except SyntaxError:
            record["result"] = "syntax"
            return record
        with open(target, "w") as f:
            f.write(new)
        env = dict(os.environ, PYTHONPATH=scratch, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
        try:
            r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "pytimize"], cwd=scratch, env=env, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            record["result"] = "tests: timeout"
            return record
        if "158 passed" not in r.stdout:
            record["result"] = "tests"
            return record
        for prop in props:
            env = dict(os.environ, VERIF_REPO=scratch, VERIF_JOBS="2")
            env["VERIF_OUT"] = scratch + ".out"
            try:
                r = subprocess.run([os.path.join(VERIF, "check"), prop, "quick"], capture_output=True, text=True, timeout=1200, env=env)
                rc, out = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, out = "timeout", ""
            if rc != 0:
                record["result"] = f"caught by {prop}" if rc == 1 and "VIOLATION" in out else f"{prop}: no answer, {rc}"
                record["message"] = out[:200] or r.stderr[-300:]
                return record
        record["result"] = "SURVIVED"
        return record
    finally:
        with open(target, "w") as f:
            f.write(original)
        POOL.put(scratch)


def main():
    global POOL
    p = argparse.ArgumentParser()
    p.add_argument("file")
    p.add_argument("out")
    p.add_argument("props")
    p.add_argument("--jobs", type=int, default=6)
    p.add_argument("--lines", default="0-100000")
    p.add_argument("--retry", help="only the survivors of this earlier run")
    a = p.parse_args()
    low, high = map(int, a.lines.split("-"))
    source = open(os.path.join(REPO, a.file)).read()
    seen, todo = {source}, []
    only = None
    if a.retry:
        only = {(r["line"], r["what"]) for r in map(json.loads, open(a.retry)) if r["result"] == "SURVIVED"}
    for ln, what, new in mutants(source):
        if low <= ln <= high and new not in seen and (only is None or (ln, what) in only):
            seen.add(new)
            todo.append((len(todo), a.file, ln, what, new, a.props.split(",")))
    print(len(todo), "mutants", flush=True)
    POOL = queue.Queue()
    dirs = []
    for i in range(a.jobs):
        d = tempfile.mkdtemp(prefix="mutant")
        dirs.append(d)
        scratch = os.path.join(d, "repo")
        shutil.copytree(REPO, scratch, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        POOL.put(scratch)
    try:
        counts = {}
        with cf.ThreadPoolExecutor(a.jobs) as pool, open(a.out, "w") as out:
            for record in pool.map(run, todo):
                out.write(json.dumps(record) + "\n")
                out.flush()
                key = record["result"].split(":")[0].split(" by ")[0]
                counts[key] = counts.get(key, 0) + 1
        print(counts)
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)


main()
