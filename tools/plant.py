#!/usr/bin/env python3
"""Confirm planted bugs and write them to /verif/seeded.

usage: plant.py SPEC.py [ID ...]      confirm and keep the changes of SPEC.py
       plant.py --recheck [ID ...]    run the checks of the kept changes again

SPEC.py defines BUGS, a list of dicts with id, property, file, edits
(list of (old, new)), demo (python source), needs, breaks.  A change is kept when, in a
scratch copy of /repo, all stable tests pass with it, its demonstration exits 0 without
it and nonzero with it, and the lines it changes are lines of the base commit.
"""
import concurrent.futures as cf
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "f62515e"
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/sh
# run with cwd /repo
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg exec /opt/venv/bin/python "$here/demo.py"
"""


def sh(command, **kwargs):
    return subprocess.run(command, capture_output=True, text=True, **kwargs)


def original_lines(path):
    """Line numbers of HEAD's version that come from the base commit."""
    out = sh(["git", "blame", "-s", "--line-porcelain", path], cwd=REPO).stdout
    base = sh(["git", "rev-parse", BASE], cwd=REPO).stdout.strip()
    good = set()
    for line in out.splitlines():
        m = re.match(r"^([0-9a-f]{40}) \d+ (\d+)", line)
        if m and m.group(1) == base:
            good.add(int(m.group(2)))
    return good


def baseline():
    with open("/opt/vp/BASELINE.json") as handle:
        return json.load(handle)


def run_tests(scratch):
    script = open("/opt/vp/test.sh").read()
    out = tempfile.mktemp(prefix="res", dir=os.path.dirname(scratch))
    # same tests, run in the scratch copy
    try:
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "pytimize"], timeout=120,
               cwd=scratch, env=dict(os.environ, PYTHONPATH=scratch, MPLBACKEND="Agg"))
    except subprocess.TimeoutExpired:
        return 0, "the tests do not end"
    m = re.search(r"(\d+) passed", r.stdout)
    return (int(m.group(1)) if m else 0), r.stdout[-800:]


def one(bug, keep):
    tmp = tempfile.mkdtemp(prefix="plant")
    scratch = os.path.join(tmp, "repo")
    log = []
    try:
        shutil.copytree(REPO, scratch, symlinks=True)
        files = set()
        if "patch" in bug:
            r = sh(["git", "apply", bug["patch"]], cwd=scratch)
            if r.returncode:
                return bug["id"], "PATCH DOES NOT APPLY", r.stderr
        for edit in bug.get("edits", []):
            path, old, new = edit if len(edit) == 3 else (bug["file"],) + tuple(edit)
            files.add(path)
            full = os.path.join(scratch, path)
            text = open(full).read()
            if text.count(old) != 1:
                return bug["id"], "EDIT MATCHES %d TIMES" % text.count(old), old
            open(full, "w").write(text.replace(old, new))
        diff = sh(["git", "diff", "--no-color"], cwd=scratch).stdout
        changed_original = True
        for path in files:
            good = original_lines(path)
            d = sh(["git", "diff", "-U0", "--no-color", path], cwd=scratch).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
                start, n = int(m.group(1)), int(m.group(2) or 1)
                if not n or not all(i in good for i in range(start, start + n)):
                    log.append("note: hunk at %s:%d changes lines not (only) of base" % (path, start))
        demo = tempfile.mkdtemp(prefix="demo", dir=tmp)
        open(os.path.join(demo, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        open(os.path.join(demo, "demo.sh"), "w").write(DEMO_SH)
        clean = sh(["sh", os.path.join(demo, "demo.sh")], cwd=REPO, timeout=300)
        if clean.returncode:
            return bug["id"], "DEMO FAILS ON THE UNCHANGED TREE", clean.stdout + clean.stderr
        try:
            bad = sh(["sh", os.path.join(demo, "demo.sh")], cwd=scratch, timeout=60).returncode
        except subprocess.TimeoutExpired:
            bad = "timeout"
        if bad == 0:
            return bug["id"], "DEMO PASSES WITH THE CHANGE", ""
        n, tail = run_tests(scratch)
        if n < 158:
            return bug["id"], "TESTS: %d" % n, tail
        env = dict(os.environ, VERIF_REPO=scratch, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=os.path.join(tmp, "ev"))
        try:
            r = sh([os.path.join(VERIF, "check"), bug["property"]], cwd=VERIF, env=env, timeout=900)
            rc, text = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            rc, text = "timeout", ""
        hit = [l for l in text.splitlines() if l.startswith("VIOLATION property=" + bug["property"])]
        verdict = "CAUGHT" if rc == 1 and hit else "MISSED rc=%s" % rc
        if keep:
            dest = os.path.join(VERIF, "seeded", bug["id"])
            os.makedirs(dest, exist_ok=True)
            open(os.path.join(dest, "patch.diff"), "w").write(diff)
            shutil.copy(os.path.join(demo, "demo.py"), dest)
            shutil.copy(os.path.join(demo, "demo.sh"), dest)
            os.chmod(os.path.join(dest, "demo.sh"), 0o755)
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                      open(os.path.join(dest, "meta.json"), "w"), indent=1)
        detail = [l for l in text.splitlines() if "VIOLATION" in l or "violat" in l.lower()][:3]
        return bug["id"], verdict, "\n".join(log + detail)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = sys.argv[1:]
    if args[0] == "--recheck":
        bugs = []
        root = os.path.join(VERIF, "seeded")
        for name in sorted(os.listdir(root)):
            d = os.path.join(root, name)
            meta = json.load(open(os.path.join(d, "meta.json")))
            bugs.append({"id": name, "property": meta["property"], "patch": os.path.join(d, "patch.diff"),
                         "demo": open(os.path.join(d, "demo.py")).read()})
        keep, only = False, args[1:]
    else:
        bugs = runpy.run_path(args[0])["BUGS"]
        keep, only = True, args[1:]
    bugs = [b for b in bugs if not only or b["id"] in only]
    with cf.ThreadPoolExecutor(3) as pool:
        for name, verdict, detail in pool.map(lambda b: one(b, keep), bugs):
            print(name, verdict)
            if detail and (verdict != "CAUGHT" or "-v" in os.environ.get("PLANT", "")) or "note:" in detail:
                print("   ", detail.replace("\n", "\n    ")[:1500])
            sys.stdout.flush()


if __name__ == "__main__":
    main()
