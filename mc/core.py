"""Exhaustive bounded exploration of the real implementation.

A check module (mc/checks/<ID>.py) provides

    TITLE, BOUNDS           what is explored (text, goes into the evidence)
    families(tier)          [(name, generator function without arguments), ...], simplest first;
                            the generators yield JSON-able cases, in a fixed order
    run(case, ctx)          executes one case against the implementation in /repo and against the
                            reference; raises Violation (or any other exception) when they differ

Every case of every family is executed; nothing is sampled.  The cases of a family are dealt to
the worker processes in fixed chunks, so the set explored does not depend on the number of workers.
"""

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

from . import graphs, lpref

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", ROOT)  # where evidence and replays go
CASE_CPU_SECONDS = 20
CHUNK = 8


class Violation(Exception):
    """The implementation broke the property on this case."""


class CaseTimeout(BaseException):
    """The implementation did not terminate within the CPU bound of one case."""


class Ctx:
    """Measured counters of one worker."""

    def __init__(self):
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.cases = 0
        self.notes = {}

    def call(self, n=1):
        """n calls of implementation operations were executed and judged."""
        self.transitions += n

    def state(self, *key):
        """A distinct state (canonical configuration) was reached."""
        self.states.add(hash64(repr(key)))

    def validated(self, n=1):
        """n complete traces (histories, programs) agreed with the reference."""
        self.traces += n

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n


def hash64(text):
    return int.from_bytes(hashlib.blake2b(text.encode("utf8"), digest_size=8).digest(), "big")


def check(condition, message, *args):
    if not condition:
        raise Violation(message.format(*args) if args else message)


def _on_alarm(signum, frame):
    raise CaseTimeout()


def execute(module, case, ctx):
    """Runs one case under the guard.  Returns None or a message."""
    before = ctx.traces
    graphs.WARM = lpref.WARM = case.get("warm") if isinstance(case, dict) else None
    graphs.NAMING = case.get("naming") if isinstance(case, dict) else None
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, getattr(module, "CASE_CPU_SECONDS", CASE_CPU_SECONDS))
        try:
            module.run(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except CaseTimeout:
        return "did not terminate within the CPU bound of one case"
    except Violation as e:
        return str(e)
    except (KeyboardInterrupt, SystemError):
        raise
    except BaseException as e:  # noqa: B902 - SystemExit from the code under test included
        tb = traceback.extract_tb(e.__traceback__)
        where = f"{os.path.basename(tb[-1].filename)}:{tb[-1].name}" if tb else "?"
        return f"unexpected {type(e).__name__}: {str(e)[:300]} (in {where})"
    if ctx.traces == before:
        ctx.validated()
    return None


def setup_worker():
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass


def silence():
    """What the code under test prints is of no interest (and must not look like a verdict)."""
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    os.close(null)
    sys.stdout = open(os.devnull, "w")
    sys.stderr = sys.stdout


def worker(prop, tier, w, count, queue, stop):
    setup_worker()
    silence()
    module = load(prop)
    ctx = Ctx()
    result = {"violation": None, "samples": [], "families": {}}
    history = []
    try:
        for name, generator in module.families(tier):
            n = 0
            for index, case in enumerate(generator()):
                if (index // CHUNK) % count != w:
                    continue
                if stop.is_set():
                    break
                n += 1
                ctx.cases += 1
                message = execute(module, case, ctx)
                if n == 3:
                    result["samples"].append({"family": name, "case": case})
                history.append(case)
                if len(history) > 40:
                    del history[0]
                if message is not None:
                    again = execute(module, case, ctx)
                    result["violation"] = {
                        "property": prop, "family": name, "case": case, "message": message,
                        "reproduces_alone": again is not None,
                        "history": None if again is not None else list(history),
                    }
                    stop.set()
                    break
            result["families"][name] = n
            if stop.is_set():
                break
    except BaseException as e:  # a defect of the machinery itself
        result["error"] = "".join(traceback.format_exception(e))[-3000:]
        stop.set()
    result.update(transitions=ctx.transitions, traces=ctx.traces, cases=ctx.cases, notes=ctx.notes,
                  states=b"".join(s.to_bytes(8, "big") for s in ctx.states))
    queue.put((w, result))


def load(prop):
    bootstrap(importlib.util.find_spec(f"mc.checks.{prop}") is not None and prop)
    return importlib.import_module(f"mc.checks.{prop}")


def bootstrap(prop=None):
    """Imports pytimize from the working tree of /repo."""
    if "pytimize" in sys.modules:
        return
    sys.path[:] = [p for p in sys.path if p and os.path.realpath(p) != os.path.realpath(REPO)]
    sys.path.insert(0, REPO)
    sys.path.insert(1, ROOT)
    if prop != "L15":
        from . import stub
        stub.install()
    import pytimize  # noqa: F401
    import pytimize.formulations, pytimize.graphs, pytimize.parsers, pytimize.programs, pytimize.utilities  # noqa: E401
    assert os.path.realpath(pytimize.__file__).startswith(os.path.realpath(REPO) + os.sep), pytimize.__file__
    import numpy
    numpy.seterr(all="ignore")
    import warnings
    warnings.simplefilter("ignore")


def load_known():
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf8") as f:
        return json.load(f).get("findings", [])


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    started = time.time()
    module = load(prop)
    count = getattr(module, "WORKERS", None) or int(os.environ.get("VERIF_JOBS", 0)) or min(8, os.cpu_count() or 1)
    context = mp.get_context("fork")
    queue, stop = context.Queue(), context.Event()
    workers = [context.Process(target=worker, args=(prop, tier, w, count, queue, stop)) for w in range(count)]
    for p in workers:
        p.start()
    results, died = {}, False
    grace = None
    while len(results) < count:
        try:
            w, result = queue.get(timeout=1)
            results[w] = result
        except Exception:
            if any(w not in results and not p.is_alive() and p.exitcode not in (0, None)
                   for w, p in enumerate(workers)):
                died = True
                break
            if stop.is_set():
                grace = grace or time.time()
                if time.time() - grace > 60 and any(r["violation"] for r in results.values()):
                    break
    for p in workers:
        p.join(timeout=0.2)
        if p.is_alive():
            p.kill()
    errors = [r["error"] for r in results.values() if "error" in r]
    violations = [r["violation"] for r in results.values() if r["violation"]]
    states = set()
    families, notes, samples = {}, {}, []
    for r in results.values():
        raw = r["states"]
        states.update(raw[i:i + 8] for i in range(0, len(raw), 8))
        for k, v in r["families"].items():
            families[k] = families.get(k, 0) + v
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
    for name in families:  # one sample per family, as far as they go
        samples.extend([s for r in results.values() for s in r["samples"] if s["family"] == name][:1])
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": sum(r["transitions"] for r in results.values()),
            "traces_validated_against_impl": sum(r["traces"] for r in results.values()),
            "samples": samples[:6],
            "cases_per_family": families,
            "exhaustive": not violations and not errors and not died,
            "bounds": module.BOUNDS,
            "what_counts": "states: distinct configurations (by hash) reached; transitions: calls of the "
                           "implementation executed and judged; traces: complete cases whose every answer "
                           "agreed with the reference",
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - started, 2),
        "violations": len(violations),
    }
    if notes:
        evidence["coverage"]["notes"] = notes
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w", encoding="utf8") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True, default=str)
    if violations:
        v = min(violations, key=lambda v: len(json.dumps(v["case"], default=str)))
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        path = os.path.join(OUT, "replays", f"{prop}-{hash64(repr(v['case'])):016x}.json")
        with open(path, "w", encoding="utf8") as f:
            json.dump(v, f, indent=1, default=str)
        print(f"{prop}: {v['message']}\n  family {v['family']}, case {json.dumps(v['case'], default=str)[:2000]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for k in load_known():
        if k.get("property") == prop:
            print(f"KNOWN-FINDING: property={prop} {k.get('what')}")
    if errors or died:
        print("ERROR of the check itself:\n" + ("\n".join(errors) or "a worker died"), file=sys.stderr)
        return 2
    c = evidence["coverage"]
    print(f"{prop} {tier}: held on {c['traces_validated_against_impl']} traces, {c['transitions']} transitions, "
          f"{c['states']} states in {evidence['wall_s']} s")
    return 0


def replay(path):
    with open(path, encoding="utf8") as f:
        v = json.load(f)
    setup_worker()
    module = load(v["property"])
    ctx = Ctx()
    for case in (v.get("history") or [v["case"]]):
        message = execute(module, case, ctx)
    print(json.dumps(v["case"]))
    print(message or "the property holds on this case now")
    if message:
        print(f"VIOLATION property={v['property']} replay={path}")
    return 1 if message else 0


if __name__ == "__main__":
    # run under the canonical module name, so that Violation is one class everywhere
    from mc import core
    sys.exit(core.main(sys.argv[1:]))
