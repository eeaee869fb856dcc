"""Exploration engine: enumerates the cases of a check, runs every one of them on the
real code in worker processes, and collects what was covered.

A check is a module in mc/checks with

    PROPERTY = "C01"
    def cases(tier):        # yields JSON-able cases, simplest first
    def run(case, rec):     # explores one case completely; reports through rec

`run` must be deterministic.  Anything it raises, and anything it reports with rec.fail, is
a violation of the property by the code under test; the case is written to a replay file.
"""
import collections
import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")  # another tree, and another place for results,
RESULTS = os.environ.get("VERIF_RESULTS", VERIF)  # while testing the checks themselves
CASE_CPU_S = {"quick": 240, "thorough": 3600}  # CPU seconds after which a case counts as hanging


def use_repo():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import pybbn

    here = os.path.realpath(pybbn.__file__)
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"pybbn comes from {here}, not from {REPO}")


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


def digest(key):
    return int.from_bytes(
        hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big"
    )


class Recorder:
    """What one worker covered."""

    def __init__(self):
        self.counts = collections.Counter()
        self.states = set()
        self.outcomes = set()
        self.samples = []
        self.known = {}
        self.violation = None
        self.slowest = 0.0  # CPU seconds of the slowest case

    def state(self, key):
        """A distinct configuration of the system was visited. True if it is new here."""
        h = digest(key)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        """n operations of the real code were executed."""
        self.counts["transitions"] += n

    def trace(self, n=1):
        """n executions of the real code were compared with the reference."""
        self.counts["traces"] += n

    def outcome(self, key):
        """A distinct observed result (shows the exploration is not vacuous)."""
        self.outcomes.add(digest(key))

    def count(self, name, n=1):
        self.counts[name] += n

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text)

    def finding(self, fid, text):
        """A violation that matches the exact signature of a listed known finding."""
        self.known.setdefault(fid, text)
        self.counts["known:" + fid] += 1

    def fail(self, what, **detail):
        raise Violation(what, detail)


def plain(x):
    """JSON-able rendering of anything."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((plain(v) for v in x), key=repr)
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return float(x)
    try:
        return float(x)
    except Exception:
        return repr(x)


def _hang(signum, frame):
    raise Hang()


def run_case(run, case, rec, limit=CASE_CPU_S["quick"]):
    """Runs one case; returns None or a violation record."""
    signal.signal(signal.SIGVTALRM, _hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        run(case, rec)
        return None
    except Violation as v:
        what, detail = v.args
        return {"what": what, "detail": plain(detail), "case": case}
    except Hang:
        return {
            "what": f"no result within {limit} s of CPU time",
            "detail": {},
            "case": case,
        }
    except RecursionError as e:
        return {"what": f"raised {e!r}", "detail": {}, "case": case}
    except Exception as e:
        return {
            "what": f"raised {type(e).__name__}: {e}",
            "detail": {"traceback": traceback.format_exc().splitlines()[-12:]},
            "case": case,
        }
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


_RUN = None
_LIMIT = CASE_CPU_S["quick"]


def _work(chunk):
    rec = Recorder()
    for case in chunk:
        t0 = time.process_time()
        v = run_case(_RUN, case, rec, _LIMIT)
        rec.slowest = max(rec.slowest, time.process_time() - t0)
        rec.counts["cases"] += 1
        if v is not None:
            rec.violation = v
            break
    return rec


def chunks(it, size):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, size))
        if not c:
            return
        yield c


def _serve(conn, others):
    for c in others:
        c.close()
    try:
        while True:
            conn.send(_work(conn.recv()))
    except EOFError:
        os._exit(0)


def spread(todo, procs):
    """Yields the Recorder of every chunk, in order, from worker processes. (multiprocessing.Pool is not used: its
    terminate() can wait for ever for a lock that a terminated worker held, and so can a Pool one of whose workers died.)"""
    ctx = mp.get_context("fork")
    workers, ends = {}, []
    for _ in range(procs):
        here, there = ctx.Pipe()
        ends.append(here)
        p = ctx.Process(target=_serve, args=(there, list(ends)), daemon=True)
        p.start()
        there.close()
        workers[here] = p
    todo = enumerate(todo)
    busy, done, turn = {}, {}, 0
    try:
        idle = list(workers)
        while True:
            while idle and len(done) < 20000:
                item = next(todo, None)
                if item is None:
                    break
                conn = idle.pop()
                busy[conn] = item
                conn.send(item[1])
            while turn in done:
                yield done.pop(turn)
                turn += 1
            if not busy:
                return
            for conn in mp.connection.wait(list(busy)):
                k, chunk = busy.pop(conn)
                try:
                    done[k] = conn.recv()
                    idle.append(conn)
                except (EOFError, OSError):
                    workers[conn].join()
                    rec = done[k] = Recorder()
                    rec.violation = {
                        "what": f"the process running it ended with {workers[conn].exitcode}",
                        "detail": {"cases": len(chunk)},
                        "case": chunk[0],
                    }
    finally:
        for p in workers.values():
            p.kill()
        for p in workers.values():
            p.join()


def explore(module, tier, procs=None):
    """Runs every case of the check; stops at the first violation (cases come simplest first)."""
    global _RUN, _LIMIT
    _RUN = module.run
    _LIMIT = CASE_CPU_S.get(tier, CASE_CPU_S["quick"])
    procs = procs or int(os.environ.get("VERIF_PROCS", 0)) or min(8, os.cpu_count() or 1)
    total = Recorder()
    violations = []
    size = getattr(module, "CHUNK", 8)
    results = spread(chunks(module.cases(tier), size), procs)
    try:
        for rec in results:
            total.counts.update(rec.counts)
            total.states |= rec.states
            total.outcomes |= rec.outcomes
            total.slowest = max(total.slowest, rec.slowest)
            if len(total.samples) < 6:
                total.samples.extend(rec.samples[: 6 - len(total.samples)])
            for k, v in rec.known.items():
                total.known.setdefault(k, v)
            if rec.violation is not None:
                violations.append(rec.violation)
                break
    finally:
        results.close()
    return total, violations


def load(prop):
    return importlib.import_module("mc.checks." + prop.lower())


# ---------------------------------------------------------------- known findings


def known_findings(prop):
    """id -> text of the findings listed for this property (fixed ones suppress nothing)."""
    found = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                head, text = line[len("finding:") :].strip().split(" | ", 1)
                fields = dict(f.split("=", 1) for f in head.split())
                if fields["property"] == prop:
                    found[fields["id"]] = text
    return found


# ---------------------------------------------------------------- canonical dump


def canon(root, skip=()):
    """Name-independent structural dump of an object graph, for deduplicating states: two
    objects with the same dump differ in nothing reachable from them (order of unordered
    sets aside)."""
    seen = {}

    def walk(x):
        if x is None or isinstance(x, (bool, int, str, bytes)):
            return x
        if isinstance(x, float):
            return repr(float(x))
        if isinstance(x, type) or callable(x) and not hasattr(x, "__dict__"):
            return "<callable>"
        import enum

        if isinstance(x, enum.Enum):
            return str(x)
        i = id(x)
        if i in seen:
            return ("ref", seen[i])
        seen[i] = len(seen)
        if isinstance(x, dict):
            return ("d", [(walk(k), walk(v)) for k, v in x.items()])
        if isinstance(x, (list, tuple)):
            return ("l", [walk(v) for v in x])
        if isinstance(x, (set, frozenset)):
            return ("s", sorted((walk(v) for v in x), key=repr))
        if hasattr(x, "tolist"):
            return ("a", repr(x.tolist()))
        if hasattr(x, "__dict__"):
            return (
                type(x).__name__,
                [(k, walk(v)) for k, v in sorted(vars(x).items()) if k not in skip],
            )
        return repr(x)

    return digest(walk(root))


# ---------------------------------------------------------------- reporting


def write_replay(prop, violation):
    d = os.path.join(RESULTS, "out")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-replay.json")
    with open(path, "w") as f:
        json.dump({"property": prop, **violation}, f, indent=1, default=repr)
    return path


def main(argv):
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    module = None
    try:
        use_repo()
        module = load(prop)
        total, violations = explore(module, tier)
    except Exception as e:  # the package does not even import
        total = Recorder()
        violations = [
            {
                "what": f"raised {type(e).__name__}: {e}",
                "detail": {"traceback": traceback.format_exc().splitlines()[-12:]},
                "case": None,
            }
        ]
    listed = known_findings(prop)
    for fid in total.known:
        if fid not in listed:
            violations.append(
                {"what": f"unlisted finding {fid}", "detail": total.known[fid], "case": None}
            )
    wall = time.time() - t0
    c = dict(total.counts)
    coverage = {
        "states": len(total.states),
        "transitions": c.pop("transitions", 0),
        "traces_validated_against_impl": c.pop("traces", 0),
        "cases": c.pop("cases", 0),
        "distinct_outcomes": len(total.outcomes),
        "exhaustive": not violations,
        "slowest_case_cpu_s": round(total.slowest, 1),
        "bounds": getattr(module, "BOUNDS", {}).get(tier, ""),
        "samples": total.samples or ["(none)"],
        **c,
    }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(RESULTS, "evidence"), exist_ok=True)
    with open(os.path.join(RESULTS, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=plain)
    print(
        f"{prop} {tier}: cases={coverage['cases']} states={coverage['states']} "
        f"transitions={coverage['transitions']} "
        f"traces={coverage['traces_validated_against_impl']} "
        f"outcomes={coverage['distinct_outcomes']} wall={wall:.1f}s "
        + " ".join(f"{k}={v}" for k, v in c.items())
    )
    for fid in total.known:
        if fid in listed:
            print(f"KNOWN-FINDING: property={prop} {listed[fid]} ({total.known[fid]})")
    if violations:
        v = violations[0]
        path = write_replay(prop, v)
        print(json.dumps({k: v[k] for k in ("what", "detail", "case")}, default=repr)[:3000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if coverage["cases"] == 0 or coverage["traces_validated_against_impl"] == 0:
        print("nothing was explored")
        return 3
    return 0


def replay(path):
    use_repo()
    r = json.load(open(path))
    module = load(r["property"])
    rec = Recorder()
    v = run_case(module.run, r["case"], rec)
    if v is None:
        print("the recorded case passes now")
        return 0
    print(json.dumps(v, indent=1, default=repr))
    return 1
