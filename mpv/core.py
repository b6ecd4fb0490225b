"""Registry, generated-input search, shrinking, replay and evidence."""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

from . import runtime
from .runtime import REPO, VERIF

SUBS = collections.OrderedDict()  # property -> list of Sub


class Violation(Exception):
    """The property does not hold for the case at hand."""


class Skip(Exception):
    """The case is outside of the domain of the property (counted)."""


class CaseTimeout(BaseException):
    """A single case takes orders of magnitude longer than usual."""


CASE_LIMIT = 60  # seconds of CPU time, a case takes at most few seconds
DEPTH = 2  # factor for the numbers of cases stated in the checks


def _too_long(signum, frame):
    raise CaseTimeout()


class Sub:
    """One generated-input search that decides one aspect of a property.

    strategy draws a JSON-able case; body raises Violation if the property is
    violated for this case and returns None/True (non-trivial), False
    (trivial), or a list of tags (non-trivial, tags are counted).
    """

    def __init__(self, prop, name, strategy, body, rule, quick, thorough,
                 shards, examples):
        self.prop, self.name, self.strategy = prop, name, strategy
        self.body, self.rule = body, rule
        self.quick, self.thorough = quick, thorough
        self.shards, self.examples = shards, examples


def sub(prop, strategy, rule, quick=200, thorough=None, shards=1, examples=()):
    def register(body):
        SUBS.setdefault(prop, []).append(Sub(
            prop, body.__name__, strategy, body, rule, DEPTH * quick,
            DEPTH * (thorough if thorough is not None else 8 * quick),
            shards, list(examples)))
        return body
    return register


# --- running one case -------------------------------------------------------

def _from_repo(tb):
    """Was an exception raised by, or below, code of the repository?"""
    for frame in traceback.extract_tb(tb):
        name = frame.filename
        if name.startswith(REPO + os.sep) or "movement_primitives" in name:
            return True
    return False


def run_body(s, case):
    """Returns (kind, info): ok / trivial / skip / violation.

    Exceptions of the code under test for valid arguments are violations,
    exceptions of the machinery are passed on.
    """
    import numpy as np
    np.random.seed(12345)
    signal.signal(signal.SIGPROF, _too_long)
    signal.setitimer(signal.ITIMER_PROF, CASE_LIMIT)
    try:
        with np.errstate(all="ignore"):
            result = s.body(json.loads(json.dumps(case)))
    except Violation as e:
        return "violation", str(e)
    except Skip as e:
        return "skip", str(e)
    except (MemoryError, KeyboardInterrupt):
        raise
    except CaseTimeout as e:
        if _from_repo(e.__traceback__):
            return "violation", "no result within %d s" % CASE_LIMIT
        return "skip", "too expensive for the reference"
    except Exception as e:
        if _from_repo(e.__traceback__):
            frame = [f for f in traceback.extract_tb(e.__traceback__)
                     if f.filename.startswith(REPO)
                     or "movement_primitives" in f.filename][-1]
            return "violation", "%s in %s: %s" % (
                type(e).__name__, frame.name, e)
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    if result is False:
        return "trivial", []
    return "ok", list(result) if isinstance(result, (list, tuple)) else []


def _seed(*parts):
    text = "/".join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:6], "big")


def _key(case):
    text = json.dumps(case, sort_keys=True)
    return hashlib.sha256(text.encode()).hexdigest()[:16]


class _Failed(Exception):
    pass


def _task(args):
    prop, index, shard, n_examples, base_seed, deadline = args
    s = SUBS[prop][index]
    out = dict(sub=s.name, index=index, shard=shard, evaluations=0, skipped=0,
               trivial=0, keys=set(), tags=collections.Counter(), samples=[],
               failure=None, error=None, cut=False)
    t0 = time.time()
    try:
        _search(s, shard, n_examples, base_seed, deadline, out)
    except BaseException:
        out["error"] = traceback.format_exc()
    out["seconds"] = time.time() - t0
    return out


def _search(s, shard, n_examples, base_seed, deadline, out):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 60
    failing = []  # (case, message), last one is the smallest

    def evaluate(case):
        kind, info = run_body(s, case)
        if not failing:
            out["evaluations"] += 1
            if kind == "skip":
                out["skipped"] += 1
            elif kind == "trivial":
                out["trivial"] += 1
            elif kind == "ok":
                out["keys"].add(_key(case))
                out["tags"].update(info)
                if len(out["samples"]) < 2 and (
                        shard == 0 or len(out["samples"]) == 0):
                    out["samples"].append(case)
        if kind == "violation":
            failing.append((case, info))
            raise _Failed(info)

    if shard == 0:
        for case in s.examples:
            try:
                evaluate(json.loads(json.dumps(case)))
            except _Failed:
                out["failure"] = failing[-1]
                return

    @hypothesis.seed(_seed(s.prop, s.name, shard, base_seed))
    @settings(max_examples=n_examples, database=None, deadline=None,
              phases=(Phase.generate, Phase.shrink),
              suppress_health_check=list(HealthCheck),
              report_multiple_bugs=False, print_blob=False,
              verbosity=hypothesis.Verbosity.quiet)
    @given(s.strategy)
    def search(case):
        if not failing and time.time() > deadline:
            out["cut"] = True
            return
        evaluate(case)

    try:
        search()
    except _Failed:
        pass
    except Exception:
        if not failing:
            raise
    if failing:
        # the last failing case is the shrunk one; make sure it reproduces
        for case, message in failing[:-6:-1] + failing[:1]:
            kind, info = run_body(s, case)
            if kind == "violation":
                out["failure"] = (case, info)
                return
        out["failure"] = (failing[0][0], failing[0][1] + " [not reproduced]")


# --- known findings ---------------------------------------------------------

def known_findings(prop):
    """Entries ``known: property=<id> sub=<name> key=<key> <what fails>``.

    key is the hash of the exact (shrunk) case; nothing else is suppressed.
    """
    found = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("known:"):
                    fields = dict(
                        w.split("=", 1) for w in line.split()[1:4])
                    if fields.get("property") == prop:
                        found.append((fields["sub"], fields["key"],
                                      line.split(None, 4)[4].strip()))
    return found


# --- command line -----------------------------------------------------------

def load(prop):
    importlib.import_module("mpv.checks.%s" % prop.lower())
    return SUBS[prop]


def replay(path):
    with open(path) as f:
        data = json.load(f)
    subs = {s.name: s for s in load(data["property"])}
    kind, info = run_body(subs[data["sub"]], data["case"])
    print("%s %s: %s" % (data["sub"], kind, info))
    if kind == "violation":
        print("VIOLATION property=%s replay=%s" % (data["property"], path))
        return 1
    return 0


def main(argv):
    t0 = time.time()
    try:
        runtime.setup()
        if argv[0] == "--setup":  # everything can be built and imported
            import hypothesis
            print("ready, hypothesis", hypothesis.__version__)
            return 0
        if argv[0] == "--replay":
            return replay(argv[1])
        prop = argv[0]
        subs = load(prop)
        if len(argv) > 1:  # development: only some of the searches
            keep = [s for s in subs if s.name in argv[1:]]
            SUBS[prop] = subs = keep
        return run(prop, subs, t0)
    except Exception:
        traceback.print_exc()
        return 2


def run(prop, subs, t0):
    tier = os.environ.get("VERIF_TIER", "quick")
    base_seed = int(os.environ.get("VERIF_SEED", "1"))
    deadline = t0 + (500 if tier == "quick" else 6000)
    tasks = []
    for i, s in enumerate(subs):
        n = s.quick if tier == "quick" else s.thorough
        n = max(1, int(n * float(os.environ.get("VERIF_DEV_SCALE", "1"))))
        for shard in range(s.shards):
            tasks.append((prop, i, shard, -(-n // s.shards), base_seed,
                          deadline))
    n_workers = max(1, min(8, os.cpu_count() or 1, len(tasks)))
    context = multiprocessing.get_context("fork")
    with context.Pool(n_workers, maxtasksperchild=4) as pool:
        results = list(pool.imap_unordered(_task, tasks, chunksize=1))
    return report(prop, subs, results, tier, base_seed, t0)


def report(prop, subs, results, tier, base_seed, t0):
    results.sort(key=lambda r: (r["index"], r["shard"]))
    errors = [r for r in results if r["error"]]
    per_sub, keys, samples, violations = {}, 0, [], []
    evaluations = 0
    for i, s in enumerate(subs):
        rs = [r for r in results if r["index"] == i]
        distinct = set().union(*(r["keys"] for r in rs))
        tags = collections.Counter()
        for r in rs:
            tags.update(r["tags"])
        per_sub[s.name] = dict(
            evaluations=sum(r["evaluations"] for r in rs),
            distinct_nontrivial=len(distinct),
            trivial=sum(r["trivial"] for r in rs),
            outside_domain=sum(r["skipped"] for r in rs),
            seconds=round(sum(r["seconds"] for r in rs), 2),
            stopped_early=any(r["cut"] for r in rs),
            classes=dict(sorted(tags.items())), rule=s.rule)
        evaluations += per_sub[s.name]["evaluations"]
        keys += len(distinct)
        for r in rs[:1]:
            samples += [dict(search=s.name, case=c) for c in r["samples"][:2]]
        failures = [r["failure"] for r in rs if r["failure"]]
        if failures:
            case, message = min(failures, key=lambda f: len(json.dumps(f[0])))
            violations.append((s, case, message))
    status = 0
    reported = 0
    known = known_findings(prop)
    for s, case, message in violations:
        match = [k for k in known if k[0] == s.name and k[1] == _key(case)]
        if match:
            print("KNOWN-FINDING: property=%s %s" % (prop, match[0][2]))
            continue
        reported += 1
        directory = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(directory, exist_ok=True)
        path = os.path.join(directory, "%s-%s.json" % (prop, s.name))
        with open(path, "w") as f:
            json.dump(dict(property=prop, sub=s.name, message=message,
                           key=_key(case), case=case), f, indent=1)
        print("%s.%s: %s" % (prop, s.name, message))
        print("  case: %s" % json.dumps(case)[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        status = 1
    evidence = dict(
        property=prop, tier=tier, seed=base_seed, level="exploration",
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=keys,
            rule="Cases are drawn by Hypothesis, one search per aspect; a "
            "case counts once per search if it satisfies the search's rule: "
            + " ".join("[%s] %s" % (s.name, s.rule) for s in subs),
            searches=per_sub, samples=samples),
        wall_s=round(time.time() - t0, 2), violations=reported)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for r in errors:
        print("ERROR in %s: %s" % (r["sub"], r["error"]), file=sys.stderr)
    if errors and status == 0:
        return 2
    print("%s: %d cases, %d non-trivial, %d searches, %.1f s" % (
        prop, evaluations, keys, len(subs), time.time() - t0))
    return status
