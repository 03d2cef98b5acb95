"""
Runs one check: a Hypothesis search in several processes, each a pure function of the code,
VERIF_SEED and its own number; writes the evidence and, for a violation, the replay file.

A check is a module with
  PROPERTY, LEVEL, RULE, ASSUMPTIONS
  EXAMPLES = {"quick": n, "thorough": n}      cases over all shards
  strategy(tier)                              a Hypothesis strategy of JSON-able cases
  check_case(case, scratch) -> tags           raises Violation; tags is a dict of counters and
                                              "nontrivial": bool
  shard_init(scratch)                         optional, called once in every process
"""
import faulthandler
import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

from pbt import env
from pbt.violation import Violation

VERIF = Path(__file__).resolve().parent.parent
SHARDS = 8
CASE_SECONDS = 100  # a case takes milliseconds; one that takes this long hangs
SHRINK_SECONDS = 45
TIME_LIMIT = {"quick": 240, "thorough": 5400}


class CaseHangs(BaseException):
    pass


def _alarm(_signum, _frame):
    raise CaseHangs()


def known_findings(prop: str) -> list:
    """The open findings of a property: lines `open: property=<id> key=<key> <what fails>`."""
    found = []
    path = VERIF / "known_findings.txt"
    for line in path.read_text().splitlines() if path.exists() else []:
        if line.startswith(f"open: property={prop} "):
            key = next((w[4:] for w in line.split() if w.startswith("key=")), "")
            found.append((key, line.split(f"property={prop} ", 1)[1]))
    return found


def case_digest(case) -> str:
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:20]


class Recorder:
    def __init__(self, known: set, case_seconds: int = CASE_SECONDS) -> None:
        self.case_seconds = case_seconds
        self.evaluations = 0
        self.slowest = 0.0
        self.nontrivial = set()
        self.counters: dict = {}
        self.samples: list = []
        self.failure = None
        self.known = known
        self.known_seen: set = set()

    def run(self, check, case, scratch) -> None:
        self.evaluations += 1
        began = time.monotonic()
        signal.setitimer(signal.ITIMER_REAL, self.case_seconds)
        try:
            tags = check.check_case(case, scratch) or {}
        except Violation as violation:
            if violation.key and violation.key in self.known:
                self.known_seen.add(violation.key)
                return
            self.failure = {"case": case, "message": str(violation)}
            raise
        except CaseHangs:
            self.failure = {"case": case, "message": f"no answer within {self.case_seconds} s"}
            raise
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.slowest = max(self.slowest, time.monotonic() - began)
        nontrivial = tags.pop("nontrivial", False)
        for name, count in tags.items():
            self.counters[name] = self.counters.get(name, 0) + int(count)
        if nontrivial:
            digest = case_digest(case)
            if digest not in self.nontrivial:
                self.nontrivial.add(digest)
                if len(self.samples) < 3 and len(json.dumps(case)) < 1500:
                    self.samples.append(case)

    def result(self) -> dict:
        return {
            "evaluations": self.evaluations,
            "slowest": self.slowest,
            "nontrivial": sorted(self.nontrivial),
            "counters": self.counters,
            "samples": self.samples,
            "failure": self.failure,
            "known_seen": sorted(self.known_seen),
        }


def prepare(check, scratch: Path) -> None:
    scratch.mkdir(parents=True, exist_ok=True)
    env.load_sut(scratch)
    signal.signal(signal.SIGALRM, _alarm)
    if hasattr(check, "shard_init"):
        check.shard_init(scratch)


def shard(check, tier: str, number: int, seed: int, examples: int, scratch: Path, stop: Path, known: set) -> dict:
    env.add_hypothesis()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.configuration import set_hypothesis_home_dir
    from hypothesis.errors import Flaky, HypothesisWarning
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    set_hypothesis_home_dir(str(scratch / "hypothesis"))
    warnings.simplefilter("ignore", HypothesisWarning)
    strategy = check.strategy(tier)
    prepare(check, scratch)
    recorder = Recorder(known, getattr(check, "CASE_SECONDS", CASE_SECONDS))
    ends = time.monotonic() + TIME_LIMIT[tier]

    @hypothesis.seed(int.from_bytes(hashlib.sha256(f"{seed}/{check.PROPERTY}/{number}".encode()).digest()[:6], "big"))
    @settings(
        max_examples=examples,
        database=None,
        deadline=None,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
    )
    @given(strategy)
    def search(case):
        if recorder.failure is None and (stop.exists() or time.monotonic() > ends):
            recorder.counters["skipped"] = recorder.counters.get("skipped", 0) + 1
            return
        # what is run, printed and replayed is what the replay file holds
        recorder.run(check, json.loads(json.dumps(case)), scratch)

    try:
        for case in getattr(check, "FIXED_CASES", [])[number::SHARDS]:
            recorder.run(check, case, scratch)
        search()
    except (Violation, CaseHangs, Flaky):
        pass
    if recorder.failure is not None:
        stop.touch()
    return recorder.result()


def run_shards(check, tier: str, seed: int, scratch: Path, known: set) -> list:
    total = check.EXAMPLES[tier]
    # also for a shard that gave up its privileges
    (scratch / "stop").mkdir()
    os.chmod(scratch / "stop", 0o777)
    stop = scratch / "stop" / "now"
    children = {}
    for number in range(SHARDS):
        result_path = scratch / f"result{number}.json"
        pid = os.fork()
        if pid == 0:
            status = 3
            try:
                faulthandler.enable()
                # opened before a shard may give up its privileges
                with open(result_path, "w") as handle:
                    examples = total // SHARDS + (number < total % SHARDS)
                    try:
                        result = shard(check, tier, number, seed, max(examples, 1), scratch / f"shard{number}", stop, known)
                        status = 0
                    except BaseException:
                        result = {"error": traceback.format_exc()}
                    json.dump(result, handle)
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(status)
        children[pid] = result_path
    results = []
    while children:
        pid, status = os.wait()
        if pid not in children:
            continue
        path = children.pop(pid)
        try:
            result = json.loads(path.read_text())
        except ValueError:
            result = {"error": f"the process ended with status {status} and no result"}
        results.append((path.name, result))
    return [r for _, r in sorted(results)]


def write_replay(prop: str, failure: dict) -> Path:
    folder = VERIF / "replays"
    folder.mkdir(exist_ok=True)
    path = folder / f"{prop}-{case_digest(failure['case'])[:10]}.json"
    path.write_text(json.dumps({"property": prop, **failure}, indent=1))
    return path


def replay(check, path: str, scratch: Path) -> int:
    saved = json.loads(Path(path).read_text())
    env.add_hypothesis()
    check.strategy("quick")
    prepare(check, scratch / "shard0")
    try:
        check.check_case(saved["case"], scratch / "shard0")
    except Violation as violation:
        print(f"replay: {violation}")
        print(f"VIOLATION property={check.PROPERTY} replay={path}")
        return 1
    print("replay: the property holds for this case")
    return 0


def main(argv: list) -> int:
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in TIME_LIMIT else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    env.add_hypothesis()
    check = importlib.import_module(f"checks.{prop.lower()}")
    started = time.monotonic()
    scratch = Path(tempfile.mkdtemp(prefix="wgpbt_", dir=env.scratch_parent()))
    os.chmod(scratch, 0o755)
    try:
        if hasattr(check, "before"):
            check.before(scratch)
        if len(argv) > 2 and argv[1] == "--replay":
            return replay(check, argv[2], scratch)
        known = known_findings(prop)
        results = run_shards(check, tier, seed, scratch, {key for key, _ in known})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    errors = [r["error"] for r in results if "error" in r]
    good = [r for r in results if "error" not in r]
    failures = [r["failure"] for r in good if r["failure"]]
    counters: dict = {}
    for r in good:
        for name, count in r["counters"].items():
            counters[name] = counters.get(name, 0) + count
    samples = [s for r in good for s in r["samples"]][:8]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": check.LEVEL,
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in good),
            "distinct_nontrivial": len({d for r in good for d in r["nontrivial"]}),
            "rule": check.RULE,
            "samples": samples,
            "classes": dict(sorted(counters.items())),
        },
        "assumptions": check.ASSUMPTIONS,
        "wall_s": round(time.monotonic() - started, 2),
        "violations": len(failures),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1))
    for key, what in known:
        print(f"KNOWN-FINDING: property={prop} {what}")
    if failures:
        failure = min(failures, key=lambda f: len(json.dumps(f["case"])))
        path = write_replay(prop, failure)
        print(failure["message"][:3000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("\n".join(errors)[:6000])
        print(f"error of the check {prop}, not a verdict")
        return 2
    coverage = evidence["coverage"]
    print(
        f"{prop} held: {coverage['evaluations']} cases, {coverage['distinct_nontrivial']} distinct non-trivial, "
        f"{evidence['wall_s']} s, the slowest case {max(r['slowest'] for r in good):.1f} s {json.dumps(coverage['classes'])}"
    )
    return 0
