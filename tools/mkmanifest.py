"""Writes MANIFEST.json from the checks (run by hand after adding one)."""
import importlib
import json
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))
sys.dont_write_bytecode = True
from pbt import env  # noqa: E402

env.add_hypothesis()
RUN = "PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python run.py"
properties = [json.loads(x) for x in (VERIF / "properties.jsonl").read_text().splitlines()]
TECHNIQUES = {
    "C01": "stateful generation, stored graph against a reference model up to renaming",
    "C02": "generated literals of every kind, typed values against the reference model",
    "C03": "stateful generation, invariant on identifiers over the history",
    "C04": "stateful generation, indexes against those derived from the stored graph",
    "C05": "generated and fuzzed queries, rejected ones compared by state before and after",
    "C06": "generated and fuzzed queries without MAKE, files compared before and after; differential run with and without FIND",
    "C07": "generated graphs and patterns, answer against the set of stored names",
    "C08": "generated patterns, parsed FIND against the reference model",
    "C09": "one generated mistake in a generated query, must be refused",
    "C10": "metamorphic: one query in two layouts and keyword cases",
    "C11": "metamorphic: one list of patterns cut into queries in two ways",
    "C12": "model-based generation of DBMS folders and operations",
    "C13": "fuzzed names, every file-system call watched and the tree compared",
    "C14": "interleaved histories against each history alone, in fresh processes",
    "C15": "model-based generation of records and collisions",
    "C16": "model-based generation of index operations",
    "C17": "stateful generation, times against two readings of the clock",
    "C18": "fault injection at every file-system call of generated histories",
    "C19": "generated patterns and constructed records, invariant on the ends",
    "C20": "round-trip of generated records and histories",
    "C21": "generated FIND and REPORT, acceptance against the rule",
    "C22": "token and character fuzzing against an independent parser",
    "C23": "model-based generation of shell sessions in fresh processes",
    "C24": "metamorphic: keyword-like words in place of plain ones",
    "C25": "metamorphic: a history spread over real sessions of several environments against one session",
    "C26": "size-scaled generation against the reference model, fuzzing with repeated pieces against an independent parser",
    "C27": "fault enumeration over generated creations and deletions, judged by an all-or-nothing model and follow-up operations",
    "C28": "grammar-based fuzzing with code fragments, judged by an audit hook and trap objects",
    "C29": "stateful generation of sessions of the real program and of their ends, against the same lines run directly",
    "C30": "schedule exploration of processes that wait at every file access, each against itself alone",
    "C31": "enumeration of fault points in every storage function, against a model of what it stores",
}
checks, missing = [], []
for prop in properties:
    name = prop["id"]
    if not (VERIF / "checks" / f"{name.lower()}.py").exists():
        missing.append({"property": name, "reason": "its check is not built yet"})
        continue
    module = importlib.import_module(f"checks.{name.lower()}")
    checks.append(
        {
            "property": name,
            "quick_cmd": f"{RUN} {name}",
            "thorough_cmd": f"VERIF_TIER=thorough {RUN} {name}",
            "technique": TECHNIQUES[name],
            "level": module.LEVEL,
            "level_note": "Random search, no proof: the property held for every generated case (see the evidence). Assumes: " + "; ".join(module.ASSUMPTIONS) + ".",
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B tools/setup_check.py",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo. Every check imports the code from /repo's working tree and works in a scratch folder it creates and removes.",
}
(VERIF / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(checks), "checks", [m["property"] for m in missing])
