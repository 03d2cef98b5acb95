"""Writes pbt/known_constants.json: the constants of /repo that the generators were written with."""
import json
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from pbt import dictionary  # noqa: E402

found = dictionary.constants("/repo")
dictionary.KNOWN.write_text(json.dumps(dict(sorted(found.items())), indent=0, ensure_ascii=True) + "\n")
print(len(found))
