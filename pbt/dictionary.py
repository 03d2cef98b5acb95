"""
A dictionary of constants, as fuzzers take one from the program under test: the numbers and texts
that the source holds and that the generators here were not written with (known_constants.json lists
the ones they were). They are sizes and words worth generating, nothing more: no verdict looks at them.
"""
import ast
import json
from collections import Counter
from pathlib import Path

from pbt import env

KNOWN = Path(__file__).resolve().parent / "known_constants.json"
NOT_THE_PROGRAM = {"tests", "testing", "docs", ".git", "venv", ".venv", "__pycache__"}
MOST = 60
OPERATIONS = {
    ast.Add: lambda a, b: a + b,
    ast.Sub: lambda a, b: a - b,
    ast.Mult: lambda a, b: a * b,
    ast.Pow: lambda a, b: a**b if 0 <= b <= 300 and abs(a) <= 300 else None,
    ast.LShift: lambda a, b: a << b if 0 <= b <= 300 else None,
}


def _number(node):
    """The number a node stands for, if it is one."""
    if isinstance(node, ast.Constant) and type(node.value) in (int, float):
        return node.value
    if isinstance(node, ast.BinOp) and type(node.op) in OPERATIONS:
        left, right = _number(node.left), _number(node.right)
        if type(left) is int and type(right) is int:
            return OPERATIONS[type(node.op)](left, right)
    return None


def _constants(tree) -> Counter:
    found: Counter = Counter()
    stack = [tree]
    while stack:
        node = stack.pop()
        body = getattr(node, "body", None)
        skipped = None
        if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)) and body:
            if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                skipped = body[0]
        value = _number(node)
        if value is not None:
            found[json.dumps(value)] += 1
        if isinstance(node, ast.Constant) and type(node.value) in (str, bytes):
            text = node.value if isinstance(node.value, str) else node.value.decode("latin-1")
            found[json.dumps(text)] += 1
        stack += [x for x in ast.iter_child_nodes(node) if x is not skipped]
    return found


def constants(root) -> Counter:
    """All constants of the program below a folder, with how often each is there."""
    found: Counter = Counter()
    for path in sorted(Path(root).rglob("*.py")):
        parts = path.relative_to(root).parts
        if NOT_THE_PROGRAM & set(parts) or path.name.startswith("test_") or path.name == "conftest.py":
            continue
        try:
            found += _constants(ast.parse(path.read_text()))
        except (SyntaxError, ValueError, OSError):
            continue
    return found


def _unknown() -> list:
    try:
        known = Counter(json.loads(KNOWN.read_text()))
        return [json.loads(x) for x in sorted(constants(env.REPO) - known)]
    except Exception:  # a dictionary is a help, never a reason to give no answer
        return []


_new = _unknown()
NUMBERS = sorted({abs(int(x)) for x in _new if not isinstance(x, str) and abs(x) < 10**60})[:MOST]
FLOATS = sorted({abs(x) for x in _new if isinstance(x, float)})[:MOST]
TEXTS = sorted((x for x in _new if isinstance(x, str) and 0 < len(x) <= 200), key=len)[:MOST]
_pieces = {"".join(c if c.isalnum() or c == "_" else " " for c in x) for x in TEXTS}
WORDS = sorted({w for x in _pieces for w in x.split() if len(w) <= 40}, key=lambda w: (len(w), w))[:MOST]
CHARS = sorted({c for x in TEXTS for c in x} | {chr(n) for n in NUMBERS if 32 <= n < 0x110000 and not 0xD800 <= n < 0xE000})


def sizes(most: int, least: int = 0) -> list:
    """The numbers and their neighbours, within bounds."""
    return sorted({m for n in NUMBERS for m in (n - 1, n, n + 1, n + 2) if least <= m <= most})


def numbers() -> list:
    return sorted({m for n in NUMBERS for m in (n - 1, n, n + 1) if m >= 0})
