"""The code under test, called the way its users call it, and its files, read without its help."""
import contextlib
import io
import json
import os
import shutil
from pathlib import Path
from typing import Any, Callable, NamedTuple, Optional

from pbt.violation import Violation


class Outcome(NamedTuple):
    ok: bool
    value: Any
    error: Optional[BaseException]
    out: str

    def why(self) -> str:
        return f"{type(self.error).__name__}: {self.error}"


def call(function: Callable, *args, **kwargs) -> Outcome:
    """Calls the code under test; what it prints and raises is part of the outcome."""
    buffer = io.StringIO()
    try:
        with contextlib.redirect_stdout(buffer), contextlib.redirect_stderr(io.StringIO()):
            value = function(*args, **kwargs)
    except (Exception, SystemExit) as error:
        return Outcome(False, None, error, buffer.getvalue())
    return Outcome(True, value, None, buffer.getvalue())


def must(what: str, function: Callable, *args, **kwargs) -> Any:
    outcome = call(function, *args, **kwargs)
    if not outcome.ok:
        raise Violation(f"{what} raised {outcome.why()}")
    return outcome.value


def query(text: str, gdbms) -> Outcome:
    from wiggle_shell.core.query.query import query as run_query

    return call(run_query, text, gdbms)


def must_query(text: str, gdbms, what: str = "a well-formed query") -> Outcome:
    outcome = query(text, gdbms)
    if not outcome.ok:
        raise Violation(f"{what} was refused with {outcome.why()}\nquery: {text!r}")
    return outcome


# ---------------------------------------------------------------------------- scratch DBMSs

_counter = 0


def fresh_folder(scratch: Path) -> Path:
    global _counter
    _counter += 1
    folder = scratch / f"case{_counter}"
    folder.mkdir(parents=True)
    return folder


@contextlib.contextmanager
def case_folder(scratch: Path):
    folder = fresh_folder(scratch)
    try:
        yield folder
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def new_dbms(folder: Path, name: str = "graph"):
    from wiggle_shell.core.select_gdbms.select_gdbms import get_new_gdbms_file_paths

    return must(f"creating the DBMS {name!r}", get_new_gdbms_file_paths, name, folder)


def set_counter(gdbms, number: int) -> None:
    """An empty database whose counter is already at a number: what wiping one leaves."""
    from wiggle_query_language.graph.state.wiggle_number import update_wiggle_number

    if number:
        must("update_wiggle_number", update_wiggle_number, gdbms.wiggle_number_file_path, number)


# ---------------------------------------------------------------------------- reading the files


class State(NamedTuple):
    database: dict
    indexes: dict
    counter: int

    def same_as(self, other: "State") -> bool:
        return self.dump() == other.dump()

    def dump(self) -> str:
        indexes = {
            name: (
                {k: sorted(set(v)) for k, v in index.items()}
                if isinstance(index, dict)
                else sorted(set(index))
            )
            for name, index in self.indexes.items()
        }
        return json.dumps([self.database, indexes, self.counter], sort_keys=True)


def _no_constant(text: str):
    raise ValueError(f"{text} is not JSON")


def _unique_keys(pairs):
    found = dict(pairs)
    if len(found) != len(pairs):
        raise ValueError("an object has the same key twice")
    return found


def _load_json(path: Path):
    return json.loads(
        Path(path).read_text(encoding="utf-8"),
        parse_constant=_no_constant,
        object_pairs_hook=_unique_keys,
    )


def read_state(gdbms, what: str = "") -> State:
    """Reads the three files of a DBMS; files that are not well formed are a violation."""
    try:
        database = _load_json(gdbms.database_file_path)
        indexes = _load_json(gdbms.indexes_file_path)
        counter = int(Path(gdbms.wiggle_number_file_path).read_text())
        check_database_shape(database)
        check_indexes_shape(indexes)
    except (ValueError, OSError, KeyError, TypeError, AttributeError) as error:
        raise Violation(
            f"{what} the files of the DBMS are not well formed: {type(error).__name__}: {error}"
        )
    return State(database, indexes, counter)


def _is_int(value: Any) -> bool:
    return type(value) is int


def _need(condition: bool, message: str) -> None:
    if not condition:
        raise ValueError(message)


def check_metadata_shape(metadata: Any) -> None:
    _need(isinstance(metadata, dict), f"metadata is {metadata!r}")
    _need(_is_int(metadata["wn"]), f"wn is {metadata['wn']!r}")
    _need(isinstance(metadata["created_at"], (int, float)), "created_at is not a number")


def check_database_shape(database: Any) -> None:
    _need(isinstance(database, dict), "the database is not a JSON object")
    for key, node in database.items():
        _need(isinstance(node, dict), f"record {key} is not an object")
        check_metadata_shape(node["node_metadata"])
        _need(str(node["node_metadata"]["wn"]) == key, f"record {key} holds another identifier")
        _need(isinstance(node["node_label"], str), f"label of {key}")
        _need(node["properties"] is None or isinstance(node["properties"], dict), f"properties of {key}")
        _need(node["relations"] is None or isinstance(node["relations"], list), f"relations of {key}")
        for relation in node["relations"] or []:
            _need(isinstance(relation, dict), f"relation of {key}")
            check_metadata_shape(relation["relationship_metadata"])
            name = relation["relationship_name"]
            _need(name is None or isinstance(name, str), f"relationship name {name!r}")
            _need(_is_int(relation["wn_from_node"]) and _is_int(relation["wn_to_node"]), "ends")
            props = relation["properties"]
            _need(props is None or isinstance(props, dict), "relationship properties")


def check_indexes_shape(indexes: Any) -> None:
    _need(isinstance(indexes, dict), "the indexes are not a JSON object")
    for name in ("node_labels", "relationship_names"):
        _need(isinstance(indexes[name], list), f"{name} is not a list")
        _need(all(isinstance(x, str) for x in indexes[name]), f"{name} holds {indexes[name]!r}")
    index = indexes["node_relationships"]
    _need(isinstance(index, dict), "node_relationships is not an object")
    for key, value in index.items():
        _need(isinstance(value, list) and all(_is_int(x) for x in value), f"{key}: {value!r}")


def relations_of(node: dict) -> list:
    return node["relations"] or []


def all_identifiers(database: dict) -> list:
    found = []
    for node in database.values():
        found.append(node["node_metadata"]["wn"])
        found.extend(r["relationship_metadata"]["wn"] for r in relations_of(node))
    return found


def sans_times(database: dict) -> dict:
    """The database without its creation times, which no two runs share."""
    copy = json.loads(json.dumps(database))
    for node in copy.values():
        node["node_metadata"].pop("created_at")
        for relation in relations_of(node):
            relation["relationship_metadata"].pop("created_at")
    return copy


def records_kept(before: dict, after: dict, what: str) -> None:
    """Every earlier record is still there, exactly as it was."""
    for key, node in before.items():
        if key not in after:
            raise Violation(f"{what}: record {key} of an earlier query is gone")
        if json.dumps(after[key], sort_keys=True) != json.dumps(node, sort_keys=True):
            raise Violation(
                f"{what}: record {key} of an earlier query changed from {node} to {after[key]}"
            )


def files_of(folder: Path) -> dict:
    """Every path below a folder with its content."""
    found = {}
    for parent, folders, files in os.walk(folder):
        for name in folders:
            path = os.path.join(parent, name)
            found[os.path.relpath(path, folder)] = ("link", os.readlink(path)) if os.path.islink(path) else "folder"
        for name in files:
            path = os.path.join(parent, name)
            if os.path.islink(path):
                found[os.path.relpath(path, folder)] = ("link", os.readlink(path))
            else:
                with open(path, "rb") as handle:
                    found[os.path.relpath(path, folder)] = handle.read()
    return found


def preload() -> None:
    """Imports all of the code under test that is otherwise imported when it is first used."""
    import wiggle_query_language.clauses.find.transform.find_pre  # noqa: F401
    import wiggle_query_language.graph.database.database  # noqa: F401
    import wiggle_query_language.graph.database.indexes.node_relationships_index  # noqa: F401
    import wiggle_shell.core.query.query  # noqa: F401
    import wiggle_shell.core.select_gdbms  # noqa: F401


# ---------------------------------------------------------------------------- what a user types


class NoMoreInput(EOFError):
    """The scripted input is used up."""


@contextlib.contextmanager
def typed_input(lines: list):
    """input() gives these lines in turn; yields the list of those not read yet."""
    import builtins

    left = list(lines)

    def scripted(prompt=""):
        print(prompt)
        if not left:
            raise NoMoreInput("no more input")
        return left.pop(0)

    original = builtins.input
    builtins.input = scripted
    try:
        yield left
    finally:
        builtins.input = original
