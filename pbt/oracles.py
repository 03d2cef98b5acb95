"""Judgements shared by several checks."""
from pbt import model, sut
from pbt.violation import Violation


def check_made(before: sut.State, after: sut.State, statements: list, text: str) -> None:
    """The graph after an accepted query is the graph before it and exactly the written patterns."""
    what = f"after {text!r}"
    sut.records_kept(before.database, after.database, what)
    new = [k for k in after.database if k not in before.database]
    expected = model.expected_components(statements)
    found = model.stored_components(after.database, new)
    if expected != found:
        raise Violation(
            f"{what} the new part of the graph is not what was written, {model.difference(expected, found)}"
        )


def run_well_formed(gdbms, before: sut.State, statements: list, text: str) -> sut.State:
    sut.must_query(text, gdbms)
    after = sut.read_state(gdbms, f"after {text!r}")
    check_made(before, after, statements, text)
    return after


def expected_indexes(database: dict) -> dict:
    """What the three indexes must be for a stored graph."""
    labels, names, owned = set(), set(), {}
    for key, node in database.items():
        labels.add(node["node_label"])
        for rel in sut.relations_of(node):
            if rel["relationship_name"]:
                names.add(rel["relationship_name"])
            owned.setdefault(key, set()).add(rel["relationship_metadata"]["wn"])
    return {"node_labels": labels, "relationship_names": names, "node_relationships": owned}


def raw_indexes(state: sut.State) -> dict:
    """The indexes as they are on disk; an entry of a node without relationships is an entry."""
    return {
        "node_labels": set(state.indexes["node_labels"]),
        "relationship_names": set(state.indexes["relationship_names"]),
        "node_relationships": {k: set(v) for k, v in state.indexes["node_relationships"].items()},
    }


def check_indexes(state: sut.State, what: str) -> None:
    expected, found = expected_indexes(state.database), raw_indexes(state)
    for name in expected:
        if expected[name] != found[name]:
            raise Violation(
                f"{what} the {name} index is {found[name]!r}, the stored graph needs {expected[name]!r}"
            )


def check_identifiers(state: sut.State, what: str) -> None:
    identifiers = sut.all_identifiers(state.database)
    if len(set(identifiers)) != len(identifiers):
        twice = sorted(x for x in set(identifiers) if identifiers.count(x) > 1)
        raise Violation(f"{what} the identifiers {twice} belong to more than one record")
    if identifiers and state.counter <= max(identifiers):
        raise Violation(f"{what} the counter is {state.counter}, identifier {max(identifiers)} is in use")


def check_references(database: dict, what: str) -> None:
    nodes = {node["node_metadata"]["wn"] for node in database.values()}
    for key, node in database.items():
        for rel in sut.relations_of(node):
            start, end, own = rel["wn_from_node"], rel["wn_to_node"], node["node_metadata"]["wn"]
            if start == end:
                raise Violation(f"{what} a relationship joins node {start} to itself")
            if start not in nodes or end not in nodes:
                raise Violation(f"{what} a relationship of node {key} joins {start} and {end}, not both are nodes")
            if start != own:
                raise Violation(f"{what} node {key} holds a relationship that starts from {start}")
