"""Records survive export, storage and rebuild."""
import json

from hypothesis import strategies as st

from pbt import dictionary, gen, model, sut
from pbt.violation import Violation

PROPERTY = "C20"
LEVEL = "exploration"
EXAMPLES = {"quick": 6400, "thorough": 80000}
RULE = (
    "Nodes with any label, properties of all types (none, empty, lists, values that look like others: 1, 1.0, true, '1'), "
    "0-4 relationships in and out with or without names, times and update times; alone or in batches of up to 4, built by hand "
    "or read back from what a MAKE query stored. Exported, written as JSON (directly or through the database file) and built "
    "again the node is the same in value and type, its export too (also without what is not set or none), and its relationship index and names are those of its "
    "relationships. Non-trivial: a node with a property and two relationships."
)
ASSUMPTIONS = ["properties are what JSON can hold: the types the language has"]


def strategy(tier):
    scalars = st.one_of(
        st.none(), st.booleans(), st.sampled_from([0, 1, -1, 1.0, 0.0, -0.0, "1", "1.0", "true", "None", "", 10**20, 1e300, 5e-324]),
        st.integers(-(10**30), 10**30), st.floats(allow_nan=False, allow_infinity=False), gen.text("ab1\"'\\é名\n😀 ", max_size=6),
    )
    scalars = gen.hinted(scalars, dictionary.numbers(), [-n for n in dictionary.numbers()], dictionary.FLOATS, gen.HINTED_TEXTS, gen.HINTED_WORDS, dictionary.CHARS)
    values = gen.weighted((4, scalars), (1, st.lists(scalars, max_size=5)))
    props = gen.weighted((1, st.none()), (3, st.dictionaries(gen.KEYS, values, max_size=4)))
    numbers = gen.weighted((4, st.integers(0, 20)), (1, st.integers(0, 10**20)))
    numbers = gen.hinted(numbers, dictionary.numbers())
    moments = st.one_of(st.floats(0, 4e9, allow_nan=False), st.sampled_from([0.0, 1700000000.123456, 1.0]))
    # no time of creation: it is that of the moment the record is built
    metadata = st.tuples(gen.weighted((3, moments), (1, st.none())), gen.weighted((2, st.none()), (1, moments))).map(list)
    relation = st.tuples(numbers, st.one_of(st.none(), st.just(""), gen.REL_NAMES), st.booleans(), numbers, props, metadata).map(list)
    node = st.fixed_dictionaries(
        {"wn": numbers, "label": gen.LABELS, "props": props, "meta": metadata, "relations": gen.weighted((1, st.none()), (4, st.lists(relation, max_size=4)))}
    )
    by_hand = st.fixed_dictionaries({"nodes": st.lists(node, min_size=1, max_size=4, unique_by=lambda x: x["wn"]), "through": st.sampled_from(["text", "file"])})
    made = st.fixed_dictionaries({"q": gen.queries(gen.MAKES, with_find=False, max_makes=2), "layout": gen.LAYOUTS})
    return gen.weighted((3, by_hand), (1, made))


def stated(**fields) -> dict:
    """What is left out when a record is built has its default."""
    return {k: v for k, v in fields.items() if v is not None}


def node_of(case):
    from models.wql import Node, Relationship, WiggleGraphMetalData

    def metadata(wn, times):
        return WiggleGraphMetalData(wn=wn, **stated(created_at=times[0], updated_at=times[1]))

    relations = None
    if case["relations"] is not None:
        relations = []
        for wn, name, outgoing, other, props, times in case["relations"]:
            other = other if other != case["wn"] else other + 1
            ends = (case["wn"], other) if outgoing else (other, case["wn"])
            relations.append(
                Relationship(
                    relationship_metadata=metadata(wn, times), relationship_name=name, wn_from_node=ends[0], wn_to_node=ends[1], **stated(properties=props)
                )
            )
    return Node(node_metadata=metadata(case["wn"], case["meta"]), node_label=case["label"], **stated(properties=case["props"], relations=relations))


def expected_fields(case, node) -> dict:
    """What the fields of the node must be, from the case alone; times of creation that it leaves open are those of the node."""

    def created(times, record):
        return record.created_at if times[0] is None else times[0]

    relations = None
    if case["relations"] is not None:
        relations = []
        for (wn, name, outgoing, other, props, times), built in zip(case["relations"], node.relations):
            other = other if other != case["wn"] else other + 1
            ends = (case["wn"], other) if outgoing else (other, case["wn"])
            relations.append(
                {
                    "relationship_metadata": {"wn": wn, "created_at": created(times, built.relationship_metadata), "updated_at": times[1]},
                    "relationship_name": name,
                    "wn_from_node": ends[0],
                    "wn_to_node": ends[1],
                    "properties": props,
                }
            )
    return {
        "node_metadata": {"wn": case["wn"], "created_at": created(case["meta"], node.node_metadata), "updated_at": case["meta"][1]},
        "node_label": case["label"],
        "properties": case["props"],
        "relations": relations,
    }


def check_lists(node, what) -> None:
    relations = node.relations
    pointed = sut.must(f"export_relationship_indexes of {what}", node.export_relationship_indexes)
    names = sut.must(f"node_relationship_names of {what}", node.node_relationship_names)
    if not relations:
        if pointed is not None or names is not None:
            raise Violation(f"{what} has no relationship, its relationship index is {pointed!r}, its names are {names!r}")
        return
    expected = {str(node.node_metadata.wn): {r.wn_to_node for r in relations}}
    if {str(k): set(v) for k, v in (pointed or {}).items()} != expected:
        raise Violation(f"the relationship index of {what} is {pointed!r}, not {expected!r}")
    if names is None or list(names) != [r.relationship_name for r in relations]:
        raise Violation(f"the relationship names of {what} are {names!r}, not {[r.relationship_name for r in relations]!r}")


def check_shorter(node, given, what) -> None:
    """What an export leaves out has its default again."""
    timed = given["meta"][0] is not None and all(r[5][0] is not None for r in given["relations"] or [])
    for flags in [{"exclude_none": True}] + [{"exclude_unset": True}, {"exclude_unset": True, "exclude_none": True}] * timed:
        export = sut.must(f"exporting {what} with {flags}", node.export_node, **flags)
        again = rebuilt(json.loads(json.dumps(export))[str(given["wn"])], what)
        if model.typed(again.dict()) != model.typed(node.dict()):
            raise Violation(f"{what} is {again.dict()!r} after its export with {flags}, it was {node.dict()!r}")


def rebuilt(record, what):
    from models.wql import Node

    return sut.must(f"building {what} again", lambda: Node(**record))


def check_case(case, scratch):
    if "q" in case:
        return check_made(case, scratch)
    from wiggle_query_language.graph.database.database import add_item_to_database, load_database

    nodes = [sut.must("building a node", node_of, n) for n in case["nodes"]]
    exports = []
    for node, given in zip(nodes, case["nodes"]):
        what = f"node {given!r}"
        export = sut.must(f"exporting {what}", node.export_node)
        if list(export) != [str(given["wn"])]:
            raise Violation(f"the export of {what} is keyed by {list(export)}")
        if model.typed(next(iter(export.values()))) != model.typed(expected_fields(given, node)):
            raise Violation(f"the export of {what} is {export!r}")
        exports.append(export)
        check_lists(node, what)
        check_shorter(node, given, what)
        if node.wn != given["wn"]:
            raise Violation(f"the wn of {what} is {node.wn!r}")
    stored: dict = {}
    if case["through"] == "text":
        for export in exports:
            stored.update(json.loads(json.dumps(export)))
    else:
        with sut.case_folder(scratch) as folder:
            gdbms = sut.new_dbms(folder)
            for export in exports:
                sut.must("storing the export", add_item_to_database, gdbms.database_file_path, export)
            stored = sut.must("loading the database", load_database, gdbms.database_file_path)
    for node, given in zip(nodes, case["nodes"]):
        what = f"node {given!r}"
        again = rebuilt(stored[str(given["wn"])], what)
        if not (again == node) or model.typed(again.dict()) != model.typed(node.dict()):
            raise Violation(f"{what} is {again.dict()!r} after it was stored, it was {node.dict()!r}")
        if model.typed(again.export_node()) != model.typed(node.export_node()):
            raise Violation(f"{what} is exported as {again.export_node()!r} after it was stored")
        check_lists(again, what)
    rich = [n for n in case["nodes"] if n["props"] and len(n["relations"] or []) > 1]
    return {"nontrivial": rich, "nodes": len(nodes), "relations": sum(len(n["relations"] or []) for n in case["nodes"])}


def check_made(case, scratch):
    from wiggle_query_language.graph.database.database import load_database

    with sut.case_folder(scratch) as folder:
        gdbms = sut.new_dbms(folder)
        text = model.render(case["q"], case["layout"])
        sut.must_query(text, gdbms)
        database = sut.must("loading the database", load_database, gdbms.database_file_path)
    for key, record in database.items():
        what = f"record {key} made by {text!r}"
        node = rebuilt(record, what)
        export = sut.must(f"exporting {what}", node.export_node)
        if model.typed(export) != model.typed({key: record}):
            raise Violation(f"{what} is {record!r}, built and exported it is {export!r}")
        check_lists(node, what)
    return {"nontrivial": any(r["relations"] and r["properties"] for r in database.values()), "made": len(database)}
