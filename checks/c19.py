"""Relationships always join two distinct nodes of the same graph."""
import json

from hypothesis import strategies as st

from pbt import dictionary, gen, model, oracles, sut
from pbt.violation import Violation

PROPERTY = "C19"
LEVEL = "exploration"
EXAMPLES = {"quick": 6400, "thorough": 80000}
RULE = (
    "Either a history of queries as for C03 (each also with labels and properties repeated within a pattern), after each of "
    "which every stored relationship joins two different stored nodes and is held by the one it starts from; or a "
    "relationship and a node built from numbers given as integers, texts or floats and relations given as records, maps or "
    "JSON, of which some are to itself or of other nodes: those must be refused and all others built. Non-trivial: a history "
    "with two relationships, or a construction that must be refused."
)
ASSUMPTIONS = ["records built without validation (pydantic's construct) do not count as constructed"]


def strategy(tier):
    numbers = gen.weighted((4, st.integers(0, 4)), (1, st.integers(0, 10**18)))
    numbers = gen.hinted(numbers, dictionary.numbers())
    style = st.sampled_from(["int", "str", "float"])
    number = st.tuples(numbers, gen.weighted((3, st.just("int")), (1, style))).map(list)
    relation = st.fixed_dictionaries(
        {"wn": numbers, "from": number, "to": number, "name": st.sampled_from(["R", "", None]), "props": st.sampled_from([None, {}, {"a": 1}])}
    )
    build = st.fixed_dictionaries(
        {
            "wn": number,
            "relations": st.lists(relation, max_size=4),
            # so many relationships of the node before them
            "more": gen.hinted(gen.weighted((5, st.just(0)), (1, st.integers(1, 40))), dictionary.sizes(200, 1)),
            "how": st.sampled_from(["records", "maps", "json", "parse_obj"]),
            # make most of them touch the node, or all of it would be refused
            "anchor": st.lists(st.sampled_from(["from", "to", "from", "to", "as drawn"]), min_size=4, max_size=4),
        }
    )
    same = gen.patterns(labels=st.just("A"), names=st.just("R"), props=st.sampled_from([None, [["a", ["int", "1"]]]]), min_nodes=2)
    history = st.fixed_dictionaries(
        {
            "start": gen.STARTS,
            "steps": st.lists(gen.weighted((3, gen.STEPS), (2, gen.step_of(gen.queries(gen.makes(same), gen.SIMPLE_FINDS))), (1, gen.BIG_STEPS)), min_size=1, max_size=5),
        }
    )
    return st.one_of(build, history)


def styled(number: list):
    value, style = number
    return {"int": value, "str": str(value), "float": float(value) if value < 2**53 else value}[style]


def check_construction(case) -> dict:
    from models.wql import Node, Relationship, WiggleGraphMetalData

    own = case["wn"]
    relations = []
    for relation, anchor in zip(case["relations"], case["anchor"]):
        relation = dict(relation)
        if anchor != "as drawn":
            relation[anchor] = [own[0], relation[anchor][1]]
        relations.append(relation)
    sides = ("from", "to") if case["more"] % 2 else ("to", "from")
    relations[:0] = [
        {"wn": own[0] + 100 + i, sides[0]: own, sides[1]: [own[0] + 1 + i, "int"], "name": "R", "props": None} for i in range(case["more"])
    ]
    to_itself = [r for r in relations if r["from"][0] == r["to"][0]]
    unrelated = [r for r in relations if own[0] not in (r["from"][0], r["to"][0])]
    maps = [
        {
            "relationship_metadata": {"wn": r["wn"], "created_at": 1.5, "updated_at": None},
            "relationship_name": r["name"],
            "wn_from_node": styled(r["from"]),
            "wn_to_node": styled(r["to"]),
            "properties": r["props"],
        }
        for r in relations
    ]
    built = []
    for relation, record in zip(relations, maps):
        what = f"a relationship from {record['wn_from_node']!r} to {record['wn_to_node']!r}"
        for how, arguments in (
            ("map", record),
            ("record", {**record, "relationship_metadata": WiggleGraphMetalData(wn=relation["wn"])}),
        ):
            outcome = sut.call(Relationship, **arguments)
            if relation in to_itself:
                if outcome.ok:
                    raise Violation(f"{what} (metadata as {how}) was built")
            elif not outcome.ok:
                raise Violation(f"{what} (metadata as {how}) was refused with {outcome.why()}")
            else:
                ends = (outcome.value.wn_from_node, outcome.value.wn_to_node)
                if ends != (relation["from"][0], relation["to"][0]):
                    raise Violation(f"{what} joins {ends}")
        if outcome.ok:
            built.append(outcome.value)
    metadata = {"wn": styled(own), "created_at": 1.5, "updated_at": None}
    how = case["how"]
    if how == "records" and to_itself:
        how = "maps"
    if how == "records":
        outcome = sut.call(Node, node_metadata=WiggleGraphMetalData(**metadata), node_label="A", relations=built or None)
    else:
        record = {"node_metadata": metadata, "node_label": "A", "properties": None, "relations": maps or None}
        if how == "maps":
            outcome = sut.call(Node, **record)
        elif how == "json":
            outcome = sut.call(Node.parse_raw, json.dumps(record))
        else:
            outcome = sut.call(Node.parse_obj, record)
    what = f"node {styled(own)!r} with the relations {[(m['wn_from_node'], m['wn_to_node']) for m in maps]} ({how})"
    bad = bool(to_itself or unrelated)
    if bad and outcome.ok:
        raise Violation(f"{what} was built")
    if not bad and not outcome.ok:
        raise Violation(f"{what} was refused with {outcome.why()}")
    return {"nontrivial": bad, "built": not bad, "to_itself": bool(to_itself), "unrelated": bool(unrelated)}


def check_case(case, scratch):
    if "steps" not in case:
        return check_construction(case)
    count = 0
    with sut.case_folder(scratch) as folder:
        gdbms = sut.new_dbms(folder)
        sut.set_counter(gdbms, case["start"])
        for step in case["steps"]:
            text, _ = gen.step_text(step)
            sut.query(text, gdbms)
            state = sut.read_state(gdbms, f"after {text!r}")
            oracles.check_references(state.database, f"after {text!r}")
            count = sum(len(sut.relations_of(n)) for n in state.database.values())
    return {"nontrivial": count > 1, "histories": 1, "stored_relationships": count}
