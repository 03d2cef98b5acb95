"""Indexes always agree with the stored graph."""
from hypothesis import strategies as st

from pbt import gen, oracles, sut
from pbt.violation import Violation

PROPERTY = "C04"
LEVEL = "exploration"
EXAMPLES = {"quick": 4800, "thorough": 60000}
RULE = (
    "Histories as for C03. After every query each of the three indexes, as loaded by the code and as on disk, is exactly "
    "what the stored graph needs. Non-trivial: at least two accepted queries and a relationship."
)
ASSUMPTIONS = ["the keys of the node-relationship index are the identifiers, as texts or numbers"]


def strategy(tier):
    return st.fixed_dictionaries({"start": gen.STARTS, "steps": gen.HISTORIES})


def check_case(case, scratch):
    from wiggle_query_language.graph.database.indexes.node_labels_index import load_node_labels_index
    from wiggle_query_language.graph.database.indexes.node_relationships_index import load_node_relationships_index
    from wiggle_query_language.graph.database.indexes.relationship_names_index import load_relationship_names_index

    accepted = relationships = 0
    with sut.case_folder(scratch) as folder:
        gdbms = sut.new_dbms(folder)
        sut.set_counter(gdbms, case["start"])
        for step in case["steps"]:
            text, _ = gen.step_text(step)
            outcome = sut.query(text, gdbms)
            what = f"after {text!r}"
            state = sut.read_state(gdbms, what)
            oracles.check_indexes(state, what)
            path = gdbms.indexes_file_path
            loaded = {
                "node_labels": set(sut.must(what, load_node_labels_index, path)),
                "relationship_names": set(sut.must(what, load_relationship_names_index, path)),
                "node_relationships": {
                    str(k): set(v) for k, v in sut.must(what, load_node_relationships_index, path).items()
                },
            }
            expected = oracles.expected_indexes(state.database)
            if loaded != expected:
                raise Violation(f"{what} the loaded indexes are {loaded!r}, the stored graph needs {expected!r}")
            accepted += outcome.ok
            relationships = sum(len(v) for v in expected["node_relationships"].values())
    return {
        "nontrivial": accepted > 1 and relationships > 0,
        "accepted": accepted,
        "refused": len(case["steps"]) - accepted,
        "relationships": relationships,
    }
