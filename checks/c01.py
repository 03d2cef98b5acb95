"""MAKE stores exactly the pattern that was written."""
from hypothesis import strategies as st

from pbt import gen, model, oracles, sut

PROPERTY = "C01"
LEVEL = "exploration"
EXAMPLES = {"quick": 4800, "thorough": 60000}
RULE = (
    "Histories of 1-4 well-formed queries (1-3 MAKE statements of 1-3 patterns, FIND and REPORT mixed in, any "
    "layout, some with a long tail of patterns), run on a fresh database whose counter starts anywhere. Each must be "
    "accepted and add exactly the written components. Non-trivial: some pattern has a relationship and the history "
    "holds at least two patterns."
)
ASSUMPTIONS = ["the database file is JSON in the documented shape", "two components are the same up to renaming of identifiers"]


def strategy(tier):
    step = gen.step_of(gen.QUERIES)
    return st.fixed_dictionaries(
        {
            "start": gen.STARTS,
            "steps": gen.weighted(
                (3, st.lists(step, min_size=1, max_size=4)),
                (1, st.lists(gen.weighted((2, step), (1, gen.BIG_STEPS)), min_size=1, max_size=5)),
            ),
        }
    )


def check_case(case, scratch):
    patterns = [p for s in case["steps"] for p in model.make_patterns(s["q"])]
    with sut.case_folder(scratch) as folder:
        gdbms = sut.new_dbms(folder)
        sut.set_counter(gdbms, case["start"])
        state = sut.read_state(gdbms)
        for step in case["steps"]:
            text = model.render(step["q"], step["layout"])
            state = oracles.run_well_formed(gdbms, state, step["q"], text)
    joined = [p for p in patterns if p["rels"]]
    return {
        "nontrivial": joined and len(patterns) > 1,
        "patterns": len(patterns),
        "with_relationship": len(joined),
        "three_nodes": sum(len(p["nodes"]) == 3 for p in patterns),
        "right_to_left": sum(not r["right"] for p in patterns for r in p["rels"]),
        "with_find": sum(any(x["t"] == "find" for x in s["q"]) for s in case["steps"]),
        "several_statements": sum(len(s["q"]) > 1 for s in case["steps"]),
        "started_above_zero": bool(case["start"]),
    }
