"""Batching MAKE statements equals running them one by one."""
from hypothesis import strategies as st

from pbt import dictionary, gen, model, sut
from pbt.violation import Violation

PROPERTY = "C11"
LEVEL = "exploration"
EXAMPLES = {"quick": 4800, "thorough": 60000}
RULE = (
    "1-8 patterns, now and then up to 90 (some repeated, some sharing handles) after an optional first query, grouped in two ways into statements and "
    "queries, FINDs and REPORTs among them. Both ways leave the same components, the same index entry for every node, the "
    "same label and name indexes and the same counter. Non-trivial: at least three patterns, one with a relationship, and "
    "different groups."
)
ASSUMPTIONS = ["graphs are compared up to renaming of identifiers"]


def strategy(tier):
    pattern = gen.weighted((3, gen.SIMPLE_PATTERNS), (1, gen.PATTERNS))
    cuts = st.lists(st.sampled_from(["pattern", "pattern", "statement", "query"]), min_size=1, max_size=8)
    return st.fixed_dictionaries(
        {
            "start": gen.STARTS,
            "first": gen.weighted((1, st.none()), (1, gen.step_of(gen.queries(gen.SIMPLE_MAKES, with_find=False)))),
            "patterns": st.lists(pattern, min_size=1, max_size=6),
            "repeat": st.integers(0, 2),
            "times": gen.hinted(gen.weighted((12, st.just(1)), (1, st.integers(4, 12))), dictionary.sizes(60, 1), usually=12),
            "groupings": st.tuples(gen.weighted((1, st.just(["query"])), (1, cuts)), cuts).map(list),
            "layouts": st.lists(gen.LAYOUTS, min_size=2, max_size=2),
            "find": gen.weighted((2, st.none()), (1, gen.SIMPLE_FINDS)),
        }
    )


def grouped(patterns: list, cuts: list) -> list:
    """Queries, each a list of MAKE statements."""
    queries = [[{"t": "make", "kw": "MAKE", "pats": [patterns[0]]}]]
    for i, pattern in enumerate(patterns[1:]):
        cut = cuts[i % len(cuts)]
        if cut == "query":
            queries.append([])
        if cut in ("query", "statement"):
            queries[-1].append({"t": "make", "kw": "MAKE", "pats": []})
        queries[-1][-1]["pats"].append(pattern)
    return queries


def components_with_index(state: sut.State) -> list:
    """The components, each node with the relationships its index entry names."""
    database = {}
    for key, node in state.database.items():
        named = {r["relationship_metadata"]["wn"]: [r["relationship_name"], r["properties"]] for r in sut.relations_of(node)}
        entry = state.indexes["node_relationships"].get(key, [])
        listed = sorted(model.typed(named.get(wn, "of no relationship of this node")) for wn in set(entry))
        database[key] = {**node, "node_label": f"{node['node_label']} {listed}"}
    return model.stored_components(database)


def check_case(case, scratch):
    once = case["patterns"] + case["patterns"][: case["repeat"]]
    patterns = once + [
        # with other labels from then on
        {**p, "nodes": [{**n, "l": f"{n['l']}_{i}"} for n in p["nodes"]]}
        for i in range(1, case["times"])
        for p in once
    ]
    left = []
    with sut.case_folder(scratch) as folder:
        for number, (cuts, layout) in enumerate(zip(case["groupings"], case["layouts"])):
            gdbms = sut.new_dbms(folder, f"way{number}")
            sut.set_counter(gdbms, case["start"])
            if case["first"]:
                sut.must_query(model.render(case["first"]["q"], case["first"]["layout"]), gdbms)
            queries = grouped(patterns, cuts)
            if case["find"]:
                # a FIND in one of the queries makes no difference
                queries[len(cuts) % len(queries)].append(case["find"])
            texts = [model.render(q, layout) for q in queries]
            for text in texts:
                sut.must_query(text, gdbms)
            state = sut.read_state(gdbms, f"after {texts!r}")
            labels, names = (sorted(set(state.indexes[k])) for k in ("node_labels", "relationship_names"))
            entries = sorted(len(v) for v in state.indexes["node_relationships"].values() if v)
            left.append((texts, [components_with_index(state), labels, names, entries, state.counter]))
    (one, first), (two, second) = left
    if first != second:
        raise Violation(f"the queries\n{one}\nand\n{two}\nleave\n{first}\nand\n{second}")
    return {
        "nontrivial": len(patterns) > 2 and any(p["rels"] for p in patterns) and len(one) != len(two),
        "patterns": len(patterns),
        "queries": len(one) + len(two),
    }
