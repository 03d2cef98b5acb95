"""Each index behaves as a growing set, independent of the others."""
from hypothesis import strategies as st

from pbt import dictionary, gen, sut
from pbt.violation import Violation

PROPERTY = "C16"
LEVEL = "exploration"
EXAMPLES = {"quick": 4800, "thorough": 80000}
RULE = (
    "Histories of 1-14 operations on the three indexes (add sets of 0-5 entries, wipe with, without and with a false or empty "
    "confirmation) and the counter (write numbers of any size). After each all three load as the model's sets and the "
    "counter reads back the last number. Non-trivial: additions to all three and two to one of them."
)
ASSUMPTIONS = ["a node without relationships may have an empty entry or none"]

SETS = ["node_labels", "relationship_names"]


def strategy(tier):
    words = gen.weighted((4, st.sampled_from(["A", "B", "a", "", "R", "node_labels", "relationship_names", "1", "true"])), (1, gen.text("ab\"'\\é名 \n", max_size=8)))
    numbers = gen.weighted((4, st.integers(0, 20)), (1, st.integers(0, 10**20)))
    words = gen.hinted(words, gen.HINTED_WORDS, gen.HINTED_TEXTS, gen.HINTED_NUMBERS)
    numbers = gen.hinted(numbers, dictionary.numbers())
    few, sizes = st.lists(words, max_size=5), dictionary.sizes(300, 2)
    items = gen.hinted(few, st.sampled_from(sizes).map(lambda n: [f"W{i}" for i in range(n)]) if sizes else None)
    listed = gen.hinted(st.lists(numbers, max_size=5), st.sampled_from(sizes).map(lambda n: list(range(n))) if sizes else None)
    owners = st.lists(st.tuples(numbers.map(str), listed).map(list), max_size=4, unique_by=lambda x: x[0])
    sure = st.sampled_from(["yes", "yes", "no", "omitted", "none", "zero", "empty"])
    operation = gen.weighted(
        (3, st.tuples(st.just("add"), st.just("node_labels"), items).map(list)),
        (3, st.tuples(st.just("add"), st.just("relationship_names"), items).map(list)),
        (4, st.tuples(st.just("add"), st.just("node_relationships"), owners).map(list)),
        (2, st.tuples(st.just("wipe"), st.sampled_from(SETS + ["node_relationships"]), sure).map(list)),
        (2, st.tuples(st.just("count"), gen.weighted((3, st.integers(0, 200)), (1, st.integers(0, 10**30)))).map(list)),
    )
    return st.fixed_dictionaries(
        {"ops": gen.weighted((1, st.lists(operation, min_size=1, max_size=5)), (2, st.lists(operation, min_size=5, max_size=14)))}
    )


def functions():
    from wiggle_query_language.graph.database.indexes import node_labels_index as labels
    from wiggle_query_language.graph.database.indexes import node_relationships_index as owned
    from wiggle_query_language.graph.database.indexes import relationship_names_index as names

    return {
        "node_labels": (labels.add_items_to_node_labels_index, labels.load_node_labels_index, labels.wipe_node_labels_index),
        "relationship_names": (
            names.add_items_to_relationship_names_index,
            names.load_relationship_names_index,
            names.wipe_relationship_names_index,
        ),
        "node_relationships": (
            owned.add_items_to_node_relationships_index,
            owned.load_node_relationships_index,
            owned.wipe_node_relationships_index,
        ),
    }


def check_case(case, scratch):
    from wiggle_query_language.graph.state.wiggle_number import get_current_wiggle_number, update_wiggle_number

    indexes = functions()
    expected = {"node_labels": set(), "relationship_names": set(), "node_relationships": {}}
    counter = 0
    adds = {name: 0 for name in indexes}
    with sut.case_folder(scratch) as folder:
        gdbms = sut.new_dbms(folder)
        path = gdbms.indexes_file_path
        database = gdbms.database_file_path.read_bytes()
        for operation in case["ops"]:
            what = f"after {operation!r} of {case['ops']!r}:"
            kind, name = operation[0], operation[1]
            if kind == "count":
                counter = operation[1]
                sut.must(what, update_wiggle_number, gdbms.wiggle_number_file_path, counter)
            elif kind == "wipe":
                arguments = {"yes": {"im_sure": True}, "no": {"im_sure": False}, "none": {"im_sure": None}, "zero": {"im_sure": 0}, "empty": {"im_sure": ""}, "omitted": {}}[operation[2]]
                sut.must(what, indexes[name][2], path, **arguments)
                if operation[2] == "yes":
                    expected[name] = type(expected[name])()
            elif name in SETS:
                given = set(operation[2])
                sut.must(what, indexes[name][0], path, given)
                expected[name] |= given
                adds[name] += 1
            else:
                given = {k: set(v) for k, v in operation[2]}
                sut.must(what, indexes[name][0], path, given)
                for key, values in given.items():
                    expected[name].setdefault(key, set()).update(values)
                adds[name] += 1
            for other in SETS:
                loaded = sut.must(what, indexes[other][1], path)
                if set(loaded) != expected[other] or len(list(loaded)) != len(set(loaded)):
                    raise Violation(f"{what} {other} loads as {loaded!r}, it should be {expected[other]!r}")
            loaded = {str(k): set(v) for k, v in sut.must(what, indexes["node_relationships"][1], path).items()}
            loaded = {k: v for k, v in loaded.items() if v}
            needed = {k: v for k, v in expected["node_relationships"].items() if v}
            if loaded != needed:
                raise Violation(f"{what} node_relationships loads as {loaded!r}, it should be {needed!r}")
            read = sut.must(what, get_current_wiggle_number, gdbms.wiggle_number_file_path)
            if read != counter or type(read) is not int:
                raise Violation(f"{what} the counter reads {read!r}, {counter} was written")
            if gdbms.database_file_path.read_bytes() != database:
                raise Violation(f"{what} the database file changed")
    return {
        "nontrivial": all(adds.values()) and max(adds.values()) > 1,
        "operations": len(case["ops"]),
        "empty_additions": sum(op[0] == "add" and not op[2] for op in case["ops"]),
        "wipes": sum(op[0] == "wipe" for op in case["ops"]),
    }
