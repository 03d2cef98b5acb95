"""Adding records is all-or-nothing and never overwrites."""
import json

from hypothesis import strategies as st

from pbt import dictionary, gen, model, sut
from pbt.violation import Violation

PROPERTY = "C15"
LEVEL = "exploration"
EXAMPLES = {"quick": 5600, "thorough": 120000}
RULE = (
    "Histories of 1-10 operations (add a batch of 0-6 records, of which some may exist already, in the middle or at the end of "
    "the batch; add up to 2500 records first; wipe with, without and with a false or empty confirmation; load) on a database file. After each, loading gives exactly "
    "the model's records, equal in value, type and order. Non-trivial: a batch with some new and some existing identifiers "
    "was refused."
)
ASSUMPTIONS = ["records are JSON values"]


def strategy(tier):
    scalars = st.one_of(
        st.none(), st.booleans(), st.integers(-(10**20), 10**20), st.floats(allow_nan=False, allow_infinity=False), gen.text("ab\"'\\{}é名\n😀", max_size=6)
    )
    scalars = gen.hinted(scalars, gen.HINTED_TEXTS, [int(x) for x in gen.HINTED_NUMBERS])
    values = st.recursive(scalars, lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(gen.text("abé", max_size=3), x, max_size=3)), max_leaves=6)
    record = gen.weighted(
        (2, st.dictionaries(st.sampled_from(["node_metadata", "node_label", "properties", "relations", "x"]), values, max_size=4)),
        (1, st.dictionaries(gen.text("abcé", max_size=3), values, max_size=3)),
    )
    identifiers = gen.weighted(
        (6, st.integers(0, 12).map(str)), (1, st.integers(0, 10**20).map(str)), (1, st.sampled_from(["00", "01", "a", "", "é", "1.0", "-1"]))
    )
    # identifiers and records apart, for a batch keeps its order
    identifiers = gen.hinted(identifiers, gen.HINTED_NUMBERS, gen.HINTED_WORDS)
    batch = st.lists(st.tuples(identifiers, record).map(list), max_size=6, unique_by=lambda x: x[0])
    fresh = st.tuples(batch, st.integers(0, 50)).map(lambda x: [[f"{x[1]}{i}", r] for i, r in x[0]])
    # so many records at once
    many = st.tuples(st.integers(0, 3), gen.hinted(st.integers(50, 2500), dictionary.sizes(6000, 1), usually=2)).map(list)
    operation = gen.weighted(
        (4, st.tuples(st.just("add"), batch).map(list)),
        (4, st.tuples(st.just("add"), fresh).map(list)),
        (1, st.tuples(st.just("wipe"), st.sampled_from(["yes", "no", "omitted", "none", "zero", "empty"])).map(list)),
        (1, st.just(["load"])),
    )
    large = st.builds(lambda first, ops: [["many", *first], *ops], many, st.lists(operation, min_size=1, max_size=4))
    return st.fixed_dictionaries({"ops": gen.hinted(gen.weighted((60, st.lists(operation, min_size=1, max_size=10)), (1, large)), gen.repeated(st.lists(operation, min_size=1, max_size=3), dictionary.sizes(80, 2)), large if dictionary.NUMBERS else None, usually=20)})


def check_case(case, scratch):
    from wiggle_query_language.graph.database.database import add_item_to_database, load_database, wipe_database

    expected: dict = {}
    partly = added = refused = 0
    with sut.case_folder(scratch) as folder:
        gdbms = sut.new_dbms(folder)
        path = gdbms.database_file_path
        others = (gdbms.indexes_file_path.read_bytes(), gdbms.wiggle_number_file_path.read_bytes())
        for operation in case["ops"]:
            what = f"after {operation!r} on {list(expected)[:100]!r}:"
            if operation[0] == "many":
                operation = ["add", [[str(i), {"node_label": f"L{i}"}] for i in range(operation[1], operation[1] + operation[2])]]
            if operation[0] == "add":
                batch = {k: json.loads(json.dumps(v)) for k, v in operation[1]}
                existing = [k for k in batch if k in expected]
                outcome = sut.call(add_item_to_database, path, batch)
                if existing:
                    refused += 1
                    partly += len(existing) < len(batch)
                    if outcome.ok:
                        raise Violation(f"{what} the identifiers {existing} exist, the batch was not refused")
                elif not outcome.ok:
                    raise Violation(f"{what} the batch was refused with {outcome.why()}")
                else:
                    expected.update((k, v) for k, v in operation[1])
                    added += len(batch)
                if model.typed(batch) != model.typed(dict(operation[1])):
                    raise Violation(f"{what} the batch itself became {batch!r}")
            elif operation[0] == "wipe":
                arguments = {"yes": {"im_sure": True}, "no": {"im_sure": False}, "none": {"im_sure": None}, "zero": {"im_sure": 0}, "empty": {"im_sure": ""}, "omitted": {}}[operation[1]]
                sut.must(what, wipe_database, path, **arguments)
                if operation[1] == "yes":
                    expected = {}
            loaded = sut.must(what, load_database, path)
            if not isinstance(loaded, dict) or list(loaded) != list(expected):
                raise Violation(f"{what} the records are {loaded!r}, they should be {expected!r} in this order")
            for key, record in expected.items():
                if model.typed(loaded[key]) != model.typed(record) or json.dumps(loaded[key]) != json.dumps(record):
                    raise Violation(f"{what} record {key} is {loaded[key]!r}, not {record!r}")
            if others != (gdbms.indexes_file_path.read_bytes(), gdbms.wiggle_number_file_path.read_bytes()):
                raise Violation(f"{what} the other files of the DBMS changed")
            # what a caller does with what was loaded is not stored
            for record in loaded.values():
                record["changed"] = True
            loaded["changed"] = {}
    return {"nontrivial": partly, "added": added, "refused": refused, "refused_in_part": partly}
