"""Property values are stored with exactly the written type and value."""
from hypothesis import strategies as st

from pbt import gen, model, oracles, sut
from pbt.violation import Violation

PROPERTY = "C02"
LEVEL = "exploration"
EXAMPLES = {"quick": 9600, "thorough": 80000}
RULE = (
    "MAKE queries whose nodes and relationships carry maps of up to 24 properties of every type: integers of any size, "
    "floats, booleans, nulls, strings in either quote (with spaces, the other quote, digits, separators, reserved words, "
    "line breaks), lists of all of these, in any layout. The stored maps must have the same names and values of the same "
    "type. One case in eight has one string that is a reserved word and must be refused. Non-trivial: at least three "
    "properties of at least two types."
)
ASSUMPTIONS = ["a float is stored as the double nearest to what is written"]


def strategy(tier):
    rich = gen.weighted((12, gen.props(gen.VALUES, max_size=8)), (1, gen.props(gen.VALUES, max_size=24)))
    pattern = gen.patterns(props=rich)
    return st.fixed_dictionaries(
        {
            "q": st.lists(gen.makes(pattern, max_patterns=2), min_size=1, max_size=2),
            "layout": gen.LAYOUTS,
            "reserved": gen.weighted(
                (7, st.none()),
                (1, st.tuples(st.sampled_from(sorted(gen.RESERVED)), st.sampled_from("'\""), st.integers(0, 50)).map(list)),
            ),
        }
    )


def carriers(statements):
    return [x for p in model.make_patterns(statements) for x in p["nodes"] + p["rels"]]


def check_case(case, scratch):
    statements = case["q"]
    values = [v for c in carriers(statements) for _, v in c["p"] or []]
    kinds = {v[0] for v in values}
    with sut.case_folder(scratch) as folder:
        gdbms = sut.new_dbms(folder)
        before = sut.read_state(gdbms)
        if case["reserved"]:
            word, quote, at = case["reserved"]
            all_carriers = carriers(statements)
            carrier = all_carriers[at % len(all_carriers)]
            props = [x for x in carrier["p"] or [] if x[0] != "reserved"]
            props.insert(at % (len(props) + 1), ["reserved", ["str", word, quote]])
            carrier["p"] = props
            text = model.render(statements, case["layout"])
            outcome = sut.query(text, gdbms)
            if outcome.ok:
                raise Violation(f"the string {quote}{word}{quote} was not refused in {text!r}")
            if not sut.read_state(gdbms).same_as(before):
                raise Violation(f"the refused query {text!r} changed the database")
            return {"reserved_words": 1, "nontrivial": len(values) >= 2}
        text = model.render(statements, case["layout"])
        oracles.run_well_formed(gdbms, before, statements, text)
    from wiggle_query_language.clauses.parsing_helpers.parse_properties import get_property_dict

    for carrier in carriers(statements):
        if carrier["p"]:
            text = model.join_tokens(model._props_tokens(carrier["p"], ""), case["layout"]).strip()
            found = sut.must(f"get_property_dict({text!r})", get_property_dict, text)
            expected = model.props_python(carrier["p"])
            if model.typed(found) != model.typed(expected):
                raise Violation(f"get_property_dict({text!r}) is {found!r}, not {expected!r}")
    return {
        "nontrivial": len(values) >= 3 and len(kinds) >= 2,
        "values": len(values),
        **{f"kind_{k}": sum(v[0] == k for v in values) for k in ("int", "float", "bool", "null", "str", "list")},
        "list_items": sum(len(v[1]) for v in values if v[0] == "list"),
    }
