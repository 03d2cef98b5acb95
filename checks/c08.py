"""FIND looks for exactly the pattern that was written."""
from copy import deepcopy

from hypothesis import strategies as st

from pbt import gen, model, sut
from pbt.violation import Violation

PROPERTY = "C08"
LEVEL = "exploration"
EXAMPLES = {"quick": 9600, "thorough": 120000}
RULE = (
    "Queries of a FIND (1-3 nodes, either direction, properties of all types, handles anywhere) among MAKE and REPORT "
    "statements in any layout, built into searches 1-4 times in any order, without and with criteria (wanted and unwanted "
    "properties for some handles and for words that are no handle). After all are built each search must still hold exactly "
    "what was written plus its own criteria. Non-trivial: a relationship and criteria for one of its handles."
)
ASSUMPTIONS = [
    "criteria are given as ParsedCriteria, the CRITERIA clause has no parser yet",
    "criteria never ask for another value of a property that the pattern already gives for that handle",
]

KNOWN_MULTI = "multi-pattern"


def strategy(tier):
    rich = gen.queries(gen.SIMPLE_MAKES, gen.FINDS, min_makes=0, max_makes=1, with_find=True)
    simple = gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, min_makes=0, max_makes=2, with_find=True)
    value = st.one_of(gen.SIMPLE_VALUES, gen.PRIMITIVES)
    criteria_props = st.lists(st.tuples(gen.KEYS, value).map(list), max_size=7, unique_by=lambda x: x[0])
    # which handle (in turn, or a word), wanted, unwanted
    criterion = st.tuples(gen.weighted((4, st.integers(0, 9)), (1, gen.HANDLES)), criteria_props, criteria_props).map(list)
    use = st.tuples(st.integers(0, 2), gen.weighted((1, st.none()), (2, st.lists(criterion, min_size=1, max_size=4)))).map(list)
    several = st.builds(
        lambda f, p: {**f, "pats": f["pats"] + p}, gen.SIMPLE_FINDS, st.lists(gen.SIMPLE_PATTERNS, min_size=1, max_size=2)
    )
    return st.fixed_dictionaries(
        {
            "queries": st.lists(
                st.tuples(
                    gen.weighted((10, simple), (10, rich), (1, several.map(lambda x: [x]))), gen.LAYOUTS
                ).map(list),
                min_size=1,
                max_size=3,
            ),
            "uses": st.lists(use, min_size=1, max_size=4),
        }
    )


def find_pattern(statements: list) -> dict:
    return next(s for s in statements if s["t"] == "find")["pats"][0]


def criteria_of(raw: list, pattern: dict) -> dict:
    """{handle: (wanted, unwanted)}"""
    handles = gen.handles_of(pattern)
    written = {x["h"]: model.props_python(x["p"]) for x in pattern["nodes"] + pattern["rels"] if x["h"]}
    found = {}
    for which, wanted, unwanted in raw:
        if isinstance(which, str):
            handle = which
        elif handles:
            handle = handles[which % len(handles)]
        else:
            continue
        wanted = {k: v for k, v in model.props_python(wanted).items() if k not in written.get(handle, {})}
        found[handle] = (wanted, model.props_python(unwanted))
    return found


def expected_search(pattern: dict, criteria: dict) -> str:
    nodes = []

    def needs(thing):
        wanted, unwanted = criteria.get(thing["h"], ({}, {})) if thing["h"] else ({}, {})
        return {**model.props_python(thing["p"]), **wanted}, unwanted

    for node in pattern["nodes"]:
        wanted, unwanted = needs(node)
        nodes.append([node["h"], node["l"], model.typed(wanted), model.typed(unwanted), []])
    for i, rel in enumerate(pattern["rels"]):
        wanted, unwanted = needs(rel)
        start = i if rel["right"] else i + 1
        nodes[start][4].append([rel["h"], rel["n"], model.typed(wanted), model.typed(unwanted)])
    for node in nodes:
        node[4].sort()
    names = {r["n"] for r in pattern["rels"]} - {""}
    return [nodes, sorted({n["l"] for n in pattern["nodes"]}), sorted(names)]


def built_search(search) -> list:
    nodes = []
    for node in (search.left_node, search.middle_node, search.right_node):
        if node is None:
            continue
        rels = [
            [r.rel_handle or "", r.rel_name or "", model.typed(r.props_dict_yes or {}), model.typed(r.props_dict_no or {})]
            for r in node.relationships or []
        ]
        nodes.append(
            [
                node.node_handle or "",
                node.node_label,
                model.typed(node.props_dict_yes or {}),
                model.typed(node.props_dict_no or {}),
                sorted(rels),
            ]
        )
    names = set(search.relationship_names) - {None, ""}
    return [nodes, sorted(search.node_labels), sorted(names)]


def parsed_criteria(criteria: dict):
    from models.wql import ParsedCriteria
    from models.wql.parsing.parsed_query import ParsedCriteriaYesNo

    return ParsedCriteria(
        raw_statement="CRITERIA x;",
        criteria_handle_props={
            handle: ParsedCriteriaYesNo(props_dict_yes_match=deepcopy(yes), props_dict_no_match=deepcopy(no))
            for handle, (yes, no) in criteria.items()
        },
    )


def check_case(case, scratch):
    from wiggle_query_language.clauses.find import parse_find_statement_from_query_string
    from wiggle_query_language.clauses.find.transform.find_pre import process_parsed_find

    parsed = []
    for statements, layout in case["queries"]:
        text = model.render(statements, layout)
        parsed.append((statements, text, sut.must(f"parsing {text!r}", parse_find_statement_from_query_string, text)))
    built, given = [], []
    nontrivial = with_criteria = several = 0
    for which, raw in case["uses"]:
        statements, text, find = parsed[which % len(parsed)]
        pattern = find_pattern(statements)
        criteria = criteria_of(raw, pattern) if raw is not None else {}
        model_criteria = parsed_criteria(criteria) if raw is not None else None
        search = sut.must(
            f"processing {text!r} with criteria {criteria!r}", process_parsed_find, parsed_find=find, parsed_criteria=model_criteria
        )
        built.append((statements, text, pattern, criteria, search))
        given.append((model_criteria, criteria))
        with_criteria += bool(criteria)
        hit = {x["h"] for x in pattern["nodes"] + pattern["rels"] if x["h"]} & set(criteria)
        nontrivial += bool(pattern["rels"] and hit)
    for statements, text, pattern, criteria, search in built:
        found, expected = built_search(search), expected_search(pattern, criteria)
        patterns = next(s for s in statements if s["t"] == "find")["pats"]
        if len(patterns) > 1:
            several += 1
            raise_for_several(text, patterns, criteria, found, expected)
        elif found != expected:
            raise Violation(f"the search for {text!r} with criteria {criteria!r} is\n{found}, not\n{expected}")
    for model_criteria, criteria in given:
        if model_criteria is None:
            continue
        now = {h: (c.props_dict_yes_match, c.props_dict_no_match) for h, c in model_criteria.criteria_handle_props.items()}
        if model.typed(now) != model.typed(criteria):
            raise Violation(f"building a search changed the criteria from {criteria!r} to {now!r}")
    return {"nontrivial": nontrivial, "searches": len(built), "with_criteria": with_criteria}


def raise_for_several(text, patterns, criteria, found, first_only) -> None:
    """A FIND of several patterns: the search has to have the nodes of all of them."""
    wanted = [n for p in patterns for n in expected_search(p, criteria)[0]]
    if sorted(map(str, found[0])) == sorted(map(str, wanted)):
        return
    # the known finding is exactly this: the patterns after the first are not looked for
    key = KNOWN_MULTI if found == first_only else ""
    raise Violation(f"the search for {text!r} is\n{found}, the nodes written are\n{wanted}", key)
