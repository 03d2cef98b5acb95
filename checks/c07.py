"""FIND never denies matches that exist, nor searches when none can."""
from hypothesis import strategies as st

from pbt import gen, model, oracles, sut
from pbt.violation import Violation

PROPERTY = "C07"
LEVEL = "exploration"
EXAMPLES = {"quick": 4800, "thorough": 60000}
RULE = (
    "A graph made by 0-3 queries, then 1-5 FIND queries: cut out of a stored pattern (a path of 1-3 of its nodes read in "
    "either direction, relationship names kept or left open, properties copied or left out), of labels and names that are "
    "not in the graph, or of anything, with or without a REPORT and MAKE statements before it, between further queries that make something or fail. An "
    "independent matcher over the stored graph decides: a match means the answer must not be 'no results', no label or no "
    "named relationship at all means that it must be; anything else is not judged. Non-trivial: at least two judged FINDs."
)
ASSUMPTIONS = ["the answer that there are no results is printed with the words 'no results'"]


def strategy(tier):
    absent_words = gen.words(["Absent", "Nobody", "a", "b", "nodelabel", "Person_", "RR", "A1"])
    absent_names = gen.weighted((3, st.sampled_from(["ABSENT", "R_", "RR", "REL22", "KNOW", "A1", "R", "A", "B", "NODELABEL"])), (1, gen.REL_NAMES))
    other = gen.finds(gen.patterns(labels=gen.weighted((2, absent_words), (1, gen.LABELS)), names=absent_names, props=gen.SIMPLE_PROPS))
    cut = st.fixed_dictionaries(
        {
            "which": st.integers(0, 50),
            "from": st.integers(0, 2),
            "size": st.integers(1, 3),
            "reverse": st.booleans(),
            "open": st.lists(st.booleans(), min_size=2, max_size=2),
            "props": st.lists(st.booleans(), min_size=5, max_size=5),
            "handles": st.lists(st.sampled_from(["", "n", "m", "r"]), min_size=5, max_size=5),
            # put another label or name in one place
            "spoil": gen.weighted((5, st.none()), (2, st.tuples(st.integers(0, 4), absent_words, absent_names).map(list))),
        }
    )
    find_step = st.fixed_dictionaries(
        {
            "cut": gen.weighted((3, cut), (1, st.none())),
            "find": other,
            "report": gen.weighted((2, st.none()), (1, gen.RAW_REPORTS)),
            "report_first": st.booleans(),
            # MAKE statements of the same query, before the FIND
            "own": gen.weighted((3, st.just([])), (1, gen.queries(gen.SIMPLE_MAKES, with_find=False, max_makes=2))),
            "layout": gen.LAYOUTS,
        }
    )
    make_step = gen.step_of(gen.queries(gen.SIMPLE_MAKES, with_find=False), mistake=gen.weighted((2, st.none()), (1, gen.MISTAKES)))
    return st.fixed_dictionaries(
        {
            "made": st.lists(gen.step_of(gen.queries(gen.SIMPLE_MAKES, with_find=False, max_makes=2)), max_size=3),
            "steps": st.lists(gen.weighted((5, find_step), (1, make_step)), min_size=1, max_size=6),
        }
    )


def cut_find(cut: dict, patterns: list):
    """The pattern of a FIND that is part of a stored pattern, unless it was spoilt."""
    pattern = patterns[cut["which"] % len(patterns)]
    size = min(cut["size"], len(pattern["nodes"]))
    start = cut["from"] % (len(pattern["nodes"]) - size + 1)
    nodes = [dict(n) for n in pattern["nodes"][start : start + size]]
    rels = [dict(r) for r in pattern["rels"][start : start + size - 1]]
    if cut["reverse"]:
        nodes.reverse()
        rels.reverse()
        for rel in rels:
            rel["right"] = not rel["right"]
    for i, (rel, is_open) in enumerate(zip(rels, cut["open"])):
        if is_open:
            rel["n"] = ""
    used = set()
    for i, thing in enumerate(nodes + rels):
        if not cut["props"][i]:
            thing["p"] = None
        handle = cut["handles"][i]
        while handle and handle in used:
            handle += "_"
        used.add(handle)
        thing["h"] = handle
    if cut["spoil"]:
        at, label, name = cut["spoil"]
        thing = (nodes + rels)[at % len(nodes + rels)]
        if "l" in thing:
            thing["l"] = label
        else:
            thing["n"] = name
    return {"nodes": nodes, "rels": rels}


def props_match(wanted, stored) -> bool:
    stored = stored or {}
    return all(k in stored and model.typed(stored[k]) == model.typed(v) for k, v in model.props_python(wanted).items())


def matches(pattern: dict, database: dict) -> bool:
    """Whether some distinct stored nodes are joined as the pattern says."""
    candidates = [
        [k for k, node in database.items() if node["node_label"] == n["l"] and props_match(n["p"], node["properties"])]
        for n in pattern["nodes"]
    ]

    def joined(i, start, end) -> bool:
        rel = pattern["rels"][i]
        if not rel["right"]:
            start, end = end, start
        return any(
            str(r["wn_from_node"]) == start
            and str(r["wn_to_node"]) == end
            and (not rel["n"] or r["relationship_name"] == rel["n"])
            and props_match(rel["p"], r["properties"])
            for r in sut.relations_of(database[start])
        )

    def extend(chosen) -> bool:
        i = len(chosen)
        if i == len(pattern["nodes"]):
            return True
        return any(
            key not in chosen and (i == 0 or joined(i - 1, chosen[-1], key)) and extend(chosen + [key]) for key in candidates[i]
        )

    return extend([])


def verdict(pattern: dict, database: dict):
    """True: there are matches; False: there can be none; None: not said."""
    labels = {node["node_label"] for node in database.values()}
    names = {r["relationship_name"] for node in database.values() for r in sut.relations_of(node)} - {None, ""}
    if not labels & {n["l"] for n in pattern["nodes"]}:
        return False
    wanted = {r["n"] for r in pattern["rels"]} - {""}
    if wanted and not wanted & names:
        return False
    return True if matches(pattern, database) else None


def check_case(case, scratch):
    judged = {True: 0, False: 0, None: 0}
    with sut.case_folder(scratch) as folder:
        gdbms = sut.new_dbms(folder)
        state = sut.read_state(gdbms)
        patterns = []
        for step in case["made"]:
            state = oracles.run_well_formed(gdbms, state, step["q"], model.render(step["q"], step["layout"]))
            patterns += model.make_patterns(step["q"])
        for step in case["steps"]:
            if "q" in step:
                text, _ = gen.step_text(step)
                if sut.query(text, gdbms).ok and not step["mistake"]:
                    patterns += model.make_patterns(step["q"])
                state = sut.read_state(gdbms, f"after {text!r}")
                continue
            find, own = step["find"], step["own"]
            patterns += model.make_patterns(own)
            if step["cut"] and patterns:
                find = {**find, "pats": [cut_find(step["cut"], patterns)]}
            statements = [find]
            if step["report"]:
                report = gen.report_of(step["report"], gen.handles_of(find["pats"][0]))
                statements.insert(0 if step["report_first"] else 1, report)
            text = model.render(own + statements, step["layout"])
            outcome = sut.must_query(text, gdbms)
            if own:
                state = sut.read_state(gdbms, f"after {text!r}")
            denied = "no results" in outcome.out.lower()
            expected = verdict(find["pats"][0], state.database)
            judged[expected] += 1
            if expected is True and denied:
                raise Violation(f"{text!r} answered that there are no results, there is a match in {state.database}")
            if expected is False and not denied:
                raise Violation(f"{text!r} did not answer that there are no results, there can be none in {state.database}")
    return {
        "nontrivial": judged[True] + judged[False] > 1,
        "matches": judged[True],
        "no_match_possible": judged[False],
        "not_judged": judged[None],
    }
