"""Layout and keyword case never change what a query means."""
from hypothesis import strategies as st

from pbt import gen, model, sut
from pbt.violation import Violation

PROPERTY = "C10"
LEVEL = "exploration"
EXAMPLES = {"quick": 4800, "thorough": 60000}
RULE = (
    "A query of 1-4 statements, well formed or with one of 14 mistakes or a REPORT of an undefined handle, written twice: with other whitespace between its "
    "tokens, other case of its keywords, other arrow lengths and other handles. Both are accepted or both are rejected, and "
    "the graphs and indexes they leave are the same up to identifiers. Non-trivial: the two texts differ in more than case "
    "and the query has a relationship or two statements."
)
ASSUMPTIONS = ["whitespace is spaces, tabs and line breaks between tokens, never inside an arrow, a word or a string"]


def strategy(tier):
    simple = gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, min_makes=0, max_makes=3)
    rich = gen.queries(gen.MAKES, gen.FINDS, min_makes=0, max_makes=2)
    reporting = st.tuples(
        gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, min_makes=0, max_makes=1, with_find=True), gen.RAW_REPORTS
    ).map(with_report)
    return st.fixed_dictionaries(
        {
            "q": gen.weighted((3, simple), (3, rich), (1, reporting)),
            # a REPORT of a handle the FIND does not define
            "stray": gen.weighted((2, st.none()), (1, st.integers(0, 9))),
            "mistake": gen.weighted((2, st.none()), (1, gen.MISTAKES)),
            "layouts": st.lists(gen.LAYOUTS, min_size=2, max_size=2),
            "cases": st.lists(st.lists(st.booleans(), min_size=1, max_size=7), min_size=1, max_size=4),
            "dashes": st.lists(st.integers(1, 6), min_size=1, max_size=6),
            # new handles, given out in turn
            "handles": gen.weighted((1, st.none()), (2, st.lists(gen.HANDLES, min_size=1, max_size=4))),
        }
    )


def with_report(query_and_raw) -> list:
    query, raw = query_and_raw
    if any(s["t"] == "report" for s in query):
        return query
    found = next(s for s in query if s["t"] == "find")
    return query + [gen.report_of(raw, gen.handles_of(found["pats"][0]))]


def strayed(case) -> dict:
    """The case with one item of its REPORT, if it has any, about a handle nothing defines."""
    query = [dict(s) for s in case["q"]]
    for s in query:
        if s["t"] == "report" and case["stray"] is not None:
            used = {h for x in query if x["t"] != "report" for p in x["pats"] for h in gen.handles_of(p)}
            stray = "zz"
            while stray in used:
                stray += "z"
            at = case["stray"] % (len(s["items"]) + 1)
            s["items"] = s["items"][:at] + [["h", stray]] + s["items"][at + 1 :]
            return {**case, "q": query}
    return {**case, "stray": None}


def recased(word: str, flags: list) -> str:
    return "".join(c.lower() if flags[i % len(flags)] else c.upper() for i, c in enumerate(word))


def rewritten(case) -> list:
    """The statements with other keywords, arrows and handles."""
    statements = [dict(s) for s in case["q"]]
    names: dict = {}
    turn = iter(range(10**6))
    for i, s in enumerate(statements):
        s["kw"] = recased(s["kw"], case["cases"][i % len(case["cases"])])

    def renamed(handle: str) -> str:
        if not handle or case["handles"] is None:
            return handle
        if handle not in names:
            word = case["handles"][next(turn) % len(case["handles"])]
            while word in names.values():
                word += "_"
            names[handle] = word
        return names[handle]

    dash = 0
    for s in statements:
        if s["t"] == "report":
            continue
        patterns = []
        for p in s["pats"]:
            nodes = [{**n, "h": renamed(n["h"])} for n in p["nodes"]]
            rels = []
            for r in p["rels"]:
                dashes = [case["dashes"][(dash + k) % len(case["dashes"])] for k in (0, 1)]
                dash += 2
                rels.append({**r, "h": renamed(r["h"]), "dash": dashes})
            patterns.append({"nodes": nodes, "rels": rels})
        s["pats"] = patterns
    for s in statements:
        if s["t"] == "report":
            s["items"] = [[item[0]] + [renamed(x) if i == 0 else x for i, x in enumerate(item[1:])] for item in s["items"]]
    return statements


def texts(case):
    first = model.query_tokens(case["q"])
    second = model.query_tokens(rewritten(case))
    made = False
    if case["mistake"]:
        mistake, site, pick = case["mistake"]
        sites = gen.mistake_sites(first, mistake)
        if sites:
            made = True
            at = sites[site % len(sites)]
            first = gen.make_mistake(first, mistake, at, pick)
            second = gen.make_mistake(second, mistake, at, pick)
    return made, model.join_tokens(first, case["layouts"][0]), model.join_tokens(second, case["layouts"][1])


def left_by(text, folder, name):
    gdbms = sut.new_dbms(folder, name)
    outcome = sut.query(text, gdbms)
    state = sut.read_state(gdbms, f"after {text!r}")
    labels, names = (sorted(set(state.indexes[k])) for k in ("node_labels", "relationship_names"))
    owners = sorted(len(v) for v in state.indexes["node_relationships"].values() if v)
    return outcome, [model.stored_components(state.database), labels, names, owners, state.counter]


def check_case(case, scratch):
    if not case["q"]:
        return {}
    case = strayed(case)
    made, first, second = texts(case)
    made = made or case["stray"] is not None
    with sut.case_folder(scratch) as folder:
        one, graph_one = left_by(first, folder, "one")
        two, graph_two = left_by(second, folder, "two")
    if one.ok != two.ok:
        why = two.why() if one.ok else one.why()
        raise Violation(f"of the two\n{first!r}\n{second!r}\nonly the {'first' if one.ok else 'second'} is accepted: {why}")
    if graph_one != graph_two:
        raise Violation(f"the two\n{first!r}\n{second!r}\nleave different graphs:\n{graph_one}\n{graph_two}")
    if not one.ok and not made:
        raise Violation(f"both are rejected with {one.why()}:\n{first!r}\n{second!r}")
    patterns = [p for s in case["q"] if s["t"] != "report" for p in s["pats"]]
    return {
        "nontrivial": first.lower() != second.lower() and (len(case["q"]) > 1 or any(p["rels"] for p in patterns)),
        "accepted": one.ok,
        "rejected": not one.ok,
        "stray_handle": case["stray"] is not None,
        "other_handles": case["handles"] is not None,
    }
