"""A query has at most one FIND and REPORT, over handles FIND defines."""
from hypothesis import strategies as st

from pbt import gen, model, sut
from pbt.violation import Violation

PROPERTY = "C21"
LEVEL = "exploration"
EXAMPLES = {"quick": 8000, "thorough": 100000}
RULE = (
    "Queries of a FIND with handles on nodes and relationships and a REPORT of 1-6 items (*, handle, handle.property, "
    "wn(handle)) over its handles and, in half of them, one item of a word that is none: another case of a handle, a part or "
    "an extension of one, a handle of a MAKE, a label, a name, a property, wn; among MAKE statements, in any order and layout. "
    "Or of two FINDs or two REPORTs (also beside a MAKE alone), on one line or several. The written handles decide acceptance. Non-trivial: a REPORT of "
    "at least two items, or a second statement."
)
ASSUMPTIONS = ["wn(x) is only written with wn in any case", "a REPORT without a FIND is not judged"]


def strategy(tier):
    handles = gen.weighted((1, st.just("")), (4, gen.HANDLES))
    find = gen.finds(gen.patterns(props=gen.SIMPLE_PROPS, handles=handles))
    report = st.fixed_dictionaries(
        {
            "kw": gen.REPORT_KEYWORDS,
            "items": st.lists(
                st.tuples(st.sampled_from(["*", "h", "h", "p", "p", "wn"]), st.integers(0, 9), gen.KEYS, st.sampled_from(["wn", "WN", "Wn"])),
                min_size=1,
                max_size=6,
            ),
        }
    )
    stray = st.tuples(st.sampled_from(["upper", "lower", "prefix", "longer", "joined", "make", "label", "name", "property", "wn", "word"]), st.integers(0, 40), gen.HANDLES, st.integers(0, 6), st.sampled_from(["h", "p", "wn"])).map(list)
    return st.fixed_dictionaries(
        {
            "find": find,
            "report": report,
            "stray": gen.weighted((1, st.none()), (1, stray)),
            "makes": st.lists(gen.SIMPLE_MAKES, max_size=2),
            "places": st.lists(st.integers(0, 9), min_size=3, max_size=3),
            "again": gen.weighted((3, st.none()), (1, st.sampled_from(["find", "report", "same find", "same report", "report without find", "same report without find"]))),
            "other": gen.SIMPLE_FINDS,
            "other_make": gen.SIMPLE_MAKES,
            "layout": gen.LAYOUTS,
        }
    )


def stray_word(case, handles: list) -> str:
    """A word, near to a handle of the FIND or not, that is none of them."""
    kind, which, word, _, _ = case["stray"]
    pattern = case["find"]["pats"][0]
    handle = handles[which % len(handles)] if handles else word
    other = [h for s in case["makes"] for p in s["pats"] for h in gen.handles_of(p)]
    labels = [n["l"] for n in pattern["nodes"]]
    names = [r["n"] for r in pattern["rels"] if r["n"]]
    keys = [k for x in pattern["nodes"] + pattern["rels"] for k, _ in x["p"] or []]

    def one_of(pool):
        return pool[which % len(pool)] if pool else word

    return {
        "upper": handle.upper(),
        "lower": handle.lower(),
        "prefix": handle[:-1] or word,
        "longer": handle + handle[-1],
        "joined": "".join(handles[:2]) or word,
        "make": one_of(other),
        "label": one_of(labels),
        "name": one_of(names),
        "property": one_of(keys),
        "wn": "wn",
        "word": word,
    }[kind]


def check_case(case, scratch):
    pattern = case["find"]["pats"][0]
    handles = gen.handles_of(pattern)
    report = gen.report_of(case["report"], handles)
    statements = list(case["makes"])
    strays = 0
    if case["stray"]:
        word = stray_word(case, handles)
        kind, at = case["stray"][4], case["stray"][3]
        item = {"h": ["h", word], "p": ["p", word, "a"], "wn": ["wn", word, "wn"]}[kind]
        report["items"].insert(at % (len(report["items"]) + 1), item)
        strays = word not in handles
    second = {
        None: None,
        "find": case["other"],
        "same find": case["find"],
        "report": {"t": "report", "kw": "REPORT", "items": [["*"]]},
        "same report": report,
        "report without find": {"t": "report", "kw": "REPORT", "items": [["*"]]},
        "same report without find": report,
    }[case["again"]]
    first = [case["find"], report]
    if case["again"] and case["again"].endswith("without find"):
        first = [report]
        statements = statements or [case["other_make"]]
    for statement, place in zip(first + ([second] if second else []), case["places"]):
        statements.insert(place % (len(statements) + 1), statement)
    text = model.render(statements, case["layout"])
    with sut.case_folder(scratch) as folder:
        gdbms = sut.new_dbms(folder)
        outcome = sut.query(text, gdbms)
        state = sut.read_state(gdbms, f"after {text!r}")
    valid = not strays and not second
    if valid and not outcome.ok:
        raise Violation(f"{text!r} was rejected with {outcome.why()}, the handles are {handles}")
    if not valid and outcome.ok:
        why = "two statements of a kind" if second else f"a handle that is none of {handles}"
        raise Violation(f"{text!r} was accepted, it has {why}")
    if not valid and state.database:
        raise Violation(f"{text!r} was rejected and made {state.database}")
    return {
        "nontrivial": len(report["items"]) > 1 or second,
        "accepted": valid,
        "unknown_handle": bool(strays),
        "second_statement": bool(second),
    }
