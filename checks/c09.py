"""Malformed statements are rejected with a WiggleGraph error."""
from hypothesis import strategies as st

from pbt import gen, model, sut
from pbt.violation import Violation

PROPERTY = "C09"
LEVEL = "exploration"
EXAMPLES = {"quick": 9600, "thorough": 120000}
RULE = (
    "A well-formed query of 1-4 MAKE statements of 1-3 patterns, perhaps with a FIND and a REPORT, in any layout, with "
    "exactly one of the listed mistakes at a random one of its sites. Run on a database, it must raise a WiggleGraph error. "
    "Non-trivial: the query has at least two statements or two patterns, so that the mistake may be anywhere."
)
ASSUMPTIONS = [
    "the query without the mistake is well formed (C01 shows such queries are accepted)",
    "a transposed MAKE or FIND is followed by the bracket of its pattern, a REPORT whose items are in brackets",
]

NOT_REPORTED = ("transposed_keyword",)


def strategy(tier):
    simple = gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, min_makes=0, max_makes=4)
    rich = gen.queries(gen.MAKES, gen.FINDS, min_makes=0, max_makes=3)
    found = gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, min_makes=0, max_makes=2, with_find=True)
    return st.fixed_dictionaries(
        {
            "q": gen.weighted((3, simple), (2, rich), (2, found)),
            "layout": gen.LAYOUTS,
            # the first of these that can be made in this query
            "mistakes": st.permutations(gen.STATEMENT_MISTAKES).map(lambda x: list(x)[:10]),
            "site": st.integers(0, 200),
            "pick": st.integers(0, 10**6),
        }
    )


def report_text(statement: dict) -> str:
    """A misspelled REPORT is known by the bracket after it, like the other two."""
    return statement["t"] == "report"


def malformed(case):
    """(what was done wrong, the text) or None."""
    tokens = model.query_tokens(case["q"])
    for mistake in case["mistakes"]:
        sites = gen.mistake_sites(tokens, mistake)
        if mistake == "transposed_keyword":
            # only an opening bracket after it tells a misspelled keyword from any other word
            sites = [i for i in sites if case["q"][int(tokens[i][2][1:])]["t"] != "report"]
            reports = [i for i in gen.mistake_sites(tokens, mistake) if i not in sites]
            if reports and case["pick"] % 2:
                at = reports[0]
                end = next(i for i in range(at, len(tokens)) if tokens[i][0] == "semi")
                tokens.insert(end, ["rparen", ")", tokens[at][2]])
                tokens.insert(at + 1, ["lparen", "(", tokens[at][2]])
                sites = [at]
        if sites:
            at = sites[case["site"] % len(sites)]
            made = gen.make_mistake(tokens, mistake, at, case["pick"])
            return mistake, model.join_tokens(made, case["layout"])
    return None


def check_case(case, scratch):
    from exceptions.wiggle_base_exception import WiggleGraphBaseException

    found = malformed(case) if case["q"] else None
    if not found:
        return {"no_site": 1}
    mistake, text = found
    with sut.case_folder(scratch) as folder:
        gdbms = sut.new_dbms(folder)
        outcome = sut.query(text, gdbms)
        if outcome.ok:
            raise Violation(f"the query with the mistake {mistake} was accepted: {text!r}")
        if not isinstance(outcome.error, WiggleGraphBaseException):
            raise Violation(f"the query with the mistake {mistake} was rejected with {outcome.why()}: {text!r}")
    patterns = [p for s in case["q"] if s["t"] != "report" for p in s["pats"]]
    return {
        "nontrivial": len(case["q"]) > 1 or len(patterns) > 1,
        mistake: 1,
        "several_statements": len(case["q"]) > 1,
    }
