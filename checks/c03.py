"""Identifiers are unique and never reused."""
from hypothesis import strategies as st

from pbt import gen, oracles, sut
from pbt.violation import Violation

PROPERTY = "C03"
LEVEL = "exploration"
EXAMPLES = {"quick": 3000, "thorough": 60000}
RULE = (
    "Histories of 1-7 queries, accepted and refused (one of 14 mistakes somewhere), some of dozens of patterns, on an "
    "empty database whose counter starts anywhere. After every query no identifier belongs to two records, none was ever "
    "given out before, earlier records keep theirs, and the counter is above all of them and never goes down. "
    "Non-trivial: at least two accepted queries that made something and three identifiers."
)
ASSUMPTIONS = ["a counter above 0 with no record is what wiping a database leaves"]


def strategy(tier):
    return st.fixed_dictionaries({"start": gen.STARTS, "steps": gen.HISTORIES})


def check_case(case, scratch):
    accepted = refused = 0
    with sut.case_folder(scratch) as folder:
        gdbms = sut.new_dbms(folder)
        sut.set_counter(gdbms, case["start"])
        state = sut.read_state(gdbms)
        given = set()
        for step in case["steps"]:
            text, _ = gen.step_text(step)
            outcome = sut.query(text, gdbms)
            after = sut.read_state(gdbms, f"after {text!r}")
            what = f"after {text!r}"
            oracles.check_identifiers(after, what)
            sut.records_kept(state.database, after.database, what)
            if after.counter < state.counter:
                raise Violation(f"{what} the counter went from {state.counter} down to {after.counter}")
            new = set(sut.all_identifiers(after.database)) - set(sut.all_identifiers(state.database))
            if new & given or (new and min(new) < state.counter):
                raise Violation(f"{what} the identifiers {sorted(new)} were not all new, the counter was {state.counter}")
            given |= new
            accepted += outcome.ok and bool(new)
            refused += not outcome.ok
            state = after
    return {
        "nontrivial": accepted > 1 and len(given) > 2,
        "accepted": accepted,
        "refused": refused,
        "identifiers": len(given),
        "over_100_identifiers": len(given) > 100,
        "accepted_after_refused": accepted > 0 and refused > 0,
    }
