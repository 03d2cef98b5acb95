"""Only MAKE writes: FIND and REPORT never change data."""
from hypothesis import strategies as st

from pbt import gen, model, oracles, sut
from pbt.violation import Violation

PROPERTY = "C06"
LEVEL = "exploration"
EXAMPLES = {"quick": 4800, "thorough": 60000}
RULE = (
    "A database of 1-2 MAKE queries, then 1-5 queries: FIND and FIND/REPORT queries, well formed, with a mistake or edited, "
    "of labels that exist or not, statements of clauses that do nothing yet, and queries of MAKE, FIND and REPORT in any "
    "order and on any lines. Without a MAKE statement the three files stay as they are; with one, exactly its patterns are "
    "new. Non-trivial: a query without MAKE is accepted on a database that is not empty, or FIND and MAKE share a query."
)
ASSUMPTIONS = ["a text has no MAKE statement if no MAKE starts it or follows a semicolon in it"]

JUNK = [
    "ADJUST n.a = 1;", "ADJUST MAKE (:A);", "CRITERIA n.a = 1 MAKE (:B);", "USING MAKE;", "USING n;", "# MAKE (:A)", "x MAKE (:A);",
    "-- MAKE (:A);", "FIND MAKE (:A);", "REPORT MAKE;", "FIND (n:A) MAKE (:B);", "FIND (:A), MAKE (:B);", "REPORT *, MAKE (:A);",
    "FIND (:A)\nMAKE (:B);", "FIND (n:A);REPORT n\nMAKE (:B);", "(:A) MAKE (:B);", "REMAKE (:A);", "MAKES (:A);", "_MAKE (:A);", "M AKE (:A);",
    "MAKE(:A)", "MAKE (:A)", "FIND (:A {a: 'MAKE (:B)'});", "FIND (:MAKE);", "FIND (MAKE:A)-[:MAKE]->(:B);", "FIND (:A {MAKE: 1});", "help", "", ";;",
]


def strategy(tier):
    finds = gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, min_makes=0, max_makes=0, with_find=True)
    rich_finds = gen.queries(gen.MAKES, gen.FINDS, min_makes=0, max_makes=0, with_find=True)
    mixes = gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, max_makes=3, with_find=True)
    rich_mixes = gen.queries(gen.MAKES, gen.FINDS, max_makes=3, with_find=True)
    edited = st.builds(lambda s, e: {**s, "edits": e}, gen.step_of(finds), gen.EDITS)
    junk = st.fixed_dictionaries({"q": finds, "layout": gen.LAYOUTS, "mistake": st.none(), "junk": st.sampled_from(JUNK), "at": st.integers(0, 2)})
    reports = st.builds(
        lambda r: {"q": [gen.report_of(r, ["n", "m"])], "layout": [" "], "mistake": None}, gen.RAW_REPORTS
    )
    return st.fixed_dictionaries(
        {
            "made": st.lists(gen.step_of(gen.queries(gen.SIMPLE_MAKES, with_find=False)), min_size=1, max_size=2),
            "steps": st.lists(
                gen.weighted(
                    (3, gen.step_of(finds)),
                    (1, gen.step_of(rich_finds)),
                    (1, gen.step_of(finds, mistake=gen.MISTAKES)),
                    (1, edited),
                    (2, junk),
                    (1, reports),
                    (3, gen.step_of(mixes)),
                    (1, gen.step_of(rich_mixes)),
                ),
                min_size=1,
                max_size=5,
            ),
        }
    )


def has_make_statement(text: str) -> bool:
    """Whether any statement of a text starts with the word MAKE (a semicolon ends a statement)."""
    return any(part.lstrip()[:4].lower() == "make" for part in text.split(";"))


def check_case(case, scratch):
    silent = mixed = refused = 0
    with sut.case_folder(scratch) as folder:
        gdbms = sut.new_dbms(folder)
        state = sut.read_state(gdbms)
        for step in case["made"]:
            state = oracles.run_well_formed(gdbms, state, step["q"], model.render(step["q"], step["layout"]))
        for step in case["steps"]:
            text, changed = gen.step_text(step)
            if "junk" in step:
                parts = [model.render([s], step["layout"]) for s in step["q"]]
                at = step["at"] % (len(parts) + 1)
                text = "".join(parts[:at] + [step["junk"]] + parts[at:])
            if any(s["t"] == "make" for s in step["q"]):
                state = oracles.run_well_formed(gdbms, state, step["q"], text)
                mixed += 1
                continue
            if has_make_statement(text):
                # an edit or a junk statement that makes after all
                outcome = sut.query(text, gdbms)
                state = sut.read_state(gdbms, f"after {text!r}")
                continue
            files = sut.files_of(folder)
            outcome = sut.query(text, gdbms)
            what = f"after {text!r}"
            after = sut.read_state(gdbms, what)
            if not after.same_as(state):
                raise Violation(f"{what}, which has no MAKE, the database went from\n{state.dump()} to\n{after.dump()}")
            if set(sut.files_of(folder)) != set(files):
                raise Violation(f"{what} the files {sorted(files)} became {sorted(sut.files_of(folder))}")
            plain = not changed and "junk" not in step and any(s["t"] == "find" for s in step["q"])
            if plain and not outcome.ok:
                raise Violation(f"{text!r} was refused with {outcome.why()}")
            silent += outcome.ok
            refused += not outcome.ok
    return {"nontrivial": silent or mixed, "silent": silent, "refused": refused, "mixed": mixed}
