"""A rejected query leaves the database untouched."""
from hypothesis import strategies as st

from pbt import gen, model, oracles, sut
from pbt.violation import Violation

PROPERTY = "C05"
LEVEL = "exploration"
EXAMPLES = {"quick": 4800, "thorough": 60000}
RULE = (
    "0-2 valid queries, then 1-3 queries meant to be rejected: a valid query of several statements with one of 14 mistakes, "
    "an edit of its text, a second FIND or REPORT, an unknown REPORT handle, a value or pattern that cannot be stored, in "
    "some place among the valid statements. Whichever of them raise must leave the three files as they were and no other "
    "file behind; then a valid query must be accepted and add exactly its patterns. Non-trivial: a rejected query that "
    "holds a valid MAKE statement besides the bad part."
)
ASSUMPTIONS = ["only queries that the code rejects are judged here; what must be rejected is C09, C21 and C22"]

# Statements and pattern texts that read well at first and can not be stored, or not together
BAD_STATEMENTS = [
    "FIND (:A);FIND (:B);",
    "REPORT *;REPORT *;",
    "FIND (a:A);REPORT zz;",
    "FIND (a:A);REPORT a.;",
    "FIND (:A {x: 'true'});",
    "FIND (:A {x: 'None'});",
    "FIND (:A {x: 1, x: 2});",
    "FIND (:A {x: -1});",
    "FIND (:A)-[:R]->(:B)-[:S {x: 'null'}]->(:C);" ,
    "FIND (:A)-[:R]->(:B)-[:S]->(:C {x: 'null'});",
    "FIND (:A)-[:R {x: 'False'}]->(:B);",
    "FIND (a:A)-[a:R]->(:B);",
    "FIND (:A)-[:r]->(:B);",
    "FIND (:A)-[:R]-(:B);",
    "FIND ();",
    "FIND (a);",
    "FIND;",
    "MAKE;",
    "MAKE ();",
    "MAKE (a);",
    "MAKE (:A {x: 'true'});",
    "MAKE (:A)-[:R {x: 'Null'}]->(:B);",
    "MAKE (:A)-[:R]->(:B {x: 'none'});",
    "MAKE (:A)-[:R]->(:B)-[:S {x: 'none'}]->(:C);",
    "MAKE (:A {x: 1, x: 2});",
    "MAKE (:A), (:B {x: 1, y: 1, x: 2});",
    "MAKE (:A)-[:R]->(:B {x: -1});",
    "MAKE (:A {x: 1e5});",
    "MAKE (:A {x: [[1]]});",
    "MAKE (:A {x: [1, [2]]});",
    "MAKE (:A {x: [b'a']});",
    "MAKE (:A {x: [1j]});",
    "MAKE (:A {x: [...]});",
    "MAKE (:A {x: [{1}]});",
    "MAKE (:A {x: [1 2]});",
    "MAKE (:A {x: [a]});",
    "MAKE (:A {x: [007]});",
    "MAKE (:A {x: [1e999]});",
    "MAKE (:A {x: " + "9" * 400 + ".0});",
    "MAKE (:A {x: " + "9" * 4400 + "});",
    "MAKE (:A)-[:R]->(:B)-[:S]->(:C)-[:T]->(:D);",
    "MAKE (a:A)-[:R]->(a:B);",
    "MAKE (a:A)-[a:R]->(:B);",
    "MAKE (:A), (a:A)-[:R]->(:B)-[:S]->(a:C);",
    "MAKE (:A)-[:R]-(:B);",
    "MAKE (:A)<-[:R]->(:B);",
    "MAKE (:A)-->(:B);",
    "MAKE (:A)-[:r]->(:B);",
    "MAKE (:A)-[:R]->;",
    "MAKE (:A;",
    "MAKE (:A {x: 1);",
    "MAKE (:A {x: #});",
    "MAKE (:A {x: });",
    "MAKE (:A {x 1});",
    "MAKE (:A {x: 1 y: 2});",
    "MAKE (:A {x: True});",
    "MKAE (:A);",
    "DNIF (:A);",
    "FIND (a:A);TROPER (a);",
]


def strategy(tier):
    edits = st.builds(lambda s, e: {**s, "edits": e}, gen.step_of(gen.SIMPLE_QUERIES), gen.EDITS)
    mistaken = gen.step_of(gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, max_makes=3), mistake=gen.MISTAKES)
    inserted = st.fixed_dictionaries(
        {
            "q": gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, max_makes=2),
            "layout": gen.LAYOUTS,
            "mistake": st.none(),
            "bad": gen.weighted((5, st.sampled_from(BAD_STATEMENTS)), (1, gen.OTHER_TEXT)),
            "at": st.integers(0, 5),
        }
    )
    patched = st.fixed_dictionaries(
        {
            "q": gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, max_makes=3),
            "layout": gen.LAYOUTS,
            "mistake": st.none(),
            "poison": st.tuples(st.integers(0, 60), st.sampled_from(POISON)).map(list),
        }
    )
    good = gen.step_of(gen.SIMPLE_QUERIES)
    return st.fixed_dictionaries(
        {
            "start": gen.STARTS,
            "before": st.lists(good, max_size=2),
            "bad": st.lists(gen.weighted((2, mistaken), (2, inserted), (2, patched), (1, edits)), min_size=1, max_size=3),
            "after": good,
        }
    )


# Properties that can not be stored, added to the map of some node or relationship
POISON = ["'true'", "'None'", "'Null'", "-1", "1e5", "[[1]]", "[1 2]", "[b'a']", "[1j]", "9" * 400 + ".0", "[1e999]", "1.2.3", "", "x/y"]


def bad_text(step) -> tuple:
    """The text, and whether the query holds a valid MAKE besides what is wrong with it."""
    others = any(s["t"] == "make" for s in step["q"])
    if "bad" in step:
        at = step["at"] % (len(step["q"]) + 1)
        parts = [model.render([s], step["layout"]) for s in step["q"]]
        return "\n".join(parts[:at] + [step["bad"]] + parts[at:]), others
    if "poison" in step:
        where, value = step["poison"]
        tokens = model.query_tokens(step["q"])
        # after the label or name of a node or relationship that has no map
        sites = [
            i
            for i, t in enumerate(tokens)
            if t[0] in ("rparen", "relclose") and tokens[i - 1][0] != "rcurly" and ".p" in t[2]
        ]
        if sites:
            at = sites[where % len(sites)]
            tokens.insert(at, ["poison", "{p0: 1, poison: %s}" % value, tokens[at][2]])
        others = len([p for s in step["q"] if s["t"] != "report" for p in s["pats"]]) > 1
        return model.join_tokens(tokens, step["layout"]), others
    text, _ = gen.step_text(step)
    return text, len(step["q"]) > 1


def check_case(case, scratch):
    rejected = among_valid = accepted = 0
    with sut.case_folder(scratch) as folder:
        gdbms = sut.new_dbms(folder)
        sut.set_counter(gdbms, case["start"])
        state = sut.read_state(gdbms)
        for step in case["before"]:
            state = oracles.run_well_formed(gdbms, state, step["q"], model.render(step["q"], step["layout"]))
        for step in case["bad"]:
            text, others = bad_text(step)
            files = sut.files_of(folder)
            outcome = sut.query(text, gdbms)
            what = f"after {text!r}"
            after = sut.read_state(gdbms, what)
            if outcome.ok:
                accepted += 1
                state = after
                continue
            rejected += 1
            among_valid += others
            if not after.same_as(state):
                raise Violation(
                    f"{what}, rejected with {outcome.why()}, the database went from\n{state.dump()} to\n{after.dump()}"
                )
            if set(sut.files_of(folder)) != set(files):
                raise Violation(f"{what}, rejected, the files {sorted(files)} became {sorted(sut.files_of(folder))}")
            if sut.query(text, gdbms).ok:
                raise Violation(f"{text!r} was rejected, then accepted")
        step = case["after"]
        oracles.run_well_formed(gdbms, state, step["q"], model.render(step["q"], step["layout"]))
    return {"nontrivial": among_valid > 0, "rejected": rejected, "rejected_among_valid": among_valid, "accepted": accepted}
