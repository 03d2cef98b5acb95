"""Words that look like keywords are plain data inside a pattern."""
from itertools import permutations

from hypothesis import strategies as st

from pbt import gen, model, oracles, sut
from pbt.violation import Violation

PROPERTY = "C24"
LEVEL = "exploration"
EXAMPLES = {"quick": 4000, "thorough": 60000}
RULE = (
    "Well-formed queries (MAKE, FIND, REPORT in any order and layout, line breaks anywhere between tokens) all of whose labels, "
    "names, handles, property names and strings are keywords, anagrams of keywords (all 864), or such words with something "
    "before or after them, or words of values and of the files (null, true, none, relations, ...), in any case. Each must be accepted and add exactly its patterns (also none, for a FIND). One case in "
    "five has a keyword that is not at the start of a statement: what follows it must not be made. Non-trivial: at least three "
    "such words."
)
ASSUMPTIONS = ["strings hold no semicolon or bracket, which the language does not allow"]

BASES = ["MAKE", "FIND", "REPORT", "ADJUST", "CRITERIA", "USING"]
ANAGRAMS = sorted({"".join(x) for word in BASES[:3] for x in permutations(word)})
LITERALS = ["null", "none", "true", "false", "nan", "infinity", "wn", "node_label", "properties", "relations", "node_labels", "int", "list", "and", "or", "is", "not", "in", "where", "to", "from"]


def strategy(tier):
    base = gen.weighted((3, st.sampled_from(BASES[:3])), (3, st.sampled_from(ANAGRAMS)), (1, st.sampled_from(BASES[3:])))
    case = st.sampled_from([str.upper, str.lower, str.title, str.swapcase])
    plain = st.tuples(base, case).map(lambda x: x[1](x[0]))
    affix = st.sampled_from(["", "", "", "", "_", "1", "re", "s", "R", "A_", "make", "FIND"])
    words = gen.weighted((2, plain), (1, st.tuples(affix, plain, affix).map("".join)))
    upper_words = st.tuples(gen.weighted((3, st.just("")), (1, st.sampled_from(["_", "RE", "A_"]))), base, st.sampled_from(["", "", "", "S", "1", "_"])).map("".join)
    # words of a value, and of the files, are words like any other too
    literals = st.tuples(affix, st.tuples(st.sampled_from(LITERALS), case).map(lambda x: x[1](x[0])), affix).map("".join)
    names = gen.weighted((5, words), (1, literals))
    upper_words = gen.weighted((5, upper_words), (1, st.sampled_from([x.upper() for x in LITERALS])))
    around = st.sampled_from(["", "", " ", "\n", "\t", ", ", ": ", " : A", ".", "x ", " x", "\nx", "\n\n", "@"])
    phrase = st.tuples(around, words, around, gen.weighted((2, st.just("")), (1, words))).map("".join)
    strings = st.tuples(phrase, st.sampled_from("'\"")).map(lambda x: ["str", x[0], x[1]])
    values = gen.weighted((5, strings), (1, gen.SIMPLE_VALUES), (2, st.lists(strings, max_size=3).map(lambda x: ["list", x])))
    props = gen.props(values, keys=names, max_size=3)
    handles = gen.weighted((1, st.just("")), (3, names))
    pattern = gen.patterns(labels=names, names=upper_words, handles=handles, props=props)
    make, find = gen.makes(pattern, max_patterns=2), gen.finds(pattern)
    query = gen.weighted(
        (2, gen.queries(make, find, max_makes=2)), (1, gen.queries(make, find, min_makes=0, max_makes=1, with_find=True))
    )
    layouts = gen.weighted((1, gen.LAYOUTS), (2, st.lists(st.sampled_from(["\n", "\n", "", " ", "\r\n", "\t"]), min_size=1, max_size=7)))
    inside = st.fixed_dictionaries({"q": query, "layout": layouts})
    not_at_start = st.fixed_dictionaries(
        {
            "q": st.lists(make, min_size=1, max_size=1),
            "layout": layouts,
            "before": st.sampled_from(
                ["FIND (:Z);ADJUST ", "FIND (:Z);\nUSING\n", "FIND (:Z);CRITERIA z.a = 1 ", "FIND (:Z);x ", "FIND (:Z);re", "find (:Z); _", "ADJUST ", "CRITERIA n.a = 1 ", "USING ", "USING\n", "x ", "# ", "-- ", "FIND ", "FIND (:A) ", "FIND (:A)\n", "FIND (:A), ", "REPORT *, ",
                 "REPORT\n", "find (n:A) report n ", "re", "_", "1", "\"", "(", "FIND (n:A);REPORT n ", "MAKE ", "MAKE MAKE ", "MAKE (:A) ", "MAKE (:A)\n"]
            ),
        }
    )
    return gen.weighted((4, inside), (1, not_at_start))


def words_of(statements: list) -> int:
    count = 0
    for s in statements:
        for p in s.get("pats", []):
            for x in p["nodes"] + p["rels"]:
                count += bool(x["h"]) + bool(x.get("l") or x.get("n")) + len(x["p"] or [])
    return count


def check_case(case, scratch):
    with sut.case_folder(scratch) as folder:
        gdbms = sut.new_dbms(folder)
        state = sut.read_state(gdbms)
        text = model.render(case["q"], case["layout"])
        if "before" not in case:
            oracles.run_well_formed(gdbms, state, case["q"], text)
            # and once more, on a graph that has all of these words
            oracles.run_well_formed(gdbms, sut.read_state(gdbms), case["q"], text)
            return {"nontrivial": words_of(case["q"]) > 2, "queries": 1, "words": words_of(case["q"])}
        text = case["before"] + text.lstrip()
        outcome = sut.query(text, gdbms)
        after = sut.read_state(gdbms, f"after {text!r}")
        if after.database:
            raise Violation(f"{text!r} made {after.database} from a MAKE that is not the start of a statement")
        return {"nontrivial": words_of(case["q"]) > 2, "not_at_start": 1, "not_at_start_accepted": outcome.ok}
