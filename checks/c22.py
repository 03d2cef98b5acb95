"""Nothing written in an accepted MAKE query is silently dropped."""
from hypothesis import strategies as st

from pbt import gen, model, oracles, refparse, sut
from pbt.violation import Violation

PROPERTY = "C22"
LEVEL = "exploration"
EXAMPLES = {"quick": 9600, "thorough": 100000}
RULE = (
    "1-3 texts per case run on one database: MAKE/FIND/REPORT queries as they are and with 1-4 edits (pieces of syntax put in, taken out, "
    "doubled or swapped), queries with one of 14 mistakes, maps of properties made of pieces, sequences of tokens, and other "
    "text. An independent parser says what is written in the MAKE statements of a text: whatever is accepted must have added "
    "exactly that, whatever is rejected nothing. Non-trivial: a text with a MAKE was accepted and added "
    "something."
)
ASSUMPTIONS = [
    "a value without quotes that is no number, boolean or null is a string, as the code and its tests have it",
    "a MAKE statement starts at the start of the text or after a semicolon",
]

PIECES = [
    "1", "0", "7", "007", "3.14", "1.", ".5", "1.2.3", "-1", "+5", "1e5", "1_000", "0x10", "true", "false", "null", "True", "NULL", "None",
    "'x'", '"x"', "'it\"s'", '"it\'s"', "''", "'a, b: 1'", "'true'", "'{}'", "'{'", "'}'", "'[]'", "'('", "')'", "'()'", "'-'", "x", "x y", "x'y", "a@b.c",
    "[1, 2]", "[]", "[1]", "['a' 'b']", "[1 2]", "['a', 'b']", "[true, null]", "[1,]", "[,]", "[a]", "[[1]]", "[1, [2]]", "['{}']", "[']']", "['[']", "[1e5, 0x1F, 1_0]",
    "[1.5, .5, 1.]", "[True]", "[None]", "['a'1]", "[1'a']", "[+1]", "[1+2]", "[b'a']", "[1e999]", "['x' , \"y\"]", "{a: 1}", "{}", "٣", "٣.٤", "²", "1 2", "'a''b'", "'a' 'b'",
]
NAMES = ["a", "b", "c", "a", "wn", "1", "é", "", "a b", "a.b", "'a'", "null"]
COLONS = [": ", ": ", ": ", ": ", ":", " :\n", "", " ", "::", "="]
COMMAS = [", ", ", ", ", ", ", ", ",", " ,\n", "", " ", ",,", ";", " : "]
TOKENS = [
    "MAKE", "MAKE ", "make ", "FIND ", "REPORT *", ";", ";", ";", "(", ")", "(:", ":", "A", "B", "n", "(:A)", "(:B)", "(n:C)", "(:D {a: 1})", "(A)", "()", "-[:R]->", "<-[:S]-",
    "-[r:T]->", "-[]->", "<-[]-", "-->", "-", "--", ">", "<", "-[:R]-", "<-[:R]->", "-[:R {a: 1}]->", "-[:r]->", ",", ", ", " ", "\n", "{a: 1}", "{", "}", "[", "]", "'", "1", "x",
]


def strategy(tier):
    edits = st.lists(gen.EDITS.map(lambda e: e[0]), min_size=1, max_size=4)
    simple = gen.step_of(gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, max_makes=2))
    rich = gen.step_of(gen.queries(gen.MAKES, gen.FINDS, max_makes=2))
    edited = st.builds(lambda s, e: {**s, "edits": e}, gen.weighted((2, simple), (1, rich)), edits)
    plain = gen.step_of(gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, max_makes=2))
    mistaken = gen.step_of(gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS), mistake=gen.MISTAKES)
    prop = st.tuples(st.sampled_from(NAMES), st.sampled_from(COLONS), st.sampled_from(PIECES), st.sampled_from(COMMAS)).map(list)
    usual_prop = st.tuples(st.sampled_from(NAMES[:3] + ["d", "e", "f"]), st.just(": "), st.sampled_from(PIECES), st.just(", ")).map(list)
    props_map = gen.weighted((3, st.lists(usual_prop, min_size=1, max_size=4)), (1, st.lists(prop, min_size=1, max_size=4)))
    maps = st.fixed_dictionaries(
        {
            "maps": st.lists(props_map, min_size=1, max_size=3),
            "form": st.sampled_from(
                ["MAKE (:A #);", "MAKE (:A #), (:B #);", "MAKE (:A)-[:R #]->(:B #);", "MAKE (:A #)<-[r #]-(:B)-[:S]->(:C #);", "MAKE (:A#);MAKE(:B#)", "MAKE (#);", "MAKE (:A #)-[:R #]->(:A #)<-[:R #]-(:A #);", "MAKE (:A #), (:A #);", "MAKE (:A) #;", "MAKE (:A); MAKE , (:B #)", "MAKE (:A #); MAKE (:B #)"]
            ),
        }
    )
    soup = st.lists(st.sampled_from(TOKENS), max_size=14).map(lambda x: {"text": "MAKE " + "".join(x) + ";"})
    raw_soup = st.lists(st.sampled_from(TOKENS), max_size=12).map(lambda x: {"text": "".join(x)})
    other = gen.OTHER_TEXT.map(lambda x: {"text": x})
    return st.fixed_dictionaries(
        {"texts": st.lists(gen.weighted((5, edited), (2, plain), (2, mistaken), (4, maps), (2, soup), (1, raw_soup), (1, other)), min_size=1, max_size=3)}
    )


def map_text(pieces: list) -> str:
    text = "".join(f"{name}{colon}{piece}{comma}" for name, colon, piece, comma in pieces[:-1])
    name, colon, piece, _ = pieces[-1]
    return "{" + text + name + colon + piece + "}"


def text_of(step: dict) -> str:
    if "text" in step:
        return step["text"]
    if "maps" in step:
        text, turn = step["form"], 0
        while "#" in text:
            text = text.replace("#", map_text(step["maps"][turn % len(step["maps"])]), 1)
            turn += 1
        return text
    return gen.step_text(step)[0]


def check_text(text: str, gdbms, state: sut.State):
    """Runs a text; gives the state after it, whether it was accepted, how many components it added."""
    outcome = sut.query(text, gdbms)
    what = f"after {text!r}"
    after = sut.read_state(gdbms, what)
    sut.records_kept(state.database, after.database, what)
    new = [k for k in after.database if k not in state.database]
    if not outcome.ok:
        if not after.same_as(state):
            raise Violation(f"{text!r} was rejected with {outcome.why()} and changed the database")
        return after, False, 0
    found = model.stored_components(after.database, new)
    try:
        written = refparse.written_components(text)
    except refparse.Unreadable as error:
        raise Violation(f"{text!r} was accepted and stored as {found}, it can not be read: {error}")
    if written != found:
        raise Violation(f"{text!r} was accepted, {model.difference(written, found)}")
    return after, True, len(found)


def check_case(case, scratch):
    accepted = rejected = added = 0
    with sut.case_folder(scratch) as folder:
        gdbms = sut.new_dbms(folder)
        state = sut.read_state(gdbms)
        for step in case["texts"]:
            state, ok, count = check_text(text_of(step), gdbms, state)
            accepted += ok
            rejected += not ok
            added += count > 0
    return {"nontrivial": added, "accepted": accepted, "rejected": rejected, "accepted_with_nodes": added}
