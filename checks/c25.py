"""A database lives in its files: sessions see each other's queries, wherever they run."""
import time

from hypothesis import strategies as st

from pbt import dictionary, gen, model, sessions, sut
from pbt.violation import Violation

PROPERTY = "C25"
LEVEL = "exploration"
EXAMPLES = {"quick": 1600, "thorough": 40000}
RULE = (
    "Histories of 2-10 queries (MAKE, FIND, REPORT, valid and with mistakes) on one database, with "
    "searches for what was made earlier or will be made later, each run in one of up to four "
    "sessions: processes that stay open over the history, or are now and then closed and opened again, with different hash "
    "seeds, locales (one of ASCII only), time zones and working directories. Compared with the same queries in one session: "
    "every query is accepted, answered and stored alike, and creation times lie between its start and its end. Non-trivial: "
    "at least two sessions made something, with a change between them at least twice."
)
ASSUMPTIONS = ["queries of different sessions do not run at the same moment", "the DBMS folder has a name in ASCII"]

TOLERANCE = 5e-6
# session -> environment
SESSIONS = [0, 1, 2, 0]


def strategy(tier):
    # the search for a pattern made before or after it, or a query again
    search = st.fixed_dictionaries({"find_of": st.integers(0, 9), "pattern": st.integers(0, 3)})
    again = st.fixed_dictionaries({"again": st.integers(0, 9)})
    step = gen.weighted((3, search), (1, again), (5, gen.STEPS), (2, gen.RICH_STEPS), (1, gen.step_of(gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, min_makes=0, max_makes=0, with_find=True))))
    numbered = st.tuples(st.integers(0, 3), gen.weighted((5, st.just(False)), (1, st.just(True))), step).map(list)
    return st.fixed_dictionaries(
        {
            "start": gen.STARTS,
            # session, whether it is a new one, query
            "steps": gen.hinted(st.lists(numbered, min_size=2, max_size=10), gen.repeated(st.lists(numbered, min_size=1, max_size=3), dictionary.sizes(40, 2)), usually=40),
        }
    )


def shard_init(scratch):
    sut.preload()
    sessions.start(scratch)


def plain(state: sut.State) -> list:
    indexes = {k: {x: sorted(set(y)) for x, y in v.items()} if isinstance(v, dict) else sorted(set(v)) for k, v in state.indexes.items()}
    return [sut.sans_times(state.database), indexes, state.counter]


def created_at(database: dict) -> dict:
    found = {}
    for node in database.values():
        for metadata in [node["node_metadata"]] + [r["relationship_metadata"] for r in sut.relations_of(node)]:
            found[metadata["wn"]] = metadata["created_at"]
    return found


def run(queries, start, folder):
    """Runs the (session, new, text) triples; gives what each answered and left, and who made something."""
    opened: dict = {}
    results = []
    makers = []
    try:
        first = queries[0][0]
        opened[first] = sessions.Session(SESSIONS[first])
        gdbms, error = opened[first].create("graph", folder)
        if error:
            raise Violation(f"creating a DBMS raised {error}")
        sut.set_counter(gdbms, start)
        known: dict = {}
        for number, new, text in queries:
            if new and number in opened:
                opened.pop(number).close()
            if number not in opened:
                opened[number] = sessions.Session(SESSIONS[number])
            before, ticks = time.time(), time.monotonic()
            ok, why, out = opened[number].query(gdbms, text)
            after, ticks = time.time(), time.monotonic() - ticks
            state = sut.read_state(gdbms, f"after {text!r} in session {number}")
            times = created_at(state.database)
            if abs((after - before) - ticks) < 0.05:
                for wn in times.keys() - known.keys():
                    if not before - TOLERANCE <= times[wn] <= after + TOLERANCE:
                        raise Violation(
                            f"{wn} has the creation time {times[wn]}, {text!r} ran from {before} to {after} in {sessions.ENVIRONMENTS[SESSIONS[number]]}"
                        )
            if times.keys() - known.keys():
                makers.append(number)
            known = times
            results.append((ok, why, "no results" in out.lower(), plain(state)))
    except sessions.SessionEnded as error:
        raise Violation(f"a session ended: {error}")
    finally:
        for session in opened.values():
            session.close()
    return results, makers


def texts(steps: list) -> list:
    written = [None if "find_of" in s or "again" in s else gen.step_text(s)[0] for s in steps]
    makes = [s for s in steps if any(x["t"] == "make" for x in s.get("q") or [])]
    plain_texts = [t for t in written if t is not None]
    for i, step in enumerate(steps):
        if "find_of" in step and makes:
            patterns = [p for x in makes[step["find_of"] % len(makes)]["q"] if x["t"] == "make" for p in x["pats"]]
            written[i] = model.render([{"t": "find", "kw": "FIND", "pats": [patterns[step["pattern"] % len(patterns)]]}], [" "])
        elif written[i] is None:
            written[i] = plain_texts[step.get("again", 0) % len(plain_texts)] if plain_texts else "FIND (:A);"
    return written


def check_case(case, scratch):
    steps = case["steps"]
    queries = [(number, new, text) for (number, new, _), text in zip(steps, texts([step for _, _, step in steps]))]
    with sut.case_folder(scratch) as folder:
        (folder / "one").mkdir()
        (folder / "many").mkdir()
        one, _ = run([(0, False, text) for _, _, text in queries], case["start"], folder / "one")
        many, makers = run(queries, case["start"], folder / "many")
    for (number, _, text), alone, shared in zip(queries, one, many):
        what = f"{text!r} of {[(n, t) for n, _, t in queries]}"
        if alone[0] != shared[0]:
            raise Violation(f"{what}: {'accepted' if shared[0] else 'rejected with ' + shared[1]} in session {number}, in one session {alone[1] or 'accepted'}")
        if alone[2] != shared[2]:
            raise Violation(f"{what}: 'no results' is {shared[2]} in session {number}, {alone[2]} in one session")
        if alone[3] != shared[3]:
            raise Violation(f"{what}: session {number} left\n{shared[3]}\none session leaves\n{alone[3]}")
    changes = sum(a != b for a, b in zip(makers, makers[1:]))
    return {
        "nontrivial": changes > 1,
        "sessions": len({n for n, _, _ in queries}),
        "queries": len(queries),
        "queries_that_made": len(makers),
        "other_session_made": changes,
        "closed_and_opened": sum(new for _, new, _ in queries),
    }
