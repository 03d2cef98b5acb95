"""An interrupted MAKE leaves the old graph or the new graph."""
import os

from hypothesis import strategies as st

from pbt import faulty, gen, model, oracles, sut
from pbt.faulty import CRASH, CRASHED, COUNT, ERRORS, FAIL_ALL_FROM, FAIL_FROM, FAIL_ONCE, INTERRUPT, NAMES, forked, restore, saved_files
from pbt.violation import Violation

PROPERTY = "C18"
LEVEL = "fault_enumeration"
CASE_SECONDS = 250  # a case takes two seconds
EXAMPLES = {"quick": 144, "thorough": 4000}
RULE = (
    "A history of 0-3 queries, then a MAKE query with a fault at every one of its calls that change a file (found by a run "
    "that only counts them): the process ends before the call or part-way through a write; the call fails once, or it and "
    "all later ones that need space, or it and all later ones; a write is cut short; Ctrl-C is pressed. Then pairs of faults "
    "in two queries that follow each other. After each the files are read, and the next MAKE is run, in a new process where the old one "
    "ended. Non-trivial: the query is a MAKE with at least 5 calls to fault."
)
ASSUMPTIONS = [
    "files are changed through the libc calls that CPython makes (open, write, fsync, rename, unlink, ...)",
    "a process dies, the machine does not: what was written to a file is seen by the next process",
]

before = faulty.before
shard_init = faulty.shard_init


def strategy(tier):
    makes = gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, max_makes=2)
    query = gen.weighted((4, gen.step_of(makes)), (1, gen.BIG_STEPS), (1, gen.step_of(gen.queries(max_makes=2))))
    pairs = st.tuples(st.sampled_from(list(NAMES)), st.integers(0, 10**4), st.sampled_from(list(NAMES)), st.integers(0, 10**4)).map(list)
    survived = [FAIL_ONCE, FAIL_FROM, FAIL_ALL_FROM, INTERRUPT]
    modes = st.just(survived) if tier == "thorough" else st.permutations(survived).map(lambda x: list(x)[:2])
    return st.fixed_dictionaries(
        {
            "start": gen.STARTS,
            "history": st.lists(gen.weighted((3, gen.step_of(makes)), (1, gen.BIG_STEPS)), max_size=3),
            "query": query,
            "next": gen.step_of(gen.queries(gen.SIMPLE_MAKES, with_find=False, max_makes=2)),
            # a process that ends is tried at every call, and some or all of the others
            "modes": modes,
            "error": st.integers(0, len(ERRORS) - 1),
            "pairs": st.lists(pairs, max_size=4),
        }
    )


def build(gdbms, start, texts):
    sut.set_counter(gdbms, start)
    for text in texts:
        sut.must_query(text, gdbms)


def count(folder, gdbms, text):
    """The kinds of the calls the query makes when nothing fails."""
    faulty.arm(folder, COUNT)
    outcome = sut.query(text, gdbms)
    faulty.disarm()
    if not outcome.ok:
        raise Violation(f"a well-formed query was refused with {outcome.why()}\nquery: {text!r}")
    return faulty.kinds()


def judge(gdbms, base: sut.State, statements, accepted, what) -> sut.State:
    """The files are readable, the graph is the old or the new one and its names are in the indexes."""
    state = sut.read_state(gdbms, what)
    sut.records_kept(base.database, state.database, what)
    new = [k for k in state.database if k not in base.database]
    if new:
        found, expected = model.stored_components(state.database, new), model.expected_components(statements)
        if found != expected:
            raise Violation(f"{what} the graph is neither the old nor the new one, {model.difference(expected, found)}")
    elif accepted and model.expected_components(statements):
        raise Violation(f"{what} the query was accepted, the graph is the old one")
    needed, indexed = oracles.expected_indexes(state.database), oracles.raw_indexes(state)
    for name in ("node_labels", "relationship_names"):
        if not needed[name] <= indexed[name]:
            raise Violation(f"{what} {sorted(needed[name] - indexed[name])} of the stored graph are not in the {name} index")
    identifiers = sut.all_identifiers(state.database)
    if len(set(identifiers)) != len(identifiers):
        raise Violation(f"{what} an identifier is used twice")
    return state


def go_on(gdbms, state: sut.State, step, what) -> None:
    """The next MAKE works and gives out new identifiers."""
    statements, text = step["q"], gen.step_text(step)[0]
    what = f"{what} then running {text!r}:"
    outcome = sut.query(text, gdbms)
    if not outcome.ok:
        raise Violation(f"{what} it was refused with {outcome.why()}")
    after = judge(gdbms, state, statements, True, what)
    oracles.check_identifiers(after, what)
    used = set(sut.all_identifiers(state.database))
    for node, owned in state.indexes["node_relationships"].items():
        used.update([int(node), *owned])
    given = set(sut.all_identifiers({k: v for k, v in after.database.items() if k not in state.database}))
    if given & used:
        raise Violation(f"{what} the identifiers {sorted(given & used)} are given out again")


def run_with_fault(folder, gdbms, base, step, following, mode, at, error, part, what):
    """In a child that survives the fault: the query, and the next one in the same process."""
    statements, text = step["q"], gen.step_text(step)[0]
    faulty.arm(folder, mode, at, error, part)
    try:
        outcome = sut.query(text, gdbms)
        accepted = outcome.ok
    except KeyboardInterrupt:
        accepted = False
    finally:
        faulty.disarm()
    state = judge(gdbms, sut.State(*base), statements, accepted, what)
    if following:
        go_on(gdbms, state, following, what)


def after_crash(gdbms, base, step, following, what):
    """In a new process after one that ended."""
    state = judge(gdbms, sut.State(*base), step["q"], False, what)
    if following:
        go_on(gdbms, state, following, what)


def fault(folder, gdbms, base, step, following, mode, at, error, part, what):
    status, _ = forked(run_with_fault, folder, gdbms, base, step, following, mode, at, error, part, what)
    if mode == CRASH and status == CRASHED:
        forked(after_crash, gdbms, base, step, following, what)
    elif status != 0:
        raise Violation(f"{what} the process ended with status {status}")


def check_case(case, scratch):
    error = ERRORS[case["error"]]
    step, following = case["query"], case["next"]
    text = gen.step_text(step)[0]
    done = {name.replace(" ", "_"): 0 for name in NAMES.values()}
    with sut.case_folder(scratch) as base_folder:
        gdbms = sut.new_dbms(base_folder)
        folder = gdbms.database_file_path.parent
        forked(build, gdbms, case["start"], [gen.step_text(x)[0] for x in case["history"]])
        files = saved_files(folder)
        base = list(sut.read_state(gdbms))
        _, kinds = forked(count, folder, gdbms, text)

        for mode, at, part in faulty.points(kinds, [CRASH, *case["modes"]]):
            restore(folder, files)
            how = f" after {part}/8 of it" if part > 0 else ""
            what = f"{NAMES[mode]} ({os.strerror(error)}) at call {at} of {kinds}{how} of {text!r}, a database of {len(base[0])} records:"
            fault(folder, gdbms, base, step, following, mode, at, error, part, what)
            done[NAMES[mode].replace(" ", "_")] += 1

        for first, first_at, second, second_at in case["pairs"]:
            if not kinds:
                break
            restore(folder, files)
            first_at, second_at = first_at % len(kinds) + 1, second_at % len(kinds) + 1
            what = f"{NAMES[first]} at call {first_at} of {kinds} of {text!r}, a database of {len(base[0])} records:"
            fault(folder, gdbms, base, step, None, first, first_at, error, -1, what)
            between = list(sut.read_state(gdbms))
            what = f"{what} and {NAMES[second]} at call {second_at} when it is run again:"
            fault(folder, gdbms, between, step, following, second, second_at, error, -1, what)
            done["pairs"] = done.get("pairs", 0) + 1
    return {"nontrivial": len(kinds) >= 5, "calls": len(kinds), **done}
