"""An interrupted change of a database, an index or the counter is made or not made."""
import json
import os

from hypothesis import strategies as st

from checks import c16
from pbt import faulty, gen, model, sut
from pbt.faulty import CRASH, CRASHED, COUNT, ERRORS, FAIL_ALL_FROM, FAIL_FROM, FAIL_ONCE, INTERRUPT, NAMES, forked, restore, saved_files
from pbt.violation import Violation

PROPERTY = "C31"
LEVEL = "fault_enumeration"
CASE_SECONDS = 250
EXAMPLES = {"quick": 480, "thorough": 12000}
RULE = (
    "0-4 changes of the files of a DBMS by the functions that store (add records, add to an index, write the counter, wipe the "
    "database or an index), then one more with a fault at every one of its calls that change a file (found by a run that only "
    "counts them): the process ends before the call or part-way through a write; the call fails once, or it and all later ones "
    "that need space, or it and all later ones; Ctrl-C is pressed. After each, in a new process where the old one ended, "
    "everything loads as it was before the change or as it is after it (after it, if the function returned), the files are "
    "complete, and the next change is made as usual. Non-trivial: the change makes a difference and has at least 4 calls to fault."
)
ASSUMPTIONS = [
    "files are changed through the libc calls that CPython makes (open, write, fsync, rename, unlink, ...)",
    "a process dies, the machine does not: what was written to a file is seen by the next process",
]

before = faulty.before
shard_init = faulty.shard_init

SETS = ["node_labels", "relationship_names"]
INDEXES = SETS + ["node_relationships"]


def strategy(tier):
    value = gen.weighted((3, st.integers(0, 9)), (1, st.sampled_from(["x", "é", None, [1, "y"], "z" * 9000])))
    record = st.dictionaries(st.sampled_from(["node_label", "properties", "relations"]), value, max_size=3)
    batch = st.lists(st.tuples(st.integers(0, 12).map(str), record).map(list), max_size=4, unique_by=lambda x: x[0])
    fresh = st.tuples(batch, st.integers(13, 5000)).map(lambda x: [[f"{x[1]}{i}", r] for i, (_, r) in enumerate(x[0])])
    many = st.integers(100, 900).map(lambda n: [[f"m{i}", {"node_label": f"L{i}"}] for i in range(n)])
    words = st.lists(gen.weighted((3, st.sampled_from(["A", "B", "R", "", "é", "node_labels"])), (1, st.just("w" * 5000))), max_size=4)
    owners = st.lists(st.tuples(st.integers(0, 12).map(str), st.lists(st.integers(0, 30), max_size=4)).map(list), max_size=3, unique_by=lambda x: x[0])
    change = gen.weighted(
        (3, st.tuples(st.just("records"), gen.weighted((3, fresh), (3, batch), (1, many))).map(list)),
        (2, st.tuples(st.just("add"), st.sampled_from(SETS), words).map(list)),
        (2, st.tuples(st.just("add"), st.just("node_relationships"), owners).map(list)),
        (1, st.tuples(st.just("wipe"), st.sampled_from(INDEXES + ["database", "database"])).map(list)),
        (1, st.tuples(st.just("count"), gen.weighted((3, st.integers(0, 2000)), (1, st.integers(0, 10**30)))).map(list)),
    )
    survived = [FAIL_ONCE, FAIL_FROM, FAIL_ALL_FROM, INTERRUPT]
    return st.fixed_dictionaries(
        {
            "first": st.lists(change, max_size=4),
            "change": change,
            "next": change,
            "modes": st.just(survived) if tier == "thorough" else st.permutations(survived).map(lambda x: list(x)[:2]),
            "error": st.integers(0, len(ERRORS) - 1),
        }
    )


def make_change(gdbms, change):
    from wiggle_query_language.graph.database.database import add_item_to_database, wipe_database
    from wiggle_query_language.graph.state.wiggle_number import update_wiggle_number

    kind = change[0]
    if kind == "records":
        return sut.call(add_item_to_database, gdbms.database_file_path, dict(change[1]))
    if kind == "count":
        return sut.call(update_wiggle_number, gdbms.wiggle_number_file_path, change[1])
    if kind == "wipe" and change[1] == "database":
        return sut.call(wipe_database, gdbms.database_file_path, True)
    add, _, wipe = c16.functions()[change[1]]
    if kind == "wipe":
        return sut.call(wipe, gdbms.indexes_file_path, True)
    return sut.call(add, gdbms.indexes_file_path, set(change[2]) if change[1] in SETS else {k: set(v) for k, v in change[2]})


EMPTY = {"database": [], "node_labels": [], "relationship_names": [], "node_relationships": {}, "counter": 0}


def changed(state: dict, change) -> dict:
    """The state after a change, None where it is refused."""
    state = json.loads(json.dumps(state))
    kind = change[0]
    if kind == "records":
        known = {k for k, _ in state["database"]}
        if any(k in known for k, _ in change[1]):
            return None
        state["database"] += change[1]
    elif kind == "count":
        state["counter"] = change[1]
    elif kind == "wipe":
        state[change[1]] = {} if change[1] == "node_relationships" else []
    elif change[1] in SETS:
        state[change[1]] = sorted({*state[change[1]], *change[2]})
    else:
        owned = state["node_relationships"]
        for key, values in change[2]:
            if values:
                owned[key] = sorted({*owned.get(key, []), *values})
    return state


def as_stored(gdbms, what) -> dict:
    """What the functions of the repository load."""
    from wiggle_query_language.graph.database.database import load_database
    from wiggle_query_language.graph.state.wiggle_number import get_current_wiggle_number

    for path in (gdbms.database_file_path, gdbms.indexes_file_path):
        try:
            json.loads(path.read_text())
        except (OSError, ValueError) as error:
            raise Violation(f"{what} {path.name} is not complete: {error!r}")
    indexes = {name: sut.must(what, c16.functions()[name][1], gdbms.indexes_file_path) for name in INDEXES}
    return {
        "database": [[k, v] for k, v in sut.must(what, load_database, gdbms.database_file_path).items()],
        **{name: sorted(indexes[name]) for name in SETS},
        "node_relationships": {str(k): sorted(v) for k, v in indexes["node_relationships"].items() if v},
        "counter": sut.must(what, get_current_wiggle_number, gdbms.wiggle_number_file_path),
    }


def shortened(change) -> str:
    return f"{change!r}"[:300]


def difference(stored, *states) -> str:
    parts = [name for name in EMPTY if all(stored[name] != x[name] for x in states)] or ["all of it together"]
    return ", ".join(parts) + f": {str({k: stored[k] for k in parts if k in stored})[:300]}"


def judge(gdbms, old, change, following, accepted, what) -> None:
    new = changed(old, change)
    stored = as_stored(gdbms, what)
    if accepted and new is None:
        raise Violation(f"{what} it was not refused")
    if accepted and model.typed(stored) != model.typed(new):
        raise Violation(f"{what} the function returned and the change is not made in {difference(stored, new)}")
    if all(model.typed(stored) != model.typed(x) for x in (old, new) if x is not None):
        raise Violation(f"{what} neither the old nor the new state is stored in {difference(stored, *(x for x in (old, new) if x is not None))}")
    # and the next one
    what = f"{what} then {shortened(following)}:"
    expected = changed(stored, following)
    outcome = make_change(gdbms, following)
    if outcome.ok != (expected is not None):
        raise Violation(f"{what} {outcome.why() if not outcome.ok else 'it was not refused'}")
    after = as_stored(gdbms, what)
    expected = stored if expected is None else expected
    if model.typed(after) != model.typed(expected):
        raise Violation(f"{what} it is wrong in {difference(after, expected)}")


def count(folder, gdbms, old, change):
    faulty.arm(folder, COUNT)
    outcome = make_change(gdbms, change)
    faulty.disarm()
    what = f"after {shortened(change)}, which nothing disturbed:"
    new = changed(old, change)
    if outcome.ok != (new is not None):
        raise Violation(f"{what} {outcome.why() if not outcome.ok else 'it was not refused'}")
    stored, new = as_stored(gdbms, what), old if new is None else new
    if model.typed(stored) != model.typed(new):
        raise Violation(f"{what} it is wrong in {difference(stored, new)}")
    return faulty.kinds()


def run_with_fault(folder, gdbms, old, change, following, mode, at, error, part, what):
    """In a child that survives the fault."""
    faulty.arm(folder, mode, at, error, part)
    try:
        accepted = make_change(gdbms, change).ok
    except KeyboardInterrupt:
        accepted = False
    finally:
        faulty.disarm()
    judge(gdbms, old, change, following, accepted, what)


def build(gdbms, changes):
    state = EMPTY
    for change in changes:
        make_change(gdbms, change)
        state = changed(state, change) or state
    what = f"after {[shortened(x) for x in changes]}:"
    stored = as_stored(gdbms, what)
    if model.typed(stored) != model.typed(state):
        raise Violation(f"{what} it is wrong in {difference(stored, state)}")
    return state


def check_case(case, scratch):
    error, change, following = ERRORS[case["error"]], case["change"], case["next"]
    done = {name.replace(" ", "_"): 0 for name in NAMES.values()}
    with sut.case_folder(scratch) as base_folder:
        gdbms = sut.new_dbms(base_folder)
        folder = gdbms.database_file_path.parent
        _, old = forked(build, gdbms, case["first"])
        files = saved_files(folder)
        _, kinds = forked(count, folder, gdbms, old, change)
        for mode, at, part in faulty.points(kinds, [CRASH, *case["modes"]]):
            restore(folder, files)
            how = f" after {part}/8 of it" if part > 0 else ""
            what = f"{NAMES[mode]} ({os.strerror(error)}) at call {at} of {kinds}{how} of {shortened(change)} after {[shortened(x) for x in case['first']]}:"
            status, _ = forked(run_with_fault, folder, gdbms, old, change, following, mode, at, error, part, what)
            if mode == CRASH and status == CRASHED:
                forked(judge, gdbms, old, change, following, False, what)
            elif status != 0:
                raise Violation(f"{what} the process ended with status {status}")
            done[NAMES[mode].replace(" ", "_")] += 1
    new = changed(old, change)
    return {"nontrivial": new is not None and new != old and len(kinds) >= 4, "calls": len(kinds), change[0]: 1, **done}
