"""An interrupted creation or deletion of a DBMS leaves no half of one."""
import os

from hypothesis import strategies as st

from pbt import faulty, gen, sut
from pbt.faulty import CRASH, CRASHED, COUNT, ERRORS, FAIL_ALL_FROM, FAIL_FROM, FAIL_ONCE, INTERRUPT, NAMES, forked
from pbt.violation import Violation

PROPERTY = "C27"
LEVEL = "fault_enumeration"
CASE_SECONDS = 250  # a case takes a second
EXAMPLES = {"quick": 240, "thorough": 8000}
RULE = (
    "A creation (by call or at the prompt) or deletion of a DBMS beside 0-3 others, with a fault at every one of its calls "
    "that change a file or folder (found by a run that only counts them): the process ends before the call or part-way "
    "through a write; the call fails once, or it and all later ones that need space, or it and all later ones; Ctrl-C is "
    "pressed. Then, in a new process where the old one ended: the other DBMSs are as before, one that can be selected is "
    "complete, and the name can be created, deleted and created again, with queries run in between. Then a second fault "
    "in the operation when it is tried again. Non-trivial: another DBMS exists and the operation has at least 3 calls to fault."
)
ASSUMPTIONS = [
    "files are changed through the libc calls that CPython makes (open, write, fsync, rename, unlink, mkdir, ...)",
    "a process dies, the machine does not: what was written to a file is seen by the next process",
]

before = faulty.before
shard_init = faulty.shard_init

WORDS = ["a", "ab", "graph", "a b", ".a", "*", "[a]", "é", "x.json", "database_a", "~", "0", "z" * 60]
EMPTY = {"node_relationships": {}, "node_labels": [], "relationship_names": []}


def strategy(tier):
    survived = [FAIL_ONCE, FAIL_FROM, FAIL_ALL_FROM, INTERRUPT]
    text = gen.step_of(gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, max_makes=1)).map(lambda s: gen.step_text(s)[0])
    texts = st.lists(text, max_size=2)
    return st.fixed_dictionaries(
        {
            "names": st.lists(st.sampled_from(WORDS), min_size=1, max_size=4, unique=True),
            "texts": st.lists(texts, min_size=4, max_size=4),
            "operation": gen.weighted((2, st.just("create")), (1, st.just("prompt")), (2, st.just("delete"))),
            # files that an earlier interruption or the user left in the folder that is deleted
            "left": st.lists(st.sampled_from([".write.tmp", "notes.txt", ".hidden"]), unique=True, max_size=2),
            "modes": st.just(survived) if tier == "thorough" else st.permutations(survived).map(lambda x: list(x)[:2]),
            "error": st.integers(0, len(ERRORS) - 1),
            "seconds": st.lists(st.tuples(st.sampled_from(list(NAMES)), st.integers(0, 10**4), st.sampled_from(list(NAMES)), st.integers(0, 10**4)).map(list), max_size=3),
            "then": st.sampled_from(["create", "create", "delete"]),
            "next": text,
        }
    )


def lay_out(where, case):
    from wiggle_shell.core.select_gdbms import get_new_gdbms_file_paths

    for i, (name, texts) in enumerate(zip(case["names"], case["texts"])):
        if i == 0 and case["operation"] != "delete":
            continue
        gdbms = sut.must(f"creating {name!r}", get_new_gdbms_file_paths, name, where)
        for text in texts:
            sut.must_query(text, gdbms)
        for left in case["left"] if i == 0 else []:
            (where / name / left).write_text("left")


def operate(operation, name, where) -> sut.Outcome:
    from wiggle_shell.core import select_gdbms as api

    if operation == "prompt":
        with sut.typed_input([name]):
            return sut.call(api.create_new_dbms, where)
    return sut.call(api.delete_gdbms if operation == "delete" else api.get_new_gdbms_file_paths, name, where)


def counted(where, operation, name):
    faulty.arm(where, COUNT)
    outcome = operate(operation, name, where)
    faulty.disarm()
    if not outcome.ok:
        raise Violation(f"{operation} of {name!r} was refused with {outcome.why()}")
    return faulty.kinds()


def of(files: dict, name: str) -> dict:
    """The files of one DBMS."""
    return {k: v for k, v in files.items() if k == name or k.startswith(name + "/")}


def three(name: str) -> set:
    return {f"{name}/database_{name}.json", f"{name}/indexes_{name}.json", f"{name}/wiggle_number_{name}.txt"}


def selected(where, name, what):
    """The paths of the DBMS when it is chosen from the list, or None."""
    from wiggle_shell.core.select_gdbms import get_existing_gdbms, list_existing_dbms

    listed = sut.must(what, list_existing_dbms, path_to_dbms_dir=where)
    if name not in listed:
        return None
    with sut.typed_input(["ABCDEFGH"[listed.index(name)]]):
        outcome = sut.call(get_existing_gdbms, where)
    if not outcome.ok and not isinstance(outcome.error, sut.NoMoreInput):
        raise Violation(f"{what} choosing {name!r} raised {outcome.why()}")
    return outcome.value if outcome.ok else None


def judge(where, base, operation, name, done, what) -> dict:
    """What was left: the other DBMSs, and all or nothing usable of this one."""
    now = sut.files_of(where)
    for path in sorted(base.keys() | now.keys()):
        if not of({path: 0}, name) and base.get(path) != now.get(path):
            raise Violation(f"{what} {path} of another DBMS went from {base.get(path)!r} to {now.get(path)!r}")
    gdbms = selected(where, name, what)
    if operation == "delete":
        if done and of(now, name):
            raise Violation(f"{what} the deletion returned and left {of(now, name)}")
        if gdbms and any(now.get(path) != base.get(path) for path in three(name)):
            raise Violation(f"{what} {name!r} can be chosen and holds {of(now, name)}, before it was deleted {of(base, name)}")
    else:
        if done and not gdbms:
            raise Violation(f"{what} the creation returned, {name!r} can not be chosen: {of(now, name)}")
        if gdbms:
            state = sut.read_state(gdbms, what)
            if state.database != {} or state.indexes != EMPTY or state.counter != 0:
                raise Violation(f"{what} {name!r} can be chosen and holds {of(now, name)}")
    return now


def use(gdbms, text, what):
    outcome = sut.query(text, gdbms)
    if not outcome.ok:
        raise Violation(f"{what} {text!r} was refused with {outcome.why()}")
    sut.read_state(gdbms, what)


def go_on(where, now, operation, name, then, text, what):
    """The name is no lost one: it can be created, deleted and created again."""
    gdbms = selected(where, name, what)
    if gdbms:
        use(gdbms, text, what)
        now = sut.files_of(where)
    elif then == "create":
        again = operate("create", name, where)
        after = sut.files_of(where)
        if again.ok:
            judge(where, now, "create", name, True, f"{what} then creating it:")
            use(again.value, text, f"{what} then creating it:")
            now = after
        elif operation != "delete":
            raise Violation(f"{what} creating {name!r} again was refused with {again.why()}, it holds {of(now, name)} and can not be chosen")
        elif after != now:
            raise Violation(f"{what} creating {name!r} was refused with {again.why()} and changed its files from {of(now, name)} to {of(after, name)}")
    if (where / name).is_dir():
        gone = operate("delete", name, where)
        if not gone.ok:
            raise Violation(f"{what} deleting {name!r} was refused with {gone.why()}")
        now = judge(where, now, "delete", name, True, f"{what} then deleting it:")
    again = operate("create", name, where)
    if not again.ok:
        raise Violation(f"{what} creating {name!r} when it is gone was refused with {again.why()}")
    judge(where, now, "create", name, True, f"{what} then creating it when it is gone:")
    use(again.value, text, what)


def run_with_fault(where, base, operation, name, mode, at, error, part, what):
    """In a child that survives the fault."""
    faulty.arm(where, mode, at, error, part)
    try:
        done = operate(operation, name, where).ok
    except KeyboardInterrupt:
        done = False
    finally:
        faulty.disarm()
    judge(where, base, operation, name, done, what)
    return done


def fault(where, base, operation, name, mode, at, error, part, what):
    """Whether the operation returned all the same."""
    status, done = forked(run_with_fault, where, base, operation, name, mode, at, error, part, what)
    if mode == CRASH and status == CRASHED:
        forked(judge, where, base, operation, name, False, what)
    elif status != 0:
        raise Violation(f"{what} the process ended with status {status}")
    return done


def tried_again(where, base, operation, name, mode, at, error, what):
    """The operation with a fault on what an earlier fault left."""
    faulty.arm(where, mode, at, error, -1)
    try:
        operate(operation, name, where)
    except KeyboardInterrupt:
        pass
    finally:
        faulty.disarm()


def check_case(case, scratch):
    operation, name, then, text = case["operation"], case["names"][0], case["then"], case["next"]
    error = ERRORS[case["error"]]
    tried = {x.replace(" ", "_"): 0 for x in NAMES.values()}
    with sut.case_folder(scratch) as folder:
        where = folder / "dbms"
        where.mkdir()
        forked(lay_out, where, case)
        files, base = files_below(where), sut.files_of(where)
        _, calls = forked(counted, where, operation, name)
        forked_judge = f"{operation} of {name!r} beside {case['names'][1:]}:"
        restore(where, files)

        for mode, at, part in faulty.points(calls, [CRASH, *case["modes"]]):
            restore(where, files)
            how = f" after {part}/8 of it" if part > 0 else ""
            what = f"{NAMES[mode]} ({os.strerror(error)}) at call {at} of {calls}{how} of the {forked_judge}"
            fault(where, base, operation, name, mode, at, error, part, what)
            forked(go_on, where, sut.files_of(where), operation, name, then, text, what)
            tried[NAMES[mode].replace(" ", "_")] += 1

        for first, first_at, second, second_at in case["seconds"]:
            restore(where, files)
            first_at, second_at = first_at % len(calls) + 1, second_at % len(calls) + 1
            what = f"{NAMES[first]} ({os.strerror(error)}) at call {first_at} of {calls} of the {forked_judge}"
            fault(where, base, operation, name, first, first_at, error, -1, what)
            what = f"{what} and {NAMES[second]} at call {second_at} when it is tried again:"
            forked(tried_again, where, base, operation, name, second, second_at, error, what)
            forked(judge, where, base, operation, name, False, what)
            forked(go_on, where, sut.files_of(where), operation, name, then, text, what)
            tried["pairs"] = tried.get("pairs", 0) + 1
    return {"nontrivial": len(calls) >= 3 and len(case["names"]) > 1, "calls": len(calls), **tried}


def files_below(where) -> dict:
    return {str(p.relative_to(where)): None if p.is_dir() else p.read_bytes() for p in sorted(where.rglob("*"))}


def restore(where, files) -> None:
    import shutil

    shutil.rmtree(where)
    where.mkdir()
    for path, content in files.items():
        if content is None:
            (where / path).mkdir()
        else:
            (where / path).write_bytes(content)
