"""Creating and deleting a DBMS affects only that DBMS."""
from string import ascii_uppercase

from hypothesis import strategies as st

from pbt import dictionary, gen, model, sut
from pbt.violation import Violation

PROPERTY = "C12"
LEVEL = "exploration"
EXAMPLES = {"quick": 8000, "thorough": 60000}
RULE = (
    "Histories of 2-20 operations (create, create at the prompt, delete, delete and create again, list, list without some, select "
    "by letter, run a MAKE query or a FIND, leave another file in a DBMS's folder), now and then beside up to 40 others, over 2-6 "
    "names that share parts, hold glob characters, spaces, dots, quotes, line breaks or any script. After each the listing is "
    "what a model says, every other DBMS has the same files, a new one is empty with counter 0, FIND finds the labels stored since "
    "the DBMS was created and no others, a refused creation leaves the files as they were and a deleted one is gone. Non-trivial: at least one deletion while another DBMS that was queried exists."
)
ASSUMPTIONS = ["alphabetical order is that of code points", "names are plain folder names of at most 200 bytes (others: C13)"]

NAMES = [
    "a", "b", "ab", "abc", "A", "a.b", ".a", "a b", " a", "a ", "*", "a*", "?", "[a]", "[ab]", "a[bc]", "[!a]", "**", "{a,b}", "~", "-a", "-rf", "$HOME",
    "a;b", "a'b", 'a"b', "a\\b", "a\nb", "\t", "tests", "__pycache__", "tests2", "tests_a", "test", "__pycache__a", "database_a.json", "database_a", "indexes_a.json", "wiggle_number_a.txt", "...", "..a",
    "é", "e\u0301", "名前", "ß", "SS", "%s", "{}", "{0}", "a%20b", "null", "None", "0", "00", "1", "10", "2", "y", "yes", "q", ".write.tmp", ".tmp", "a.json",
    "CON", "nul", "a:", "C:", "\u200b", "\u202e", "😀", "x" * 60, "x" * 61, "é" * 60, "a" * 33, "b" * 70, "a" * 101, "x" * 130, "m" * 200, "é" * 99,
]


def strategy(tier):
    names = gen.weighted((6, st.sampled_from(NAMES)), (1, gen.text("ab*?[].-_ '\"\\\n~$é", min_size=1, max_size=6)))
    names = gen.hinted(names, [x for x in gen.HINTED_NAMES if len(x.encode()) <= 200 and not set("/\0") & set(x)])
    names = names.filter(lambda x: x not in (".", ".."))
    which = gen.weighted((3, st.integers(0, 2)), (1, st.integers(0, 5)))
    operation = gen.weighted(
        (4, st.tuples(st.just("create"), which).map(list)),
        (1, st.tuples(st.just("prompt"), which, which, which).map(list)),
        (3, st.tuples(st.just("delete"), which).map(list)),
        (3, st.tuples(st.just("query"), which, st.integers(0, 3)).map(list)),
        (2, st.tuples(st.just("find"), which, st.sampled_from("ABCD")).map(list)),
        (1, st.tuples(st.just("again"), which, st.integers(0, 3), st.booleans()).map(list)),
        (1, st.tuples(st.just("stray"), which, st.sampled_from(STRAYS)).map(list)),
        (1, st.tuples(st.just("list"), st.lists(which, max_size=3)).map(list)),
        (1, st.tuples(st.just("select"), which, st.sampled_from(["", "a", "AA", "1", "Z", "!"])).map(list)),
    )
    return st.fixed_dictionaries(
        {
            "names": gen.weighted((2, st.lists(names, min_size=2, max_size=3, unique=True)), (1, st.lists(names, min_size=2, max_size=6, unique=True))),
            # now and then there are many others
            "crowd": gen.hinted(gen.weighted((40, st.just(0)), (1, st.integers(7, 40))), dictionary.sizes(80, 1), usually=20),
            "ops": gen.weighted((1, st.lists(operation, min_size=2, max_size=8)), (2, st.lists(operation, min_size=8, max_size=20))),
        }
    )


# files a user, another program or an interrupted query leaves in the folder of a DBMS
STRAYS = ["notes.txt", ".hidden", ".write.tmp", "database_a.json", "database_.json", "*", "x.bak", "wiggle_number_0.txt", "a", "indexes_[a].json"]

QUERIES = ["MAKE (:A);", "MAKE (:A)-[:R]->(:B);", "MAKE (:C {x: 1})<-[:S]-(:A)-[]->(:B);", "MAKE (:D);"]
COUNTS = [1, 3, 5, 1]
LABELS = ["A", "AB", "ABC", "D"]


def check_case(case, scratch):
    from wiggle_shell.core.select_gdbms import (
        create_new_dbms,
        delete_gdbms,
        get_existing_gdbms,
        get_new_gdbms_file_paths,
        list_existing_dbms,
    )

    names = case["names"]
    alive: dict = {}  # name -> paths
    made: dict = {}  # name -> identifiers used
    labels: dict = {}  # name -> labels stored
    deletions = deletions_beside = refused = 0

    with sut.case_folder(scratch) as folder:
        where = folder / "dbms"

        def snapshot() -> dict:
            found: dict = {name: {} for name in alive}
            for path, content in sut.files_of(where).items():
                top, _, rest = path.partition("/")
                if rest:
                    found.setdefault(top, {})[rest] = content
            return found

        def check_new(name, gdbms, what):
            state = sut.read_state(gdbms, what)
            empty = {"node_relationships": {}, "node_labels": [], "relationship_names": []}
            if state.database != {} or state.indexes != empty or state.counter != 0:
                raise Violation(f"{what} the new DBMS holds {state}")
            parents = {p.parent.name for p in (gdbms.database_file_path, gdbms.indexes_file_path, gdbms.wiggle_number_file_path)}
            if parents != {name}:
                raise Violation(f"{what} its files are in {parents}")
            alive[name] = gdbms
            made[name] = 0
            labels[name] = set()

        def run_query(name, which, what):
            sut.must_query(QUERIES[which], alive[name])
            made[name] += COUNTS[which]
            labels[name] |= set(LABELS[which])
            state = sut.read_state(alive[name], what)
            if state.counter != made[name] or len(sut.all_identifiers(state.database)) != made[name]:
                raise Violation(f"{what} {name!r} holds {state}, {made[name]} identifiers were given out")

        def check_find(name, label, what):
            denied = "no results" in sut.must_query(f"FIND (:{label});", alive[name]).out.lower()
            if denied != (label not in labels[name]):
                raise Violation(f"{what} (:{label}) is{' not' * denied} found in {name!r}, which holds {sorted(labels[name])}")

        for i in range(case["crowd"]):
            name = f"crowd{i * 7 % 100}"
            if name not in alive:
                check_new(name, sut.must(f"creating {name!r}", get_new_gdbms_file_paths, name, where), f"creating {name!r}")
        before = snapshot() if where.exists() else {}
        for operation in case["ops"]:
            kind = operation[0]
            name = names[operation[1] % len(names)] if kind != "list" else None
            what = f"after {operation} of {names}, with {sorted(alive)}:"
            touched = {name}
            if kind == "create":
                outcome = sut.call(get_new_gdbms_file_paths, name, where)
                if name in alive:
                    refused += 1
                    touched = set()
                    if outcome.ok:
                        raise Violation(f"{what} creating {name!r} again was not refused")
                else:
                    if not outcome.ok:
                        raise Violation(f"{what} creating {name!r} was refused with {outcome.why()}")
                    check_new(name, outcome.value, what)
            elif kind == "prompt":
                typed = [names[i % len(names)] for i in operation[1:]]
                touched = set()
                with sut.typed_input(typed) as left:
                    outcome = sut.call(create_new_dbms, where)
                fresh = [x for x in typed if x not in alive]
                if fresh:
                    touched = {fresh[0]}
                    if not outcome.ok:
                        raise Violation(f"{what} at the prompt for {typed}: {outcome.why()}")
                    if len(typed) - len(left) != typed.index(fresh[0]) + 1:
                        raise Violation(f"{what} at the prompt for {typed}: {left} was left")
                    check_new(fresh[0], outcome.value, what)
                elif outcome.ok or not isinstance(outcome.error, sut.NoMoreInput):
                    raise Violation(f"{what} at the prompt for {typed}, all taken: {outcome}")
            elif kind == "delete":
                outcome = sut.call(delete_gdbms, name, where)
                if name in alive:
                    if not outcome.ok:
                        raise Violation(f"{what} deleting {name!r} was refused with {outcome.why()}")
                    del alive[name]
                    deletions += 1
                    deletions_beside += any(made[x] for x in alive)
                    if (where / name).exists():
                        raise Violation(f"{what} {name!r} is still there")
                else:
                    refused += 1
                    touched = set()
                    if outcome.ok:
                        raise Violation(f"{what} deleting {name!r}, which does not exist, was not refused")
            elif kind == "stray":
                if name in alive and not (where / name / operation[2]).exists():
                    (where / name / operation[2]).write_text("stray")
            elif kind == "list":
                touched = set()
                skips = {names[i % len(names)] for i in operation[1]}
                listed = sut.must(what, list_existing_dbms, skips, where)
                if listed != sorted(set(alive) - skips):
                    raise Violation(f"{what} the listing without {skips} is {listed}")
            elif kind == "query":
                if name not in alive:
                    # a query needs a DBMS
                    check_new(name, sut.must(what, get_new_gdbms_file_paths, name, where), what)
                if name in alive:
                    run_query(name, operation[2] % len(QUERIES), what)
            elif kind == "find":
                if name in alive:
                    check_find(name, operation[2], what)
            elif kind == "again":
                # deleted and created again, what was in it is not in it
                if name in alive:
                    for label in "ABCD":
                        check_find(name, label, what)
                    sut.must(what, delete_gdbms, name, where)
                    del alive[name]
                    deletions += 1
                    deletions_beside += any(made[x] for x in alive)
                    check_new(name, sut.must(what, get_new_gdbms_file_paths, name, where), what)
                    for label in "ABCD" if operation[3] else "":
                        check_find(name, label, what)
                    run_query(name, operation[2] % len(QUERIES), what)
                    for label in "ABCD":
                        check_find(name, label, what)
            else:
                offered = [x for x in sorted(alive) if x not in ("tests", "__pycache__")][:26]
                if offered:
                    touched = set()
                    index = operation[1] * 5 % len(offered)
                    typed = [x for x in [operation[2]] if not (len(x) == 1 and "A" <= x <= "Z")] + [ascii_uppercase[index]]
                    with sut.typed_input(typed):
                        outcome = sut.call(get_existing_gdbms, where)
                    if not outcome.ok or outcome.value != alive[offered[index]]:
                        raise Violation(f"{what} typing {typed} with {offered} selected {outcome}, not {alive[offered[index]]}")

            listed = sut.must(what, list_existing_dbms, path_to_dbms_dir=where)
            if listed != sorted(alive):
                raise Violation(f"{what} the listing is {listed}, it should be {sorted(alive)}")
            now = snapshot()
            for other in set(before) | set(now):
                if other not in touched and before.get(other) != now.get(other):
                    raise Violation(f"{what} the files of {other!r} went from {before.get(other)} to {now.get(other)}")
            before = now
    return {"nontrivial": deletions_beside, "deletions": deletions, "refused": refused, "operations": len(case["ops"])}
