"""Sessions that work at the same moment on different databases, or only read, do not disturb each other."""
import json

from hypothesis import strategies as st

from pbt import faulty, gen, sut, turns
from pbt.faulty import forked
from pbt.violation import Violation

PROPERTY = "C30"
LEVEL = "exploration"
CASE_SECONDS = 250  # a case takes less than a second
EXAMPLES = {"quick": 1800, "thorough": 60000}
RULE = (
    "Two or three processes at the same moment, each with 1-3 operations: on a DBMS of its own (queries, wiping, loading, listing, "
    "deleting it and creating it anew) or only reading one that another process queries (FIND, loading the database or an "
    "index). A generated schedule decides before every call that opens or changes a file who goes on; some cases are run "
    "with every place in the first process at which the others run to their end. Each process "
    "is answered as it is alone, a reader as it is before or after one of the changes that ran meanwhile, and every DBMS ends "
    "as it does alone, apart from creation times. Non-trivial: a process was held up within an operation while another one went on."
)
ASSUMPTIONS = [
    "files are opened and changed through the libc calls that CPython makes",
    "the order between two calls that open or change files is all that one process can see of another",
    "two processes that change one database at the same moment are not claimed",
]

before = faulty.before
shard_init = faulty.shard_init

NAMES = ["a", "b", "ab", "A"]


def strategy(tier):
    makes = gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, max_makes=2)
    make = gen.weighted((6, gen.step_of(makes)), (1, gen.BIG_STEPS)).map(lambda s: {"do": "query", "text": gen.step_text(s)[0]})
    find = gen.step_of(gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, min_makes=0, max_makes=0, with_find=True)).map(lambda s: {"do": "query", "text": gen.step_text(s)[0]})
    mistaken = gen.step_of(makes, mistake=gen.MISTAKES).map(lambda s: {"do": "query", "text": gen.step_text(s)[0]})
    load = st.sampled_from([{"do": x} for x in ("database", "labels", "names", "relationships", "counter")])
    wipe = st.sampled_from([{"do": "wipe", "of": x} for x in ("database", "labels", "names", "relationships")])
    writes = gen.weighted((5, make), (1, find), (1, mistaken), (1, load), (1, st.just({"do": "list"})), (1, wipe))
    anew = st.sampled_from([{"do": "delete"}, {"do": "create"}])
    reads = gen.weighted((2, find), (3, load))

    with_reader = st.fixed_dictionaries(
        {
            "start": gen.STARTS,
            "base": st.lists(make, max_size=2),
            "work": st.tuples(
                st.lists(writes, min_size=1, max_size=3),
                st.lists(reads, min_size=1, max_size=4),
                st.lists(gen.weighted((2, writes), (1, anew)), max_size=2),
            ).map(list),
            "on": st.sampled_from([[0, 0], [0, 0, 1]]),
        }
    )

    own = st.fixed_dictionaries(
        {
            "start": gen.STARTS,
            "base": st.lists(make, max_size=2),
            "work": st.lists(st.lists(gen.weighted((2, writes), (1, anew)), min_size=1, max_size=3), min_size=2, max_size=3),
            "on": st.just([0, 1, 2]),
        }
    )
    # one that lists while others create and delete
    lister = st.fixed_dictionaries(
        {
            "start": st.just(0),
            "base": st.just([]),
            "work": st.tuples(
                st.lists(gen.weighted((6, st.just({"do": "list"})), (1, load)), min_size=1, max_size=3),
                st.lists(anew, min_size=1, max_size=3),
                st.lists(anew, max_size=3),
            ).map(list),
            "on": st.just([0, 1, 2]),
        }
    )
    # one that reads while an index or the database is wiped
    related = st.sampled_from(["MAKE (n:A)-[r:R]->(m:B);", 'MAKE (n:A {x: 1})<-[r:S]-(m:C);', "MAKE (n:B)-[r:R]->(m:B)-[s:T]->(k:A);"]).map(lambda t: {"do": "query", "text": t})
    wiped = st.fixed_dictionaries(
        {
            "start": gen.STARTS,
            "base": st.lists(related, min_size=1, max_size=2),
            "work": st.tuples(st.lists(wipe, min_size=1, max_size=2), st.lists(load, min_size=1, max_size=3)).map(list),
            "on": st.just([0, 0]),
            "sweep": st.just(True),
        }
    )
    # after so many steps the next one goes on
    lengths = st.lists(gen.weighted((2, st.integers(1, 4)), (3, st.integers(1, 40)), (1, st.just(200))), min_size=2, max_size=12)
    order = st.builds(lambda first, x: [[first + i, n] for i, n in enumerate(x)], st.integers(0, 2), lengths)
    return st.fixed_dictionaries(
        {
            "names": st.permutations(NAMES).map(lambda x: list(x)[:3]),
            "what": gen.weighted((6, own), (6, with_reader), (2, lister), (1, wiped)),
            "order": gen.weighted((12, order), (1, st.just("sweep"))),
        }
    )


def paths_of(where, name):
    from models.wigish import GDBMSFilePath

    folder = where / name
    return GDBMSFilePath(
        database_file_path=folder / f"database_{name}.json",
        indexes_file_path=folder / f"indexes_{name}.json",
        wiggle_number_file_path=folder / f"wiggle_number_{name}.txt",
    )


def operation(op: dict, where, name):
    """A function that does it; its result is what a user sees of it."""

    def plain(value):
        if isinstance(value, set):
            return sorted(value)
        if isinstance(value, dict):
            return {str(k): plain(v) for k, v in value.items()}
        return value

    def run():
        from wiggle_query_language.graph.database import database
        from wiggle_query_language.graph.database.indexes import node_labels_index, node_relationships_index, relationship_names_index
        from wiggle_query_language.graph.state import wiggle_number
        from wiggle_shell.core import select_gdbms as api

        gdbms = paths_of(where, name)
        do = op["do"]
        if do == "query":
            outcome = sut.query(op["text"], gdbms)
            return [outcome.ok, "no results" in outcome.out.lower()]
        if do == "wipe":
            wipe, path = {
                "database": (database.wipe_database, gdbms.database_file_path),
                "labels": (node_labels_index.wipe_node_labels_index, gdbms.indexes_file_path),
                "names": (relationship_names_index.wipe_relationship_names_index, gdbms.indexes_file_path),
                "relationships": (node_relationships_index.wipe_node_relationships_index, gdbms.indexes_file_path),
            }[op["of"]]
            return [sut.call(wipe, path, True).ok]
        outcome = {
            "database": lambda: sut.call(database.load_database, gdbms.database_file_path),
            "labels": lambda: sut.call(node_labels_index.load_node_labels_index, gdbms.indexes_file_path),
            "names": lambda: sut.call(relationship_names_index.load_relationship_names_index, gdbms.indexes_file_path),
            "relationships": lambda: sut.call(node_relationships_index.load_node_relationships_index, gdbms.indexes_file_path),
            "counter": lambda: sut.call(wiggle_number.get_current_wiggle_number, gdbms.wiggle_number_file_path),
            "list": lambda: sut.call(api.list_existing_dbms, path_to_dbms_dir=where),
            "delete": lambda: sut.call(api.delete_gdbms, name, where),
            "create": lambda: sut.call(api.get_new_gdbms_file_paths, name, where),
        }[do]()
        if do in ("delete", "create") or not outcome.ok:
            return [outcome.ok]
        if do == "database":
            return [True, sut.sans_times(json.loads(json.dumps(outcome.value)))]
        return [True, plain(outcome.value)]

    return run


def lay_out(where, names, case):
    for name in names:
        gdbms = sut.new_dbms(where, name)
        sut.set_counter(gdbms, case["start"])
        for op in case["base"]:
            sut.must_query(op["text"], gdbms)


def state_of(where, name):
    """The files of a DBMS, None if there is none."""
    if not (where / name).exists():
        return None
    return json.loads(json.dumps(_plain(sut.read_state(paths_of(where, name), f"{name!r}:"))))


def _plain(state):
    indexes = {k: {x: sorted(set(y)) for x, y in v.items()} if isinstance(v, dict) else sorted(set(v)) for k, v in state.indexes.items()}
    return [sut.sans_times(state.database), indexes, state.counter]


def alone(where, names, case, own: list, reads: list):
    """What the operations of one process answer, what the DBMS is in the end, and what each read answers before and after each."""
    name = names[0]
    lay_out(where, names, case)
    answers = []
    seen = [[operation(r, where, name)() for r in reads]]
    for op in own:
        answers.append(operation(op, where, name)())
        seen.append([operation(r, where, name)() for r in reads])
    return [answers, state_of(where, name), seen]


def check_case(case, scratch):
    names, what = case["names"], case["what"]
    on = what["on"][: len(what["work"])]
    work = what["work"][: len(on)]
    on = on[: len(work)]
    used = [names[i] for i in sorted(set(on))]
    writers = {name: on.index(i) for i, name in enumerate(names) if i in on}
    readers = [n for n, i in enumerate(on) if on.index(i) != n]
    with sut.case_folder(scratch) as folder:
        expected = {}
        for name, writer in writers.items():
            (folder / f"alone{writer}").mkdir()
            reads = [op for r in readers if names[on[r]] == name for op in work[r]]
            _, expected[name] = forked(alone, folder / f"alone{writer}", [name], what, work[writer], reads)

        def one(order):
            where = folder / "dbms"
            where.mkdir()
            forked(lay_out, where, used, what)
            story = f"{[[names[i], [o.get('text', o['do'] + o.get('of', '')) for o in w]] for i, w in zip(on, work)]} in the order {order}"
            operations = [[operation(op, where, names[i]) for op in w] for i, w in zip(on, work)]
            results, windows, steps, held_up = turns.run(where, folder, operations, order)
            judge(where, results, windows, story)
            sut.shutil.rmtree(where)
            return steps, held_up

        def judge(where, results, windows, story):
            stable = {n for n in used if not any(o["do"] in ("delete", "create") for w, i in zip(work, on) if names[i] == n for o in w)}
            for name, writer in writers.items():
                answers, state, seen = expected[name]
                for op, found, alone_found in zip(work[writer], results[writer], answers):
                    if op["do"] == "list":
                        if not found[0] or not stable <= set(found[1]) <= set(used) or found[1] != sorted(found[1]):
                            raise Violation(f"{story}: the DBMSs listed are {found}, {sorted(stable)} are there all the time")
                    elif found != alone_found:
                        raise Violation(f"{story}: {op} on {name!r} was answered {found}, alone {alone_found}")
                now = state_of(where, name)
                if now != state:
                    raise Violation(f"{story}: {name!r} is\n{now}, alone\n{state}")
                at = 0
                for reader in (r for r in readers if names[on[r]] == name):
                    for n, found in enumerate(results[reader]):
                        lower, upper = windows[reader][n][0][writer], windows[reader][n][1][writer] + 1
                        possible = [seen[k][at] for k in range(lower, min(upper, len(seen) - 1) + 1)]
                        if found not in possible:
                            raise Violation(f"{story}: {work[reader][n]} on {name!r} was answered {found}, alone it is {possible}")
                        at += 1
            left = {p.name for p in where.iterdir()}
            if left != {n for n in used if expected[n][1] is not None}:
                raise Violation(f"{story}: {sorted(left)} are left in the DBMS folder")

        sweep = what.get("sweep") or case["order"] == "sweep"
        steps, held_up = one([] if sweep else case["order"])
        schedules = 1
        for at in range(1, steps[0], 1 + steps[0] // 40) if sweep else []:
            held_up += one([[0, at], [1, 10**6], [2, 10**6]])[1]
            schedules += 1
    changing = any(op["do"] in ("query", "wipe", "delete", "create") for w in work for op in w)
    return {
        "nontrivial": changing and held_up > 0,
        "held_up": held_up,
        "schedules": schedules,
        "steps": sum(steps),
        "readers": len(readers),
        "three": len(work) == 3,
    }
