"""Databases are isolated from each other."""
from pathlib import Path

from hypothesis import strategies as st

from pbt import dictionary, gen, model, oracles, sut, zygote
from pbt.violation import Violation

PROPERTY = "C14"
LEVEL = "exploration"
EXAMPLES = {"quick": 1500, "thorough": 40000}
RULE = (
    "Interleavings of 3-9 queries (MAKE, FIND, REPORT, valid and with mistakes) over 2-3 databases, some with the same name in "
    "two DBMS folders, run in one new process. After each query the files of all other databases are byte for byte as before; "
    "in the end each database is, apart from creation times, as if its queries alone were run in a process of their own, "
    "and each query was answered (accepted or not, no results or some) as there. "
    "Non-trivial: at least two databases were written to, with a change between them at least twice."
)
ASSUMPTIONS = ["the order of the entries of an index does not matter"]


def strategy(tier):
    # labels of one length, so that files with others in them are of one size
    alike = gen.patterns(labels=st.sampled_from("ABCD"), names=st.sampled_from("RS"), props=st.just(None), handles=st.just(""))
    makes, finds = gen.makes(alike, max_patterns=1), gen.finds(alike)
    small = gen.step_of(gen.weighted((1, st.lists(makes, min_size=1, max_size=1)), (1, st.lists(finds, min_size=1, max_size=1))), layout=st.just([""]))
    step = gen.weighted((4, gen.STEPS), (4, small), (1, gen.RICH_STEPS), (1, gen.step_of(gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, min_makes=0, max_makes=0, with_find=True))))
    one = gen.weighted(
        (8, st.tuples(st.integers(0, 2), step).map(list)),
        # the same is made and looked for in two databases, with other labels
        (1, st.tuples(st.integers(0, 2), st.integers(1, 2), makes, st.integers(1, 3)).map(list)),
    )
    return st.fixed_dictionaries(
        {
            "databases": st.sampled_from([["x/a", "x/b"], ["x/a", "y/a"], ["x/a", "x/ab", "y/a"], ["x/a", "x/A", "x/a.json"]]),
            "starts": st.lists(gen.STARTS, min_size=3, max_size=3),
            "steps": gen.hinted(st.lists(one, min_size=3, max_size=9), gen.repeated(st.lists(one, min_size=2, max_size=3), dictionary.sizes(30, 3)), usually=40),
        }
    )


def shard_init(scratch):
    sut.preload()
    zygote.start()


def plain(state: sut.State) -> list:
    indexes = {k: {x: sorted(set(y)) for x, y in v.items()} if isinstance(v, dict) else sorted(set(v)) for k, v in state.indexes.items()}
    return [sut.sans_times(state.database), indexes, state.counter]


@zygote.register
def run(folder, databases, starts, queries):
    """Runs the (number of database, text) pairs; gives the database texts and what was written to."""
    folder = Path(folder)
    all_paths = []
    for database, start in zip(databases, starts):
        parent, name = database.split("/")
        gdbms = sut.new_dbms(folder / parent, name)
        sut.set_counter(gdbms, start)
        all_paths.append(gdbms)
    files = [sut.files_of(folder / d) for d in databases]
    written = []
    accepted = []
    for number, text in queries:
        outcome = sut.query(text, all_paths[number])
        # what it answers: accepted or not, results or not
        accepted.append([outcome.ok, "no results" in outcome.out.lower()])
        now = [sut.files_of(folder / d) for d in databases]
        for other, database in enumerate(databases):
            if other != number and now[other] != files[other]:
                raise Violation(
                    f"{text!r} sent to {databases[number]!r} changed the files of {database!r} from {files[other]} to {now[other]}"
                )
        if now[number] != files[number]:
            written.append(number)
        files = now
        if sorted(set(x.split("/")[0] for x in databases)) != sorted(p.name for p in folder.iterdir()):
            raise Violation(f"{text!r} left {sorted(p.name for p in folder.iterdir())}")
    return [[plain(sut.read_state(g, "in the end")) for g in all_paths], written, accepted]


def check_case(case, scratch):
    databases = case["databases"]
    queries = []
    for number, step, *twice in case["steps"]:
        if not twice:
            text, _ = gen.step_text(step)
            queries.append([number % len(databases), text])
            continue
        made, shift = twice
        for at in (number, number + step):
            queries += [[at % len(databases), model.render([{**made, "t": t, "kw": t}], [" "])] for t in ("make", "find")]
            pattern = made["pats"][0]
            nodes = [{**n, "l": "ABCD"[("ABCD".index(n["l"]) + shift) % 4]} for n in pattern["nodes"]]
            made = {**made, "pats": [{**pattern, "nodes": nodes}]}
    with sut.case_folder(scratch) as folder:
        together, written, accepted = zygote.run(run, str(folder / "together"), databases, case["starts"], queries)
        used = sorted({n for n, _ in queries})
        for number in used:
            own = [[0, text] for n, text in queries if n == number]
            alone, _, own_accepted = zygote.run(
                run, str(folder / f"alone{number}"), [databases[number]], [case["starts"][number]], own
            )
            if alone[0] != together[number] or own_accepted != [a for a, (n, _) in zip(accepted, queries) if n == number]:
                raise Violation(
                    f"{databases[number]!r} is\n{together[number]}\nwith its queries alone it is\n{alone[0]}\nafter {queries!r}, "
                    f"answered {accepted}, alone {own_accepted}"
                )
    changes = sum(a != b for a, b in zip(written, written[1:]))
    return {
        "nontrivial": len(set(written)) > 1 and changes > 1,
        "queries": len(queries),
        "changes_of_database": changes,
        "same_name_in_two_folders": len({d.split("/")[1] for d in databases}) < len(databases),
    }
