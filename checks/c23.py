"""A shell session applies exactly the queries typed, and survives errors."""
import shutil

from hypothesis import strategies as st

from pbt import dictionary, gen, model, sut
from pbt.violation import Violation

PROPERTY = "C23"
LEVEL = "exploration"
EXAMPLES = {"quick": 2400, "thorough": 40000}
RULE = (
    "1-3 sessions of the shell on one DBMS folder, each choosing a new DBMS (perhaps after names that are taken) or an existing "
    "one (perhaps after letters that are not offered), then 0-7 lines, now and then those many times: valid queries, queries with mistakes or edits, empty "
    "lines, nearly q, help, other text, and q, after which more lines wait. Every DBMS ends, apart from creation times, as if "
    "the lines up to q were run directly; a rejected line prints what a direct call raises; no line after q is read. "
    "Non-trivial: a session with an accepted MAKE after a rejected line."
)
ASSUMPTIONS = ["a line that is nothing but the word help asks for help", "input() stands for the keyboard"]

NAMES = ["graph", "a", "b c", "café", "1", "y"]


def lines():
    """A line that is a query, and any line that is typed."""
    query = gen.step_of(gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, max_makes=2), layout=st.sampled_from([[""], [" "], ["", "  "], ["\t", ""]]))
    mistaken = gen.step_of(
        gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, max_makes=2), layout=st.sampled_from([[""], [" "]]), mistake=gen.MISTAKES
    )
    edited = st.builds(lambda s, e: {**s, "edits": e}, query, gen.EDITS)
    other = st.builds(
        lambda t: {"text": t},
        gen.weighted((2, gen.OTHER_TEXT.filter(lambda x: x != "q")), (1, st.sampled_from(["Q", " q", "q ", "q;", "quit", "exit", "help", "HELP", " help ", "helpq", "", "y", "n", "MAKE (:q);", "FIND (q:q);REPORT q;"]))),
    )
    return query, gen.weighted((4, query), (2, mistaken), (1, edited), (2, other))


def strategy(tier):
    query, line = lines()
    session = st.fixed_dictionaries(
        {
            "existing": st.booleans(),
            "word": st.sampled_from(["y", "yes", "n", "no", "", "Y", "x"]),
            "which": st.integers(0, 5),
            "wrong": st.lists(st.sampled_from(["a", "", "ZZ", "0", "!", "Z"]), max_size=2),
            "lines": st.lists(line, max_size=7),
            # now and then a long session
            "times": gen.hinted(gen.weighted((40, st.just(1)), (1, st.integers(8, 20))), dictionary.sizes(60, 2), usually=40),
            "after": st.lists(query, max_size=1),
        }
    )
    return st.fixed_dictionaries({"sessions": st.lists(session, min_size=1, max_size=3)})


def line_text(line: dict) -> str:
    text = line["text"] if "text" in line else gen.step_text(line)[0]
    # one line of input
    text = "".join(" " if c in "\r\n" else c for c in text)
    return text if text != "q" else "q;"


def shell_folder():
    from wiggle_shell import DBMS_FOLDER

    return DBMS_FOLDER


def shard_init(scratch):
    import wiggleshell  # noqa: F401

    sut.preload()


def plain(state: sut.State) -> list:
    indexes = {k: {x: sorted(set(y)) for x, y in v.items()} if isinstance(v, dict) else sorted(set(v)) for k, v in state.indexes.items()}
    return [sut.sans_times(state.database), indexes, state.counter]


def session_lines(session: dict, alive: list):
    """What is typed first, the name of the DBMS it selects, whether that is a new one."""
    taken = list(alive)
    fresh = [n for n in NAMES if n not in taken][0] if len(taken) < len(NAMES) else "more"
    yes = session["word"] if session["word"] in ("y", "yes") else "y"
    no = session["word"] if session["word"] not in ("y", "yes") else "n"
    if not session["existing"]:
        again = taken[: len(session["wrong"])]
        return [no] + again + [fresh], fresh, True
    if not taken:
        return [yes, fresh], fresh, True
    index = session["which"] % len(taken)
    return [yes] + session["wrong"] + ["ABCDEFGHIJ"[index]], sorted(taken)[index], False


def check_case(case, scratch):
    from wiggleshell import start_wiggle_shell

    from models.wigish import GDBMSFilePath

    dbms_folder = shell_folder()
    assert str(dbms_folder).startswith(str(scratch)), dbms_folder
    shutil.rmtree(dbms_folder, ignore_errors=True)
    dbms_folder.mkdir()
    direct: dict = {}
    recovered = rejected = accepted = helped = 0
    with sut.case_folder(scratch) as folder:
        for session in case["sessions"]:
            typed, name, is_new = session_lines(session, sorted(direct))
            lines = [line_text(x) for x in session["lines"]] * session["times"]
            waiting = [line_text(x) for x in session["after"]]
            what = f"a session of {typed + lines + ['q']!r}"
            if is_new:
                direct[name] = sut.new_dbms(folder, name)
            errors = []
            was_rejected = False
            for line in lines:
                if line.strip().lower() == "help":
                    helped += 1
                    continue
                outcome = sut.query(line, direct[name])
                if outcome.ok:
                    accepted += 1
                    recovered += was_rejected and "make" in line.lower()
                else:
                    rejected += 1
                    was_rejected = True
                    errors.append(str(outcome.error))
            with sut.typed_input(typed + lines + ["q"] + waiting) as left:
                outcome = sut.call(start_wiggle_shell)
            if not outcome.ok:
                raise Violation(f"{what} ended with {outcome.why()}")
            if left != waiting:
                raise Violation(f"{what} left {left!r} unread, {waiting!r} was typed after q")
            at = 0
            for error in errors:
                found = outcome.out.find(error, at)
                if error.strip() and found < 0:
                    raise Violation(f"{what} did not print the error {error!r}")
                at = max(at, found + len(error))
            for other, gdbms in direct.items():
                paths = GDBMSFilePath(
                    database_file_path=dbms_folder / other / f"database_{other}.json",
                    indexes_file_path=dbms_folder / other / f"indexes_{other}.json",
                    wiggle_number_file_path=dbms_folder / other / f"wiggle_number_{other}.txt",
                )
                expected, found = plain(sut.read_state(gdbms)), plain(sut.read_state(paths, f"after {what}, {other!r}:"))
                if expected != found:
                    raise Violation(f"after {what} the DBMS {other!r} is\n{found}, its lines run directly leave\n{expected}")
            if sorted(p.name for p in dbms_folder.iterdir()) != sorted(direct):
                raise Violation(f"after {what} the DBMSs are {sorted(p.name for p in dbms_folder.iterdir())}, not {sorted(direct)}")
    return {
        "nontrivial": recovered,
        "sessions": len(case["sessions"]),
        "accepted": accepted,
        "rejected": rejected,
        "help": helped,
        "existing_chosen": sum(s["existing"] for s in case["sessions"][1:]),
    }
