"""What a session of the shell accepted stays, however the session ends."""
import hashlib
import os
import shutil

from hypothesis import strategies as st

from checks import c23
from pbt import dictionary, gen, program, sut
from pbt.sessions import ENVIRONMENTS
from pbt.violation import Violation

PROPERTY = "C29"
LEVEL = "exploration"
EXAMPLES = {"quick": 800, "thorough": 16000}
RULE = (
    "up to 4 sessions of the program itself, each a process in one of three environments and four working folders, one after "
    "the other or two at a time in turns, on new and existing DBMSs of one installation, with up to 12 lines as in C23; each is ended "
    "at its prompt by q, the end of its input, SIGINT, SIGTERM, SIGHUP or SIGKILL. After every line and every end each DBMS is, "
    "apart from creation times, what the same lines leave when run directly, and nothing but the DBMS folder and the log changed. "
    "Non-trivial: an accepted MAKE in a session that did not end with q, and a later session."
)
ASSUMPTIONS = [
    "the program runs from the folder it is in, with its root on PYTHONPATH",
    "input() stands for the keyboard: a line is dealt with when the next one is asked for",
    "ends at the prompt; ends in the middle of a query are C13's",
]


def strategy(tier):
    _, line = c23.lines()
    which = gen.weighted((3, st.just(0)), (1, st.just(1)))
    op = gen.weighted(
        (6, st.fixed_dictionaries({"slot": which, "line": line})),
        (2, st.fixed_dictionaries({"slot": which, "end": st.sampled_from(program.ENDS)})),
    )
    start = st.fixed_dictionaries(
        {
            "existing": gen.weighted((3, st.just(True)), (1, st.just(False))),
            "word": st.sampled_from(["y", "yes", "n", "", "x"]),
            "which": st.integers(0, 5),
            "wrong": st.lists(st.sampled_from(["a", "", "ZZ", "0"]), max_size=1),
            "environment": st.integers(0, len(ENVIRONMENTS) - 1),
            "away": st.integers(0, 3),
            "end": st.sampled_from(program.ENDS),
        }
    )
    return st.fixed_dictionaries({"starts": st.lists(start, min_size=4, max_size=4), "ops": gen.hinted(st.lists(op, min_size=3, max_size=16), gen.repeated(st.lists(op, min_size=1, max_size=3), dictionary.sizes(40, 2)), usually=40)})


def typed(line: dict) -> str:
    # what a terminal in UTF-8 can send
    return c23.line_text(line).encode("utf-8", "replace").decode("utf-8")


_tree = {}


def tree_files(tree) -> str:
    digest = hashlib.sha256()
    for name, content in sorted(sut.files_of(tree).items()):
        if name == "dbms" or name.startswith("dbms" + os.sep) or name.endswith(".log"):
            continue
        digest.update(repr((name, content)).encode())
    return digest.hexdigest()


def shard_init(scratch):
    sut.preload()
    program.copy_tree(scratch / "tree")
    _tree["files"] = tree_files(scratch / "tree")


class Run:
    def __init__(self, case, scratch, folder) -> None:
        self.case, self.tree, self.folder = case, scratch / "tree", folder
        self.work = scratch / "work"
        self.open: dict = {}
        self.direct: dict = {}
        self.started = 0
        self.story: list = []
        self.made: dict = {}
        self.tags = {"nontrivial": 0, "sessions": 0, "accepted": 0, "rejected": 0, "two_at_a_time": 0, "killed": 0}
        self.unclean = 0

    def dbms(self, name: str):
        from models.wigish import GDBMSFilePath

        folder = self.tree / "dbms" / name
        return GDBMSFilePath(
            database_file_path=folder / f"database_{name}.json",
            indexes_file_path=folder / f"indexes_{name}.json",
            wiggle_number_file_path=folder / f"wiggle_number_{name}.txt",
        )

    def compare(self, names) -> None:
        what = f"after {self.story!r}"
        for name in names:
            expected = c23.plain(sut.read_state(self.direct[name]))
            found = c23.plain(sut.read_state(self.dbms(name), f"{what}, {name!r}:"))
            if expected != found:
                raise Violation(f"{what} the DBMS {name!r} is\n{found}, its lines run directly leave\n{expected}")
        there = sorted(os.listdir(self.tree / "dbms")) if (self.tree / "dbms").is_dir() else []
        if there != sorted(self.direct):
            raise Violation(f"{what} the DBMSs are {there}, not {sorted(self.direct)}")

    def line(self, running, text: str) -> None:
        try:
            running.line(text)
        except program.ProgramEnded as error:
            raise Violation(f"after {self.story!r} the shell did not go on: {error}")

    def start(self, slot: int) -> bool:
        if self.started == len(self.case["starts"]):
            return False
        start = self.case["starts"][self.started]
        self.started += 1
        alive = sorted(self.direct)
        # a C locale has no other file names
        lines, name, is_new = c23.session_lines(start, alive)
        lines = [x.replace("é", "e") for x in lines]
        name = name.replace("é", "e")
        self.story.append(f"session {self.started} in {start['environment']}, {start['away']}: {lines}")
        work = self.work / str(self.started)
        try:
            running = program.Program(self.tree, work, start["environment"], start["away"])
        except program.ProgramEnded as error:
            raise Violation(f"{self.story!r}: the shell did not start: {error}")
        self.open[slot] = (running, name, start, work)
        if is_new:
            self.direct[name] = sut.new_dbms(self.folder, name)
        for line in lines:
            self.line(running, line)
        self.tags["sessions"] += 1
        self.tags["two_at_a_time"] += len(self.open) > 1
        self.tags["nontrivial"] += self.unclean > 0
        self.compare(sorted(self.direct))
        return True

    def end(self, slot: int, how: str) -> None:
        running, name, _, work = self.open.pop(slot)
        self.story.append(f"{name}: {how}")
        status = running.end(how)
        if how == "q" and status != 0:
            raise Violation(f"{self.story!r}: the shell ended with status {status}")
        if how != "q":
            self.unclean += self.made.pop(slot, 0)
            self.tags["killed"] += 1
        self.made.pop(slot, None)
        for name in ("home", "here"):
            files = {k for k, v in sut.files_of(work / name).items() if v != "folder"}
            if files != set(program.BELONGINGS) or any((work / name / x).read_text() != "{}" for x in program.BELONGINGS):
                raise Violation(f"{self.story!r}: the shell left {sorted(files)} in a folder of its user")
        self.compare(sorted(self.direct))

    def run(self) -> None:
        for op in self.case["ops"]:
            slot = op["slot"]
            if "end" in op:
                if slot in self.open:
                    self.end(slot, op["end"])
                continue
            if slot not in self.open and not self.start(slot):
                continue
            running, name, _, _ = self.open[slot]
            text = typed(op["line"])
            self.story.append(f"{name}: {text}")
            if text.strip().lower() != "help":
                outcome = sut.query(text, self.direct[name])
                self.tags["accepted" if outcome.ok else "rejected"] += 1
                if outcome.ok and "make" in text.lower():
                    self.made[slot] = self.made.get(slot, 0) + 1
            self.line(running, text)
            self.compare([name])
        for slot in list(self.open):
            self.end(slot, self.open[slot][2]["end"])
        if tree_files(self.tree) != _tree["files"]:
            raise Violation(f"{self.story!r}: files of the program itself changed")


def check_case(case, scratch):
    shutil.rmtree(scratch / "tree" / "dbms", ignore_errors=True)
    shutil.rmtree(scratch / "work", ignore_errors=True)
    with sut.case_folder(scratch) as folder:
        run = Run(case, scratch, folder)
        try:
            run.run()
        finally:
            for running, *_ in run.open.values():
                running.close()
    return run.tags
