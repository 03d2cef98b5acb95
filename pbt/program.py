"""
The shell as its users have it: the program itself, in a process and an environment of its own.

It runs from a copy of the working tree, whose DBMS folder is the one it works on. A launcher
tells when the program waits for a line, so that nothing here depends on how fast it is.
"""
import os
import select
import shutil
import signal
import subprocess
import sys
import time
from pathlib import Path

from pbt import env
from pbt.sessions import ENVIRONMENTS

ANSWER_SECONDS = 80
END_SECONDS = 30

LAUNCHER = """
import builtins, os, runpy, signal, sys
fd, script = int(sys.argv[1]), sys.argv[2]
# what the program finds when it is started from a terminal
signal.signal(signal.SIGINT, signal.default_int_handler)
for number in (signal.SIGHUP, signal.SIGTERM):
    signal.signal(number, signal.SIG_DFL)
typed = builtins.input
def asked(*args):
    os.write(fd, b"?")
    return typed(*args)
builtins.input = asked
sys.argv = [script]
sys.path[0] = os.path.dirname(script)
runpy.run_path(script, run_name="__main__")
"""

BELONGINGS = ["dbms/mine/database_mine.json", "dbms/graph/notes.txt", "wiggle_graph_logger/notes.txt", "core/notes.txt"]
ENDS = ["q", "eof", "SIGINT", "SIGTERM", "SIGHUP", "SIGKILL"]


def copy_tree(target: Path) -> None:
    """A copy of the working tree, without what it has been run on."""
    shutil.copytree(
        env.REPO,
        target,
        ignore=lambda folder, names: [
            n for n in names if n in (".git", "__pycache__", ".pytest_cache") or n.endswith(".log") or (n == "dbms" and folder == env.REPO)
        ],
    )


def make_belongings(folder: Path) -> None:
    """What a user may have in a folder of their own: nothing of it is the program's."""
    for name in BELONGINGS:
        path = folder / name
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_text("{}")


class ProgramEnded(Exception):
    """The program is gone, or does not answer."""


class Program:
    def __init__(self, tree: Path, work: Path, environment: int, away: int) -> None:
        """Starts the program of a tree; `work` holds its HOME and what else it is given."""
        for name in ("home", "here"):
            make_belongings(work / name)
        launcher = work / "launcher.py"
        launcher.write_text(LAUNCHER)
        surroundings = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON", "TZ", "COLUMNS"))}
        surroundings.update(ENVIRONMENTS[environment])
        surroundings.update(
            PYTHONPATH=str(tree), PYTHONPYCACHEPREFIX=str(tree.parent / "program_pyc"), PYTHONIOENCODING="utf-8", HOME=str(work / "home")
        )
        self.said = open(work / "said", "w+b")
        self.ready, ready_writer = os.pipe()
        self.process = subprocess.Popen(
            [sys.executable, str(launcher), str(ready_writer), str(tree / "wiggle_shell" / "wiggleshell.py")],
            env=surroundings,
            stdin=subprocess.PIPE,
            stdout=self.said,
            stderr=subprocess.STDOUT,
            cwd=[str(work / "here"), str(tree), str(tree / "wiggle_shell"), "/"][away],
            pass_fds=(ready_writer,),
        )
        os.close(ready_writer)
        self.wait("the start")

    def wait(self, what: str) -> None:
        """Waits until the next line is asked for."""
        if not select.select([self.ready], [], [], ANSWER_SECONDS)[0]:
            raise ProgramEnded(f"no answer to {what} in {ANSWER_SECONDS} s")
        if not os.read(self.ready, 1):
            status = self.process.wait(END_SECONDS)
            raise ProgramEnded(f"it ended after {what} with status {status} and {self.output()[-600:]!r}")

    def output(self) -> str:
        self.said.seek(0)
        return self.said.read().decode("utf-8", "replace")

    def line(self, text: str) -> None:
        """Types a line and waits until the program has dealt with it."""
        try:
            self.process.stdin.write(text.encode("utf-8") + b"\n")
            self.process.stdin.flush()
        except OSError as error:
            raise ProgramEnded(f"it did not read {text!r}: {error}")
        self.wait(repr(text))

    def _gone(self, seconds: float) -> bool:
        try:
            self.process.wait(seconds)
            return True
        except subprocess.TimeoutExpired:
            return False

    def end(self, how: str):
        """Ends the program; its status, None if it had to be killed after all."""
        status = None
        if how == "q":
            self.process.stdin.write(b"q\n")
            self.process.stdin.flush()
        elif how == "eof":
            self.process.stdin.close()
        else:
            self.process.send_signal(getattr(signal, how))
            ends = time.monotonic() + END_SECONDS
            # it may ask again instead of ending
            while time.monotonic() < ends and self.process.poll() is None:
                if select.select([self.ready], [], [], 0.02)[0]:
                    if not os.read(self.ready, 1):
                        break
                    self.process.stdin.close()
        if self._gone(END_SECONDS):
            status = self.process.returncode
        self.close()
        return status

    def close(self) -> None:
        if self.process.poll() is None:
            self.process.kill()
            self.process.wait()
        try:
            self.process.stdin.close()
        except OSError:
            pass
        os.close(self.ready)
        self.said.close()
