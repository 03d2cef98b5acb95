"""
Faults: makes the calls that change files fail, or end or interrupt the process there, and runs
functions in child processes that may end so.
"""
import ctypes
import errno
import gc
import json
import os
import shutil
import signal
import subprocess
import sys
import traceback
from pathlib import Path

from pbt import sut
from pbt.violation import Violation

COUNT, CRASH, FAIL_ONCE, FAIL_FROM, FAIL_ALL_FROM, INTERRUPT = range(6)
ERRORS = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EACCES, errno.EROFS, errno.EMFILE]
NAMES = {CRASH: "end", FAIL_ONCE: "failure", FAIL_FROM: "full disk from", FAIL_ALL_FROM: "failure of everything from", INTERRUPT: "Ctrl-C"}
CRASHED = 77

_faults = None


def before(scratch):
    """Runs the check again with the library that makes the faults."""
    if os.environ.get("WG_FAULTS"):
        return
    library = scratch / "faults.so"
    source = Path(__file__).resolve().parent / "faults.c"
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", str(library), str(source), "-ldl"], check=True)
    environment = {**os.environ, "LD_PRELOAD": str(library), "WG_FAULTS": str(library)}
    done = subprocess.run([sys.executable, *sys.argv], env=environment)
    # the one line that counts was printed by the run that ended
    raise SystemExit(done.returncode)


def shard_init(scratch):
    """Loads the library in a process of the check."""
    global _faults
    sut.preload()
    _faults = ctypes.CDLL(os.environ["WG_FAULTS"])
    _faults.faults_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int]
    _faults.faults_steps.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int]
    _faults.faults_seen.restype = ctypes.c_long
    _faults.faults_kinds.restype = ctypes.c_char_p


def forked(function, *args):
    """function(*args) in a child: (how it ended, its JSON result)."""
    read, write = os.pipe()
    gc.freeze()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            gc.disable()
            os.close(read)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            try:
                answer = {"value": function(*args)}
            except Violation as violation:
                answer = {"violation": str(violation)}
            except BaseException:
                answer = {"error": traceback.format_exc()}
            _faults.faults_disarm()
            data = json.dumps(answer).encode()
            while data:
                data = data[os.write(write, data) :]
            status = 0
        finally:
            os._exit(status)
    os.close(write)
    chunks = []
    while chunk := os.read(read, 65536):
        chunks.append(chunk)
    os.close(read)
    _, status = os.waitpid(pid, 0)
    status = os.waitstatus_to_exitcode(status)
    if status == 0:
        answer = json.loads(b"".join(chunks))
        if "violation" in answer:
            raise Violation(answer["violation"])
        if "error" in answer:
            raise RuntimeError(answer["error"])
        return 0, answer["value"]
    return status, None


def saved_files(folder):
    return {p.name: p.read_bytes() for p in folder.iterdir()}


def restore(folder, files):
    shutil.rmtree(folder)
    folder.mkdir()
    for name, content in files.items():
        (folder / name).write_bytes(content)


def arm(folder, mode, at=0, error=0, part=-1) -> None:
    """From now on the calls that change something below the folder count."""
    _faults.faults_arm(str(folder).encode(), mode, at, error, part)


def in_steps(folder, out: int, into: int) -> None:
    """From now on every call that opens or changes something below the folder is told on `out` and waits for `into`."""
    _faults.faults_steps(str(folder).encode(), out, into)


def disarm() -> None:
    _faults.faults_disarm()


def kinds() -> str:
    """The calls since arm(), a letter each."""
    return _faults.faults_kinds().decode()


def points(calls: str, modes: list):
    """Every (mode, number of the call, eighths of a write that are done) to try."""
    for at, kind in enumerate(calls, 1):
        for mode in modes:
            yield mode, at, -1
            if kind == "w" and mode != INTERRUPT:
                for part in [1 + at % 7, 4] if mode == CRASH else [4]:
                    yield mode, at, part
