"""
Sessions: processes that run queries until they are closed, each in an environment of its own.

A server is a Python started in one of the environments; it imports the code under test and
forks a session for every connection. It ends with the process that started it.
"""
import os
import pickle
import select
import signal
import socket
import struct
import subprocess
import sys
from pathlib import Path

# what a user's terminal may be set to; the zones differ from each other and from UTC
ENVIRONMENTS = [
    {"PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8", "TZ": "UTC0"},
    {"PYTHONHASHSEED": "1", "LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "TZ": "AAA-9:30"},
    {"PYTHONHASHSEED": "77", "LC_ALL": "POSIX", "PYTHONUTF8": "1", "TZ": "BBB11", "COLUMNS": "20", "PYTHONUNBUFFERED": "1"},
]
ANSWER_SECONDS = 80

_servers: list = []


def _send(connection, value) -> None:
    data = pickle.dumps(value)
    connection.sendall(struct.pack(">Q", len(data)) + data)


def _receive(connection):
    def exactly(count: int) -> bytes:
        data = b""
        while len(data) < count:
            part = connection.recv(count - len(data))
            if not part:
                raise EOFError
            data += part
        return data

    return pickle.loads(exactly(struct.unpack(">Q", exactly(8))[0]))


class SessionEnded(Exception):
    """The process of a session is gone."""


class Session:
    def __init__(self, server: int) -> None:
        self.connection = socket.socket(socket.AF_UNIX)
        self.connection.settimeout(ANSWER_SECONDS)
        self.connection.connect(_servers[server][1])

    def _ask(self, *request):
        try:
            _send(self.connection, request)
            return _receive(self.connection)
        except (EOFError, OSError) as error:
            raise SessionEnded(f"{request[0]} {request[-1]!r}: {type(error).__name__} {error}")

    def create(self, name: str, folder: Path):
        """The paths of a new DBMS, or what creating it raised."""
        return self._ask("create", str(folder), name)

    def query(self, gdbms, text: str):
        """Whether it was accepted, what it raised, what it printed."""
        return self._ask("query", gdbms, text)

    def close(self) -> None:
        self.connection.close()


def start(scratch: Path) -> None:
    """Starts a server of every environment."""
    for number, settings in enumerate(ENVIRONMENTS):
        folder = scratch / f"server{number}"
        folder.mkdir(parents=True, exist_ok=True)
        path = str(folder / "socket")
        surroundings = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON", "TZ"))}
        server = subprocess.Popen(
            [sys.executable, "-B", str(Path(__file__).resolve()), str(folder)],
            env={**surroundings, **settings},
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            cwd=str(folder) if number else "/",
        )
        _servers.append((server, path))
    for server, _ in _servers:
        if server.stdout.readline() != b"ready\n":
            raise RuntimeError("a session server did not start")


def _serve_session(connection) -> None:
    from pathlib import Path

    from pbt import sut
    from wiggle_shell.core.select_gdbms.select_gdbms import get_new_gdbms_file_paths

    while True:
        try:
            request = _receive(connection)
        except (EOFError, OSError):
            return
        if request[0] == "create":
            outcome = sut.call(get_new_gdbms_file_paths, request[2], Path(request[1]))
            _send(connection, (outcome.value, None if outcome.ok else outcome.why()))
        else:
            outcome = sut.query(request[2], request[1])
            _send(connection, (outcome.ok, None if outcome.ok else outcome.why(), outcome.out))


def _serve(folder: Path) -> None:
    sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
    from pbt import env, sut

    env.load_sut(folder)
    sut.preload()
    # what a session leaves for its end (atexit) is no part of its answers
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    listener = socket.socket(socket.AF_UNIX)
    listener.bind(str(folder / "socket"))
    listener.listen(16)
    os.write(1, b"ready\n")
    while True:
        ready, _, _ = select.select([listener, 0], [], [])
        if 0 in ready and not os.read(0, 1):
            os._exit(0)
        if listener in ready:
            connection, _ = listener.accept()
            if os.fork() == 0:
                listener.close()
                os.close(0)
                try:
                    _serve_session(connection)
                finally:
                    os._exit(0)
            connection.close()


if __name__ == "__main__":
    # this folder holds modules with common names
    sys.path.pop(0)
    _serve(Path(sys.argv[1]))
