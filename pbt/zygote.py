"""
Runs functions in processes that have done nothing before.

The zygote is forked when the code under test was just imported; for every request it forks a
child, which runs the function and sends back its (JSON) result. What one run leaves in memory
can not be seen by another.
"""
import json
import os
import signal
import struct
import traceback

from pbt.violation import Violation

_functions: dict = {}
_ends = None


def register(function):
    _functions[function.__name__] = function
    return function


def _send(descriptor: int, value) -> None:
    data = json.dumps(value).encode()
    data = struct.pack(">Q", len(data)) + data
    while data:
        data = data[os.write(descriptor, data) :]


def _receive(descriptor: int):
    def exactly(count: int) -> bytes:
        data = b""
        while len(data) < count:
            part = os.read(descriptor, count - len(data))
            if not part:
                raise EOFError
            data += part
        return data

    return json.loads(exactly(struct.unpack(">Q", exactly(8))[0]))


def start() -> None:
    global _ends
    request_read, request_write = os.pipe()
    answer_read, answer_write = os.pipe()
    if os.fork() == 0:
        try:
            os.close(request_write)
            os.close(answer_read)
            while True:
                try:
                    name, args = _receive(request_read)
                except EOFError:
                    os._exit(0)
                child = os.fork()
                if child == 0:
                    # a run that hangs ends here, not the whole check
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(60)
                    try:
                        answer = {"value": _functions[name](*args)}
                    except Violation as violation:
                        answer = {"violation": str(violation), "key": violation.key}
                    except BaseException:
                        answer = {"error": traceback.format_exc()}
                    _send(answer_write, answer)
                    os._exit(0)
                _, status = os.waitpid(child, 0)
                if status:
                    _send(answer_write, {"violation": f"the process ended with status {status}", "key": ""})
        finally:
            os._exit(0)
    os.close(request_read)
    os.close(answer_write)
    _ends = (request_write, answer_read)


def run(function, *args):
    """function(*args) in a new process; args and the result are JSON."""
    _send(_ends[0], [function.__name__, list(args)])
    answer = _receive(_ends[1])
    if "violation" in answer:
        raise Violation(answer["violation"], answer["key"])
    if "error" in answer:
        raise RuntimeError(answer["error"])
    return answer["value"]
