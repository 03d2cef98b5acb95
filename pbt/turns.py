"""
Processes that work at the same moment, in an order that is chosen.

Every process waits at each of its calls that open or change a file below one folder, and
before each of its operations, until it is told to go on; the one that chooses who goes on
decides how the accesses interleave.
"""
import json
import os
import select
import signal
import traceback

from pbt import faulty
from pbt.violation import Violation

STUCK_SECONDS = 0.3  # it may wait for another one
END_SECONDS = 60

BEGIN, END = b"(", b")"


class Actor:
    def __init__(self, number: int, below, result_path, operations: list) -> None:
        """`operations` are functions without arguments, whose results are JSON."""
        self.number, self.result_path = number, result_path
        self.count = len(operations)
        self.begun = self.ended = self.steps = 0
        self.waits = self.done = False
        out_read, out_write = os.pipe()
        in_read, in_write = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            status = 1
            try:
                os.close(out_read)
                os.close(in_write)
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(END_SECONDS + 20)
                results = []
                try:
                    faulty.in_steps(below, out_write, in_read)
                    for operation in operations:
                        os.write(out_write, BEGIN)
                        if not os.read(in_read, 1):
                            os._exit(79)
                        results.append(operation())
                        os.write(out_write, END)
                    faulty.disarm()
                    answer = {"value": results}
                except Violation as violation:
                    answer = {"violation": str(violation)}
                except BaseException:
                    answer = {"error": traceback.format_exc()}
                faulty.disarm()
                result_path.write_text(json.dumps(answer))
                status = 0
            finally:
                os._exit(status)
        os.close(out_write)
        os.close(in_read)
        self.out, self.into = out_read, in_write

    def listen(self, seconds: float) -> None:
        """Takes what it reports until it waits or is done."""
        while not self.waits and not self.done and select.select([self.out], [], [], seconds)[0]:
            said = os.read(self.out, 1)
            if not said:
                self.done = True
            elif said == END:
                self.ended += 1
                self.on_end()
            else:
                self.waits = True
                self.begun += said == BEGIN

    on_end = staticmethod(lambda: None)

    def go(self) -> None:
        self.waits = False
        self.steps += 1
        os.write(self.into, b"!")

    def finish(self) -> None:
        os.close(self.into)
        os.close(self.out)
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        _, status = os.waitpid(self.pid, 0)
        self.status = os.waitstatus_to_exitcode(status)

    def result(self):
        if not self.result_path.exists():
            raise Violation(f"process {self.number} ended without an answer")
        answer = json.loads(self.result_path.read_text())
        if "violation" in answer:
            raise Violation(answer["violation"])
        if "error" in answer:
            raise RuntimeError(answer["error"])
        return answer["value"]


def run(below, scratch, work: list, order: list):
    """
    Runs a list of operations in a process each. `order` holds (number of a process, how many
    steps it goes on); when it is used up each one goes on to its end. Gives the results, what
    the others had done meanwhile, the number of steps of each,
    and how often one was held up within an operation.
    """
    actors: list = []
    windows = [[] for _ in work]
    try:
        for number, operations in enumerate(work):
            actors.append(Actor(number, below, scratch / f"actor{number}.json", operations))
        for actor in actors:
            actor.on_end = lambda a=actor: windows[a.number].append([a.lower, [x.ended for x in actors]])
            actor.listen(END_SECONDS)
        left = [list(x) for x in order]
        last, held_up = None, 0
        while not all(a.done for a in actors):
            waiting = [a for a in actors if a.waits]
            if not waiting:
                stuck = [a for a in actors if not a.done]
                ready = select.select([a.out for a in stuck], [], [], END_SECONDS)[0]
                if not ready:
                    raise Violation(f"processes {[a.number for a in stuck]} wait for each other")
                for actor in stuck:
                    actor.listen(0)
                continue
            while left and (left[0][1] <= 0 or actors[left[0][0] % len(actors)].done):
                left.pop(0)
            chosen = waiting[0]
            if left:
                wanted = actors[left[0][0] % len(actors)]
                left[0][1] -= 1
                chosen = wanted if wanted.waits else waiting[0]
            if chosen.begun > chosen.ended and chosen.begun != getattr(chosen, "started", 0):
                chosen.started = chosen.begun
                chosen.lower = [x.ended for x in actors]
            # the one that went on before is within an operation and waits
            held_up += last not in (None, chosen) and not last.done and last.begun > last.ended and last.begun == getattr(last, "started", 0)
            last = chosen
            chosen.go()
            chosen.listen(STUCK_SECONDS if len(waiting) > 1 else END_SECONDS)
            for actor in actors:
                if actor is not chosen:
                    actor.listen(0)
        # they are done when their pipe is closed, the answer is written before
        results = [a.result() for a in actors]
    finally:
        for actor in actors:
            actor.finish()
    return results, windows, [a.steps for a in actors], held_up
