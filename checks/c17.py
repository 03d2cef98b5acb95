"""Creation times are the times of creation."""
import os
import time

from hypothesis import strategies as st

from pbt import gen, model, sut
from pbt.violation import Violation

PROPERTY = "C17"
LEVEL = "exploration"
EXAMPLES = {"quick": 3600, "thorough": 60000}
RULE = (
    "Histories of 1-6 queries, valid and with mistakes, under various time zones and sub-second moments. The creation time of "
    "each record a query made lies between the moment it was started and the moment it returned, there is no update time, "
    "earlier records keep theirs and no later query made an earlier one. Non-trivial: at least two queries that made "
    "something."
)
ASSUMPTIONS = ["the clock is only read between two readings that agree with the monotonic clock to 50 ms"]

TOLERANCE = 5e-6  # a time goes through microseconds on its way


def strategy(tier):
    return st.fixed_dictionaries(
        {
            "zone": st.sampled_from(["UTC0", "AAA5", "BBB-5:30", "CCC-14", "DDD12", "EEE3EDT"]),
            "steps": st.lists(st.tuples(gen.weighted((4, gen.STEPS), (1, gen.BIG_STEPS)), st.sampled_from([0, 0, 0, 0.0003, 0.001])).map(list), min_size=1, max_size=6),
        }
    )


def times(database: dict) -> dict:
    found = {}
    for key, node in database.items():
        found[key] = (node["node_metadata"]["created_at"], node["node_metadata"].get("updated_at"))
        for rel in sut.relations_of(node):
            metadata = rel["relationship_metadata"]
            found[f"{key}:{metadata['wn']}"] = (metadata["created_at"], metadata.get("updated_at"))
    return found


def check_case(case, scratch):
    made = steady = 0
    latest = 0.0
    os.environ["TZ"] = case["zone"]
    time.tzset()
    try:
        with sut.case_folder(scratch) as folder:
            gdbms = sut.new_dbms(folder)
            known: dict = {}
            for step, pause in case["steps"]:
                text, _ = gen.step_text(step)
                time.sleep(pause)
                before, ticks = time.time(), time.monotonic()
                outcome = sut.query(text, gdbms)
                after, ticks = time.time(), time.monotonic() - ticks
                clock_ran = abs((after - before) - ticks) < 0.05
                now = times(sut.read_state(gdbms, f"after {text!r}").database)
                for name, stamp in known.items():
                    if now.get(name) != stamp:
                        raise Violation(f"{text!r} changed the times of {name} from {stamp} to {now.get(name)}")
                new = {k: v for k, v in now.items() if k not in known}
                for name, (created, updated) in new.items():
                    if updated is not None:
                        raise Violation(f"{name} made by {text!r} has the update time {updated}")
                    if clock_ran and not before - TOLERANCE <= created <= after + TOLERANCE:
                        raise Violation(f"{name} has the creation time {created}, {text!r} ran from {before} to {after} in the zone {case['zone']}")
                    if clock_ran and created < latest - TOLERANCE:
                        raise Violation(f"{name} made by {text!r} has the time {created}, an earlier query used {latest}")
                if not outcome.ok and new:
                    raise Violation(f"{text!r} was rejected and made {sorted(new)}")
                made += bool(new)
                steady += clock_ran
                known = now
                latest = max([latest] + [c for c, _ in now.values()])
    finally:
        os.environ["TZ"] = "UTC0"
        time.tzset()
    return {"nontrivial": made > 1, "queries_that_made": made, "steady_clock": steady}
