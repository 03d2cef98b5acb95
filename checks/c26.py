"""Every text is answered, and size makes no difference."""
import signal
import sys

from hypothesis import strategies as st

from pbt import dictionary, gen, model, oracles, refparse, sut
from pbt.violation import Violation

PROPERTY = "C26"
LEVEL = "exploration"
CASE_SECONDS = 200
EXAMPLES = {"quick": 1300, "thorough": 12000}
RULE = (
    "1-3 texts per case on one database. Large well-formed queries: up to 1500 patterns, 3000 different labels and names, 1200 statements, 1500 properties, "
    "lists of 3000 elements, strings, labels, handles and names of up to 20000 characters, long arrows and whitespace, made "
    "by repeating a small part of a generated query; small queries after them, and the FIND of what was made. All of it must "
    "be stored, indexed and found as in small queries. And any text (edited or broken queries, pieces of syntax) with one of "
    "its pieces repeated up to 2000 characters, or with long runs of whitespace wherever some is allowed and edits after that: it is answered within 10 s of CPU time (the slowest takes 0.5 s) and with the stack of a session, and stored "
    "as it is written or not at all. Non-trivial: a text of more than 1000 characters."
)
ASSUMPTIONS = [
    "10 s of CPU time for a text of up to 6000 characters, 20 s for a longer one, is an answer that never comes",
    "more than 4300 digits are too large an integer to be stored, as in Python",
]
CPU_SECONDS = 10
STACK = 980
LONGEST = 400_000

SIZES = gen.hinted(gen.weighted((2, st.integers(2, 60)), (2, st.integers(60, 400)), (2, st.integers(400, 1500))), dictionary.sizes(1500, 2))
LARGE = ["patterns", "different", "statements", "props", "list", "string", "word", "arrow", "space", "digits", "same_props"]
UNITS = gen.weighted(
    (2, st.sampled_from(gen.SPLICES)),
    (2, st.sampled_from(
        ["(", ")", "((", "(:", "{", "[", "'", '"', " ", "\n", "\t ", "-", "--", "<", ">", "->", "<-", ",", ", ", ":", ";", ".", "@", "a", "A", "1", "a ", "a,", "a:",
         "a: ", "a: 1, ", "a: 'x', ", "'x', ", "'x' ", "1, ", "1 ", "1.", "[1], ", "x@", "x.", "_", "a1", "(:A)", "(:A), ", "(:A)-", "-[:R]->", "-[:R]-", "<-[:R]-", "-[", "]->",
         "(:A)-[:R]->", "{a: 1}", "MAKE", "MAKE ", "make;", "MAKE (", "MAKE (:A);", "FIND ", "FIND (:A) ", "REPORT ", "n.a, ", "wn(", "ekam ", "é", "名", "true ", "true", "[true, ", "null,"]
    )),
    (1, gen.text("()[]{}<>-:;,.'\"@ \naA1R_", min_size=1, max_size=4)),
)
UNITS = gen.hinted(UNITS, gen.HINTED_SPLICES)


# an edit between the square brackets of a relationship, or the curly ones of properties
RELATIONSHIP_EDITS = st.lists(st.tuples(st.sampled_from(["[", "]", "{", "}", "(", ")", ":"]), st.integers(0, 50), gen.hinted(st.sampled_from(gen.SPLICES), gen.HINTED_SPLICES)).map(list), min_size=1, max_size=2)


def strategy(tier):
    large = st.fixed_dictionaries(
        {
            "large": st.lists(st.sampled_from(LARGE), min_size=1, max_size=2, unique=True),
            "size": SIZES,
            "q": gen.weighted((2, gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, max_makes=2)), (1, gen.queries(gen.MAKES, gen.FINDS, max_makes=2))),
            "layout": gen.LAYOUTS,
            "at": st.integers(0, 10**6),
            "value": gen.weighted((3, gen.PRIMITIVES), (1, gen.LISTS)),
        }
    )
    small = gen.STEPS
    any_text = gen.weighted(
        (4, gen.step_of(gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, max_makes=2), mistake=gen.weighted((2, st.none()), (1, gen.MISTAKES)))),
        (1, gen.OTHER_TEXT.map(lambda x: {"text": x})),
        (1, st.lists(UNITS, max_size=6).map(lambda x: {"text": "MAKE " + "".join(x)})),
    )
    pumped = st.fixed_dictionaries(
        {
            "pump": any_text,
            # where, what, how often, whether the text goes on after it
            "units": st.lists(st.tuples(st.integers(0, 10**4), UNITS, gen.hinted(st.integers(2, 2000), dictionary.sizes(2000, 2)), st.booleans()).map(list), min_size=1, max_size=2),
        }
    )
    wide = st.fixed_dictionaries(
        {
            "wide": gen.weighted((2, gen.queries(gen.SIMPLE_MAKES, gen.SIMPLE_FINDS, max_makes=2)), (1, gen.queries(gen.MAKES, gen.FINDS, max_makes=2))),
            "layout": gen.LAYOUTS,
            "times": gen.hinted(gen.weighted((1, st.integers(2, 40)), (2, st.integers(40, 400))), dictionary.sizes(600, 2)),
            "words": gen.weighted((3, st.just(0)), (1, st.integers(1, 60))),
            "edits": gen.weighted((1, st.just([])), (4, gen.EDITS), (2, RELATIONSHIP_EDITS)),
        }
    )
    find = st.fixed_dictionaries({"find_last": st.integers(0, 5)})
    return st.fixed_dictionaries({"start": gen.STARTS, "steps": st.lists(gen.weighted((4, large), (5, pumped), (4, wide), (2, small), (2, find)), min_size=1, max_size=4)})


def sites(query, *kinds):
    """The nodes and relationships of a query."""
    return [x for s in query if s["t"] != "report" for p in s["pats"] for x in p["nodes"] + p["rels"]]


def grow(word: str, size: int) -> str:
    return (word or "x") * (1 + size * 8 // max(len(word), 1)) + word[:1]


def enlarged(step: dict) -> list:
    """The statements of a query with one or two things in it made large."""
    import copy

    query = copy.deepcopy(step["q"])
    size, at = step["size"], step["at"]
    for kind in step["large"]:
        things = sites(query)
        thing = things[at % len(things)]
        makes = [i for i, s in enumerate(query) if s["t"] == "make"]
        if kind == "patterns":
            statement = query[makes[at % len(makes)]]
            count = max(1, size // 2)
            patterns = [copy.deepcopy(statement["pats"][i % len(statement["pats"])]) for i in range(len(statement["pats"]) + count)]
            for i, p in enumerate(patterns):
                # told apart by their labels, so that a lost one is missed
                p["nodes"][i % len(p["nodes"])]["l"] += f"_{i}" if i % 3 else ""
            statement["pats"] = patterns
        elif kind == "different":
            # so many labels, names or property names
            statement = query[makes[at % len(makes)]]
            pattern = copy.deepcopy(statement["pats"][0])
            for i in range(min(size, 1500)):
                more = copy.deepcopy(pattern)
                for j, node in enumerate(more["nodes"]):
                    if at % 3 != 1 or not pattern["rels"]:
                        node["l"] = f"L{i}_{j}"
                    if at % 7 == 1:
                        node["p"] = [[f"p{i}_{j}", ["int", str(i)]]]
                for j, rel in enumerate(more["rels"]):
                    if at % 3 != 2:
                        rel["n"] = f"R{i}_{j}"
                statement["pats"].append(more)
        elif kind == "statements":
            which = makes[at % len(makes)]
            small = copy.deepcopy(query[which])
            small["pats"] = small["pats"][:1]
            query[which:which] = [copy.deepcopy(small) for _ in range(min(size, 1200))]
        elif kind in ("props", "same_props"):
            names = {name for name, _ in thing["p"] or []}
            value = step["value"] if kind == "same_props" else None
            more = [[f"p{i}", value or ["int", str(i)]] for i in range(size) if f"p{i}" not in names]
            thing["p"] = (thing["p"] or []) + (more if kind == "props" else more[:60])
        elif kind == "list":
            items = step["value"][1] if step["value"][0] == "list" else [step["value"]]
            items = [items[i % len(items)] if items and i % 2 else ["int", str(i)] for i in range(2 * size)]
            thing["p"] = [p for p in thing["p"] or [] if p[0] != "items"] + [["items", ["list", items]]]
        elif kind == "string":
            value = step["value"] if step["value"][0] == "str" else ["str", "a b, c: 1", "'"]
            value = [value[0], grow(value[1], size), value[2]]
            thing["p"] = [p for p in thing["p"] or [] if p[0] != "text"] + [["text", value]]
        elif kind == "word":
            part = ["h", "l", "n", "p"][at % 4]
            if part == "l" and "l" in thing:
                thing["l"] = grow(thing["l"], size)
            elif part == "n" and "n" in thing and thing["n"]:
                thing["n"] = "R" + grow(thing["n"], size)
            elif part == "p":
                first = (thing["p"] or [["name", ["int", "1"]]])[0]
                # two that only differ in their ends
                thing["p"] = [[grow(first[0], size) + end, first[1]] for end in ("_", "_1")] + (thing["p"] or [])[1:]
            elif thing["h"] and not any(s["t"] == "report" for s in query):
                thing["h"] = grow(thing["h"], size) + "_"
        elif kind == "digits":
            digits = "7" * min(1 + size * 3, 4300)
            number = ["int", digits] if at % 3 else ["float", f"{digits[:300]}.{digits}"] if at % 2 else ["float", "0." + "0" * (size % 200) + digits]
            thing["p"] = [p for p in thing["p"] or [] if p[0] != "number"] + [["number", number]]
        elif kind == "arrow":
            for rel in things:
                if "dash" in rel:
                    rel["dash"] = [size, 1 + at % size]
    return query


def pumped_text(step: dict) -> str:
    text = step["pump"].get("text")
    if text is None:
        text = gen.step_text(step["pump"])[0]
    for at, unit, times, goes_on in step["units"]:
        at %= len(text) + 1
        text = text[:at] + unit * max(2, min(times, 2000 // len(unit))) + (text[at:] if goes_on else ";")
    return text[:6000]


def wide_text(step: dict) -> tuple[str, bool]:
    """A query with a lot of whitespace wherever some is allowed and long words, and maybe some edits."""
    import copy

    query = copy.deepcopy(step["wide"])
    if step["words"]:
        for thing in sites(query):
            for part in "ln":
                if thing.get(part):
                    thing[part] = thing[part] + thing[part][-1:] * step["words"]
    times = step["times"]
    text = None
    while text is None or len(text) > 8000:
        layout = [x * times for x in step["layout"]] if any(step["layout"]) else [" " * times]
        text = model.render(query, layout)
        times = times * 2 // 3
        if not times:
            break
    for edit in step["edits"]:
        if len(edit) == 3:
            mark, at, splice = edit
            places = [i for i, c in enumerate(text) if c == mark]
            if places:
                # before it or after it
                place = places[at // 2 % len(places)] + at % 2
                text = text[:place] + splice + text[place:]
        else:
            text = gen.apply_edits(text, [edit])
    return text[:12000] if step["edits"] else text, bool(step["edits"])


class NoAnswer(BaseException):
    pass


def _too_long(_signum, _frame):
    raise NoAnswer()


def depth() -> int:
    frame, count = sys._getframe(), 0
    while frame:
        frame, count = frame.f_back, count + 1
    return count


def answered(text: str, gdbms) -> sut.Outcome:
    # the stack a session has, Hypothesis allows a deeper one
    stack = sys.getrecursionlimit()
    old = signal.signal(signal.SIGVTALRM, _too_long)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_SECONDS * (2 if len(text) > 6000 else 1))
    try:
        sys.setrecursionlimit(depth() + STACK)
        outcome = sut.query(text, gdbms)
    except NoAnswer:
        raise Violation(f"no answer within {CPU_SECONDS} s of CPU time to the {len(text)} characters {shortened(text)}")
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        sys.setrecursionlimit(stack)
    error = outcome.error
    while error is not None:
        if isinstance(error, (RecursionError, MemoryError)):
            raise Violation(f"{outcome.why()[:300]} is no answer to the {len(text)} characters {shortened(text)}")
        error = error.__cause__ or error.__context__
    return outcome


def shortened(text: str) -> str:
    return repr(text) if len(text) < 1200 else f"{text[:800]!r} ... {text[-300:]!r}"


def cut(statements: list) -> list:
    """What the search for the last pattern of some statements would be written as."""
    pattern = [p for s in statements if s["t"] == "make" for p in s["pats"]][-1]
    return [{"t": "find", "kw": "FIND", "pats": [pattern]}]


def check_case(case, scratch):
    long_texts = accepted = rejected = large = found = wide = 0
    last = None
    with sut.case_folder(scratch) as folder:
        gdbms = sut.new_dbms(folder)
        sut.set_counter(gdbms, case["start"])
        state = sut.read_state(gdbms)
        for step in case["steps"]:
            statements = None
            if "large" in step:
                text = None
                while text is None or len(text) > LONGEST:
                    # two things made large multiply
                    if text is not None:
                        step = {**step, "size": step["size"] // 4 + 1}
                    statements = enlarged(step)
                    layout = [x * (1 + step["size"] // 4) if "space" in step["large"] else x for x in step["layout"]]
                    text = model.render(statements, layout)
                large += 1
            elif "find_last" in step:
                if last is None:
                    continue
                statements = cut(last)
                text = model.render(statements, [" "])
                found += 1
            elif "pump" in step:
                text = pumped_text(step)
            elif "wide" in step:
                text, edited = wide_text(step)
                statements = None if edited else step["wide"] if not step["words"] else None
                wide += 1
            else:
                text, made = gen.step_text(step)
                statements = None if made else step["q"]
            long_texts += len(text) > 1000
            outcome = answered(text, gdbms)
            after = sut.read_state(gdbms, f"after {shortened(text)}")
            what = f"{shortened(text)} ({len(text)} characters)"
            if statements is not None:
                if not outcome.ok:
                    raise Violation(f"{what} was refused with {outcome.why()[:500]}")
                expected = model.expected_components(statements)
                if "find_last" in step and "no results" in outcome.out.lower():
                    raise Violation(f"{what} is in the graph and found 'no results'")
                if any(s["t"] == "make" for s in statements):
                    last = statements
                needed = model.identifiers_needed(statements)
            elif outcome.ok:
                try:
                    expected = refparse.written_components(text)
                except refparse.Unreadable as error:
                    raise Violation(f"{what} was accepted, it can not be read: {error}")
                needed = None
            else:
                if not after.same_as(state):
                    raise Violation(f"{what} was rejected with {outcome.why()[:500]} and changed the database")
                rejected += 1
                continue
            accepted += 1
            sut.records_kept(state.database, after.database, what)
            new = [k for k in after.database if k not in state.database]
            stored = model.stored_components(after.database, new)
            if stored != expected:
                raise Violation(f"{what} was accepted, {model.difference(expected, stored)[:2000]}")
            if needed is not None and after.counter - state.counter != needed:
                raise Violation(f"{what} needs {needed} identifiers, the counter went from {state.counter} to {after.counter}")
            oracles.check_indexes(after, f"after {what}")
            oracles.check_identifiers(after, f"after {what}")
            state = after
            if "large" in step:
                # and it is found like small ones, wherever the indexes hold it
                patterns = [p for s in statements if s["t"] == "make" for p in s["pats"]]
                for i in range(9):
                    nodes = patterns[(step["at"] + i * len(patterns) // 9) % len(patterns)]["nodes"]
                    node = {**nodes[i % len(nodes)], "p": None, "h": ""}
                    text = model.render([{"t": "find", "kw": "FIND", "pats": [{"nodes": [node], "rels": []}]}], [" "])
                    outcome = answered(text, gdbms)
                    if not outcome.ok or "no results" in outcome.out.lower():
                        answer = "found 'no results'" if outcome.ok else f"was refused with {outcome.why()[:500]}"
                        raise Violation(f"{shortened(text)} is in the graph after {what} and {answer}")
                    found += 1
    return {"nontrivial": long_texts, "accepted": accepted, "rejected": rejected, "large": large, "wide": wide, "long": long_texts, "found_again": found}
