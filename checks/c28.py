"""The text of a query is data: none of it is executed, and only the files of its database are used."""
import builtins
import os
import sys

from hypothesis import strategies as st

from pbt import gen, guard, sut
from pbt.violation import Violation

PROPERTY = "C28"
LEVEL = "exploration"
EXAMPLES = {"quick": 6000, "thorough": 150000}
RULE = (
    "1-4 texts per case: queries with fragments of Python, shell, template, format, SQL and path syntax in the place of "
    "values, list elements, names, labels, handles, keywords, criteria and report items, or between the statements; run by "
    "query() or typed into the shell. The fragments use a word that is a trap when it is evaluated, name files and commands "
    "that exist, and files that must not appear, also as the commands of other shells (@file, .read file, !touch file, save file). An audit hook sees what is executed, started, opened and changed. "
    "Non-trivial: a fragment in an accepted query, or in the value of a property."
)
ASSUMPTIONS = ["Python's audit events show what is executed, started and opened"]

TRAP = "wgtrap"
# § stands for the folder of the case, with a file bait
FRAGMENTS = [
    "wgtrap", "wgtrap()", "wgtrap.x", "wgtrap[0]", "-wgtrap", "not wgtrap", "wgtrap or 1", "wgtrap if 1 else 2", "wgtrap + 1", "1 + wgtrap", "wgtrap == 1", "wgtrap < 1", "*wgtrap", "**wgtrap", "~wgtrap",
    "[wgtrap()]", "[wgtrap]", "[wgtrap.x]", "[wgtrap[0]]", "[-wgtrap]", "[1, wgtrap()]", "['a', wgtrap.x]", "[wgtrap() for x in 'ab']", "[x for x in wgtrap]", "[*wgtrap]", "[lambda: wgtrap]", "['a' if wgtrap else 'b']",
    "[1 if wgtrap else 2]", "[not wgtrap]", "[wgtrap or 1]", "[wgtrap or null]", "[true, wgtrap or true]", "[1, 2 + wgtrap]", "['x' + wgtrap]", "['x' 'y', wgtrap]", "[f'{wgtrap}']", "[f'{wgtrap()}']", "[b'a', wgtrap]",
    "'wgtrap()'", '"wgtrap()"', "'{wgtrap}'", "'{wgtrap.x}'", "'{0}'", "'{0.__class__}'", "'{}'", "'{self}'", "'%(wgtrap)s'", "'%s'", "'%d %s'", "'$wgtrap'", "'${wgtrap}'", "'{{wgtrap}}'", "'{!r}'", "'\\\\x41'", "'\\\\n'", "'\\\\'",
    "'' + wgtrap + ''", "'a' + str(wgtrap)", "'a'.join(wgtrap)", "'x'; wgtrap()", "'x' or wgtrap", "f'{wgtrap}'", "f'{wgtrap()}'", "b'wgtrap'", "r'wgtrap'", "u'wgtrap'", "'''wgtrap'''", "('a')", "(wgtrap)", "1 or wgtrap",
    "{wgtrap}", "{wgtrap: 1}", "{'a': wgtrap()}", "{a: wgtrap()}", "{}", "{{}}", "{0}", "{0.__class__}", "%s", "%(wgtrap)s", "${wgtrap}", "${7*7}", "{{7*7}}", "{{wgtrap}}", "<% wgtrap %>", "#{wgtrap}", "`wgtrap`", "$(wgtrap)",
    "__import__('builtins').wgtrap()", "[__import__('builtins').wgtrap()]", "eval('wgtrap()')", "[eval('wgtrap()')]", "exec('wgtrap()')", "lambda: wgtrap()", "().__class__.__base__.__subclasses__()", "[().__class__.__base__.__subclasses__()]",
    "open('§/made', 'w')", "[open('§/made', 'w')]", "open('§/bait')", "[open('§/bait')]", "'§/bait'", "'file://§/bait'", "§/bait", "@§/bait", "<§/bait", ">§/made", "| cat §/bait", "!include §/bait", "!!python/object/apply:wgtrap []",
    "import wgtrap", "from wgtrap import x", "del wgtrap", "raise wgtrap", "print(wgtrap)", "wgtrap = 1", "(wgtrap := 1)", "[(a := wgtrap)]", "@wgtrap", "async wgtrap", "yield wgtrap", "[(yield wgtrap)]", "global wgtrap", "assert wgtrap",
    "$(touch §/made)", "`touch §/made`", "'; touch §/made; '", "\"; touch §/made; \"", "&& touch §/made", "| touch §/made", "'$(touch §/made)'", "\n!touch §/made", "!touch §/made", "%run §/bait", "%env", ":w §/made",
    "'; DROP TABLE nodes; --", "' OR '1'='1", "'); wgtrap(); ('", "\"); wgtrap(); (\"", "'] + [wgtrap()] + ['", "'}, wgtrap(), {'", "'\n wgtrap()\n'", "'\\\\' + wgtrap() + '", "\\\\N{DIGIT ONE}", "\\\\u0077gtrap",
    "float('nan')", "[float('nan')]", "1e999", "[1e999]", "1j", "[1j]", "0x10", "[0x10]", "1_000", "[1_000]", "[...]", "...", "None", "True", "nan", "inf", "self", "__name__", "__builtins__", "[__name__]", "[__builtins__]", "[__file__]", "[locals()]",
    "\"it's\", b: [wgtrap(), 'x']", "'a', b: [1, \"it's\", wgtrap()]", "'[', b: [wgtrap()]", "']', b: [wgtrap()]", "'\"', b: [wgtrap(), '\"']", "[\"'\", wgtrap(), \"'\"]", "['\"', wgtrap(), '\"']", "[\"it's\", wgtrap(), 'x']",
    "['{', wgtrap()]", "['}', wgtrap()]", "['(', wgtrap()]", "[1]\n[wgtrap()]", "[1][wgtrap()]", "[1, [wgtrap()]]", "[[wgtrap()]]", "[1], [wgtrap()]", "[(wgtrap())]", "[{wgtrap()}]", "[{1: wgtrap()}]",
    "../../bait", "..", "/etc/passwd", "[/etc/passwd]", "'../bait'", "~", "'~/bait'", "con", "/dev/stdin", "-", "--help", "-c", "wgtrap.py", "bait", "'bait'",
]

ENDINGS = ["", ".wql", ".json", ".txt", ".csv", ".py", ".sh", ".sql", ".cypher", ".log", ".pkl", ".yaml"]
PATHS = [f"{where}bait{ending}" for ending in ENDINGS for where in ("§/", "", "./", "../", "file://§/")] + ["§/made", "made", "made.json", "~/made", "/etc/passwd"]
COMMANDS = [
    "", "@", "<", ">", ">>", "|", "!", "!cat ", "!touch ", "! touch ", "$", "$ touch ", ".", ". ", ".read ", ".output ", ".import ", ".dump ", ".shell touch ", ".system touch ", ":", ":source ", ":load ", ":play ", ":param ", ":w ", ":r ", ":!touch ",
    "\\i ", "\\o ", "\\! touch ", "\\copy ", "source ", "run ", "load ", "read ", "open ", "import ", "include ", "exec ", "execute ", "eval ", "call ", "cat ", "cd ", "ls ", "dir ", "export ", "save ", "dump ", "backup ", "restore ", "log ", "tee ",
    "write ", "print ", "py ", "python ", "sh ", "shell ", "system ", "help ", "HELP ", "USING ", "LOAD ", "LOAD CSV FROM ", "IMPORT ", "RUN ", "READ ", "EXPORT ", "SAVE ", "MAKE ", "MAKE FROM ", "FIND ", "FIND IN ", "REPORT ", "REPORT INTO ", "REPORT TO ", "ADJUST ",
]


class Trap:
    """Whatever is done with it is seen."""

    def _seen(self, *_args, **_kwargs):
        _events.append("used the word wgtrap as a name")
        return self

    __call__ = __getitem__ = __add__ = __radd__ = __sub__ = __mul__ = __mod__ = __rmod__ = __lt__ = __gt__ = __or__ = __ror__ = __and__ = _seen
    __neg__ = __pos__ = __invert__ = __enter__ = __await__ = __contains__ = _seen

    def __bool__(self):
        self._seen()
        return True

    def __iter__(self):
        self._seen()
        return iter([])

    def __str__(self):
        self._seen()
        return TRAP

    __repr__ = __str__

    def __format__(self, _spec):
        return str(self)

    def __getattr__(self, name):
        if not name.startswith("__"):
            self._seen()
        raise AttributeError(name)


_events: list = []
_text = None
_own: set = set()
_folder = ""


def _words(code, found=None) -> set:
    found = set() if found is None else found
    found.update(code.co_names)
    for constant in code.co_consts:
        if isinstance(constant, str):
            found.add(constant)
        elif hasattr(constant, "co_names"):
            _words(constant, found)
    return found


def _hook(event, args):
    global _text
    text = _text
    if text is None:
        return
    if event == "exec":
        code = args[0]
        if str(code.co_filename).startswith("<") and not str(code.co_filename).startswith("<frozen") and any(TRAP in w for w in _words(code)):
            _events.append(f"executed code of {sorted(w for w in _words(code) if TRAP in w)}")
    elif event == "import":
        if TRAP in str(args[0]):
            _events.append(f"imported {args[0]}")
    elif event == "open":
        path = args[0]
        if isinstance(path, (str, bytes, os.PathLike)):
            path = os.path.realpath(os.fsdecode(path))
            if os.path.basename(path).startswith(("bait", "made", "passwd")):
                _events.append(f"opened {path}")
            elif path.startswith(_folder) and os.path.dirname(path) not in _own:
                _events.append(f"opened {path}")
    elif event in ("os.listdir", "os.scandir", "glob.glob", "os.chdir"):
        if args and args[0] and "bait" in str(args[0]):
            _events.append(f"{event} of {args[0]}")


def shard_init(scratch):
    import wiggleshell  # noqa: F401

    sut.preload()
    guard.give_up_privileges(scratch)
    builtins.wgtrap = Trap()
    sys.addaudithook(_hook)


def strategy(tier):
    fragment = st.sampled_from(FRAGMENTS)
    plain = st.sampled_from(["1", "'x'", "[1, 'a']", "true", "3.14", "null"])
    value = gen.weighted((4, fragment), (1, st.lists(gen.weighted((2, fragment), (1, plain)), min_size=1, max_size=3).map(lambda x: "[" + ", ".join(x) + "]")), (2, plain))
    # most of a query is well formed, so that the rest of it is reached
    name = gen.weighted((12, st.sampled_from(["a", "b", "name"])), (1, fragment))
    label = gen.weighted((12, st.sampled_from(["A", "B", "wgtrap"])), (1, fragment))
    handle = gen.weighted((12, st.sampled_from(["", "n", "wgtrap"])), (1, fragment))
    rel = gen.weighted((12, st.sampled_from(["R", "", "WGTRAP"])), (1, fragment))
    props = st.lists(st.tuples(name, value).map(lambda x: f"{x[0]}: {x[1]}"), max_size=2).map(lambda x: " {" + ", ".join(x) + "}" if x else "")
    node = st.builds("({}:{}{})".format, handle, label, props)
    arrow = st.builds("{}[:{}{}]{}".format, st.just("-"), rel, props, st.just("->"))
    pattern = st.builds(lambda first, rest: first + "".join(rest), node, gen.weighted((2, st.just([])), (1, st.tuples(arrow, node))))
    make = st.builds("{} {};".format, gen.weighted((15, st.just("MAKE")), (1, fragment)), gen.weighted((3, pattern), (1, st.builds("{}, {}".format, pattern, pattern))))
    find = st.builds("FIND {};".format, pattern)
    criteria = st.builds("CRITERIA n.a = {};".format, value)
    report = st.builds("REPORT {};".format, gen.weighted((2, st.sampled_from(["n", "wgtrap", "*", "n.a", "wn(n)"])), (1, fragment)))
    tail = gen.weighted((3, st.just([])), (1, st.tuples(find)), (1, st.tuples(find, criteria)), (1, st.tuples(find, report)), (1, st.tuples(find, criteria, report)))
    between = gen.weighted((14, st.just("\n")), (1, fragment.map(lambda x: f"\n{x}\n")), (1, fragment.map(lambda x: f" {x};\n")))
    text = st.builds(lambda makes, tail, sep: sep.join([*makes, *tail]), st.lists(make, max_size=2), tail, between)
    other = st.builds(lambda a, b: a + b, fragment, st.sampled_from(["", ";", "\n", " MAKE (:A);"]))
    edited = st.builds(lambda x, f, at: x[: at % (len(x) + 1)] + f + x[at % (len(x) + 1) :], text, fragment, st.integers(0, 400))
    command = st.builds(lambda a, b, c, d: a + c + b + c + d, st.sampled_from(COMMANDS), st.sampled_from(PATHS), st.sampled_from(["", "", "'", '"']), st.sampled_from(["", "", ";"]))
    by_call = st.lists(gen.weighted((6, text), (1, other), (1, edited), (1, command)), min_size=1, max_size=4)
    typed = st.lists(gen.weighted((4, text), (1, other), (1, edited), (5, command)), min_size=1, max_size=6)
    return gen.weighted(
        (3, st.fixed_dictionaries({"texts": by_call, "shell": st.just(False)})),
        (1, st.fixed_dictionaries({"texts": typed, "shell": st.just(True)})),
    )


def check_case(case, scratch):
    global _text, _own, _folder
    from wiggleshell import start_wiggle_shell

    from wiggle_shell import DBMS_FOLDER

    accepted = rejected = in_values = 0
    with sut.case_folder(scratch) as folder:
        (folder / "cwd").mkdir()
        for ending in ENDINGS:
            (folder / f"bait{ending}").write_text("wgtrap()\n")
            (folder / "cwd" / f"bait{ending}").write_text("wgtrap()\n")
        (folder / "cwd" / "wgtrap.py").write_text("import builtins\nbuiltins.wgtrap()\n")
        os.chdir(folder / "cwd")
        try:
            gdbms = None if case["shell"] else sut.new_dbms(folder / "dbms", "graph")
            texts = [t.replace("§", str(folder)) for t in case["texts"]]
            before = None
            for text in texts if gdbms else ["".join(" " if c in "\r\n" else c for c in t) for t in texts]:
                where = gdbms.database_file_path.parent if gdbms else DBMS_FOLDER / folder.name
                _own, _folder = {os.path.realpath(where)}, os.path.realpath(folder)
                before = sut.files_of(folder)
                _events.clear()
                with guard.contained(scratch) as escapes:
                    _text = text
                    try:
                        if gdbms:
                            outcome = sut.query(text, gdbms)
                        else:
                            with sut.typed_input(["n" if not where.exists() else "y", folder.name if not where.exists() else "A", text, "q"]):
                                outcome = sut.call(start_wiggle_shell)
                    finally:
                        _text = None
                if _events:
                    raise Violation(f"{text!r} {_events[0]}")
                if escapes:
                    raise Violation(f"{text!r} reached outside: {escapes[0]}")
                os.chdir(folder / "cwd")
                after = sut.files_of(folder)
                own = os.path.relpath(where, folder) + "/"
                changed = sorted(x for x in before.keys() | after.keys() if before.get(x) != after.get(x) and not x.startswith(own))
                if changed:
                    raise Violation(f"{text!r} changed {changed}")
                accepted += outcome.ok
                rejected += not outcome.ok
                in_values += ": " in text
        finally:
            os.chdir(scratch)
            if case["shell"]:
                import shutil

                shutil.rmtree(DBMS_FOLDER, ignore_errors=True)
    return {"nontrivial": accepted or in_values, "accepted": accepted, "rejected": rejected, "in_values": in_values}
