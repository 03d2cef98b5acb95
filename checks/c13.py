"""No DBMS name reaches outside the DBMS folder."""
import os
import shutil

from hypothesis import strategies as st

from pbt import dictionary, gen, guard, sut
from pbt.violation import Violation

PROPERTY = "C13"
LEVEL = "exploration"
EXAMPLES = {"quick": 9600, "thorough": 120000}
RULE = (
    "1-7 operations (create, create one of the three files, create at the prompt, delete) with names that are empty, "
    "absolute, dot segments, hold separators, variables or ~, NUL or lone surrogates, lead to the folders and DBMSs that surround the DBMS "
    "folder, or are plain, on a tree with other DBMSs inside and beside the DBMS folder. The whole tree is compared after each "
    "operation, also where a name is too long for its files and the creation is refused; an unprivileged process with an audit hook refuses and reports whatever reaches outside the tree. "
    "Non-trivial: a name that is not plain was refused."
)
ASSUMPTIONS = ["the DBMS folder holds no symbolic links", "files are changed by Python's own calls, which the audit hook sees"]

# § stands for the absolute path of the tree of the case
PLAIN = ["a", "a", "a", "a", "a", "b", "b", "b", "b", "new", "new", "new", "fresh one", "a.b", "...", ".a", "a\\b", "..\\b", "*", "x" * 237, "x" * 238, "x" * 256, "x" * 5000, "é" * 118, "é" * 119, "名" * 79, "名" * 80, "😀" * 60, "a" + "é" * 120, "é" * 127, "x" * 245, "é" * 128, "\ud800", "a\udcff", "a\nb", "~", "~", "~root", "$HOME", "${HOME}", "$PWD", " ..", ".. ", " . ", "\n..", "..\n", " a", "a ", "\t.", "C:", "-rf", "é", "\u2215", "a\u2044b", "．．", "%2e%2e", "..%2f", " ", "\t"]
ODD = [
    "", ".", "..", "/", "//", "./", "../", "/.", "/..", "a/", "/a", "a/..", "a/.", "./a", "../a", "a/b", "a/nested", "a//", "new/", "new/..", "new/../b", "new/.", "./new",
    "..//", "../victim", "../dbms", "../dbms/a", "../dbms/new", "../..", "../../..", "../../victim", "../../../../../../../../../../../../tmp/wg_escape", "/tmp/wg_escape", "§", "§/", "§/outer", "§/outer/victim",
    "§/outer/dbms", "§/outer/dbms/a", "§/outer/dbms/new", "§/cwd", "§/made", "§/outer/made", "§/outer/dbms/../victim", "\0", "a\0", "a\0b", "\0a", "new\0", "../victim\0", "a/../../victim", "a/../b", "a/nested/..", "a/nested/../../../victim", ".//", "././", "./..",
    "../cwd", "../../cwd", "victim/..", "\n/..", " /..", "~/x", "C:/x", "a/" * 3, "x" * 300 + "/..", "/proc/self/cwd/made", "/dev/shm/wg_escape", "/etc/wg_escape",
]


def strategy(tier):
    segments = gen.weighted((3, st.sampled_from(["..", ".", "", "a", "b", "new", "victim", "dbms", "nested", "outer", "cwd"])), (1, gen.text("ab.~\\ \0é", max_size=4)))
    joined = st.builds(lambda first, parts: first + "/".join(parts), st.sampled_from(["", "", "/", "§/", "//"]), st.lists(segments, min_size=1, max_size=5))
    loose = gen.text("./ab\0\\~\n é", max_size=8)
    names = gen.weighted((3, st.sampled_from(ODD)), (2, joined), (1, loose), (1, st.sampled_from(PLAIN)), (2, st.sampled_from(["a", "b", "new"])))
    names = gen.hinted(names, [x for n in gen.HINTED_NAMES for x in (n, f"../{n}", f"{n}/../../victim", f"a/{n}", f"../victim{n}", f"{n}..", f"..{n}")], ["a/" * n + "../" * (n + 1) + "victim" for n in dictionary.sizes(300, 1)])
    operation = gen.weighted(
        (8, st.tuples(gen.weighted((4, st.just("create")), (4, st.just("delete")), (1, st.just("prompt")), (1, st.sampled_from(["database", "indexes", "number"]))), names).map(list)),
        (1, st.tuples(st.just("delete"), st.sampled_from(["a", "b", "new"])).map(list)),
        (1, st.tuples(st.just("create"), st.sampled_from(PLAIN)).map(list)),
    )
    return st.fixed_dictionaries(
        {
            "where": st.sampled_from(["given", "given", "given", "absent", "default"]),
            "existing": st.lists(st.sampled_from(["a", "b"]), unique=True, max_size=2),
            "nested": st.booleans(),
            "stray": st.booleans(),
            "ops": st.lists(operation, min_size=1, max_size=7),
        }
    )


_tree = None


def shard_init(scratch):
    global _tree
    sut.preload()
    _tree = scratch
    guard.give_up_privileges(scratch)


def is_plain(name: str) -> bool:
    return name not in ("", ".", "..") and "/" not in name and "\0" not in name


def lay_dbms(folder, name) -> None:
    folder.mkdir(parents=True)
    (folder / f"database_{name}.json").write_text("{}")
    (folder / f"indexes_{name}.json").write_text('{"node_relationships": {}, "node_labels": [], "relationship_names": []}')
    (folder / f"wiggle_number_{name}.txt").write_text("0")


def lay_out(case, base):
    """The tree: a DBMS folder, and folders and files beside and above it that look like DBMSs."""
    from wiggle_shell import DBMS_FOLDER

    outer = base / "outer"
    (base / "cwd").mkdir(parents=True)
    # where a name that is expanded would lead
    for variable in ("HOME", "PWD", "OLDPWD", "TMPDIR"):
        os.environ[variable] = str(base / variable.lower())
        (base / variable.lower()).mkdir()
    (base / "cwd" / "file").write_text("cwd")
    for name in ("a", "new"):
        lay_dbms(base / "cwd" / name, name)
    lay_dbms(outer / "victim", "victim")
    lay_dbms(base / "victim", "victim")
    for folder in (base, outer):
        (folder / "database_.json").write_text("{}")
        (folder / "file").write_text("here")
    shutil.rmtree(DBMS_FOLDER, ignore_errors=True)
    where = DBMS_FOLDER if case["where"] == "default" else outer / "dbms"
    if case["where"] != "absent":
        where.mkdir()
        if case["stray"]:
            (where / "file").write_text("dbms")
        for name in case["existing"]:
            lay_dbms(where / name, name)
        if case["nested"] and case["existing"]:
            lay_dbms(where / case["existing"][0] / "nested", "nested")
    os.chdir(base / "cwd")
    return where


def check_case(case, scratch):
    from wiggle_shell import core  # noqa: F401
    from wiggle_shell.core import select_gdbms as api

    refused = created = deleted = 0
    calls = {
        "create": api.get_new_gdbms_file_paths,
        "database": api.create_new_database,
        "indexes": api.create_new_indexes_file,
        "number": api.create_new_wiggle_number_file,
        "delete": api.delete_gdbms,
    }
    tree = _tree or scratch
    with sut.case_folder(scratch) as base:
        try:
            where = lay_out(case, base)
            before = sut.files_of(tree)
            # the names of the paths in what files_of finds
            below = os.path.relpath(where, tree)
            for operation, written in case["ops"]:
                name = written.replace("§", str(base))
                what = f"{operation} with the name {written[:200]!r}"
                with guard.contained(tree) as escapes:
                    if operation == "prompt":
                        with sut.typed_input([name]):
                            outcome = sut.call(api.create_new_dbms, where)
                        went_on = not outcome.ok
                    else:
                        outcome = sut.call(calls[operation], name, where)
                        went_on = not outcome.ok
                if escapes:
                    raise Violation(f"{what} reached outside: {escapes[0][0]} of {escapes[0][1]}")
                os.chdir(base / "cwd") if (base / "cwd").exists() else None
                after = sut.files_of(tree)
                changed = sorted(x for x in set(before) | set(after) if before.get(x) != after.get(x))
                if is_plain(name):
                    own = os.path.join(below, name)
                    strays = [x for x in changed if x != own and not x.startswith(own + "/")]
                    if where != base and below not in before:
                        # the DBMS folder itself, when this was the first
                        strays = [x for x in strays if x != below]
                    if strays:
                        raise Violation(f"{what} changed {strays}")
                    if changed and not outcome.ok and operation == "create":
                        raise Violation(f"{what} was refused with {outcome.why()[:300]} and changed {[x[:200] for x in changed]}")
                    created += outcome.ok and operation != "delete"
                    deleted += outcome.ok and operation == "delete"
                else:
                    if not went_on:
                        raise Violation(f"{what} was not refused")
                    if changed:
                        raise Violation(f"{what} was refused with {outcome.why()} and changed {changed}")
                    refused += 1
                before = after
        finally:
            os.chdir(scratch)
    return {"nontrivial": refused, "refused": refused, "created": created, "deleted": deleted}
