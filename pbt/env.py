"""Where the code under test comes from, and the scratch folder everything happens in."""
import os
import sys
from pathlib import Path

REPO = os.environ.get("VERIF_REPO", "/repo")
HYPOTHESIS_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def add_hypothesis() -> None:
    # the plugin pydantic has for Hypothesis costs a second at every start
    os.environ["HYPOTHESIS_NO_PLUGINS"] = "1"
    if HYPOTHESIS_SITE not in sys.path:
        sys.path.append(HYPOTHESIS_SITE)


def load_sut(scratch: Path) -> None:
    """
    Imports the code under test from the working tree of REPO.

    Every path the code derives from its own root is moved to the scratch folder: the DBMS
    folder, the log file and the sample files. No bytecode of an earlier run is looked at.
    """
    import logging

    sys.dont_write_bytecode = True
    sys.pycache_prefix = str(scratch / "pyc")
    root = scratch / "root"
    for folder in ("wiggle_graph_logger", "dbms", "testing/test_gdbms"):
        (root / folder).mkdir(parents=True, exist_ok=True)

    # the entry point of the shell imports "core.*"
    for path in (os.path.join(REPO, "wiggle_shell"), REPO):
        if path in sys.path:
            sys.path.remove(path)
        sys.path.insert(0, path)

    import project_root

    if not str(project_root.__file__).startswith(REPO):
        raise RuntimeError(f"wrong project_root: {project_root.__file__}")
    project_root.get_project_root = lambda: root
    logging.disable(logging.CRITICAL)


def scratch_parent() -> str:
    return "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
