"""setup_cmd: nothing is built ahead of the checks; says early when a tool they need is missing."""
import shutil
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from pbt import env  # noqa: E402

env.add_hypothesis()
import hypothesis  # noqa: E402

if not shutil.which("gcc"):
    sys.exit("gcc is missing, C18, C27, C30 and C31 need it")
print("hypothesis", hypothesis.__version__, "python", sys.version.split()[0])
