"""
Keeps the effects of the code under test inside one folder: an audit hook sees every call of
Python that changes files or starts a program, and refuses those that reach outside.
"""
import os
import sys

WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND

# event -> the positions of its paths and, after each, of the folder descriptor (or None)
PATH_EVENTS = {
    "os.mkdir": [(0, 2)],
    "os.remove": [(0, 1)],
    "os.rmdir": [(0, 1)],
    "os.rename": [(0, 2), (1, 3)],
    "os.link": [(0, 2), (1, 3)],
    "os.symlink": [(1, 2)],
    "os.truncate": [(0, None)],
    "os.chmod": [(0, 2)],
    "os.chown": [(0, 3)],
    "os.utime": [(0, 3)],
    "os.setxattr": [(0, None)],
    "os.removexattr": [(0, None)],
    "shutil.rmtree": [(0, None)],
    "shutil.move": [(0, None), (1, None)],
    "shutil.copyfile": [(1, None)],
    "shutil.copytree": [(1, None)],
    "shutil.make_archive": [(0, None)],
    "shutil.unpack_archive": [(1, None)],
    "sqlite3.connect": [(0, None)],
}
NEVER = {"os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.startfile", "subprocess.Popen", "os.kill", "os.killpg", "socket.connect", "ctypes.dlopen", "pty.spawn"}

_inside = None
_escapes: list = []
_busy = False
_installed = False


def _where(path, folder_descriptor) -> str:
    path = os.fsdecode(path)
    if not os.path.isabs(path):
        base = os.getcwd()
        if isinstance(folder_descriptor, int) and folder_descriptor >= 0:
            base = os.readlink(f"/proc/self/fd/{folder_descriptor}")
        path = os.path.join(base, path)
    parent, name = os.path.split(path.rstrip("/") or "/")
    return os.path.normpath(os.path.join(os.path.realpath(parent), name))


def _reaches_outside(path, folder_descriptor) -> bool:
    if isinstance(path, int) or path is None:
        return False  # an open file, which was judged when it was opened
    try:
        if "\0" in os.fsdecode(path):
            return False
        where = _where(path, folder_descriptor)
    except (OSError, ValueError, TypeError):
        return False  # such a path can not be used
    return where != "/dev/null" and not (where + "/").startswith(_inside + "/")


def _hook(event, args):
    global _busy
    if _inside is None or _busy:
        return
    if event in NEVER:
        _escapes.append((event, repr(args)[:300]))
        raise PermissionError(f"{event} is not allowed here")
    if event == "open":
        if not isinstance(args[2], int) or not args[2] & WRITE_FLAGS:
            return
        positions = [(0, None)]
    elif event in PATH_EVENTS:
        positions = PATH_EVENTS[event]
    else:
        return
    _busy = True
    try:
        for at, descriptor in positions:
            folder = args[descriptor] if descriptor is not None and descriptor < len(args) else None
            if _reaches_outside(args[at], folder):
                _escapes.append((event, repr(args[at])[:300]))
                raise PermissionError(f"{event} of {args[at]!r} reaches outside of {_inside}")
    finally:
        _busy = False


class contained:
    """with contained(folder) as escapes: what reaches outside of the folder is refused and listed."""

    def __init__(self, folder) -> None:
        self.folder = os.path.realpath(folder)

    def __enter__(self) -> list:
        global _inside, _installed
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        _escapes.clear()
        _inside = self.folder
        return _escapes

    def __exit__(self, *_exc) -> None:
        global _inside
        _inside = None


def give_up_privileges(folder) -> bool:
    """This process becomes an unprivileged user that owns nothing but the folder."""
    try:
        for parent, folders, files in os.walk(folder):
            for name in [parent, *(os.path.join(parent, x) for x in files)]:
                os.chown(name, 65534, 65534, follow_symlinks=False)
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
        return True
    except OSError:
        return False
