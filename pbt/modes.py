"""Worker processes that run calls on the package under other interpreter settings."""

import os
import pickle
import struct
import subprocess
import sys

sys.dont_write_bytecode = True
if __name__ == "__main__":
    sys.path[0] = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from pbt.engine import REPO, VERIF, Reject  # noqa: E402

# name, interpreter options, environment
MODES = (
    ("optimised, C locale", ["-OO", "-X", "utf8=0"], {"LC_ALL": "C", "PYTHONHASHSEED": "1", "COLUMNS": "40", "LINES": "5", "TERM": "dumb"}),
    ("bytes warnings and all warnings are errors, names of another platform", ["-bb", "-W", "error"], {"PYTHONHASHSEED": "4242", "COLUMNS": "200", "TERM": "xterm-256color", "FORCE_COLOR": "1", "DEBUG": "1", "VERIF_PRETEND": "platform"}),
    ("development mode, another time", ["-X", "dev"], {"PYTHONHASHSEED": "77", "LC_ALL": "C.UTF-8", "NO_COLOR": "1", "COLUMNS": "1", "HOME": "/nonexistent", "VERIF_PRETEND": "clock"}),
    ("asserts removed, other hash seed, unlimited int digits, every variable and option set", ["-O", "-X", "int_max_str_digits=0"], {"PYTHONHASHSEED": "31337", "TZ": "Asia/Tokyo", "VERIF_PRETEND": "environment"}),
)
_workers = {}


class Died(Exception):
    pass


def _start(i):
    name, options, env = MODES[i]
    full = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "COLUMNS"))}
    full.update(env, VERIF_REPO=REPO)
    return subprocess.Popen(
        [sys.executable, *options, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=full, cwd="/"
    )


def call(i, op, args):
    """The result of history.run(package, op, args) in mode i."""
    w = _workers.get(i)
    if w is None or w.poll() is not None:
        w = _workers[i] = _start(i)
    data = pickle.dumps((op, args))
    try:
        w.stdin.write(struct.pack(">I", len(data)) + data)
        w.stdin.flush()
        head = _read(w.stdout, 4)
        kind, value = pickle.loads(_read(w.stdout, struct.unpack(">I", head)[0]))
    except (Died, BrokenPipeError):
        w.kill()
        w.wait()
        del _workers[i]
        raise Died(MODES[i][0]) from None
    if kind == "unread":
        raise Reject("the arguments cannot be made in this mode")
    if kind == "error":
        raise AssertionError(value)
    return value


def _read(f, n):
    out = b""
    while len(out) < n:
        part = f.read(n - len(out))
        if not part:
            raise Died()
        out += part
    return out


def _serve():
    import traceback

    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)  # whatever the package prints does not disturb the protocol
    sys.path.insert(0, VERIF)
    from pbt import pretend

    kind = os.environ.pop("VERIF_PRETEND", None)
    if kind:
        pretend.KINDS[kind]()
    from checks import history
    from pbt import sut

    src = sys.stdin.buffer
    while True:
        try:
            head = _read(src, 4)
        except Died:
            return
        data = _read(src, struct.unpack(">I", head)[0])
        pretend.before_call(data)
        try:
            op, args = pickle.loads(data)
        except BytesWarning:  # a dict with bytes and text as keys
            op = None
        try:
            res = ("value", history.run(sut.iso8583, op, args)[0]) if op else ("unread", None)
        except BaseException:
            res = ("error", traceback.format_exc())
        data = pickle.dumps(res)
        out.write(struct.pack(">I", len(data)) + data)
        out.flush()


if __name__ == "__main__":
    try:
        _serve()
    finally:
        os._exit(0)
