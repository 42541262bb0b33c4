"""Pristine executions: forked children of a process that has imported pycaption and done nothing else, and fresh interpreters."""
import enum
import gc
import os
import pickle
import signal
import subprocess
import sys
import traceback

from mc.core import REPO, ROOT


def isolated(fn, *args, seconds=30):
    """fn(*args) in a forked child; its result (pickled) or an ('exception', text) pair is returned"""
    gc.freeze()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            gc.disable()
            signal.alarm(seconds)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except BaseException:
                out = ("exception", traceback.format_exc(limit=-6))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return "exception", "the child died"
    return pickle.loads(data)


def interpreter(module, func, args, hashseed, seconds=300, env=None):
    """module.func(*args) in a fresh interpreter with the given hash seed"""
    code = ("import sys, pickle, importlib, warnings; warnings.simplefilter('ignore'); sys.path[:0] = [%r, %r]\n"
            "m = importlib.import_module(%r)\n"
            "out = getattr(m, %r)(*pickle.loads(sys.stdin.buffer.read()))\n"
            "sys.stdout.buffer.write(pickle.dumps(out))\n") % (REPO, ROOT, module, func)
    env = {k: v for k, v in dict(os.environ, PYTHONHASHSEED=str(hashseed), **(env or {})).items() if v is not None}
    p = subprocess.run([sys.executable, "-c", code], input=pickle.dumps(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=env, timeout=seconds, cwd=REPO)
    if p.returncode:
        raise RuntimeError(p.stderr.decode()[-3000:])
    return pickle.loads(p.stdout)


# what a user can see of the values; private attributes (memos, counters) are not part of a value
PUBLIC = {
    "Caption": ("start", "end", "nodes", "style", "layout_info"),
    "CaptionNode": ("type_", "content", "layout_info", "start", "position"),
    "Layout": ("origin", "extent", "padding", "alignment", "webvtt_positioning"),
    "Point": ("x", "y"),
    "Stretch": ("horizontal", "vertical"),
    "Padding": ("before", "after", "start", "end"),
    "Alignment": ("horizontal", "vertical"),
    "Size": ("value", "unit"),
}


def attributes(x):
    cls = type(x).__name__
    names = {k for k in getattr(x, "__dict__", {}) if not k.startswith("_")} | set(PUBLIC.get(cls, ()))
    return [(k, getattr(x, k, None)) for k in sorted(names)]


def dump(x, depth=0):
    """complete plain-data form of a caption set (or any of its parts)"""
    if x is None or isinstance(x, (str, int, float, bool)):
        return (type(x).__name__, x) if not isinstance(x, str) else x
    if isinstance(x, enum.Enum):
        return str(x)
    if depth > 14:
        return "..."
    if isinstance(x, dict):
        return ("dict", tuple((dump(k), dump(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        extra = tuple((k, dump(v, depth + 1)) for k, v in attributes(x))
        return (type(x).__name__, tuple(dump(v, depth + 1) for v in x)) + (extra,)
    if hasattr(x, "get_languages"):
        return (type(x).__name__, tuple((l, dump(x.get_captions(l), depth + 1)) for l in x.get_languages()),
                dump(x.get_styles(), depth + 1)) + tuple((k, dump(v, depth + 1)) for k, v in attributes(x))
    if hasattr(x, "__dict__"):
        return (type(x).__name__, tuple((k, dump(v, depth + 1)) for k, v in attributes(x)))
    return repr(x)


def diff(a, b, path=""):
    """first difference of two dumps"""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + "/" + (str(x[0]) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(i)))
            if d:
                return d
    return "%s: %.300r -> %.300r" % (path, a, b)


def _share(fn, args):
    return [isolated(fn, *a) for a in args]


def isolated_map(fn, args, procs=8):
    """[isolated(fn, *a) for a in args], in several helper processes"""
    args = list(args)
    kids = []
    gc.freeze()
    for k in range(procs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                gc.disable()
                os.close(r)
                with os.fdopen(w, "wb") as f:
                    pickle.dump(_share(fn, args[k::procs]), f)
            finally:
                os._exit(0)
        os.close(w)
        kids.append((pid, r))
    out = [None] * len(args)
    for k, (pid, r) in enumerate(kids):
        with os.fdopen(r, "rb") as f:
            res = pickle.load(f)
        os.waitpid(pid, 0)
        out[k::procs] = res
    return out
