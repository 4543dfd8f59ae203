"""Scripts in the stub file system whose bodies are harness functions."""
import sys
import types

from symx.env import ENV

REGISTRY = {"user": "/vfs/home/.licant", "system": "/var/lib/licant"}


def put(path, text, mtime=1):
    ENV.vfs.dir(path.rsplit("/", 1)[0], parents=True)
    ENV.vfs.file(path, text, mtime=mtime)


def hook():
    cb = sys.modules.get("symx_callback")
    if cb is None:
        cb = sys.modules["symx_callback"] = types.ModuleType("symx_callback")
        cb.fs = []
    return cb.fs


def script(path, f):
    """a script that calls f"""
    fs = hook()
    fs.append(f)
    put(path, "import symx_callback\nsymx_callback.fs[%d]()\n" % (len(fs) - 1))


def run_in(L, d, f):
    """call f from a script in directory d"""
    p = "%s/from%d.py" % (d.rstrip("/"), len(hook()))
    script(p, f)
    L.execute(p)
