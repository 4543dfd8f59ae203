"""The environment of the code under test: file system, processes, thread pool and event loop, command line.

Everything here is a stub whose outcomes are symbolic variables (existence, modification times, exit
statuses, output sizes, completion order).  The same stubs serve the concrete replay.
"""
import asyncio
import asyncio.base_events
import builtins
import errno
import io
import os
import posixpath
import stat as stat_m
import subprocess
import sys
import types

from . import instrument
from . import strings as S
from .engine import E, SymBool, SymNum

REPO = os.environ.get("VERIF_REPO", "/repo")
REALOS = {n: getattr(os, n) for n in ("stat", "lstat", "open", "close", "listdir", "scandir", "getcwd", "mkdir")}
REALOPEN = builtins.open


# ------------------------------------------------------------------------------------------ file system
class Node:
    __slots__ = ("kind", "exists", "mtime", "content", "target", "locked")

    def __init__(self, kind, exists=True, mtime=1, content="", target=None):
        self.kind, self.exists, self.mtime, self.content, self.target = kind, exists, mtime, content, target
        self.locked = False


class VStat:
    def __init__(self, n):
        fm = {"f": stat_m.S_IFREG | 0o644, "d": stat_m.S_IFDIR | 0o755, "l": stat_m.S_IFLNK | 0o777}
        self.st_mode = fm[n.kind]
        self.st_mtime = n.mtime
        # the other times tell nothing about the content
        self.st_atime = self.st_ctime = self.st_birthtime = 86400
        self._n = n
        self.st_size = len(n.content) if isinstance(n.content, (str, bytes)) else 1
        self.st_uid = self.st_gid = 0
        self.st_nlink = 1
        self.st_atime_ns = self.st_ctime_ns = 86400 * 10 ** 9
        self.st_dev = 1
        self.st_ino = id(n)

    @property
    def st_mtime_ns(self):
        m = self.st_mtime
        if isinstance(m, SymNum):
            import z3
            e = m.e * 1000000000
            return SymNum(z3.ToInt(e) if z3.is_real(e) else e)
        return int(m * 1000000000)

    def __getitem__(self, i):
        return {0: self.st_mode, 6: self.st_size, 8: self.st_mtime}[i]


def _enoent(p, e=errno.ENOENT):
    return {errno.ENOENT: FileNotFoundError, errno.EEXIST: FileExistsError, errno.ENOTDIR: NotADirectoryError,
            errno.EISDIR: IsADirectoryError, errno.EACCES: PermissionError}.get(e, OSError)(e, os.strerror(e), p)


class VFS:
    def __init__(self):
        self.fds = {}
        self.nodes = {}
        self.cwd = "/vfs/w"
        self.clock = 100
        self.log = []
        self.tick = None
        self.fault = None
        for d in ("/", "/vfs", "/vfs/w", "/vfs/home", "/usr", "/usr/bin", "/usr/lib", "/usr/local", "/var", "/var/lib", "/tmp"):
            self.nodes[d] = Node("d")
        self.nodes["/vfs/w/make.py"] = Node("f")

    # ---- harness interface (canonical paths)
    def file(self, path, content="", exists=True, mtime=1):
        n = Node("f", exists, mtime, content)
        self.nodes[self.canon(path)] = n
        return n

    def dir(self, path, exists=True, parents=False):
        path = self.canon(path)
        if parents:
            p = posixpath.dirname(path)
            while p not in self.nodes:
                self.nodes[p] = Node("d")
                p = posixpath.dirname(p)
        n = Node("d", exists)
        self.nodes[path] = n
        return n

    def link(self, path, target):
        self.nodes[self.canon(path)] = Node("l", True, 1, "", target)

    def canon(self, path):
        return path if path.startswith("/") else self.cwd + "/" + path

    def now(self):
        if self.tick is not None:
            self.clock = self.clock + self.tick()
        else:
            self.clock = self.clock + 1
        return self.clock

    def is_there(self, n):
        if n is None:
            return False
        ex = n.exists
        if ex is True or ex is False:
            return ex
        ex = bool(ex)
        n.exists = ex
        return ex

    def get(self, path):
        return self.nodes.get(self.canon(path))

    # ---- lookup
    def find(self, path):
        """node registered under a normalised absolute path"""
        n = self.nodes.get(path)
        if n is not None or E.ntok == 0:
            return n
        t = S.has_tok(path)
        for p in self.nodes:
            if len(p) == len(path) and (t or S.has_tok(p)) and S.s_eq(p, path):
                return self.nodes[p]
        return None

    def norm(self, path, follow=True, depth=0):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if "\0" in path:
            raise ValueError("embedded null byte")
        if path == "":
            raise _enoent(path)
        if not S.sub_at(path, "/", 0):
            path = self.cwd + "/" + path
        parts = S.m_split(path, "/") if S.has_tok(path) else path.split("/")
        cur = "/"
        for i, c in enumerate(parts):
            if c == "" or S.s_eq(c, "."):
                continue
            if S.s_eq(c, ".."):
                cur = posixpath.dirname(cur)
                continue
            if i and cur != "/":
                pn = self.find(cur)
                if pn is not None and pn.kind == "f" and self.is_there(pn):
                    raise _enoent(path, errno.ENOTDIR)
            nxt = cur + c if cur == "/" else cur + "/" + c
            n = self.find(nxt)
            if n is not None and n.kind == "l" and (follow or any(parts[i + 1:])):
                if depth > 20:
                    raise OSError(errno.ELOOP, "loop", path)
                t = n.target
                if not t.startswith("/"):
                    t = cur + "/" + t
                nxt = self.norm(t, True, depth + 1)
            cur = nxt
        return cur

    def node(self, path, follow=True):
        p = self.norm(path, follow)
        n = self.find(p)
        if not self.is_there(n):
            raise _enoent(path)
        return p, n

    def touch_parent(self, p):
        n = self.find(posixpath.dirname(p))
        if n is not None:
            n.mtime = self.clock

    def need_parent(self, p, path):
        n = self.find(posixpath.dirname(p))
        if not self.is_there(n):
            raise _enoent(path)
        if n.kind != "d":
            raise _enoent(path, errno.ENOTDIR)

    # ---- system calls
    def op(self, name, *a):
        self.log.append((name,) + a)
        if self.fault is not None:
            self.fault(name, *a)

    def stat(self, path, *, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return VStat(Node("f"))
        return VStat(self.node(path, follow_symlinks)[1])

    def lstat(self, path, *, dir_fd=None):
        return VStat(self.node(path, False)[1])

    def mkdir(self, path, mode=0o777, *, dir_fd=None):
        p = self.norm(path, False)          # a link at the place counts as existing, wherever it leads
        self.op("mkdir", p)
        n = self.find(p)
        if self.is_there(n):
            raise _enoent(path, errno.EEXIST)
        self.need_parent(p, path)
        self.nodes[p] = Node("d", True, self.now())
        self.touch_parent(p)

    def rmdir(self, path, *, dir_fd=None):
        p, n = self.node(path, False)
        self.op("rmdir", p)
        if n.kind != "d":
            raise _enoent(path, errno.ENOTDIR)
        if self.children(p):
            raise OSError(errno.ENOTEMPTY, "not empty", path)
        n.exists = False

    def remove(self, path, *, dir_fd=None):
        p, n = self.node(path, False)
        self.op("remove", p)
        if n.kind == "d":
            raise _enoent(path, errno.EISDIR)
        n.exists = False
        self.now()
        self.touch_parent(p)

    def rename(self, a, b, *, src_dir_fd=None, dst_dir_fd=None):
        p, n = self.node(a, False)
        q = self.norm(b, False)
        self.op("rename", p, q)
        self.need_parent(q, b)
        o = self.find(q)
        if o is not None and self.is_there(o) and o.kind == "d" and n.kind != "d":
            raise _enoent(b, errno.EISDIR)
        new = Node(n.kind, True, n.mtime, n.content, n.target)
        n.exists = False
        self.nodes[q] = new
        self.now()
        self.touch_parent(p)
        self.touch_parent(q)

    def children(self, p):
        pre = p if p == "/" else p + "/"
        out = []
        for q, n in list(self.nodes.items()):
            if q != p and S.m_startswith(q, pre) and S.find(q[len(pre):], "/") < 0 and self.is_there(n):
                out.append(q)
        return sorted(out)

    def listdir(self, path="."):
        p, n = self.node(path)
        if n.kind != "d":
            raise _enoent(path, errno.ENOTDIR)
        return [posixpath.basename(q) for q in self.children(p)]

    def scandir(self, path="."):
        names = self.listdir(path)
        return _Scan(self, os.fspath(path), names)

    def access(self, path, mode, **kw):
        try:
            self.node(path)
            return True
        except OSError:
            return False

    def utime(self, path, times=None, *, ns=None, **kw):
        p, n = self.node(path)
        self.op("utime", p)
        n.mtime = self.now() if times is None and ns is None else (times[1] if times else ns[1] / 1e9)

    def symlink(self, src, dst, target_is_directory=False, **kw):
        q = self.norm(dst, False)
        self.op("symlink", q, src)
        if self.is_there(self.find(q)):
            raise _enoent(dst, errno.EEXIST)
        self.need_parent(q, dst)
        self.nodes[q] = Node("l", True, self.now(), "", src)

    def readlink(self, path, *, dir_fd=None):
        p, n = self.node(path, False)
        if n.kind != "l":
            raise OSError(errno.EINVAL, "invalid", path)
        return n.target

    def getcwd(self):
        return self.cwd

    def chdir(self, path):
        p, n = self.node(path)
        self.op("chdir", p)
        self.cwd = p

    def chmod(self, path, mode, **kw):
        self.node(path)

    def realpath(self, path, *, strict=False):
        path = os.fspath(path)
        if strict:
            return self.node(path)[0]
        try:
            return self.norm(path) if path != "" else self.cwd
        except OSError:
            return posixpath.normpath(self.canon(path))

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if opener is not None and not isinstance(file, int):
            file = opener(file, {"r": 0, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC, "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                                 "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}[mode[0]] | (os.O_RDWR if "+" in mode else 0))
        if isinstance(file, int):
            if file in self.fds:
                f = self.fds[file]
                f.bin = "b" in mode
                return f
            return REALOPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        p = self.norm(file)
        n = self.find(p)
        ok = self.is_there(n)
        if ok and n.kind == "d":
            raise _enoent(file, errno.EISDIR)
        if "r" in mode:
            if not ok:
                raise _enoent(file)
        elif "x" in mode:
            if ok:
                raise _enoent(file, errno.EEXIST)
        if "r" not in mode or "+" in mode:
            self.op("open", p, mode)
        if "r" not in mode and not ok:
            self.need_parent(p, file)
            n = Node("f", True, self.now(), "")
            self.nodes[p] = n
            self.touch_parent(p)
        elif "w" in mode:
            n.content = ""
            n.mtime = self.now()
        return VFile(self, p, n, mode, file, encoding, errors)

    # ---- descriptors
    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        acc = flags & os.O_ACCMODE
        try:
            there = self.is_there(self.node(path)[1])
        except FileNotFoundError:
            there = False
        if flags & os.O_CREAT and flags & os.O_EXCL and there:
            raise _enoent(path, errno.EEXIST)
        if not there and not flags & os.O_CREAT:
            raise _enoent(path)
        m = "rb" if acc == os.O_RDONLY and there else "ab" if flags & os.O_APPEND else \
            "wb" if not there or flags & os.O_TRUNC else "r+b"
        f = self.open(path, m)
        f.fd = 1000 + len(self.fds)
        self.fds[f.fd] = f
        return f.fd

    def fd(self, n):
        f = self.fds.get(n)
        if f is None or f.closed:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        return f

    # ---- effects of commands
    def write(self, path, content=""):
        p = self.norm(path)
        n = self.find(p)
        self.op("write", p)
        if n is not None and self.is_there(n):
            if n.kind == "d":
                raise _enoent(path, errno.EISDIR)
            n.content, n.mtime = content, self.now()
        else:
            self.need_parent(p, path)
            self.nodes[p] = Node("f", True, self.now(), content)
            self.touch_parent(p)

    def read(self, path):
        return self.node(path)[1].content

    def exists(self, path):
        try:
            self.node(path)
            return True
        except OSError:
            return False


class _Entry:
    def __init__(self, vfs, base, name):
        self.vfs, self.name = vfs, name
        self.path = posixpath.join(base, name)

    def _k(self, follow):
        try:
            return self.vfs.node(self.path, follow)[1].kind
        except OSError:
            return None

    def is_dir(self, *, follow_symlinks=True):
        return self._k(follow_symlinks) == "d"

    def is_file(self, *, follow_symlinks=True):
        return self._k(follow_symlinks) == "f"

    def is_symlink(self):
        return self._k(False) == "l"

    def is_junction(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return self.vfs.stat(self.path, follow_symlinks=follow_symlinks)

    def inode(self):
        return 1

    def __fspath__(self):
        return self.path


class _Scan:
    def __init__(self, vfs, base, names):
        self.it = iter([_Entry(vfs, base, n) for n in names])

    def __iter__(self):
        return self.it

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def recode(s, encoding, errors, out=False):
    """text of a file in UTF-8 as read (or written) with another encoding; symbolic characters are ASCII"""
    if encoding is None or not isinstance(s, str) or encoding.lower().replace("_", "-") in ("utf-8", "utf8", "locale"):
        return s
    if not S.has_tok(s) and s.isascii():
        return s
    res, run = "", ""
    for c in list(s) + [None]:
        if c is not None and not S.is_tok(c):
            run += c
            continue
        if run:
            res += run.encode(encoding, errors or "strict").decode("utf-8", "replace") if out else run.encode("utf-8").decode(encoding, errors or "strict")
            run = ""
        if c is not None:
            res += c
    return res


class VFile:
    def __init__(self, vfs, path, node, mode, name, encoding=None, errors=None):
        self.vfs, self.path, self.node, self.mode, self.name = vfs, path, node, mode, name
        self.bin = "b" in mode
        self.closed = False
        self.fd = None
        self.pos = 0
        c = node.content
        if callable(c):
            c = c()
        self.codec = None if self.bin else encoding, errors
        self.buf = recode(c, *self.codec)
        if "a" in mode:
            self.pos = len(c)
        self.dirty = False
        self.encoding = "utf-8"

    def _out(self, s):
        if self.bin:
            return s.encode("utf-8") if not S.has_tok(s) else S.SymText(s)
        return s

    def read(self, n=-1):
        if isinstance(self.buf, Exception):
            raise self.buf
        s = self.buf[self.pos:] if n is None or n < 0 else self.buf[self.pos:self.pos + n]
        self.pos += len(s)
        return self._out(s)

    def readline(self, n=-1):
        i = S.find(self.buf, "\n", self.pos)
        e = len(self.buf) if i < 0 else i + 1
        s = self.buf[self.pos:e]
        self.pos = e
        return self._out(s)

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        s = self.readline()
        if not s:
            raise StopIteration
        return s

    def write(self, s):
        if isinstance(s, S.SymText):
            s = s.s
        if isinstance(s, (bytes, bytearray, memoryview)):
            s = bytes(s).decode("utf-8", "surrogateescape")
        elif not self.bin:
            s = recode(s, *self.codec, out=True)
        self.buf = self.buf[:self.pos] + s + self.buf[self.pos + len(s):]
        self.pos += len(s)
        self.dirty = True
        return len(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def truncate(self, n=None):
        self.buf = self.buf[:self.pos if n is None else n]
        self.dirty = True

    def seek(self, n, w=0):
        self.pos = n if w == 0 else (len(self.buf) if w == 2 else self.pos + n)
        return self.pos

    def tell(self):
        return self.pos

    def flush(self):
        if self.dirty:
            self.vfs.op("flush", self.path)
            self.node.content = self.buf
            self.node.mtime = self.vfs.now()
            self.dirty = False

    def close(self):
        if not self.closed:
            self.flush()
            self.closed = True

    def __del__(self):
        # CPython closes a file that is no longer referenced
        try:
            self.close()
        except Exception:
            pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def fileno(self):
        if self.fd is None:
            self.fd = 1000 + len(self.vfs.fds)
            self.vfs.fds[self.fd] = self
        return self.fd

    def readinto(self, b):
        raise io.UnsupportedOperation("readinto")

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def isatty(self):
        return False


# ------------------------------------------------------------------------------------------ processes
PIPE_CAP = 65536


class SymBytes(bytes):
    """Output of a command: symbolic length, symbolic validity as UTF-8, an identifying text.

    Its bytes are those of the text; whether there are any, and whether they are valid, is decided when asked for."""

    def __new__(cls, text, size=None, valid=True):
        b = bytes.__new__(cls, text.encode("utf-8", "surrogatepass"))
        b.text, b.size, b.valid = text, size if size is not None else len(text), valid
        return b

    def real(self):
        """as plain bytes"""
        if not self.size != 0:
            return b""
        return self.text.encode("utf-8", "surrogatepass") + (b"" if self.valid else b"\xff")

    def __len__(self):
        return int(self.size) if not isinstance(self.size, SymNum) else 1

    def __bool__(self):
        return bool(self.size != 0)

    def decode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("_", "-") in ("latin-1", "latin1", "iso-8859-1"):
            return self.text
        if errors == "strict" and not self.valid:
            raise UnicodeDecodeError(encoding, b"\xff", 0, 1, "invalid start byte")
        return self.text

    def __hash__(self):
        return hash(self.real())


def _real(name):
    def f(self, *a, **k):
        return getattr(self.real(), name)(*[x.real() if isinstance(x, SymBytes) else x for x in a], **k)
    f.__name__ = name
    return f


for _n in dir(bytes):
    if _n not in vars(SymBytes) and _n not in dir(object) or _n in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__repr__", "__str__"):
        setattr(SymBytes, _n, _real(_n))


class Proc:
    """What a command does: exit status, output, effect when it runs."""

    def __init__(self, rc=0, out=None, err=None, effect=None):
        self.rc, self.effect = rc, effect
        self.out = out if out is not None else SymBytes("", 0)
        self.err = err if err is not None else SymBytes("", 0)


class _Pipe:
    def __init__(self, popen, which):
        self.p, self.which = popen, which
        self.closed = False
        self.done = False

    def read(self, n=-1):
        if self.done:
            return "" if self.p.text else b""
        self.p._drained(self.which)
        self.p._exit_needed(exclude=self.which)
        self.done = True
        return self.p._data(self.which)

    def readline(self, n=-1):
        return self.read()

    def readlines(self):
        r = self.read()
        return [r] if r else []

    def __iter__(self):
        return iter(self.readlines())

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


class FakePopen:
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None,
                 creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, user=None,
                 group=None, extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1,
                 process_group=None):
        self.args = args
        self.text = bool(text or universal_newlines or encoding or errors)
        self.encoding = encoding or "utf-8"
        self.errors = errors or "strict"
        self.returncode = None
        self.pid = 4242
        # a plain string without a shell is the name of a program, a list is an argument vector
        if isinstance(args, (list, tuple)) and not shell:
            self.cmd = [os.fspath(a) for a in args]
        elif isinstance(args, (list, tuple)):
            self.cmd = args[0]
        else:
            self.cmd = os.fspath(args) if shell else [os.fspath(args)]
        self.proc = ENV.run_command(self.cmd, cwd)
        p = subprocess.PIPE
        self.redir = {"out": "pipe" if stdout == p else ("null" if stdout == subprocess.DEVNULL else "inherit"),
                      "err": "pipe" if stderr == p else ("null" if stderr == subprocess.DEVNULL else
                                                         ("out" if stderr == subprocess.STDOUT else "inherit"))}
        if stdout is not None and stdout not in (p, subprocess.DEVNULL):
            self.redir["out"] = "file"
        if stderr is not None and stderr not in (p, subprocess.DEVNULL, subprocess.STDOUT):
            self.redir["err"] = "file"
        self.drained = set()
        self.stdout = _Pipe(self, "out") if stdout == p else None
        self.stderr = _Pipe(self, "err") if stderr == p else None
        self.stdin = None
        self.finished = False

    def _size(self, which):
        b = self.proc.out if which == "out" else self.proc.err
        return b.size

    def _drained(self, w):
        self.drained.add(w)

    def _exit_needed(self, exclude=None):
        """The process has to end: it does only if its unread output fits the pipes."""
        o, e = self._size("out"), self._size("err")
        if self.redir["err"] == "out":
            o = o + e
            e = 0
        if self.redir["out"] == "pipe" and "out" not in self.drained and not isinstance(o, SymNum) and o <= PIPE_CAP:
            pass
        elif self.redir["out"] == "pipe" and "out" not in self.drained:
            if o > PIPE_CAP:
                E.violation("hang", "command %r blocks on a full standard output pipe that nobody reads" % (self.cmd,))
        if self.redir["err"] == "pipe" and "err" not in self.drained:
            if e > PIPE_CAP:
                E.violation("hang", "command %r blocks on a full standard error pipe that nobody reads" % (self.cmd,))
        self._finish()

    def _finish(self):
        if not self.finished:
            self.finished = True
            rc = ENV.finish_command(self)
            self._rc = rc
            for w, st in (("out", sys.stdout), ("err", sys.stderr)):
                if self.redir[w] == "inherit":
                    b = self.proc.out if w == "out" else self.proc.err
                    ENV.outbuf.append(b.text)

    def _data(self, w):
        b = self.proc.out if w == "out" else self.proc.err
        if self.redir["err"] == "out" and w == "out":
            b2 = self.proc.err
            b = SymBytes(b.text + b2.text, b.size + b2.size, b.valid & b2.valid)
        if E.mode == "con" or not isinstance(b, SymBytes):
            b = b.real() if isinstance(b, SymBytes) else b
        if self.text:
            return b.decode(self.encoding, self.errors)
        return b

    def wait(self, timeout=None):
        if self.returncode is None:
            self._exit_needed()
            self.returncode = self._rc
        return self.returncode

    def poll(self):
        if not self.finished:
            # may still be running: a poll loop that never reads can spin for ever
            self._exit_needed()
        self.returncode = self._rc
        return self.returncode

    def communicate(self, input=None, timeout=None):
        for w, p in (("out", self.stdout), ("err", self.stderr)):
            if p is not None:
                self.drained.add(w)
        o = e = None
        self._exit_needed()
        self.returncode = self._rc
        if self.stdout is not None:
            o = self._data("out")
        if self.stderr is not None:
            e = self._data("err")
        return o, e

    def kill(self):
        self._finish()
    terminate = kill

    def send_signal(self, s):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


# ------------------------------------------------------------------------------------------ event loop
class Job:
    def __init__(self, n, loop, fut, func, args, executor):
        self.n, self.loop, self.fut, self.func, self.args, self.executor = n, loop, fut, func, args, executor
        self.start = None
        self.end = None


class Sched:
    """Thread pool: which running job completes next is a symbolic choice.

    fine = 0: completions are taken only when the event loop is idle (all orders);
    fine = k: in addition up to k completions may arrive at any iteration of the loop.
    """

    def __init__(self, fine=0):
        self.fine = fine
        self.njobs = 0
        self.running = []
        self.queued = []
        self.seq = 0
        self.current = None
        self.choices = 0
        self.maxrun = 0
        self.on_idle = None

    def next(self):
        self.seq += 1
        return self.seq

    def limit(self, ex):
        return getattr(ex, "_max_workers", 32) if ex is not None else 32

    def submit(self, loop, executor, func, args):
        job = Job(self.njobs, loop, loop.create_future(), func, args, executor)
        self.njobs += 1
        self.queued.append(job)
        self.promote()
        return job.fut

    def promote(self):
        for j in list(self.queued):
            n = sum(1 for r in self.running if r.executor is j.executor)
            if n < self.limit(j.executor):
                self.queued.remove(j)
                j.start = self.next()
                self.running.append(j)
                self.maxrun = max(self.maxrun, len(self.running))

    def complete(self, job, deliver=True):
        self.running.remove(job)
        old, self.current = self.current, job
        try:
            r = job.func(*job.args)
            exc = None
        except BaseException as ex:
            # the pool thread catches every exception and hands it over
            exc = ex
        finally:
            self.current = old
        job.end = self.next()
        self.promote()
        if not deliver or job.fut.cancelled() or job.loop.is_closed():
            return
        def setres():
            if job.fut.cancelled():
                return
            if exc is not None:
                job.fut.set_exception(exc)
            else:
                job.fut.set_result(r)
        job.loop.call_soon(setres)

    def pick(self, loop):
        js = [j for j in self.running if j.loop is loop]
        k = E.choose("sched%d" % self.choices, len(js))
        if len(js) > 1:
            self.choices += 1
        return js[k]

    def drain(self):
        """Jobs that are still running when the loop has gone away."""
        while self.running:
            self.complete(self.running[0], False)

    def pending(self):
        return len(self.running) + len(self.queued)


class SymLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self._now = 0.0
        self._iter = 0

    def time(self):
        return self._now

    def _write_to_self(self):
        pass

    def _process_events(self, events):
        pass

    def call_soon_threadsafe(self, callback, *args, context=None):
        return self.call_soon(callback, *args, context=context)

    def run_in_executor(self, executor, func, *args):
        return ENV.sched.submit(self, executor, func, args)

    async def shutdown_default_executor(self, timeout=None):
        pass

    def close(self):
        super().close()

    def _run_once(self):
        s = ENV.sched
        self._iter += 1
        if self._iter > 20000:
            E.violation("livelock", "the event loop spins without progress")
        if s.fine > 0 and self._ready:
            for j in [j for j in s.running if j.loop is self]:
                if s.fine <= 0:
                    break
                s.choices += 1
                if E.decide("early%d" % s.choices):
                    s.fine -= 1
                    s.complete(j)
        if not self._ready:
            import heapq
            while self._scheduled and self._scheduled[0]._cancelled:
                h = heapq.heappop(self._scheduled)
                h._scheduled = False
            js = [j for j in s.running if j.loop is self]
            if s.on_idle is not None:
                s.on_idle(self)
            if js:
                s.complete(s.pick(self))
            elif self._scheduled:
                h = heapq.heappop(self._scheduled)
                h._scheduled = False
                self._now = max(self._now, h._when)
                self._ready.append(h)
            else:
                E.violation("hang", "the event loop waits for ever: no action is running and nothing can wake it")
        n = len(self._ready)
        for _ in range(n):
            h = self._ready.popleft()
            if not h._cancelled:
                h._run()
        h = None


class Policy(asyncio.events.BaseDefaultEventLoopPolicy):
    _loop_factory = SymLoop


# ------------------------------------------------------------------------------------------ output
class VOut:
    encoding = "utf-8"
    errors = "strict"

    def __init__(self, env, name):
        self.env, self.name = env, name
        self.buffer = self

    def write(self, s):
        if isinstance(s, SymBytes):
            s = s.text
        if isinstance(s, (bytes, bytearray, memoryview)):
            s = bytes(s).decode("utf-8", "replace")
        self.env.outbuf.append(s)
        return len(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        return 1

    def writable(self):
        return True

    def reconfigure(self, **k):
        pass


class _Cmd:
    __slots__ = ("cmd", "cwd", "rc", "start", "end", "job")


class Env:
    def __init__(self):
        self.installed = False

    def reset(self, fine=0, cpu=2):
        self.vfs = VFS()
        self.sched = Sched(fine)
        instrument.Order.reset()
        self.cmds = []
        self.outbuf = []
        self.handler = lambda cmd: Proc()
        self.cpu = cpu

    def set_order(self, descending):
        """iteration order of sets of licant's objects: that of their first use, or the reverse"""
        instrument.Order.flip = descending

    # the harness replaces handler(cmd) -> Proc
    def run_command(self, cmd, cwd=None):
        p = self.handler(cmd)
        c = _Cmd()
        c.cmd, c.cwd, c.rc, c.job = cmd, cwd, None, self.sched.current
        c.start = self.sched.next()
        self.cmds.append(c)
        p.record = c
        return p

    def finish_command(self, popen):
        p = popen.proc
        if p.effect is not None:
            p.effect()
        rc = p.rc() if callable(p.rc) else p.rc
        p.record.rc = rc
        p.record.end = self.sched.next()
        return rc

    def system(self, cmd):
        p = self.run_command(cmd)
        p2 = types.SimpleNamespace(proc=p)
        rc = self.finish_command(p2)
        if isinstance(rc, SymNum):
            return rc * 256
        return rc << 8 if rc >= 0 else -rc

    def text(self):
        return "".join(self.outbuf)


ENV = Env()


def _v(name):
    def f(*a, **k):
        return getattr(ENV.vfs, name)(*a, **k)
    f.__name__ = name
    return f


def install():
    """Replace the operating system in this process (the engine keeps its own references)."""
    if ENV.installed:
        return
    ENV.installed = True
    for n in ("stat", "lstat", "mkdir", "rmdir", "remove", "rename", "listdir", "scandir", "access", "utime",
              "symlink", "readlink", "getcwd", "chdir", "chmod"):
        setattr(os, n, _v(n))
    os.unlink = os.remove
    os.replace = os.rename
    os.getcwdb = lambda: os.fsencode(ENV.vfs.getcwd())
    os.system = lambda c: ENV.system(c)
    os.listxattr = lambda *a, **k: []
    os.open = lambda *a, **k: ENV.vfs.os_open(*a, **k)

    def fdop(name, f):
        real = getattr(os, name)

        def g(fd, *a, **k):
            return real(fd, *a, **k) if not isinstance(fd, int) or fd < 1000 else f(ENV.vfs.fd(fd), *a, **k)
        setattr(os, name, g)

    def fdwrite(f, data):
        f.write(data)
        f.flush()
        return len(data)
    fdop("read", lambda f, n: f.read(n))
    fdop("write", fdwrite)
    fdop("close", lambda f: f.close())
    fdop("fsync", lambda f: f.flush())
    fdop("fdatasync", lambda f: f.flush())
    fdop("fstat", lambda f: VStat(f.node))
    fdop("fchmod", lambda f, mode: None)
    fdop("ftruncate", lambda f, n: f.truncate(n))
    fdop("lseek", lambda f, n, w: f.seek(n, w))
    fdop("isatty", lambda f: False)
    import fcntl
    import shutil
    for n in ("flock", "lockf", "fcntl"):
        def lock(fd, *a, real=getattr(fcntl, n)):
            fd = fd if isinstance(fd, int) else fd.fileno()
            return real(fd, *a) if fd < 1000 else None
        setattr(fcntl, n, lock)
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    shutil.rmtree.avoids_symlink_attacks = False
    wrap = io.TextIOWrapper

    def textio(f, encoding=None, errors=None, *a, **k):
        if isinstance(f, _Pipe):
            f.p.text, f.p.encoding, f.p.errors = True, encoding or "utf-8", errors or "strict"
            return f
        return wrap(f, encoding, errors, *a, **k)
    io.TextIOWrapper = textio
    os.cpu_count = lambda: ENV.cpu
    os.sched_getaffinity = lambda pid: set(range(ENV.cpu))
    posixpath.realpath = lambda path, *, strict=False: ENV.vfs.realpath(path, strict=strict)
    builtins.open = io.open = lambda *a, **k: ENV.vfs.open(*a, **k)
    subprocess.Popen = FakePopen
    subprocess._USE_POSIX_SPAWN = False
    asyncio.set_event_loop_policy(Policy())
    sys.stdout = VOut(ENV, "out")
    sys.stderr = VOut(ENV, "err")
    sys.argv = ["/vfs/w/make.py"]
    for k in list(os.environ):
        del os.environ[k]
    os.environ["HOME"] = "/vfs/home"
    os.environ["PATH"] = "/usr/local/bin:/usr/bin:/bin"
    # modules that keep their own references
    import glob
    import shutil  # noqa
    import tempfile  # noqa
    import threading

    def nothread(self):
        E.unsupported("threading.Thread.start")
    threading.Thread.start = nothread


def prepare(fine=0, instrumented=True, cpu=2, imports=("licant",), script="/vfs/w/make.py"):
    """Run once before the exploration (or the replay)."""
    sys.path[:] = [p for p in sys.path if p]
    if instrumented:
        instrument.instrument_stdlib()
    if not instrument._code:
        instrument.precompile(REPO, "licant", instrumented)
    instrument.install(REPO, "licant", instrumented)
    ENV.reset(fine, cpu)
    # modules that licant imports, from the real file system
    import argparse, ast, cmath, contextlib, collections, copy, fcntl, fnmatch, functools, glob, hashlib, inspect  # noqa
    import itertools, json, optparse, pathlib, queue, random, re, shlex, shutil, string, tempfile, threading  # noqa
    import time, traceback, types, typing, uuid, warnings, weakref, concurrent.futures, linecache, datetime, enum  # noqa
    import dataclasses, abc, operator, textwrap, errno, signal, asyncio, importlib  # noqa
    install()
    sys.argv = [script]
    for m in imports:
        __import__(m)
    import licant
    return licant


def fresh(argv=None, imports=("licant",)):
    """A new process: nothing of licant's state survives, the file system does."""
    instrument.purge("licant")
    if argv is not None:
        sys.argv = list(argv)
    for m in imports:
        __import__(m)
    import licant
    return licant


def attempt(f, *a, **k):
    """Run user-level code.  -> ('ok', value) | ('exit', code) | ('exc', exception)"""
    try:
        return ("ok", f(*a, **k))
    except SystemExit as ex:
        return ("exit", ex.code)
    except Exception as ex:
        return ("exc", ex)


def attempt_any(f):
    """the same where the code under test can let any exception out"""
    try:
        return attempt(f)
    except BaseException as ex:
        return ("exc", ex)


def exit_status(r):
    """What the shell sees."""
    if r[0] == "ok":
        return 0
    if r[0] == "exc":
        return 1
    c = r[1]
    if c is None:
        return 0
    if isinstance(c, bool):
        return int(c)
    if isinstance(c, int):
        return c & 255
    return 1
