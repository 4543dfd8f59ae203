"""C25: installing puts every matching file at its place below the prefix."""
import os
import sys

from symx import strings as S
from symx.engine import E, Not
from symx.env import ENV, attempt, exit_status, fresh
from symx.runner import Config

from . import c12
from . import scriptlib as P
from .c09 import parts

SCRIPTS = ["make.py", "/vfs/w/make.py"]
ASSUMPTIONS = c12.ASSUMPTIONS[:2] + ["names of headers contain no star and directories of headers no pattern characters",
                                     "the prefix is not given with ~ and without links"]
MODS = ("licant", "licant.install")
PATS = [("*a*b*",), ("*.h*",), ("?*.h",), ("a*.h", "b.h"), ("[ab]*.h",), ("*[!a].h",), ("*",), ("*.h", "*.*")]
DEFAULT = {"app": "/usr/local/bin", "inc": "/usr/local/include", "lib": "/usr/lib"}


def norm(p):
    return "/" + "/".join(parts(p))


def matches(pat, name):
    """reference for the patterns used here: *, ? and sets"""
    if pat == "":
        return len(name) == 0
    if pat[0] == "[":
        k = pat.index("]")
        neg = pat[1] == "!"
        return len(name) > 0 and S.cin(name[0], pat[1 + neg:k]) != neg and matches(pat[k + 1:], name[1:])
    if pat[0] == "*":
        return any(matches(pat[1:], name[i:]) for i in range(len(name) + 1))
    if len(name) == 0:
        return False
    return (pat[0] == "?" or S.s_eq(pat[0], name[0])) and matches(pat[1:], name[1:])


def files():
    return {p: n.content for p, n in ENV.vfs.nodes.items() if n.kind == "f" and n.exists is True}


def start(prefix=None, path=None):
    os.environ.pop("PREFIX", None)
    if prefix is not None:
        os.environ["PREFIX"] = prefix
    if path is None:
        os.environ.pop("PATH", None)
    else:
        os.environ["PATH"] = path
    ENV.handler = c12.handler
    ENV.vfs.clock = 50
    return fresh(None, MODS)


def dest(prefix, what):
    return DEFAULT[what] if prefix is None else norm(prefix + "/" + {"app": "bin", "inc": "include", "lib": "lib"}[what])


def expect(want, before, det):
    """the files are those of before and the wanted ones"""
    now = files()
    rest = dict(now)
    for p, c in list(before.items()) + list(want):
        hit = [q for q in rest if S.s_eq(q, p)]
        ok = [q for q in now if S.s_eq(q, p)]
        E.check(len(ok) == 1 and S.s_eq(now[ok[0]], c), "copied" if p not in before else "others-kept", lambda: "%s: %s; %s" % (p, sorted(now), det()))
        for q in hit:
            del rest[q]
    E.check(not rest, "nothing-else", lambda: "%s; %s" % (sorted(rest), det()))


def tree(n, nlen, alphabet, patterns, srcdirs=("include",), roots=("lib",), prefixes=(None, "/vfs/p"), dirs=("", "d/", "d/q.h/"), exts=(".h", ".hxx", ""), full=True):
    """a header tree of up to n files"""
    def fn():
        os.environ.pop("PREFIX", None)
        ENV.vfs.dir("/vfs/w/include", parents=True)
        hs = []
        for i in range(n):
            d = E.pick("dir%d" % i, dirs)
            f = E.string_upto("name%d" % i, nlen, alphabet, 0) + E.pick("ext%d" % i, exts)
            E.assume(len(f) > 0)
            E.assume(Not(S.s_eq_e(f, ".")))
            E.assume(Not(S.s_eq_e(f, "..")))
            for d2, f2 in hs:
                E.assume(not (d == d2 and S.s_eq(f, f2)))
            # not where a directory is
            E.assume(not (d == "d/" and S.s_eq(f, "q.h")) and not (d == "" and S.s_eq(f, "d")))
            hs.append((d, f))
            if d and "/vfs/w/include/" + d.rstrip("/") not in ENV.vfs.nodes:
                ENV.vfs.dir("/vfs/w/include/" + d.rstrip("/"), parents=True)
            ENV.vfs.file("/vfs/w/include/" + d + f, "H%d" % i, mtime=3)
        for x in ("libx.so", "b/liby.so", "app", "outside.h"):
            P.put("/vfs/w/" + x, "content of " + x, 3)
        prefix = E.pick("prefix", prefixes)
        L = start(prefix, "/usr/local/bin:/usr/bin")
        I = sys.modules["licant.install"]
        pats = E.pick("patterns", patterns)
        src = E.pick("srcdir", srcdirs)
        root = E.pick("root", roots)
        libs = E.pick("libraries", [None, "libx.so", ["libx.so", "b/liby.so"]]) if full and E.decide("by library") else "headers"
        un = libs != "headers" and E.decide("uninstall")
        before = files()
        want = []
        for i, (d, f) in enumerate(hs):
            if any(matches(p, f) for p in (pats or (("*.h", "*.hxx") if libs == "headers" else ("*.h", "*.hxx", "*.hpp")))):
                want.append((norm(dest(prefix, "inc") + "/" + root + "/" + d + f), "H%d" % i))
        for l in ([] if libs in (None, "headers") else [libs] if isinstance(libs, str) else libs):
            want.append((dest(prefix, "lib") + "/" + l.split("/")[-1], "content of " + l))
        det = lambda: "headers %s patterns %s from %s to %s %s, %s: wanted %s" % (hs, pats, src, prefix, root, libs, want)

        def go():
            if libs == "headers":
                kw = {"patterns": pats} if pats else {}
                return I.install_headers(root, src, **kw)[0]
            kw = {"headers_patterns": pats} if pats else {}
            if un:
                kw["uninstall"] = "remove"
            return I.install_library(tgt="inst", hroot=root, headers=src, libtgt=libs, **kw)
        r = attempt(go)
        E.check(r[0] == "ok" and r[1] is not None, "declared", lambda: "%s %s" % (r, det()))
        name = str(r[1])
        r = attempt(lambda: L.ex(name, argv=["-j1", "-q"]))
        ENV.sched.drain()
        E.check(exit_status(r) == 0, "builds", lambda: "%s %s" % (r, det()))
        expect(want, before, det)
        E.cover("some" if want else "none")
        if len(want) < len(hs):
            E.cover("left out")
        if un:
            sys.modules["licant.cli"].opts = None
            r = attempt(lambda: L.ex("remove", argv=["-j1", "-q"]))
            ENV.sched.drain()
            E.check(exit_status(r) == 0, "uninstalls", lambda: "%s %s" % (r, det()))
            expect([], before, det)
            E.cover("uninstalled")
        E.observe(len(want))
    return fn


def two():
    """two installations with the same or another source directory"""
    def fn():
        for x in ("one/a.h", "one/b.hpp", "one/s/c.h", "two/a.h", "libx.so"):
            P.put("/vfs/w/" + x, "content of " + x, 3)
        L = start("/vfs/p", "/usr/bin")
        I = sys.modules["licant.install"]
        pats = [("*.h",), ("*.hpp",), ("*",)]
        calls = []
        for k in ("i1", "i2"):
            calls.append((k, E.pick("srcdir_" + k, ["one", "./one", "two"]), E.pick("root_" + k, ["r", "r/s"]), E.pick("patterns_" + k, pats),
                          E.pick("lib_" + k, [None, "libx.so"])))
        before = files()
        for k, src, root, pat, lib in calls:
            r = attempt(lambda: I.install_library(tgt=k, hroot=root, headers=src, headers_patterns=pat, libtgt=lib, uninstall=k + "-remove"))
            E.check(r[0] == "ok", "declared", lambda: str(r))

        def want(c):
            k, src, root, pat, lib = c
            w = []
            for x in ("a.h", "b.hpp", "s/c.h"):
                f = "/vfs/w/" + norm(src)[7:] + "/" + x
                if f in before and any(matches(p, x.split("/")[-1]) for p in pat):
                    w.append(("/vfs/p/include/" + root + "/" + x, before[f]))
            return w + ([("/vfs/p/lib/libx.so", "content of libx.so")] if lib else [])
        ask = E.pick("asked", [0, 1])
        c = calls[ask]
        clash = {p for p, _ in want(calls[0])} & {p for p, _ in want(calls[1])}
        # the same place from two sources: the later declaration counts
        E.assume(all(dict(want(calls[0]))[p] == dict(want(calls[1]))[p] for p in clash))
        det = lambda: "%s of %s" % (c[0], calls)
        r = attempt(lambda: L.ex(c[0], argv=["-j1", "-q"]))
        ENV.sched.drain()
        E.check(exit_status(r) == 0, "builds", lambda: "%s %s" % (r, det()))
        expect(want(c), before, det)
        sys.modules["licant.cli"].opts = None
        r = attempt(lambda: L.ex(c[0] + "-remove", argv=["-j1", "-q"]))
        E.check(exit_status(r) == 0, "uninstalls", lambda: "%s %s" % (r, det()))
        expect([], before, det)
        E.cover("two")
        E.observe(len(want(c)))
    return fn


def application(n, k, entries):
    """any search path and prefix"""
    def fn():
        os.environ.pop("PREFIX", None)
        P.put("/vfs/w/app", "the application", 3)
        P.put("/vfs/w/libx.so", "the library", 3)
        pre = E.pick("prefix", ["none", "abs", "rel"])
        prefix = None if pre == "none" else {"abs": "/vfs/p", "rel": "out"}[pre] + E.string_upto("prefix text", k, "ab/.")
        es = []
        for i in range(E.choose("entries", n + 1)):
            e = E.pick("entry%d" % i, entries)
            es.append("/o" + E.string_upto("entry text %d" % i, 1, "ab:/") if e is None else e)
        path = ":".join(es) if es or E.decide("set") else None
        L = start(prefix, path)
        I = sys.modules["licant.install"]
        name, tgt, new = E.pick("name", [("prog", None, None), ("sub/prog", "inst", "libz.so")])
        r = attempt(lambda: I.install_application("app", name, **({"tgt": tgt} if tgt else {})))
        det = lambda: "PREFIX %r PATH %r: %s" % (prefix, path, r)
        if prefix is not None:
            ok = [norm(prefix + "/bin")]
        elif "/usr/local/bin" in es:
            ok = ["/usr/local/bin"]
        elif any("/usr/bin" in e or "/usr/local/bin" in e for e in es):
            # one of the entries that are such directories
            ok = [e for e in es if "/usr/bin" in e or "/usr/local/bin" in e]
        else:
            ok = None
        if ok is None:
            E.check(r == ("ok", None), "nothing-declared", det)
            E.cover("unusable")
            E.observe(None)
            return
        E.check(r[0] == "ok" and r[1] is not None, "application-directory-found", det)
        before = files()
        got = str(r[1])
        r = attempt(lambda: L.ex(got, argv=["-j1", "-q"]))
        ENV.sched.drain()
        E.check(exit_status(r) == 0, "builds", det)
        made = [p for p in files() if p not in before]
        E.check(len(made) == 1 and files()[made[0]] == "the application", "one-copy", lambda: "%s %s" % (made, det()))
        E.check(any(S.s_eq(made[0], norm(o) + "/" + name) for o in ok), "in-the-application-directory", lambda: "%s: %s %s" % (made, ok, det()))
        E.cover("prefix" if prefix is not None else "search path")
        # libraries do not depend on the search path, but on the prefix
        before = files()
        r = attempt(lambda: I.install_shared_library("libx.so", new) if new else I.install_shared_library("libx.so"))
        E.check(r[0] == "ok", "library-declared", det)
        t = r[1]
        sys.modules["licant.cli"].opts = None
        r = attempt(lambda: L.ex(str(t), argv=["-j1", "-q"]))
        E.check(exit_status(r) == 0, "library-builds", det)
        expect([(dest(prefix, "lib") + "/" + (new or "libx.so"), "the library")], before, det)
        E.observe(ok is None)
    return fn


def configs(tier):
    some = {"some", "none", "left out", "uninstalled"}
    pats = [None, ("a*",), ("?.h", "*.h")]
    ent = ["/usr/bin", "/usr/local/bin", "/bin", "/opt/usr/bin", None]
    if tier == "quick":
        return [
            Config("tree", tree(2, 1, "a.", pats, exts=(".h", ".hxx"), dirs=("", "d/q.h/"), prefixes=("/vfs/p",)), "two files with any names of up to 1 character and 2 extensions in 2 directories, 3 pattern "
                   "lists, 0..2 libraries", some, imports=MODS),
            Config("places", tree(1, 0, "a.", [None], ("include", "./include/", "/vfs/w/d/../include"), (".", "x/y"), (None, "/vfs/p", "out", "../p/"), exts=("a.h",)),
                   "3 spellings of the source directory, 2 header directories, 4 prefixes", {"some", "uninstalled"}, imports=MODS),
            Config("patterns", tree(1, 3, "ab.h", PATS, exts=("", ".h"), dirs=("",), prefixes=("/vfs/p",), full=False), "one file with any name of up to 3 characters, with or without "
                   "extension, %d pattern lists" % len(PATS), {"some", "none", "left out"}, imports=MODS),
            Config("two", two(), "two installations from the same or another directory with 3 pattern lists", {"two"}, imports=MODS),
            Config("application", application(2, 1, ent), "search paths of up to 2 of 5 entries (one with arbitrary text), prefixes with arbitrary text", {"prefix", "search path",
                   "unusable"}, imports=MODS),
        ]
    return [
        Config("tree", tree(2, 2, "a.h", pats, exts=(".h", ".hxx", "")), "two files with any names of up to 2 characters and 3 extensions in 3 directories, 3 pattern lists, 0..2 "
               "libraries, with and without PREFIX", some, imports=MODS, time_limit=5000),
        Config("patterns", tree(1, 4, "ab.h", PATS, exts=("", ".h"), dirs=("", "d/"), prefixes=("/vfs/p",), full=False), "one file with any name of up to 4 characters, with or without "
               "extension, %d pattern lists" % len(PATS), {"some", "none", "left out"}, imports=MODS, time_limit=4000),
        Config("tree-3", tree(3, 1, "a.", [None, ("*.h",), ("a*", "*.h")], exts=(".h",), dirs=("", "d/")), "three files", {"some", "uninstalled"}, imports=MODS),
        Config("places", tree(1, 1, "a.", [None], ("include", "./include/", "/vfs/w/d/../include"), ("lib", ".", "x/y", ""), (None, "/vfs/p", "out", "../p/")),
               "3 spellings of the source directory, 4 header directories, 4 prefixes", {"some", "uninstalled"}, imports=MODS),
        Config("two", two(), "two installations from the same or another directory with 3 pattern lists", {"two"}, imports=MODS),
        Config("application", application(3, 3, ent), "search paths of up to 3 of 5 entries, prefixes with arbitrary text", {"prefix", "search path", "unusable"}, imports=MODS),
    ]
