"""C09: all spellings of one path name the same target."""
import sys

from symx import strings as S
from symx.engine import E, And, Implies, Not, Or, zb
from symx.env import ENV, attempt
from symx.runner import Config

ASSUMPTIONS = ["the current directory does not change between declaration and use"]
CWD = "/vfs/w"


def parts(path):
    """reference: lexical components of the absolute path (no symbolic links around)"""
    out = [] if S.sub_at(path, "/", 0) else ["vfs", "w"]
    for c in S.m_split(path, "/"):
        if c == "" or S.s_eq(c, "."):
            continue
        if S.s_eq(c, ".."):
            if out:
                out.pop()
            continue
        out.append(c)
    return out


def same(a, b):
    return S.deq(parts(a), parts(b))


def parents_exist():
    """a missing parent directory becomes a target of its own (C13); here all of them are there"""
    for d in ("a", "b", "a/a", "a/b", "b/a", "b/b"):
        ENV.vfs.dir("/vfs/w/" + d)


def lookup(base, n, alphabet, minlen=1):
    """register base, look every text of up to n characters up"""
    def fn():
        L = sys.modules["licant"]
        parents_exist()
        c = L.MakeCore()
        b = E.pick("registered", base)
        t = c.ftarget(tgt=b, build=lambda s: None)
        s = E.string_upto("asked", n, alphabet, minlen)
        eq = same(b, s)
        h = attempt(lambda: bool(c.has(s)))
        g = attempt(lambda: c.get(s))
        if eq:
            E.check(h == ("ok", True), "found", lambda: "%s asked as %s: %s" % (b, s, h))
            E.check(g[0] == "ok" and g[1] is t, "same-target", lambda: "%s asked as %s: %s" % (b, s, g))
            E.cover("same path")
        else:
            E.check(h == ("ok", False), "not-found", lambda: "%s asked as %s: %s" % (b, s, h))
            E.check(g[0] == "exit" and g[1] not in (0, None), "error-for-unregistered", lambda: "%s asked as %s: %s" % (b, s, g))
            E.cover("other path")
        E.observe([eq, h[1] if h[0] == "ok" else h[0], g[0]])
    return fn


def two(n, alphabet):
    """two registrations and one lookup: the right one answers"""
    def fn():
        L = sys.modules["licant"]
        parents_exist()
        c = L.MakeCore()
        a = E.string_upto("first", n, alphabet, 1)
        ta = c.ftarget(tgt=a, build=lambda s: None)
        b = E.pick("second", ["a", "b/a", "./b"])
        s = E.pick("asked", ["a", "./a", "b/../a", "/vfs/w/a", "b//a", "b", "../w/b", "a/../b/a/."])
        if E.decide("asked before"):
            h = attempt(lambda: bool(c.has(s)))
            E.check(h == ("ok", same(s, a)), "found-before", lambda: "%s asked as %s: %s" % (a, s, h))
            if E.decide("fetched before") and same(s, a):
                E.check(c.get(s) is ta, "first-before", lambda: "%s asked as %s" % (a, s))
        tb = c.ftarget(tgt=b, build=lambda s: None)
        g = attempt(lambda: c.get(s))
        if same(s, b):
            E.check(g[0] == "ok" and g[1] is tb, "latest-registration", lambda: "%s %s %s" % (a, b, s))
            E.cover("second")
        elif same(s, a):
            E.check(g[0] == "ok" and g[1] is ta, "first-registration", lambda: "%s %s %s" % (a, b, s))
            E.cover("first")
        else:
            E.check(g[0] == "exit", "neither", lambda: "%s %s %s: %s" % (a, b, s, g))
            E.cover("neither")
        E.observe(g[0])
    return fn


def depend(n, alphabet):
    """depend on a file under any spelling, possibly under two spellings at once"""
    def fn():
        L = sys.modules["licant"]
        c = L.MakeCore()
        c.runtime["threads"] = 1
        ran = []
        ENV.vfs.dir("/vfs/w/b")
        b = E.pick("registered", ["a", "./b/a", "/vfs/w/a"])
        t = c.ftarget(tgt=b, build=lambda s: ran.append("dep"))
        s = E.string_upto("dep", n, alphabet, 1)
        eq = same(s, b)
        self_dep = same(s, "out")
        there = ENV.vfs.exists(s)
        deps = [s, b] if E.decide("both") else [s]
        o = c.ftarget(tgt="out", build=lambda s: ran.append("out"), deps=deps)
        act = E.pick("asked", ["out", "./out", "/vfs/w/../w/out"])
        r = attempt(lambda: c.do(act))
        ENV.sched.drain()
        if eq:
            E.check(r[0] == "ok" and ran == ["dep", "out"], "dependency-built-once-first",
                    lambda: "%s as %s: %s %s" % (b, s, r, ran))
            E.cover("found")
        elif there:
            # an existing file or directory is a source
            E.check(r[0] == "ok" and ran == (["dep", "out"] if len(deps) == 2 else ["out"]), "existing-path-is-a-source",
                    lambda: "%s as %s: %s %s" % (b, s, r, ran))
            E.cover("source")
        elif not self_dep:
            E.check(r[0] == "exit" and r[1] not in (0, None) and ran == [], "unknown-dependency",
                    lambda: "%s as %s: %s %s" % (b, s, r, ran))
            E.cover("unknown")
        E.observe([r[0], ran])
    return fn


def links():
    """spellings through a symbolic link"""
    sp = ["d/x", "ln/x", "./d/x", "d//x", "/vfs/w/d/x", "/vfs/w/ln/x", "ln/../d/x", "d/../ln/x", "e/../d/./x", "d/x/."]
    other = ["x", "e/x", "ln/y", "d", "ln/../x", "d/x/y"]

    def fn():
        L = sys.modules["licant"]
        ENV.vfs.dir("/vfs/w/d")
        ENV.vfs.dir("/vfs/w/e")
        ENV.vfs.link("/vfs/w/ln", "d")
        if E.decide("exists"):
            ENV.vfs.file("/vfs/w/d/x", "")
        c = L.MakeCore()
        a = E.pick("registered", sp)
        t = c.ftarget(tgt=a, build=lambda s: None)
        b = E.pick("asked", sp + other)
        g = attempt(lambda: c.get(b))
        if b in sp:
            E.check(g[0] == "ok" and g[1] is t, "same-target", lambda: "%s asked as %s: %s" % (a, b, g))
            E.cover("same")
        else:
            E.check(g[0] == "exit", "other-target", lambda: "%s asked as %s: %s" % (a, b, g))
            E.cover("other")
        # sources and copies on the default core: registering the same file again under another spelling
        s1 = L.source("src/../" + ("s" if E.decide("plain") else "./s"))
        s2 = L.source("./s")
        E.check(s2 is None or s2 is s1, "source-registered-once", str((s1, s2)))
        E.observe(g[0])
    return fn


def configs(tier):
    q = [
        Config("lookup-4", lookup(["a", "a/b", "../w/a", "/vfs/w/b", "./a/../b"], 4, "ab./"), "5 registered paths; asked: every text "
               "of 1..4 characters over a b . /", {"same path", "other path"}),
        Config("two-3", two(3, "ab./"), "first registered path: every text of 1..3 characters over a b . /; 3 second ones; 8 lookups",
               {"first", "second", "neither"}),
        Config("depend-3", depend(3, "a./"), "dependency written as every text of 1..3 characters over a . /, alone or together "
               "with the registered spelling", {"found", "unknown", "source"}),
        Config("links", links(), "10 spellings through a symbolic link, 6 other paths", {"same", "other"}),
    ]
    if tier == "quick":
        return q
    return q + [
        Config("lookup-6", lookup(["a", "a/b"], 6, "ab./"), "asked: every text of 1..6 characters", {"same path", "other path"}),
        Config("two-4", two(4, "ab./"), "first registered path up to 4 characters", {"first", "second", "neither"}),
        Config("depend-5", depend(5, "ab./"), "dependency of 1..5 characters", {"found", "unknown", "source"}),
    ]
