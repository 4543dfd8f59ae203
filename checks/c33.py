"""C33: a pattern stands for exactly the files that match it."""
import sys

from symx import strings as S
from symx.engine import E, Not, Or, SymBool, zb, zn
from symx.env import ENV, Proc, attempt, exit_status
from symx.runner import Config

from .c20 import Plain

SCRIPTS = ["make.py", "/vfs/w/make.py"]
ASSUMPTIONS = ["file names contain no characters that have a meaning in patterns", "the only special character of a pattern is the star"]
W = "/vfs/w/"


def match(pat, name):
    """reference: path pattern, component by component"""
    ps, ns = pat.split("/"), S.m_split(name, "/") if S.has_tok(name) else name.split("/")
    return len(ps) == len(ns) and all(comp(p, n) for p, n in zip(ps, ns))


def comp(p, n):
    if "*" not in p:
        return S.s_eq(p, n)
    if not p.startswith(".") and len(n) and S.sub_at(n, ".", 0):
        return False
    return glob(p, n)


def glob(p, n):
    if p == "":
        return len(n) == 0
    if p[0] == "*":
        return any(glob(p[1:], n[i:]) for i in range(len(n) + 1))
    return len(n) > 0 and S.s_eq(p[0], n[0]) and glob(p[1:], n[1:])


def files(n, nlen, dirs, alphabet, exts):
    out = []
    for i in range(n):
        d = E.pick("dir%d" % i, dirs)
        f = E.string_upto("name%d" % i, nlen, alphabet, 0) + E.pick("ext%d" % i, exts)
        E.assume(len(f) > 0)
        for x in (".", ".."):
            E.assume(Not(S.s_eq_e(f, x)))
        for g in out:
            E.assume(Not(S.s_eq_e(d + f, g)))
        if d and W + d.rstrip("/") not in ENV.vfs.nodes:
            ENV.vfs.dir(W + d.rstrip("/"), parents=True)
        out.append(d + f)
    return out


def deps(n, nlen, kinds, patterns, dirs=("", "d/", ".h/", "d/e/"), alphabet="ab.", exts=(".c", ".h", ""), absolute=(False,)):
    """dependencies of targets: a target is rebuilt exactly if one of the files that match is newer"""
    def fn():
        L = sys.modules["licant"]
        M = sys.modules["licant.make"]
        v = ENV.vfs
        for d in ("d", ".h", "d/e"):
            v.dir(W + d, parents=True)
        fs = files(n, nlen, dirs, alphabet, exts)
        times = []
        for i, f in enumerate(fs):
            E.assume(Not(S.s_eq_e(f, "d")))
            t = E.real("mtime%d" % i, 0, 5)
            times.append(t)
            v.file(W + f, "F%d" % i, mtime=t)
        kind = E.pick("kind", kinds)
        pats = E.pick("patterns", patterns)
        pre = W if E.pick("absolute", absolute) else ""
        use = [pre + p if "*" in p else p for p in pats]
        c = L.default_core() if kind in ("makefile", "fileset") else L.MakeCore()
        c.runtime["threads"] = 1
        mine = E.real("mtime", 0, 5)
        v.dir(W + "o")
        for q in list(v.nodes.values()):
            if q.kind == "d" or q is v.nodes[W + "make.py"]:
                q.mtime = 0
        v.file(W + "o/t", "T", mtime=mine)
        v.clock = 50
        ran = []

        def build(t=None):
            ran.append(1)
            return True
        hit = [any(match(p, f) for p in pats) for f in fs]
        if kind == "file":
            c.add(L.FileTarget(tgt="o/t", deps=use, build=build))
        elif kind == "makefile":
            ENV.handler = lambda cmd: Proc(0, effect=build)
            L.makefile("o/t", use, "run {tgt}")
        elif kind == "ftarget":
            c.ftarget(tgt="o/t", deps=use, build=build)
        elif kind == "fileset":
            # times of a file set are those of its files
            L.fileset("set", use)
            c.add(L.FileTarget(tgt="o/t", deps=["set"], build=build))
        elif kind == "through":
            # an updatable target between
            c.add(L.FileTarget(tgt="o/u", deps=use, build=build))
            v.file(W + "o/u", "U", mtime=mine)
            c.updtarget("mid", deps=["o/u"], update_if=lambda s: False, update=lambda s: True)
        name = "mid" if kind == "through" else "o/t"
        det = lambda: "%s %s over %s: match %s ran %s" % (kind, use, fs, hit, ran)
        r = attempt(lambda: c.get(name).invoke("recurse_update"))
        ENV.sched.drain()
        E.check(r == ("ok", True), "succeeds", lambda: "%s %s" % (r, det()))
        want = Or(False, *[zn(times[i]) > zn(mine) for i in range(len(fs)) if hit[i]])
        E.check(SymBool(want == zb(bool(ran))), "the-files-that-match", det)
        E.cover("some" if any(hit) else "none")
        if any(hit) and not all(hit):
            E.cover("not all")
        E.observe(len(ran))
    return fn


def sources(n, nlen, patterns, dirs, what):
    """sources of modules: exactly the files that match are compiled"""
    def fn():
        L = sys.modules["licant"]
        v = ENV.vfs
        rec = Plain()
        base = E.pick("srcdir", [None, "src"]) if what == "sources" else None
        pre = "src/" if base else ""
        for d in ("d", "src", "src/d"):
            v.dir(W + d, parents=True)
        fs = files(n, nlen, [pre + d for d in dirs], "ab.", (".c", ".cpp"))
        for i, f in enumerate(fs):
            v.file(W + f, "F%d" % i, mtime=3)
        pats = E.pick("patterns", patterns)
        v.file(W + "main.cc", "", mtime=3)
        ENV.handler = rec
        opts = {"sources": list(pats) + ["main.cc"]}
        if base:
            opts["srcdir"] = base
            v.file(W + "src/main.cc", "", mtime=3)
        t = L.cxx_application("app", builddir="build", **opts)
        r = attempt(lambda: L.ex("app", argv=["-j1", "-q"]))
        ENV.sched.drain()
        E.check(exit_status(r) == 0, "builds", lambda: "%s %s" % (r, rec.words))
        got = [w[w.index("-c") + 1] for w in rec.words if "-c" in w]
        want = [f for f in fs if any(match(pre + p, f) for p in pats)] + [pre + "main.cc"]
        det = lambda: "%s over %s: compiled %s" % (pats, fs, got)
        E.check(len(got) == len(want), "each-once", det)
        for f in want:
            E.check(any(S.s_eq(S_norm(g), W + f) for g in got), "compiled", det)
        link = [w for w in rec.words if "-Wl,--start-group" in w]
        E.check(len(link) == 1 and sum(1 for x in link[0] if S.m_endswith(x, ".o")) == len(want), "linked", lambda: str(link))
        E.cover("some" if len(want) > 1 else "none")
        E.observe(len(got))
    return fn


def S_norm(p):
    from .c09 import parts
    return "/" + "/".join(parts(p if S.sub_at(p, "/", 0) else W + p))


def module_deps(n, nlen, patterns):
    """dependencies of modules: the object is rebuilt exactly if a matching file is newer"""
    def fn():
        L = sys.modules["licant"]
        v = ENV.vfs
        rec = Plain()
        v.dir(W + "d")
        fs = files(n, nlen, ("", "d/"), "ab.", (".h", ".x"))
        times = []
        for i, f in enumerate(fs):
            t = E.real("mtime%d" % i, 0, 20)
            times.append(t)
            v.file(W + f, "F%d" % i, mtime=t)
        pats = E.pick("patterns", patterns)
        v.file(W + "main.cc", "", mtime=3)
        L.cxx_objects("objs", sources=["main.cc"], depends=list(pats))
        v.dir("/vfs/w/build/vfs/w", parents=True)
        done = [o for o in L.default_core().get("objs").deps if o.endswith(".o")]
        E.check(len(done) == 1, "one-object", lambda: str(done))
        obj = done[0] if done[0].startswith("/") else W + done[0]
        dep = obj[:-2] + ".d"
        v.dir(obj.rsplit("/", 1)[0], parents=True)
        v.file(obj, "O", mtime=10)
        v.file(dep, "main.o: main.cc\n", mtime=10)
        # a new process finds the dependency file
        from symx.env import fresh
        L = fresh()
        v.clock = 50
        ENV.handler = rec
        L.cxx_objects("objs", sources=["main.cc"], depends=list(pats))
        r = attempt(lambda: L.ex("objs", argv=["-j1", "-q"]))
        ENV.sched.drain()
        E.check(exit_status(r) == 0, "builds", lambda: "%s %s" % (r, rec.words))
        ran = any("-c" in w for w in rec.words)
        want = Or(False, *[zn(times[i]) > 10 for i, f in enumerate(fs) if any(match(p, f) for p in pats)])
        E.check(SymBool(want == zb(ran)), "rebuilt-iff-a-match-is-newer", lambda: "%s over %s: %s" % (pats, fs, rec.words))
        E.cover("rebuilt" if ran else "left alone")
        E.observe(ran)
    return fn


def configs(tier):
    c = {"some", "none", "not all"}
    pats = [["*.c"], ["*"], ["d/*"], ["*/*.h"], ["a*"], ["nope*", "*b.c"], [".*", "*.h"], ["d/*/*"], ["**"], ["d/**", "**/*.h"]]
    kinds = ["file", "makefile", "ftarget", "fileset", "through"]
    if tier == "quick":
        return [
            Config("dependencies", deps(2, 1, kinds[:4:3], pats[:4], dirs=("", "d/"), exts=(".c", ".h")), "two files with names of up to 1 arbitrary character and 2 extensions in 2 "
                   "directories, 4 patterns, arbitrary times, file targets and file sets", c),
            Config("kinds", deps(1, 1, kinds, pats, exts=(".c", ".h"), absolute=(False, True)), "one file, 4 directories, 10 lists of patterns, relative or "
                   "absolute, 5 kinds of targets", {"some", "none"}),
            Config("sources", sources(2, 1, [["*.c"], ["d/*.c", "*.cpp"], ["a*.c"], ["x*"]], ("", "d/"), "sources"), "module sources, 2 files", {"some", "none"}),
            Config("same-names", sources(2, 1, [["*/*.c"], ["*/a.c"], ["d*/*"]], ("d/", "dd/"), "sources"), "module sources of 2 directories, names equal or not, 3 patterns", {"some", "none"}),
            Config("module-dependencies", module_deps(1, 1, [["*.h"], ["d/*"], ["a*", "*.x"]]), "dependencies of a module", {"rebuilt", "left alone"}),
        ]
    return [
        Config("dependencies", deps(2, 2, kinds[:4:3], pats, exts=(".c", ".h")), "two files with names of up to 2 arbitrary characters and 2 extensions "
               "in 4 directories, 10 lists of patterns, arbitrary times", c),
        Config("three", deps(3, 1, ["file"], pats[:5], dirs=("", "d/"), exts=(".c", ".h")), "three files", c),
        Config("kinds", deps(1, 3, kinds, pats, absolute=(False, True)), "one file with a name of up to 3 characters", {"some", "none"}),
        Config("same-names", sources(3, 1, [["*/*.c"], ["*/a.c"], ["d*/*"], ["*/*.c", "a.c"]], ("d/", "dd/"), "sources"), "module sources of 2 directories, names equal or not", {"some", "none"}),
        Config("sources", sources(3, 1, [["*.c"], ["d/*.c", "*.cpp"], ["a*.c"], ["x*"]], ("", "d/"), "sources"), "module sources, 3 files", {"some", "none"}),
        Config("module-dependencies", module_deps(2, 1, [["*.h"], ["d/*"], ["a*", "*.x"]]), "dependencies of a module", {"rebuilt", "left alone"}),
    ]
