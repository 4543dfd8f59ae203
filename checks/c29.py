"""C29: trace, debug and quiet modes never change what is built."""
import shlex
import sys

from symx.engine import E
from symx.env import ENV, Proc, SymBytes, attempt, exit_status, fresh
from symx.runner import Config

from . import cxxlib as X
from . import scriptlib as P
from .c20 import sources

ASSUMPTIONS = ["which of the actions that do not depend on a failing one were started before it is not compared", "with several threads only runs without a failing command are compared"]
FLAGS = [["-t"], ["-d"], ["-q"], ["-t", "-d"], ["-t", "-q"], ["-d", "-q"], ["-t", "-d", "-q"], ["--trace"], ["--debug"], ["--quite"], ["-tq"],
         ["--printruntime"], ["--printruntime", "-t"]]


class World:
    """the same files for both runs"""

    def __init__(self):
        self.keep = None

    def save(self):
        v = ENV.vfs
        self.keep = {p: (n, n.kind, n.exists, n.mtime, n.content, n.target) for p, n in v.nodes.items()}
        self.clock, self.cwd = v.clock, v.cwd

    def restore(self):
        v = ENV.vfs
        v.nodes = {}
        for p, (n, k, e, m, c, t) in self.keep.items():
            if n.exists is True or n.exists is False:
                if e is not True and e is not False:
                    # decided in the first run; a file made or removed there was decided before
                    e = bool(e)
            n.kind, n.exists, n.mtime, n.content, n.target = k, e, m, c, t
            v.nodes[p] = n
        v.clock, v.cwd = self.clock, self.cwd

    def final(self):
        """what the file system looks like afterwards"""
        v = ENV.vfs
        return {p: (n.kind, n.content if isinstance(n.content, str) else "") for p, n in v.nodes.items()
                if n.exists is True and (n is not self.keep.get(p, [None])[0] or n.content != self.keep[p][4])
                and not p.endswith(".pyc")}


def twice(build, argv2, chain=True):
    """run build(argv) as two processes on the same files; compare what they did

    chain: the actions have one possible order, so that a failing run is comparable as well"""
    w = World()
    w.save()
    res = []
    for k, extra in enumerate(([], argv2)):
        if k:
            w.restore()
        log = []
        r = attempt(lambda: build(extra, log))
        ENV.sched.drain()
        res.append((exit_status(r), list(log), w.final()))
        if k == 0:
            E.cover("fails" if exit_status(r) else "succeeds")
    a, b = res
    det = lambda: "options %s: %s instead of %s" % (argv2, b, a)
    E.check(a[0] == b[0], "same-exit-status", det)
    if a[0] and not chain:
        E.observe(a[0])
        return a, b
    E.check(sorted(map(str, a[1])) == sorted(map(str, b[1])), "same-actions", det)
    E.check(a[2] == b[2], "same-files", det)
    E.observe([a[0], sorted(map(str, a[1]))])
    return a, b


def ordered(deps, log, names):
    """every action after those it depends on"""
    pos = {n: i for i, n in enumerate(log)}
    for a in names:
        for b in deps.get(a, []):
            if a in pos and b in pos and pos[b] > pos[a]:
                return False
    return True


def rules(flags, threads=1, fail=True, times=True, msgs=("default", "none", "custom", "quiet"), act=("", "clean", "mid"), fails=(None, "out/ca", "mid", "upd", "false"), outs=("", "text", "invalid")):
    """copy, makefile, file, routine, updatable and file-set rules"""
    def fn():
        v = ENV.vfs
        v.clock = 10
        for i, s in enumerate(("a", "b")):
            v.file("/vfs/w/" + s, s, True, E.real("mtime_" + s, 0, 5) if times else 1)
        for o in ("out/ca", "mid"):
            if E.decide("have_" + o):
                v.dir("/vfs/w/out", parents=True)
                v.file("/vfs/w/" + o, "old", True, E.real("mtime_" + o, 0, 5) if times else 2)
        bad = E.pick("failing", fails if fail else [None])
        msg = E.pick("message", msgs)
        text = E.pick("text", ["{nothing}", "100% {", "} {tgt}", "{0} {tgt.gone}"]) if msg == "broken" else ""
        out = E.pick("output", outs)
        cond = E.decide("upd_needed")
        what = E.pick("request", act)

        def build(extra, log):
            L = fresh()

            def handler(cmd):
                w = [x for x in shlex.split(cmd) if not x.startswith("-")]
                log.append(cmd)

                def eff():
                    if w[0] == "rm":
                        v.remove(w[-1])
                    elif bad is None or not w[-1].endswith(bad):
                        v.write(w[-1], cmd)
                return Proc(1 if bad is not None and w[-1].endswith(bad) else 0, effect=eff,
                            out=SymBytes("made %s\n" % w[-1], 8, out != "invalid") if out else b"",
                            err=SymBytes("warned\n", 8, True) if out else b"")
            ENV.handler = handler
            k = {"default": {}, "none": {"message": None}, "custom": {"message": "MAKE {tgt} of {deps}"}, "quiet": {"message": L.util.quite()},
                 "broken": {"message": text}}[msg]
            L.copy(src="a", tgt="out/ca", **({} if msg == "default" else k))
            L.makefile(tgt="mid", deps=["out/ca", "b"], do="cat out/ca b {tgt}", **k)
            L.source("b")

            def upd(*x):
                log.append("upd")
                if bad == "upd":
                    raise RuntimeError("boom")
                return bad != "false"
            L.core.default_core().updtarget("upd", deps=["mid"], update_if=lambda s: cond, update=upd)
            L.routine(lambda: log.append("rout"), tgt="rout", deps=["upd"], update_if=lambda s: False)
            L.fileset("all", ["mid"])
            req = {"": ["rout"], "clean": ["mid", "clean"], "mid": ["all"]}[what]
            L.ex("all", argv=["-j%d" % threads] + extra + req)
        a, b = twice(build, E.pick("options", flags))
        if what == "clean":
            E.cover("clean")
        deps = {"mid": ["ca"], "upd": ["mid", "ca"], "rout": ["upd", "mid", "ca"]}
        for x in (a, b):
            if what != "clean":
                short = ["ca" if y.startswith("cp") else "mid" if y.startswith("cat") else y for y in x[1]]
                E.check(ordered(deps, short, ["mid", "upd", "rout"]), "order", lambda: str(x))
    return fn


def modules(flags):
    """a C++ application with submodule, included module and dependencies between modules; scripts; local headers"""
    def fn():
        sources(["r.cpp", "s.c", "i.c", "h/h.h"])
        bad = E.pick("failing", [None, "cc", "dep", "ld", "declaration"])
        P.script("/vfs/w/sub/mod.py", lambda: sys.modules["licant"].module("S", sources=["../s.c"], mdepends=["D"]))
        P.script("/vfs/w/sub/other_mod.py", lambda: sys.modules["licant"].implementation("D", "d", default=True, defines=["DD"]))
        rec_after = E.decide("stale")
        if rec_after:
            v = ENV.vfs
            v.dir("/vfs/w/build")
            v.file("/vfs/w/build/r.o", "old", True, E.pick("time of r.o", [0, 30]))
            v.file("/vfs/w/build/r.d", "r.o: r.cpp h/h.h", True, 30)

        def build(extra, log):
            L = fresh()
            rec = X.Recorder()

            def handler(cmd):
                p = rec(cmd)
                log.append(cmd)
                if bad == rec.cmds[-1].kind:
                    return Proc(1)
                return p
            ENV.handler = handler
            c = L.default_core()
            c.debug = "-d" in extra
            if "-d" in extra or "-t" in extra:
                c.runtime["debug"] = True
            c.runtime["trace"] = True if "-t" in extra else None
            L.execute_recursive("sub", "mod.py", debug="-d" in extra)
            L.module("I", sources=["i.c"])
            L.cxx_application("app", sources=["r.cpp"], modules=[L.submodule("S")], include_modules=["I"],
                              local_headers=[("x/h.h", "h/h.h")], mdepends=[("D", "d" if bad != "declaration" else "gone")])
            L.ex("app", argv=["-j1"] + extra)
        twice(build, E.pick("options", flags), chain=False)
    return fn


def libraries(flags):
    """included libraries, and requests that end in an error"""
    def fn():
        import json
        reg = E.pick("registry", ["user", "system"])
        P.put(P.REGISTRY[reg], json.dumps({"lib": "/vfs/lib/l.py"}))
        seen = []
        P.script("/vfs/lib/l.py", lambda: seen[-1].append("script"))
        req = E.pick("request", [["t"], ["t", "go"], ["t", "gone"], ["gone"], ["t", "actlist"], ["l", "list"], [], ["m", "list"], ["t", "print"]])
        lib = E.pick("lib", ["lib", "none"])
        default = E.pick("default", [None, "t"])

        def build(extra, log):
            L = fresh()
            seen.append(log)
            c = L.default_core()
            for f in ("debug", "trace"):
                c.runtime[f] = ("-" + f[0]) in extra
            L.include(lib)
            c.add(L.Target(tgt="t", deps=[], action=lambda s, *a: log.append("t"), go=lambda s, *a: log.append("go"), actions={"go"}))
            L.ex(default, argv=["-j1"] + extra + req)
        twice(build, E.pick("options", flags))
    return fn


def configs(tier):
    t = tier == "thorough"
    short = [["-t"], ["-d"], ["-q"], ["-t", "-q"]]
    both = {"fails", "succeeds"}
    return [
        Config("rules", rules(FLAGS[:7] if t else short, times=True, fails=(None, "out/ca", "mid", "upd", "false") if t else (None, "mid", "upd"),
                              outs=("", "text", "invalid") if t else ("", "invalid"), msgs=("default", "quiet") if not t else ("default", "none", "custom", "quiet")),
               "file, copy, routine and updatable rules in any state, one failing, 2 requests and clean, all messages, command output valid or not, "
               "%d option combinations" % (7 if t else 4), both | {"clean"}, time_limit=3000),
        Config("spellings", rules(FLAGS, times=False, fail=False, msgs=("default", "none", "custom", "broken") if not t else ("default", "none", "custom", "quiet", "broken"), act=("", "clean")),
               "every spelling of the options and their combinations (%d)" % len(FLAGS), {"succeeds"}),
        Config("threads", rules([["-t"], ["-q"], ["-d"]], threads=2, fail=False, times=False, msgs=("default",), act=("",)),
               "2 threads, every completion order", {"succeeds"}),
        Config("modules", modules(FLAGS[:7]), "a C++ application with submodules, included modules, searched scripts; one kind of command fails", both),
        Config("libraries", libraries(FLAGS[:7]), "included libraries; requests that succeed or end in an error", both),
    ]
