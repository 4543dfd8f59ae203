"""C07: a finished build leaves nothing to do, an edit rebuilds exactly the dependents."""
import posixpath
import shlex
import sys

from symx.engine import E, And, If, Not, Or, SymNum, zb
from symx.env import ENV, Proc, attempt, exit_status, fresh
from symx.runner import Config

from .makelib import Project

ASSUMPTIONS = ["no file carries a modification time later than the start of the first build",
               "the clock never runs backwards; two writes may or may not get the same time stamp"]


def slow_clock():
    """a write may get the same time stamp as the one before"""
    v = ENV.vfs
    v.clock = 5
    cnt = [0]

    def tick():
        cnt[0] += 1
        return 0 if E.decide("sametime_%d" % cnt[0]) else 1
    v.tick = tick


def newer():
    """how much newer an edited file is: any fraction of a second, or a second"""
    d = E.real("newer_by", 0, 1)
    E.assume(d > 0)
    return d


def graph(n, kinds, threads, clock=False, edits=True, times=True):
    def fn():
        p = Project(n, kinds).shape()
        root = n - 1
        p.state(times=times)
        if clock:
            slow_clock()
        else:
            ENV.vfs.clock = 5
        for it in p.items:
            if it.kind == "source":
                E.assume(it.ex)
                ENV.vfs.get(it.path).exists = True

        def build(new_process):
            L = fresh() if new_process else sys.modules["licant"]
            if new_process or not hasattr(p, "core"):
                c = L.MakeCore()
                c.runtime["threads"] = threads
                p.declare(c)
            p.log = []
            for it in p.items:
                it.ran = 0
            r = attempt(lambda: p.core.do(p.items[root].name))
            ENV.sched.drain()
            E.check(r[0] == "ok", "no-error", lambda: "%s %s" % (r, p.describe()))
            return sorted(i for i, *_ in p.log if p.items[i].kind != "source")

        first = build(False)
        how = E.choose("again", 2)
        second = build(bool(how))
        E.check(second == [], "second-build-runs-nothing", lambda: "first %s second %s" % (first, p.describe()))
        E.cover("again in a new process" if how else "again in the same process")
        obs = [first, second]
        if edits:
            clo = p.closure(root)
            src = [i for i in sorted(clo) if p.items[i].kind == "source"]
            if src:
                k = src[E.choose("edit", len(src))]
                v = ENV.vfs
                v.get(p.items[k].path).mtime = v.clock + newer()
                v.clock = v.clock + 1
                third = build(not E.decide("edit_in_process"))
                want = sorted(i for i in clo if p.items[i].kind == "file" and k in p.closure(i))
                E.check(third == want, "edit-rebuilds-exactly-the-dependents",
                        lambda: "edited n%d, expected %s: %s" % (k, want, p.describe()))
                E.cover("edit rebuilds" if want else "edit without dependents")
                if len(want) < len([i for i in clo if p.items[i].kind == "file"]):
                    E.cover("edit leaves others")
                fourth = build(not how)
                E.check(fourth == [], "fourth-build-runs-nothing", p.describe)
                obs += [third, fourth]
        E.observe(obs)
    return fn


def rules(threads, first, last):
    """the built-in rules, commands and the command line"""
    def fn():
        v = ENV.vfs
        v.clock = 5
        v.file("/vfs/w/a.txt", "A", True, E.real("mtime_a", 0, 5))
        v.file("/vfs/w/b.txt", "B", True, E.real("mtime_b", 0, 5))
        outs = ["out/a2.txt", "out/deep/a3.txt", "out/ab", "gen"][first:last]
        for k, o in enumerate(outs):
            if E.decide("have_%d" % k):
                v.dir(posixpath.dirname("/vfs/w/" + o), parents=True)
                v.file("/vfs/w/" + o, "old", True, E.real("mtime_o%d" % k, 0, 5))
        ran = []
        more = E.decide("adddeps")

        def handler(cmd):
            if not isinstance(cmd, str):
                cmd = " ".join(cmd)
            ws = shlex.split(cmd)
            w = [x for x in ws if not x.startswith("-")]
            opts = [x for x in ws[1:] if x.startswith("-")]

            def eff():
                ran.append(w[-1])
                if w[0] == "cp" and any("u" in o for o in opts) and v.exists(w[-1]) and not v.get(v.norm(w[1])).mtime > v.get(v.norm(w[-1])).mtime:
                    return
                v.write(w[-1], " ".join(v.read(x) for x in w[1:-1]))
                if w[0] == "cp" and any("p" in o or "a" in o for o in opts):
                    # the copy keeps the time of its source
                    v.get(v.norm(w[-1])).mtime = v.get(v.norm(w[1])).mtime
            return Proc(0, effect=eff)
        ENV.handler = handler

        def build(new=True):
            L = fresh()
            L.copy(src="a.txt", tgt="out/a2.txt")
            L.copy(src="out/a2.txt", tgt="out/deep/a3.txt", adddeps=["b.txt"] if more else [])
            L.source("b.txt")
            L.makefile(tgt="out/ab", deps=["out/deep/a3.txt", "b.txt"], do="cat out/deep/a3.txt b.txt {tgt}")
            c = L.default_core()

            def gen(s):
                ran.append("gen")
                with open(s.tgt, "w") as f:
                    f.write("generated")
            c.add(L.FileTarget(tgt="gen", deps=["b.txt"], build=gen))
            L.fileset("all", ["out/ab", "gen"])
            del ran[:]
            r = attempt(lambda: L.ex("all", argv=["-j%d" % threads] + (["-q"] if quiet else [])))
            ENV.sched.drain()
            E.check(exit_status(r) == 0, "no-error", str(r))
            hist.append([posixpath.relpath(x, "/vfs/w") if x.startswith("/") else x for x in ran])
            return sorted(hist[-1])
        hist = []
        quiet = E.decide("quiet")
        build()
        E.check(build() == [], "second-build-runs-nothing", lambda: str(hist))
        e = E.pick("edit", ["a.txt", "b.txt"])
        v.get("/vfs/w/" + e).mtime = v.clock + newer()
        v.clock += 1
        got = build()
        want = ["out/a2.txt", "out/ab", "out/deep/a3.txt"] if e == "a.txt" else ["gen", "out/ab"] + (["out/deep/a3.txt"] if more else [])
        E.check(got == sorted(want), "edit-rebuilds-exactly-the-dependents", lambda: "%s edited: %s" % (e, hist))
        E.check(build() == [], "fourth-build-runs-nothing", lambda: str(hist))
        E.cover("edited " + e)
        E.observe([sorted(h) for h in hist])
    return fn


def dirs(n, threads):
    """outputs in directories that are targets themselves, or that are created on the way"""
    def fn():
        v = ENV.vfs
        v.clock = 5
        v.file("/vfs/w/s", "", True, 2)
        given = E.pick("directory", ["missing", "declared", "declared and there"])
        if given == "declared and there":
            v.dir("/vfs/w/d").mtime = E.real("mtime_d", 0, 5)
        names = ["d/a", "d/b", "d/e/c", "d/c"][:n]
        deps = [[j for j in range(i) if E.decide("dep_%d_%d" % (i, j))] for i in range(n)]
        kind = E.pick("core", ["default", "own"])
        log, hist = [], []

        def declare():
            L = fresh()
            c = L.default_core() if kind == "default" else L.MakeCore()
            c.runtime["threads"] = threads
            if given != "missing":
                if kind == "default":
                    L.makedir("d")
                else:
                    c.makedir("d", deps=[])

            def act(i):
                def f(s):
                    log.append(i)
                    v.write("/vfs/w/" + names[i], "x")
                return f
            for i in range(n):
                dl = [names[j] for j in deps[i]] + ["s"] + (["d"] if given != "missing" else [])
                if kind == "default":
                    c.add(L.FileTarget(tgt=names[i], deps=dl, build=act(i)))
                else:
                    c.ftarget(names[i], deps=dl, build=act(i))
            L.fileset("all", list(names), core=c)
            return c

        def build(c):
            del log[:]
            r = attempt(lambda: c.do("all"))
            ENV.sched.drain()
            hist.append(sorted(log))
            E.check(r[0] == "ok", "no-error", lambda: "%s %s %s %s %s" % (r, given, kind, deps, hist))
            return sorted(log)

        def d():
            return "directory %s, %s core, outputs %s depend on %s: %s" % (given, kind, names, deps, hist)
        c = declare()
        E.check(build(c) == list(range(n)), "everything-built", d)
        how = E.choose("again", 2)
        if how:
            c = declare()
        E.check(build(c) == [], "second-build-runs-nothing", d)
        E.cover(given)
        v.get("/vfs/w/s").mtime = v.now()
        c = declare()
        E.check(build(c) == list(range(n)), "edit-rebuilds-exactly-the-dependents", d)
        E.check(build(c if E.decide("same") else declare()) == [], "fourth-build-runs-nothing", d)
        E.observe(hist)
    return fn


def configs(tier):
    cov = {"again in a new process", "again in the same process", "edit rebuilds", "edit leaves others"}
    k3 = [["source"], ["source", "file"], ["file", "fileset"]]
    q = [
        Config("graph-3", graph(3, k3, 1, True), "a source, a source or file, and a file or file set; every initial "
               "state; writes with equal or increasing time stamps; repeated in the same or a new process; every "
               "single edit", cov),
        Config("graph-4", graph(4, [["source"], ["file"], ["file", "fileset"], ["file"]], 1, times=False), "4 targets, every set of files missing "
               "at first, every single edit", {"again in a new process", "again in the same process", "edit rebuilds"}),
        Config("dirs", dirs(3, 1), "3 outputs in a directory and one below it, that are missing, declared as targets or there "
               "with any time; any dependencies; both cores; in the same or a new process",
               {"missing", "declared", "declared and there"}),
        Config("rules", rules(1, 0, 2), "copy, makefile, file and file-set rules in missing or existing directories, run by the "
               "command line, every edit; two outputs exist with any time or not", {"edited a.txt", "edited b.txt"}),
    ]
    if tier == "quick":
        return q
    return q + [
        Config("graph-3-threads", graph(3, k3, 2, True), "as graph-3 with 2 threads and every completion order", cov),
        Config("graph-4-wide", graph(4, [["source"], ["source", "file"], ["file", "fileset"], ["file", "fileset"]], 1),
               "4 targets with two sources", cov),
        Config("graph-4-times", graph(4, [["source"], ["file"], ["file", "fileset"], ["file"]], 1), "4 targets, every initial "
               "state", {"again in a new process"}),
        Config("dirs-threads", dirs(4, 2), "4 outputs, 2 threads", {"missing", "declared", "declared and there"}),
        Config("rules-2", rules(1, 1, 4), "the rules, three outputs in any state", {"edited a.txt", "edited b.txt"}),
        Config("rules-threads", rules(2, 0, 2), "the rules with 2 threads", {"edited a.txt", "edited b.txt"}),
    ]
