"""C06: a target is updated exactly when it or something it depends on is out of date."""
import sys

from symx.engine import E, And, Not, Or, zb
from symx.env import ENV, attempt
from symx.runner import Config

from .makelib import Project

ASSUMPTIONS = ["modification times are arbitrary real numbers in [0, 5); a missing file counts as out of date",
               "build actions write their output or leave it alone, and do not touch other files"]


def judge(p, root, built, res):
    E.check(res[0] == "ok", "no-error", lambda: "%s %s" % (res, p.describe()))
    clo = p.closure(root)
    memo = {}
    for it in p.items:
        if it.kind in ("source", "fileset"):
            continue
        if it.i in clo:
            E.check(p.need(it.i, memo) == zb(it.ran == 1), "updated-exactly-if-needed",
                    lambda it=it: "%s ran %d times; %s" % (it.name, it.ran, p.describe()))
            E.cover("updated" if it.ran else "left alone")
        else:
            E.check(it.ran == 0, "outside-closure", p.describe)
            E.cover("outside")
        E.check(it.ran <= 1, "twice", p.describe)
    for i, s, e, ok in p.log:
        for j, s2, e2, ok2 in p.log:
            if j in p.items[i].deps:
                E.check(e2 < s, "order", p.describe)
    E.observe([it.ran for it in p.items])


def build(n, kinds, force=False, writes=False, threads=1, order=None, maxdeps=9, anyroot=True):
    def fn():
        L = sys.modules["licant"]
        p = Project(n, kinds).shape(maxdeps)
        root = E.choose("root", n) if anyroot else n - 1
        p.state(force)
        if writes:
            for it in p.items:
                it.writes = E.decide("writes_%d" % it.i) if it.kind == "file" else True
        c = L.MakeCore()
        c.runtime["threads"] = threads
        p.declare(c, order)
        # the oracle speaks about the state before the build
        pre = [(it.ex, it.mt) for it in p.items]
        res = attempt(lambda: c.do(p.items[root].name))
        ENV.sched.drain()
        for it, (ex, mt) in zip(p.items, pre):
            it.ex, it.mt = ex, mt
        judge(p, root, None, res)
    return fn


def twice(n, kinds, anyroot=True, redeclare=None, outside=False):
    """a second request in the same process, when update conditions have changed in between, or one of the targets
    has been declared again, perhaps as another kind and with other dependencies"""
    def fn():
        L = sys.modules["licant"]
        p = Project(n, kinds).shape()
        roots = [E.choose("root%d" % k, n) if anyroot else n - 1 for k in range(2)]
        p.state()
        c = L.MakeCore()
        c.runtime["threads"] = 1
        p.declare(c)
        for k, root in enumerate(roots):
            if k:
                for it in p.items:
                    it.ran, p.log[:] = 0, []
                    if it.kind in ("upd", "routine"):
                        it.cond = E.bool("cond2_%d" % it.i)
                if outside:
                    # files made, removed or written by others between the requests
                    for it in p.items:
                        if it.kind in ("source", "file"):
                            nd = ENV.vfs.get(it.path)
                            nd.exists = it.ex = E.bool("exists2_%d" % it.i)
                            nd.mtime = it.mt = E.real("mtime2_%d" % it.i, 0, 90)
                if redeclare:
                    again(p, p.items[E.choose("again", n)], redeclare)
            pre = [(it.ex, it.mt) for it in p.items]
            res = attempt(lambda: c.do(p.items[root].name))
            ENV.sched.drain()
            for it, (ex, mt) in zip(p.items, pre):
                it.ex, it.mt = ex, mt
            judge(p, root, None, res)
            for it in p.items:
                if it.kind == "file" and it.ran:
                    nd = ENV.vfs.nodes[it.path]
                    it.ex, it.mt = True, nd.mtime
    return fn


def again(p, it, kinds):
    # a name that is not that of a file goes first (C09)
    it.kind = E.pick("new_kind", kinds if it.kind == "file" else [k for k in kinds if k != "file"])
    it.deps = [j for j in range(it.i) if E.decide("new_dep_%d" % j)]
    it.force = it.kind == "file" and E.decide("new_force")
    if it.kind in ("upd", "routine"):
        it.cond = E.bool("new_cond")
    elif ENV.vfs.get(it.path) is None:
        it.ex, it.mt = False, 0
    p.declare(p.core, [it.i])
    E.cover("declared again")


def dirs():
    """directories in the closure do not make anything out of date, whatever their times"""
    def fn():
        L = sys.modules["licant"]
        v = ENV.vfs
        d = v.dir("/vfs/w/build")
        d.mtime = E.real("mtime_dir", 0, 5)
        ex, mt, ms = E.bool("exists_out"), E.real("mtime_out", 0, 5), E.real("mtime_src", 0, 5)
        v.file("/vfs/w/build/out", "", ex, mt)
        v.file("/vfs/w/src", "", True, ms)
        c = L.MakeCore()
        c.source("src")
        ran = []
        c.makedir("build", deps=[])
        c.ftarget(tgt="build/out", build=lambda s: ran.append(1), deps=["src", "build"])
        res = attempt(lambda: c.do("build/out"))
        E.check(res[0] == "ok", "no-error", str(res))
        E.check(Or(Not(ex), (ms > mt)) == zb(bool(ran)), "directory-time-ignored", str(ran))
        E.check(not [x for x in v.log if x[0] == "mkdir"], "existing-directory-left-alone", str(v.log))
        E.cover("ran" if ran else "idle")
        E.observe(ran)
    return fn


def configs(tier):
    cov = {"updated", "left alone", "outside"}
    q = [
        Config("files-3", build(3, ["source", "file"], force=True), "3 sources or file targets, every acyclic dependency "
               "relation, every request, every existence, time and force flag", cov),
        Config("mixed-3", build(3, [["source", "file", "upd"], ["file", "fileset", "upd", "routine"],
                                    ["file", "upd", "fileset", "routine"]], anyroot=False),
               "3 targets out of source, file, file set, updatable, routine; request for the last", {"updated", "left alone"}),
        Config("chain-4", build(4, [["source"], ["file", "fileset"], ["file", "fileset"], ["file"]], anyroot=False),
               "4 targets, source below files and file sets", {"updated", "left alone"}),
        Config("threads-3", build(3, [["source"], ["file"], ["file"]], threads=2, writes=True, order=[2, 1, 0]),
               "source and 2 file targets declared dependents first, 2 threads, actions that may leave the output alone",
               {"updated", "left alone"}),
        Config("twice-2", twice(2, ["file", "upd", "routine"]), "2 targets, two requests in one process with other update conditions",
               cov),
        Config("twice-3", twice(3, [["upd"], ["file", "upd"], ["file", "upd"]], anyroot=False), "3 targets, the same request twice with "
               "other update conditions", {"updated", "left alone"}),
        Config("again-3", twice(3, [["file", "upd"], ["file"], ["file", "upd"]], False, ["file", "upd"]), "3 targets, a request, one target declared "
               "again with other dependencies, the same request", {"updated", "left alone", "declared again"}),
        Config("outside-2", twice(2, [["source", "file"], ["file"]], outside=True), "2 targets, two requests in one process, files made, removed "
               "or written by others in between", {"updated", "left alone"}),
        Config("outside-3", twice(3, [["source"], ["file"], ["file"]], False, outside=True), "3 targets, the same", {"updated", "left alone"}),
        Config("dirs", dirs(), "a directory with any time among the dependencies", {"ran", "idle"}),
    ]
    if tier == "quick":
        return q
    return q + [
        Config("mixed-3-all", build(3, ["source", "file", "fileset", "upd", "routine"], force=True), "every kind at every place, "
               "every request", cov),
        Config("files-4", build(4, ["source", "file"]), "4 sources or file targets, every request", cov),
        Config("mixed-4", build(4, [["source", "upd"], ["file", "fileset"], ["file", "fileset", "upd"], ["file", "upd"]],
                                anyroot=False), "4 mixed targets", {"updated", "left alone"}),
    ]
