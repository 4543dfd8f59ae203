"""C10: clean deletes the generated files of the target and nothing else."""
import shlex
import sys

from symx.engine import E, And, Not, Or, zb
from symx.env import ENV, Proc, attempt, exit_status
from symx.runner import Config

from .makelib import Project

ASSUMPTIONS = ["the delete command is rm with options and names; its effect is that of POSIX rm"]


def rm(ran):
    def handler(cmd):
        w = shlex.split(cmd) if isinstance(cmd, str) else list(cmd)

        def eff():
            ran.append(w)
            if w and w[0] == "rm":
                for x in w[1:]:
                    if not x.startswith("-") and ENV.vfs.exists(x):
                        if ENV.vfs.node(x)[1].kind == "d" and any("r" in o for o in w[1:] if o.startswith("-")):
                            for q in list(ENV.vfs.nodes):
                                if (q + "/").startswith(ENV.vfs.norm(x) + "/"):
                                    ENV.vfs.nodes[q].exists = False
                        else:
                            ENV.vfs.remove(x)
        return Proc(0, effect=eff)
    return handler


def clean(n, kinds, entry="do", anyroot=True, built=False):
    def fn():
        L = sys.modules["licant"]
        p = Project(n, kinds).shape()
        root = E.choose("root", n) if anyroot else n - 1
        if p.items[root].kind == "upd" or p.items[root].kind == "routine":
            E.finish("infeasible")
        p.state()
        v = ENV.vfs
        v.file("/vfs/w/bystander", "x")
        v.dir("/vfs/w/dir")
        ran = []
        ENV.handler = rm(ran)
        if entry == "do":
            c = L.MakeCore()
        else:
            c = L.default_core()
            c.source = lambda s: L.source(s)
        if entry == "do" and E.decide("weakly_bound"):
            c.add(L.FileTarget(tgt="bystander", deps=[], build=lambda s: E.check(False, "no-action", "bystander"), use_dirkeep=False))
            p.weak = ["bystander"]
            E.cover("weakly bound")
        p.declare(c)
        if built:
            # in the same process, after sources that were missing have come into being, and a build
            for it in p.items:
                if it.kind == "source" and not it.ex and E.decide("appears_%d" % it.i):
                    v.write(it.path, "new")
                    it.ex = True
            r = attempt(lambda: c.do(p.items[root].name))
            ENV.sched.drain()
            for it in p.items:
                if it.kind in ("source", "file"):
                    it.ex = v.is_there(v.get(it.path))
                it.ran = 0
            E.cover("built")
        if entry == "do":
            r = attempt(lambda: c.do(p.items[root].name, "clean"))
        elif entry == "cli":
            r = attempt(lambda: L.ex(p.items[n - 1].name, argv=["-j1", p.items[root].name, "clean"]))
        else:
            r = attempt(lambda: L.ex(p.items[root].name, argv=["-j1", "clean"]))
        ENV.sched.drain()
        E.check(exit_status(r) == 0, "no-error", str(r))
        clo = p.closure(root)
        for it in p.items:
            if it.kind not in ("source", "file"):
                E.check(it.ran == 0, "no-action", p.describe)
                continue
            now = v.is_there(v.get(it.path))
            if it.kind == "file" and it.i in clo:
                E.check(not now, "generated-file-deleted", lambda it=it: "%s; commands %s; %s" % (it.name, ran, p.describe()))
                E.cover("deleted")
            else:
                E.check(zb(it.ex) == zb(now), "other-file-untouched",
                        lambda it=it: "%s; commands %s; %s" % (it.name, ran, p.describe()))
                E.cover("kept source" if it.kind == "source" else "kept other")
            E.check(it.ran == 0, "no-action", p.describe)
        for x in ("/vfs/w/bystander", "/vfs/w/dir", "/vfs/w"):
            E.check(v.exists(x), "bystander", x)
        E.observe([len(ran)])
    return fn


def rules(entry):
    """copies into directories made by the build"""
    def fn():
        L = sys.modules["licant"]
        v = ENV.vfs
        ran = []
        ENV.handler = rm(ran)
        v.file("/vfs/w/a.txt", "A")
        v.file("/vfs/w/b.txt", "B")
        have = {}
        dirs = E.decide("dirs")
        outs = ["/vfs/w/o/a", "/vfs/w/o/p/b", "/vfs/w/o/other"]
        for d in ("/vfs/w/o", "/vfs/w/o/p"):
            v.dir(d, dirs)
        for o in outs:
            have[o] = dirs and E.decide("have_" + o[-1])
            v.file(o, "old", have[o])
        L.copy(src="a.txt", tgt="o/a")
        L.copy(src="o/a", tgt="o/p/b", adddeps=["b.txt"] if E.decide("adddep") else [])
        L.source("b.txt")
        L.copy(src="b.txt", tgt="o/other")
        L.fileset("all", ["o/p/b"])
        r = attempt(lambda: L.ex("all", argv=["-j1", "clean"]) if entry == "default" else L.ex("all", argv=["-j1", "o/p/b", "clean"]))
        E.check(exit_status(r) == 0, "no-error", str(r))
        E.check(not v.exists("/vfs/w/o/a") and not v.exists("/vfs/w/o/p/b"), "generated-file-deleted", lambda: str(ran))
        E.check(v.exists("/vfs/w/o/other") == have["/vfs/w/o/other"], "other-file-untouched", lambda: str(ran))
        E.check(v.exists("/vfs/w/a.txt") and v.exists("/vfs/w/b.txt"), "source-kept", lambda: str(ran))
        for d in ("/vfs/w/o", "/vfs/w/o/p"):
            E.check(v.exists(d) == dirs, "directories-untouched", lambda: str(ran))
        E.cover("dirs" if dirs else "no dirs")
        E.observe(sorted(v.exists(o) for o in outs))
    return fn


def configs(tier):
    k = [["source"], ["source", "file"], ["file", "fileset"]]
    q = [
        Config("do-3", clean(3, k), "3 targets: source, source or file, file or file set; every relation, request and existence",
               {"deleted", "kept source", "kept other", "weakly bound"}),
        Config("built-3", clean(3, [["source"], ["source", "file"], ["file"]], anyroot=False, built=True), "after a build in the same "
               "process, with sources that came into being after their declaration", {"deleted", "kept source", "kept other", "built"}),
        Config("mixed-3", clean(3, [["source", "upd"], ["file", "upd", "fileset"], ["file", "fileset"]], "cli"),
               "with updatable targets in the closure, by the command line", {"deleted", "kept other"}),
        Config("default-3", clean(3, [["source"], ["file"], ["file", "fileset"]], "default"), "as action of the default target",
               {"deleted", "kept other"}),
        Config("rules", rules("default"), "copies in directories made by the build, as action of the default target", {"dirs", "no dirs"}),
        Config("rules-named", rules("named"), "the same with the target named", {"dirs", "no dirs"}),
    ]
    if tier == "quick":
        return q
    return q + [
        Config("do-4", clean(4, [["source"], ["source", "file"], ["file", "fileset", "upd"], ["file", "fileset"]]),
               "4 targets", {"deleted", "kept source", "kept other"}),
    ]
