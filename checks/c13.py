"""C13: the directory of an output exists before the action that writes into it."""
import posixpath
import sys

from symx import shell
from symx.engine import E
from symx.env import ENV, Proc, attempt, exit_status
from symx.runner import Config

ASSUMPTIONS = ["creating one directory is atomic; anybody may create a directory just before licant does",
               "directories are not removed by others between a target's declaration and its build"]
W = "/vfs/w/"


def parents(p):
    out = []
    p = posixpath.dirname(p)
    while p not in ("/", "/vfs", "/vfs/w"):
        out.append(p)
        p = posixpath.dirname(p)
    return out[::-1]


class Dirs:
    """symbolic directory tree, creation times, interference"""

    def __init__(self, outs, later=True, race=True):
        v = self.v = ENV.vfs
        self.outs = outs
        self.dirs = []
        for o in outs:
            for d in parents(o):
                if d not in self.dirs:
                    self.dirs.append(d)
        self.born, self.before = {}, set()
        for d in self.dirs:
            if posixpath.dirname(d) in ("/vfs/w", "/vfs") or posixpath.dirname(d) in self.before:
                if E.decide("there_" + d[7:]):
                    v.dir(d)
                    v.file(d + "/keep", "keep " + d)
                    self.before.add(d)
                    self.born[d] = 0
        self.races = 1 if race else 0
        self.later = later
        v.fault = self.fault

    def fault(self, name, *a):
        if name == "mkdir":
            p = a[0]
            if p not in self.born:
                if self.races and E.decide("race_%s" % p[7:]):
                    self.races -= 1
                    self.v.nodes[p] = type(self.v.nodes["/vfs/w"])("d")
                self.born[p] = ENV.sched.next()

    def make(self, d):
        """somebody else makes the directory d and its parents"""
        for x in parents(d) + [d]:
            if x not in self.born:
                self.v.dir(x)
                self.v.file(x + "/keep", "keep " + x)
                self.born[x] = ENV.sched.next()

    def appear(self):
        """directories that come into being between declaration and build"""
        if self.later:
            k = E.choose("appear", len(self.dirs) + 1)
            if k < len(self.dirs):
                self.make(self.dirs[k])
                E.cover("appeared")

    def ready(self, out, start):
        for d in parents(out):
            E.check(self.v.exists(d), "directory-there", lambda: "%s needs %s" % (out, d))
            E.check(d in self.born and self.born[d] <= start, "made-before-the-action-starts",
                    lambda: "%s needs %s: born %s, action started %s" % (out, d, self.born.get(d), start))

    def done(self):
        for d in self.dirs:
            if self.v.nodes.get(d + "/keep") is not None:
                E.check(self.v.exists(d + "/keep"), "existing-directory-left-alone", d)


def build(paths, api, threads, order=True, gen=True, cli=False, part=False):
    def fn():
        L = sys.modules["licant"]
        v = ENV.vfs
        v.clock = 50
        v.file("/vfs/w/src", "S", mtime=1)
        ds = Dirs([W + posixpath.normpath(p) if not p.startswith("/") else posixpath.normpath(p) for p in paths])
        out = dict(zip(paths, ds.outs))
        starts = {}

        def note(o):
            j = ENV.sched.current
            start = j.start if j is not None else ENV.sched.next()
            ds.ready(o, start)
            E.check(o not in starts, "once", o)
            starts[o] = start

        def action(p):
            def f(t):
                note(out[p])
                v.write(out[p], "made")
                return True
            return f

        def handler(cmd):
            w, why = shell.words(cmd)
            o = w[-1]

            def eff():
                note(o)
                v.write(o, "made")
            return Proc(0, effect=eff)
        ENV.handler = handler
        core = L.default_core() if api in ("copy", "makefile") else L.MakeCore()
        core.runtime["threads"] = threads
        names = list(paths)
        if order and E.decide("reverse"):
            names.reverse()
        deps = ["gen"] if gen and E.decide("use_gen") else []
        kinds = {}
        for p in names:
            if api == "copy":
                L.copy(tgt=p, src="src", adddeps=deps)
            elif api == "makefile":
                L.makefile(tgt=p, deps=["src"] + deps, do="tool {tgt}")
            elif api == "ftarget":
                core.source("src")
                core.ftarget(tgt=p, deps=["src"] + deps, build=action(p))
            elif api == "core-copy":
                core.copy("src", p, deps=deps)
            elif api == "touch":
                core.touch(p, content="made", deps=deps)
        L.source("src") if api in ("copy", "makefile") else core.source("src")
        if gen:
            # an action that makes directories itself
            which = E.choose("gen_makes", len(ds.dirs)) if deps else 0

            def g(t):
                ds.make(ds.dirs[which])
                v.write("/vfs/w/gen", "made")
                return True
            core.add(L.FileTarget(tgt="gen", deps=[], build=g))
        # the second one alone must bring its directories along, too
        names = E.pick("request", [names, names[-1:]]) if part else names
        core.add(sys.modules["licant.make"].MakeFileTarget(tgt="all", deps=list(names)))
        ds.appear()
        if cli:
            r = attempt(lambda: L.ex("all", argv=["-j%d" % threads]))
            E.check(exit_status(r) == 0, "build-succeeds", str(r))
        else:
            core.update_update_needity()
            r = attempt(lambda: core.get("all").recurse_update())
            E.check(r == ("ok", True), "build-succeeds", str(r))
        ENV.sched.drain()
        for p in names:
            if api == "touch":
                E.check(v.exists(out[p]) and v.read(out[p]) == "made", "output-written", p)
            else:
                E.check(out[p] in starts, "action-ran", p)
        ds.done()
        E.cover("built")
        E.observe([sorted(starts), sorted(ds.born)])
    return fn


def later(api):
    """targets declared one after another; directories come and go between the declarations"""
    def fn():
        L = sys.modules["licant"]
        v = ENV.vfs
        v.clock = 50
        v.file("/vfs/w/src", "S", mtime=1)
        global_ = api in ("copy", "makefile")
        core = L.default_core() if global_ else L.MakeCore()
        core.runtime["threads"] = 1
        one, two = E.pick("paths", [("d/x", "d/y"), ("d/e/x", "d/y"), ("d/x", "d/e/y"), ("d/e/x", "d/e/y")])
        seen = {}

        def note(p):
            seen[p] = v.exists(posixpath.dirname(W + p))

        def action(p):
            def f(t):
                note(p)
                if seen[p]:
                    v.write(W + p, "made")
                return True
            return f

        def handler(cmd):
            o = shell.words(cmd)[0][-1]
            o = o[7:] if o.startswith(W) else o

            def eff():
                note(o)
                if seen[o]:
                    v.write(W + o, "made")
            return Proc(0, effect=eff)
        ENV.handler = handler

        def declare(p):
            if api == "copy":
                L.copy(tgt=p, src="src")
            elif api == "makefile":
                L.makefile(tgt=p, deps=["src"], do="tool {tgt}")
            elif api == "ftarget":
                core.ftarget(tgt=p, deps=["src"], build=action(p))
            elif api == "class":
                core.add(L.FileTarget(tgt=p, deps=[], build=action(p)))
            elif api == "core-copy":
                core.copy("src", p)
            elif api == "touch":
                core.touch(p, content="made")
        L.source("src") if global_ else core.source("src")
        if E.decide("there"):
            v.dir(W + "d/e", parents=True)
        declare(one)
        between = E.pick("between", ["nothing", "build"])

        def build(p):
            core.update_update_needity()
            r = attempt(lambda: core.get(p).recurse_update())
            ENV.sched.drain()
            E.check(r == ("ok", True), "build-succeeds", lambda: "%s: %s" % (p, r))
            ok = v.exists(W + p) if api == "touch" else seen.get(p) is True
            E.check(ok, "directory-there", lambda: "%s: %s" % (p, sorted(v.nodes)))
        if between == "build":
            build(one)
        gone = E.pick("then", ["nothing", "removed", "made"])
        if gone == "removed":
            for q in sorted(v.nodes, reverse=True):
                if q.startswith(W + "d/") or q == W + "d":
                    del v.nodes[q]
        elif gone == "made":
            v.dir(W + "d/e", parents=True)
        declare(two)
        build(two)
        E.cover(gone)
        E.observe([one, two])
    return fn


def link():
    """the directory is named through a symbolic link"""
    def fn():
        L = sys.modules["licant"]
        v = ENV.vfs
        v.dir("/vfs/w/far")
        v.dir("/vfs/w/far/deep")
        v.link("/vfs/w/ln", "far/deep")
        v.file("/vfs/w/src", "S", mtime=1)
        p, real = E.pick("path", [("ln/n/x", "/vfs/w/far/deep/n/x"), ("ln/../n/x", "/vfs/w/far/n/x"), ("./ln/n/m/x", "/vfs/w/far/deep/n/m/x"),
                                  ("ln/x", "/vfs/w/far/deep/x"), ("n/../k/x", "/vfs/w/k/x")])
        seen = []

        def f(t):
            seen.append(v.exists(posixpath.dirname(real)))
            return True
        if E.decide("core"):
            c = L.MakeCore()
            c.runtime["threads"] = 1
            c.ftarget(tgt=p, build=f)
        else:
            c = L.default_core()
            c.runtime["threads"] = 1
            c.add(L.FileTarget(tgt=p, deps=[], build=f))
        c.update_update_needity()
        r = attempt(lambda: c.get(p).recurse_update())
        ENV.sched.drain()
        E.check(r == ("ok", True) and seen == [True], "directory-there", lambda: "%s: %s %s" % (p, r, seen))
        E.cover("built")
        E.observe(seen)
    return fn


def configs(tier):
    P2 = ["d/e/x", "d/f/y"]
    P3 = ["d/x", "d/e/./y", "/vfs/w/q/z"]
    c = {"built", "appeared"}
    q = [
        Config("copy", build(P2, "copy", 2, order=False), "copies into 3 directories that may be missing, 2 threads; one directory may appear "
               "before the build, one just before licant makes it, one by an action", c),
        Config("makefile", build(P2, "makefile", 2, gen=False, cli=True), "make rules, by the command line", c),
        Config("ftarget", build(P3, "ftarget", 2, order=False), "3 targets with functions as actions", c),
        Config("core-copy", build(P2, "core-copy", 2), "copies on another core", c),
        Config("touch", build(["d/e/x", "q/y"], "touch", 1), "touch targets", c),
        Config("part-ftarget", build(["d/e/x", "d/e/y"], "ftarget", 1, gen=False, part=True), "two targets sharing a missing "
               "directory, both or the later one requested", c),
        Config("part-touch", build(["d/e/x", "d/e/y"], "touch", 1, gen=False, part=True), "the same with touch", c),
        Config("part-core-copy", build(["d/e/x", "d/e/y"], "core-copy", 1, gen=False, part=True), "the same with copy on a core", c),
        Config("part-copy", build(["d/e/x", "d/e/y"], "copy", 1, gen=False, part=True), "the same with copy", c),
        Config("part-makefile", build(["d/e/x", "d/y"], "makefile", 1, gen=False, part=True), "the same with rules", c),
        Config("later-ftarget", later("ftarget"), "two targets declared one after another, directories made or removed between the "
               "declarations, with or without a build between", {"removed", "made"}),
        Config("later-class", later("class"), "the same with target objects", {"removed", "made"}),
        Config("later-copy", later("copy"), "the same with copy", {"removed", "made"}),
        Config("later-makefile", later("makefile"), "the same with rules", {"removed", "made"}),
        Config("later-core-copy", later("core-copy"), "the same with copy on a core", {"removed", "made"}),
        Config("later-touch", later("touch"), "the same with touch", {"removed", "made"}),
        Config("link", link(), "5 spellings through a symbolic link", {"built"}),
    ]
    if tier == "quick":
        return q
    P4 = ["d/e/x", "d/e/f/y", "g/z"]
    return q + [
        Config("copy-2", build(P2, "copy", 2), "copies in either order, completions at any time", c, fine=1),
        Config("copy-3", build(P4, "copy", 2, gen=False), "copies into 4 directories", c),
        Config("ftarget-4", build(P4, "ftarget", 3), "functions, 3 threads", c),
        Config("core-copy-4", build(P4, "core-copy", 2, gen=False), "another core", c),
        Config("makefile-3", build(P4, "makefile", 2), "rules", c),
    ]
