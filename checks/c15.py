"""C15: the exit status tells whether the build succeeded."""
import sys

from symx.engine import E, And, zb, zn
from symx.env import ENV, Proc, SymBytes, attempt, exit_status, fresh
from symx.runner import Config

ASSUMPTIONS = ["an action fails by returning False, by raising, or by a command with a status other than 0"]
KINDS = ["file", "command", "upd", "routine", "fileset"]


class Build:
    """n targets that all have work to do; symbolic graph and outcomes"""

    def __init__(self, n, kinds, modes, shape=None):
        self.n = n
        self.ok = [True] * n          # python bool or z3
        self.started = []
        self.deps = [[] for _ in range(n)]
        for i in range(n):
            for j in range(i):
                if shape is None:
                    if E.decide("dep_%d_%d" % (i, j)):
                        self.deps[i].append(j)
                elif (i, j) in shape:
                    self.deps[i].append(j)
        self.kind = [E.pick("kind_%d" % i, kinds if not isinstance(kinds[0], list) else kinds[i]) for i in range(n)]
        self.modes = modes
        self.sources = []

    def closure(self, root):
        out, st = set(), [root]
        while st:
            x = st.pop()
            if x not in out:
                out.add(x)
                st.extend(self.deps[x])
        return out

    def act(self, i):
        def f(*a):
            self.started.append(i)
            m = self.mode[i]
            if m == "raise":
                raise RuntimeError("boom")
            if m == "exit":
                sys.exit(0)
            return {"false": False, "true": True, "none": None}[m]
        return f

    def declare(self, core):
        L = sys.modules["licant"]
        self.mode = [None] * self.n
        rcs = {}

        def handler(cmd):
            k = int((cmd if isinstance(cmd, str) else " ".join(cmd)).split("/n")[-1])
            self.started.append(k)
            return Proc(rcs[k], SymBytes("out", E.int("osize_%d" % k, 0, 200000), E.bool("outf_%d" % k)))
        ENV.handler = handler
        for i in range(self.n):
            k, d = self.kind[i], ["n%d" % j for j in self.deps[i]] + self.sources
            if k == "command":
                rcs[i] = E.int("status_%d" % i, -64, 255)
                self.ok[i] = zn(rcs[i]) == 0
                core.add(L.FileTarget(tgt="n%d" % i, deps=d, build=L.Executor("tool {tgt}")))
                continue
            if k == "fileset":
                core.add(sys.modules["licant.make"].MakeFileTarget(tgt="n%d" % i, deps=d))
                continue
            self.mode[i] = E.pick("mode_%d" % i, self.modes)
            self.ok[i] = self.mode[i] not in ("raise", "false")
            if k == "file":
                core.add(L.FileTarget(tgt="n%d" % i, deps=d, build=self.act(i)))
            elif k == "upd":
                core.updtarget("n%d" % i, deps=d, update_if=lambda s: True, update=self.act(i))
            elif k == "routine":
                core.routine(self.act(i), deps=d, tgt="n%d" % i)


def build(n, kinds, modes, threads, how, shape=None, files=False):
    def fn():
        j = E.pick("threads", threads)
        way = E.pick("request", how)
        if way == "process":
            fresh(["/vfs/w/make.py", "-j%d" % j, "n%d" % (n - 1)])
        L = sys.modules["licant"]
        b = Build(n, kinds, modes, shape)
        if files:
            # outdated outputs that are there already, and a source that is newer
            ENV.vfs.file("/vfs/w/src", "", True, 9)
            for i in range(n):
                ENV.vfs.file("/vfs/w/n%d" % i, "", E.bool("there_%d" % i), 3)
            b.sources = ["src"]
        b.declare(L.default_core())
        root = "n%d" % (n - 1)
        k = b.kind[n - 1]
        opt = ["-j%d" % j]
        if way == "process":
            f = lambda: L.ex("nothing-by-default")
        elif way == "default":
            f = lambda: L.ex(root, argv=opt, colorwrap=True)
        elif way == "target":
            f = lambda: L.ex("n0", argv=opt + [root])
        elif way == "action":
            a = {"routine": "recurse_update", "upd": "recurse_update_get_args", "fileset": "makefile"}.get(k, "makefile")
            f = lambda: L.ex("n0", argv=opt + ([root, a] if k != "routine" else [root]))
        elif way == "own-action":
            a = {"file": "build", "command": "build", "upd": "update", "routine": "update", "fileset": "recurse_update"}[k]
            f = lambda: L.ex(root, argv=opt + [a])
            if k != "fileset":
                b.closure = lambda r: {n - 1}
        r = attempt(f)
        ENV.sched.drain()
        good = And(*[zb(b.ok[i]) for i in sorted(b.closure(n - 1))])
        st = exit_status(r)
        det = lambda: "%s: kinds %s deps %s modes %s -> %s, status %s, started %s" % (way, b.kind, b.deps, b.mode, r, st, b.started)
        E.check(good == zb(st == 0), "status-0-iff-everything-succeeded", det)
        E.cover("success" if st == 0 else "failure")
        E.observe(st == 0)
    return fn


def configs(tier):
    c = {"success", "failure"}
    m = ["true", "false", "raise"]
    q = [
        Config("graph-3", build(3, [["file"], ["file"], ["file", "fileset"]], m, [1, 2], ["target"]),
               "every graph of 3 file targets, returning True or False or raising, 1..2 threads", c, fine=1),
        Config("kinds-2", build(2, KINDS, ["true", "none", "false", "raise"], [2], ["default", "target", "action", "own-action", "process"],
                                {(1, 0)}),
               "every pair of kinds, all ways to ask", c),
        Config("commands-3", build(3, [["command"], ["command", "routine"], ["command", "fileset", "routine"]], m, [1, 2], ["default"],
                                   {(1, 0), (2, 1), (2, 0)}), "commands with any status and output", c),
        Config("outdated-3", build(3, [["command"], ["command", "file"], ["file", "command", "fileset"]], m, [1], ["target", "default"],
                                   {(1, 0), (2, 1)}, files=True),
               "outputs that exist already and are outdated, or are missing", c),
        Config("wide-3", build(4, [["upd"], ["routine"], ["file"], ["fileset", "routine"]], m, [3], ["process"], {(3, 0), (3, 1), (3, 2)}),
               "3 independent targets below the requested one, 3 threads", c),
    ]
    if tier == "quick":
        return q
    return q + [
        Config("graph-3-kinds", build(3, ["file", "routine", "fileset"], m, [1, 2, 3], ["default", "target"]), "every graph of 3 targets", c),
        Config("graph-4", build(4, [["file"], ["file"], ["routine"], ["fileset"]], ["true", "false"], [2], ["target"]),
               "every graph of 4 targets", c),
    ]
