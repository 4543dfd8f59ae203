"""C11: a command counts as successful exactly when it exits with status 0."""
import sys

from symx.engine import E, And, Not, Or, zb, zn
from symx.env import ENV, Proc, SymBytes, attempt, exit_status
from symx.runner import Config

from . import scriptlib as P

ASSUMPTIONS = ["pipe capacity is 65536 bytes; a command that writes more blocks until somebody reads",
               "a command writes its output in any order and exits afterwards"]


def outputs(k, big):
    o = SymBytes("<stdout-%d>" % k, E.int("out_size_%d" % k, 0, big), E.bool("out_utf8_%d" % k))
    e = SymBytes("<stderr-%d>" % k, E.int("err_size_%d" % k, 0, big), E.bool("err_utf8_%d" % k))
    return o, e


def one(flags, entry):
    def fn():
        L = sys.modules["licant"]
        v = ENV.vfs
        rc = E.int("status", -64, 255)
        out, err = outputs(0, 1000000)
        writes = E.decide("writes_output")

        def eff():
            if writes:
                v.write("/vfs/w/out", "new")
        ENV.handler = lambda cmd: Proc(rc, out, err, eff)
        c = L.default_core() if entry == "cli" else L.MakeCore()
        for f in flags:
            c.runtime[f] = E.decide(f)
        v.file("/vfs/w/src", "")
        if entry == "cli":
            L.source("src")
            L.makefile(tgt="out", deps=["src"], do="tool {tgt}", message="BUILD {tgt}")
        else:
            c.source("src")
            c.ftarget(tgt="out", exec="tool {tgt}", deps=["src"])
        c.update_update_needity()
        if entry == "cli":
            r = attempt(lambda: L.ex("out", argv=["-j1"]))
            ok = exit_status(r) == 0
        else:
            r = attempt(lambda: c.get("out").recurse_update())
            ok = r == ("ok", True)
            E.check(r[0] == "ok", "no-exception", str(r))
        ENV.sched.drain()
        E.check(len(ENV.cmds) == 1, "command-run-once", lambda: str([x.cmd for x in ENV.cmds]))
        cmd = ENV.cmds[0].cmd
        E.check((cmd if isinstance(cmd, str) else " ".join(cmd)).endswith("tool /vfs/w/out"), "command-text", str(cmd))
        E.check(zb(ok) == (zn(rc) == 0), "success-iff-status-0", lambda: "reported %s" % ok)
        shown = ENV.text()
        E.check(Or(zn(out.size) == 0, "<stdout-0>" in shown), "stdout-shown", lambda: shown)
        E.check(Or(zn(err.size) == 0, "<stderr-0>" in shown), "stderr-shown", lambda: shown)
        E.cover("success" if ok else "failure")
        E.observe(ok)
    return fn


def several(n, threads):
    """commands in one build: each verdict is its own"""
    def fn():
        L = sys.modules["licant"]
        c = L.MakeCore()
        c.runtime["threads"] = threads
        rcs, outs = {}, {}
        for k in range(n):
            rcs["t%d" % k] = E.int("status_%d" % k, -2, 2)
            outs["t%d" % k] = outputs(k, 200000)

        def handler(cmd):
            w = (cmd if isinstance(cmd, str) else " ".join(cmd)).split("/")[-1]
            return Proc(rcs[w], *outs[w])
        ENV.handler = handler
        for k in range(n):
            c.ftarget(tgt="t%d" % k, exec="tool {tgt}")
        c.add(sys.modules["licant.make"].MakeFileTarget(tgt="all", deps=["t%d" % k for k in range(n)]))
        c.update_update_needity()
        r = attempt(lambda: c.get("all").recurse_update())
        ENV.sched.drain()
        E.check(r[0] == "ok", "no-exception", str(r))
        ran = {x.cmd.split("/")[-1] for x in ENV.cmds}
        allok = And(*[zn(rcs[w]) == 0 for w in rcs])
        E.check(zb(r[1] is True) == allok, "build-succeeds-iff-all-status-0", lambda: "%s %s" % (r, ran))
        if r[1] is True:
            E.check(len(ran) == n, "all-ran", str(ran))
            E.cover("success")
        else:
            E.cover("failure")
        E.observe(r[1])
    return fn


def helper():
    """licant.system: raises exactly when the command fails; in a routine, in a script, by itself"""
    def fn():
        L = sys.modules["licant"]
        rc = E.int("status", -64, 255)
        out, err = outputs(0, 1000)
        ENV.handler = lambda cmd: Proc(rc, out, err)
        where = E.pick("where", ["alone", "routine", "script"])
        msg = [None, "working"][E.choose("message", 2)]
        went_on = []

        def go():
            L.system("tool %s {x} $y", msg) if msg else L.system("tool %s {x} $y")
            went_on.append(True)
        if where == "alone":
            r = attempt(go)
        elif where == "routine":
            L.routine(go, tgt="r")
            r = attempt(lambda: L.ex("r", argv=["-j1"]))
        else:
            P.script("/vfs/w/sub/s.py", go)
            r = attempt(lambda: L.execute("sub/s.py"))
        ENV.sched.drain()
        E.check(len(ENV.cmds) == 1, "command-run-once", lambda: str([x.cmd for x in ENV.cmds]))
        cmd = ENV.cmds[0].cmd
        E.check((cmd if isinstance(cmd, str) else " ".join(cmd)).endswith("tool %s {x} $y"), "command-text", str(cmd))
        E.check(zb(exit_status(r) == 0) == (zn(rc) == 0), "success-iff-status-0", lambda: "%s %s" % (where, r))
        E.check(zb(went_on == [True]) == (zn(rc) == 0), "goes-on-iff-status-0", lambda: "%s %s" % (where, r))
        if msg:
            E.check(msg in ENV.text(), "message-shown", lambda: ENV.text())
        E.cover("success" if went_on else "failure")
        E.cover(where)
        E.observe([where, len(went_on)])
    return fn


def configs(tier):
    q = [
        Config("helper", helper(), "licant.system alone, in a routine, in an executed script: any status -64..255", {"success", "failure", "alone", "routine", "script"}),
        Config("status", one(["quite"], "core"), "one command: any status -64..255, 0..1000000 bytes on either stream, valid UTF-8 or "
               "not, quiet or not", {"success", "failure"}),
        Config("status-cli", one([], "cli"), "the same through the command line", {"success", "failure"}),
        Config("several-2", several(2, 2), "2 commands at once, status -2..2", {"success", "failure"}),
    ]
    if tier == "quick":
        return q
    return q + [
        Config("status-flags", one(["quite", "debug", "trace"], "core"), "with every combination of the output options",
               {"success", "failure"}),
        Config("several-3", several(3, 2), "3 commands, 2 threads", {"success", "failure"}),
    ]
