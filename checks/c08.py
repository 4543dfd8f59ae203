"""C08: work lost to a failed or interrupted build is done by the next one."""
import sys

from symx.engine import E, And, Implies, Not, Or, zb
from symx.env import ENV, attempt, fresh
from symx.runner import Config

from .makelib import Project

ASSUMPTIONS = ["no file carries a modification time later than the start of the first build",
               "an action that fails or is cut off has not written its output",
               "a crash is the loss of the process with everything but the file system"]


class Crash(BaseException):
    pass


def snap(p):
    for it in p.items:
        n = ENV.vfs.get(it.path)
        if n is not None and it.kind in ("source", "file"):
            it.ex, it.mt = n.exists, n.mtime
    return p


def run(n, kinds, how, threads, clock=0, times=True, force=False, same=False):
    def fn():
        p = Project(n, kinds).shape()
        root = n - 1
        p.state(times=times, force=force)
        ENV.vfs.clock = 5
        if clock:
            cnt = [0]

            def tick():
                cnt[0] += 1
                return 0 if E.decide("sametime_%d" % cnt[0]) else 1
            ENV.vfs.tick = tick
        for it in p.items:
            if it.kind == "source":
                E.assume(it.ex)
                ENV.vfs.get(it.path).exists = True
                it.ex = True
        clo = p.closure(root)
        need0 = {i: p.need(i) for i in clo}
        modes = how
        if how == "fail":
            k = E.choose("victim", n)
            p.items[k].mode = E.pick("failure", ["false", "raise"])
            if p.items[k].kind != "file" or k not in clo:
                E.finish("infeasible")
        else:
            crash = E.choose("crash_after", n + 1)      # completed actions before the crash
            partial = [0]

            def on_idle(loop):
                if len([x for x in p.log]) >= crash:
                    raise Crash()
            ENV.sched.on_idle = on_idle

        cores = []

        def build(L):
            if same and cores:
                c = cores[0]
            else:
                c = L.MakeCore()
                c.runtime["threads"] = threads
                p.declare(c)
                cores.append(c)
            p.log = []
            for it in p.items:
                it.ran = 0
            try:
                r = attempt(lambda: c.do(p.items[root].name))
            except Crash:
                r = ("crash", None)
            if r[0] == "crash":
                # whatever was still running is lost with the process
                ENV.sched.running.clear()
                ENV.sched.queued.clear()
                import asyncio
                asyncio._set_running_loop(None)
            else:
                ENV.sched.drain()
            return r, {i for i, s, e, ok in p.log if ok and p.items[i].kind == "file"}

        r1, ran1 = build(sys.modules["licant"])
        ENV.sched.on_idle = None
        for it in p.items:
            it.mode = "true"
        snap(p)
        memo = {}
        need1 = {i: p.need(i, memo) for i in clo}
        r2, ran2 = build(sys.modules["licant"] if same else fresh())
        E.check(r2[0] == "ok", "second-build-no-error", lambda: "%s" % (r2,))
        for i in clo:
            if p.items[i].kind != "file":
                continue
            E.check(Implies(need0[i], i in ran1 or i in ran2), "needed-work-done",
                    lambda i=i: "n%d: first %s ran %s, second ran %s; %s" % (i, r1[0], ran1, ran2, p.describe()))
            E.check(zb(i in ran2) == need1[i], "second-build-runs-exactly-what-is-out-of-date",
                    lambda i=i: "n%d: first %s ran %s, second ran %s; %s" % (i, r1[0], ran1, ran2, p.describe()))
        if ran1 and ran2:
            E.cover("work split over two builds")
        if r1[0] == "crash":
            E.cover("crash")
        elif ran2:
            E.cover("failure recovered")
        snap(p)
        memo = {}
        need2 = {i: p.need(i, memo) for i in clo}
        r3, ran3 = build(sys.modules["licant"] if same else fresh())
        for i in clo:
            if p.items[i].kind == "file":
                # a forced target is never up to date
                forced = any(p.items[d].force for d in p.closure(i))
                E.check(zb(i in ran3) == need2[i] if forced else i not in ran3, "third-build-runs-nothing-but-forced-targets",
                        lambda: "%s %s" % (ran3, p.describe()))
        E.observe([sorted(ran1), sorted(ran2)])
    return fn


def configs(tier):
    cf = {"failure recovered", "work split over two builds"}
    cc = {"crash", "work split over two builds"}
    k3 = [["source"], ["source", "file"], ["file"]]
    k4 = [["source"], ["file"], ["file", "fileset"], ["file"]]
    q = [
        Config("fail-3", run(3, [["source"], ["file"], ["file"]], "fail", 1, 1), "source and 2 files, any initial state, any one "
               "action fails by result or exception; equal or increasing time stamps", cf),
        Config("crash-3", run(3, [["source"], ["file"], ["file"]], "crash", 1, 1), "the same, the process dies after any number "
               "of completed actions", cc),
        Config("fail-4", run(4, k4, "fail", 1, times=False), "source, files and a file set, any of them "
               "missing, any one action fails", cf),
        Config("crash-4", run(4, [["source"], ["file"], ["file"], ["fileset"]], "crash", 2, times=False), "source, 2 "
               "files and a file set, any of them missing, 2 threads, crash at any point", cc),
    ]
    q += [
        Config("forced-3", run(3, [["source"], ["file"], ["file"]], "fail", 1, times=False, force=True), "source and 2 files, forced or not, any one "
               "action fails, the next build in another process", cf),
        Config("same-3", run(3, [["source"], ["file"], ["file"]], "fail", 1, force=True, same=True), "the same with the next build in "
               "the same process on the same core", cf),
    ]
    if tier == "quick":
        return q
    return q + [
        Config("fail-4-times", run(4, k4, "fail", 1), "4 targets with any existence and times", cf),
        Config("fail-4-threads", run(4, k4, "fail", 2), "4 targets, 2 threads", cf),
        Config("crash-4-all", run(4, k4, "crash", 2), "4 targets, 2 threads, crash at any point", cc),
        Config("same-4", run(4, k4, "fail", 2, force=True, same=True, times=False), "4 targets, forced or not, the next build in the same process", cf),
        Config("forced-4", run(4, k4, "fail", 2, force=True, times=False), "4 targets, forced or not", cf),
        Config("fail-3-two-sources", run(3, k3, "fail", 2, 1), "with two sources, 2 threads", cf - {"work split over two builds"}),
    ]
