"""C03: a failing action ends the build with failure and holds back its dependents."""
import sys

from symx.engine import E
from symx.env import ENV, attempt_any
from symx.runner import Config

from .solverlib import FAILS, RAISES, Run


def watch_idle(r):
    """remember the first idle point after a failed action: by then the executor knows of the failure"""
    def on_idle(loop):
        if r.idle_after_fail is None and any(not x[3] for x in r.log):
            r.idle_after_fail = ENV.sched.next()
    ENV.sched.on_idle = on_idle


def judge(r, want):
    anyfail = any(not x[3] for x in r.log)
    bad = {x[0] for x in r.log if not x[3]}
    if any(r.modes[i] in FAILS for i in want):
        E.check(anyfail, "failing-action-never-ran", r.describe)
    if not anyfail:
        return
    E.cover("failure")
    E.check(r.reported_failure(), "failure-reported", r.describe)
    for i, s, e, ok in r.log:
        for b in bad:
            E.check(i == b or not r.reaches(i, b), "dependent-of-failed-started", r.describe)
        if r.idle_after_fail is not None:
            E.check(s < r.idle_after_fail, "started-after-failure", r.describe)
            E.cover("idle after failure")
    E.check(len(r.log) == len({x[0] for x in r.log}), "twice", r.describe)
    if len(r.log) < len(want):
        E.cover("held back")
    E.observe(sorted(bad))


def solver(n, shape, threads, maxfail):
    def fn():
        r = Run(n)
        r.edges(shape)
        r.choose_modes(True, 1, maxfail)
        if not any(m in FAILS for m in r.modes):
            E.finish("infeasible")
        r.threads = 1 + E.choose("threads", threads)
        watch_idle(r)
        r.run_solver()
        judge(r, set(range(n)))
    return fn


def core(n, threads, entry):
    """the same through UpdatableTarget.recurse_update and core.do"""
    def fn():
        r = Run(n)
        r.edges("ordered")
        r.choose_modes(True, 1, 1)
        root = n - 1
        want = r.closure(root)
        if not any(r.modes[i] in FAILS for i in want):
            E.finish("infeasible")
        r.threads = 1 + E.choose("threads", threads)
        C = sys.modules["licant.core"]
        c = C.Core()
        c.runtime["threads"] = r.threads
        for i in range(n):
            c.updtarget(r.names[i], deps=[r.names[j] for j in sorted(r.deps[i])],
                        update_if=lambda s: True, update=lambda s, i=i: r.action(i))
        c.update_update_needity()
        watch_idle(r)
        t = c.get(r.names[root])
        r.outcome = attempt_any(lambda: t.recurse_update(threads=r.threads) if entry == "recurse_update"
                            else t.invoke(t.default_action))
        ENV.sched.drain()
        judge(r, want)
    return fn


def raising(n, via):
    """an action that raises: exceptions of every family, also those that mean something to the event loop"""
    def fn():
        r = Run(n)
        r.edges("ordered")
        bad = E.choose("bad", n)
        r.modes = ["raise" if i == bad else "true" for i in range(n)]
        what, r.error = RAISES[E.choose("exception", len(RAISES))]
        r.threads = 1 + E.choose("threads", 2)
        watch_idle(r)
        if via == "solver":
            r.run_solver()
        else:
            kind = E.pick("kind", ["upd", "routine", "file"])
            M = sys.modules["licant.make"]
            c = M.MakeCore()
            c.runtime["threads"] = r.threads
            for i in range(n):
                deps = [r.names[j] for j in sorted(r.deps[i])]
                if kind == "upd":
                    c.updtarget(r.names[i], deps=deps, update_if=lambda s: True, update=lambda s, i=i: r.action(i))
                elif kind == "routine":
                    c.routine_do(lambda i=i: r.action(i), deps=deps, tgt=r.names[i])
                else:
                    c.ftarget(r.names[i], deps=deps, build=lambda s, i=i: r.action(i))
            r.outcome = attempt_any(lambda: c.get(r.names[n - 1]).invoke("recurse_update"))
            ENV.sched.drain()
        judge(r, set(range(n)) if via == "solver" else r.closure(n - 1))
        E.cover(what)
    return fn


def again(n):
    """a failed execution must not poison the next one in the same process"""
    def fn():
        r = Run(n)
        r.edges("ordered")
        r.choose_modes(True, 1, 1)
        r.threads = 1 + E.choose("threads", 2)
        watch_idle(r)
        r.run_solver()
        judge(r, set(range(n)))
        q = Run(n)
        q.deps = r.deps
        q.modes = ["true"] * n
        q.threads = r.threads
        ENV.sched.on_idle = None
        q.run_solver()
        E.check(q.outcome == ("ok", True) and len(q.log) == n, "second-execution", q.describe)
        E.cover("second")
        E.observe(len(q.log))
    return fn


def configs(tier):
    cov = {"failure", "held back", "idle after failure"}
    q = [
        Config("solver-3", solver(3, "labelled", 3, 3), "all labelled DAGs of 3, 1..3 threads, every action succeeds, "
               "returns False or raises, completions at 1 point of a busy loop, else idle points", cov, fine=1),
        Config("solver-4", solver(4, "ordered", 3, 1), "all ordered DAGs of 4, 1..3 threads, one failing action, idle "
               "points", cov),
        Config("core-3", core(3, 2, "recurse_update"), "ordered DAGs of 3 on a core, 1..2 threads", {"failure", "held back"}),
        Config("core-invoke-3", core(3, 2, "invoke"), "the same through the default action", {"failure", "held back"}),
        Config("again-2", again(2), "graphs of 2, a second execution after a first one that may fail", {"second", "failure"}),
    ]
    alls = {w for w, _ in RAISES} | {"failure"}
    q += [
        Config("exceptions-2", raising(2, "solver"), "graphs of 2, either action raises one of %d exceptions (also StopIteration, "
               "CancelledError, GeneratorExit, a bare BaseException, SystemExit), 1..2 threads" % len(RAISES), alls),
        Config("exceptions-core-2", raising(2, "core"), "the same on a core: updatable targets, routines and file targets", alls),
    ]
    if tier == "quick":
        return q
    return q + [
        Config("solver-3-fine", solver(3, "labelled", 4, 3), "as solver-3, 1..4 threads, completions at 3 points", cov, fine=3),
        Config("solver-4-labelled", solver(4, "labelled", 3, 2), "labelled DAGs of 4, up to two failures, idle points", cov),
        Config("solver-4-fine", solver(4, "ordered", 4, 2), "ordered DAGs of 4, 1..4 threads, up to two failures, "
               "completions at 2 points", cov, fine=2),
        Config("solver-5", solver(5, "ordered", 3, 1), "ordered DAGs of 5, 1..3 threads, one failure", cov),
        Config("core-4", core(4, 3, "recurse_update"), "ordered DAGs of 4 on a core", {"failure", "held back"}),
        Config("again-3", again(3), "graphs of 3, second execution", {"second", "failure"}),
    ]
