"""C01: dependencies run first, every action at most once."""
from symx.engine import E
from symx.env import ENV
from symx.runner import Config

from .solverlib import Run

ASSUMPTIONS = ["actions do not spawn or wait for each other"]


def judge(r):
    seen = {}
    for i, s, e, ok in r.log:
        E.check(i not in seen, "started-twice", r.describe)
        seen[i] = (s, e, ok)
    for i in seen:
        for d in r.deps[i]:
            E.check(d in seen, "dependency-never-ran", r.describe)
            ds, de, dok = seen[d]
            E.check(dok, "dependency-failed", r.describe)
            E.check(de < seen[i][0], "dependency-not-finished", r.describe)
            E.cover("ordered pair")
    if len(r.log) == r.n:
        E.cover("all ran")
    if any(not x[3] for x in r.log):
        E.cover("failure")
    E.observe([len(r.log), sorted(seen)] if not any(not x[3] for x in r.log) else None)


def solver(n, shape, threads, fails=True, maxfail=1):
    def fn():
        r = Run(n)
        r.edges(shape)
        r.choose_modes(fails, 1, maxfail)
        r.threads = 1 + E.choose("threads", threads)
        r.run_solver()
        judge(r)
    return fn


def via_core(n, shape, threads):
    def fn():
        r = Run(n)
        r.edges(shape)
        r.modes = ["true"] * n
        r.threads = 1 + E.choose("threads", threads)
        root = n - 1 if shape == "ordered" else 0
        C = __import__("sys").modules["licant.core"]
        core = C.Core()
        core.runtime["threads"] = r.threads
        for i in range(n):
            core.updtarget(r.names[i], deps=[r.names[j] for j in sorted(r.deps[i])],
                           update_if=lambda s: True, update=lambda s, i=i: r.action(i))
        from symx.env import attempt
        r.outcome = attempt(lambda: core.do(r.names[root]))
        ENV.sched.drain()
        judge(r)
        want = r.closure(root)
        E.check({x[0] for x in r.log} == want, "closure", r.describe)
        E.observe(sorted(x[0] for x in r.log))
    return fn


def spelled(n, threads, ways=3):
    """file targets whose dependencies are spelled in different ways"""
    def fn():
        import sys
        from symx.env import attempt
        r = Run(n)
        r.edges("ordered")
        r.modes = ["true"] * n
        r.threads = 1 + E.choose("threads", threads)
        c = sys.modules["licant.make"].MakeCore()
        c.runtime["threads"] = r.threads
        spell = {}
        for i in range(n):
            deps = []
            for j in sorted(r.deps[i]):
                s = spell[i, j] = [r.names[j], "./" + r.names[j], "/vfs/w/" + r.names[j]][E.choose("spelled_%d_%d" % (i, j), ways)]
                deps.append(s)
            c.ftarget(r.names[i], build=lambda s, i=i: r.action(i), deps=deps)
        r.outcome = attempt(lambda: c.do(r.names[n - 1]))
        ENV.sched.drain()
        judge(r)
        E.check({x[0] for x in r.log} == r.closure(n - 1), "closure", lambda: "%s %s" % (spell, r.describe()))
        if len({k for (i, j), k in spell.items()}) > len({j for i, j in spell}):
            E.cover("two spellings")
    return fn


def configs(tier):
    cov = {"ordered pair", "all ran", "failure"}
    q = [
        Config("solver-3", solver(3, "labelled", 3), "all labelled DAGs of 3 targets, 1..3 threads, at most one "
               "failing action (False or exception), completions at any of 2 points of a busy loop, else all orders "
               "at idle points", cov, fine=2),
        Config("solver-4", solver(4, "ordered", 3, False), "all DAGs of 4 targets in topological list order, 1..3 "
               "threads, all completion orders at idle points", {"ordered pair", "all ran"}),
        Config("core-4", via_core(4, "reversed", 2), "all DAGs of 4 targets declared on a core, dependents first, "
               "1..2 threads, all completion orders at idle points", {"ordered pair", "all ran"}),
    ]
    q.append(Config("spelled-4", spelled(4, 1, 2), "DAGs of 4 file targets, every dependency spelled plainly or with a leading './'",
                    {"ordered pair", "all ran", "two spellings"}))
    if tier == "quick":
        return q
    return q + [
        Config("solver-3-fine", solver(3, "labelled", 4, True, 3), "as solver-3 with 1..4 threads, any number of "
               "failures, completions at any of 4 points", cov, fine=4),
        Config("solver-4-labelled", solver(4, "labelled", 4, True, 1), "all labelled DAGs of 4 targets, 1..4 threads, at "
               "most one failure, completion orders at idle points", cov),
        Config("solver-4-fine", solver(4, "ordered", 3, True, 1), "all ordered DAGs of 4 targets, 1..3 threads, at most one "
               "failure, completions at 2 points of a busy loop", cov, fine=2),
        Config("solver-5", solver(5, "ordered", 3, False), "all ordered DAGs of 5 targets, 1..3 threads, completion orders "
               "at idle points", {"ordered pair", "all ran"}),
        Config("core-5", via_core(5, "ordered", 2), "all ordered DAGs of 5 targets on a core, 1..2 threads",
               {"ordered pair", "all ran"}),
    ]
