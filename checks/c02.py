"""C02: without failures everything runs, the execution ends and reports success."""
import sys

from symx.engine import E
from symx.env import ENV, attempt
from symx.runner import Config

from .solverlib import OKS, Run


def judge(r, want=None):
    want = set(range(r.n)) if want is None else want
    E.check(r.outcome[0] == "ok", "no-exception", r.describe)
    E.check(r.outcome[1] is not False and r.outcome[1] is not None and bool(r.outcome[1]), "reports-success", r.describe)
    E.check(r.still == 0, "returned-while-an-action-is-running", r.describe)
    E.check(sorted(x[0] for x in r.log) == sorted(want), "every-action-once", r.describe)
    E.cover("done")
    if any(m in ("zero", "empty", "list", "none") for m in r.modes):
        E.cover("falsy result")
    E.observe(sorted(x[0] for x in r.log))


def solver(n, shape, threads, oks):
    def fn():
        r = Run(n)
        r.edges(shape)
        r.choose_modes(False, oks)
        r.threads = 1 + E.choose("threads", threads)
        r.run_solver()
        judge(r)
    return fn


def core(n, shape, threads, oks):
    def fn():
        r = Run(n)
        r.edges(shape)
        r.choose_modes(False, oks)
        r.threads = 1 + E.choose("threads", threads)
        C = sys.modules["licant.core"]
        c = C.Core()
        c.runtime["threads"] = r.threads
        for i in range(n):
            c.updtarget(r.names[i], deps=[r.names[j] for j in sorted(r.deps[i])],
                        update_if=lambda s: True, update=lambda s, i=i: r.action(i))
        root = n - 1 if shape == "ordered" else 0
        c.update_update_needity()
        r.outcome = attempt(lambda: c.get(r.names[root]).recurse_update(threads=r.threads))
        r.still = ENV.sched.pending()
        ENV.sched.drain()
        judge(r, r.closure(root))
    return fn


def kinds(n, threads):
    """updatable targets, file targets and routines on a core, with results of every kind"""
    def fn():
        r = Run(n)
        r.edges("ordered")
        r.choose_modes(False, len(OKS))
        r.threads = 1 + E.choose("threads", threads)
        kind = E.pick("kind", ["upd", "file", "routine"])
        c = sys.modules["licant.make"].MakeCore()
        c.runtime["threads"] = r.threads
        for i in range(n):
            deps = [r.names[j] for j in sorted(r.deps[i])]
            if kind == "upd":
                c.updtarget(r.names[i], deps=deps, update_if=lambda s: True, update=lambda s, i=i: r.action(i))
            elif kind == "routine":
                c.routine_do(lambda i=i: r.action(i), deps=deps, tgt=r.names[i])
            else:
                c.ftarget(r.names[i], deps=deps, build=lambda s, i=i: r.action(i))
        r.outcome = attempt(lambda: c.get(r.names[n - 1]).invoke("recurse_update"))
        r.still = ENV.sched.pending()
        ENV.sched.drain()
        judge(r, r.closure(n - 1))
        E.cover(kind)
    return fn


KINDS = ["chain", "fan-out", "fan-in", "layers", "late-fan"]


def chain(n, width, kinds=KINDS, threads=None):
    """long chains and wide fans: the shapes on which a wake-up is lost most easily"""
    def fn():
        r = Run(n)
        kind = E.pick("kind", kinds)
        roots = hub = None
        if kind == "late-fan":
            # some targets without dependencies, and all others wait for one of them
            roots = 1 + E.choose("roots", n - 1)
            hub = E.choose("hub", roots)
        for i in range(1, n):
            if kind == "chain":
                r.deps[i].add(i - 1)
            elif kind == "fan-out":
                r.deps[i].add(0)
            elif kind == "late-fan" and i >= roots:
                r.deps[i].add(hub)
            elif kind == "layers" and i >= width:
                r.deps[i] |= set(range((i // width - 1) * width, i // width * width))
        if kind == "fan-in":
            r.deps[n - 1] = set(range(n - 1))
        r.modes = ["true"] * n
        r.threads = 1 + E.choose("threads", threads or n + 1)
        r.run_solver()
        judge(r)
        E.cover(kind)
    return fn


def configs(tier):
    shapes = set(KINDS[:-1])
    q = [
        Config("solver-3", solver(3, "labelled", 3, 2), "all labelled DAGs of 3 targets, 1..3 threads, results True or "
               "None, completions at 1 point of a busy loop, else all orders at idle points", {"done"}, fine=1),
        Config("results-2", solver(2, "labelled", 2, len(OKS)), "all DAGs of 2 targets, 1..2 threads, each result one of "
               "True, None, 0, '', []", {"done", "falsy result"}, fine=2),
        Config("solver-4", solver(4, "reversed", 3, 1), "all DAGs of 4 targets listed dependents first, 1..3 threads, "
               "completion orders at idle points", {"done"}),
        Config("core-3", core(3, "ordered", 3, 3), "all DAGs of 3 targets on a core, 1..3 threads, results True, None, 0",
               {"done", "falsy result"}),
        Config("kinds-2", kinds(2, 1), "2 updatable targets, file targets or routines, each result one of True, None, 0, '', []",
               {"done", "falsy result", "upd", "file", "routine"}),
        Config("late-fan-6", chain(6, 2, ["late-fan"], 4), "6 targets, any number of them without dependencies, the others wait "
               "for one of these; 1..4 threads, all completion orders", {"late-fan"}),
        Config("shapes-5", chain(5, 2, KINDS[:-1]), "chain, fan-out, fan-in and layered graphs of 5 targets, 1..6 threads, all "
               "completion orders", shapes),
    ]
    if tier == "quick":
        return q
    return q + [
        Config("solver-3-fine", solver(3, "labelled", 4, 1), "labelled DAGs of 3, 1..4 threads, completions at 5 points",
               {"done"}, fine=5),
        Config("solver-4-labelled", solver(4, "labelled", 5, 1), "labelled DAGs of 4, 1..5 threads, idle points", {"done"}),
        Config("solver-4-fine", solver(4, "ordered", 3, 1), "ordered DAGs of 4, 1..3 threads, completions at 3 points",
               {"done"}, fine=3),
        Config("solver-5", solver(5, "reversed", 3, 1), "all DAGs of 5 targets, 1..3 threads, idle points", {"done"}),
        Config("shapes-7", chain(7, 3), "the five shapes with 7 targets, 1..8 threads", set(KINDS)),
    ]
