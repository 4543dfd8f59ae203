"""C05: ill-formed graphs are refused before anything runs, well-formed ones never."""
import sys

from symx.engine import E
from symx.env import ENV, attempt
from symx.runner import Config

from .solverlib import Run


def any_graph(r, unknown=True, selfloops=True, only=None):
    n = r.n
    r.unknown = set()
    for i in range(n):
        for j in range(n):
            if i == j and not selfloops:
                continue
            if E.decide("dep_%d_%d" % (i, j)):
                r.deps[i].add(j)
    if unknown:
        u = E.choose("unknown", n + 1)
        if u:
            r.unknown.add(u - 1)


def cyclic(r):
    return any(r.reaches(i, i) for i in range(r.n))


def judge(r, closure=None):
    bad = cyclic(r) if closure is None else any(r.reaches(i, i) for i in closure)
    unk = bool(r.unknown if closure is None else r.unknown & closure)
    if bad or unk:
        E.check(not r.log, "action-ran-in-ill-formed-graph", r.describe)
        E.check(r.outcome[0] == "exc" or (r.outcome[0] == "exit" and r.outcome[1] not in (0, None)),
                "ill-formed-graph-refused", r.describe)
        E.cover("cycle" if bad else "unknown")
        if bad and any(not r.deps[i] for i in range(r.n)):
            E.cover("cycle beside a root")
    else:
        E.check(r.outcome[0] == "ok" and r.outcome[1] is not False, "well-formed-graph-accepted", r.describe)
        E.check(len(r.log) == (r.n if closure is None else len(closure)), "all-ran", r.describe)
        E.cover("accepted")
    E.observe([bad, unk, sorted(x[0] for x in r.log)])


def solver(n, selfloops=True, threads=1, unknown=True):
    def fn():
        S = sys.modules["licant.solver"]
        r = Run(n)
        any_graph(r, unknown, selfloops)
        r.modes = ["true"] * n
        r.threads = 1 + E.choose("threads", threads)

        def go():
            ts = [S.DependableTarget(name=r.names[i], deps=[r.names[j] for j in sorted(r.deps[i])] +
                                     (["nowhere"] if i in r.unknown else []), what_to_do=r.action, args=[i], kwargs={})
                  for i in range(n)]
            return S.InverseRecursiveSolver(ts, r.threads).exec()
        r.outcome = attempt(go)
        ENV.sched.drain()
        judge(r)
    return fn


def long_cycle(n, chords):
    """one cycle of any length up to n - 1 (or a chain of that length, which is well formed), reachable from a root or not, with a tail"""
    def fn():
        S = sys.modules["licant.solver"]
        r = Run(n)
        r.unknown = set()
        k = 1 + E.choose("length", n - 1)
        closed = E.decide("closed")
        for i in range(1, k + 1):
            if i < k or closed:
                r.deps[i].add(i % k + 1)
            if E.decide("on_root_%d" % i):
                r.deps[i].add(0)
        for i in range(k + 1, n):
            r.deps[i].add(E.choose("tail_%d" % i, i))
        if chords:
            a, b = 1 + E.choose("chord_a", n - 1), 1 + E.choose("chord_b", n - 1)
            if a > b:
                r.deps[b].add(a)
        r.modes = ["true"] * n
        r.run_solver()
        judge(r)
    return fn


def core(n, kind):
    """graph declared on a core; the closure of target 0 is requested"""
    def fn():
        L = sys.modules["licant"]
        C = sys.modules["licant.core"]
        r = Run(n)
        any_graph(r, True, True)
        r.modes = ["true"] * n
        r.threads = 1
        c = L.MakeCore()
        c.runtime["threads"] = 1
        for i in range(n):
            deps = [r.names[j] for j in sorted(r.deps[i])] + (["nowhere"] if i in r.unknown else [])
            if kind == "upd":
                c.updtarget(r.names[i], deps=deps, update_if=lambda s: True, update=lambda s, i=i: r.action(i))
            elif kind == "routine":
                def f(i=i):
                    return r.action(i)
                c.routine(f, deps=deps, tgt=r.names[i])
            else:
                c.ftarget(tgt=r.names[i], build=lambda s, i=i: r.action(i), deps=deps)
        want = r.closure(0)
        r.outcome = attempt(lambda: c.do(r.names[0]))
        if r.outcome == ("ok", None):
            r.outcome = ("ok", True)
        ENV.sched.drain()
        # targets outside the closure of the request do not matter, and must not run
        E.check({x[0] for x in r.log} <= want, "outside-closure", r.describe)
        out_bad = any(r.reaches(i, i) for i in range(n)) and not any(r.reaches(i, i) for i in want)
        out_unk = bool(r.unknown - want)
        if out_bad or out_unk:
            # the request itself is well formed; nothing is claimed about ill-formed targets elsewhere
            E.finish("ok")
        judge(r, want)
    return fn


def configs(tier):
    cov = {"cycle", "unknown", "accepted", "cycle beside a root"}
    q = [
        Config("solver-3", solver(3, True, 2), "every directed graph of 3 targets, self-dependencies included, at most one "
               "unknown dependency, 1..2 threads", cov),
        Config("solver-4-noself", solver(4, False, 1), "every directed graph of 4 targets without self-dependencies, at most "
               "one unknown dependency", cov, validate=6) if tier != "quick" else
        Config("solver-2", solver(2, True, 2), "every directed graph of 2 targets", cov - {"x"}),
        Config("solver-4-known", solver(4, False, 1, False), "every directed graph of 4 targets without self-dependencies", cov - {"unknown"}) if tier == "quick" else
        Config("long-cycles-7", long_cycle(7, True), "a cycle or chain of 1..6 targets with a chord, each of them may depend on a root, any tail", {"cycle", "accepted"}),
        Config("long-cycles", long_cycle(6, False), "a cycle or chain of 1..5 targets, each of them may depend on a root, any tail", {"cycle", "accepted", "cycle beside a root"}),
        Config("core-2", core(2, "upd"), "every directed graph of 2 updatable targets", {"cycle", "unknown", "accepted"}),
        Config("core-file-2", core(2, "file"), "every directed graph of 2 file targets", {"cycle", "unknown", "accepted"}),
        Config("core-routine-2", core(2, "routine"), "every directed graph of 2 routines", {"cycle", "unknown", "accepted"}),
    ]
    if tier == "quick":
        return q
    return q + [
        Config("core-3", core(3, "upd"), "every directed graph of 3 updatable targets", cov),
        Config("core-file-3", core(3, "file"), "every directed graph of 3 file targets", cov),
        Config("core-routine-3", core(3, "routine"), "every directed graph of 3 routines", cov),
    ]
