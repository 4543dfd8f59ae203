"""C04: at most N actions at once, and never an idle slot while an action is ready."""
import sys

from symx.engine import E
from symx.env import ENV, attempt, exit_status
from symx.runner import Config

from .solverlib import Run

ASSUMPTIONS = ["N is at most the size of Python's default thread pool (32 on any machine with 28 or more cores, "
               "min(32, cores + 4) in general)"]


def overlap(r):
    for i, s, e, ok in r.log:
        k = sum(1 for x in r.log if x[1] <= s < x[2])
        E.check(k <= r.threads, "more-than-N-at-once", r.describe)
        if k == r.threads and k > 1:
            E.cover("N at once")
        if r.threads == 1:
            E.cover("sequential")


def idle_slots(r, among=None):
    def on_idle(loop):
        js = [j for j in ENV.sched.running if j.loop is loop]
        if any(not x[3] for x in r.log):
            return
        done = {x[0] for x in r.log}
        run = len(js) + len(ENV.sched.queued)
        # ready: all dependencies done, itself not done; `run` of them have been started
        ready = [i for i in (range(r.n) if among is None else among)
                 if i not in done and r.deps[i] <= done]
        E.check(len(ENV.sched.running) >= min(len(ready), r.threads), "idle-slot",
                lambda: "%d actions running, ready %s, done %s: %s" % (run, ready, sorted(done), r.describe()))
        if len(ready) > r.threads:
            E.cover("more ready than slots")
        elif len(ready) > 1:
            E.cover("all ready running")
    ENV.sched.on_idle = on_idle


def solver(n, shape, threads, fails):
    def fn():
        r = Run(n)
        r.edges(shape)
        if fails:
            r.choose_modes(True, 1, 1)
        else:
            r.modes = ["true"] * n
        r.threads = 1 + E.choose("threads", threads)
        idle_slots(r)
        r.run_solver()
        overlap(r)
        E.observe(r.threads)
    return fn


def independent(n):
    def fn():
        r = Run(n)
        r.modes = ["true"] * n
        r.threads = 1 + E.choose("threads", n + 1)
        idle_slots(r)
        r.run_solver()
        overlap(r)
        E.check(max(sum(1 for x in r.log if x[1] <= y[1] < x[2]) for y in r.log) == min(n, r.threads), "full-use", r.describe)
        E.cover("full")
        E.observe(r.threads)
    return fn


def request(n, threads, kinds, spellings):
    """N comes from the command line (else it is the number of processors), for every kind of target"""
    def fn():
        L = sys.modules["licant"]
        r = Run(n)
        r.edges("ordered")
        r.modes = ["true"] * n
        how = E.pick("spelling", spellings)
        r.threads = 1 + E.choose("threads", threads)
        argv = {"-jN": ["-j%d" % r.threads], "-j N": ["-j", str(r.threads)], "--threads=N": ["--threads=%d" % r.threads],
                "none": [], "behind": []}[how]
        if how == "none":
            ENV.cpu = r.threads
        else:
            ENV.cpu = 4 - r.threads
        kind = E.pick("kind", kinds)
        c = L.default_core()
        for i in range(n):
            deps = [r.names[j] for j in sorted(r.deps[i])]
            act = lambda s=None, i=i: r.action(i)
            if kind == "upd":
                c.updtarget(r.names[i], deps=deps, update_if=lambda s: True, update=act)
            elif kind == "file":
                c.add(L.FileTarget(tgt=r.names[i], deps=deps, force=True, build=act))
            else:
                c.routine(act, deps=deps, tgt=r.names[i])
        among = sorted(r.closure(n - 1))
        idle_slots(r, among)
        name = r.names[n - 1]
        last = ["-j%d" % r.threads] if how == "behind" else []
        r.outcome = attempt(lambda: L.ex(name, argv=argv + ([name] + last if E.decide("named") or last else [])))
        ENV.sched.drain()
        E.check(exit_status(r.outcome) == 0 and sorted(x[0] for x in r.log) == among, "all-run", r.describe)
        overlap(r)
        E.observe([r.threads, how])
    return fn


def configs(tier):
    cov = {"N at once", "sequential", "more ready than slots", "all ready running"}
    sp = ["-jN", "-j N", "--threads=N", "behind", "none"]
    q = [
        Config("solver-3", solver(3, "labelled", 3, True), "labelled DAGs of 3, 1..3 threads, at most one failure, "
               "completions at 1 point of a busy loop", cov, fine=1),
        Config("solver-4", solver(4, "ordered", 4, False), "ordered DAGs of 4, 1..4 threads, all completion orders", cov),
        Config("independent-4", independent(4), "4 independent targets, 1..5 threads", {"full"}),
        Config("command-line", request(3, 3, ["upd", "file", "routine"], sp), "N from the command line in 5 spellings or the number of "
               "processors, 1..3; DAGs of up to 3 updatable targets, files or routines, all completion orders", cov - {"more ready than slots"}),
    ]
    if tier == "quick":
        return q
    return q + [
        Config("solver-3-fine", solver(3, "labelled", 4, True), "labelled DAGs of 3, 1..4 threads, completions at 4 points",
               cov, fine=4),
        Config("solver-4-labelled", solver(4, "labelled", 4, False), "labelled DAGs of 4, 1..4 threads", cov),
        Config("solver-5", solver(5, "reversed", 4, False), "DAGs of 5, 1..4 threads", cov),
        Config("command-line-4", request(4, 3, ["upd", "file", "routine"], sp), "the same with DAGs of up to 4", cov),
        Config("independent-6", independent(6), "6 independent targets, 1..7 threads", {"full"}),
    ]
