"""Harness pieces for the executor: symbolic graph, symbolic results, symbolic completion order."""
import asyncio
import subprocess
import sys

from symx.engine import E
from symx.env import ENV, attempt_any


class Boom(Exception):
    pass


class Bare(BaseException):
    pass


# what an action can raise: (name, make)
RAISES = [
    ("Exception", lambda: Boom("boom")),
    ("OSError", lambda: FileNotFoundError(2, "no such file", "x")),
    ("PermissionError", lambda: PermissionError(13, "not permitted", "x")),
    ("KeyError", lambda: KeyError("k")),
    ("AssertionError", lambda: AssertionError()),
    ("NotImplementedError", lambda: NotImplementedError()),
    ("CalledProcessError", lambda: subprocess.CalledProcessError(1, "cmd")),
    ("TimeoutError", lambda: TimeoutError()),
    ("StopIteration", lambda: StopIteration()),
    ("StopAsyncIteration", lambda: StopAsyncIteration()),
    ("RecursionError", lambda: RecursionError()),
    ("CancelledError", lambda: asyncio.CancelledError()),
    ("QueueEmpty", lambda: asyncio.QueueEmpty()),
    ("GeneratorExit", lambda: GeneratorExit()),
    ("BaseException", lambda: Bare("bare")),
    ("SystemExit", lambda: SystemExit("gave up")),
]


# results an action can have; the ones before FAIL are successes
OKS = [("true", True), ("none", None), ("zero", 0), ("empty", ""), ("list", [])]
FAILS = ["false", "raise"]


class Run:
    def __init__(self, n):
        self.n = n
        self.names = ["t%d" % i for i in range(n)]
        self.deps = [set() for _ in range(n)]
        self.log = []          # (index, start, end, ok)
        self.started_order = []
        self.modes = [None] * n
        self.threads = 1
        self.idle_after_fail = None
        self.outcome = None
        self.late = []
        self.error = None      # makes what an action with result 'raise' raises

    # ------------------------------------------------------------------ graph
    def edges(self, shape="labelled"):
        """every acyclic graph: 'labelled' over all edge directions, 'ordered' edges to lower numbers only"""
        n = self.n
        if n > 1:
            ENV.set_order(E.decide("set_order"))
        for i in range(n):
            for j in range(n):
                if i == j or (shape == "ordered" and j > i) or (shape == "reversed" and j < i):
                    continue
                if shape == "labelled" and self.reaches(j, i):
                    continue        # the edge would close a cycle
                if E.decide("dep_%d_%d" % (i, j)):
                    self.deps[i].add(j)

    def reaches(self, a, b):
        """a depends directly or transitively on b"""
        seen, st = set(), [a]
        while st:
            x = st.pop()
            for y in self.deps[x]:
                if y == b:
                    return True
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return False

    # ------------------------------------------------------------------ actions
    def choose_modes(self, fails=True, oks=1, maxfail=99):
        nf = 0
        for i in range(self.n):
            opts = [o[0] for o in OKS[:oks]] + (FAILS if fails and nf < maxfail else [])
            self.modes[i] = E.pick("result_%d" % i, opts)
            nf += self.modes[i] in FAILS

    def action(self, i, *a, **k):
        j = ENV.sched.current
        start = j.start if j is not None else ENV.sched.next()
        mode = self.modes[i]
        ok = mode not in FAILS
        self.log.append((i, start, ENV.sched.next(), ok))
        if mode == "raise":
            raise self.error() if self.error else Boom("action %d" % i)
        if mode == "false":
            return False
        return dict(OKS)[mode]

    def failed_before(self, seq):
        return [r for r in self.log if not r[3] and r[2] <= seq]

    # ------------------------------------------------------------------ running
    def targets(self):
        S = sys.modules["licant.solver"]
        return [S.DependableTarget(name=self.names[i], deps=[self.names[j] for j in sorted(self.deps[i])],
                                   what_to_do=self.action, args=[i], kwargs={}) for i in range(self.n)]

    def run_solver(self, trace=False):
        S = sys.modules["licant.solver"]
        ts = self.targets()
        self.outcome = attempt_any(lambda: S.InverseRecursiveSolver(ts, self.threads, trace).exec())
        self.end = ENV.sched.next()
        self.still = ENV.sched.pending()
        ENV.sched.drain()

    def run_core(self, root, trace=False):
        """the same graph declared as updatable targets; only the closure of root is built"""
        C = sys.modules["licant.core"]
        core = C.Core()
        core.runtime["threads"] = self.threads
        core.runtime["trace"] = trace
        for i in range(self.n):
            t = core.updtarget(self.names[i], deps=[self.names[j] for j in sorted(self.deps[i])],
                               update_if=lambda s: True, update=lambda s, i=i: self.action(i))
        self.core = core
        self.outcome = attempt_any(lambda: core.get(self.names[root]).recurse_update(threads=self.threads))
        if self.outcome[0] == "exc" and "need_update" in str(self.outcome[1]):
            self.outcome = None
        self.end = ENV.sched.next()
        self.still = ENV.sched.pending()
        ENV.sched.drain()

    def closure(self, root):
        return {root} | {j for j in range(self.n) if self.reaches(root, j)}

    def reported_failure(self):
        k, v = self.outcome
        return k == "exc" or (k == "exit" and v not in (0, None)) or (k == "ok" and v is False)

    def describe(self):
        return "deps=%s threads=%s results=%s log(index,start,end,ok)=%s outcome=%s" % (
            [sorted(d) for d in self.deps], self.threads, self.modes, self.log, self.outcome)
