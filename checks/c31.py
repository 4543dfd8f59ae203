"""C31: an interrupt ends the build: nothing new starts, running actions finish, the status tells."""
import ast
import collections
import os
import sys

from symx.engine import E
from symx.env import ENV, REALOPEN, attempt, exit_status
from symx.runner import Config

from .solverlib import Run

ASSUMPTIONS = ["the interrupt arrives in the main thread, while it waits, or at a line of the executor (licant/solver.py) or "
               "a call of another function of licant; not inside the library of Python, and only once"]


_stmts = {}


def statements(path):
    """lines on which statements start"""
    if path not in _stmts:
        with REALOPEN(path, encoding="utf-8") as f:
            t = ast.parse(f.read())
        _stmts[path] = {x.lineno for x in ast.walk(t) if isinstance(x, ast.stmt)
                        and not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))}
    return _stmts[path]


class Interrupt:
    """raises KeyboardInterrupt at one arbitrary point"""

    def __init__(self, lines, limit):
        self.at = None
        self.lines, self.limit, self.count = lines, limit, 0
        self.active = False
        self.seen = collections.Counter()
        self.last = {}

    def point(self, *what):
        if self.at is None and self.active and ENV.sched.current is None and self.count < self.limit:
            self.count += 1
            self.seen[what] += 1
            if E.decide("interrupt %s #%d" % (" ".join(map(str, what)), self.seen[what])):
                self.at = (ENV.sched.next(), what[0])
                raise KeyboardInterrupt()

    def trace(self, frame, event, arg):
        if self.at is not None or ENV.sched.current is not None:
            return None
        fn = frame.f_code.co_filename
        if os.sep + "licant" + os.sep not in fn or frame.f_code.co_name.startswith("<"):
            return None
        name = os.path.basename(fn)
        if name not in self.lines:
            if event == "call":
                self.point(name, frame.f_code.co_name)
            return None
        if event == "line" and frame.f_lineno in statements(fn) and self.last.get(id(frame)) != frame.f_lineno:
            self.last[id(frame)] = frame.f_lineno
            self.point(name, frame.f_code.co_name, "line", frame.f_lineno)
        elif event == "return":
            self.last.pop(id(frame), None)
        return self.trace

    def __enter__(self):
        self.active = True
        return self

    def __exit__(self, *a):
        self.active = False
        sys.settrace(None)


def build(n, shape, threads, maxfail, lines, limit, kinds=("upd",), wait=True, code=True):
    def fn():
        L = sys.modules["licant"]
        r = Run(n)
        r.edges(shape)
        r.choose_modes(bool(maxfail), 1, maxfail)
        r.threads = 1 + E.choose("threads", threads)
        kind = E.pick("kind", kinds)
        c = L.default_core()
        for i in range(n):
            deps = [r.names[j] for j in sorted(r.deps[i])]
            act = lambda s=None, i=i: r.action(i)
            if kind == "upd":
                c.updtarget(r.names[i], deps=deps, update_if=lambda s: True, update=act)
            else:
                c.routine(act, deps=deps, tgt=r.names[i])
        # a target on top of all
        c.updtarget("all", deps=r.names, update_if=lambda s: True, update=lambda s: r.action(n))
        r.names.append("all")
        r.modes.append("true")
        r.deps.append(set(range(n)))
        r.n = n + 1
        it = Interrupt(lines, limit)
        if wait:
            ENV.sched.on_idle = lambda loop: it.point("waiting")

        def go():
            with it:
                if code:
                    sys.settrace(it.trace)
                L.ex("all", argv=["-j%d" % r.threads])
        try:
            r.outcome = attempt(go)
        except KeyboardInterrupt:
            # the interpreter ends with a traceback
            r.outcome = ("exc", "KeyboardInterrupt")
        ENV.sched.on_idle = None
        late = ENV.sched.pending()
        queued = len(ENV.sched.queued)
        ENV.sched.drain()
        det = lambda: "interrupted at %s; %s" % (it.at, r.describe())
        started = [x[0] for x in r.log]
        E.check(len(started) == len(set(started)), "once", det)
        for i, s, e, ok in r.log:
            for j in r.deps[i]:
                E.check(any(x[0] == j and x[2] < s and x[3] for x in r.log), "dependencies-first", det)
        bad = any(not x[3] for x in r.log)
        done = {x[0] for x in r.log if x[3]} == set(range(n + 1))
        if it.at is None:
            E.check((exit_status(r.outcome) == 0) == (not bad and done), "status-without-interrupt", det)
            E.cover("not interrupted")
        else:
            for i, s, e, ok in r.log:
                E.check(s < it.at[0], "starts-after-the-interrupt", det)
            E.check(exit_status(r.outcome) != 0 or done, "status", det)
            E.cover("waiting" if it.at[1] == "waiting" else "in the executor")
            if late:
                E.cover("action still running")
        E.observe([exit_status(r.outcome) != 0, sorted(started)])
    return fn


def configs(tier):
    allc = {"not interrupted", "waiting", "in the executor", "action still running"}
    few = {"not interrupted", "waiting", "action still running"}
    S = ("solver.py",)
    q = [
        Config("waiting", build(3, "ordered", 2, 1, S, 99, code=False), "DAGs of 3 actions below a fourth, 1..2 threads, at most one "
               "failure, interrupted while the executor waits, at any time or never", few),
        Config("anywhere", build(2, "ordered", 2, 0, S, 1000, ("upd", "routine")), "DAGs of 2 actions below a third, 1..2 threads, "
               "interrupted at any line of the executor, any other call or while it waits", allc),
    ]
    if tier == "quick":
        return q
    return q + [
        Config("waiting-4", build(4, "ordered", 3, 1, S, 99, code=False), "4 actions, 1..3 threads", few),
        Config("anywhere-failing", build(2, "ordered", 2, 1, S, 1000), "with one failing action", allc),
        Config("anywhere-3", build(3, "ordered", 2, 0, S, 1000), "DAGs of 3 actions", allc),
    ]
