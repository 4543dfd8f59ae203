"""C26: routines run after their dependencies, with exactly their arguments."""
import sys

from symx import strings as S
from symx.engine import E, Not, Or, SymBool, zb
from symx.env import ENV, attempt, exit_status
from symx.runner import Config

from .solverlib import FAILS, OKS, Boom

ASSUMPTIONS = ["arguments are compared by value", "a routine reads its arguments only through its parameters"]


class Party:
    def __init__(self, n, conds, modes, maxfail=1, oks=1):
        self.n, self.conds, self.oks = n, conds, oks
        self.names = ["r%d" % i for i in range(n)]
        self.deps = [[j for j in range(i) if E.decide("dep_%d_%d" % (i, j))] for i in range(n)]
        self.calls = []
        self.modes, self.maxfail = modes, maxfail
        self.cond = [True] * n
        self.mode = ["true"] * n
        self.rnd = 0

    def f(self, i):
        def func(*args, **kwargs):
            j = ENV.sched.current
            start = j.start if j is not None else ENV.sched.next()
            m = self.mode[i]
            self.calls.append((i, list(args), dict(kwargs), start, ENV.sched.next(), m not in FAILS))
            if m == "raise":
                raise Boom("routine %d" % i)
            return False if m == "false" else dict(OKS)[m]
        func.__name__ = self.names[i]
        return func

    def declare(self, core, style):
        L = sys.modules["licant"]
        for i in range(self.n):
            f = self.f(i)
            d = [self.names[j] for j in self.deps[i]]
            u = (lambda s, i=i: self.cond[i]) if self.conds else None
            k = {} if u is None else {"update_if": u}
            if style == "named":
                r = core.routine(f, deps=d, tgt=self.names[i], **k)
            elif style == "decorator" or not core is L.default_core():
                if not d and not k:
                    r = core.routine(f)
                else:
                    r = core.routine(deps=d, **k)(f)
            else:
                r = L.routine(f) if not d and not k else L.routine(deps=d, **k)(f)
            E.check(r is f, "decorator-keeps-the-function", style)

    def round(self):
        """new update conditions and results"""
        self.rnd += 1
        self.calls = []
        nf = 0
        for i in range(self.n):
            if self.conds:
                self.cond[i] = E.bool("cond_%d_%d" % (self.rnd, i))
            if self.modes:
                opts = [o[0] for o in OKS[:self.oks]] + (FAILS if nf < self.maxfail else [])
                self.mode[i] = E.pick("result_%d_%d" % (self.rnd, i), opts)
                nf += self.mode[i] in FAILS

    def closure(self, i):
        out, st = set(), [i]
        while st:
            x = st.pop()
            if x not in out:
                out.add(x)
                st.extend(self.deps[x])
        return out

    def need(self, i):
        return Or(zb(self.cond[i]), *[self.need(d) for d in self.deps[i]])

    def judge(self, root, args, kwargs, failed):
        det = lambda: "deps %s root %d args %s %s modes %s conds %s calls %s failed %s" % (
            self.deps, root, args, kwargs, self.mode, self.cond, self.calls, failed)
        cl = self.closure(root)
        ran = [c[0] for c in self.calls]
        E.check(len(ran) == len(set(ran)), "once", det)
        E.check(set(ran) <= cl, "only-dependencies", det)
        bad = {c[0] for c in self.calls if not c[5]}
        for i in sorted(cl):
            held = any(b in self.closure(i) and b != i for b in bad)
            if not bad:
                E.check(SymBool(zb(self.need(i)) == zb(i in ran)), "runs-iff-needed", det)
            else:
                E.cover("failure")
                if i in ran:
                    E.check(self.need(i), "runs-only-if-needed", det)
                E.check(not (held and i in ran), "dependents-held-back", det)
        for i, a, k, s, e, ok in self.calls:
            for j in self.closure(i) - {i}:
                for c in self.calls:
                    if c[0] == j:
                        E.check(c[4] < s, "after-dependencies", det)
            want = (args, kwargs) if i == root else ([], {})
            E.check(S.deq(a, want[0]) and S.deq(k, want[1]), "its-arguments", det)
        if failed is not None:
            E.check(failed == bool(bad), "failure-reported-exactly", det)
        # a failing routine that is needed and has no failed dependency cannot be skipped
        for i in sorted(cl):
            if self.mode[i] in FAILS and not bad:
                E.check(Not(self.need(i)), "needed-routine-skipped", det)
        E.observe([sorted(ran), sorted(bad), failed])


def invoke(p, core, root, how, args, kwargs):
    L = sys.modules["licant"]
    name = p.names[root]
    if how == "target":
        r = attempt(lambda: core.get(name).invoke("invoke_routine", args=args, kwargs=kwargs))
    elif how == "default":
        t = core.get(name)
        r = attempt(lambda: t.invoke(t.default_action, args=args, kwargs=kwargs))
    elif how == "do":
        r = attempt(lambda: core.do(name, args=args, kwargs=kwargs))
    elif how == "do-list":
        r = attempt(lambda: core.do([name], args=args, kwargs=kwargs))
    elif how == "module-do":
        r = attempt(lambda: L.do(name, args=args, kwargs=kwargs))
    elif how == "command line":
        r = attempt(lambda: L.ex(None, argv=["-j%d" % core.runtime["threads"], name] + args))
    elif how == "as default":
        r = attempt(lambda: L.ex(name, argv=["-j%d" % core.runtime["threads"]]))
    ENV.sched.drain()
    if how in ("do", "do-list", "module-do"):
        return None if r[0] == "ok" else True
    if how in ("command line", "as default"):
        return exit_status(r) != 0
    return r[0] == "exc" or r[0] == "exit" and exit_status(r) != 0 or r[0] == "ok" and r[1] is False


def graphs(n, conds, modes, threads, hows, rounds=1, maxfail=1, oks=1, own=True, style="named", argsets=None):
    def fn():
        L = sys.modules["licant"]
        how = E.pick("how", hows)
        p = Party(n, conds, modes, maxfail, oks)
        core = L.core.Core() if own and how not in ("module-do", "command line", "as default") else L.default_core()
        core.runtime["threads"] = 1 + E.choose("threads", threads)
        p.declare(core, style if isinstance(style, str) else E.pick("style", style))
        for k in range(rounds):
            p.round()
            root = n - 1 if rounds == 1 else n - 1 - E.choose("root_%d" % k, 2)
            args, kwargs = ([], {}) if argsets is None else argsets(k, how)
            failed = invoke(p, core, root, how, args, kwargs)
            p.judge(root, args, kwargs, failed)
            E.cover("round %d" % k)
            if failed and how in ("command line", "as default"):
                break
            if how in ("command line", "as default"):
                sys.modules["licant.cli"].opts = None      # parsed once per process
    return fn


def some_args(k, how):
    """any text, numbers, lists; positional and keyword"""
    w = E.string_upto("arg_%d" % k, 2, "ab /=") if k == 0 else "w%d" % k
    shape = E.pick("args_%d" % k, [([], {}), (["w"], {}), (["2", "w", ""], {"a": 1}), ([], {"args": "w", "kwargs": None, "deps": "w"})])
    args = [w if a == "w" else a for a in shape[0]]
    if how in ("command line", "as default"):
        return (args if how == "command line" else []), {}
    return args, {x: (w if y == "w" else y) for x, y in shape[1].items()}


def few_args(k, how):
    args, kw = E.pick("args_%d" % k, [([], {}), (["x%d" % k], {}), ([], {"a": k})])
    return (args, {} if how == "command line" else kw)


def configs(tier):
    t = tier == "thorough"
    allhows = ["target", "default", "do", "do-list", "module-do", "command line", "as default"]
    c = [
        Config("graphs", graphs(4 if t else 3, True, True, 2, ["default"], oks=2 if not t else 1),
               "every acyclic graph of %d routines (each may depend on earlier ones), symbolic update conditions, one "
               "failing (False or exception), 1-2 threads, all completion orders" % (4 if t else 3),
               cover=["failure", "round 0"]),
        Config("results", graphs(2, False, True, 1, ["default"], maxfail=2, oks=5),
               "2 routines, each returns True, None, 0, '', [] or False, or raises", cover=["failure"]),
        Config("entries", graphs(2, False, True, 1, allhows, argsets=some_args, style=["named", "decorator", "module"]),
               "2 routines, one may fail, every way of invoking (target, do, list, command line, default target), declared by call or "
               "decorator, positional and keyword arguments with arbitrary text", cover=["failure"]),
        Config("history", graphs(2, False, True, 1, ["target", "do"], rounds=2, argsets=few_args),
               "two invocations of any of 2 routines, with arguments, one may fail each time",
               cover=["failure", "round 1"]),
        Config("history with conditions", graphs(2, True, False, 1, ["target"], rounds=2, argsets=few_args),
               "two invocations of any of 2 routines, with arguments, fresh conditions each time",
               cover=["round 1"]),
    ]
    if t:
        c.append(Config("history of three", graphs(2, True, True, 1, ["target"], rounds=3, argsets=lambda k, h: (
            E.pick("args_%d" % k, [[], ["x%d" % k]]), {})),
            "three invocations", cover=["failure", "round 2"]))
        c.append(Config("fine", graphs(3, True, True, 2, ["default"], oks=1),
                        "as graphs, completions may arrive at one arbitrary iteration of the event loop", fine=1))
    return c
