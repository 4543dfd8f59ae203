"""C14: the command line reaches the requested target and action with its arguments."""
import sys

from symx import strings as S
from symx.engine import E, Not
from symx.env import ENV, Proc, attempt, exit_status, fresh
from symx.runner import Config

from .c09 import same

ASSUMPTIONS = ["free arguments that start with '-' are options (argparse), except negative numbers",
               "the names of licant's own targets (m, l, cxxm, binutils) are not used"]


class Party:
    """targets with recorded actions"""

    def __init__(self):
        self.calls = []
        self.t = {}

    def rec(self, name, act):
        def f(target, *args):
            self.calls.append((name, act, list(args)))
            return True
        return f

    def declare(self, core, name, kind):
        L = sys.modules["licant"]
        r = lambda a: self.rec(name, a)
        acts = {"go", "stop"}
        if kind == "target":
            core.add(L.Target(tgt=name, deps=[], action=r("action"), actions=acts, go=r("go"), stop=r("stop")))
            d = "action"
        elif kind == "upd":
            core.add(L.UpdatableTarget(tgt=name, deps=[], update_if=lambda s: True, update=r("update"), actions=acts, go=r("go"),
                                       stop=r("stop")))
            d, acts = "update", acts | {"update"}
        elif kind == "file":
            core.add(L.FileTarget(tgt=name, deps=[], build=r("build"), actions=acts, go=r("go"), stop=r("stop")))
            d, acts = "build", acts | {"build"}
        elif kind == "custom":
            core.add(L.UpdatableTarget(tgt=name, deps=[], default_action="stop", actions=acts, go=r("go"), stop=r("stop")))
            d = "stop"
        else:
            def f(*args):
                self.calls.append((name, "routine", list(args)))
                return True
            core.routine(f, tgt=name)
            d, acts = "routine", {"invoke_routine"}
        self.t[name] = (kind, d, acts)

    def expect(self, default, free):
        """-> ('error', []) or ('run', [call])"""
        err = ("error", [])

        def target(x):
            for n in self.t:
                if S.s_eq(n, x) or self.t[n][0] == "file" and same(x, n):
                    return n
            return None

        def run(n, a, args):
            if self.t[n][0] == "routine":
                a = "routine"
            return ("run", [(n, a, list(args))])
        if not free:
            n = target(default) if default is not None else None
            return err if n is None else run(n, self.t[n][1], [])
        n = target(free[0])
        if n is not None:
            kind, d, acts = self.t[n]
            if len(free) == 1 or kind == "routine":
                return run(n, d, free[1:])
            for a in sorted(acts):
                if S.s_eq(a, free[1]):
                    return run(n, a, free[2:])
            return err
        n = target(default) if default is not None else None
        if n is not None:
            for a in sorted(self.t[n][2]):
                if S.s_eq(a, free[0]):
                    return run(n, a, free[1:])
        return err


def go(p, argv, default, free, how):
    L = sys.modules["licant"]
    if how == "argument":
        r = attempt(lambda: L.ex(default, argv=argv))
    else:
        r = attempt(lambda: L.ex(default))
    ENV.sched.drain()
    want = p.expect(default, free)
    det = lambda: "default %s argv %s targets %s: %s calls %s, expected %s" % (default, argv, p.t, r, p.calls, want)
    if want[0] == "error":
        E.check(exit_status(r) != 0, "error-status", det)
        E.check(p.calls == [], "nothing-runs", det)
        E.cover("error")
    else:
        E.check(exit_status(r) == 0, "success", det)
        E.check(len(p.calls) == 1 and S.deq(p.calls, want[1]), "exactly-the-action-with-its-arguments", det)
        E.cover("run with arguments" if want[1][0][2] else "run")
    E.observe([want[0], len(p.calls), exit_status(r)])


def dispatch(k, kinds, words, how="argument", core=None):
    def fn():
        last = E.decide("options_last")
        argv0 = ["-qj1"] if last else ["-j1"]
        n = E.choose("nfree", k + 1)
        free = [E.pick("free_%d" % i, words if i < 2 else ["go", "x y", "", "-1", "t"]) for i in range(n)]
        argv = free + argv0 if last else argv0 + free
        if how != "argument":
            fresh(["/vfs/w/make.py"] + argv)
        L = sys.modules["licant"]
        p = Party()
        c = L.default_core()
        p.declare(c, "t", E.pick("kind_t", kinds))
        p.declare(c, "go", E.pick("kind_go", kinds)) if E.decide("have_go") else None
        p.declare(c, "mm", "file")
        go(p, argv, E.pick("default", ["t", "mm", None, "gone"]), free, how)
    return fn


def texts(n, alphabet, first):
    """arguments are arbitrary text"""
    def fn():
        L = sys.modules["licant"]
        p = Party()
        c = L.default_core()
        p.declare(c, "t", E.pick("kind_t", ["target", "routine", "upd"]))
        p.declare(c, "mm", "file")
        w = E.string_upto("word", n, alphabet)
        for x in ("m", "l"):
            E.assume(Not(S.s_eq(w, x)))
        w2 = E.pick("word2", [None, w, "", "t"])
        ws = [w] if w2 is None else [w, w2]
        if first == "arg":
            free = E.pick("prefix", [["t", "go"], ["go"], ["mm", "build"]]) + ws
        elif first == "act":
            free = ["t"] + ws
        else:
            free = ws
        go(p, ["-j1"] + free, E.pick("default", ["t", "mm"]), free, "argument")
    return fn


def routine_words():
    """arguments of a routine that are names of actions or of targets"""
    def fn():
        L = sys.modules["licant"]
        p = Party()
        c = L.default_core()
        p.declare(c, "t", "routine")
        p.declare(c, "mm", "file")
        words = sorted(c.get("t").__actions__) + sorted(c.get("mm").__actions__ - c.get("t").__actions__) + ["mm", "t"]
        free = ["t", E.pick("word_1", words)]
        if E.decide("two"):
            free.append(E.pick("word_2", words))
        go(p, ["-j1"] + free, E.pick("default", ["t", "mm", None]), free, "argument")
    return fn


def configs(tier):
    words = ["t", "go", "stop", "nope", "./mm", "/vfs/w/mm", ""]
    c = {"run", "run with arguments", "error"}
    q = [
        Config("dispatch-2", dispatch(2, ["target", "routine"], words), "0..2 free arguments out of 7 words, 4 defaults, 2 kinds of targets, "
               "a target called like an action or not", c),
        Config("kinds-2", dispatch(2, ["upd", "file", "custom"], ["t", "go", "nope"]), "updatable and file targets, target with a default "
               "action of its own", c),
        Config("argv-3", dispatch(3, ["target"], ["t", "go", "nope"], "sysargv"), "arguments of the process", c),
        Config("routine-words", routine_words(), "a routine with one or two arguments out of all names of actions and targets",
               {"run with arguments"}),
        Config("args", texts(2, "tgom ./=", "arg"), "argument text of up to 2 characters, passed to an action", {"run with arguments", "error"}),
        Config("acts", texts(2, "gom ./t", "act"), "action text of up to 2 characters", {"run with arguments", "run", "error"}),
        Config("names", texts(2, "gom ./t", "name"), "target text of up to 2 characters", c),
    ]
    if tier == "quick":
        return q
    return q + [
        Config("dispatch-3", dispatch(3, ["target", "routine"], words), "0..3 free arguments", c),
        Config("args-3", texts(3, "tgom ./=", "arg"), "argument text of up to 3 characters", {"run with arguments", "error"}),
        Config("names-3", texts(3, "gom ./t", "name"), "target text of up to 3 characters", c),
    ]
