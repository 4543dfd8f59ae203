"""C36: one request asks every update condition at most once, before any action runs."""
import sys

from symx.engine import E
from symx.env import ENV, attempt, exit_status
from symx.runner import Config

ASSUMPTIONS = ["update conditions do not make requests of their own"]


class Graph:
    """targets with update conditions that are counted"""

    def __init__(self, deps, kinds, order, threads, default=False):
        L = sys.modules["licant"]
        self.n = len(deps)
        self.deps, self.kinds = deps, kinds
        self.req = 0
        self.asked, self.ran, self.answers = [], [], {}
        self.core = L.default_core() if default else L.MakeCore()
        self.core.runtime["threads"] = threads
        for i in order:
            self.declare(i)

    def name(self, i):
        return "n%d" % i

    def ask(self, i):
        E.check(i not in self.asked, "asked-at-most-once", self.describe)
        E.check(not self.ran, "asked-before-any-action", self.describe)
        self.asked.append(i)
        k = (self.req, i)
        if k not in self.answers:
            self.answers[k] = self.answer(i)
        return self.answers[k]

    def answer(self, i):
        return E.decide("needs_%d_%d" % (self.req, i))

    def act(self, i):
        E.check(i not in self.ran, "ran-at-most-once", self.describe)
        self.ran.append(i)
        return True

    def declare(self, i):
        ds = [self.name(j) for j in self.deps[i]]
        c = self.core
        k = self.kinds[i]
        if k == "upd":
            c.updtarget(self.name(i), deps=ds, update_if=lambda s: self.ask(i), update=lambda s: self.act(i))
        elif k == "routine":
            c.routine(lambda: self.act(i), deps=ds, update_if=lambda s: self.ask(i), tgt=self.name(i))
        elif k == "fileset":
            c.add(sys.modules["licant.make"].MakeFileTarget(tgt=self.name(i), deps=ds))

    def closure(self, i, acc=None):
        acc = set() if acc is None else acc
        if i not in acc:
            acc.add(i)
            for j in self.deps[i]:
                self.closure(j, acc)
        return acc

    def need(self, i):
        return bool(self.answers.get((self.req, i))) or any(self.need(j) for j in self.deps[i])

    def request(self, root, how="do"):
        self.req += 1
        self.asked, self.ran = [], []
        if how == "do":
            r = attempt(lambda: self.core.do(self.name(root)))
            ok = r[0] == "ok"
        else:
            L = sys.modules["licant"]
            sys.modules["licant.cli"].opts = None
            r = attempt(lambda: L.ex(self.name(root), argv=["-j1"], core=self.core))
            ok = exit_status(r) == 0
        ENV.sched.drain()
        E.check(ok, "no-error", lambda: "%s %s" % (r, self.describe()))
        clo = self.closure(root)
        for i in clo:
            if self.kinds[i] != "fileset":
                E.check((i in self.ran) == self.need(i), "acts-on-the-answer-given", self.describe)
        if self.ran:
            E.cover("acted")
        else:
            E.check(all(i in self.asked for i in clo if self.kinds[i] != "fileset"), "every-condition-heard", self.describe)
            E.cover("idle")

    def describe(self):
        return "%s asked %s ran %s answers %s" % ([(self.name(i), k, d) for i, (k, d) in enumerate(zip(self.kinds, self.deps))],
                                                  self.asked, self.ran, self.answers)


def orders(n):
    up = list(range(n))
    return [up[::-1], up, up[1:] + up[:1]]


def graph(n, kinds, threads=1, requests=1, hows=("do",), anyroot=True, norders=3):
    def fn():
        deps = [[j for j in range(i) if E.decide("dep_%d_%d" % (i, j))] for i in range(n)]
        ks = [E.pick("kind_%d" % i, kinds) for i in range(n)]
        how = E.pick("how", hows)
        g = Graph(deps, ks, E.pick("order", orders(n)[:norders]), threads)
        for k in range(requests):
            g.request(E.choose("root_%d" % k, n) if anyroot else n - 1, how)
        E.observe([sorted(g.asked), sorted(g.ran)])
    return fn


def layers(k):
    """diamonds on top of each other: as many paths as two to the number of layers"""
    def fn():
        deps, ks = [], []
        for i in range(k):
            for s in range(2):
                deps.append([2 * i - 2, 2 * i - 1] if i else [])
                ks.append("upd")
        n = len(deps)
        which = E.choose("needs", n + 1)
        g = Graph(deps, ks, E.pick("order", orders(n)), 1)
        g.answer = lambda i: i == which
        g.request(n - 1)
        g.request(n - 2)
        E.observe([sorted(g.asked), sorted(g.ran)])
    return fn


def configs(tier):
    c = {"acted", "idle"}
    q = [
        Config("graph-4", graph(4, ["upd"], norders=2), "4 updatable targets, every acyclic dependency relation, 2 orders of declaration, "
               "every answer of every condition, every request", c),
        Config("kinds-3", graph(3, ["upd", "routine", "fileset"], hows=("do", "cli"), anyroot=False, norders=2), "3 updatable targets, routines and file sets, requested by do and by "
               "the command line", c),
        Config("twice-3", graph(3, ["upd"], requests=2, norders=2), "two requests in one process, the conditions answer anew", c),
        Config("threads-3", graph(3, ["upd"], threads=2), "2 threads", c),
        Config("layers", layers(7), "7 layers of 2 targets, each depending on both below; none or one of them out of date", c),
    ]
    if tier == "quick":
        return q
    return q + [
        Config("graph-4-kinds", graph(4, ["upd", "routine"]), "4 updatable targets or routines", c),
        Config("graph-5", graph(5, ["upd"]), "5 updatable targets", c),
        Config("twice-3-kinds", graph(3, ["upd", "routine"], requests=2), "3 updatable targets or routines, two requests", c),
        Config("kinds-3-all", graph(3, ["upd", "routine", "fileset"], hows=("do", "cli")), "3 targets of any kind, every request", c),
        Config("layers-12", layers(12), "12 layers", c),
    ]
