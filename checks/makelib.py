"""Harness pieces for file targets: symbolic existence, modification times, update conditions."""
import sys

import z3

from symx.engine import E, SymBool, SymNum, And, If, Implies, Not, Or, zb, zn
from symx.env import ENV, Proc, attempt

W = "/vfs/w/"


class Item:
    """One declared target."""

    def __init__(self, i, kind, name):
        self.i, self.kind, self.name = i, kind, name
        self.deps = []
        self.force = False
        self.ex = True
        self.mt = None
        self.cond = False
        self.ran = 0
        self.start = self.end = None
        self.mode = "true"
        self.writes = True

    @property
    def path(self):
        return W + self.name


class Project:
    """A graph of sources, file targets, file sets and updatable targets with symbolic state."""

    def __init__(self, n, kinds, lo=0, hi=5):
        self.n, self.kinds, self.lo, self.hi = n, kinds, lo, hi
        self.items = []
        self.log = []
        self.weak = []         # targets that file targets are only weakly bound to

    def shape(self, maxdeps=9):
        for i in range(self.n):
            kind = E.pick("kind_%d" % i, self.kinds[i] if isinstance(self.kinds[0], (list, tuple)) else self.kinds)
            it = Item(i, kind, "n%d" % i)
            if kind != "source":
                for j in range(i):
                    if len(it.deps) < maxdeps and E.decide("dep_%d_%d" % (i, j)):
                        it.deps.append(j)
            self.items.append(it)
        return self

    def state(self, force=False, missing=True, conds=True, times=True):
        for it in self.items:
            if it.kind in ("source", "file"):
                it.ex = E.bool("exists_%d" % it.i) if missing else True
                it.mt = E.real("mtime_%d" % it.i, self.lo, self.hi) if times else 1
                ENV.vfs.file(it.path, "old %d" % it.i, it.ex, it.mt)
                if force and it.kind == "file":
                    it.force = E.decide("force_%d" % it.i)
            elif it.kind in ("upd", "routine") and conds:
                it.cond = E.bool("cond_%d" % it.i)
        return self

    # ------------------------------------------------------------------ declaration
    def declare(self, core, order=None):
        L = sys.modules["licant"]
        M = sys.modules["licant.make"]
        self.core = core
        for it in self.items if order is None else [self.items[k] for k in order]:
            deps = [self.items[j].name for j in it.deps]
            act = self.act(it)
            if it.kind == "source":
                core.source(it.name)
            elif it.kind == "file":
                core.add(L.FileTarget(tgt=it.name, deps=deps, force=it.force, build=act, use_dirkeep=False,
                                      **({"weakdeps": list(self.weak)} if self.weak else {})))
            elif it.kind == "fileset":
                core.add(M.MakeFileTarget(tgt=it.name, deps=deps))
            elif it.kind == "upd":
                core.updtarget(it.name, deps=deps, update_if=lambda s, it=it: it.cond, update=act)
            elif it.kind == "routine":
                def f(act=act):
                    return act(None)
                core.routine(f, deps=deps, update_if=lambda s, it=it: it.cond, tgt=it.name)

    def act(self, it):
        def action(target):
            j = ENV.sched.current
            start = j.start if j is not None else ENV.sched.next()
            it.ran += 1
            ok = it.mode == "true"
            if it.kind == "file" and it.writes and ok:
                ENV.vfs.write(it.path, "new %d" % it.i)
            self.log.append((it.i, start, ENV.sched.next(), ok))
            if it.mode == "raise":
                raise RuntimeError("boom")
            return ok
        return action

    # ------------------------------------------------------------------ oracle
    def closure(self, root):
        out, st = set(), [root]
        while st:
            x = st.pop()
            if x not in out:
                out.add(x)
                st.extend(self.items[x].deps)
        return out

    def mtime(self, i):
        it = self.items[i]
        if it.kind in ("source", "file"):
            return If(it.ex, it.mt, z3.RealVal(0))
        m = z3.RealVal(0)
        if it.kind == "fileset":
            for d in it.deps:
                if self.items[d].kind in ("source", "file", "fileset"):
                    md = zn(self.mtime(d))
                    m = z3.If(md > m, md, m)
        return m

    def own(self, i):
        it = self.items[i]
        if it.kind in ("upd", "routine"):
            return zb(it.cond)
        if it.kind == "fileset":
            return zb(False)
        own = Or(it.force, Not(it.ex))
        for d in it.deps:
            if self.items[d].kind in ("source", "file", "fileset"):
                own = Or(own, zn(self.mtime(d)) > zn(self.mtime(i)))
        return own

    def need(self, i, memo=None):
        memo = {} if memo is None else memo
        if i not in memo:
            memo[i] = Or(self.own(i), *[self.need(d, memo) for d in self.items[i].deps])
        return memo[i]

    def describe(self):
        return "items=%s ran=%s" % ([(it.name, it.kind, ["n%d" % d for d in it.deps]) for it in self.items], self.log)
