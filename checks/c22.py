"""C22: a library is included once, from the place with the highest precedence."""
import json
import sys

from symx import strings as S
from symx.engine import E
from symx.env import ENV, attempt, exit_status
from symx.runner import Config

from . import scriptlib as P

ASSUMPTIONS = ["the registries contain valid JSON", "the user's registry is ~/.licant, the system's /var/lib/licant"]
LIBS = ["a", "ab"]


class World:
    def __init__(self, nested, gone=False):
        """registries and scripts; ran: scripts in the order in which they were started"""
        self.ran = []
        self.reg = {"user": {}, "system": {}}
        self.L = sys.modules["licant"]
        self.nested = nested
        for where in ("user", "system"):
            if E.decide(where + "_registry"):
                for k in LIBS:
                    if E.decide("%s_%s" % (where, k)):
                        self.reg[where][k] = "/vfs/lib/%s/%s/%s.g.py" % (where, k, k)
                P.put(P.REGISTRY[where], json.dumps(self.reg[where]))
            else:
                self.reg[where] = None
        for where in ("user", "system"):
            for k in (self.reg[where] or {}):
                self.script(self.reg[where][k], (where, k))
        for k in LIBS:
            self.script("/vfs/w/own/%s.py" % k, ("own", k))
        self.script("/vfs/w/sub/own/a.py", ("subown", "a"))
        self.done = {}
        self.want = []
        self.gone = set()
        if gone:
            # registered or named scripts that are not there (any more)
            for p in sorted(ENV.vfs.nodes):
                if p.endswith(".py") and ("/lib/" in p or "/own/" in p) and E.decide("gone_" + p):
                    ENV.vfs.remove(p)
                    self.gone.add(p)

    def script(self, path, tag):
        def run():
            self.ran.append(tag)
            n = self.nested.get(tag[1])
            if n:
                # the library needs another one
                self.L.include(n)
        P.script(path, run)

    def place(self, name, path, base):
        """where the library is taken from, None: nowhere"""
        if path is not None and (path if path.startswith("/") else base + path) in self.gone:
            return None
        if path is not None:
            return {"/vfs/w/own/a.py": ("own", "a"), "/vfs/w/own/ab.py": ("own", "ab"), "/vfs/w/sub/own/a.py": ("subown", "a")}.get(
                path if path.startswith("/") else base + path)
        for where in ("user", "system"):
            for k in (self.reg[where] or {}):
                if S.s_eq(k, name):
                    return (where, k) if self.reg[where][k] not in self.gone else None
        return None

    def expect(self, name, path, base):
        """-> False when the include has to fail; extends self.want"""
        for k in self.done:
            if S.s_eq(k, name):
                return True
        p = self.place(name, path, base)
        if p is None:
            return False
        self.done[name] = p
        self.want.append(p)
        n = self.nested.get(p[1])
        if n:
            return self.expect(n, None, None)
        return True


def calls(n, nested, bases=("/vfs/w/",), paths=(None, "own/a.py"), gone=False):
    """n calls of include"""
    def fn():
        w = World(E.pick("nested", nested), gone)
        L = w.L
        for i in range(n):
            name = E.string_upto("library%d" % i, 2, "abc", 1) if i < 2 else E.pick("library%d" % i, LIBS)
            path = E.pick("path%d" % i, paths)
            base = E.pick("from%d" % i, bases)
            before = list(w.ran)
            ok = w.expect(name, path, base)

            def go():
                if path is None:
                    L.include(name)
                elif E.decide("keyword%d" % i):
                    L.include(name, path=path)
                else:
                    L.include(name, path)
            if base == "/vfs/w/":
                r = attempt(go)
            else:
                r = attempt(lambda: P.run_in(L, base, go))
            det = lambda: "%s %s from %s: %s ran %s want %s; registries %s" % (name, path, base, r, w.ran, w.want, w.reg)
            E.check(w.ran == w.want, "the-script-runs-once", det)
            if ok:
                E.check(exit_status(r) == 0, "included", det)
                E.cover("included" if w.ran != before else "again")
                if w.ran != before:
                    E.cover(w.ran[-1][0])
            else:
                E.check(r[0] in ("exit", "exc") and exit_status(r) != 0, "unregistered-is-an-error", det)
                E.cover("error")
                break
        E.observe([w.ran, w.want])
    return fn


def configs(tier):
    c = {"included", "again", "error", "user", "system", "own"}
    flat = [{}]
    cyc = [{"a": "ab"}, {"a": "ab", "ab": "a"}, {"a": "a"}]
    q = [
        Config("two", calls(2, flat, ("/vfs/w/", "/vfs/w/sub/")), "2 includes of any name of 1..2 characters over abc, 2 libraries registered by the user, "
               "the system, both or none, with and without a path, from 2 directories", c | {"subown"}),
        Config("nested", calls(2, cyc), "libraries that include each other or themselves", c),
    ]
    q.append(Config("gone", calls(1, [{}, {"a": "ab"}], gone=True), "1 include, any of the scripts missing", c - {"again"}))
    if tier == "quick":
        return q
    return q + [
        Config("three", calls(3, flat + cyc, ("/vfs/w/", "/vfs/w/sub/"), (None, "own/a.py", "/vfs/w/own/ab.py")), "3 includes", c | {"subown"}),
        Config("four", calls(4, flat, paths=(None, "own/a.py", "/vfs/w/own/ab.py")), "4 includes", c),
    ]
