"""C16: collecting module dependencies gives the closure, one implementation each."""
import shlex
import sys

from symx.engine import E
from symx.env import ENV, Proc, attempt, exit_status
from symx.runner import Config

ASSUMPTIONS = ["when an implementation is named only by a module that was itself chosen by default, after the default of the module it "
               "names could already have been taken, both an error and the named implementation are accepted"]


class Lib:
    """modules with implementations; symbolic dependencies (only where the root can reach them) and defaults"""

    def __init__(self, names, impls, unknown=False, back=True, maxdeps=9, order=False, own=True, defaults=None, rootimpls=()):
        self.names, self.impls = names, impls
        self.rootimpls = list(rootimpls)
        self.deps = {}           # (name, impl) -> list of dependencies as declared
        self.default = {}
        todo = [("root", "__default__")]
        self.default["root"] = "__default__"
        while todo:
            k = todo.pop(0)
            if k in self.deps:
                continue
            ds = []
            for n in names + (["root"] if back and k[0] != "root" or self.rootimpls else []):
                if n != "root" and n not in self.default:
                    # decided when the module is first of interest
                    self.default[n] = E.pick("default_" + n, defaults or [None] + impls)
                if n == k[0] and not own:
                    continue
                opts = [None, n]
                if n == "root":
                    opts += [(n, i) for i in ["__default__"] + self.rootimpls]
                else:
                    opts += [(n, i) for i in impls]
                    if unknown and k[0] == "root":
                        opts.append((n, "gone"))
                if len(ds) >= maxdeps and k[0] != "root":
                    break
                d = E.pick("dep_%s_%s_%s" % (k[0], k[1], n), opts)
                if d is not None:
                    ds.append(d)
                    if isinstance(d, tuple):
                        if d[1] != "gone":
                            todo.append(d)
                    elif n == "root":
                        todo.append(("root", "__default__"))
                    else:
                        todo.extend((n, i) for i in impls)
            if unknown and k[0] == "root" and E.decide("unknown_module"):
                ds.append(E.pick("unknown", ["nowhere", ("nowhere", "x")]))
            if order and len(ds) > 1 and E.decide("reverse_%s_%s" % k):
                ds.reverse()
            self.deps[k] = ds

    def declare(self, L, root=None, **kw):
        for n in self.names:
            for i in self.impls:
                o = dict(kw)
                d = self.deps.get((n, i), [])
                if d:
                    o["mdepends"] = list(d)
                if "defines" in kw:
                    o["defines"] = ["%s_%s" % (n, i)]
                if i == "y" or d == []:
                    L.module(n, impl=i, default=self.default.get(n) == i, **o)
                else:
                    L.implementation(n, i, default=self.default.get(n) == i, **o)
        if root is None:
            d = self.deps[("root", "__default__")]
            o = {"mdepends": list(d)} if d else {}
            L.module("root", **o)
            for i in self.rootimpls:
                d = self.deps.get(("root", i), [])
                L.implementation("root", i, **({"mdepends": list(d)} if d else {}))

    # ------------------------------------------------------------------ reference
    def lookup(self, n, i):
        if n == "root":
            return i == "__default__" or i in self.rootimpls
        return n in self.names and i in self.impls

    def results(self):
        """outcomes of 'named ones first, then defaults in any order': set of frozensets or 'error'"""
        out = set()

        def explicit(got, queue, k):
            """walk the named dependencies from k; False on a conflict"""
            seen, st = set(), [k]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                for d in self.deps.get(x, []):
                    if isinstance(d, tuple):
                        if not self.lookup(*d) or got.get(d[0], d[1]) != d[1]:
                            return False
                        got[d[0]] = d[1]
                        st.append(d)
                    else:
                        queue.add(d)
            return True

        memo = set()

        def step(got, queue):
            key = (frozenset(got.items()), frozenset(queue))
            if key in memo:
                return
            memo.add(key)
            left = [n for n in queue if n not in got]
            if not left:
                out.add(frozenset(got.items()))
            for n in left:
                if n not in self.names and n != "root" or self.default.get(n) is None:
                    out.add("error")
                    continue
                g, q = dict(got), set(queue)
                g[n] = self.default[n]
                if explicit(g, q, (n, self.default[n])):
                    step(g, q)
                else:
                    out.add("error")
        g, q = {}, set()
        if explicit(g, q, ("root", "__default__")):
            step(g, q)
        else:
            out.add("error")
        return out

    def describe(self):
        return "%s defaults %s" % (self.deps, self.default)


def judge(lib, r, got, printed):
    want = lib.results()
    det = lambda: "%s: %s %s, expected one of %s" % (lib.describe(), r, got, want)
    if exit_status(r) != 0:
        E.check("error" in want, "no-error-without-reason", det)
        E.check(r[0] != "exc", "reported-error", det)
        E.cover("error")
    else:
        E.check(len(got) == len(set(got)), "each-once", det)
        names = [g[0] for g in got]
        E.check(len(names) == len(set(names)), "one-implementation-each", det)
        E.check(frozenset(got) in want, "exactly-the-closure", det)
        E.cover("collected" if got else "empty")
    E.observe([exit_status(r) != 0, sorted(map(str, got))])


def listing(names, impls, **kw):
    """as printed by 'cxxm collect_modules'"""
    def fn():
        L = sys.modules["licant"]
        lib = Lib(names, impls, **kw)
        lib.declare(L)
        r = attempt(lambda: L.ex("cxxm", argv=["-j1", "collect_modules", "root"]))
        got = []
        for l in ENV.text().splitlines():
            if l.count(":") == 1 and " " not in l and "\x1b" not in l:
                got.append(tuple(l.strip().split(":")))
        judge(lib, r, got if exit_status(r) == 0 else [], True)
    return fn


def compiled(names, impls, **kw):
    """as seen in the options of a compile command"""
    def fn():
        L = sys.modules["licant"]
        v = ENV.vfs
        v.file("/vfs/w/r.c", "", mtime=1)
        lib = Lib(names, impls, back=False, **kw)
        cmds = []

        def handler(cmd):
            w = shlex.split(cmd)
            cmds.append(w)
            out = w[w.index("-o") + 1] if "-o" in w else w[w.index(">") + 1]
            return Proc(0, effect=lambda: v.write(out, "x"))
        ENV.handler = handler
        lib.declare(L, root=False, defines=True)
        d = lib.deps[("root", "__default__")]

        def go():
            L.cxx_objects("root", sources=["r.c"], **({"mdepends": list(d)} if d else {}))
            return L.ex("root", argv=["-j1"])
        r = attempt(go)
        ENV.sched.drain()
        cc = [w for w in cmds if "-c" in w]
        got = []
        if exit_status(r) == 0:
            E.check(len(cc) == 1, "one-compilation", str(cmds))
            got = [tuple(x[2:].rsplit("_", 1)) for x in cc[0] if x.startswith("-D")]
        else:
            E.check(cmds == [], "nothing-built", str(cmds))
        judge(lib, r, got, False)
    return fn


def configs(tier):
    c = {"collected", "empty", "error"}
    q = [
        Config("list-2x2", listing(["b", "c"], ["x", "y"], back=False, own=False, defaults=[None, "x"]),
               "2 modules with 2 implementations, every dependency (by name, by name and implementation) on the other, default or none", c),
        Config("cyclic-2x1", listing(["b", "c"], ["x"], unknown=True, own=False), "2 modules, cycles through the root, unknown modules and "
               "implementations", c),
        Config("chain-3x1", listing(["b", "c", "d"], ["x"], back=False, maxdeps=1, defaults=["x"]),
               "3 modules, cycles, one dependency each", {"collected", "empty"}),
        Config("itself", listing(["b"], ["x"], rootimpls=["other"], defaults=["x"]), "a module with two implementations that depend on each other, "
               "themselves and another module", c),
        Config("compiled-2", compiled(["b", "c"], ["x"], unknown=True, own=False), "as options of the compile command", c),
    ]
    if tier == "quick":
        return q
    return q + [
        Config("order-2x1", listing(["b", "c"], ["x"], unknown=True, order=True), "2 modules that may depend on themselves, both orders", c),
        Config("compiled-2x2", compiled(["b", "c"], ["x", "y"], own=False), "2 modules with 2 implementations", c),
        Config("chain-3x2", listing(["b", "c", "d"], ["x", "y"], back=False, maxdeps=1, own=False, defaults=["x"]),
               "3 modules with 2 implementations, one dependency each", c),
    ]
