"""C28: a module lookup returns the implementation asked for, or its current default."""
import sys

from symx import strings as S
from symx.engine import E, Not
from symx.env import ENV, attempt, exit_status
from symx.runner import Config

from . import cxxlib as X
from . import scriptlib as P

ASSUMPTIONS = ["the implementation name __none__ (an empty module on request) is not used"]


class Model:
    """the declarations so far; names may be symbolic"""

    def __init__(self):
        self.decls = []        # (name, impl, tag)
        self.defaults = []     # (name, impl)

    def get(self, name, impl):
        for n, i, t in reversed(self.decls):
            if S.s_eq(n, name) and S.s_eq(i, impl):
                return t
        return None

    def default(self, name):
        for n, i in reversed(self.defaults):
            if S.s_eq(n, name):
                return self.get(name, i)
        return None


OPS = ["module", "implementation", "implementation default", "module impl", "module impl default", "set default"]


def history(k, ops, name, impl, lookups, how, dirs=False):
    def fn():
        L = sys.modules["licant"]
        m = Model()
        did = []
        h = E.pick("how", how)
        for i in range(k):
            op = E.pick("op_%d" % i, ops)
            n = name("name_%d" % i)
            im = impl("impl_%d" % i) if op != "module" else "__default__"
            tag = "T%d" % i
            did.append((op, n, im))
            o = {"defines": [tag]}
            if h == "build":
                o["sources"] = ["%s.c" % tag]
                ENV.vfs.file("/vfs/w/%s.c" % tag, "", mtime=1)
            if dirs and E.decide("elsewhere_%d" % i):
                o["sources"] = ["../%s.c" % tag] if h == "build" else []
                run = lambda f: P.run_in(L, "/vfs/w/d%d" % i, f)
            else:
                run = lambda f: f()
            if op == "module":
                run(lambda: L.module(n, **o))
            elif op.startswith("implementation"):
                run(lambda: L.implementation(n, im, default=op.endswith("default"), **o))
            elif op.startswith("module impl"):
                run(lambda: L.module(n, impl=im, default=op.endswith("default"), **o))
            else:
                run(lambda: L.module_default_implementation(n, im))
            if op != "set default":
                m.decls.append((n, im, tag))
            if op == "module" or op.endswith("default"):
                m.defaults.append((n, im))
        for q in range(lookups):
            n = name("ask_name_%d" % q)
            im = impl("ask_impl_%d" % q) if E.decide("ask_for_impl_%d" % q) else None
            want = m.default(n) if im is None else m.get(n, im)
            rec = X.Recorder()
            if h == "get":
                r = attempt(lambda: L.modules.mlibrary.get(n, im) if im is not None else L.modules.mlibrary.get(n))
            elif h == "get_default":
                r = attempt(lambda: L.modules.mlibrary.get_default(n) if im is None else L.modules.mlibrary.get(n, im))
            elif h == "m print":
                L.cli.opts = None
                r = attempt(lambda: L.ex(None, argv=["-j1", "m", "print", n] + ([] if im is None else [im])))
            else:
                L.cli.opts = None
                def go():
                    L.cxx_objects("root%d" % q, modules=[L.submodule(n) if im is None else
                                                          L.submodule(n, im) if E.decide("two_args") else L.submodule((n, im))])
                    return L.ex("root%d" % q, argv=["-j1"])
                r = attempt(go)
            ENV.sched.drain()
            det = lambda: "%s, asked %s %s by %s: %s, expected %s" % (did, n, im, h, r, want)
            if want is None:
                E.check(exit_status(r) != 0, "missing-is-an-error", det)
                E.check(rec.cmds == [], "nothing-built", det)
                E.cover("missing")
                if h == "build":
                    break
            else:
                E.check(exit_status(r) == 0, "found", det)
                if h in ("get", "get_default"):
                    E.check(S.deq(r[1].name, n), "name", det)
                    E.check(r[1].opts.get("defines") == [want], "the-implementation", det)
                elif h == "m print":
                    E.check("'%s'" % want in ENV.text().rsplit("{", 2)[-1] or want in ENV.text(), "prints-the-implementation", det)
                else:
                    E.check([c.D for c in rec.of("cc")] == [[want]], "builds-the-implementation", lambda: det() + str([c.text for c in rec.cmds]))
                E.cover("found default" if im is None else "found")
            E.observe([q, want, exit_status(r)])
    return fn


def one(alphabet):
    return lambda tag: E.string(tag, 1, alphabet)


def upto(n, alphabet):
    return lambda tag: E.string_upto(tag, n, alphabet)


def pick(*xs):
    return lambda tag: E.pick(tag, list(xs))


def configs(tier):
    t = tier == "thorough"
    c = {"missing", "found", "found default"}
    gets = ["get", "get_default"]
    return [
        Config("histories", history(4 if t else 3, OPS, one("abcdefgh"), one("mnopq"), 1, gets[:1] if not t else gets),
               "%d declarations of any kind with arbitrary names and implementations, then any lookup" % (4 if t else 3), c, time_limit=6000),
        Config("one module", history(5 if t else 4, OPS[:3] + OPS[5:], pick("a"), one("mnop"), 1, ["get_default"]),
               "%d declarations of one module, implementations with arbitrary names" % (5 if t else 4), c, time_limit=3000),
        Config("texts", history(2, ["module", "implementation", "set default"], upto(2, "ab_."), upto(2 if t else 1, "xy_"), 1, ["get"]),
               "2 declarations with names of up to 2 arbitrary characters", c),
        Config("two lookups", history(2, OPS, one("abc"), one("xyz"), 2, gets), "2 declarations, 2 lookups (an error does not disturb the next)", c),
        Config("command line", history(2, ["module", "implementation default", "implementation", "set default"], pick("a", "bb"), pick("x", "yy"), 1, ["m print"]),
               "m print NAME [IMPL]", c),
        Config("builds", history(3 if t else 2, ["module", "implementation default", "implementation", "set default"], pick("a", "bb"), pick("x", "yy"), 1, ["build"], dirs=True),
               "the module that a submodule() entry builds, declarations from scripts in other directories", c),
    ]
