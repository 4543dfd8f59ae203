"""C23: the registry utility changes exactly the record it was asked to change."""
import json
import sys

from symx import strings as S
from symx.engine import E, Not
from symx.env import ENV, attempt, exit_status, fresh
from symx.runner import Config

from . import scriptlib as P

ASSUMPTIONS = ["the user's registry is ~/.licant, the system's /var/lib/licant", "no crash while the registry is written",
               "directories to scan have no pattern characters in their names"]
MODS = ("licant", "licant.licant_libs")
FILES = ["/vfs/w/one.py", "/vfs/w/d/x.g.py", "/vfs/w/d/y.z.g.py", "/vfs/w/d/other.py", "/vfs/abs/two.py"]


def content(where):
    """what the registry file says; None: not there, 'broken': not JSON"""
    p = P.REGISTRY[where]
    if not ENV.vfs.exists(p):
        return None
    try:
        return json.loads(ENV.vfs.read(p))
    except ValueError:
        return "broken"


def as_list(reg):
    return [] if reg is None else list(reg.items()) if isinstance(reg, dict) else reg


def same(a, b):
    """two lists of records, in any order"""
    if not isinstance(a, list) or not isinstance(b, list):
        return a == b
    if len(a) != len(b):
        return False
    rest = list(b)
    for k, v in a:
        hit = [i for i, (k2, v2) in enumerate(rest) if S.s_eq(k, k2)]
        if len(hit) != 1 or not S.s_eq(v, rest[hit[0]][1]):
            return False
        del rest[hit[0]]
    return True


def put(reg, name, path):
    return [(k, v) for k, v in reg if not S.s_eq(k, name)] + [(name, path)]


def call(argv):
    fresh(["licant-libs"] + argv, MODS)
    return attempt(sys.modules["licant.licant_libs"].licant_libs_utility)


def calls(n, nlen, states, ops, include=True):
    def fn():
        for f in FILES:
            P.put(f, "x")
        ENV.vfs.dir("/var/lib", parents=True)
        ENV.vfs.dir("/vfs/home", parents=True)
        ENV.vfs.dir("/vfs/w/empty", parents=True)
        model = {}
        for where in ("user", "system"):
            st = E.pick(where, states)
            if st == "none":
                model[where] = []
            elif st == "broken":
                P.put(P.REGISTRY[where], "{oops")
                model[where] = "broken"
            else:
                recs = {"a": "/vfs/abs/two.py", "x": "/old/%s/x" % where, "b": "/old/%s/b" % where}
                P.put(P.REGISTRY[where], json.dumps(recs))
                model[where] = list(recs.items())
        hist = []
        for i in range(n):
            where = E.pick("registry%d" % i, ["system", "user"])
            op = E.pick("op%d" % i, ops)
            name = E.string_upto("name%d" % i, nlen, "abx.", 1)
            flag = ["-u"] if where == "user" else []
            if flag and E.decide("long%d" % i):
                flag = ["--user"]
            before = {k: list(v) if isinstance(v, list) else v for k, v in model.items()}
            m, other = model[where], "system" if where == "user" else "user"
            fail = False
            if op == "add":
                rel, full = E.pick("path%d" % i, [("one.py", FILES[0]), ("d/../d/x.g.py", FILES[1]), ("/vfs/abs/two.py", FILES[4]),
                                                  ("d", "/vfs/w/d"), ("missing.py", None)])
                argv = flag + [name, rel]
                if full is None:
                    fail = True
                elif m != "broken":
                    model[where] = put(m, name, full)
                E.cover("added" if full else "missing path")
            elif op == "dir":
                d = E.pick("dir%d" % i, ["d", "/vfs/w/d", "empty", "nowhere", "."])
                argv = flag + [d]
                if d.endswith("d") and m != "broken":
                    model[where] = put(put(m, "x", FILES[1]), "y", FILES[2])
                    E.cover("directory")
            elif op == "remove":
                argv = [E.pick("remove%d" % i, ["-r", "--remove"])] + flag + [name]
                if m != "broken":
                    model[where] = [(k, v) for k, v in m if not S.s_eq(k, name)]
                    E.cover("removed" if len(model[where]) < len(m) else "unknown")
            elif op == "list":
                argv = ["-l"] + flag
                E.cover("listed")
            else:
                argv = flag + E.pick("strange%d" % i, [[], ["-r"], ["-r", name, "z"], [name, "one.py", "z"]])
                fail = None
                E.cover("strange")
            if m == "broken":
                fail = True
                E.cover("broken")
            r = call(argv)
            hist.append(argv)
            det = lambda: "%s: %s; user %s system %s; want %s" % (hist, r, content("user"), content("system"), model)
            for k in ("user", "system"):
                got = content(k)
                E.check(same(as_list(got), model[k]), "other-registry-untouched" if k == other else "exactly-the-record", det)
            if fail is True:
                E.check(exit_status(r) != 0, "error-status", det)
            elif fail is False and op != "remove":
                E.check(exit_status(r) == 0, "status", det)
            elif op == "remove" and model[where] != before[where]:
                E.check(exit_status(r) == 0, "status", det)
        # a later include takes what was recorded
        if include and "broken" not in model.values():
            ask = E.pick("included", ["a", "y", "x"])
            want = None
            for k, v in model["system"] + model["user"]:
                if S.s_eq(k, ask):
                    want = v
            ran = []
            for where in ("user", "system"):
                for k, v in model[where]:
                    if v != "/vfs/w/d":
                        P.script(v, lambda v=v: ran.append(v))
            for f in FILES:
                P.script(f, lambda f=f: ran.append(f))
            L = fresh()
            r = attempt(L.include, ask)
            det = lambda: "%s after %s: %s ran %s want %s" % (ask, hist, r, ran, want)
            if want is None or want == "/vfs/w/d":
                E.check(exit_status(r) != 0 and ran == [], "not-included", det)
            else:
                E.check(exit_status(r) == 0 and ran == [want], "later-include-uses-it", det)
                E.cover("included")
        E.observe([len(as_list(content("user"))), len(as_list(content("system")))])
    return fn


def configs(tier):
    ops = ["add", "dir", "remove", "list", "strange"]
    c = {"added", "missing path", "directory", "removed", "unknown", "listed", "strange"}
    q = [
        Config("one", calls(1, 2, ["none", "some", "broken"], ops), "one call on any of 3 states of each registry: adding a file or directory, scanning, removing, "
               "listing, wrong arguments; any name of 1..2 characters over a b x .", c | {"broken", "included"}, imports=MODS),
        Config("two", calls(2, 1, ["some"], ["add", "dir", "remove"], False), "2 calls", {"added", "missing path", "directory", "removed", "unknown"}, imports=MODS),
    ]
    if tier == "quick":
        return q
    return q + [
        Config("two-all", calls(2, 1, ["none", "some"], ops), "2 calls in either state of each registry", c | {"included"}, imports=MODS),
        Config("three", calls(3, 1, ["some"], ["add", "remove"], False), "3 calls", {"added", "missing path", "removed", "unknown"}, imports=MODS),
    ]
