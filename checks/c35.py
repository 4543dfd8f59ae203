"""C35: information actions tell what is registered, and change nothing."""
import ast
import json
import sys

from symx import strings as S
from symx.engine import E, Not
from symx.env import ENV, Proc, attempt, exit_status
from symx.runner import Config

from . import c16, scriptlib as P
from .c22 import LIBS

ASSUMPTIONS = ["names contain no blanks, colons, quotes and line breaks"]


def snapshot():
    return {p: (n.kind, n.target, n.content, n.mtime) for p, n in ENV.vfs.nodes.items() if n.exists is True}


def ask(L, argv, default=None):
    """-> (result, printed lines); nothing may be run or touched"""
    before, text = snapshot(), ENV.text()
    r = attempt(lambda: L.ex(default, argv=["-j1"] + argv))
    ENV.sched.drain()
    E.check(ENV.cmds == [], "runs-no-command", lambda: "%s: %s" % (argv, [x.cmd for x in ENV.cmds]))
    E.check(snapshot() == before, "changes-no-file", lambda: "%s: %s %s" % (argv, before, snapshot()))
    return r, [l for l in ENV.text()[len(text):].split("\n") if l != ""]


def entry(line):
    """'name: rest' -> [name, rest]"""
    i = S.find(line, ":")
    return None if i < 0 else [line[:i], S.m_strip(line[i + 1:])]


def entries(lines):
    return [x for x in (entry(l) for l in lines) if x is not None]


def modules(n, k, filters, flen=2):
    """m list [pattern]"""
    def fn():
        L = sys.modules["licant"]
        names = []
        for i in range(1 + E.choose("number", n)):
            x = E.string_upto("name%d" % i, k, "ab_", 1)
            for y in names:
                E.assume(Not(S.s_eq_e(x, y)))
            names.append(x)
        impls = []
        for i, x in enumerate(names):
            how = E.pick("impls%d" % i, [["__default__"], ["x"], ["x", "y"]])
            impls.append(how)
            for j in how:
                if how == ["__default__"]:
                    L.module(x, sources=["s.c"])
                else:
                    L.implementation(x, j, default=E.decide("default%d%s" % (i, j)))
        f = E.pick("filter", filters)
        w = ""
        if f is not None:
            w = E.string_upto("filter text", flen, "ab_")
        want = []
        for i, x in enumerate(names):
            hit = f is None or (len(w) <= len(x) and
                                (S.sub_at(x, w, 0) if f == "^%s" else S.sub_at(x, w, len(x) - len(w)) if f == "%s$" else
                                 S.find(x, w) >= 0))
            if hit:
                want.append(i)
        r, lines = ask(L, ["m", "list"] + ([] if f is None else [f.replace("%s", w)]))
        det = lambda: "%s impls %s filter %r %r: %s %s" % (names, impls, f, w, r, lines)
        E.check(exit_status(r) == 0, "status", det)
        got = entries(lines)
        for i, x in enumerate(names):
            mine = [g for g in got if S.s_eq(g[0], x)]
            E.check(len(mine) == (1 if i in want else 0), "exactly-the-modules", lambda: "%s: %s" % (x, det()))
            if mine:
                shown = ast.literal_eval(mine[0][1])
                E.check(sorted(shown) == sorted(impls[i]), "exactly-the-implementations", lambda: "%s: %s" % (x, det()))
        E.check(len(got) == len(want), "nothing-else", det)
        E.cover("listed" if want else "none")
        E.observe([len(got), sorted(want)])
    return fn


def module():
    """m print name [implementation]"""
    def fn():
        L = sys.modules["licant"]
        decl = {}
        default = {}
        for k in range(E.choose("declarations", 3)):
            n, i = E.pick("name%d" % k, ["a", "ab"]), E.pick("impl%d" % k, [None, "x", "y"])
            d = i is None or E.decide("default%d" % k)
            mark = "mark%d.c" % k
            L.module(n, impl=i, default=d, sources=[mark], cxx_flags="-flag%d" % k) if i else L.module(n, sources=[mark], cxx_flags="-flag%d" % k)
            decl[(n, i or "__default__")] = mark
            if d:
                default[n] = i or "__default__"
        n, i = E.pick("name", ["a", "ab", "b"]), E.pick("impl", [None, "x", "y"])
        r, lines = ask(L, ["m", "print", n] + ([i] if i else []))
        want = decl.get((n, i if i else default.get(n)))
        det = lambda: "%s defaults %s: %s %s -> %s %s" % (decl, default, n, i, r, lines)
        E.check((exit_status(r) == 0) == (want is not None), "status", det)
        if want:
            text = "\n".join(lines)
            E.check(want in text and want.replace("mark", "-flag")[:-2] in text, "options-shown", det)
            E.check(not any(m in text for m in decl.values() if m != want), "of-that-module-only", det)
            E.cover("shown")
        else:
            E.cover("unknown")
        E.observe(exit_status(r))
    return fn


def libs():
    """l list, l included"""
    def fn():
        L = sys.modules["licant"]
        reg = {}
        for where in ("system", "user"):
            if E.decide(where + "_registry"):
                mine = {k: "/vfs/lib/%s/%s.g.py" % (where, k) for k in LIBS if E.decide("%s_%s" % (where, k))}
                P.put(P.REGISTRY[where], json.dumps(mine))
                reg.update(mine)
        for p in list(reg.values()) + ["/vfs/w/own.py"]:
            P.script(p, lambda: None)
        inc = {}
        if E.decide("own"):
            L.include("z", "/vfs/w/own.py")
            inc["z"] = "/vfs/w/own.py"
        for k in LIBS:
            how = E.pick("include_" + k, ["no", "own place"] + (["registered"] if k in reg else []))
            if how == "own place":
                # the place is given explicitly
                L.include(k, "/vfs/w/own.py")
                inc[k] = "/vfs/w/own.py"
            elif how == "registered":
                L.include(k)
                inc[k] = reg[k]
        what = E.pick("what", ["list", "included"])
        r, lines = ask(L, ["l", what])
        want = reg if what == "list" else inc
        det = lambda: "registered %s included %s: %s %s %s" % (reg, inc, what, r, lines)
        E.check(exit_status(r) == 0, "status", det)
        E.check(sorted(entries(lines)) == sorted([k, v] for k, v in want.items()), "exactly-the-libraries", det)
        E.cover(what)
        E.observe([what, len(want)])
    return fn


WORDS = ["actlist", "print", "dependies", "go", "stop", "update", "recurse_update", "recurse_update_get_args", "update_if_need", "clean", "makefile", "build",
         "clr", "invoke_routine", "deps", "core", "invoke", "hasaction", "name", "other", ""]


def targets(kinds, words):
    """actlist names exactly the words that are accepted as actions; dependies the dependencies"""
    def fn():
        L = sys.modules["licant"]
        v = ENV.vfs
        ENV.handler = lambda cmd: Proc(0)
        kind = E.pick("kind", kinds)
        own = [a for a in ("go", "stop") if E.decide("own_" + a)]
        called = []
        kw = {a: (lambda target, *args, a=a: called.append(a)) for a in own}
        if own:
            kw["actions"] = set(own)
        v.file("/vfs/w/s.c", "", mtime=1)
        L.source("s.c")
        c = L.default_core()
        c.updtarget("d")
        deps = [d for d in ("s.c", "d") if E.decide("dep_" + d)]
        if kind == "target":
            c.target("t", deps=deps, **kw)
        elif kind == "upd":
            c.updtarget("t", deps=deps, **kw)
        elif kind == "file":
            c.add(L.FileTarget(tgt="t", deps=deps, build=lambda s: called.append("build"), **kw))
        elif kind == "fileset":
            L.fileset("t", deps, **kw)
        else:
            c.routine(lambda *a, **k: called.append("routine"), tgt="t", deps=deps)
            own = []
        det = lambda: "%s own %s deps %s" % (kind, own, deps)
        before = snapshot()
        r = attempt(lambda: c.do("t", "actlist"))
        lines = ENV.text().split("\n")
        E.check(ENV.cmds == [] and snapshot() == before, "changes-nothing", det)
        E.check(exit_status(r) == 0, "status", det)
        shown = ast.literal_eval([l for l in lines if l.startswith("[") and "trace" not in l.lower()][0])
        E.check(len(shown) == len(set(shown)), "each-once", lambda: "%s %s" % (shown, det()))
        E.check(all(a in shown for a in own), "own-actions-shown", lambda: "%s %s" % (shown, det()))
        E.check(called == [], "runs-nothing", lambda: "%s %s" % (called, det()))
        if kind == "routine":
            E.cover("routine")
            return
        if E.decide("dependencies"):
            r, lines = ask(L, ["t", "dependies"])
            E.check(exit_status(r) == 0, "status", det)
            got = ast.literal_eval(lines[-1])
            E.check(list(got) == deps, "exactly-the-dependencies", lambda: "%s %s" % (got, det()))
            E.check(called == [], "runs-nothing", lambda: "%s %s" % (called, det()))
            E.cover("dependencies")
            return
        w = E.pick("word", words)
        r = attempt(lambda: L.ex("d", argv=["-j1", "t", w]))
        ENV.sched.drain()
        E.check((exit_status(r) == 0) == (w in shown), "shown-iff-accepted", lambda: "%r %s: %s %s" % (w, shown, r, det()))
        if w in own:
            E.check(called == [w], "own-action-runs", lambda: "%s %s" % (called, det()))
        E.cover("accepted" if w in shown else "refused")
        E.observe([w, exit_status(r)])
    return fn


def finalopts():
    """cxxm finalopts [target]"""
    def fn():
        L = sys.modules["licant"]
        v = ENV.vfs
        v.file("/vfs/w/r.c", "", mtime=1)
        made = {}
        for k in range(2):
            kind = E.pick("kind%d" % k, ["application", "shared_library", "static_library", "objects"])
            o = {"defines": ["DEF%d" % k], "cc_flags": "-flag%d" % k, "sources": ["r.c"]}
            if E.decide("sub%d" % k):
                L.module("inc%d" % k, defines=["INC%d" % k])
                o["include_modules"] = [L.submodule("inc%d" % k)]
            getattr(L, "cxx_" + kind)("t%d" % k, **o)
            made["t%d" % k] = (kind, ["DEF%d" % k, "-flag%d" % k] + (["INC%d" % k] if "include_modules" in o else []))
        default = E.pick("default", ["t0", "t1"])
        n = E.pick("asked", [None, "t0", "t1", "gone"])
        r, lines = ask(L, ["cxxm", "finalopts"] + ([n] if n else []), default)
        det = lambda: "%s default %s asked %s: %s %s" % (made, default, n, r, lines)
        if n == "gone":
            E.check(exit_status(r) != 0, "unknown", det)
            E.cover("unknown")
        else:
            text = "\n".join(lines)
            E.check(exit_status(r) == 0, "status", det)
            want = made[n or default][1]
            other = [x for t in made if t != (n or default) for x in made[t][1]]
            E.check(all(x in text for x in want), "options-shown", det)
            E.check(not any(x in text for x in other), "of-that-target-only", det)
            E.cover(made[n or default][0])
        E.observe(exit_status(r))
    return fn


def configs(tier):
    f = [None, "%s", "^%s", "%s$"]
    kinds = ["target", "upd", "file", "fileset", "routine"]
    t = tier != "quick"
    return [
        Config("modules", modules(3 if t else 2, 2 if t else 1, f), "m list: 1..%d modules with names of 1..%d arbitrary characters, 3 sets of implementations, no "
               "filter or an arbitrary text of up to 2 characters anywhere, first or last" % ((3, 2) if t else (2, 1)), {"listed", "none"}, time_limit=3000 if t else None),
        Config("module", module(), "m print: up to 2 declarations of 2 names and 3 implementations, 9 questions", {"shown", "unknown"}),
        Config("libs", libs(), "l list and l included: 2 registries with up to 2 libraries, any of them included", {"list", "included"}),
        Config("targets", targets(kinds, WORDS), "actlist and dependies: 5 kinds of targets with 0..2 actions of their own, %d words asked" % len(WORDS),
               {"routine", "dependencies", "accepted", "refused"}),
        Config("collected", c16.listing(["b"], ["x", "y"], unknown=True), "cxxm collect_modules: 1 module with 2 implementations, cycles, unknown ones", {"collected", "empty", "error"}),
        Config("options", finalopts(), "cxxm finalopts: 2 results of 4 kinds, with included modules or not, named, unknown or the default one",
               {"application", "shared_library", "static_library", "objects", "unknown"}),
    ]
