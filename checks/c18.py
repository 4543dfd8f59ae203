"""C18: building one submodule never changes the options of another."""
import sys

from symx import strings as S
from symx.engine import E
from symx.env import ENV, attempt, exit_status
from symx.runner import Config

from . import cxxlib as X

SCRIPTS = ["make.py", "/vfs/w/make.py"]
ASSUMPTIONS = ["option texts contain no blanks and no shell characters"]
GEN = ["local_headers", "qt_ui", "qt_moc"]


def sources(mods):
    v = ENV.vfs
    for m in mods:
        for k in X.FILES:
            for s in m.opts.get(k, []):
                p = X.j(m.dir, m.opts.get("srcdir", ""), s)
                v.dir(p.rsplit("/", 1)[0], parents=True)
                v.file(p, "", mtime=1)
        for a, b in m.opts.get("local_headers", []):
            p = X.j(m.dir, b)
            v.dir(p.rsplit("/", 1)[0], parents=True)
            v.file(p, "", mtime=1)


def gen(m, which, tag):
    """options that make licant generate headers or sources"""
    if which == "local_headers":
        m.opts["local_headers"] = [("h%s.h" % tag, "lh/h%s.h" % tag)]
    elif which == "qt_ui":
        m.opts["qt_ui"] = ["w%s.ui" % tag]
    elif which == "qt_moc":
        m.opts["qt_moc"] = ["o%s.h" % tag]


def siblings(focus, others, orders, how="one", kinds=("objects",), kinds_s=("objects",), simple=False):
    """applications with the submodules in every order, one after another in one process"""
    def fn():
        L = sys.modules["licant"]
        rec = X.Recorder()
        opt = E.pick("option", focus)
        n = 2 if opt in X.LISTS + X.TEXTS else 1
        mods = {}
        for name, d in (("P", ""), ("I", "di"), ("S", "ds"), ("T", "dt"), ("U", "du/x")):
            m = mods[name] = X.Mod(name, d)
            if not (simple and name in "IU") and E.decide("has_" + name):
                if opt in GEN:
                    gen(m, opt, name)
                else:
                    X.give(m, [opt], n)
            for o in others:
                if o != opt:
                    gen(m, o, name) if o in GEN else X.give(m, [o], 1, sym=False)
        P, I, Sm, T, U = (mods[x] for x in "PISTU")
        if opt != "target":
            P.opts.update(sources=["p.c"])
        for m, src in ((Sm, "s.c"), (T, "t.cpp"), (U, "u.c")):
            m.opts["sources"] = [src]
        kind = E.pick("kind_T", kinds)
        if kind != "objects":
            T.opts.update(type=kind, target="libt")
        kind_s = E.pick("kind_S", kinds_s)
        if kind_s != "objects":
            Sm.opts.update(type=kind_s, target="libs")
        I.opts["defines"] = I.opts.get("defines", []) + ["I"]
        if not simple:
            mods[E.pick("included_by", ["P", "S", "T"])].opts["include_modules"] = ["I"]
        if not simple and E.decide("nested"):
            Sm.opts["modules"] = ["U"]
        sources(mods.values())
        subs = E.pick("first", orders)
        P.opts["modules"] = list(subs)
        for m in (I, Sm, T, U):
            X.declare(L, m)
        apps = [("one", subs)]
        if how == "two":
            apps.append(("two", E.pick("second", orders)))
        for k, (app, ss) in enumerate(apps):
            p = X.Mod(app, "", None, **dict(P.opts))
            p.opts.update(modules=list(ss), target=app, type="application")
            if k or how == "two":
                # its own build directory, so that both can be told apart
                p.opts["builddir"] = "build" + app
                if "qt_moc" in focus or kind != "objects":
                    T.opts["target"] = "libt"
            lib = dict(mods)
            lib[app] = p
            o = X.real(L, {x: y for x, y in p.opts.items() if x != "type"})
            start = len(rec.cmds)

            def go():
                tgt = L.cxx_application(app, **o)
                # everything anew, so that every command is seen
                for c in rec.cmds:
                    if ENV.vfs.exists(X.j("", c.out)):
                        ENV.vfs.remove(X.j("", c.out))
                sys.modules["licant.cache"].fcache.__init__() if hasattr(sys.modules["licant.cache"], "fcache") else None
                return L.ex(str(tgt), argv=["-j1"])
            sys.modules["licant.cli"].opts = None
            r = attempt(go)
            ENV.sched.drain()
            det = lambda: "%s: %s" % (app, {x: m.opts for x, m in lib.items()})
            E.check(exit_status(r) == 0, "builds", lambda: "%s %s" % (r, det()))
            ref = X.Ref(lib)
            ref.build(p, ref.start())
            part = X.Recorder.__new__(X.Recorder)
            part.cmds = rec.cmds[start:]
            X.check_units(ref, part, det)
        E.cover("with sibling" if len(subs) > 1 else "alone")
        E.observe(len(rec.cmds))
    return fn


def shared(focus, how=("S", "T")):
    """one module below two parents with different options and build directories"""
    def fn():
        L = sys.modules["licant"]
        rec = X.Recorder()
        opt = E.pick("option", focus)
        mods = {}
        for name, d in (("P", ""), ("S", "ds"), ("T", "dt"), ("U", "du")):
            m = mods[name] = X.Mod(name, d)
            if E.decide("has_" + name):
                X.give(m, [opt], 2 if opt in X.LISTS + X.TEXTS else 1)
        P, Sm, T, U = (mods[x] for x in "PSTU")
        U.opts["sources"] = ["u.c"]
        Sm.opts.update(modules=["U"], builddir="bs")
        T.opts.update(modules=["U"], builddir="bt")
        if E.decide("T_sources"):
            T.opts["sources"] = ["t.c"]
        P.opts.update(sources=["p.c"], modules=E.pick("modules", [["S", "T"], ["T", "S"], ["S", "T", "U"]]), target="app", type="application")
        sources(mods.values())
        for m in (Sm, T, U):
            X.declare(L, m)
        o = X.real(L, {x: y for x, y in P.opts.items() if x != "type"})
        r = attempt(lambda: L.ex(str(L.cxx_application("P", **o)), argv=["-j1"]))
        ENV.sched.drain()
        det = lambda: str({x: m.opts for x, m in mods.items()})
        E.check(exit_status(r) == 0, "builds", lambda: "%s %s" % (r, det()))
        ref = X.Ref(mods)
        ref.build(P, ref.start())
        X.check_units(ref, rec, det)
        E.cover("shared")
        E.observe(len(rec.cmds))
    return fn


def configs(tier):
    c = {"with sibling", "alone"}
    q = [
        Config("generated", siblings(GEN, [], [["S"], ["S", "T"], ["T", "S"]]), "generated headers and sources of one submodule, its ancestor or an "
               "included module, with and without a sibling, both orders", c),
        Config("options", siblings(["include_paths", "defines", "libs", "cxx_flags", "cxxstd", "optimize"], ["local_headers"],
                                   [["S"], ["T", "S"]]), "6 options with arbitrary values", c),
        Config("again", siblings(["include_paths", "defines", "local_headers", "qt_ui"], [], [["T", "S"], ["S"]], "two"), "a second application "
               "with the same submodules in one process", c),
    ]
    q.append(Config("shared", shared(["defines", "cc_flags", "ccstd", "optimize", "libs"]), "one module below two parents with different "
                    "options, and below the application itself", {"shared"}))
    q.append(Config("linked", siblings(["libdirs", "libs", "ld_flags", "ldscripts"], [], [["S", "T"], ["T", "S"]],
                                       kinds=("static_library", "shared_library"), kinds_s=("shared_library", "static_library"), simple=True),
                    "two submodules that are libraries of their own, each with or without link options, both orders", {"with sibling"}))
    if tier == "quick":
        return q
    orders = [["S"], ["S", "T"], ["T", "S"]]
    return q + [
        Config("options-all", siblings(X.OPTS, ["local_headers", "qt_ui"], orders), "all options", c),
        Config("again-all", siblings([o for o in X.OPTS if o != "builddir"] + GEN, [], orders, "two", ("objects", "static_library")), "second application, all options", c),
    ]
