"""C19: every source gets its own object file, inside the build directory."""
import sys

from symx import strings as S
from symx.engine import E, And, Not, Or
from symx.env import ENV, attempt, exit_status
from symx.runner import Config

from . import cxxlib as X
from .c09 import parts

SCRIPTS = ["make.py", "/vfs/w/make.py"]
ASSUMPTIONS = ["no symbolic links among the sources", "names without blanks, shell characters and stars",
               "no source is named like the output of moc (name.h.cxx and another extension)"]


def same(a, b):
    return S.deq(a, b)


def path(tag, nd, nb, alphabet, exts, roots=("",)):
    d = E.string_upto(tag + "dir", nd, alphabet + "/")
    b = E.string_upto(tag + "base", nb, alphabet)
    r = E.pick(tag + "root", roots)
    # a relative directory: the absolute ones are among the roots
    E.assume(Not(S.sub_at(d, "/", 0)))
    return r + (d + "/" if len(d) else "") + b + E.pick(tag + "ext", exts)


def inside(p, bd):
    q = parts(bd)
    return len(p) > len(q) and same(p[:len(q)], q)


def distinct(mk, kinds=("objects",), builddirs=(None,), srcdirs=(None,), moddirs=("",), build=False):
    """one module with the sources that mk yields"""
    def fn():
        L = sys.modules["licant"]
        rec = X.Recorder()
        srcs = mk()
        kind = E.pick("kind", kinds)
        bd = E.pick("builddir", builddirs)
        sd = E.pick("srcdir", srcdirs)
        md = E.pick("moddir", moddirs)
        opts = {"sources": list(srcs)}
        if bd is not None:
            opts["builddir"] = bd
        if sd is not None:
            opts["srcdir"] = sd
        real = [parts((md + "/" if md else "") + (sd + "/" if sd else "") + s if not S.sub_at(s, "/", 0) else s) for s in srcs]
        for i, a in enumerate(real):
            for b in real[:i]:
                E.assume(not same(a, b))
        det = lambda: "%s %s" % (srcs, opts)
        f = {"objects": L.cxx_objects, "application": L.cxx_application, "static_library": L.cxx_static_library}[kind]

        def go():
            if kind == "objects":
                f("t", **opts)
            else:
                f("t", target="t.out", **opts)
        if md:
            r = attempt(lambda: X.run_in(L, md, go))
        else:
            r = attempt(go)
        E.check(r[0] == "ok", "declared", lambda: "%s %s" % (r, det()))
        r = attempt(lambda: L.ex("t" if kind == "objects" else "t.out", argv=["-j1"]))
        ENV.sched.drain()
        E.check(exit_status(r) == 0, "builds", lambda: "%s %s" % (r, det()))
        base = bd or "build"
        for what in ("cc", "dep"):
            outs = []
            for s, p in zip(srcs, real):
                cs = [c for c in rec.of(what) if len(c.inputs) == 1 and same(parts(c.inputs[0]), p)]
                E.check(len(cs) == 1, "every-source-once", lambda: "%s %s: %s" % (what, s, [c.text for c in rec.cmds]))
                outs.append(parts(cs[0].out))
                E.check(inside(outs[-1], base), "in-the-build-directory", lambda: "%s: %s" % (s, cs[0].text))
            for i, a in enumerate(outs):
                for b in outs[:i]:
                    E.check(not same(a, b), "own-" + ("object" if what == "cc" else "dependency-file"),
                            lambda: "%s: %s" % (srcs, [c.text for c in rec.of(what)]))
            E.check(len(rec.of(what)) == len(srcs), "nothing-else", lambda: str([c.text for c in rec.cmds]))
        if kind != "objects":
            ins = [c.inputs for c in rec.of("ld") + rec.of("ar")]
            E.check(len(ins) == 1 and len(ins[0]) == len(srcs), "all-objects-linked", lambda: str([c.text for c in rec.cmds]))
        E.cover("built")
        if len(srcs) > 1:
            E.cover("two")
        E.observe(sorted(c.kind for c in rec.cmds))
    return fn


def generated(nd, nb, heads, alphabet="a._", exts=(".c", ".cc", ".h.c"), stem="", tools=("qt_moc", "qt_ui")):
    """a module with files for Qt's tools: what is generated from each, and what is made of that, has a place of its own"""
    def fn():
        L = sys.modules["licant"]
        rec = X.Recorder()
        srcs = [path("", nd, nb, alphabet, exts)] if E.decide("source") else []
        tool = E.pick("tool", tools)
        ext = ".ui" if tool == "qt_ui" else ".h"
        hs = [path("q", nd, nb, alphabet, (stem + ext,))] + E.pick("other", heads(ext))
        real = [parts(h) for h in hs]
        E.assume(not any(same(real[i], real[j]) for i in range(len(hs)) for j in range(i)))
        bd = E.pick("builddir", (None, "out"))
        opts = {"sources": srcs + ["z/main.cpp"], tool: hs}
        if bd is not None:
            opts["builddir"] = bd
        det = lambda: "%s: %s" % (opts, [c.text for c in rec.cmds])
        r = attempt(lambda: L.cxx_objects("t", **opts))
        E.check(r[0] == "ok", "declared", lambda: "%s %s" % (r, det()))
        r = attempt(lambda: L.ex("t", argv=["-j1"]))
        ENV.sched.drain()
        E.check(exit_status(r) == 0, "builds", lambda: "%s %s" % (r, det()))
        gen = rec.of("moc") + rec.of("uic")
        outs = [parts(c.out) for c in gen]
        for h in real:
            E.check(sum(1 for c in gen if len(c.inputs) == 1 and same(parts(c.inputs[0]), h)) == 1, "generated-once", det)
        E.check(len(gen) == len(hs), "nothing-else", det)
        want = [parts(s) for s in opts["sources"]] + (outs if tool == "qt_moc" else [])
        cc = rec.of("cc")
        for p in want:
            E.check(sum(1 for c in cc if len(c.inputs) == 1 and same(parts(c.inputs[0]), p)) == 1, "every-source-once", lambda: "%s: %s" % (p, det()))
        E.check(len(cc) == len(want), "nothing-else", det)
        outs += [parts(c.out) for c in cc] + [parts(c.out) for c in rec.of("dep")]
        for i, a in enumerate(outs):
            E.check(inside(a, bd or "build"), "in-the-build-directory", det)
            for b in outs[:i]:
                E.check(not same(a, b), "own-object", det)
        E.cover(tool)
        E.observe(len(outs))
    return fn


def one(nd, nb, exts=(".c", ".cpp"), roots=("", "/", "/vfs/w/", "../", "../../../")):
    return lambda: [path("", nd, nb, "a._", exts, roots)]


def two(nd, nb, fixed, exts=(".c", ".cc")):
    """one arbitrary source and one of the listed ones"""
    def mk():
        s = [path("", nd, nb, "a._", exts), E.pick("other", fixed)]
        return s if E.decide("order") else s[::-1]
    return mk


def both(nd, nb, exts=(".c", ".cc"), alphabet="._"):
    return lambda: [path("x", nd, nb, alphabet, exts), path("y", nd, nb, alphabet, exts)]


OTHERS = ["a.c", "../a.c", "a/a.c", "__/a.c", "/a.c", "a.o.c", "vfs/w/a.c", "a.cc", "../../vfs/w/x.c"]


def configs(tier):
    c1, c2 = {"built"}, {"built", "two"}
    bds = (None, "out", "./b", "/vfs/o")
    if tier == "quick":
        return [
            Config("one", distinct(one(3, 1), ("objects", "application")), "one source: directory of up to 3 characters over a . _ /, base of up to 1, "
                   "5 roots (relative, absolute, parents), 2 languages", c1),
            Config("places", distinct(one(2, 1, (".c",), ("", "../")), ("objects",), bds, (None, "s", "../s"), ("", "m")),
                   "the same with 4 build, 3 source and 2 module directories", c1),
            Config("pair", distinct(two(2, 1, OTHERS[:6])), "an arbitrary source with one of %d others, both orders" % 6, c2),
            Config("generated", generated(1, 0, lambda e: [[], ["a/a" + e], ["../a" + e, "a.b" + e]], "a.", ("a.c", "a.cc", "a.h.c"), "a"), "files for Qt's tools, 1..3, with or without a source of similar name",
                   {"qt_moc", "qt_ui"}),
            Config("pair-any", distinct(both(2, 0, ("a.c", "a.cc"))), "two sources in arbitrary directories of up to 2 characters over . _ /", c2),
        ]
    return [
        Config("one", distinct(one(5, 2, (".c", ".cpp", ".S")), ("objects", "application", "static_library")), "one source: directory of up to 5 "
               "characters over a . _ /, base of up to 2, 5 roots, 3 languages", c1, time_limit=5000),
        Config("places", distinct(one(3, 1, (".c",), ("", "../", "/")), ("objects", "application"), bds, (None, "s", "../s", "/vfs/s"), ("", "m", "m/n")),
               "the same with 4 build, 4 source and 3 module directories", c1, time_limit=5000),
        Config("pair", distinct(two(3, 2, OTHERS, (".c", ".cc", ".cpp"))), "an arbitrary source with one of %d others, both orders" % len(OTHERS), c2),
        Config("generated", generated(2, 2, lambda e: [[], ["a" + e], ["a/a" + e], ["../a" + e, "a.b" + e]]), "files for Qt's tools, 1..3, with or without a source of similar name",
               {"qt_moc", "qt_ui"}, time_limit=4000),
        Config("pair-any", distinct(both(3, 2, (".c", ".cc"), "a._")), "two arbitrary sources", c2, time_limit=5000),
    ]
