"""C20: compile, link and archive commands carry exactly the configured options."""
import sys

from symx import strings as S
from symx.engine import E
from symx.env import ENV, Proc, attempt, exit_status
from symx.runner import Config

from . import cxxlib as X
from .c17 import finish

SCRIPTS = ["make.py", "/vfs/w/make.py"]
ASSUMPTIONS = ["option texts contain no blanks and no shell characters", "a toolchain given to the module prevails over one chosen on the command line"]
EXTS = ["c", "cc", "cpp", "cxx", "s", "S", "asm"]
KINDS = ["application", "shared_library", "static_library", "objects"]
STD = ("", "cc", "c++", "ar")
GCC = ("", "gcc", "g++", "ar")
CLANG = ("", "clang", "clang++", "ar")


def sources(names):
    for s in names:
        p = X.j("", s)
        ENV.vfs.dir(p.rsplit("/", 1)[0], parents=True)
        ENV.vfs.file(p, "", mtime=1)


def texts(opt, n, k):
    """n values of the option, of 1..k arbitrary characters"""
    def one(i):
        return X.PREFIX[opt] + E.string_upto("%s%d" % (opt, i), k, X.ALPH, 1)
    if opt in X.LISTS:
        return [one(i) for i in range(n)]
    if opt in X.TEXTS:
        return " ".join(one(i) for i in range(n))
    if opt == "toolchain":
        return ("toolchain", one(0) + "-")
    return one(0)


def module(focus, maxn, k, kinds, exts, rests=("none", "all")):
    """one module; the options under focus with arbitrary values, the others given or not"""
    def fn():
        L = sys.modules["licant"]
        rec = X.Recorder()
        kind = E.pick("kind", kinds)
        m = X.Mod("R", "")
        chosen = E.pick("options", focus)
        for o in chosen:
            if o in X.LISTS + X.TEXTS:
                n = E.choose("number_" + o, maxn + 1)
                if n or E.decide("empty_" + o):
                    m.opts[o] = texts(o, n, k)
            elif E.decide("has_" + o):
                m.opts[o] = texts(o, 1, k)
        if E.pick("rest", rests) == "all":
            X.give(m, [o for o in X.OPTS if o not in chosen and o != "builddir"], 1, sym=False)
        m.opts["sources"] = E.pick("sources", exts)
        sources(m.opts["sources"])
        if E.decide("objects"):
            m.opts["objects"] = ["pre.o", "x/pre2.o"]
            sources(m.opts["objects"])
        if kind != "objects":
            m.opts.update(type=kind, target=E.pick("target", ["out", "bin/o.x"]))
        finish(L, rec, {"R": m}, m, [])
    return fn


def toolchains(kinds):
    """who chooses the toolchain: the module, its ancestor, or the command line"""
    def fn():
        L = sys.modules["licant"]
        rec = X.Recorder()
        R, Sm = X.Mod("R", ""), X.Mod("S", "ds")
        mods = {"R": R, "S": Sm}

        def give(m):
            t = E.pick("toolchain_" + m.name, ["none", "gcc", "clang"])
            if t == "gcc":
                m.opts["toolchain"] = ("toolchain", E.string_upto("prefix_" + m.name, 2, X.ALPH + "-/."))
            elif t == "clang":
                m.opts["toolchain"] = CLANG_OPT
        give(R)
        give(Sm)
        kind = E.pick("kind", kinds)
        R.opts.update(sources=["r.c", "r.cpp"], modules=["S"], type=kind, target="out")
        Sm.opts.update(sources=["s.c", "s.cc"], type=E.pick("kind_S", ["objects", "static_library", "shared_library"]), target="lib")
        if Sm.opts["type"] == "objects":
            del Sm.opts["target"], Sm.opts["type"]
        sources(["r.c", "r.cpp", "ds/s.c", "ds/s.cc"])
        cl = E.pick("command_line", ["", "--gcc_toolchain", "--clang_toolchain"])
        tool = {"": STD, "--gcc_toolchain": GCC, "--clang_toolchain": CLANG}[cl]
        E.cover("command line " + cl)
        finish(L, rec, mods, R, [Sm], argv=["-j1"] + ([cl] if cl else []), tool=tool)
    return fn


CLANG_OPT = ("clang", "clang", "clang++", "ar")


class Plain:
    """records commands as words"""

    def __init__(self):
        self.words = []
        ENV.vfs.clock = 50
        ENV.handler = self

    def __call__(self, text):
        w = [x for x in (S.m_split(text) if isinstance(text, str) else list(text)) if x != ""]
        self.words.append(w)
        return Proc(0, effect=lambda: ENV.vfs.write(X.j("", w[-1]), "made"))


def objcopy(k):
    def fn():
        L = sys.modules["licant"]
        rec = Plain()
        t = lambda tag: E.string_upto(tag, k, X.ALPH, 1)
        pre = E.pick("prefix", ["none", "some"])
        tool, prog = (L.gcc_toolchain(), "objcopy")
        if pre == "some":
            p = t("prefix text") + "-"
            tool, prog = L.gcc_toolchain(p), p + "objcopy"
        elif E.decide("clang"):
            tool = L.clang_toolchain()
        fmt = t("format")
        secs = ["." + t("section%d" % i) for i in range(E.choose("sections", 3))]
        src, dst = "in" + t("src"), "out" + t("dst")
        ENV.vfs.file("/vfs/w/" + src, "elf", mtime=3)
        L.objcopy(tool, dst, src, fmt, secs)
        if E.decide("source"):
            L.source(src)
        r = attempt(lambda: L.ex(dst, argv=["-j1"]))
        if r[0] == "exit" and not L.default_core().has(src):
            E.cover("undeclared source")
            return
        E.check(exit_status(r) == 0, "builds", lambda: str(r))
        E.check(len(rec.words) == 1, "one-command", lambda: str(rec.words))
        w = rec.words[0]
        want = [j for s in secs for j in ("-j", s)]
        E.check(S.deq(w[:1] + [w[1], w[2]], [prog, "-O", fmt]) and S.deq(w[3:-2], want), "objcopy-options", lambda: "%s want %s" % (w, want))
        E.check(S.deq(X.paths(w[-2:]), ["/vfs/w/" + src, "/vfs/w/" + dst]), "objcopy-operands", lambda: str(w))
        E.cover("objcopy")
        E.observe(len(w))
    return fn


def java(k):
    """javac and dex"""
    def fn():
        J = sys.modules["licant.java_make"]
        L = sys.modules["licant"]
        rec = Plain()
        t = lambda tag: E.string_upto(tag, k, X.ALPH, 1)
        tool = J.android_toolchain("c" + t("javac"), "x" + t("dx")) if E.decide("android") else J.java_toolchain("c" + t("javac"))
        flags = ["-" + t("flag%d" % i) for i in range(E.choose("flags", 3))]
        opts = J.java_options(toolchain=tool, javac_flags=" ".join(flags))
        srcs = ["s%d.java" % i for i in range(1 + E.choose("sources", 3))]
        for x in srcs:
            ENV.vfs.file("/vfs/w/" + x, "", mtime=1)
        dst = "out" + t("dst")
        if hasattr(tool, "dx") and E.decide("dex"):
            ENV.vfs.file("/vfs/w/A.class", "", mtime=1)
            J.dex("A.class", dst, opts=opts)
            want, extra = [tool.dx, "--dex", "--output", "/vfs/w/" + dst, "A.class"], 0
            E.cover("dex")
        else:
            J.javac(srcs, dst, opts=opts)
            want = [tool.javac] + flags + srcs
            E.cover("javac")
        r = attempt(lambda: L.ex(dst, argv=["-j1"]))
        E.check(exit_status(r) == 0, "builds", lambda: str(r))
        E.check(len(rec.words) == 1, "one-command", lambda: str(rec.words))
        E.check(S.deq(rec.words[0], want), "java-command", lambda: "%s want %s" % (rec.words[0], want))
        E.observe(len(rec.words[0]))
    return fn


def configs(tier):
    jv = {"imports": ("licant", "licant.java_make")}
    b = {"built"}
    single = [[o] for o in X.OPTS]
    cl = {"command line ", "command line --gcc_toolchain", "command line --clang_toolchain"}
    if tier == "quick":
        return [
            Config("options", module(single, 2, 1, ["application"], [["a.c", "b.cpp"]]), "each of %d options with 0..2 arbitrary values, all others "
                   "given or none, C and C++, objects, 2 output paths" % len(X.OPTS), b),
            Config("kinds", module([["include_paths", "ld_flags"], ["libs", "cxx_flags", "debug"]], 1, 1, KINDS, [["a.S", "b.cc"], ["a.c", "x/b.cxx", "a.s"]]),
                   "4 kinds of output, 5 source languages", b),
            Config("toolchains", toolchains(["application", "static_library"]), "the toolchain of the module, its submodule and the command line, arbitrary prefix", b | cl),
            Config("objcopy", objcopy(2), "objcopy with 0..2 sections, arbitrary format, names and prefix", {"objcopy"}),
            Config("java", java(1), "javac of 1..3 sources with 0..2 flags, dex, arbitrary names of the tools, the output and the flags", {"javac", "dex"}, **jv),
        ]
    pairs = [[a, c] for i, a in enumerate(X.OPTS) for c in X.OPTS[:i]]
    return [
        Config("options", module(single, 3, 2, KINDS, [["a.c", "b.cpp"], ["a.S"]]), "each of %d options with 0..3 arbitrary values of up to 2 characters, "
               "4 kinds of output" % len(X.OPTS), b, time_limit=4000),
        Config("pairs", module(pairs, 1, 1, ["application", "shared_library"], [["a.c", "b.cpp"]]), "each pair of options", b, time_limit=6000),
        Config("languages", module([["cc_flags"], ["cxx_flags"], ["defines"]], 1, 1, ["application"], [["a." + e, "b." + f] for e in EXTS for f in EXTS]),
               "each pair of source languages", b),
        Config("toolchains", toolchains(KINDS[:3]), "the toolchain of the module, its submodule and the command line, arbitrary prefix", b | cl),
        Config("objcopy", objcopy(4), "objcopy with 0..2 sections, arbitrary format, names and prefix", {"objcopy"}),
        Config("java", java(3), "javac of 1..3 sources with 0..2 flags, dex, arbitrary names of the tools, the output and the flags", {"javac", "dex"}, **jv),
    ]
