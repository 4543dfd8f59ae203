"""C17: module options are combined by their documented rule, losing nothing."""
import sys

from symx import strings as S
from symx.engine import E
from symx.env import ENV, Proc, attempt, exit_status
from symx.runner import Config

from . import cxxlib as X

SCRIPTS = ["make.py", "/vfs/w/make.py"]
ASSUMPTIONS = ["option texts contain no blanks and no shell characters", "an included module's language standard prevails (as the option table says)"]


def tree(focus, both=False):
    """application R (includes I, which includes J; depends on D) with submodules S (includes K) and T (static library);
    every module may have the option under focus, and has all other options or none"""
    def fn():
        L = sys.modules["licant"]
        rec = X.Recorder()
        opt = E.pick("option", focus)
        rest = [o for o in X.OPTS if o != opt and o != "builddir"] if E.decide("rest") else []
        n = 2 if opt in X.LISTS + X.TEXTS else 1
        mods = {}
        for name, d in (("R", ""), ("I", "di/e"), ("J", "dj"), ("D", "dd"), ("S", "ds"), ("K", "dk"), ("T", "dt")):
            m = mods[name] = X.Mod(name, d)
            tied = None if both else {"K": "has_J", "D": "has_I"} if opt in X.SINGLES else {}
            if E.decide("has_" + name) if name not in (tied or {}) else bool(mods[tied[name][4:]].opts.get(opt)):
                X.give(m, [opt], n)
            X.give(m, rest, 1, sym=False)
        if opt in ("optimize", "debug"):
            # an empty text is a value, too
            k = E.pick("empty", [None, "R", "S", "T"])
            if k is not None:
                mods[k].opts[opt] = ""
        R, I, J, D, Sm, K, T = (mods[x] for x in "RIJDSKT")
        R.opts.update(sources=["r.c", "r.cpp"], include_modules=["I"], mdepends=["D"], modules=["S", "T"], target="app", type="application")
        I.opts.update(include_modules=["J"])
        Sm.opts.update(sources=["s.c", "s.cc"], srcdir="src", include_modules=["K"])
        T.opts.update(sources=["t.cpp"], type="static_library", target="libt.a")
        for p in ("r.c", "r.cpp", "ds/src/s.c", "ds/src/s.cc", "dt/t.cpp"):
            ENV.vfs.dir(X.j("", *p.split("/")[:-1]), parents=True)
            ENV.vfs.file("/vfs/w/" + p, "", mtime=1)
        order = list(mods.values())[1:]
        if E.decide("declared_in_reverse") if both else not rest:
            order.reverse()
        finish(L, rec, mods, R, order)
    return fn


def finish(L, rec, mods, R, order, argv=("-j1",), tool=("", "cc", "c++", "ar"), refname=None):
    def go():
        for m in order:
            X.declare(L, m)
        o = X.real(L, R.opts)
        kind = o.pop("type", "objects")
        f = {"application": L.cxx_application, "shared_library": L.cxx_shared_library, "static_library": L.cxx_static_library,
             "objects": L.cxx_objects}[kind]
        if kind in ("shared_library", "static_library") and E.decide("by_library"):
            f = L.cxx_library
            if kind == "static_library":
                o["shared"] = False
        tgt = f(R.name, **o)
        return L.ex(R.name if kind == "objects" else str(tgt), argv=list(argv))
    r = attempt(go)
    ENV.sched.drain()
    det = lambda: "%s" % {k: m.opts for k, m in mods.items()}
    E.check(exit_status(r) == 0, "builds", lambda: "%s %s" % (r, det()))
    ref = X.Ref(mods)
    ref.build(R, ref.start(tool))
    X.check_units(ref, rec, det)
    E.cover("built")
    E.observe([len(rec.cmds), len(rec.of("cc"))])
    return ref


def local(kind):
    """options that are local to a module; sources, objects and submodules contributed by included modules"""
    def fn():
        L = sys.modules["licant"]
        rec = X.Recorder()
        v = ENV.vfs
        mods = {}

        def mod(name, d):
            mods[name] = X.Mod(name, d)
            return mods[name]
        R, I, J, N, Sm = mod("R", ""), mod("I", "di"), mod("J", "dj/k"), mod("N", "dn"), mod("S", "ds")
        R.opts.update(srcdir="rs", sources=["r.c"], type=kind, target="out", include_modules=["I"])
        if kind == "objects":
            del R.opts["target"], R.opts["type"]
        files = ["rs/r.c"]

        def src(m, name, sub=""):
            """sources of m in its directory and source directory"""
            sd = E.pick("srcdir_" + m.name, [None, "src", "../up"])
            if sd is not None:
                m.opts["srcdir"] = sd
            m.opts["sources"] = [name] + ([sub] if sub else [])
            for s in m.opts["sources"]:
                files.append(X.j(m.dir, sd or "", s)[7:])
        if E.decide("I_sources"):
            src(I, "i.c")
        if E.decide("J_included"):
            I.opts["include_modules"] = ["J"]
            src(J, "j.cpp")
        if E.decide("I_objects"):
            I.opts["objects"] = ["pre.o"]
            files.append(X.j("di", I.opts.get("srcdir", ""), "pre.o")[7:])
        if E.decide("R_objects"):
            R.opts["objects"] = ["mine.o"]
            files.append("rs/mine.o")
        if E.decide("I_modules"):
            I.opts["modules"] = ["N"]
        src(N, "n.c", "x/n2.cpp") if "modules" in I.opts else None
        R.opts["modules"] = ["S"]
        src(Sm, "s.c")
        dep = E.pick("depends", ["none", "R", "I", "S"])
        for m in (R, I, Sm):
            m.opts["defines"] = [m.name]
            if m.name == dep:
                m.opts["depends"] = ["gen.h"]
        for f in files:
            v.dir(X.j("", *f.split("/")[:-1]), parents=True)
            v.file("/vfs/w/" + f, "", mtime=1)
        L.makefile(tgt="gen.h", deps=[], do="cc -c gen.in -o {tgt}")
        ref = finish(L, DropGen(rec), mods, R, [I, J, N, Sm])
        core = L.default_core()
        for c in rec.of("cc"):
            if c.inputs == ["gen.in"]:
                continue
            want = any(X.j("", c.inputs[0]) in u["opts"]["sources"] and u["opts"]["depends"] for u in ref.units)
            names = {core.get(x).tgt for x in core.depends_as_set(core.get(c.out), incroot=False)}
            E.check(("/vfs/w/gen.h" in names) == want, "local-dependencies", lambda: "%s: %s" % (c.text, names))
            E.cover("depends" if want else "no dependency")
    return fn


def kinds():
    """every kind of result, by each of the functions that make it"""
    def fn():
        L = sys.modules["licant"]
        rec = X.Recorder()
        mods = {"R": X.Mod("R", ""), "S": X.Mod("S", "ds"), "I": X.Mod("I", "di")}
        for k in mods:
            if E.decide("has_" + k):
                X.give(mods[k], ["libs", "libdirs", "ldscripts", "ld_flags", "defines"], 1)
        kind = E.pick("kind", ["application", "shared_library", "static_library", "objects"])
        mods["R"].opts.update(sources=["r.c", "r.cpp"], include_modules=["I"], modules=["S"], type=kind, **({"target": "out"} if kind != "objects" else {}))
        mods["S"].opts.update(sources=["s.c"])
        sub = E.pick("kind_S", ["objects", "static_library", "shared_library"])
        if sub != "objects":
            mods["S"].opts.update(type=sub, target="sub")
        for p in ("r.c", "r.cpp", "ds/s.c"):
            ENV.vfs.dir(X.j("", *p.split("/")[:-1]), parents=True)
            ENV.vfs.file("/vfs/w/" + p, "", mtime=1)
        finish(L, rec, mods, mods["R"], [mods["S"], mods["I"]])
        E.cover(kind)
    return fn


SHAPES = ["", " ", "-", ",c", "=d", "-Wl,-e,", "-f=", "-g h", " -i", "-j ", "k  l", "#", "--", "-O0 -O0"]


def shapes(opt):
    """flags are kept apart and in order, whatever the texts look like"""
    def fn():
        L = sys.modules["licant"]
        cmds = []
        cxx = opt == "cxx_flags"
        src = "r.cpp" if cxx else "r.c"
        ENV.vfs.file("/vfs/w/" + src, "", mtime=1)

        def handler(cmd):
            cmds.append(cmd)
            ws = cmd.split()
            out = ws[ws.index("-o") + 1] if "-o" in ws else ws[ws.index(">") + 1]
            return Proc(0, effect=lambda: ENV.vfs.write(out, "r.o: %s\n" % src))
        ENV.handler = handler
        vals = {}
        plain = E.pick("plain", "RIA")
        for m in "RIA":
            k = 8 if m == plain else E.choose("shape_" + m, len(SHAPES) + 1)
            if k:
                vals[m] = SHAPES[k - 1]
        o = {m: {opt: vals[m]} if m in vals else {} for m in "RIA"}
        L.module("I", **o["I"])
        L.module("S", sources=[src], include_modules=["I"], **o["R"])
        r = attempt(lambda: L.ex(str(L.cxx_application("app", target="app", modules=[L.submodule("S")], **o["A"])), argv=["-j1"]))
        ENV.sched.drain()
        E.check(exit_status(r) == 0, "builds", lambda: "%s %s" % (r, vals))
        want = "\x00".join("\x00".join(vals.get(m, "").split()) for m in "ARI" if vals.get(m, "").split())
        hit = [c for c in cmds if (" -c " in c) != (opt == "ld_flags") and " -MM " not in c]
        if opt == "ld_flags":
            want = "\x00".join(vals.get("A", "").split())
        E.check(len(hit) == 1, "one-command", lambda: str(cmds))
        got = "\x00" + "\x00".join(hit[0].split()) + "\x00"
        E.check("\x00" + want + "\x00" in got if want else True, "flags-in-order-and-apart", lambda: "%s: %s" % (vals, hit))
        E.cover("shapes")
        E.observe(len(cmds))
    return fn


class DropGen:
    """the recorder without the commands of the generated header"""

    def __init__(self, rec):
        self.rec = rec

    @property
    def cmds(self):
        return [c for c in self.rec.cmds if c.inputs != ["gen.in"]]

    def of(self, kind):
        return [c for c in self.cmds if c.kind == kind]


def configs(tier):
    b = {"built"}
    q = [
        Config("lists", tree(X.LISTS + X.TEXTS), "any of 8 list and text options, given or not in each of 7 modules (application, included, included "
               "by the included, depended on, submodule, its include, library submodule), arbitrary values, all other options given or none", b),
        Config("singles", tree(X.STDS + X.SINGLES), "the same for 6 single-valued options", b),
        Config("kinds", kinds(), "applications, libraries and objects with a submodule of any kind", b | {"application", "shared_library", "static_library", "objects"}),
        Config("local", local("application"), "sources, objects, submodules and dependencies contributed by included modules", b | {"depends", "no dependency"}),
    ]
    q += [Config("shapes-" + o, shapes(o), "%d shapes of flag texts (empty, blanks, commas, several words) in an ancestor, a module and one it includes" % len(SHAPES),
                 {"shapes"}) for o in (X.TEXTS if tier != "quick" else ["cc_flags"])]
    if tier == "quick":
        return q
    return q + [Config("lists-all", tree(X.LISTS + X.TEXTS, True), "declared in either order", b),
                Config("singles-all", tree(X.STDS + X.SINGLES, True), "declared in either order", b)] + [Config("local-" + k, local(k), "the same for other kinds of modules", b) for k in ("shared_library", "static_library", "objects")]
