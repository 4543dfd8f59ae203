"""C27: unknown or wrongly typed module options are rejected before anything is built."""
import sys

from symx import strings as S
from symx.engine import E, Not
from symx.env import ENV, attempt, exit_status
from symx.runner import Config

from . import cxxlib as X
from .c20 import sources

ASSUMPTIONS = ["a value is of the right type when its class is exactly the documented one",
               "names of the parameters of the declaring functions (impl, default, core, name ...) are not used as option names"]
TYPE = {"srcdir": "str", "depends": "list", "objects": "list", "sources": "list", "qt_moc": "list", "qt_ui": "list", "libs": "list",
        "libdirs": "list", "target": "str", "include_paths": "list", "cxxstd": "str", "ccstd": "str", "cxx_flags": "str", "cc_flags": "str",
        "ld_flags": "str", "modules": "list", "type": "str", "builddir": "str", "toolchain": "toolchain", "optimize": "str",
        "include_modules": "list", "defines": "list", "ldscripts": "list", "local_headers": "list", "mdepends": "list", "debug": "str"}
GOOD = {"srcdir": ["", "sub"], "target": ["out"], "cxxstd": ["c++20"], "ccstd": ["c99"], "cxx_flags": ["", "-fx -fy"], "cc_flags": ["-fz"],
        "ld_flags": ["-fl"], "type": ["objects"], "builddir": ["bd"], "optimize": ["-O2", ""], "debug": [""], "sources": [[]],
        "modules": [[]], "objects": [[], ["pre.o"]], "libs": [[], ["m"]], "local_headers": [[], [("h.h", "x.h")]], "include_modules": [[], ["I"]],
        "mdepends": [[], ["I"]], "depends": [[], ["x.h"]]}
KINDS = ["application", "shared_library", "static_library", "objects"]
CLASSES = ["str", "list", "int", "bool", "NoneType", "dict", "tuple", "float", "bytes", "set", "toolchain"]


def value(L, c):
    if c == "toolchain":
        return L.gcc_toolchain("x-")
    return {"str": "v", "list": ["v"], "int": 1, "bool": True, "NoneType": None, "dict": {"v": "w"}, "tuple": ("v",), "float": 1.5,
            "bytes": b"v", "set": {"v"}}[c]


def right(name, c):
    """the option is known and the class is the right one; name may be symbolic"""
    for k in TYPE:
        if S.s_eq(name, k):
            return TYPE[k] == c
    return False


def good(L, name):
    if name == "toolchain":
        return E.pick("good_value", [L.gcc_toolchain("x-"), L.clang_toolchain()])
    if name in ("qt_moc", "qt_ui"):
        return []
    return E.pick("good_value", GOOD.get(name, [[], ["a1"]]))


def project(L, kind, where, opts):
    """R with submodule S with submodule T; the options go to one of them"""
    rec = X.Recorder()
    sources(["r.c", "s.c", "t.c", "sub/r.c", "sub/s.c", "sub/t.c", "pre.o", "x.h", "m.h"])
    made = []

    def run():
        L.module("I", defines=["I"])
        L.makefile(tgt="gen", deps=[], do="cp x.h gen")
        L.module("T", **dict({"sources": ["t.c"]}, **(opts if where == "T" else {})))
        o = dict({"sources": ["s.c"], "modules": [L.submodule("T")]}, **(opts if where == "S" else {}))
        if where == "implementation":
            L.implementation("S", "one", default=True, **dict(o, **opts))
        else:
            L.module("S", **o)
        o = {"sources": ["r.c"], "modules": [L.submodule("S")], "depends": ["gen"]}
        if kind != "objects":
            o["target"] = "out"
        if where == "R":
            o.update(opts)
        k = o.pop("type", kind)
        if where == "R" and "type" in opts:
            k, o["type"] = kind, opts["type"]
        f = {"application": L.cxx_application, "shared_library": L.cxx_shared_library, "static_library": L.cxx_static_library,
             "objects": L.cxx_objects}[k]
        t = f("R", **o)
        made.append(t)
        return L.ex("R" if k == "objects" else str(t), argv=["-j1"])
    r = attempt(run)
    ENV.sched.drain()
    return r, rec, made


def judge(r, rec, made, ok, det):
    if ok:
        E.check(exit_status(r) == 0, "well-typed-options-are-accepted", det)
        E.check(len(rec.of("cc")) > 0 or "sources" in det() or "modules" in det(), "builds", det)
        E.cover("accepted")
    else:
        E.check(exit_status(r) != 0, "rejected-with-status", det)
        E.check(rec.cmds == [] and made == [], "nothing-built", det)
        E.cover("rejected")
    E.observe([ok, exit_status(r), len(rec.cmds) > 0])


def names(n, alphabet, wheres, kinds):
    """an option with an arbitrary name"""
    def fn():
        L = sys.modules["licant"]
        kind, where = E.pick("kind", kinds), E.pick("where", wheres)
        w = E.string_upto("name", n, alphabet, 1)
        for x in ("impl", "core", "name", "dir", "stack", "script", "default", "self", "mod"):
            if len(x) == len(w):
                E.assume(Not(S.s_eq(w, x)))
        ok = right(w, "list")
        r, rec, made = project(L, kind, where, {w: []})
        judge(r, rec, made, ok, lambda: "%s %s %s=[]: %s %s" % (kind, where, w, r, [c.text for c in rec.cmds] + [ENV.text()[-300:]]))
    return fn


def near(wheres, kinds, k):
    """names one edit away from a known one: a character replaced, inserted, or dropped"""
    def fn():
        L = sys.modules["licant"]
        kind, where = E.pick("kind", kinds), E.pick("where", wheres)
        base = E.pick("base", sorted(TYPE))
        how = E.pick("edit", ["replace", "insert", "drop", "upper"])
        i = E.choose("at", len(base) if len(base) < k else k)
        c = E.string("char", 1, "abdeilnprstux_") if how in ("replace", "insert") else ""
        w = {"replace": base[:i] + c + base[i + 1:], "insert": base[:i] + c + base[i:], "drop": base[:i] + base[i + 1:],
             "upper": base[:i] + base[i].upper() + base[i + 1:]}[how]
        c = TYPE[base]
        v = {"str": "", "list": []}.get(c) if c != "toolchain" else L.gcc_toolchain("x-")
        ok = right(w, c)
        if ok and (base in ("type", "target") or any(S.s_eq(w, x) for x in ("type", "target"))):
            E.cover("not varied")
            return
        r, rec, made = project(L, kind, where, {w: v})
        judge(r, rec, made, ok, lambda: "%s %s %s=%r: %s %s" % (kind, where, w, v, r, [c.text for c in rec.cmds] + [ENV.text()[-300:]]))
    return fn


def types(wheres, kinds):
    def fn():
        L = sys.modules["licant"]
        kind, where = E.pick("kind", kinds), E.pick("where", wheres)
        name = E.pick("option", sorted(TYPE))
        c = E.pick("class", CLASSES)
        if where == "R" and name in ("type", "target"):
            E.cover("not varied")
            return
        ok = TYPE[name] == c
        v = good(L, name) if ok else value(L, c)
        r, rec, made = project(L, kind, where, {name: v})
        judge(r, rec, made, ok, lambda: "%s %s %s=%r: %s %s" % (kind, where, name, v, r, [c.text for c in rec.cmds] + [ENV.text()[-300:]]))
    return fn


def pairs(wheres):
    """one good and one bad option in either order"""
    def fn():
        L = sys.modules["licant"]
        where = E.pick("where", wheres)
        names_ = [n for n in sorted(TYPE) if n not in ("type", "target")]
        a = E.pick("first", names_)
        bad = E.pick("bad", ["libs", "optimize", "inclde_paths", "builddir"])
        if a == bad:
            return
        o = [(a, good(L, a)), (bad, 1)]
        if E.decide("bad first"):
            o.reverse()
        r, rec, made = project(L, "application", where, dict(o))
        judge(r, rec, made, False, lambda: "%s %s: %s %s" % (where, o, r, [c.text for c in rec.cmds] + [ENV.text()[-300:]]))
    return fn


def configs(tier):
    both = {"accepted", "rejected"}
    if tier == "quick":
        return [
            Config("names", names(4, "libs_", ["R", "T"], ["application"]), "an option name of 1..4 arbitrary characters of 'libs_'", both),
            Config("near misses", near(["S"], ["objects"], 3), "each of %d known names with one of the first 3 characters replaced, inserted, dropped or "
                   "in upper case" % len(TYPE), both),
            Config("types", types(["R", "S", "implementation"], ["static_library", "objects"]), "each of %d options with each of %d types, in the module or its submodule"
                   % (len(TYPE), len(CLASSES)), both),
            Config("pairs", pairs(["R", "T"]), "a bad option before or after a good one", {"rejected"}),
        ]
    return [
        Config("names", names(6, "libsdr_", ["R", "S", "T", "implementation"], KINDS), "an option name of 1..6 arbitrary characters", both, time_limit=3000),
        Config("near misses", near(["R", "S", "T"], KINDS, 20), "each of %d known names with any one character replaced, inserted, dropped or in upper case" % len(TYPE), both),
        Config("types", types(["R", "S", "T", "implementation"], KINDS), "each option with each type, in every module", both),
        Config("pairs", pairs(["R", "S", "T", "implementation"]), "a bad option before or after a good one", {"rejected"}),
    ]
