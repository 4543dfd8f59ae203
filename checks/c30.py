"""C30: targets declared on one core are complete there and invisible elsewhere."""
import shlex
import sys

from symx import strings as S
from symx.engine import E, Not
from symx.env import ENV, Proc, attempt, exit_status
from symx.runner import Config

from . import cxxlib as X

SCRIPTS = ["make.py", "/vfs/w/make.py"]
ASSUMPTIONS = ["names given to modules are shared by all cores; only targets belong to a core",
               "an existing file that a target depends on may be known to its core as a source"]
KINDS = ["copy", "makefile", "file", "core.copy", "core.touch", "core.ftarget", "updtarget", "routine", "target", "fileset"]


class Two:
    def __init__(self, kinds):
        L = self.L = sys.modules["licant"]
        mk = {"Core": L.core.Core, "MakeCore": L.MakeCore, "default": L.default_core}
        self.kinds = kinds
        self.cores = [mk[k]() for k in kinds]
        for c in self.cores:
            c.runtime["threads"] = 1
            c.runtime["quite"] = True
        self.own = [{}, {}]          # name -> (rule, tag)
        self.ran = []
        self.did = []
        ENV.vfs.clock = 20
        ENV.handler = self.handler

    def handler(self, cmd):
        w = [x for x in shlex.split(cmd) if not x.startswith("-")]
        tag = S.m_split(ENV.vfs.read(X.j("", w[1])))[0]

        def eff():
            self.ran.append(tag)
            ENV.vfs.write(X.j("", w[-1]), tag)
        return Proc(0, effect=eff)

    def act(self, tag, path=None):
        def f(*a):
            self.ran.append(tag)
            if path is not None:
                ENV.vfs.write(path, tag)
            return True
        return f

    def declare(self, k, rule, name, deps, tag, d=""):
        """declare rule on core k; every file rule uses its own source file src_<tag>"""
        L, c = self.L, self.cores[k]
        src = "src_" + tag
        ENV.vfs.file(X.j("", src), tag, mtime=1)
        out = d + name
        if rule == "copy":
            L.copy(tgt=out, src=src, adddeps=deps, core=c)
        elif rule == "makefile":
            L.makefile(tgt=out, deps=[src] + deps, do="cat %s {tgt}" % src, core=c)
        elif rule == "file":
            c.add(L.FileTarget(tgt=out, deps=[src] + deps, build=self.act(tag, X.j("", out))))
        elif rule == "core.copy":
            c.copy(src, out, deps=deps)
        elif rule == "core.touch":
            c.touch(out, tag, deps=deps)
        elif rule == "core.ftarget":
            c.source(src)
            c.ftarget(out, build=self.act(tag, X.j("", out)), deps=[src] + deps)
        elif rule == "updtarget":
            c.updtarget(out, deps=deps, update_if=lambda s: True, update=self.act(tag))
        elif rule == "routine":
            c.routine(self.act(tag), deps=deps, tgt=out)
        elif rule == "target":
            c.target(out, deps=[], action=self.act(tag))
        elif rule == "fileset":
            c.add(L.make.MakeFileTarget(tgt=out, deps=deps)) if E.decide("fileset_added_%s" % tag) else L.fileset(out, deps, core=c)
        self.own[k][out] = (rule, tag, deps)
        self.did.append((self.kinds[k], rule, out, list(deps), tag))

    # ------------------------------------------------------------------ oracle
    def find(self, k, name):
        for n, v in reversed(list(self.own[k].items())):
            if S.s_eq(X.j("", n), X.j("", name)):
                return v
        return None

    def tags(self, k, name, seen=None):
        seen = set() if seen is None else seen
        v = self.find(k, name)
        if v is not None and v[1] not in seen:
            seen.add(v[1])
            for d in v[2]:
                self.tags(k, d, seen)
        return seen

    def resolvable(self, k, det):
        c = self.cores[k]
        for n in list(self.own[k]):
            st, seen = [n], []
            while st:
                x = st.pop()
                if any(S.s_eq(x, y) for y in seen):
                    continue
                seen.append(x)
                r = attempt(lambda: (c.has(x), c.get(x)))
                E.check(r[0] == "ok" and r[1][0] is True and r[1][1].core is c, "resolvable-on-its-core", lambda: "%s: %s on core %d: %s" % (det(), x, k, r))
                st.extend(r[1][1].deps)

    def invisible(self, k, det):
        c, o = self.cores[k], self.own[1 - k]
        for n in o:
            if self.find(k, n) is None:
                E.check(not c.has(n), "invisible-on-the-other-core", lambda: "%s: %s on core %d" % (det(), n, k))
                E.cover("not on the other core")
            else:
                E.cover("same name on both cores")

    def build(self, k, name, det, how):
        c = self.cores[k]
        del self.ran[:]
        v = self.find(k, name)
        t = c.get(name)
        if v[0] == "target":
            r = attempt(lambda: c.do(name))
        elif how == "do":
            r = attempt(lambda: c.do(name))
        elif how == "makefile" and v[0] not in ("updtarget", "routine"):
            r = attempt(lambda: t.makefile())
            if r[0] == "exc" and "need_update" in str(r[1]):
                c.update_update_needity()
                r = attempt(lambda: t.makefile())
        else:
            r = attempt(lambda: t.invoke(t.default_action))
        ENV.sched.drain()
        E.check(exit_status(r) == 0 and r[1] is not False, "builds", lambda: "%s: %s on core %d: %s %s" % (det(), name, k, r, ENV.text()[-200:]))
        mine = self.tags(k, name)
        E.check(set(self.ran) <= mine, "only-targets-of-the-core-run", lambda: "%s: building %s on core %d ran %s" % (det(), name, k, self.ran))
        if v[0] in ("copy", "makefile", "file", "core.copy", "core.touch", "core.ftarget"):
            E.check(ENV.vfs.exists(X.j("", name)), "built", det)
        E.check(len(self.ran) == len(set(self.ran)), "once", det)
        return sorted(self.ran)


def rules_for(kind, rules):
    return [r for r in rules if kind == "MakeCore" or not r.startswith("core.")]


def pairs(combos, rules, per, dirs, hows, alphabet="ab"):
    """one or more rules per core, in either order; names arbitrary (equal or different)"""
    def fn():
        kinds = E.pick("cores", combos)
        w = Two(kinds)
        first = E.choose("first_core", 2)
        prev = [[], []]
        for step in range(2 * per):
            k = (first + step) % 2
            rule = E.pick("rule_%d" % step, rules_for(kinds[k], rules))
            name = E.string("name_%d" % step, 1, alphabet) + ("x" if step < 2 else "y")
            d = E.pick("dir_%d" % step, dirs) if rule not in ("updtarget", "routine", "target", "fileset") else ""
            deps = [prev[k][-1]] if prev[k] else []
            if rule == "fileset" and not deps:
                deps = []
            w.declare(k, rule, name, deps, "t%d" % step, d)
            prev[k].append(d + name)
        det = lambda: str(w.did)
        for k in (0, 1):
            w.resolvable(k, det)
        for k in (0, 1):
            w.invisible(k, det)
        obs = []
        how = E.pick("how", hows)
        for k in ((0, 1) if E.decide("build_first") else (1, 0)):
            obs.append(w.build(k, prev[k][-1], det, how))
            for q in (0, 1):
                w.invisible(q, det)
        E.cover("built")
        E.observe([w.did and [x[:2] for x in w.did], obs])
    return fn


def modules(entries, combos):
    """C++ modules built on a given core"""
    def fn():
        kinds = E.pick("cores", combos)
        entry = E.pick("entry", entries)
        w = Two(kinds)
        L, c = w.L, w.cores[0]
        from .c20 import sources
        sources(["r.cpp", "s.c", "q/u.ui", "q/m.h", "h/h.h", "pre.o", "dep.txt"])
        rec = X.Recorder()
        other = w.cores[1]
        user = {}
        before = [n for n in ("m", "l", "cxxm", "binutils") if other.has(n)]
        if E.decide("same_name_elsewhere"):
            for n in ("out", "app", "/vfs/w/build/r.o", "r.cpp"):
                user[n] = other.add(L.Target(tgt=n, deps=[], action=lambda s: w.ran.append("other")))
        o = {}
        if E.decide("qt"):
            o.update(qt_ui=["q/u.ui"], qt_moc=["q/m.h"])
        if E.decide("extra"):
            o.update(local_headers=[("x/h.h", "h/h.h")], objects=["pre.o"], depends=["dep.txt"])
        if E.decide("depfile"):
            ENV.vfs.dir("/vfs/w/build")
            ENV.vfs.file("/vfs/w/build/r.d", "r.o: r.cpp h/h.h", mtime=9)
        L.module("S", sources=["s.c"], type=E.pick("type_S", ["objects", "static_library"]), target="libs.a") if E.decide("submodule") else None
        if "S" in L.modules.mlibrary.modules:
            o["modules"] = [L.submodule("S")]

        def go():
            if entry == "static_and_shared":
                L.cxx_static_and_shared("app", "as", "ash", sources=["r.cpp"], core=c, **o)
                return c.get("app")
            f = {"application": L.cxx_application, "shared_library": L.cxx_shared_library, "static_library": L.cxx_static_library,
                 "objects": L.cxx_objects}[entry]
            if entry != "objects":
                o["target"] = "out"
            t = f("app", sources=["r.cpp"], core=c, **o)
            return c.get("app" if entry == "objects" else str(t))
        r = attempt(go)
        det = lambda: "%s %s %s: %s %s" % (kinds, entry, o, r, ENV.text()[-300:])
        E.check(r[0] == "ok", "declared-on-the-core", det)
        t = r[1]
        st, seen = [t.tgt], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            q = attempt(lambda: (c.has(x), c.get(x)))
            E.check(q[0] == "ok" and q[1][0] is True and q[1][1].core is c, "resolvable-on-its-core", lambda: "%s: %s: %s" % (det(), x, q))
            st.extend(q[1][1].deps)
        for n, u in user.items():
            E.check(other.get(n) is u, "not-replaced-elsewhere", lambda: "%s: %s" % (det(), n))
        if not user:
            for n in ("out", "app", "/vfs/w/out", "/vfs/w/build/r.o", "build/r.o", "r.cpp", "h/h.h", "/vfs/w/build/r.d"):
                E.check(not other.has(n), "invisible-on-the-other-core", lambda: "%s: %s" % (det(), n))
        for n in sorted(seen):
            if not any(S.s_eq(X.j("", n), X.j("", u)) for u in user) and not ENV.vfs.exists(n) and n not in before:
                E.check(not other.has(n), "invisible-on-the-other-core", lambda: "%s: %s" % (det(), n))
        r = attempt(lambda: t.invoke(t.default_action))
        ENV.sched.drain()
        E.check(r[0] == "ok" and r[1] is not False, "builds", det)
        E.check(len(rec.of("cc")) > 0 and w.ran == [], "only-targets-of-the-core-run", det)
        E.cover("built")
        E.observe([len(rec.cmds), len(seen)])
    return fn


MORE = ["source", "copy", "makefile", "fileset", "dirkeep", "makedir", "object", "asm", "depend", "executable", "dynamic_library", "static_library", "objcopy", "qt_moc", "qt_uic",
        "core.copy", "core.source", "core.ftarget", "core.touch", "core.makedir", "updtarget", "routine", "target"]


def shared(combos, rules):
    """the same files are known to both cores: a rule on one of them changes nothing on the other one"""
    def fn():
        kinds = E.pick("cores", combos)
        w = Two(kinds)
        L, X2 = w.L, sys.modules["licant.cxx_make"]
        src = "main.c"
        for f in (src, "one.o", "two.o"):
            ENV.vfs.file(X.j("", f), "text of " + f, mtime=1)
        c, o = w.cores
        out = "out" if E.decide("flat") else "d/e/out"
        ENV.handler = lambda cmd: Proc(0, effect=lambda: (w.ran.append(cmd), ENV.vfs.dir(X.j("", out).rsplit("/", 1)[0], parents=True), ENV.vfs.write(X.j("", out), "made")))
        # the other core knows the sources, the output, or a rule with the same output
        known = E.pick("known elsewhere", ["nothing", "sources", "output", "rule"])
        if known != "nothing":
            for f in (src, "one.o", "two.o"):
                L.source(f, core=o)
        if known == "output":
            o.add(L.Target(tgt=out, deps=[], action=w.act("other")))
        elif known == "rule":
            L.makefile(out, [src], "make elsewhere {tgt}", core=o)
        mine = E.decide("sources known here")
        if mine:
            for f in (src, "one.o", "two.o"):
                L.source(f, core=c)
        snapshot = {n: t for n, t in o._targets.items()} if hasattr(o, "_targets") else {}
        rule = E.pick("rule", rules_for(kinds[0], rules))
        opts = X2.options()
        do = {
            "source": lambda: L.source(src, core=c),
            "copy": lambda: L.copy(tgt=out, src=src, core=c),
            "makefile": lambda: L.makefile(out, [src], "run {tgt}", core=c),
            "fileset": lambda: L.fileset(out, [src, "one.o"], core=c),
            "dirkeep": lambda: L.make.dirkeep(out, core=c),
            "makedir": lambda: L.make.makedir(out, core=c),
            "object": lambda: X2.object(src, out, opts, core=c),
            "asm": lambda: X2.object(src, out, opts, type="asm", core=c),
            "depend": lambda: X2.depend(src, out, opts, core=c),
            "executable": lambda: X2.executable(out, ["one.o", "two.o"], opts, core=c),
            "dynamic_library": lambda: X2.dynamic_library(out, ["one.o", "two.o"], opts, core=c),
            "static_library": lambda: X2.static_library(out, ["one.o", "two.o"], opts, core=c),
            "objcopy": lambda: X2.objcopy(X2.gcc_toolchain(), out, src, "binary", [".text"], core=c),
            "qt_moc": lambda: X2.qt_moc(src, out, opts, core=c),
            "qt_uic": lambda: X2.qt_uic(src, out, opts, core=c),
            "core.copy": lambda: c.copy(src, out),
            "core.source": lambda: c.source(src),
            "core.ftarget": lambda: c.ftarget(out, exec="run {tgt}", deps=[src]),
            "core.touch": lambda: c.touch(out, "x"),
            "core.makedir": lambda: c.makedir(out, deps=[]),
            "updtarget": lambda: c.updtarget(out, deps=[src], update_if=lambda s: True, update=w.act("mine")),
            "routine": lambda: c.routine(w.act("mine"), deps=[src], tgt=out),
            "target": lambda: c.target(out, deps=[src], action=w.act("mine")),
        }[rule]
        r = attempt(do)
        det = lambda: "%s of %s on %s, elsewhere known: %s: %s; there %s, before %s" % (rule, out, kinds, known, r, sorted(map(str, o._targets)), sorted(map(str, snapshot)))
        E.check(r[0] == "ok", "declares", det)
        name = src if rule in ("source", "core.source") else out
        E.check(c.has(name) and c.get(name).core is c, "resolvable-on-its-core", det)
        st, seen = [c.get(name).tgt], []
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.append(x)
            q = attempt(lambda: (c.has(x), c.get(x)))
            E.check(q[0] == "ok" and q[1][0] is True and q[1][1].core is c, "resolvable-on-its-core", lambda: "%s: %s: %s" % (x, q, det()))
            st.extend(q[1][1].deps)
        for n, t in snapshot.items():
            E.check(o.get(n) is t and t.core is o, "not-replaced-elsewhere", lambda: "%s: %s" % (n, det()))
        for n in (src, out, "one.o", "d", "d/e"):
            if known == "nothing" or (known == "sources" and n in ("d", "d/e", out)):
                E.check(not o.has(n), "invisible-on-the-other-core", lambda: "%s: %s" % (n, det()))
        if not (rule in ("source", "core.source", "fileset") or rule == "target"):
            r = attempt(lambda: c.do(name))
            ENV.sched.drain()
            E.check(exit_status(r) == 0, "builds", lambda: "%s; %s" % (r, det()))
            E.check("other" not in w.ran and not any("elsewhere" in str(x) for x in w.ran), "only-targets-of-the-core-run", lambda: "%s: %s" % (w.ran, det()))
            E.check(rule in ("updtarget", "routine", "dirkeep") or ENV.vfs.exists(X.j("", out)), "built", det)
        E.cover(known)
        E.observe([rule, len(seen), len(w.ran)])
    return fn


def command_line(rules):
    """the command line works on the core it is given"""
    def fn():
        kinds = E.pick("cores", [["MakeCore", "default"], ["Core", "MakeCore"], ["default", "MakeCore"]])
        w = Two(kinds)
        L = w.L
        for k in (0, 1):
            rule = E.pick("rule_%d" % k, rules_for(kinds[k], rules))
            name = E.string("name_%d" % k, 1, "ab") + "x"
            w.declare(k, rule, name, [], "t%d" % k, "")
        names = [list(w.own[k])[0] for k in (0, 1)]
        ask = names[E.choose("ask", 2)]
        how = E.pick("how", ["default", "argument"])
        r = attempt(lambda: L.cli.cliexecute(default=ask if how == "default" else None, argv=["-qj1"] + ([] if how == "default" else [ask]), core=w.cores[0]))
        ENV.sched.drain()
        v = w.find(0, ask)
        det = lambda: "%s asked %s: %s ran %s" % (w.did, ask, r, w.ran)
        if v is None:
            E.check(exit_status(r) != 0 and w.ran == [], "other-core-is-not-searched", det)
            E.cover("unknown there")
        else:
            E.check(exit_status(r) == 0 and set(w.ran) <= {v[1]}, "only-targets-of-the-core-run", det)
            E.check(w.ran == [v[1]] or v[0] == "core.touch" and ENV.vfs.exists(X.j("", ask)), "runs", det)
            E.cover("runs")
        E.observe([exit_status(r), w.ran])
    return fn


def configs(tier):
    t = tier == "thorough"
    cov = {"built", "not on the other core", "same name on both cores"}
    main = [["Core", "Core"], ["MakeCore", "Core"], ["MakeCore", "MakeCore"], ["default", "Core"], ["default", "MakeCore"]]
    ents = ["application", "shared_library", "static_library", "objects", "static_and_shared"]
    return [
        Config("pairs", pairs(main if t else [main[1], main[4]], KINDS, 1, ["", "d/", "d/e/"] if t else ["", "d/e/"], ["do", "invoke", "makefile"] if t else ["do"]),
               "a rule of each kind on each of two cores, equal or different names, existing or missing directories, either order", cov, time_limit=3000),
        Config("chains", pairs([["MakeCore", "default"]] if not t else main, ["copy", "updtarget", "core.copy"] if not t else ["copy", "makefile", "file", "routine", "core.touch"], 2, ["", "d/"] if t else ["d/"], ["do"],
                               alphabet="ab"), "two rules on each core, the second depends on the first", cov, time_limit=3000),
        Config("modules", modules(ents, [["Core", "default"], ["MakeCore", "Core"], ["default", "Core"]]), "C++ modules on a given core: application, libraries, "
               "objects, with Qt files, headers, submodules", {"built"}),
        Config("shared", shared(main if t else [main[1], main[4], ["MakeCore", "default"]], MORE), "one rule of each of 23 kinds on one core, where the other core knows the same files or outputs",
               {"nothing", "sources", "output", "rule"}),
        Config("command line", command_line(KINDS[:9]), "the command line on a given core", {"runs", "unknown there"}),
    ]
