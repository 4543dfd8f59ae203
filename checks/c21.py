"""C21: a change of any included header recompiles the sources that include it."""
import sys

from symx import strings as S
from symx.engine import E, And, Not, Or, SymBool, zb, zn
from symx.env import ENV, Proc, attempt, exit_status, fresh
from symx.runner import Config

from . import cxxlib as X

SCRIPTS = ["make.py", "/vfs/w/make.py"]
ASSUMPTIONS = ["dependency files are written as gcc 13 and clang 18 write them; names in which a colon follows a backslash or is followed by a blank, a backslash, # or the end, "
               "names ending in a backslash (ambiguous in the compiler's output) and names of predefined targets are excluded"]
NASTY = "a\\ $#:'%\t;({"


def quote(name):
    """as the compiler quotes a name"""
    out, run = [], 0
    for c in name:
        if S.is_tok(c):
            for k in "\\ \t$#":
                if S.s_eq(c, k):
                    c = k
                    break
        if c in (" ", "\t"):
            out.append("\\" * run + "\\" + c)
            run = 0
        elif c == "\\":
            out.append(c)
            run += 1
        else:
            out.append("$$" if c == "$" else "\\#" if c == "#" else c)
            run = 0
    return "".join(out)


def deptext(obj, src, headers, layout):
    sep = {"line": " ", "gcc": " \\\n ", "clang": " \\\n  "}
    ws = [quote(src)] + [quote(h) for h in headers]
    if layout == "long":
        # everything, even the source, on lines of its own
        return obj + ": \\\n " + " \\\n ".join(ws) + "\n"
    if layout == "mixed":
        return obj + ": " + " ".join(ws[:2]) + "".join(" \\\n " + w for w in ws[2:]) + "\n"
    return obj + ": " + sep[layout].join(ws) + "\n"


def includable(name):
    """a name whose quoted form is unambiguous"""
    for i, c in enumerate(name):
        last = i + 1 == len(name)
        E.assume(Not(And(S.eqe(c, ":"), True if last else S.cin_e(name[i + 1], "\\ \t#"))))
        if i:
            E.assume(Not(And(S.eqe(c, ":"), S.eqe(name[i - 1], "\\"))))
        if last:
            E.assume(Not(S.eqe(c, "\\")))


class World:
    """a.c includes the headers, b.cpp only the first one of them"""

    def __init__(self, srcs, includes, layout, kind="objects"):
        self.srcs, self.inc, self.layout, self.kind = srcs, includes, layout, kind
        v = ENV.vfs
        v.clock = 50
        for s in srcs:
            v.file(X.j("", s), "", mtime=1)
        for s in includes:
            for h in includes[s]:
                p = v.norm(X.j("", h))
                d = p.rsplit("/", 1)[0]
                if not S.has_tok(d) and not v.exists(d):
                    v.dir(d, parents=True)
                if not v.exists(p):
                    v.file(p, "", mtime=1)
        ENV.handler = self

    def __call__(self, text):
        c = X.Cmd(text)
        self.cmds.append(c)
        s = c.inputs[0] if c.inputs else None

        def eff():
            body = "made"
            if c.kind == "dep":
                k = [x for x in self.srcs if X.j("", x) == X.j("", s)][0]
                body = deptext(k.split("/")[-1].rsplit(".", 1)[0] + ".o", k, self.inc[k], self.layout)
            ENV.vfs.write(X.j("", c.out), body)
        return Proc(0, effect=eff)

    def build(self):
        """a new process builds everything -> sources compiled"""
        L = fresh()
        self.cmds = []
        if self.kind == "objects":
            L.cxx_objects("t", sources=list(self.srcs))
        else:
            L.cxx_application("t", sources=list(self.srcs), target="t.bin")
        r = attempt(lambda: L.ex("t" if self.kind == "objects" else "t.bin", argv=["-j1", "-q"]))
        ENV.sched.drain()
        E.check(exit_status(r) == 0, "builds", lambda: "%s %s" % (r, self.what()))
        self.core = L.default_core()
        return self.compiled()

    def compiled(self):
        return sorted(x for x in self.srcs if any(c.kind == "cc" and X.j("", c.inputs[0]) == X.j("", x) for c in self.cmds))

    def out(self, src, kind):
        return [X.j("", c.out) for c in self.cmds if c.kind == kind and X.j("", c.inputs[0]) == X.j("", src)][0]

    def what(self):
        return "%s %s" % (self.inc, self.layout)


def headers(names, layouts, others, kind="objects", again=True):
    """headers with arbitrary names: each of them, and nothing else, becomes a dependency, and its change recompiles"""
    def fn():
        v = ENV.vfs
        h = names()
        for x in h:
            includable(x)
        for i, x in enumerate(h):
            for y in h[:i] + others:
                E.assume(Not(S.s_eq_e(x, y)))
        hs = list(h)
        for k, o in enumerate(others):
            hs.insert(0 if E.decide("before%d" % k) else len(hs), o)
        w = World(["a.c", "b.cpp"], {"a.c": hs, "b.cpp": others[:1]}, E.pick("layout", layouts), kind)
        E.check(w.build() == ["a.c", "b.cpp"], "first-build-compiles", w.what)
        E.cover("first")
        o, d = w.out("a.c", "cc"), w.out("a.c", "dep")
        # a second build knows the headers
        E.check(w.build() == [], "second-build-does-nothing", w.what)
        t = w.core.get(o)
        E.check(w.core.has(o), "object-target", o)
        got = [w.core.get(x).tgt for x in w.core.depends_as_set(t, incroot=False)]
        want = [ENV.vfs.norm(X.j("", x)) for x in hs]
        for x in want:
            E.check(any(S.s_eq(x, g) for g in got), "header-is-a-dependency", lambda: "%r: %s %s" % (x, got, w.what()))
        for g in got:
            if g in (o, d, "/vfs/w/a.c") or "__local_headers__" in g:
                continue
            if ENV.vfs.find(g) is not None or S.has_tok(g):
                E.check(any(S.s_eq(x, g) for x in want), "nothing-else-is-one", lambda: "%r: %s" % (g, w.what()))
            else:
                E.check(w.core.get(g).is_file() is False or not isinstance(w.core.get(g), sys.modules["licant"].FileTarget) or
                        any(S.s_eq(x, g) for x in want), "nothing-else-is-one", lambda: "%r: %s" % (g, w.what()))
        if again:
            x = E.pick("changed", h)
            n = v.get(X.j("", x))
            if E.decide("gone"):
                v.remove(X.j("", x))
                E.check(w.build() == ["a.c"], "rebuilt-when-gone", w.what)
                E.cover("gone")
            else:
                n.mtime = v.now()
                E.check(w.build() == ["a.c"], "rebuilt-when-newer", w.what)
                E.check(w.build() == [], "fourth-build-does-nothing", w.what)
                E.cover("newer")
        E.observe([len(got)])
    return fn


def histories(kind, steps, hs=("x.h", "sub/y.h", "z.hpp")):
    """edits between builds: any header or source gets an arbitrary time or vanishes, the dependency file vanishes or is
    emptied, or the source starts or stops including headers"""
    def fn():
        v = ENV.vfs
        w = World(["a.c", "s/b.cpp"], {"a.c": ["x.h", "sub/y.h"], "s/b.cpp": ["x.h", "/vfs/z.hpp"]}, E.pick("layout", ["gcc", "line"]), kind)
        v.file("/vfs/w/n.h", "", mtime=1)
        E.check(w.build() == sorted(w.srcs), "first-build-compiles", w.what)
        outs = {s: (w.out(s, "cc"), w.out(s, "dep")) for s in w.srcs}
        hist = []
        for k in range(steps):
            ev = E.pick("event%d" % k, ["header", "gone", "source", "depfile", "include", "nothing"])
            hist.append(ev)
            if ev == "header":
                h = E.pick("which%d" % k, ["x.h", "sub/y.h", "/vfs/z.hpp", "n.h"])
                p = X.j("", h)
                if not v.exists(p):
                    v.file(p, "", mtime=1)
                v.get(p).mtime = E.real("time%d" % k, 0, 200)
                v.clock = 300 * (k + 1)
            elif ev == "gone":
                h = E.pick("which%d" % k, ["x.h", "sub/y.h", "/vfs/z.hpp"])
                if v.exists(X.j("", h)):
                    v.remove(X.j("", h))
            elif ev == "source":
                v.get(X.j("", E.pick("which%d" % k, list(w.srcs)))).mtime = v.now()
            elif ev == "depfile":
                d = outs[E.pick("which%d" % k, list(w.srcs))][1]
                if E.decide("emptied%d" % k):
                    v.get(d).content = ""
                else:
                    v.remove(d)
            elif ev == "include":
                # an edited source includes something else
                s = E.pick("which%d" % k, list(w.srcs))
                w.inc[s] = ["n.h"] + w.inc[s][1:]
                v.get(X.j("", s)).mtime = v.now()
            # reference: what the last dependency file says and the times are
            must, may = [], []
            for s in w.srcs:
                o, d = outs[s]
                deps = [s] + w.seen[s] if hasattr(w, "seen") else [s] + w_first(w, s)
                empty = not v.exists(d) or v.read(d) == ""
                stale = empty or any(not v.exists(X.j("", x)) for x in deps)
                newer = Or(*[zn(v.get(X.j("", x)).mtime) > zn(v.get(o).mtime) for x in deps if v.exists(X.j("", x))])
                older = Or(*[zn(v.get(X.j("", x)).mtime) > zn(v.get(d).mtime) for x in deps if v.exists(X.j("", x)) and v.exists(d)])
                if stale or SymBool(zb(newer)):
                    must.append(s)
                elif SymBool(zb(older)):
                    may.append(s)
            got = w.build()
            E.check(all(s in got for s in must), "rebuilt", lambda: "%s: %s of %s after %s" % (w.what(), got, must, hist))
            E.check(all(s in must + may for s in got), "others-left-alone", lambda: "%s: %s of %s after %s" % (w.what(), got, must, hist))
            E.cover("rebuilt" if must else "quiet")
            if not hasattr(w, "seen"):
                w.seen = {s: w_first(w, s) for s in w.srcs}
            for s in w.srcs:
                if any(c.kind == "dep" and X.j("", c.inputs[0]) == X.j("", s) for c in w.cmds):
                    w.seen[s] = list(w.inc[s])
            w.first = {s: list(w.inc[s]) for s in w.srcs}
            E.cover(ev)
        E.observe(hist)
    first = {"a.c": ["x.h", "sub/y.h"], "s/b.cpp": ["x.h", "/vfs/z.hpp"]}

    def w_first(w, s):
        return first[s]
    return fn


def configs(tier):
    n = 3 if tier == "quick" else 4
    one = lambda k, alph=NASTY: (lambda: ["h" + E.string_upto("name", k, alph, 1) + E.pick("suffix", ["", ".h"])])
    two = lambda k, alph: (lambda: ["h" + E.string_upto("first", k, alph, 1), "g" + E.string_upto("second", k, alph, 1)])
    place = ["/usr/include/", "/usr/local/include/", "../", "/opt/", "/tmp/", "caf\u00e9/", "s/u/b/", "/vfs/w/", "./"]
    where = lambda ps, k: (lambda: [E.pick("place", ps) + "h" + E.string_upto("name", k, "a.", 1) + E.pick("suffix", ["", ".h", ".hpp", ".hxx", ".inc", ".c", ".cpp"])])
    ev = {"header", "gone", "source", "depfile", "include", "nothing", "rebuilt", "quiet"}
    lay = ["line", "gcc", "clang", "mixed", "long"]
    c = {"first", "gone", "newer"}
    if tier == "quick":
        return [
            Config("name", headers(one(2), ["gcc", "mixed"], ["f.h"]), "a header name with 1..2 characters over %d, before or after another, 2 layouts" % len(NASTY), c),
            Config("name-long", headers(one(3, "\\ $#"), ["gcc"], ["f.h"], again=False), "1..3 characters over \\ blank $ #", {"first"}),
            Config("layouts", headers(lambda: ["h" + E.string("c", 1, "a\\ #") + "x", "k.h"], lay, ["f.h", "e/f.hpp"]), "4 headers in 5 layouts", c),
            Config("places", headers(where(place[:6], 1), ["gcc"], ["f.h"]), "a header in 6 places, absolute, above and below, of 7 kinds", c),
            Config("history", histories("objects", 2), "two arbitrary edits, each followed by a build", ev),
            Config("application", histories("application", 1), "the same for an application", ev),
        ]
    return [
        Config("name", headers(one(3), lay, ["f.h"]), "a header name with 1..3 characters over %d, before or after another, 5 layouts" % len(NASTY), c, time_limit=4000),
        Config("name-long", headers(one(5, "\\ $#"), ["gcc", "mixed"], ["f.h"], again=False), "1..5 characters over \\ blank $ #", {"first"}, time_limit=4000),
        Config("two-names", headers(two(2, "a\\ #"), ["gcc", "mixed"], ["f.h"]), "two header names", c),
        Config("layouts", headers(lambda: ["h" + E.string("c", 1, "a\\ #$") + "x", "k.h"], lay, ["f.h", "e/f.hpp"]), "4 headers in 5 layouts", c),
        Config("places", headers(where(place, 2), ["gcc", "clang"], ["f.h"]), "a header in 9 places, absolute, above and below, of 7 kinds", c),
        Config("history", histories("objects", 2), "two arbitrary edits, each followed by a build", ev),
        Config("application", histories("application", 2), "the same for an application", ev),
    ]
