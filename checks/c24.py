"""C24: scripts are resolved relative to the script that names them."""
import sys

from symx import strings as S
from symx.engine import E, Not
from symx.env import ENV, attempt, exit_status, fresh
from symx.runner import Config

from . import cxxlib as X
from . import scriptlib as P
from .c09 import parts

ASSUMPTIONS = ["the process does not change its current directory while scripts run", "no symbolic links among the scripts"]
ABS = ["/vfs/w/", "/vfs/w/a/", "", "../", "b/"]
DIRS = ["/vfs/w", "/vfs/w/a", "/vfs/w/a/b", "/vfs/w/b"]


def absolute(base, text):
    return text if S.sub_at(text, "/", 0) else base + "/" + text


def where(p):
    """directory of a script, as text of its components"""
    return "/" + "/".join(parts(p)[:-1])


class Tree:
    """scripts s.py and t.py in every directory; what each of them does when it runs is set before"""

    def __init__(self, main, root="/vfs/w"):
        self.L = fresh([main])
        self.root = root
        self.log = []
        self.want = []
        self.bodies = {}
        self.level = []
        for d in DIRS:
            for n in ("s.py", "t.py"):
                P.script(d + "/" + n, lambda p=d + "/" + n: self.run(p))

    def here(self):
        return "/" + "/".join(parts(self.L.directory()))

    def run(self, p):
        self.log.append(("start", p, self.here()))
        f = self.level.pop(0) if self.level else None
        if f is not None:
            f(p)
            self.log.append(("back", p, self.here()))


def same(a, b):
    return S.deq([list(x) for x in a], [list(x) for x in b])


def nested(mains, n1, n2, alphabet, fails=("none", "raise")):
    """the main script executes a script, that one another, then the main script a third; one of them may raise"""
    def fn():
        main = E.pick("main", mains)
        t = Tree(main)
        fail = E.pick("fails", fails)
        who = E.pick("who", [1, 2]) if fail != "none" else 0
        t1 = E.string_upto("first", n1, alphabet) + "s.py"
        t2 = E.string_upto("second", n2, alphabet) + "t.py"
        E.assume(Not(S.sub_at(t1, "//", 0)))
        base = where(main if main.startswith("/") else "/vfs/w/" + main)
        p1 = absolute(base, t1)
        ok1 = ENV.vfs.exists(p1)
        p1c = "/" + "/".join(parts(p1))
        d1 = where(p1)
        p2 = absolute(d1, t2)
        ok2 = ENV.vfs.exists(p2)
        p2c, d2 = "/" + "/".join(parts(p2)), where(p2)
        third = "a/s.py" if base == "/vfs/w" else "s.py"
        p3 = base + "/" + third
        w = t.want
        dead = not ok1
        if ok1:
            w.append(("start", p1c, d1))
            if who == 1:
                dead = True
            elif not ok2:
                dead = True
            else:
                w.append(("start", p2c, d2))
                if who == 2:
                    dead = True
                else:
                    w.append(("back", p2c, d2))
                    w.append(("back", p1c, d1))
        if not dead:
            w.append(("main", base, base))
            w.append(("start", p3, where(p3)))
            w.append(("main", base, base))
        det = lambda: "main %s executes %s, which executes %s; fails %s %s: %s want %s" % (main, t1, t2, fail, who, t.log, w)

        def boom():
            if fail == "raise":
                raise RuntimeError("boom")
            if fail == "name":
                undefined_name  # noqa
            if fail == "key":
                return {}["key"]

        def level2(p):
            if who == 2:
                boom()

        def level1(p):
            if who == 1:
                boom()
            t.L.execute(t2)
        t.level = [level1, level2]

        def go():
            t.L.execute(t1)
            t.log.append(("main", base, t.here()))
            t.L.execute(third)
            t.log.append(("main", base, t.here()))
        r = attempt(go)
        E.check(same(t.log, w), "scripts-and-directories", det)
        if dead:
            E.check(r[0] != "ok" and exit_status(r) != 0, "error-ends-the-run", lambda: "%s %s" % (r, det()))
            E.cover("missing script" if fail == "none" else "script fails")
        else:
            E.check(r[0] == "ok", "runs", lambda: "%s %s" % (r, det()))
            E.cover("nested")
        E.observe([len(t.log), exit_status(r)])
    return fn


def again(mains, sizes, alphabet):
    """scripts that may be executed again while they are running: a chain of scripts, each named relative to the one before"""
    def fn():
        main = E.pick("main", mains)
        t = Tree(main)
        base = where(main if main.startswith("/") else "/vfs/w/" + main)
        texts, ps, here = [], [], base
        for i, n in enumerate(sizes):
            x = (E.string_upto("text%d" % i, n, alphabet) if isinstance(n, int) else E.pick("text%d" % i, n)) + "s.py"
            E.assume(Not(S.sub_at(x, "//", 0)))
            p = absolute(here, x)
            E.assume(ENV.vfs.exists(p))
            texts.append(x)
            ps.append("/" + "/".join(parts(p)))
            here = where(p)
        w = [("start", p, where(p)) for p in ps] + [("back", p, where(p)) for p in reversed(ps)] + [("main", base, base)]
        t.level = [lambda p, x=x: t.L.execute(x) for x in texts[1:]] + [lambda p: None]

        def go():
            t.L.execute(texts[0])
            t.log.append(("main", base, t.here()))
        r = attempt(go)
        det = lambda: "main %s chain %s: %s %s want %s" % (main, texts, r, t.log, w)
        E.check(r[0] == "ok", "runs", det)
        E.check(same(t.log, w), "scripts-and-directories", det)
        E.cover("again" if any(S.s_eq(ps[i], ps[j]) for i in range(len(ps)) for j in range(i)) else "different")
        E.observe(len(t.log))
    return fn


def syntax():
    """a script that can not be compiled"""
    def fn():
        L = sys.modules["licant"]
        ran = []
        deep = E.decide("deep")
        P.put("/vfs/w/a/bad.py", "def (:\n")
        P.script("/vfs/w/a/s.py", lambda: (ran.append(1), L.execute("bad.py"), ran.append(2)))
        r = attempt(lambda: L.execute("a/s.py" if deep else "a/bad.py"))
        E.check(r[0] != "ok" and exit_status(r) != 0, "error-ends-the-run", lambda: str(r))
        E.check(ran == ([1] if deep else []), "nothing-after", lambda: str(ran))
        E.cover("syntax")
        E.observe(ran)
    return fn


def modules(mains, n, alphabet):
    """modules declared by a nested script take their paths relative to it"""
    def fn():
        main = E.pick("main", mains)
        t = Tree(main)
        L = t.L
        rec = X.Recorder()
        t1 = E.string_upto("script", n, alphabet) + "s.py"
        E.assume(Not(S.sub_at(t1, "//", 0)))
        base = where(main if main.startswith("/") else "/vfs/w/" + main)
        p1 = absolute(base, t1)
        E.assume(ENV.vfs.exists(p1))
        d1 = where(p1)
        for d in DIRS:
            ENV.vfs.file(d + "/m.c", "", mtime=1)
            ENV.vfs.file(d + "/p.c", "", mtime=1)
        # declared before and after the script executes another one
        late = E.decide("late")

        def level1(p):
            if late:
                L.execute("/vfs/w/b/t.py")
            L.module("sub", sources=["m.c"], include_paths=["inc", "../up"])
            if not late:
                L.execute("/vfs/w/b/t.py")
        t.level = [level1]

        def go():
            L.execute(t1)
            L.cxx_objects("all", sources=["p.c"], include_paths=["mine"], modules=[L.submodule("sub")])
            return L.ex("all", argv=["-j1"])
        r = attempt(go)
        ENV.sched.drain()
        det = lambda: "main %s executes %s: %s %s" % (main, t1, r, [c.text for c in rec.cmds])
        E.check(exit_status(r) == 0, "builds", det)
        got = {}
        cc = rec.of("cc")
        E.check(len(cc) == 2, "two-sources", det)
        J = lambda d, x: "/" + "/".join(parts(d + "/" + x))
        for src, inc in ((J(d1, "m.c"), [J(base, "mine"), J(d1, "inc"), J(d1, "../up")]), (J(base, "p.c"), [J(base, "mine")])):
            cs = [c for c in cc if S.s_eq("/" + "/".join(parts(c.inputs[0])), src)]
            E.check(len(cs) == 1, "source-relative-to-its-script", lambda: "%s: %s" % (src, det()))
            E.check(S.deq(["/" + "/".join(parts(x)) for x in cs[0].I], inc), "paths-relative-to-their-script", lambda: "want %s: %s" % (inc, det()))
        E.cover("modules")
        E.observe(len(cc))
    return fn


def recursive(mains):
    """execute_recursive runs every script whose name has the pattern, except below hidden directories"""
    def fn():
        main = E.pick("main", mains)
        t = Tree(main)
        base = where(main if main.startswith("/") else "/vfs/w/" + main)
        for p in [p for p in ENV.vfs.nodes if p.endswith("/make.py")]:
            ENV.vfs.remove(p)
        pat = E.string_upto("pattern", 2, "st.y", 1)
        hide = E.pick("hide", [None, "zz", "/b"])
        root = E.pick("root", ["a", ".", "../w/a", "/vfs/w/b"])
        back = E.decide("from a script")
        if E.decide("deeper"):
            P.script("/vfs/w/a/b/c/s2.py", lambda: t.run("/vfs/w/a/b/c/s2.py"))
        top = "/" + "/".join(parts(absolute(base if not back else "/vfs/w", root)))
        want = []
        for p in sorted(ENV.vfs.nodes):
            n = ENV.vfs.nodes[p]
            if n.kind != "f" or n.exists is not True or not p.startswith(top + "/") or p == "/vfs/w/from":
                continue
            rel = p[len(top):].rsplit("/", 1)[0]
            if hide is not None and (hide in rel or (hide in top)):
                continue
            if S.find(p.rsplit("/", 1)[1], pat) >= 0:
                want.append(p)

        def go():
            t.L.execute_recursive(root, pat, hide=hide)
            t.log.append(("main", None, t.here()))
        if back:
            P.script("/vfs/w/from", go)
            r = attempt(lambda: t.L.execute("/vfs/w/from"))
        else:
            r = attempt(go)
        det = lambda: "%s %s hide %s from %s: %s %s want %s" % (root, pat, hide, main, r, t.log, want)
        E.check(r[0] == "ok", "runs", det)
        E.check(sorted(x[1] for x in t.log[:-1]) == sorted(want), "scripts-found", det)
        for x in t.log[:-1]:
            E.check(S.s_eq(x[2], where(x[1])), "own-directory", det)
        E.check(S.s_eq(t.log[-1][2], "/vfs/w" if back else base), "directory-restored", det)
        E.cover("found" if want else "none found")
        E.observe(len(want))
    return fn


def configs(tier):
    m = ["/vfs/w/make.py", "make.py", "./make.py", "a/make.py"]
    c = {"nested", "missing script", "script fails"}
    if tier == "quick":
        return [
            Config("nested", nested(m[:2], 3, 2, "ab./"), "a script named by any text of up to 3 characters over a b . / executes one named by any text of up to 2; main script "
                   "given by absolute or relative path; either script may raise", c),
            Config("mains", nested(m[2:], 2, 1, "b./", ("none", "name", "key")), "main script elsewhere", c),
            Config("again", again(m[:2], (2, 2, ABS), "ab./"), "a chain of three scripts, which may be the same", {"again", "different"}),
            Config("modules", modules(m, 3, "ab./"), "modules declared by a script named by any text of up to 3 characters", {"modules"}),
            Config("recursive", recursive(m), "execute_recursive with any pattern of 1..2 characters, 3 hidden directories, 4 roots", {"found", "none found"}),
            Config("syntax", syntax(), "a script that can not be compiled", {"syntax"}),
        ]
    return [
        Config("again", again(m, (3, 3, ABS, ABS), "ab./"), "a chain of four scripts, which may be the same", {"again", "different"}),
        Config("nested", nested(m, 4, 3, "ab./", ("none", "raise", "name", "key")), "script texts of up to 4 and 3 characters", c, time_limit=5000),
        Config("modules", modules(m, 5, "ab./"), "modules declared by a script named by any text of up to 5 characters", {"modules"}),
        Config("recursive", recursive(m), "execute_recursive with any pattern of 1..2 characters, 3 hidden directories, 4 roots", {"found", "none found"}),
        Config("syntax", syntax(), "a script that can not be compiled", {"syntax"}),
    ]
