"""C12: built-in copy and delete act on exactly the named files."""
import os
import sys

from symx import shell
from symx import strings as S
from symx.engine import E, And, Not, Or
from symx.env import ENV, Proc, attempt
from symx.runner import Config

ASSUMPTIONS = ["the shell splits a command into words as POSIX says (model in symx/shell.py; validated against /bin/sh by "
               "tools/selftest.py)", "cp and rm do what POSIX says for the words they get",
               "an environment variable named a has the value b; names starting with ~ are excluded (the home directory is meant)"]
NASTY = "a \"'\\$`;&|?{}[]()<>#!-=\n\té%"


def handler(cmd):
    """the effect of a command on the file system; anything but one plain cp or rm is a violation"""
    w, why = shell.words(cmd)
    E.check(w is not None, "one-plain-command", lambda: "%r: %s" % (cmd, why))
    ops = []
    prog, rest, plain = w[0], w[1:], False
    opts = ""
    for x in rest:
        if not plain and S.s_eq(x, "--"):
            plain = True
        elif not plain and len(x) > 1 and S.sub_at(x, "-", 0):
            opts += x[1:]
        else:
            ops.append(x)
    E.check(prog.split("/")[-1] in ("cp", "rm", "unlink"), "only-cp-and-rm", lambda: repr(cmd))
    v = ENV.vfs

    if prog.split("/")[-1] == "cp":
        E.check(len(ops) == 2, "two-operands", lambda: "%r: %s" % (cmd, ops))
        E.check(all(o in "pfaLPdT" or S.is_tok(o) for o in opts), "copy-options", lambda: repr(cmd))

        def eff():
            if v.exists(ops[0]):
                v.write(ops[1], v.read(ops[0]))
        return Proc(0 if v.exists(ops[0]) else 1, effect=eff)

    E.check(len(ops) == 1, "one-operand", lambda: "%r: %s" % (cmd, ops))
    E.check(all(o == "f" for o in opts), "delete-options", lambda: repr(cmd))

    def eff():
        if v.exists(ops[0]):
            v.remove(ops[0])
    return Proc(0, effect=eff)


def state():
    return {p: (n.kind, n.content, n.mtime) for p, n in ENV.vfs.nodes.items() if n.exists is True}


def copying(which, name, api):
    def fn():
        L = sys.modules["licant"]
        v = ENV.vfs
        ENV.handler = handler
        os.environ["a"] = "b"
        v.clock = 50
        for d in ("a", "aa", "b", "-f", "x y"):
            v.file("/vfs/w/" + d, "decoy " + d, mtime=2)
        sym = name()
        E.assume(Not(S.sub_at(sym, "~", 0)))
        src, dst = (sym, E.pick("dst", ["out", "o u't", "{}"])) if which == "src" else (E.pick("src", ["in", "i n$", "{0}"]), sym)
        E.assume(Not(S.s_eq(src, dst)))
        src_p, dst_p = "/vfs/w/" + src, "/vfs/w/" + dst
        pre = E.pick("prefix", ["", "/vfs/w/"])
        v.file(src_p, "SRC", mtime=9)
        if api == "core":
            c = L.MakeCore()
            c.runtime["threads"] = 1
            c.runtime["debug"] = E.decide("debug")
            c.copy(pre + src, dst)
        else:
            c = L.default_core()
            c.runtime["threads"] = 1
            L.copy(tgt=dst, src=pre + src)
        before = state()
        r = attempt(lambda: c.get(dst).invoke("recurse_update"))
        ENV.sched.drain()
        E.check(r == ("ok", True), "copy-succeeds", lambda: "%r -> %r: %s" % (src, dst, r))
        E.check(v.exists(dst_p) and v.read(dst_p) == "SRC", "copied", lambda: "%r -> %r %s" % (src, dst, state()))
        after = state()
        for p in before:
            if not S.s_eq(p, dst_p):
                E.check(p in after and after[p] == before[p] or v.nodes[p].kind == "d", "others-untouched",
                        lambda: "%r: %s %s" % (p, before, after))
        for p in after:
            E.check(p in before or S.s_eq(p, dst_p), "nothing-else-created", lambda: "%r -> %r: %r" % (src, dst, p))
        E.cover("copied")
        before = state()
        r = attempt(lambda: c.get(dst).invoke("clean"))
        E.check(r[0] == "ok", "clean-succeeds", str(r))
        after = state()
        E.check(not v.exists(dst_p), "deleted", lambda: repr(dst))
        for p in before:
            if not S.s_eq(p, dst_p) and v.nodes[p].kind == "f":
                E.check(p in after and after[p] == before[p], "others-kept", lambda: "%r: %r" % (dst, p))
        E.cover("deleted")
        E.observe(len(ENV.cmds))
    return fn


def deleting(name):
    """clean of a target built by a function"""
    def fn():
        L = sys.modules["licant"]
        v = ENV.vfs
        ENV.handler = handler
        os.environ["a"] = "b"
        for d in ("a", "aa", "b", "-f", "x y"):
            v.file("/vfs/w/" + d, "decoy " + d, mtime=2)
        dst = name()
        E.assume(Not(S.sub_at(dst, "~", 0)))
        p0 = "/vfs/w/" + dst
        v.file(p0, "OLD", mtime=9)
        c = L.MakeCore()
        c.ftarget(tgt=dst, build=lambda t: None)
        before = state()
        act = E.pick("act", ["clean", "clr"])
        r = attempt(lambda: c.get(dst).invoke(act))
        E.check(r[0] == "ok", "clean-succeeds", str(r))
        after = state()
        E.check(not v.exists(p0), "deleted", lambda: repr(dst))
        for p in before:
            if not S.s_eq(p, p0) and v.nodes[p].kind == "f":
                E.check(p in after and after[p] == before[p], "others-kept", lambda: "%r: %r" % (dst, p))
        E.cover("deleted")
        E.observe(act)
    return fn


def configs(tier):
    n = 3 if tier == "quick" else 4
    sym = lambda k, pre="": (lambda: pre + E.string_upto("name", k, NASTY, 1))
    stars = lambda: E.pick("name", ["*", "a*", "*a b", "a*'", "-*", "{*}", "$(*)", "*\n", "a*[b]"])
    q = [
        Config("src", copying("src", sym(n), "core"), "source name of 1..%d characters over %d characters, 3 destinations" %
               (n, len(NASTY)), {"copied", "deleted"}),
        Config("dst", copying("dst", sym(n), "core"), "destination name of 1..%d characters, 3 sources" % n, {"copied", "deleted"}),
        Config("src-default", copying("src", sym(n - 1), "default"), "the same on the default core, 1..%d characters" % (n - 1),
               {"copied", "deleted"}),
        Config("dst-default", copying("dst", sym(n - 1), "default"), "the same on the default core", {"copied", "deleted"}),
        Config("stars", copying("src", stars, "core"), "9 source names with *", {"copied", "deleted"}),
        Config("stars-dst", copying("dst", stars, "default"), "9 destination names with *", {"copied", "deleted"}),
        Config("delete", deleting(sym(n)), "clean and clr of a name of 1..%d characters" % n, {"deleted"}),
    ]
    return q
