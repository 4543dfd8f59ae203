"""C32: a custom rule runs exactly its command, with the attributes of its target."""
import sys

from symx import strings as S
from symx.engine import E, Not
from symx.env import ENV, Proc, attempt, exit_status
from symx.runner import Config

from .c12 import state

ASSUMPTIONS = ["attributes are named in a rule as {name}, {name.attribute} or {name[index]}, without conversion or layout",
               "the shell gets the text of the command as it is"]
LIT = "a $'\"\\;%:!\n*~"
VAL = LIT + "{}0"


def text_of(cmd):
    """the text that the shell interprets"""
    if isinstance(cmd, (list, tuple)):
        if len(cmd) == 3 and cmd[0].split("/")[-1] in ("sh", "bash") and cmd[1] == "-c":
            return cmd[2]
        return None
    return cmd


class Opts:
    pass


def commands(n, k, apis, pieces, vals, threads=(1,)):
    """n targets with rules out of the pieces"""
    def fn():
        L = sys.modules["licant"]
        v = ENV.vfs
        api = E.pick("api", apis)
        c = L.default_core() if api in ("makefile", "shared") else L.MakeCore()
        c.runtime["threads"] = E.pick("threads", threads)
        c.runtime["debug"] = E.decide("debug")
        v.file("/vfs/w/in", "IN", mtime=9)
        if api in ("makefile", "shared"):
            L.source("in")
        else:
            c.source("in")
        want = {}
        rule = None
        for i in range(n):
            name = "t%d" % i
            o = Opts()
            o.x = E.string_upto("opt%d" % i, vals, VAL) if i == 0 else "opt of %s" % name
            at = {"extra": E.string_upto("extra%d" % i, vals, VAL) if i == 0 else "{tgt} of %s" % name, "opts": o, "items": ["i0", "{extra}"]}
            val = {"{tgt}": "/vfs/w/" + name, "{extra}": at["extra"], "{opts.x}": o.x, "{items[1]}": "{extra}", "{{": "{", "}}": "}"}
            if api == "ftarget":
                val = {x: val[x] for x in ("{tgt}", "{{", "}}")}
            if rule is None or api != "shared":
                rule = []
                for j in range(k):
                    p = E.pick("piece_%d_%d" % (i, j), [x for x in pieces if x in val or not x.startswith(("{", "}"))])
                    if p == "text":
                        p = E.string_upto("text_%d_%d" % (i, j), 1, LIT, 1)
                    rule.append(p)
                if api == "shared":
                    ex = L.Executor("run" + "".join(rule))
            r = "run" + "".join(rule)
            want[name] = "run" + "".join(val.get(p, p) if not S.has_tok(p) else p for p in rule)
            msg = E.pick("message_%d" % i, ["default", "own"]) if i == 0 else "default"
            kw = {} if msg == "default" else {"message": "MAKE {tgt}"}
            if api == "makefile":
                L.makefile(name, ["in"], r, **kw, **at)
            elif api == "ftarget":
                c.ftarget(tgt=name, exec=r, deps=["in"], **kw)
            elif api == "shared":
                c.add(L.FileTarget(tgt=name, deps=["in"], build=ex, **kw, **at))
            else:
                c.add(L.FileTarget(tgt=name, deps=["in"], build=L.Executor(r), **kw, **at))
        c.add(sys.modules["licant.make"].MakeFileTarget(tgt="all", deps=list(want)))
        ENV.handler = lambda cmd: Proc(0)
        r = attempt(lambda: c.get("all").invoke("makefile"))
        ENV.sched.drain()
        got = [text_of(x.cmd) for x in ENV.cmds]
        det = lambda: "%s: %s ran %r, want %r" % (api, r, got, want)
        E.check(r == ("ok", True), "succeeds", det)
        E.check(len(got) == n and None not in got, "one-command-each", det)
        rest = list(got)
        for w in want.values():
            hit = [g for g in rest if S.s_eq(g, w)]
            E.check(bool(hit), "exactly-the-command", det)
            rest.remove(hit[0])
        E.check(all(x.cwd in (None, "/vfs/w", ".") for x in ENV.cmds), "directory", det)
        E.cover(api)
        E.observe(len(got))
    return fn


def functions(apis):
    """rules that are functions"""
    def fn():
        L = sys.modules["licant"]
        v = ENV.vfs
        api = E.pick("api", apis)
        c = L.default_core() if api == "default" else L.MakeCore()
        c.runtime["threads"] = 1
        calls = []
        res = E.pick("result", [True, None, False, "raise"])
        have = E.bool("exists")
        v.file("/vfs/w/t", "OLD", have, 3)

        def f(*a, **k):
            calls.append((a, k))
            if res == "raise":
                raise RuntimeError("boom")
            v.write("/vfs/w/t", "NEW")
            return res
        kind = E.pick("callable", ["function", "object", "partial"])
        if kind == "function":
            b = lambda *a, **k: f(*a, **k)
        elif kind == "object":
            class B:
                def __call__(self, *a, **k):
                    return f(*a, **k)
            b = B()
        else:
            import functools
            b = functools.partial(f)
        if api == "ftarget":
            t = c.ftarget(tgt="t", build=b)
        else:
            t = c.add(L.FileTarget(tgt="t", deps=[], build=b))
        r = attempt(lambda: c.get("t").invoke("makefile"))
        ENV.sched.drain()
        det = lambda: "%s %s %s: %s, calls %s" % (api, kind, res, r, calls)
        if have:
            E.check(calls == [] and r == ("ok", True), "up-to-date", det)
            E.cover("up to date")
        else:
            E.check(len(calls) == 1 and len(calls[0][0]) == 1 and calls[0][0][0] is t and not calls[0][1], "called-once-with-the-target", det)
            bad = res is False or res == "raise"
            E.check((r == ("ok", True)) != bad, "result", det)
            E.cover("failed" if bad else "built")
        E.check(not ENV.cmds, "no-command", det)
        E.observe(len(calls))
    return fn


def touching(nlen, clen):
    """the touch rule: any content, any name"""
    def fn():
        L = sys.modules["licant"]
        v = ENV.vfs
        v.clock = 50
        c = L.MakeCore()
        c.runtime["threads"] = 1
        for d in ("a", "b", "x y"):
            v.file("/vfs/w/" + d, "decoy " + d, mtime=2)
        name = E.string_upto("name", nlen, "ab '{}$.\n", 1)
        for x in (".", "..", "a", "b"):
            E.assume(Not(S.s_eq_e(name, x)))
        sub = E.pick("directory", ["", "d/", "d/e/"])
        content = E.string_upto("content text", clen, "ab{}\\%\n\r\té", 0) if E.decide("content") else None
        path = "/vfs/w/" + sub + name
        state0 = E.pick("before", ["missing", "old"]) if not sub else "missing"
        dep = E.decide("newer dependency")
        if state0 == "old":
            v.file(path, "OLD", mtime=5)
        v.file("/vfs/w/dep", "D", mtime=7)
        c.source("dep")
        before = state()
        k = {} if content is None else {"content": content}
        if dep:
            k["deps"] = ["dep"]
        c.touch(sub + name, **k)
        r = attempt(lambda: c.get(sub + name).invoke("makefile"))
        ENV.sched.drain()
        det = lambda: "touch %r %s over %s: %s %s" % (sub + name, k, state0, r, state())
        E.check(r == ("ok", True), "succeeds", det)
        wrote = state0 == "missing" or dep
        E.check(v.exists(path) and S.deq(v.read(path), (content or "") if wrote else "OLD"), "content", det)
        after = state()
        for p in before:
            if not S.s_eq(p, path) and before[p][0] == "f":
                E.check(p in after and after[p] == before[p], "others-untouched", lambda: "%s: %s" % (p, det()))
        made = [path] + ["/vfs/w/d", "/vfs/w/d/e"][:sub.count("/")]
        for p in after:
            E.check(p in before or any(S.s_eq(p, m) for m in made), "nothing-else-created", lambda: "%s: %s" % (p, det()))
        E.cover("written" if wrote else "left alone")
        E.observe(wrote)
    return fn


def configs(tier):
    ps = ["text", "{tgt}", "{extra}", "{opts.x}", "{items[1]}", "{{", "}}"]
    cc = {"makefile", "ftarget", "target"}
    t = tier == "thorough"
    q = [
        Config("one", commands(1, 3 if t else 2, ["makefile", "ftarget", "target"], ps, 1), "one rule out of 2 pieces (thorough: 3): any character, 4 attributes, doubled "
               "braces; 2 attributes with arbitrary text of up to 1 character", cc),
        Config("values", commands(1, 1, ["makefile", "target"], ps[2:4], 3 if t else 2), "attributes of up to %d arbitrary characters" % (3 if t else 2),
               {"makefile", "target"}),
        Config("two", commands(2, 1, ["makefile", "ftarget", "target", "shared"], ps, 1, (1, 2)), "two rules or one rule shared by two targets, "
               "1 or 2 threads", cc | {"shared"}),
        Config("functions", functions(["ftarget", "default"]), "functions, callable objects and partial functions as rules, 4 results",
               {"up to date", "failed", "built"}),
        Config("touch", touching(2, 2), "touch with names of 1..2 and contents of 0..2 arbitrary characters, 3 directories, missing, old or "
               "outdated", {"written", "left alone"}),
    ]
    if not t:
        return q
    return q + [
        Config("one-4", commands(1, 4, ["makefile", "target"], ps, 1), "rules of 4 pieces", {"makefile", "target"}),
        Config("touch-3", touching(3, 3), "names and contents of up to 3 characters", {"written", "left alone"}),
    ]
