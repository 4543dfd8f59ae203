"""C34: a local tunnel leads to the library, and the library is run through it."""
import json
import sys

from symx import strings as S
from symx.engine import E, Not
from symx.env import ENV, attempt, exit_status
from symx.runner import Config

from . import scriptlib as P
from .c09 import parts

SCRIPTS = ["make.py", "/vfs/w/make.py"]
ASSUMPTIONS = ["the registries contain valid JSON with absolute paths", "no dangling link is at the place of the tunnel"]


def tunnel(names, bases, places, tags=("fresh", "parent", "dir", "link"), calls=1, sym=0):
    def fn():
        L = sys.modules["licant"]
        v = ENV.vfs
        ran = []
        reg = {"user": None, "system": None}

        def script(path, tag):
            P.script(path, lambda: ran.append((tag, L.directory())))
        for where in ("user", "system"):
            if E.decide(where):
                reg[where] = {"a": "/vfs/lib/%s/a.g.py" % where}
                P.put(P.REGISTRY[where], json.dumps(reg[where]))
                for s in ("a.g.py", "in/b.py"):
                    script("/vfs/lib/%s/%s" % (where, s), where + ":" + s)
        script("/vfs/lib/other/a.g.py", "other:a.g.py")
        script("/vfs/lib/other/in/b.py", "other:in/b.py")
        for s in ("a.g.py", "in/b.py"):
            script("/vfs/w/own/" + s, "own:" + s)
        for b in bases:
            if not v.exists(b):
                v.dir(b.rstrip("/"), parents=True)
        done, wanted = {}, []
        for k in range(calls):
            base = E.pick("from%d" % k, bases)
            place = E.pick("place%d" % k, places)
            if sym:
                place += E.string_upto("place text%d" % k, sym, "abt. ", 1)
            name = E.pick("library%d" % k, names)
            scr = E.pick("script%d" % k, ["a.g.py", "in/b.py"])
            full = "/" + "/".join(parts(place if place.startswith("/") else base + place))
            if sym:
                # a new place
                for q in list(v.nodes):
                    E.assume(Not(S.s_eq_e(full, q)))
            here = v.find(full)
            if here is None:
                how = E.pick("before%d" % k, tags)
                parent = full.rsplit("/", 1)[0]
                if how != "fresh" and parent not in v.nodes:
                    v.dir(parent, parents=True)
                if how == "dir":
                    v.dir(full)
                    for s in ("a.g.py", "in/b.py"):
                        script(full + "/" + s, "there:" + s)
                elif how == "link":
                    v.link(full, "/vfs/lib/other")
            else:
                how = "used"
            path = E.pick("path%d" % k, [None, "/vfs/w/own/a.g.py"]) if not sym else None
            before = {p: (n.kind, n.target) for p, n in v.nodes.items() if n.exists is True}
            # ---- what has to happen
            lib = next((reg[w] and reg[w].get(name) for w in ("user", "system") if reg[w] and name in reg[w]), None)
            want, err, link = list(wanted), False, None
            if name in done:
                pass
            elif path:
                done[name] = path
                want.append(("own:a.g.py", "/vfs/w/own"))
            else:
                if how in ("dir", "link") or how == "used":
                    n = v.find(full)
                    tag = "there" if n.kind == "d" else n.target.split("/")[-1]
                elif lib is None:
                    err = True
                else:
                    tag = lib.split("/")[-2]
                    link = lib.rsplit("/", 1)[0]
                if not err:
                    done[name] = full
                    d = full + "/" + scr
                    want.append((tag + ":" + scr, d.rsplit("/", 1)[0]))

            def go():
                L.include(name, path, (place, scr)) if path else L.include(name, local_tunel=(place, scr))
            r = attempt(go) if base == "/vfs/w/" else attempt(lambda: P.run_in(L, base, go))
            got = [(t, "/" + "/".join(parts(d if S.sub_at(d, "/", 0) else "/vfs/w/" + d)) if d != "" else "/vfs/w") for t, d in ran]
            det = lambda: "%s at %r (%s) script %s path %s from %s: %s ran %s want %s; registries %s" % (
                name, place, how, scr, path, base, r, got, want, reg)
            E.check((exit_status(r) != 0) == err, "status", det)
            E.check(S.deq(got, want), "the-script-runs-once-through-the-tunnel", det)
            after = {p: (n.kind, n.target) for p, n in v.nodes.items() if n.exists is True}
            if err:
                E.cover("unregistered")
                break
            if link is not None:
                E.check(full in after and after[full] == ("l", link), "link", lambda: "%s: %s" % (after.get(full), det()))
                E.cover("created")
            elif len(want) > len(wanted):
                E.cover("by path" if path else "existing")
            else:
                E.cover("again")
            wanted = want
            for p in before:
                E.check(after.get(p) == before[p], "nothing-replaced", lambda: "%s %s: %s" % (p, before[p], det()))
            for p in after:
                ok = p in before or link is not None and (p == full or full.startswith(p + "/")) or p.startswith(base + "from")
                E.check(ok, "nothing-else-made", lambda: "%s: %s" % (p, det()))
        E.observe([t for t, d in ran])
    return fn


def configs(tier):
    places = ["tun", "t/u/tun", "../tun", "/vfs/w/abs/tun", "./sub/../tun"]
    cov = {"created", "existing", "unregistered", "by path"}
    t = tier == "thorough"
    q = [
        Config("one", tunnel(["a", "b"], ["/vfs/w/", "/vfs/w/sub/", "/vfs/w/sub/deep/"], places), "a registered or unregistered library, 2 registries, 3 including "
               "directories, 5 places, nothing, a directory or a link there, 2 scripts, with and without a path", cov),
        Config("two", tunnel(["a", "b"], ["/vfs/w/", "/vfs/w/sub/"], ["tun", "t/tun", "../tun"] if t else ["tun", "../tun"], ("fresh", "link"), calls=2), "two includes", cov | {"again"}),
        Config("any place", tunnel(["a"], ["/vfs/w/", "/vfs/w/sub/"], ["", "t/"], ("fresh", "parent"), sym=3 if t else 2), "places with arbitrary "
               "names of 1..%d characters" % (3 if t else 2), {"created", "unregistered"}),
    ]
    return q
