"""Harness pieces for C and C++ modules: declarations with symbolic values, a reference for the options, recorded commands."""
import posixpath
import sys
import types

from symx import strings as S
from symx.engine import E
from symx.env import ENV, Proc

ALPH = "abcXYZ019_"
LISTS = ["defines", "include_paths", "libs", "libdirs", "ldscripts"]
TEXTS = ["cxx_flags", "cc_flags", "ld_flags"]
STDS = ["cxxstd", "ccstd"]
SINGLES = ["optimize", "debug", "builddir", "toolchain"]
OPTS = LISTS + TEXTS + STDS + SINGLES
PREFIX = {"defines": "D", "include_paths": "inc", "libs": "l", "libdirs": "ld", "ldscripts": "scr", "cxx_flags": "-fx", "cc_flags": "-fc",
          "ld_flags": "-fl", "cxxstd": "x++", "ccstd": "cc", "optimize": "-O", "debug": "-g", "builddir": "bd", "toolchain": "tool"}
FILES = ["sources", "objects", "qt_moc", "qt_ui"]
CXX = ["cpp", "cxx", "cc"]


class Mod:
    """A module as declared by the harness."""

    def __init__(self, name, dir="", impl=None, **opts):
        self.name, self.dir, self.impl, self.opts = name, dir, impl, opts


def value(role, opt, n=1, sym=True):
    """a value of the right type for an option; its text is arbitrary"""
    def one(k):
        tag = "%s_%s_%d" % (role, opt, k)
        return PREFIX[opt] + (E.string(tag, 1, ALPH) if sym else role[:1] + str(k)) + "x"
    if opt in LISTS:
        return [one(k) for k in range(n)]
    if opt == "toolchain":
        return ("toolchain", one(0) + "-")
    if opt in TEXTS:
        return " ".join(one(k) for k in range(n))
    return one(0)


def give(m, opts, n=1, sym=True):
    for o in opts:
        m.opts[o] = value(m.name, o, n, sym)
    return m


def real(L, opts):
    """what is passed to licant (fresh objects)"""
    out = {}
    for k, v in opts.items():
        if isinstance(v, tuple) and v[0] == "toolchain":
            v = L.gcc_toolchain(v[1])
        elif isinstance(v, tuple) and v[0] == "clang":
            v = L.clang_toolchain()
        elif k == "modules":
            v = [L.submodule(*x) if isinstance(x, tuple) else L.submodule(x) for x in v]
        elif isinstance(v, list):
            v = list(v)
        out[k] = v
    return out


def declare(L, m):
    """declare module m from a script in its own directory"""
    def go():
        o = real(L, m.opts)
        if m.impl is None:
            L.module(m.name, **o)
        else:
            L.module(m.name, impl=m.impl, default=True, **o)
    if m.dir:
        run_in(L, m.dir, go)
    else:
        go()


def run_in(L, d, f):
    """execute f from a script in directory d"""
    cb = sys.modules.get("symx_callback")
    if cb is None:
        cb = sys.modules["symx_callback"] = types.ModuleType("symx_callback")
        cb.fs = []
    cb.fs.append(f)
    p = "/vfs/w/%s/script%d.py" % (d, len(cb.fs))
    if "/vfs/w/" + d not in ENV.vfs.nodes:
        ENV.vfs.dir("/vfs/w/" + d, parents=True)
    ENV.vfs.file(p, "import symx_callback\nsymx_callback.fs[%d]()\n" % (len(cb.fs) - 1), mtime=1)
    L.execute("%s/script%d.py" % (d, len(cb.fs)))


# ------------------------------------------------------------------------------------------ reference
def j(*p):
    return posixpath.normpath(posixpath.join("/vfs/w", *[x for x in p if x != ""]))


class Ref:
    """Options of a module after all contributions, by the documented rules."""

    def __init__(self, lib):
        self.lib = lib            # name -> Mod
        self.units = []           # (module name, sources, options)

    def start(self, tool=("", "cc", "c++", "ar")):
        o = {k: [] for k in LISTS}
        o.update({k: [] for k in TEXTS})
        o.update(cxxstd="c++17", ccstd="c11", optimize="", debug="-g", builddir="build", toolchain=tool, target="target")
        return o

    def contribution(self, m, k):
        v = m.opts.get(k)
        if v is None:
            return []
        if k in ("include_paths", "ldscripts"):
            return [j(m.dir, x) for x in v]
        if k in TEXTS:
            return S.m_split(v)
        return list(v)

    def files(self, m, k):
        return [j(m.dir, m.opts.get("srcdir", ""), x) for x in m.opts.get(k, [])]

    def headers(self, m):
        return [(a, j(m.dir, b)) for a, b in m.opts.get("local_headers", [])]

    def own(self, base, m):
        o = dict(base)
        for k in LISTS + TEXTS:
            o[k] = list(base[k]) + self.contribution(m, k)
        for k in STDS + SINGLES + ["target"]:
            if k in m.opts:
                o[k] = m.opts[k]
        for k in FILES:
            o[k] = self.files(m, k)
        o["local_headers"] = base.get("local_headers", []) + self.headers(m)
        o["ui_dir"] = base.get("ui_dir", []) + ([j("", o["builddir"], "ui")] if o["qt_ui"] else [])
        o["modules"] = list(m.opts.get("modules", []))
        o["depends"] = list(m.opts.get("depends", []))
        o["type"] = m.opts.get("type", "objects")
        return o

    def include(self, o, m):
        for k in LISTS + TEXTS:
            o[k] = o[k] + self.contribution(m, k)
        for k in STDS:
            if k in m.opts:
                o[k] = m.opts[k]
        for k in FILES:
            o[k] = o[k] + self.files(m, k)
        o["local_headers"] = o["local_headers"] + self.headers(m)
        if o["qt_ui"]:
            o["ui_dir"] = o["ui_dir"] + [j("", o["builddir"], "ui")]
        o["modules"] = o["modules"] + list(m.opts.get("modules", []))

    def includes(self, o, names):
        for x in names:
            m = self.lib[x[0] if isinstance(x, tuple) else x]
            self.include(o, m)
            self.includes(o, m.opts.get("include_modules", []))

    def resolve(self, m, base):
        o = self.own(base, m)
        self.includes(o, m.opts.get("include_modules", []))
        for d in m.opts.get("mdepends", []):
            self.include(o, self.lib[d[0] if isinstance(d, tuple) else d])
        return o

    def build(self, m, base):
        """-> names of what the module hands to its parent; records the units"""
        o = self.resolve(m, base)
        u = {"name": m.name, "opts": o, "parts": []}
        self.units.append(u)
        bd = j("", o["builddir"])
        u["parts"] = [("obj", s, bd) for s in o["sources"]] + [("moc", s, bd) for s in o["qt_moc"]]
        u["own"] = len(u["parts"])
        u["parts"] += [("file", p, bd) for p in o["objects"]]
        for s in o["modules"]:
            u["parts"] += self.build(self.lib[s[0] if isinstance(s, tuple) else s], o)
        if o["type"] == "objects":
            return u["parts"]
        u["out"] = j("", o["target"])
        return [("file", u["out"], bd)]


def tools(o):
    """(cc, cxx, ar) of the options"""
    t = o["toolchain"]
    if t[0] == "toolchain":
        return t[1] + "gcc", t[1] + "g++", t[1] + "ar"
    return t[1:]


# ------------------------------------------------------------------------------------------ commands
class Cmd:
    """one parsed compiler, linker or archiver command"""

    def __init__(self, text):
        self.text = text
        ws = [w for w in (S.m_split(text) if isinstance(text, str) else list(text)) if w != ""]
        self.prog, ws = ws[0], ws[1:]
        self.out, self.I, self.D, self.L, self.l, self.T, self.std, self.inputs, self.flags = None, [], [], [], [], [], [], [], []
        self.c = self.mm = self.shared = False
        if self.prog.split("/")[-1] in ("moc", "uic", "cp"):
            self.mode = "gen"
            ws = [w for w in ws if w != ">" and not S.sub_at(w, "-", 0)]
            self.inputs, self.out = ws[:1], ws[-1].lstrip(">")
            return
        if self.prog.endswith("ar"):
            self.mode = ws[0].lstrip("-")
            self.out, self.inputs = ws[1], ws[2:]
            return
        self.mode = None
        i = 0
        while i < len(ws):
            w = ws[i]

            def arg(k):
                nonlocal i
                if len(w) > k:
                    return w[k:]
                i += 1
                return ws[i]
            if w == "-c":
                self.c = True
            elif w in ("-MM", "-M"):
                self.mm = True
            elif w in ("--shared", "-shared"):
                self.shared = True
            elif w.startswith("-Wl,"):
                pass
            elif w.startswith("-std="):
                self.std.append(w[5:])
            elif w.startswith("-I"):
                self.I.append(arg(2))
            elif w.startswith("-D"):
                self.D.append(arg(2))
            elif w.startswith("-L"):
                self.L.append(arg(2))
            elif w.startswith("-l"):
                self.l.append(arg(2))
            elif w.startswith("-T"):
                self.T.append(arg(2))
            elif w.startswith("-o"):
                self.out = arg(2)
            elif w.startswith(">"):
                self.out = arg(1)
            elif w.startswith("-MF"):
                self.out = arg(3)
            elif w.startswith("-"):
                self.flags.append(w)
            else:
                self.inputs.append(w)
            i += 1

    @property
    def kind(self):
        if self.mode == "gen":
            return self.prog.split("/")[-1]
        if self.mode is not None:
            return "ar"
        return "dep" if self.mm else "cc" if self.c else "ld"


class Recorder:
    """runs all commands successfully, keeps them parsed"""

    def __init__(self):
        self.cmds = []
        ENV.vfs.clock = 50
        ENV.handler = self

    def __call__(self, text):
        c = Cmd(text)
        self.cmds.append(c)
        out = j("", c.out)

        def eff():
            ENV.vfs.write(out, "x.o: %s\n" % c.inputs[0] if c.kind == "dep" else "made")
        return Proc(0, effect=eff)

    def of(self, kind):
        return [c for c in self.cmds if c.kind == kind]


def paths(xs):
    return [j("", x) for x in xs]


def same(a, b):
    return S.deq(list(a), list(b))


def gendirs(o):
    """directories of generated headers: the ones that the options must and may name"""
    must = list(o["ui_dir"])
    may = list(must)
    if o["local_headers"]:
        must.append(j("", o["builddir"], "__LOCAL_HEADERS__"))
    # an ancestor with another build directory has one of its own
    may += must + ["/vfs/w/%s/__LOCAL_HEADERS__" % x for x in o.get("old_builddirs", [])]
    return {"must": must, "may": may}


def check_compile(c, o, src, det):
    """c compiles src with the options o"""
    ext = src.rsplit(".", 1)[-1]
    cxx = ext in CXX
    cc_, cxx_, _ = tools(o)
    E.check(S.s_eq(c.prog, cxx_ if cxx else cc_), "compiler-of-the-toolchain", lambda: "%s: %s" % (src, det(c)))
    gen = gendirs(o)
    inc = []
    for x in paths(c.I):
        if (x.endswith("/ui") or x.endswith("/__LOCAL_HEADERS__")) and any(S.s_eq(x, g) for g in gen["may"]):
            gen["must"] = [g for g in gen["must"] if not S.s_eq(x, g)]
        else:
            inc.append(x)
    E.check(same(inc, o["include_paths"]), "include-paths", lambda: "%s: %s want %s" % (src, det(c), o["include_paths"]))
    E.check(not gen["must"], "generated-include-paths", lambda: "%s: %s %s" % (src, gen, det(c)))
    E.check(same(c.D, o["defines"]), "defines", lambda: det(c))
    E.check(same(c.std, [o["cxxstd"] if cxx else o["ccstd"]]), "language-standard", lambda: det(c))
    want = S.m_split(o["debug"]) + (o["cxx_flags"] if cxx else o["cc_flags"])
    opt = S.m_split(o["optimize"])
    fl = list(c.flags)
    if c.kind == "dep":
        ok = same(fl, want) or same(fl, want + opt) or same(fl, opt + want)
    else:
        ok = same(fl, want + opt) or same(fl, opt + want) or same(fl, want[:1] + opt + want[1:])
    E.check(ok, "flags", lambda: "want %s %s: %s" % (want, opt, det(c)))
    E.check(not c.L and not c.l and not c.T, "nothing-else", lambda: det(c))


def check_units(ref, rec, det0):
    """the commands are exactly those of the reference"""
    def det(c):
        return "%s of %s" % (c.text, det0())
    objs, moc = {}, {}
    used = {}
    for u in ref.units:
        for k, x, *b in u["parts"][:u["own"]]:
            used[x] = used.get(x, 0) + 1
    cc = rec.of("cc")
    n = 0
    for u in ref.units:
        o = u["opts"]
        bd = j("", o["builddir"])
        u["objs"] = []
        for g, tool in ((o["qt_ui"], "uic"), (o["qt_moc"], "moc")):
            for x in g:
                cs = [c for c in rec.of(tool) if S.s_eq(j("", c.inputs[0]), x) and S.sub_at(j("", c.out), bd + "/", 0)]
                E.check(len(cs) == 1, "generated-once", lambda: "%s: %s of %s" % (x, [c.text for c in rec.cmds], det0()))
                if tool == "moc":
                    moc[x] = j("", cs[0].out)
        for a, b in o["local_headers"]:
            d = j("", o["builddir"], "__LOCAL_HEADERS__", a)
            E.check(any(S.s_eq(j("", c.out), d) and S.s_eq(j("", c.inputs[0]), b) for c in rec.of("cp")), "local-header-copied",
                    lambda: "%s -> %s: %s of %s" % (b, d, [c.text for c in rec.cmds], det0()))
        for s in [x if k == "obj" else moc[x] for k, x, b in u["parts"][:u["own"]]]:
            used.setdefault(s, 1)
            cs = [c for c in cc if len(c.inputs) == 1 and S.s_eq(j("", c.inputs[0]), s)]
            if used[s] > 1:
                # compiled once for each module that has it, in build directories of their own
                E.check(len(cs) == used[s], "compiled-once-for-each-use", lambda: "%s: %s of %s" % (s, [c.text for c in cs], det0()))
                cs = [c for c in cs if S.sub_at(j("", c.out), bd + "/", 0)]
            E.check(len(cs) == 1, "every-source-compiled-once", lambda: "%s: %s of %s" % (s, [c.text for c in cs], det0()))
            c = cs[0]
            n += 1
            check_compile(c, o, s, det)
            out = j("", c.out)
            E.check(S.sub_at(out, bd + "/", 0), "object-in-the-build-directory", lambda: det(c))
            objs[bd, s] = out
            for d in rec.of("dep"):
                if len(d.inputs) == 1 and S.s_eq(j("", d.inputs[0]), s) and (
                        used[s] == 1 or S.sub_at(j("", d.out), bd + "/", 0)):
                    check_compile(d, o, s, det)
    E.check(len(cc) == n, "nothing-else-compiled", lambda: "%s: %s" % ([c.text for c in cc], det0()))
    outs = list(objs.values())
    E.check(len(set(outs)) == len(outs), "objects-differ", lambda: str(objs))
    ldar = rec.of("ld") + rec.of("ar")
    m = 0
    for u in ref.units:
        if "out" not in u:
            continue
        o = u["opts"]
        cs = [c for c in ldar if S.s_eq(j("", c.out), u["out"])]
        E.check(len(cs) == 1, "one-link-command", lambda: "%s: %s" % (u["out"], [c.text for c in ldar]))
        c = cs[0]
        m += 1
        want = [objs[b, x] if k == "obj" else objs[b, moc[x]] if k == "moc" else x for k, x, b in u["parts"]]
        E.check(same(paths(c.inputs), want), "links-every-object-in-order", lambda: "want %s: %s" % (want, det(c)))
        cc_, cxx_, ar_ = tools(o)
        if o["type"] == "static_library":
            E.check(c.kind == "ar" and S.s_eq(c.prog, ar_) and "r" in c.mode and "c" in c.mode, "archiver", lambda: det(c))
            continue
        E.check(c.kind == "ld" and S.s_eq(c.prog, cxx_), "linker-of-the-toolchain", lambda: det(c))
        E.check(c.shared == (o["type"] == "shared_library"), "shared", lambda: det(c))
        E.check(same(c.l, o["libs"]), "libraries", lambda: det(c))
        E.check(same(c.L, o["libdirs"]), "library-directories", lambda: det(c))
        E.check(same(paths(c.T), o["ldscripts"]), "linker-scripts", lambda: det(c))
        E.check(same(c.flags, o["ld_flags"]), "link-flags", lambda: det(c))
        E.check(not c.I and not c.D and not c.std, "nothing-else", lambda: det(c))
    E.check(len(ldar) == m, "nothing-else-linked", lambda: str([c.text for c in ldar]))
