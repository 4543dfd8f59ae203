import os, re, glob, fnmatch, itertools, functools, operator, collections, shlex, pathlib, string, json, copy, textwrap
from collections import OrderedDict, Counter, defaultdict, deque, namedtuple, ChainMap
from dataclasses import dataclass, field
from enum import Enum
from functools import lru_cache, reduce, partial
from types import SimpleNamespace
import heapq, bisect

def f_match(s, t):
    match s:
        case "a": return 1
        case "b" | ".": return 2
        case x if x.startswith("a"): return 3
        case _: return 4
def f_match2(s, t):
    match s.split("/"):
        case ["a", x]: return "A" + x
        case [x]: return "B" + x
        case ["", *rest]: return rest
        case _: return None
def f_match3(s, t):
    match (s, t):
        case ("a", "b"): return 1
        case (x, "a"): return x
    match {"k": s}:
        case {"k": "a"}: return 9
    return 0
def f_matchcls(s, t):
    class P:
        __match_args__ = ("x",)
        def __init__(self, x): self.x = x
    match P(s):
        case P("a"): return 1
        case P(x="b"): return 2
        case str(): return 3
        case P(y): return y
def f_map1(s, t): return list(map(str.strip, s.split("/")))
def f_map2(s, t): return list(map(os.path.basename, [s, t]))
def f_filter(s, t): return list(filter(lambda x: x != "a", s.split("/")))
def f_filter2(s, t): return list(filter(None, s.split("/")))
def f_filterfalse(s, t): return list(itertools.filterfalse(lambda x: x == ".", s.split("/")))
def f_takewhile(s, t): return "".join(itertools.takewhile(lambda c: c != "/", s)), list(itertools.dropwhile(lambda c: c == "/", s))
def f_groupby(s, t): return [(k, len(list(g))) for k, g in itertools.groupby(s)]
def f_groupby2(s, t): return [(k, len(list(g))) for k, g in itertools.groupby(s, key=lambda c: c == "/")]
def f_counter(s, t): return sorted(Counter(s).items())
def f_counter2(s, t): return Counter([s, t, "a"])["a"]
def f_defaultdict(s, t):
    d = defaultdict(list); d[s].append(1); d[t].append(2); d["a"].append(3)
    return sorted(d.values())
def f_od(s, t):
    d = OrderedDict(); d[s] = 1; d[t] = 2; d["a"] = 3
    return list(d.items()), s in d, d.get(t), "b" in d
def f_fromkeys(s, t): return list(dict.fromkeys([s, t, "a"])), list(OrderedDict.fromkeys([s, t, "a"]))
def f_deque(s, t):
    q = deque([s, t]); r = "a" in q; return r, q.count("a"), s in q
def f_chainmap(s, t):
    m = ChainMap({s: 1}, {t: 2}, {"a": 3}); return m["a"], m.get("b"), "b" in m
def f_nt(s, t):
    P = namedtuple("P", "x y"); return P(s, t) == P("a", "b"), P(s, t) == P(t, s)
@dataclass
class D:
    x: str
    y: str = ""
@dataclass(frozen=True, order=True)
class DF:
    x: str
    y: str = ""
def f_dc(s, t): return D(s, t) == D("a", "b"), D(s) == D(t)
def f_dcf(s, t): return DF(s, t) == DF("a", "b"), len({DF(s), DF(t), DF("a")}), DF(s) < DF(t), DF(s) in {DF("a"): 1}
class En(Enum):
    A = "a"
    B = "b"
def f_enum(s, t):
    try: return En(s).name
    except ValueError: return None
@lru_cache(maxsize=None)
def _c(x): return len(x), x.count("/")
def f_lru(s, t): return _c("a"), _c(s), _c(t), _c("/")
_memo = {}
def f_memo(s, t):
    _memo.clear()
    for x in (s, t, "a"):
        if x not in _memo: _memo[x] = len(_memo)
    return [_memo[s], _memo[t], _memo["a"]]
def f_reduce(s, t): return reduce(lambda a, b: a + b.replace("/", "_"), [s, t], "")
def f_reduce2(s, t): return reduce(operator.add, s.split("/")), functools.reduce(os.path.join, [s, t])
def f_op(s, t): return operator.eq(s, t), operator.contains(s, "a"), operator.ne(s, "a"), operator.lt(s, t), operator.itemgetter(s)({"a": 1, s: 2})
def f_methodcaller(s, t): return list(map(operator.methodcaller("strip", "/"), [s, t]))
def f_attrgetter(s, t): return operator.attrgetter("x")(SimpleNamespace(x=s)) == "a", SimpleNamespace(x=s) == SimpleNamespace(x=t)
def f_partial(s, t): return partial(os.path.join, "x")(s), partial(operator.eq, "a")(s), partial(str.startswith, s)("a")
def f_bound(s, t):
    g = s.startswith; h = str.endswith
    return g("a"), h(s, "/"), [g(x) for x in ("a", "/")]
def f_sorted(s, t): return sorted([s, t, "a"]), sorted([s, t, "a"], key=len), sorted([s, t], key=str.lower, reverse=True), min(s, t), max([s, t, "a"])
def f_sortkey(s, t): return sorted([s, t, "a"], key=lambda x: (x != "a", x))
def f_any(s, t): return any(c == "/" for c in s), all(c in "ab" for c in s), any(map(s.__contains__, "./"))
def f_zip(s, t): return [a == b for a, b in zip(s, t)], list(enumerate(s.split("/")))
def f_set(s, t): return len({s, t}), len({s} | {t, "a"}), {s} & {"a"}, {s} <= {"a", t}, {s} == {t}, set(s) == set(t), {s, t} - {"a"}
def f_set2(s, t):
    x = {s}; x |= {t}; x.add("a"); x ^= {"b"}; return len(x), x.isdisjoint({"."}), not x.isdisjoint(["a"])
def f_setops(s, t): return {s}.union([t], ["a"]) == {"a"}, {s}.symmetric_difference({"a"}), set().union(*[[s], [t]]) == {s}
def f_dict(s, t):
    d = {s: 1}; d[t] = 2; d = {**d, "a": 3}; return d["a"], d.get("b", 0), len(d), t in d, d | {"b": 7} == d, d.pop(s), d.setdefault("c", s), d == {"a": 3}, sorted(d.keys()) == ["a"], sorted(d.keys() - {"a"})
def f_dictcomp(s, t): return len({k: 1 for k in (s, t, "a")}), {k: v for k, v in zip([s, t], [1, 2])}.get("a")
def f_walrus(s, t):
    if (n := s.find("/")) >= 0 and (m := s[n:]) != "/": return n, m
    return None
def f_tern(s, t): return "x" if s == "a" else "y" if s > t else "z"
def f_chain(s, t): return "a" <= s <= "b", "a" == s == t, s != t != "a"
def f_fstr(s, t): return f"{s}/{t!s:>4}|{len(s)}", "%s-%s" % (s, t), "{}{}".format(s, t), "{a}{b}".format(a=s, b=t), f"{s!r}" == "'a'", "%-4s|" % s, f"{s:<3}|"
def f_tmpl(s, t): return string.Template("$x/$y").substitute(x=s, y=t)
def f_slice(s, t): return s[1:], s[:-1], s[::-1], s[-1:] == "/", s[0] == "a" if s else None
def f_strm(s, t): return s.partition("/"), s.rpartition("."), s.split(".", 1), s.rsplit("/", 1), s.lstrip("./"), s.removeprefix("./"), s.removesuffix("/"), s.splitlines(), s.replace("/", "."), s.count("a"), s.index("a") if "a" in s else -1
def f_strm2(s, t): return s.startswith(("a", "/")), s.endswith((".", "b")), s.isalpha(), s.isalnum(), s.upper(), s.lower(), s.title(), s.capitalize(), s.swapcase(), s.zfill(4), s.center(5), s.casefold(), s.expandtabs()
def f_strm3(s, t): return s.isdigit(), s.isnumeric(), s.isdecimal(), s.istitle(), s.isprintable(), s.isspace(), s.isidentifier(), s.translate(str.maketrans("/", "_")), s.translate({47: None}), s.translate(str.maketrans({"/": "__", "a": None}))
def f_mod(s, t): return s * 2 == t, s + t == "ab", "ab".startswith(s), "ab".find(s), "a/b" .replace(s or "a", t), "/".join([s, t]).split("/")
def f_re(s, t): return bool(re.match(r"a+", s)), re.sub(r"/+", "/", s), re.split(r"[/.]", s), re.findall(r"[ab]", s), bool(re.fullmatch("[ab]*", s)), re.escape(s) == s, [m.start() for m in re.finditer("/", s)]
def f_re2(s, t):
    m = re.search(r"(?P<x>[^/]*)/(?P<y>.*)", s); return m and (m.group("x"), m["y"], m.groupdict(), m.span())
_P = re.compile("^[ab]")
def f_re3(s, t): return bool(_P.match(s)), _P.sub("X", s), re.sub("a", lambda m: m.group() * 2, s), list(filter(_P.match, [s, t])), bool(re.search(re.escape(t), s))
def f_fn(s, t): return fnmatch.fnmatch(s, "a*"), fnmatch.filter([s, t], "*.a"), fnmatch.fnmatchcase(s, t)
def f_path(s, t): return os.path.join(s, t), os.path.normpath(s), os.path.dirname(s), os.path.basename(s), os.path.splitext(s), os.path.split(s), os.path.isabs(s), os.path.relpath(s or "a", "/vfs"), os.path.commonprefix([s, t])
def f_path2(s, t):
    try: c = os.path.commonpath([os.path.abspath(s), os.path.abspath(t)])
    except ValueError: c = None
    return c, os.path.abspath(s), os.path.expanduser(s), os.fspath(s), os.path.expandvars(s)
def f_plib(s, t):
    p = pathlib.PurePosixPath(s); return str(p), p.name, p.suffix, p.stem, str(p.parent), p.parts, str(p / t), p.is_absolute(), p == pathlib.PurePosixPath(t), p.as_posix(), str(p.with_name("q")) if p.name else None
def f_plib2(s, t):
    p = pathlib.Path(s); q = pathlib.Path("/x") ; return str(q / p), p.match("*.a") if s.strip("/.") else None, str(q.joinpath(s, t)), q in (q / s).parents
def f_shlex(s, t): return shlex.quote(s), shlex.split(s.replace("'", "")), shlex.join([s, t])
def f_json(s, t): return json.loads(json.dumps({"k": s}))["k"] == s
def f_heap(s, t):
    h = [s, t, "a"]; heapq.heapify(h); return [heapq.heappop(h) for _ in range(3)]
def f_bisect(s, t): return bisect.bisect(["a", "b"], s)
def f_list(s, t):
    l = [s, t, "a"]; i = l.index("a"); l.remove("a"); l.sort(); r = (i, l, l.count("b"), "b" in l, [s] == ["a"], [s] < [t], (s, 1) < (t, 0), (s,) == ("a",))
    l[:] = [x for x in l if x not in ("a", t)]; return r, l
def f_del(s, t):
    d = {"a": 1, "b": 2}
    if s in d: del d[s]
    try: d[t]
    except KeyError: return d, "k"
    return d
def f_gen(s, t):
    def g():
        for c in s:
            if c == "/": return
            yield c
    return list(g()), next((c for c in t if c != "a"), None), next(iter(s), None)
def f_try(s, t):
    try: return {"a": 1}[s]
    except KeyError as e: return e.args[0]
    finally: pass
def f_int(s, t):
    try: return int(s)
    except ValueError: return None
def f_star(s, t):
    a, *b = s.split("/"); (x, y), z = (s, t), 1; return a, b, x == y
def f_lambda(s, t): return (lambda *a, **k: [x == "a" for x in a] + sorted(k.items()))(s, t, q=s)
def f_class(s, t):
    class K:
        def __init__(self, v): self.v = v
        def __eq__(self, o): return self.v == o.v
        def __hash__(self): return hash(self.v)
        def __lt__(self, o): return self.v < o.v
        def __contains__(self, x): return x in self.v
        def __getitem__(self, i): return self.v[i]
        def __call__(self, x): return x == self.v
        def __str__(self): return "K" + self.v
    return K(s) == K(t), len({K(s), K(t)}), K(s) in [K("a")], "a" in K(s), K(s)("a"), str(K(s)), K(s) in {K("a")}, {K("a"): 1}.get(K(s)), [k.v for k in sorted([K(s), K("a")])]
def f_prop(s, t):
    class K:
        @property
        def p(self): return s == "a"
        @staticmethod
        def q(x): return x == "a"
        @classmethod
        def r(cls, x): return x != "a"
    k = K(); setattr(k, "z", s); return k.p, k.q(s), K.r(t), getattr(k, "z") == t, vars(k)["z"] == "a", k.__dict__.get("z") == "b"
def f_tokey(s, t):
    d = {(s, 1): 1, ("a", 1): 2}; return d[(s, 1)], len(d), d.get(("b", 1)), (t, 1) in d, {frozenset([s])} == {frozenset(["a"])}
def f_bytes(s, t): return s.encode() == b"a", s.encode("utf-8").decode() == s, os.fsencode(s) == os.fsencode(t)
def f_hash(s, t):
    if hash(s) == hash("a"): return True
    return False
def f_cond(s, t):
    if not s: return 0
    while s and s[0] == "/": s = s[1:]
    else: s = s + "!"
    return s, bool(s), s or t, s and t, not t
def f_assert(s, t):
    try: assert s != "a", "msg"
    except AssertionError as e: return str(e)
def f_iter(s, t): return [c for c in reversed(s)], list(iter(s)), sum(1 for c in s if c in ("/", ".")), "".join(sorted(s)), tuple(s), dict(enumerate(s)) == {0: "a"}
def f_itertools(s, t): return list(itertools.chain(s, t)), list(itertools.chain.from_iterable([s, t])), [a + b for a, b in itertools.product(s, t)], list(itertools.accumulate(s)), list(itertools.compress("ab", [s == "a", t == "a"]))
def f_ctx(s, t):
    import contextlib
    with contextlib.suppress(KeyError): return {"a": 1}[s]
    return 0
def f_global(s, t):
    d = globals(); return d.get("f_" + s) is None, hasattr(os.path, s), getattr(SimpleNamespace(a=1), s, 0)
def f_isin(s, t): return s is t, isinstance(s, str), type(s) is str, s.__class__ is str, callable(s)
def f_copy(s, t):
    a = {"x": [s]}; b = copy.deepcopy(a); b["x"].append(t); return a != b, copy.copy(a) == a, b["x"] == ["a", "b"]
def f_nonlocal(s, t):
    n = 0
    def g(x):
        nonlocal n
        n += x == "a"
    g(s); g(t); return n
def f_strjoin(s, t): return "".join(c for c in s if c != "/"), " ".join(filter(None, [s, t])), str(s) + str([s] == [t]), repr(s) == repr(t)
def f_text(s, t): return textwrap.dedent(s), textwrap.indent(s, "x"), s.expandtabs()
def f_cmp(s, t): return s < t, s >= t, (s > t) - (s < t), sorted({s, t, "a"}), functools.cmp_to_key(lambda a, b: (a > b) - (a < b))(s) < functools.cmp_to_key(lambda a, b: (a > b) - (a < b))(t)
def f_unpack(s, t):
    def g(a, b="x", *c, **d): return a == "a", b, c, d
    return g(*[s, t], **{"k": s}), g(s), [*s, *t], {*s, *t} == {"a"}, {**{s: 1}, **{t: 2}}
def f_sw(s, t): return {"a": lambda: 1, "b": lambda: 2}.get(s, lambda: 3)()
def f_glob(s, t): return glob.escape(s), glob.has_magic(s)
def f_env(s, t):
    os.environ["a"] = "1"; r = os.environ.get(s), os.getenv(s, "d"), s in os.environ; del os.environ["a"]; return r
_fu = re.compile(r'[^\w@%+=:,./-]', re.ASCII).search
def f_zz(s, t): return _fu(t) is None, bool(_fu(s))
