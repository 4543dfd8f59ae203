"""Run-time of the instrumented code: the functions that the AST transformation calls."""
import builtins
import collections
import functools
import operator
import os
import re
import types

from . import rx
from . import strings as S
from .engine import E, SymBool, SymNum

has_tok = S.has_tok

_SAFE = {"join", "format", "format_map", "encode", "__str__", "__len__", "__add__", "__iter__", "__getitem__"}


def call(obj, name, *args, **kw):
    if E.ntok == 0:
        return getattr(obj, name)(*args, **kw)
    t = type(obj)
    if issubclass(t, str):
        if has_tok(obj) or has_tok(args) or (name == "join" and args):
            f = S.METHODS.get(name)
            if f is None:
                if name in ("__class__", "__hash__"):
                    return getattr(obj, name)(*args, **kw)
                if hasattr(str, name):      # decide the characters
                    return getattr(S.conc(obj), name)(*S.conc(args), **kw)
                E.unsupported("str.%s" % name)
            return f(obj, *args, **kw)
        if name in ("format", "format_map"):
            return getattr(obj, name)(*args, **kw)
    elif issubclass(t, dict):
        f = S.DICT.get(name)
        if f is not None and (getattr(t, name, None) is getattr(dict, name) or t in S.DICTS):
            return f(obj, *args, **kw)
        if t is collections.Counter and (has_tok(args) or has_tok(list(obj))):
            f = S.COUNTER.get(name)
            if f is not None:
                return f(obj, *args, **kw)
    elif issubclass(t, (set, frozenset)):
        f = S.SET.get(name)
        if f is not None:
            return f(obj, *args, **kw)
    elif issubclass(t, (list, collections.deque)):
        f = S.LIST.get(name)
        if f is not None and (has_tok(obj) or has_tok(args)):
            return f(obj, *args, **kw)
    elif obj is os.environ and name in ("get", "__getitem__", "__contains__", "pop", "setdefault"):
        if has_tok(args[:1]):
            k = S.find_key(dict(obj), args[0])
            if k is not S._none:
                args = (k,) + args[1:]
    elif t is collections.ChainMap and name == "get":
        for m in obj.maps:
            k = S.find_key(m, args[0])
            if k is not S._none:
                return m[k]
        return args[1] if len(args) > 1 else kw.get("default")
    elif t is bytes:
        if E.ntok and has_tok(args):
            E.unsupported("bytes.%s" % name)
    elif t is re.Pattern:
        if has_tok(args) or has_tok(obj.pattern):
            return rx.pat_call(obj, name, args, kw)
    elif t is types.ModuleType or issubclass(t, types.ModuleType):
        if obj is re and name in rx.MOD:
            if has_tok(args):
                return rx.mod_call(name, args, kw)
            if args and type(args[0]) is re.Pattern and has_tok(args[0].pattern):
                return rx.mod_call(name, args, kw)
        return ncall(getattr(obj, name), *args, **kw)
    elif t is type:
        if obj is str and args and isinstance(args[0], str) and name != "maketrans":
            return call(args[0], name, *args[1:], **kw)
        if (obj is dict or obj is collections.OrderedDict) and args:
            if name == "fromkeys" and obj is collections.OrderedDict:
                return collections.OrderedDict(S.b_fromkeys(*args))
            if name == "fromkeys":
                return S.b_fromkeys(*args)
            if isinstance(args[0], dict) and name in S.DICT:
                return S.DICT[name](*args, **kw)
        if obj is set and args and isinstance(args[0], (set, frozenset)) and name in S.SET:
            return S.SET[name](*args, **kw)
    return getattr(obj, name)(*args, **kw)


_BI = types.BuiltinFunctionType
_DESCR = (types.MethodDescriptorType, types.WrapperDescriptorType, types.ClassMethodDescriptorType)
_CONC = {"_heapq", "_bisect", "math", "unicodedata", "binascii", "_hashlib", "_struct", "zlib", "_string", "_locale"}


def ncall(f, *args, **kw):
    """call of a plain name"""
    try:
        g = S.NUM_BUILTINS.get(f)
    except TypeError:
        return f(*args, **kw)
    if g is not None:
        return g(*args, **kw)
    if E.ntok == 0:
        return f(*args, **kw)
    g = S.BUILTINS.get(f)
    if g is not None:
        return g(*args, **kw)
    t = type(f)
    if isinstance(f, _BI):
        s = f.__self__
        if isinstance(s, (str, dict, set, frozenset, list, re.Pattern, collections.deque)):
            return call(s, f.__name__, *args, **kw)
        if f.__module__ in _CONC and has_tok(args):
            return f(*S.conc(args), **kw)
    elif t is types.FunctionType:
        return f(*args, **kw)
    elif t is types.MethodWrapperType:
        return call(f.__self__, f.__name__, *args, **kw)
    elif t in _DESCR:
        if args and issubclass(f.__objclass__, (str, dict, set, frozenset, list, re.Pattern, collections.deque)):
            return call(args[0], f.__name__, *args[1:], **kw)
    elif t is functools.partial:
        return ncall(f.func, *f.args, *args, **{**f.keywords, **kw})
    elif t is operator.methodcaller:
        return call(args[0], *S.methodcaller_args(f)[0], **S.methodcaller_args(f)[1])
    elif t is operator.itemgetter:
        ks = f.__reduce__()[1]
        r = tuple(S.getitem(args[0], k) for k in ks)
        return r[0] if len(ks) == 1 else r
    elif t is S.EnumMeta and len(args) == 1 and not kw and has_tok(args):
        for m in f:
            if eq(m.value, args[0]):
                return m
        return f(*args)
    return f(*args, **kw)


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return lru_cache(128)(maxsize)

    def deco(f):
        memo = []

        @functools.wraps(f)
        def g(*a, **k):
            key = (a, tuple(sorted(k.items())))
            for kk, v in memo:
                if S.deq(kk, key) if E.ntok else kk == key:
                    return v
            hash(key)
            v = f(*a, **k)
            memo.append((key, v))
            if maxsize is not None and len(memo) > maxsize:
                del memo[0]
            return v
        g.cache_clear = memo.clear
        g.cache_info = lambda: (0, 0, maxsize, len(memo))
        return g
    return deco


def fmt(x):
    """a value in braces of an f-text"""
    if E.ntok and isinstance(x, (list, tuple, dict, set, frozenset)) and S.deep_tok(x):
        return S.b_str(x)
    return x


def true(x):
    return True


def mseq(x, before, after):
    """the items of a sequence pattern with `before` items, or with a star and `after` more; None: no match"""
    import collections.abc
    if isinstance(x, (str, bytes, bytearray)) or not isinstance(x, collections.abc.Sequence) and not isinstance(x, collections.deque):
        return None
    n = len(x)
    if after < 0:
        return [x[i] for i in range(n)] if n == before else None
    if n < before + after:
        return None
    xs = [x[i] for i in range(n)]
    return xs[:before] + [xs[before:n - after]] + xs[n - after:]


def mmap(x, keys, rest):
    import collections.abc
    if not isinstance(x, collections.abc.Mapping):
        return None
    d = dict(x)
    out = []
    for k in keys:
        kk = S.find_key(d, k)
        if kk is S._none:
            return None
        out.append(d.pop(kk))
    return out + [d] if rest else out


def mcls(x, cls, npos, names):
    if not isinstance(x, cls):
        return None
    out = []
    if npos:
        if cls in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple):
            out.append(x)
        else:
            names = tuple(cls.__match_args__[:npos]) + tuple(names)
    for n in names:
        if not hasattr(x, n):
            return None
        out.append(getattr(x, n))
    return out


def w(d):
    """container of a subscript"""
    if E.ntok and isinstance(d, dict) and type(d).__getitem__ is dict.__getitem__:
        return S.DictView(d)
    if d is os.environ and E.ntok:
        return S.EnvView(d)
    if E.ntok and type(d) is collections.ChainMap:
        r = {}
        for m in reversed(d.maps):
            S.d_update(r, m)
        return S.DictView(r)
    return d


def eq(a, b):
    if E.ntok and (has_tok(a) or has_tok(b) or isinstance(a, dict) and isinstance(b, dict) or S.is_sym_bytes(a) or S.is_sym_bytes(b)):
        return S.deq(a, b)
    return a == b


def ne(a, b):
    if E.ntok and (has_tok(a) or has_tok(b) or isinstance(a, dict) and isinstance(b, dict) or S.is_sym_bytes(a) or S.is_sym_bytes(b)):
        return not S.deq(a, b)
    return a != b


def _sets(a, b):
    return isinstance(a, (set, frozenset, S.KEYS)) and isinstance(b, (set, frozenset, S.KEYS))


def _lt(a, b):
    if E.ntok and (has_tok(a) or has_tok(b)):
        if _sets(a, b):
            return S.s_issubset(a, b) and not S.s_issubset(b, a)
        return S.lt(a, b)
    return a < b


def _gt(a, b):
    if E.ntok and (has_tok(a) or has_tok(b)):
        if _sets(a, b):
            return _lt(b, a)
        return S.lt(b, a)
    return a > b


def _le(a, b):
    if E.ntok and (has_tok(a) or has_tok(b)):
        if _sets(a, b):
            return S.s_issubset(a, b)
        return not S.lt(b, a)
    return a <= b


def _ge(a, b):
    if E.ntok and (has_tok(a) or has_tok(b)):
        if _sets(a, b):
            return S.s_issubset(b, a)
        return not S.lt(a, b)
    return a >= b


def _in(a, b):
    if E.ntok:
        return S.contains(b, a)
    return a in b


def _notin(a, b):
    if E.ntok:
        return not S.contains(b, a)
    return a not in b


def _is(a, b):
    if type(a) is SymBool and (b is True or b is False):
        return SymBool(a.e == b)
    if type(b) is SymBool and (a is True or a is False):
        return SymBool(b.e == a)
    return a is b


def _isnot(a, b):
    r = _is(a, b)
    return ~r if type(r) is SymBool else not r


def _binop(native, inative, f):
    def op(a, b):
        return f(a, b) if E.ntok and isinstance(a, (set, frozenset, dict, S.KEYS)) else native(a, b)

    def iop(a, b):
        return f(a, b, True) if E.ntok and isinstance(a, (set, frozenset, dict)) else inative(a, b)
    return op, iop


def items(d):
    """** in a display"""
    return list(d.items()) if hasattr(d, "items") else [(k, d[k]) for k in d.keys()]


BINOPS = {"BitOr": _binop(operator.or_, operator.ior, S.b_or), "BitAnd": _binop(operator.and_, operator.iand, S.b_and),
          "Mod": (lambda a, b: S.b_mod(a, b), lambda a, b: S.b_mod(a, b, True)),
          "Sub": _binop(operator.sub, operator.isub, S.b_sub), "BitXor": _binop(operator.xor, operator.ixor, S.b_xor)}
OPS = {"Eq": eq, "NotEq": ne, "Lt": _lt, "LtE": _le, "Gt": _gt, "GtE": _ge, "In": _in, "NotIn": _notin,
       "Is": _is, "IsNot": _isnot}


def mkset(xs):
    return S.b_set(xs) if E.ntok else set(xs)


def mkdict(kvs):
    return S.b_dict(kvs) if E.ntok else dict(kvs)


def enter(name):
    E.fns.add(name)
