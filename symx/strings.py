"""Strings whose characters may be symbolic.

A symbolic character is one code point in plane 15 (a "token") that stands for a z3 integer, so that
concatenation, slicing, joining and formatting done by the interpreter keep working.  Every operation
that looks at characters comes through here.
"""
import builtins
import collections
import heapq
import itertools
import operator
import os
import re
import functools
from enum import EnumMeta

import z3

from .engine import E, SymBool, SymNum, TOK0, TOKN

_tokre = re.compile("[\U000F0000-\U000FFFFD]")
WS = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xA0]


def has_tok(x):
    if E.ntok == 0:
        return False
    if isinstance(x, str):
        return not x.isascii() and _tokre.search(x) is not None
    if isinstance(x, (tuple, list, set, frozenset, collections.deque)):
        return any(has_tok(y) for y in x)
    return False


def deep_tok(x):
    """has_tok that looks into dictionaries, too"""
    if isinstance(x, dict):
        return any(deep_tok(k) or deep_tok(v) for k, v in x.items())
    if isinstance(x, (tuple, list, set, frozenset)):
        return any(deep_tok(y) for y in x)
    return has_tok(x)


def conc(x):
    """the same with all characters decided (this forks); lists are changed in place"""
    if isinstance(x, str):
        return "".join(chr(E.concretize(ex(c))) if is_tok(c) else c for c in x) if has_tok(x) else x
    if type(x) is tuple:
        return tuple(conc(y) for y in x)
    if type(x) is list:
        x[:] = [conc(y) for y in x]
    return x


def is_sym_bytes(b):
    return isinstance(b, SymText)


def is_tok(c):
    return TOK0 <= ord(c) <= TOKN


def ex(c):
    o = ord(c)
    return E.tokens[o - TOK0] if TOK0 <= o <= TOKN else o


def ceq_e(a, b):
    """Equality of two characters: python bool or z3 expr."""
    if a == b:
        return True
    ea, eb = ex(a), ex(b)
    if isinstance(ea, int) and isinstance(eb, int):
        return False
    return ea == eb


def ceq(a, b):
    r = ceq_e(a, b)
    return r if isinstance(r, bool) else E.branch(r)


def cin_e(c, chars):
    """c in a collection of code points / ranges."""
    e = ex(c)
    out = []
    for x in chars:
        if isinstance(x, tuple):
            lo, hi = x
            if isinstance(e, int):
                if lo <= e <= hi:
                    return True
            else:
                out.append(z3.And(e >= lo, e <= hi))
        else:
            if isinstance(x, str):
                r = ceq_e(c, x)
                if r is True:
                    return True
                if r is not False:
                    out.append(r)
                continue
            if isinstance(e, int):
                if e == x:
                    return True
            else:
                out.append(e == x)
    if not out:
        return False
    return z3.Or(*out)


def cin(c, chars):
    r = cin_e(c, chars)
    return r if isinstance(r, bool) else E.branch(r)


def s_eq_e(a, b):
    if a == b:
        return True
    if len(a) != len(b):
        return False
    es = []
    for x, y in zip(a, b):
        r = ceq_e(x, y)
        if r is False:
            return False
        if r is not True:
            es.append(r)
    return z3.And(*es) if es else True


def s_eq(a, b):
    r = s_eq_e(a, b)
    return r if isinstance(r, bool) else E.branch(r)


def eqe(a, b):
    """z3/python expression: string a equals string b (for properties)."""
    r = s_eq_e(a, b)
    return r


def seq_eq_e(xs, ys):
    """lists of strings equal"""
    if len(xs) != len(ys):
        return False
    es = []
    for a, b in zip(xs, ys):
        r = s_eq_e(a, b) if isinstance(a, str) and isinstance(b, str) else (a == b)
        if r is False:
            return False
        if r is not True:
            es.append(r)
    return z3.And(*es) if es else True


def deq(a, b):
    """Deep equality with symbolic strings."""
    if isinstance(a, str) and isinstance(b, str):
        return s_eq(a, b)
    if isinstance(a, SymText) or isinstance(b, SymText):
        x, y = [z.s if isinstance(z, SymText) else z.decode("utf-8", "replace") if isinstance(z, bytes) else None for z in (a, b)]
        return x is not None and y is not None and s_eq(x, y)
    if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(deq(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset, KEYS)) and isinstance(b, (set, frozenset, KEYS)):
        return len(a) == len(b) and all(any(deq(x, y) for y in b) for x in a)
    if isinstance(a, dict) and isinstance(b, dict) and type(a).__eq__ is type(b).__eq__ and type(a).__eq__ in (
            dict.__eq__, collections.OrderedDict.__eq__):
        if len(a) != len(b):
            return False
        if type(a).__eq__ is not dict.__eq__ and not deq(list(a), list(b)):
            return False
        for k in a:
            kk = find_key(b, k)
            if kk is _none or not deq(a[k], b[kk]):
                return False
        return True
    return a == b


def s_lt(a, b):
    for x, y in zip(a, b):
        if ceq(x, y):
            continue
        ea, eb = ex(x), ex(y)
        if isinstance(ea, int) and isinstance(eb, int):
            return ea < eb
        return E.branch(ea < eb)
    return len(a) < len(b)


def sub_at(s, sub, i):
    return len(s) - i >= len(sub) and s_eq(s[i:i + len(sub)], sub)


def find(s, sub, start=0, end=None):
    start, end, _ = slice(start, end).indices(len(s))
    for i in range(start, end - len(sub) + 1):
        if sub_at(s, sub, i):
            return i
    return -1


def rfind(s, sub, start=0, end=None):
    start, end, _ = slice(start, end).indices(len(s))
    for i in range(end - len(sub), start - 1, -1):
        if sub_at(s, sub, i):
            return i
    return -1


def m_startswith(s, pre, start=0, end=None):
    if isinstance(pre, tuple):
        return any(m_startswith(s, p, start, end) for p in pre)
    t = s[start:end]
    return sub_at(t, pre, 0)


def m_endswith(s, suf, start=0, end=None):
    if isinstance(suf, tuple):
        return any(m_endswith(s, p, start, end) for p in suf)
    t = s[start:end]
    return len(t) >= len(suf) and s_eq(t[len(t) - len(suf):], suf)


def m_index(s, sub, *a):
    i = find(s, sub, *a)
    if i < 0:
        raise ValueError("substring not found")
    return i


def m_rindex(s, sub, *a):
    i = rfind(s, sub, *a)
    if i < 0:
        raise ValueError("substring not found")
    return i


def m_count(s, sub, *a):
    n = i = 0
    if sub == "":
        return len(s) + 1
    while True:
        i = find(s, sub, i)
        if i < 0:
            return n
        n += 1
        i += len(sub)


def m_split(s, sep=None, maxsplit=-1):
    out = []
    if sep is None:
        i, n = 0, len(s)
        while True:
            while i < n and cin(s[i], WS):
                i += 1
            if i >= n:
                return out
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(m_rstrip(s[i:]))
                return out
            j = i
            while j < n and not cin(s[j], WS):
                j += 1
            out.append(s[i:j])
            i = j
    if sep == "":
        raise ValueError("empty separator")
    i = 0
    while maxsplit < 0 or len(out) < maxsplit:
        j = find(s, sep, i)
        if j < 0:
            break
        out.append(s[i:j])
        i = j + len(sep)
    out.append(s[i:])
    return out


def m_rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return m_split(s, sep)
    out = []
    if sep is None:
        j = len(s)
        while True:
            while j > 0 and cin(s[j - 1], WS):
                j -= 1
            if j == 0:
                return out
            if len(out) >= maxsplit:
                out.insert(0, s[:j].lstrip() if not has_tok(s) else m_lstrip(s[:j]))
                return out
            i = j
            while i > 0 and not cin(s[i - 1], WS):
                i -= 1
            out.insert(0, s[i:j])
            j = i
    j = len(s)
    while len(out) < maxsplit:
        i = rfind(s, sep, 0, j)
        if i < 0:
            break
        out.insert(0, s[i + len(sep):j])
        j = i
    out.insert(0, s[:j])
    return out


def m_splitlines(s, keepends=False):
    out = []
    i = 0
    n = len(s)
    j = 0
    br = [10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029]
    while j < n:
        if cin(s[j], br):
            e = j + 1
            if e < n and ceq(s[j], "\r") and ceq(s[e], "\n"):
                e += 1
            out.append(s[i:e] if keepends else s[i:j])
            i = j = e
        else:
            j += 1
    if i < n:
        out.append(s[i:])
    return out


def m_partition(s, sep):
    i = find(s, sep)
    if i < 0:
        return (s, "", "")
    return (s[:i], s[i:i + len(sep)], s[i + len(sep):])


def m_rpartition(s, sep):
    i = rfind(s, sep)
    if i < 0:
        return ("", "", s)
    return (s[:i], s[i:i + len(sep)], s[i + len(sep):])


def m_replace(s, old, new, count=-1):
    if old == "":
        return E.unsupported("replace of empty string")
    out = []
    i = 0
    n = 0
    while i < len(s):
        if (count < 0 or n < count) and sub_at(s, old, i):
            out.append(new)
            i += len(old)
            n += 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def m_lstrip(s, chars=None):
    cs = WS if chars is None else list(chars)
    i = 0
    while i < len(s) and cin(s[i], cs):
        i += 1
    return s[i:]


def m_rstrip(s, chars=None):
    cs = WS if chars is None else list(chars)
    j = len(s)
    while j > 0 and cin(s[j - 1], cs):
        j -= 1
    return s[:j]


def m_strip(s, chars=None):
    return m_rstrip(m_lstrip(s, chars), chars)


def m_removeprefix(s, p):
    return s[len(p):] if m_startswith(s, p) else s


def m_removesuffix(s, p):
    return s[:len(s) - len(p)] if p and m_endswith(s, p) else s


def _map(s, lo, hi, d):
    out = []
    for c in s:
        if not is_tok(c):
            out.append(c.lower() if d > 0 else c.upper())
        else:
            e = ex(c)
            out.append(E.token(z3.If(z3.And(e >= lo, e <= hi), e + d, e)))
    return "".join(out)


def m_lower(s):
    return _map(s, 65, 90, 32)


def m_upper(s):
    return _map(s, 97, 122, -32)


m_casefold = m_lower
_DIG = [(48, 57)]
_ALPHA = [(65, 90), (97, 122)]


def _all(s, cls, pyf):
    if not s:
        return False
    return all(cin(c, cls) if is_tok(c) else pyf(c) for c in s)


def m_isdigit(s):
    return _all(s, _DIG, str.isdigit)


m_isdecimal = m_isnumeric = m_isdigit


def m_isalpha(s):
    return _all(s, _ALPHA, str.isalpha)


def m_isalnum(s):
    return _all(s, _ALPHA + _DIG, str.isalnum)


def m_isspace(s):
    return _all(s, WS, str.isspace)


def m_isidentifier(s):
    if not s:
        return False
    return cin(s[0], _ALPHA + [95]) and all(cin(c, _ALPHA + _DIG + [95]) for c in s[1:])


def m_find(s, sub, *a):
    return find(s, sub, *a)


def m_rfind(s, sub, *a):
    return rfind(s, sub, *a)


def m_join(s, xs):
    return s.join(list(xs))


def _clean_template(s):
    """decide for every symbolic character of a format template whether it is a brace"""
    out = []
    for c in s:
        if is_tok(c):
            if ceq(c, "{"):
                c = "{"
            elif ceq(c, "}"):
                c = "}"
        out.append(c)
    return "".join(out)


def m_format(s, *a, **k):
    return _clean_template(s).format(*a, **k)


def m_format_map(s, d):
    return _clean_template(s).format_map(d)


def m___str__(s):
    return s


def m___eq__(a, b):
    return s_eq(a, b) if isinstance(b, str) else NotImplemented


def m___contains__(s, sub):
    return find(s, sub) >= 0


def m___add__(a, b):
    return a + b


def m___len__(a):
    return len(a)


def m___lt__(a, b):
    return s_lt(a, b)


def m_encode(s, encoding="utf-8", errors="strict"):
    return SymText(s)


class SymText:
    """bytes made from a symbolic string"""

    def __init__(self, s):
        self.s = s

    def decode(self, encoding="utf-8", errors="strict"):
        return self.s

    def __len__(self):
        return len(self.s)


def m_isascii(s):
    return all(cin(c, [(0, 127)]) if is_tok(c) else c.isascii() for c in s)


def m_isupper(s):
    return any(cin(c, [(65, 90)]) for c in s) and not any(cin(c, [(97, 122)]) for c in s)


def m_islower(s):
    return any(cin(c, [(97, 122)]) for c in s) and not any(cin(c, [(65, 90)]) for c in s)


def m_translate(s, table):
    out = []
    for c in s:
        for k in table if is_tok(c) else ():
            if ceq(c, chr(k)):
                c = chr(k)
                break
        out.append(c if is_tok(c) else c.translate(table))
    return "".join(out)


def m_ljust(s, n, fill=" "):
    return s + fill * (n - len(s))


def m_rjust(s, n, fill=" "):
    return fill * (n - len(s)) + s


METHODS = {k[2:]: v for k, v in globals().items() if k.startswith("m_")}

# ------------------------------------------------------------------- containers
_none = object()
_FT = type(lambda: 0)
KEYS = type({}.keys())
DICTS = {collections.OrderedDict, collections.defaultdict}


def _own_eq(x):
    return type(type(x).__eq__) is _FT


def find_key(d, k):
    """the key of d that equals k, or _none"""
    if _nat(d, k):
        return k
    if not isinstance(k, (str, tuple, frozenset)):
        if _own_eq(k):
            for x in list(dict.keys(d) if isinstance(d, dict) else d):
                if _own_eq(x) and x == k:
                    return x
        return _none
    kt = has_tok(k)
    for x in list(dict.keys(d) if isinstance(d, dict) else d):
        if (isinstance(x, str) and isinstance(k, str) or isinstance(x, tuple) and isinstance(k, tuple)
                or isinstance(x, frozenset) and isinstance(k, frozenset)) and (kt or has_tok(x)):
            if deq(x, k):
                return x
    return _none


def _nat(d, k):
    if isinstance(d, dict):
        return dict.__contains__(d, k)
    if isinstance(d, frozenset):
        return frozenset.__contains__(d, k)
    return set.__contains__(d, k)


def contains(c, k):
    if isinstance(c, str):
        if isinstance(k, str) and (has_tok(c) or has_tok(k)):
            return find(c, k) >= 0
        return k in c
    if isinstance(c, dict):
        if type(c).__contains__ is not dict.__contains__:
            return k in c
        return find_key(c, k) is not _none
    if isinstance(c, (set, frozenset)):
        return find_key(c, k) is not _none
    if isinstance(c, (list, tuple, collections.deque)):
        if isinstance(k, SymNum) or any(isinstance(x, SymNum) for x in c):
            return k in c
        return any(x is k or deq(x, k) for x in c)
    if c is os.environ:
        return find_key(dict(c), k) is not _none
    if isinstance(c, (type({}.keys()), type({}.values()), type({}.items()))):
        return any(x is k or deq(x, k) for x in c)
    if isinstance(c, collections.ChainMap):
        return any(contains(m, k) for m in c.maps)
    if not hasattr(type(c), "__contains__") and hasattr(type(c), "__iter__"):
        return any(x is k or deq(x, k) for x in c)
    return k in c


class DictView:
    """stands in for a dict in a subscript"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        d = self.d
        kk = find_key(d, k)
        if kk is not _none:
            return dict.__getitem__(d, kk)
        return d[k]          # KeyError or __missing__

    def __setitem__(self, k, v):
        kk = find_key(self.d, k)
        self.d[k if kk is _none else kk] = v

    def __delitem__(self, k):
        kk = find_key(self.d, k)
        del self.d[k if kk is _none else kk]


class EnvView:
    """stands in for os.environ in a subscript"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def key(self, k):
        kk = find_key(dict(self.d), k)
        return k if kk is _none else kk

    def __getitem__(self, k):
        return self.d[self.key(k)]

    def __setitem__(self, k, v):
        self.d[self.key(k)] = v

    def __delitem__(self, k):
        del self.d[self.key(k)]


def d_get(d, k, default=None):
    kk = find_key(d, k)
    return default if kk is _none else dict.__getitem__(d, kk)


def d_pop(d, k, *default):
    kk = find_key(d, k)
    return d.pop(k if kk is _none else kk, *default)


def d_setdefault(d, k, default=None):
    kk = find_key(d, k)
    return d.setdefault(k if kk is _none else kk, default)


def d_update(d, *a, **kw):
    for x in a:
        items = list(x.items()) if hasattr(x, "keys") else list(x)
        for k, v in items:
            DictView(d)[k] = v
    for k, v in kw.items():
        DictView(d)[k] = v


def d_getitem(d, k):
    kk = find_key(d, k)
    if kk is _none:
        return dict.__getitem__(d, k)
    return dict.__getitem__(d, kk)


def d_setitem(d, k, v):
    DictView(d)[k] = v


def d_contains(d, k):
    return find_key(d, k) is not _none


DICT = {"get": d_get, "pop": d_pop, "setdefault": d_setdefault, "update": d_update,
        "__getitem__": d_getitem, "__setitem__": d_setitem, "__contains__": d_contains}


def s_add(s, k):
    if find_key(s, k) is _none:
        s.add(k)


def s_discard(s, k):
    kk = find_key(s, k)
    if kk is not _none:
        s.discard(kk)


def s_remove(s, k):
    kk = find_key(s, k)
    if kk is _none:
        raise KeyError(k)
    s.remove(kk)


def s_update(s, *xs):
    for x in xs:
        for y in list(x):
            s_add(s, y)


def s_union(s, *xs):
    r = set(s)
    s_update(r, *xs)
    return frozenset(r) if isinstance(s, frozenset) else r


def s_difference(s, *xs):
    return type(s)(x for x in s if not any(contains(list(y), x) for y in xs))


def s_intersection(s, *xs):
    return type(s)(x for x in s if all(contains(list(y), x) for y in xs))


def s_issubset(s, o):
    return all(contains(list(o), x) for x in s)


def s_issuperset(s, o):
    return all(contains(s, x) for x in o)


def s_isdisjoint(s, o):
    return not any(contains(s, x) for x in o)


def s_difference_update(s, *xs):
    for x in xs:
        for y in list(x):
            s_discard(s, y)


def s_contains(s, k):
    return find_key(s, k) is not _none


def s_symmetric_difference(s, o):
    return b_xor(s, b_set(o))


def s_intersection_update(s, *xs):
    _keep(s, s_intersection(s, *xs), True)


def s_symmetric_difference_update(s, o):
    _keep(s, s_symmetric_difference(s, o), True)


SET = {"symmetric_difference": s_symmetric_difference, "intersection_update": s_intersection_update,
       "symmetric_difference_update": s_symmetric_difference_update, "add": s_add, "discard": s_discard, "remove": s_remove, "update": s_update, "union": s_union,
       "difference": s_difference, "intersection": s_intersection, "issubset": s_issubset,
       "issuperset": s_issuperset, "isdisjoint": s_isdisjoint, "difference_update": s_difference_update,
       "__contains__": s_contains}


def b_or(a, b, inplace=False):
    if isinstance(a, KEYS):
        a, inplace = set(a), False
        b = b if isinstance(b, (set, frozenset)) else set(b)
    elif isinstance(b, KEYS):
        b = set(b)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if inplace and isinstance(a, set):
            s_update(a, b)
            return a
        return s_union(a, b)
    if isinstance(a, dict) and isinstance(b, dict) and type(a).__or__ is dict.__or__:
        r = a if inplace else a.copy()
        d_update(r, b)
        return r
    return operator.ior(a, b) if inplace else a | b


def b_and(a, b, inplace=False):
    if isinstance(a, KEYS):
        a, inplace = set(a), False
        b = b if isinstance(b, (set, frozenset)) else set(b)
    elif isinstance(b, KEYS):
        b = set(b)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return _keep(a, s_intersection(a, b), inplace)
    return operator.iand(a, b) if inplace else a & b


def b_sub(a, b, inplace=False):
    if isinstance(a, KEYS):
        a, inplace = set(a), False
        b = b if isinstance(b, (set, frozenset)) else set(b)
    elif isinstance(b, KEYS):
        b = set(b)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return _keep(a, s_difference(a, b), inplace)
    return operator.isub(a, b) if inplace else a - b


def b_xor(a, b, inplace=False):
    if isinstance(a, KEYS):
        a, inplace = set(a), False
        b = b if isinstance(b, (set, frozenset)) else set(b)
    elif isinstance(b, KEYS):
        b = set(b)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return _keep(a, s_union(s_difference(a, b), s_difference(b, a)), inplace)
    return operator.ixor(a, b) if inplace else a ^ b


def _keep(a, r, inplace):
    if inplace and isinstance(a, set):
        a.clear()
        a.update(r)
        return a
    return r


def l_index(l, k, start=0, stop=None):
    for i in range(*slice(start, stop).indices(len(l))):
        if l[i] is k or deq(l[i], k):
            return i
    raise ValueError("not in list")


def l_remove(l, k):
    del l[l_index(l, k)]


def l_count(l, k):
    return sum(1 for x in l if deq(x, k))


def l_sort(l, key=None, reverse=False):
    l[:] = b_sorted(l, key=key, reverse=reverse)


def l_extendleft(l, *a):
    l.extendleft(*a)


LIST = {"index": l_index, "remove": l_remove, "count": l_count, "sort": l_sort}


def lt(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return s_lt(a, b) if has_tok(a) or has_tok(b) else a < b
    if isinstance(a, (tuple, list)) and type(a) is type(b) and (has_tok(a) or has_tok(b)):
        for x, y in zip(a, b):
            if deq(x, y):
                continue
            return lt(x, y)
        return len(a) < len(b)
    return a < b


def b_sorted(xs, key=None, reverse=False):
    xs = list(xs)
    ks = [key(x) if key else x for x in xs]
    if not any(has_tok(k) for k in ks):
        order = builtins.sorted(range(len(xs)), key=lambda i: ks[i], reverse=reverse)
        return [xs[i] for i in order]
    out = []
    for i in range(len(xs)):
        j = len(out)
        while j > 0 and (lt(ks[i], ks[out[j - 1]]) if not reverse else lt(ks[out[j - 1]], ks[i])):
            j -= 1
        out.insert(j, i)
    return [xs[i] for i in out]


def b_set(xs=()):
    xs = list(xs)
    r = set()
    for x in xs:
        s_add(r, x)
    return r


def b_frozenset(xs=()):
    return frozenset(b_set(xs))


def b_dict(*a, **kw):
    r = {}
    d_update(r, *a, **kw)
    return r


def b_fromkeys(xs, v=None):
    r = {}
    for x in xs:
        DictView(r)[x] = v
    return r


def b_min(*a, **kw):
    return _minmax(a, kw, False)


def b_max(*a, **kw):
    return _minmax(a, kw, True)


def _minmax(a, kw, mx):
    key = kw.pop("key", None)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not xs:
        if "default" in kw:
            return kw["default"]
        raise ValueError("empty sequence")
    best = xs[0]
    bk = key(best) if key else best
    for x in xs[1:]:
        k = key(x) if key else x
        if (lt(bk, k) if mx else lt(k, bk)):
            best, bk = x, k
    return best


def b_ord(c):
    if len(c) == 1 and is_tok(c):
        return SymNum(ex(c))
    return ord(c)


def b_map(f, *its):
    from . import rt
    return map(lambda *a: rt.ncall(f, *a), *its)


def b_filter(f, it):
    from . import rt
    if f is None:
        return filter(None, it)
    return filter(lambda a: rt.ncall(f, a), it)


def b_int(x=0, *a):
    if isinstance(x, str) and has_tok(x):
        # decide the digits
        out = []
        for c in x:
            if is_tok(c):
                for d in "0123456789-+_ ":
                    if ceq(c, d):
                        c = d
                        break
                else:
                    raise ValueError("invalid literal for int()")
            out.append(c)
        return int("".join(out), *a)
    if isinstance(x, SymNum) and not a:
        if z3.is_int(x.e):
            return x
        return SymNum(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
    return int(x, *a)


def b_float(x=0.0):
    if isinstance(x, SymNum):
        return x
    return float(x)


def b_round(x, *a):
    return round(x, *a)


def b_abs(x):
    return abs(x)


def b_any(xs):
    for x in xs:
        if x:
            return True
    return False


def b_all(xs):
    for x in xs:
        if not x:
            return False
    return True


def attr_name(obj, name):
    """the attribute of obj that a symbolic name means (decided here), or the name itself"""
    if not isinstance(name, str) or not has_tok(name):
        return name
    for n in sorted(dir(obj), key=lambda n: (n.startswith("_"), n)):
        if len(n) == len(name) and s_eq(n, name):
            return n
    return name


def b_getattr(obj, name, *default):
    return getattr(obj, attr_name(obj, name), *default)


def b_hasattr(obj, name):
    return hasattr(obj, attr_name(obj, name))


def b_setattr(obj, name, v):
    setattr(obj, attr_name(obj, name), v)


def b_delattr(obj, name):
    delattr(obj, attr_name(obj, name))


def b_hash(x):
    return hash(conc(x))


def _repr_str(s):
    out = []
    for c in s:
        if is_tok(c) and cin(c, ["'", '"', "\\", (0, 31), (127, 160), (0xad, 0x10ffff)]):
            c = chr(E.concretize(ex(c)))
        out.append(c)
    q = '"' if "'" in out and '"' not in out else "'"
    return q + "".join(c if is_tok(c) else "\\" + q if c == q else repr(c)[1:-1] if c not in "\"'" else c for c in out) + q


def b_repr(x):
    if not deep_tok(x):
        return repr(x)
    t = type(x)
    if t is str:
        return _repr_str(x)
    if t is list:
        return "[%s]" % ", ".join(b_repr(y) for y in x)
    if t is tuple:
        return "(%s%s)" % (", ".join(b_repr(y) for y in x), "," if len(x) == 1 else "")
    if t is set:
        return "{%s}" % ", ".join(b_repr(y) for y in x)
    if t is dict:
        return "{%s}" % ", ".join(b_repr(k) + ": " + b_repr(v) for k, v in x.items())
    return repr(x)


def b_str(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], (list, tuple, dict, set)) and deep_tok(a[0]):
        return b_repr(a[0])
    if a and isinstance(a[0], SymText):
        return a[0].s
    if (len(a) > 1 or k) and isinstance(a[0] if a else k.get("object"), bytes):
        # str(bytes, encoding, errors)
        return (a[0] if a else k.pop("object")).decode(*a[1:], **k)
    return str(*a, **k)


def b_print(*a, **k):
    print(*[b_str(x) if isinstance(x, (list, tuple, dict, set)) else x for x in a], **k)


class _R:
    def __init__(self, x):
        self.x = x

    def __str__(self):
        return b_str(self.x)

    def __repr__(self):
        return b_repr(self.x)


def b_mod(a, b, inplace=False):
    if E.ntok and isinstance(a, str):
        if has_tok(a):
            a = "".join("%" if is_tok(c) and ceq(c, "%") else c for c in a)
        if deep_tok(b):
            r = "%r" in a or "%a" in a

            def wrap(x):
                return _R(x) if deep_tok(x) and (r or not isinstance(x, str)) else x
            if isinstance(b, tuple):
                b = tuple(wrap(x) for x in b)
            elif not isinstance(b, dict):
                b = wrap(b)
            elif r:
                b = {k: wrap(v) for k, v in b.items()}
    return operator.imod(a, b) if inplace else a % b


def b_groupby(xs, key=None):
    from . import rt
    out = []
    for x in xs:
        k = x if key is None else rt.ncall(key, x)
        if out and rt.eq(out[-1][0], k):
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return iter([(k, iter(v)) for k, v in out])


def b_counter(xs=(), **kw):
    r = collections.Counter(**kw)
    c_update(r, xs)
    return r


def c_update(r, xs=(), **kw):
    v = DictView(r)
    for k, n in list(xs.items()) if isinstance(xs, dict) else [(x, 1) for x in xs]:
        v[k] = d_get(r, k, 0) + n


COUNTER = {"update": c_update, "get": d_get, "pop": d_pop, "setdefault": d_setdefault}


def b_ordered(*a, **kw):
    r = collections.OrderedDict()
    d_update(r, *a, **kw)
    return r


def b_defaultdict(f=None, *a, **kw):
    r = collections.defaultdict(f)
    d_update(r, *a, **kw)
    return r


def b_getenv(k, default=None):
    kk = find_key(dict(os.environ), k)
    return default if kk is _none else os.environ[kk]


def b_reduce(f, xs, *init):
    from . import rt
    return functools.reduce(lambda a, b: rt.ncall(f, a, b), xs, *init)


def _lifted(g):
    """a C function that calls another for every item"""
    def f(fn, *its):
        from . import rt
        return g((lambda *a: rt.ncall(fn, *a)) if fn is not None else None, *its)
    return f


def getitem(d, k):
    from . import rt
    return rt.w(d)[k]


def methodcaller_args(f):
    r = f.__reduce__()
    if r[0] is operator.methodcaller:
        return r[1], {}
    return r[0].args + r[1], r[0].keywords          # partial(methodcaller, name, **kw), args


def _op(n):
    def f(a, b):
        from . import rt
        return rt.OPS[n](a, b)
    return f


def b_opcontains(a, b):
    return contains(a, b)


def b_heapify(h):
    h[:] = b_sorted(h)


def b_heappush(h, x):
    h.append(x)
    b_heapify(h)


def b_heappop(h):
    b_heapify(h)
    return h.pop(0)


def b_countof(xs, k):
    return sum(1 for x in xs if deq(x, k))


BUILTINS = {builtins.sorted: b_sorted, builtins.set: b_set, builtins.frozenset: b_frozenset,
            builtins.dict: b_dict, builtins.min: b_min, builtins.max: b_max, builtins.ord: b_ord,
            builtins.map: b_map, builtins.filter: b_filter,
            builtins.getattr: b_getattr, builtins.hasattr: b_hasattr, builtins.setattr: b_setattr,
            builtins.delattr: b_delattr, builtins.hash: b_hash, builtins.repr: b_repr, builtins.ascii: b_repr,
            builtins.str: b_str, builtins.print: b_print, itertools.groupby: b_groupby, collections.Counter: b_counter,
            collections.OrderedDict: b_ordered, collections.defaultdict: b_defaultdict,
            os.getenv: b_getenv, functools.reduce: b_reduce,
            itertools.takewhile: _lifted(itertools.takewhile), itertools.dropwhile: _lifted(itertools.dropwhile),
            itertools.filterfalse: _lifted(itertools.filterfalse), itertools.starmap: _lifted(itertools.starmap),
            operator.eq: _op("Eq"), operator.ne: _op("NotEq"), operator.lt: _op("Lt"), operator.le: _op("LtE"),
            operator.gt: _op("Gt"), operator.ge: _op("GtE"), operator.is_: _op("Is"), operator.is_not: _op("IsNot"),
            operator.contains: b_opcontains, operator.countOf: b_countof, operator.getitem: getitem,
            heapq.heapify: b_heapify, heapq.heappush: b_heappush, heapq.heappop: b_heappop}
NUM_BUILTINS = {builtins.int: b_int, builtins.float: b_float}
