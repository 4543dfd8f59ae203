"""Backtracking matcher for Python regular expressions over strings with symbolic characters."""
import re
import re._constants as C
import re._parser as P

import z3

from .engine import E
from .strings import cin, ceq, has_tok, is_tok, ex, deq, _ALPHA, _DIG, WS

WORD = _ALPHA + _DIG + [95]
CATS = {C.CATEGORY_DIGIT: (_DIG, False), C.CATEGORY_NOT_DIGIT: (_DIG, True),
        C.CATEGORY_SPACE: (WS, False), C.CATEGORY_NOT_SPACE: (WS, True),
        C.CATEGORY_WORD: (WORD, False), C.CATEGORY_NOT_WORD: (WORD, True)}


class SymMatch:
    def __init__(self, pat, s, b, e, groups):
        self.re, self.string, self._b, self._e, self._g = pat, s, b, e, groups

    def span(self, g=0):
        if g == 0:
            return (self._b, self._e)
        return self._g.get(self._n(g), (-1, -1))

    def _n(self, g):
        return self.re.groupindex[g] if isinstance(g, str) else g

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def group(self, *gs):
        r = []
        for g in gs or (0,):
            b, e = self.span(g)
            r.append(None if b < 0 else self.string[b:e])
        return r[0] if len(r) == 1 else tuple(r)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self.span(i)[0] < 0 else self.group(i) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: (default if self.span(v)[0] < 0 else self.group(v)) for k, v in self.re.groupindex.items()}


class Matcher:
    def __init__(self, pat):
        if pat.flags & (re.IGNORECASE | re.VERBOSE | re.LOCALE):
            E.unsupported("regex flags")
        self.pat = pat
        self.tree = P.parse(pat.pattern, pat.flags & ~re.UNICODE)
        self.dotall = bool(pat.flags & re.DOTALL)
        self.multiline = bool(pat.flags & re.MULTILINE)

    def test_in(self, av, c):
        neg = False
        hit = []
        for op, a in av:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                hit.append((a, a))
            elif op is C.RANGE:
                hit.append((a[0], a[1]))
            elif op is C.CATEGORY:
                cl, n = CATS[a]
                r = self.cls(cl, c)
                if r != n:
                    return not neg
            else:
                E.unsupported("regex set %s" % op)
        r = cin(c, hit) if hit else False
        return r != neg

    def cls(self, cl, c):
        if is_tok(c):
            return cin(c, cl)
        if cl is WORD:
            return c.isalnum() or c == "_"
        if cl is _DIG:
            return c.isdigit()
        return c.isspace()

    def one(self, op, av, c):
        if op is C.LITERAL:
            return ceq(c, chr(av))
        if op is C.NOT_LITERAL:
            return not ceq(c, chr(av))
        if op is C.ANY:
            return self.dotall or not ceq(c, "\n")
        if op is C.IN:
            return self.test_in(av, c)
        return None

    def m(self, items, k, s, i, g, cont):
        """match items[k:] at i, then cont(i, g)"""
        while True:
            if k == len(items):
                return cont(i, g)
            op, av = items[k]
            if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
                if i >= len(s) or not self.one(op, av, s[i]):
                    return None
                i += 1
                k += 1
                continue
            break
        nxt = lambda j, h: self.m(items, k + 1, s, j, h, cont)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT) or op is getattr(C, "POSSESSIVE_REPEAT", None):
            lo, hi, sub = av
            sub = list(sub)
            poss = op is getattr(C, "POSSESSIVE_REPEAT", None)
            if len(sub) == 1 and sub[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
                so, sa = sub[0]
                if op is C.MIN_REPEAT:
                    n, j = 0, i
                    while n < lo:
                        if j >= len(s) or not self.one(so, sa, s[j]):
                            return None
                        j += 1
                        n += 1
                    while True:
                        r = nxt(j, g)
                        if r is not None:
                            return r
                        if (hi is not C.MAXREPEAT and n >= hi) or j >= len(s) or not self.one(so, sa, s[j]):
                            return None
                        j += 1
                        n += 1
                j = i
                while (hi is C.MAXREPEAT or j - i < hi) and j < len(s) and self.one(so, sa, s[j]):
                    j += 1
                if poss:
                    return nxt(j, g) if j - i >= lo else None
                while j - i >= lo:
                    r = nxt(j, g)
                    if r is not None:
                        return r
                    j -= 1
                return None

            def rep(n, j, h, last):
                if op is C.MIN_REPEAT and n >= lo:
                    r = nxt(j, h)
                    if r is not None:
                        return r
                if (hi is C.MAXREPEAT or n < hi) and not (j == last and n > lo):
                    r = self.m(sub, 0, s, j, h, lambda j2, h2: rep(n + 1, j2, h2, j))
                    if r is not None:
                        return r
                if op is not C.MIN_REPEAT and n >= lo:
                    return nxt(j, h)
                return None
            if poss:
                E.unsupported("possessive group")
            return rep(0, i, g, -1)
        if op is C.SUBPATTERN:
            gid, add, rem, p = av
            if add or rem:
                if add & ~re.DOTALL or rem:
                    E.unsupported("regex inline flags")
                old, self.dotall = self.dotall, True

                def c2(j, h):
                    self.dotall = old
                    r = nxt(j, h)
                    self.dotall = True
                    return r
                r = self.m(list(p), 0, s, i, g, c2)
                self.dotall = old
                return r
            if gid is None:
                return self.m(list(p), 0, s, i, g, nxt)
            return self.m(list(p), 0, s, i, g, lambda j, h: nxt(j, {**h, gid: (i, j)}))
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.m(list(alt), 0, s, i, g, nxt)
                if r is not None:
                    return r
            return None
        if op is C.AT:
            if av in (C.AT_BEGINNING_STRING,) or (av is C.AT_BEGINNING and not self.multiline):
                ok = i == 0
            elif av is C.AT_END_STRING:
                ok = i == len(s)
            elif av is C.AT_END and not self.multiline:
                ok = i == len(s) or (i == len(s) - 1 and ceq(s[i], "\n"))
            elif av is C.AT_BEGINNING:
                ok = i == 0 or ceq(s[i - 1], "\n")
            elif av is C.AT_END:
                ok = i == len(s) or ceq(s[i], "\n")
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                a = i > 0 and self.cls(WORD, s[i - 1])
                b = i < len(s) and self.cls(WORD, s[i])
                ok = (a != b) == (av is C.AT_BOUNDARY)
            else:
                E.unsupported("regex anchor %s" % av)
            return nxt(i, g) if ok else None
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d > 0:
                r = self.m(list(p), 0, s, i, g, lambda j, h: (j, h))
            else:
                lo, hi = p.getwidth()
                r = None
                for w in range(lo, min(hi, i) + 1):
                    r = self.m(list(p), 0, s, i - w, g, lambda j, h: (j, h) if j == i else None)
                    if r is not None:
                        break
            if op is C.ASSERT:
                return nxt(i, r[1]) if r is not None else None
            return nxt(i, g) if r is None else None
        if op is getattr(C, "ATOMIC_GROUP", None):
            r = self.m(list(av), 0, s, i, g, lambda j, h: (j, h))
            return None if r is None else nxt(*r)
        if op is C.GROUPREF:
            b, e = g.get(av, (-1, -1))
            if b < 0:
                return None
            t = s[b:e]
            if len(s) - i < len(t) or not deq(s[i:i + len(t)], t):
                return None
            return nxt(i + len(t), g)
        E.unsupported("regex op %s" % op)

    def at(self, s, i, full=False):
        return self.m(list(self.tree), 0, s, i, {}, lambda j, h: (j, h) if not full or j == len(s) else None)


_cache = {}


def matcher(pat):
    if pat not in _cache:
        _cache[pat] = Matcher(pat)
    return _cache[pat]


def match(pat, s, pos=0, *a):
    r = matcher(pat).at(s, pos)
    return None if r is None else SymMatch(pat, s, pos, r[0], r[1])


def fullmatch(pat, s, pos=0, *a):
    r = matcher(pat).at(s, pos, True)
    return None if r is None else SymMatch(pat, s, pos, r[0], r[1])


def search(pat, s, pos=0, *a):
    for i in range(pos, len(s) + 1):
        r = matcher(pat).at(s, i)
        if r is not None:
            return SymMatch(pat, s, i, r[0], r[1])
    return None


def finditer(pat, s, *a):
    out = []
    i = 0
    while i <= len(s):
        m = search(pat, s, i)
        if m is None:
            break
        out.append(m)
        i = m.end() if m.end() > m.start() else m.end() + 1
    return iter(out)


def findall(pat, s, *a):
    out = []
    for m in finditer(pat, s):
        if pat.groups == 0:
            out.append(m.group())
        elif pat.groups == 1:
            out.append(m.groups("")[0])
        else:
            out.append(m.groups(""))
    return out


def split(pat, s, maxsplit=0):
    out = []
    i = 0
    for n, m in enumerate(finditer(pat, s)):
        if maxsplit and n >= maxsplit:
            break
        out.append(s[i:m.start()])
        out.extend(m.groups())
        i = m.end()
    out.append(s[i:])
    return out


def sub(pat, repl, s, count=0):
    out = []
    i = 0
    for n, m in enumerate(finditer(pat, s)):
        if count and n >= count:
            break
        out.append(s[i:m.start()])
        if callable(repl):
            out.append(repl(m))
        elif "\\" in repl:
            t, lits = _template(repl, pat)
            for x in t:
                out.append(x if isinstance(x, str) else (m.group(x) or ""))
        else:
            out.append(repl)
        i = m.end()
    out.append(s[i:])
    return "".join(out)


def _template(repl, pat):
    t = P.parse_template(repl, pat)
    return t, None


FUNCS = {"match": match, "fullmatch": fullmatch, "search": search, "finditer": finditer,
         "findall": findall, "split": split, "sub": sub}


def pat_call(pat, name, args, kw):
    if name not in FUNCS:
        E.unsupported("regex method %s" % name)
    return FUNCS[name](pat, *args, **kw)


MOD = set(FUNCS) | {"escape", "compile", "subn", "template"}


def _clean_pattern(p):
    """decide for every symbolic character of a pattern whether it has a meaning"""
    return "".join(chr(E.concretize(ex(c))) if is_tok(c) and cin(c, list("()[]{}?*+-|^$\\.&~# \t\n\r\v\f")) else c for c in p)


def mod_call(name, args, kw):
    pat = args[0]
    kw = dict(kw)
    fl = kw.pop("flags", 0)
    if name == "escape":
        s = args[0]
        sp = '()[]{}?*+-|^$\\.&~# \t\n\r\v\f'
        return "".join(("\\" + c) if cin(c, list(sp)) else c for c in s)
    if isinstance(pat, str) and has_tok(pat):
        pat = _clean_pattern(pat)
    if name == "compile":
        return re.compile(pat, *args[1:], **kw)
    if name not in FUNCS:
        E.unsupported("re.%s" % name)
    rest = list(args[1:])
    npos = {"match": 1, "fullmatch": 1, "search": 1, "finditer": 1, "findall": 1, "split": 2, "sub": 3}[name]
    if len(rest) > npos:
        fl = rest.pop()
    if isinstance(pat, str):
        pat = re.compile(pat, fl)
    return FUNCS[name](pat, *rest, **kw)
