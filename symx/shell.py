"""A model of how a POSIX shell splits one simple command into words.  Works on text with symbolic
characters.  Returns (words, None) or (None, reason) when the text is not one simple command of literal
words (an expansion, a pattern, a list, a redirection, a comment, an unfinished quotation ...)."""
from . import strings as S

_SPECIAL = ";&|<>()`*?[\n#"


def words(cmd):
    if not isinstance(cmd, str):
        return list(cmd), None
    out, cur, inword = [], [], False
    i, n = 0, len(cmd)
    while i < n:
        c = cmd[i]
        if S.is_tok(c):
            # decide the class of a symbolic character once
            for k in "'\"\\ \t$" + _SPECIAL + "~{}!=":
                if S.s_eq(c, k):
                    c = k
                    break
        if c in " \t":
            if inword:
                out.append("".join(cur))
            cur, inword = [], False
            i += 1
        elif c == "'":
            j = S.find(cmd, "'", i + 1)
            if j < 0:
                return None, "unfinished quotation"
            cur.append(cmd[i + 1:j])
            inword = True
            i = j + 1
        elif c == '"':
            inword = True
            i += 1
            while True:
                if i >= n:
                    return None, "unfinished quotation"
                d = cmd[i]
                for k in "\"\\$`":
                    if S.s_eq(d, k):
                        d = k
                        break
                if d == '"':
                    i += 1
                    break
                if d in "$`":
                    return None, "expansion in double quotes"
                if d == "\\":
                    if i + 1 >= n:
                        return None, "unfinished quotation"
                    e = cmd[i + 1]
                    if S.cin(e, [ord(x) for x in "\"\\$`"]):
                        cur.append(e)
                    elif not S.s_eq(e, "\n"):
                        cur.append("\\" + e)
                    i += 2
                    continue
                cur.append(cmd[i])
                i += 1
        elif c == "\\":
            if i + 1 >= n:
                return None, "backslash at the end"
            if not S.s_eq(cmd[i + 1], "\n"):
                cur.append(cmd[i + 1])
                inword = True
            i += 2
        elif c == "$":
            return None, "expansion"
        elif c == "#":
            if not inword:
                return None, "comment"
            cur.append(c)
            i += 1
        elif c in _SPECIAL:
            return None, "special character %r" % c
        elif c == "~" and not inword:
            return None, "home directory"
        else:
            if c == "=" and not out:
                return None, "assignment"
            cur.append(cmd[i])
            inword = True
            i += 1
    if inword:
        out.append("".join(cur))
    return out, None
