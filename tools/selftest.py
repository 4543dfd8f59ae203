#!/usr/bin/env python3
"""Validates the shell model (symx/shell.py) against /bin/sh, in a scratch directory.

Every text over a small alphabet up to a length that the model takes for one command of literal words is given to
the shell as arguments of printf; the words must be the same.  Texts the model refuses are not run.
"""
import itertools
import os
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import shell  # noqa: E402

ALPHA = "a '\"\\$`#=~{}!\n-%"
LEN = int(sys.argv[1]) if len(sys.argv) > 1 else 4


def main():
    texts = []
    for n in range(1, LEN + 1):
        for t in itertools.product(ALPHA, repeat=n):
            t = "".join(t)
            w, why = shell.words("p " + t)
            if w is not None:
                texts.append((t, w[1:]))
    bad = 0
    with tempfile.TemporaryDirectory() as d:
        for i in range(0, len(texts), 2000):
            part = texts[i:i + 2000]
            src = "".join("printf '%%s\\0' x %s\nprintf '\\1\\1\\0'\n" % t for t, w in part)
            r = subprocess.run(["/bin/sh", "-s"], input=src.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d)
            got = r.stdout.decode().split("\1\1\0")[:-1]
            if len(got) != len(part):
                print("shell stopped early: %d of %d %s" % (len(got), len(part), r.stderr[:200]))
                return 1
            for (t, w), g in zip(part, got):
                g = g.split("\0")[1:-1]
                if g != w:
                    bad += 1
                    if bad < 10:
                        print("%r: model %r, shell %r" % (t, w, g))
    print("%d texts, %d differences" % (len(texts), bad))
    return 1 if bad else 0


sys.exit(main())
