#!/usr/bin/env python3
"""Validates the encoding of Python (texts.py) and the stubs of the operating system (system.py).

texts.py: functions of two texts, each an idiom that code may use.  They are explored with symbolic texts; models of
the paths are run on the uninstrumented functions, which have to give the same.
system.py: functions that work on files, processes and the event loop.  They are run on the stubs and, in a scratch
directory, on the real system; the results have to be the same.
Usage: python3-vt tools/idioms/run.py [part of a name ...]
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
SELF = os.path.abspath(__file__)


def norm(x):
    return json.loads(json.dumps(x, default=repr))


def real(name):
    sys.path.insert(0, HERE)
    import system
    d = tempfile.mkdtemp()
    os.chdir(d)
    try:
        r = getattr(system, name)()
    except BaseException as e:
        r = "EXC " + repr(e)
    os.chdir("/")
    shutil.rmtree(d)
    sys.__stderr__.write("\nRES" + json.dumps(r, default=repr))


def prep(root, name, inst):
    from symx import env, instrument

    def f():
        sys.path[:] = [p for p in sys.path if p]
        if inst:
            instrument.instrument_stdlib()
        instrument.precompile(root, name, inst)
        instrument.install(root, name, inst)
        env.ENV.reset(0, 2)
        import argparse, ast, pathlib, json, shlex, glob, fnmatch, heapq, bisect, textwrap, string, copy  # noqa
        import dataclasses, enum, asyncio, shutil, tempfile, threading, concurrent.futures, filecmp, random  # noqa
        env.install()

        def handler(c):
            t = c if isinstance(c, str) else c[-1]
            if t.startswith("exit "):
                return env.Proc(int(t[5:]))
            if t == "echo X":
                return env.Proc(0, env.SymBytes("X\n", 2))
            return env.Proc(127)
        env.ENV.handler = handler
        __import__(name)
    return f


def names(file, words):
    with open(os.path.join(HERE, file)) as f:
        ns = re.findall(r"^def ([fg]_\w+)", f.read(), re.M)
    return [n for n in ns if not words or any(w in n for w in words)]


def package(d, name, file):
    os.mkdir(os.path.join(d, name))
    shutil.copy(os.path.join(HERE, file), os.path.join(d, name, "__init__.py"))


def texts(d, words):
    from symx.engine import E, explore, run_concrete
    package(d, "texts_pkg", "texts.py")
    bad = 0
    for n in names("texts.py", words):
        def fn():
            s, t = E.string_upto("s", 2, "ab./ "), E.string_upto("t", 1, "ab/")
            E.observe(getattr(sys.modules["texts_pkg"], n)(s, t))
        recs = explore(fn, prep(d, "texts_pkg", True), time_limit=60, path_limit=20)
        wrong = [r for r in recs if r["status"] != "ok"]
        oks = [r for r in recs if r["status"] == "ok"]
        for r in oks[::max(1, len(oks) // 25)]:
            rr = run_concrete(fn, r["asg"], prep(d, "texts_pkg", False), time_limit=20)
            if rr["status"] != "ok" or norm(rr.get("obs")) != norm(r["obs"]):
                wrong.append(dict(r, msg="%s / %s" % (r["obs"], rr.get("obs"))))
                break
        bad += bool(wrong)
        print(n, len(recs), "paths", [(w.get("asg"), w.get("msg") or w.get("violations")) for w in wrong[:1]], flush=True)
    return bad


def system(d, words):
    from symx.engine import E, explore
    package(d, "system_pkg", "system.py")
    bad = 0
    for n in names("system.py", words):
        p = subprocess.run([sys.executable, SELF, "--real", n], capture_output=True, text=True)
        want = json.loads(p.stderr.split("RES")[-1])
        for tok in (False, True):
            def fn():
                if tok:
                    E.string("symbolic", 1, "ab")
                try:
                    r = getattr(sys.modules["system_pkg"], n)()
                except (Exception, SystemExit):
                    r = traceback.format_exc()[-800:]
                E.observe(norm(r))
            r = explore(fn, prep(d, "system_pkg", True), time_limit=60, path_limit=20)[0]
            ok = r["status"] == "ok" and r["obs"] == want
            bad += not ok
            print(n, "ok" if ok else "stub: %s %s\n  real: %s" % (r.get("msg"), r.get("obs"), want), flush=True)
    return bad


def main(words):
    if words[:1] == ["--real"]:
        return real(words[1])
    with tempfile.TemporaryDirectory() as d:
        bad = texts(d, words) + system(d, words)
    print(bad, "differences")
    return 1 if bad else 0


sys.exit(main(sys.argv[1:]))
