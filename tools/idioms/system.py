import os, sys, shutil, pathlib, subprocess, glob, json, tempfile, io, contextlib, asyncio, threading, queue, concurrent.futures, time, fnmatch, filecmp, traceback, stat, errno, signal, shlex
from pathlib import Path
def put(p, t="x"):
    d = os.path.dirname(p)
    if d: os.makedirs(d, exist_ok=True)
    with open(p, "w") as f: f.write(t)
def tree():
    return [x for x in tree_() if x != "./make.py"]
def tree_():
    out = []
    for r, d, f in os.walk("."):
        for x in sorted(d): out.append(os.path.join(r, x) + "/")
        for x in sorted(f): out.append(os.path.join(r, x))
    return sorted(out)
def g_makedirs():
    os.makedirs("a/b/c"); os.makedirs("a/b", exist_ok=True)
    try: os.makedirs("a/b"); r = 0
    except FileExistsError as e: r = e.errno
    try: os.mkdir("q/r"); s = 0
    except FileNotFoundError: s = 2
    return tree(), r, s
def g_plib():
    p = Path("a") / "b"; p.mkdir(parents=True, exist_ok=True)
    f = p / "x.txt"; f.write_text("hello\n"); t = f.read_text()
    return t, f.exists(), p.is_dir(), f.is_file(), sorted(str(x) for x in Path("a").glob("**/*")), sorted(str(x) for x in p.iterdir()), sorted(str(x) for x in Path(".").rglob("*.txt")), f.stat().st_size
def g_plib2():
    p = Path("a/b/c"); p.mkdir(parents=True); (p / "f").touch(); (p / "f").unlink(); (p / "f").unlink(missing_ok=True)
    try: p.mkdir(); r = 0
    except FileExistsError: r = 1
    (p / "l").symlink_to("zz"); q = (p / "l").is_symlink(), (p / "l").exists(), os.readlink(p / "l")
    (p / "l").unlink(); p.rmdir(); return tree(), r, q, str(Path("a/../b").resolve().relative_to(Path.cwd())), str(Path("x").absolute().name), Path("./a/b").as_posix()
def g_plib3():
    put("a/x"); Path("a/x").rename("a/y"); Path("a/y").replace("a/z"); return tree(), Path("a/z").read_bytes() , Path("a").joinpath("z").exists(), Path("~/x").expanduser() == Path(os.path.expanduser("~/x")), Path("a/z").open().read(), Path("a/z").samefile("a/z")
def g_plib4():
    with Path("n").open("w") as f: f.write("1")
    Path("n").write_bytes(b"ab"); return Path("n").read_text(), Path("n").stat().st_mtime == os.path.getmtime("n"), os.path.getsize("n")
def g_shutil():
    put("a/x", "1"); shutil.copyfile("a/x", "y"); shutil.copy("a/x", "z"); shutil.copy2("a/x", "w"); os.mkdir("d"); shutil.copy("a/x", "d"); shutil.copytree("a", "t"); shutil.move("y", "v"); shutil.rmtree("a"); return tree(), open("z").read(), open("w").read(), shutil.which("nope-nope")
def g_rmtree():
    put("a/b/c/x"); put("a/y"); shutil.rmtree("a"); shutil.rmtree("a", ignore_errors=True)
    try: shutil.rmtree("a"); r = 0
    except FileNotFoundError: r = 1
    return tree(), r
def g_open():
    with open("f", "w", encoding="utf-8") as f: f.write("a\nb\n"); print("c", file=f); print("d", "e", sep=",", end="", file=f)
    with open("f", "a") as f: f.writelines(["x\n", "y"])
    with open("f") as f: l = f.readlines()
    with open("f") as f: m = [x.rstrip("\n") for x in f]
    with open("f") as f: n = f.readline(), f.read(1), f.read()
    with io.open("f", "rb") as f: b = f.read()
    with open("f", "r+") as f: f.seek(0); f.write("Z"); f.truncate()
    try: open("nope"); r = 0
    except FileNotFoundError as e: r = e.errno
    try: open("f", "x"); r2 = 0
    except FileExistsError as e: r2 = e.errno
    try: open("."); r3 = 0
    except IsADirectoryError as e: r3 = e.errno
    return l, m, n, b, open("f").read(), r, r2, r3
def g_json():
    with open("j", "w") as f: json.dump({"b": 1, "a": [1, "x"]}, f, indent=4, sort_keys=True)
    with open("j") as f: d = json.load(f)
    return d, open("j").read(), json.loads(Path("j").read_text())
def g_atomic():
    with open("j.tmp", "w") as f: f.write("1"); f.flush(); os.fsync(f.fileno())
    os.replace("j.tmp", "j"); return tree()
def g_tmp():
    with tempfile.NamedTemporaryFile("w", dir=".", delete=False) as f: f.write("q")
    os.replace(f.name, "k"); fd, n = tempfile.mkstemp(dir="."); 
    with os.fdopen(fd, "w") as g: g.write("zz")
    os.rename(n, "m"); return tree(), open("m").read()
def g_glob():
    for x in ("a/x.c", "a/y.h", "b/x.c", "b/c/z.c", ".h/x.c"): put(x)
    return sorted(glob.glob("*/*.c")), sorted(glob.glob("**/*.c", recursive=True)), sorted(glob.iglob("a/*")), sorted(glob.glob("*.c", root_dir="a")), sorted(os.listdir("a")), glob.glob("nope*"), sorted(fnmatch.filter(os.listdir("a"), "*.c")), sorted(glob.glob(os.path.join(glob.escape("a"), "?.[ch]")))
def g_scandir():
    put("a/x"); put("a/y/z"); os.symlink("x", "a/l")
    with os.scandir("a") as it: return sorted((e.name, e.is_file(), e.is_dir(), e.is_symlink(), e.path) for e in it)
def g_walk():
    put("a/x"); put("a/y/z"); put("b/q")
    r = []
    for d, ds, fs in os.walk("."):
        ds.sort(); ds[:] = [x for x in ds if x != "b"]; r.append((d, list(ds), sorted(x for x in fs if x != 'make.py')))
    return r, [x[0] for x in os.walk("a", topdown=False)], list(os.walk("nope"))
def g_stat():
    put("a"); os.utime("a", (5, 5)); s = os.stat("a"); l = os.lstat("a")
    try: os.stat("nope"); r = 0
    except OSError as e: r = e.errno, isinstance(e, FileNotFoundError), e.filename
    return s.st_mtime, l.st_mtime, stat.S_ISREG(s.st_mode), stat.S_ISDIR(os.stat(".").st_mode), r, os.path.getmtime("a"), os.access("a", os.R_OK), os.access("nope", os.F_OK), os.path.exists("a"), os.path.lexists("a"), os.path.isfile("a"), os.path.islink("a"), os.path.samefile("a", "./a"), s.st_mtime_ns
def g_remove():
    put("a"); os.remove("a"); put("b"); os.unlink("b"); put("c/d")
    r = []
    for f in (lambda: os.remove("a"), lambda: os.rmdir("c"), lambda: os.remove("c"), lambda: os.mkdir("c"), lambda: os.rename("zz", "y")):
        try: f(); r.append(0)
        except OSError as e: r.append((type(e).__name__, e.errno))
    with contextlib.suppress(FileNotFoundError): os.remove("a")
    os.removedirs("e") if os.path.isdir("e") else None
    return tree(), r
def g_links():
    put("d/x"); os.symlink("d", "l"); os.symlink("nope", "m")
    r = []
    for f in (lambda: os.symlink("a", "l"), lambda: os.makedirs("m/x"), lambda: os.makedirs("l", exist_ok=True), lambda: os.mkdir("m")):
        try: f(); r.append(0)
        except OSError as e: r.append((type(e).__name__, e.errno))
    return os.path.exists("m"), os.path.lexists("m"), os.path.islink("l"), os.path.isdir("l"), os.listdir("l"), os.readlink("l"), os.path.realpath("l/x") == os.path.join(os.path.realpath("."), "d/x"), r, tree()
def g_cwd():
    os.mkdir("a"); o = os.getcwd(); os.chdir("a"); p = os.path.relpath(os.getcwd(), o); q = os.path.basename(os.path.abspath(".")); 
    with contextlib.chdir(".."): z = os.getcwd() == o
    os.chdir(o); return p, q, z, os.getcwd() == o, str(Path.cwd()) == o
def cmd(f):
    try: return f()
    except subprocess.CalledProcessError as e: return ("CPE", e.returncode, e.output, e.stderr)
    except FileNotFoundError as e: return ("FNF",)
    except Exception as e: return type(e).__name__
def g_sub():
    r = []
    r.append(cmd(lambda: subprocess.run("exit 3", shell=True).returncode))
    r.append(cmd(lambda: subprocess.run("exit 3", shell=True, check=True)))
    r.append(cmd(lambda: subprocess.call("exit 0", shell=True)))
    r.append(cmd(lambda: subprocess.check_call("exit 2", shell=True)))
    r.append(cmd(lambda: subprocess.check_output("echo X", shell=True).decode()))
    r.append(cmd(lambda: subprocess.check_output("echo X", shell=True, text=True)))
    r.append(cmd(lambda: subprocess.run("echo X", shell=True, capture_output=True, text=True).stdout))
    r.append(cmd(lambda: subprocess.run("echo X", shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode("utf-8", "replace")))
    r.append(cmd(lambda: subprocess.getstatusoutput("echo X")))
    r.append(cmd(lambda: subprocess.getoutput("echo X")))
    r.append(cmd(lambda: os.system("exit 3")))
    r.append(cmd(lambda: os.waitstatus_to_exitcode(os.system("exit 3"))))
    r.append(cmd(lambda: os.popen("echo X").read()))
    r.append(cmd(lambda: os.WEXITSTATUS(os.system("exit 3"))))
    return r
def g_popen():
    r = []
    p = subprocess.Popen("echo X", shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    o, e = p.communicate(); r.append((o.decode(), p.returncode, p.wait(), p.poll()))
    with subprocess.Popen("echo X", shell=True, stdout=subprocess.PIPE, universal_newlines=True) as p: r.append([l for l in p.stdout])
    r.append(p.returncode)
    with subprocess.Popen("exit 4", shell=True) as p: pass
    r.append(p.returncode)
    p = subprocess.Popen("echo X", shell=True, stdout=subprocess.PIPE, encoding="utf-8", errors="replace"); r.append(list(iter(p.stdout.readline, ""))); p.stdout.close(); r.append(p.wait())
    p = subprocess.Popen("echo X", shell=True, stdout=subprocess.PIPE); t = io.TextIOWrapper(p.stdout, encoding="utf-8", errors="replace"); r.append(t.read()); r.append(p.wait())
    try: subprocess.run("exit 1", shell=True, check=True, timeout=100)
    except subprocess.CalledProcessError as e: r.append(str(e))
    return r
def g_async():
    async def w(n):
        await asyncio.sleep(0); return n
    async def main():
        loop = asyncio.get_running_loop()
        a = await asyncio.gather(w(1), w(2)); b = await loop.run_in_executor(None, lambda: 7); c = await asyncio.to_thread(lambda: 8)
        q = asyncio.Queue(); await q.put(1); d = await q.get(); q.task_done(); await q.join()
        t = asyncio.create_task(w(5)); done, pend = await asyncio.wait({t}); e = asyncio.Event(); e.set(); await e.wait()
        s = asyncio.Semaphore(1)
        async with s: pass
        l = asyncio.Lock()
        async with l: pass
        try: await asyncio.wait_for(asyncio.Event().wait(), 0.01); f = 0
        except asyncio.TimeoutError: f = 1
        async with asyncio.TaskGroup() as tg: t2 = tg.create_task(w(6))
        return a, b, c, d, [x.result() for x in done], f, t2.result(), [await x for x in asyncio.as_completed([w(1)])]
    return asyncio.run(main())
def g_async2():
    async def w(): return 3
    loop = asyncio.new_event_loop()
    try:
        asyncio.set_event_loop(loop); return loop.run_until_complete(w())
    finally:
        loop.close(); asyncio.set_event_loop(None)
def g_async3():
    async def main():
        with concurrent.futures.ThreadPoolExecutor(max_workers=2) as ex:
            loop = asyncio.get_event_loop(); fs = [loop.run_in_executor(ex, lambda i=i: i) for i in range(3)]
            return await asyncio.gather(*fs)
    with asyncio.Runner() as r: return r.run(main())
def g_out():
    s = io.StringIO()
    with contextlib.redirect_stdout(s): print("a", 1)
    sys.stdout.write("q\n"); sys.stdout.flush(); sys.stderr.write("x"); return s.getvalue(), sys.stdout.isatty(), os.environ.get("NOPE"), "NOPE" in os.environ
def g_env():
    os.environ["ZZ"] = "1"; r = os.getenv("ZZ"), os.environ["ZZ"], os.path.expandvars("$ZZ/a"), dict(os.environ)["ZZ"]; os.environ.pop("ZZ"); return r, os.environ.setdefault("ZY", "k"), os.pathsep.join(["a", "b"]), os.get_exec_path(dict(PATH="a:b"))
