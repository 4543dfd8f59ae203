From f2362868a5001fffd389449d8ecbed36ee9a4521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:38 +0000
Subject: [PATCH 01/40] fix: an exception in an action no longer hangs the
 executor

---
 licant/solver.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/licant/solver.py b/licant/solver.py
index 90debb6..3cafba0 100644
--- a/licant/solver.py
+++ b/licant/solver.py
@@ -1,4 +1,5 @@
 import asyncio
+import traceback
 from licant.util import invert_depends_dictionary, red
 import contextlib
 
@@ -123,7 +124,13 @@ class TaskInvoker:
                 if self.trace:
                     print(f"[Trace] thread:{no} do task: {task.name()}")
 
-                result = await task.doit()
+                try:
+                    result = await task.doit()
+                except Exception:
+                    # An exception is a failure of the task. It must not kill
+                    # the worker, or nobody would ever finish the queue.
+                    traceback.print_exc()
+                    result = False
                 self.queue.task_done()
 
                 if (self.error_while_execution):
-- 
2.43.0


From 26a0c6bc41f0663f2edd9751a59c0db39e3f96fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:00 +0000
Subject: [PATCH 02/40] fix: updatable targets can be done without the command
 line

---
 licant/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/core.py b/licant/core.py
index 79fd5e6..0f1a27d 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -328,7 +328,7 @@ class UpdatableTarget(Target):
         self.need_update = None
 
     def recurse_update_get_args(self):
-        return self.recurse_update(threads=self.core.runtime["threads"])
+        return self.recurse_update()
 
     def update(self, *args, **kwargs):
         return True
-- 
2.43.0


From c92c16cb78507c3b961fc2bd7eefa2f268d309f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:01 +0000
Subject: [PATCH 03/40] fix: file targets can depend on targets that are not
 files

---
 licant/make.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/licant/make.py b/licant/make.py
index c312d6d..88ab1c3 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -107,6 +107,8 @@ class MakeFileTarget(UpdatableTarget):
         maxtime = 0
         for d in self.deps:
             dtgt = self.core.get(d)
+            if not dtgt.is_file():
+                continue
             mtime = dtgt.mtime()
             if mtime is not None and mtime > maxtime:
                 maxtime = mtime
@@ -167,8 +169,10 @@ class FileTarget(MakeFileTarget):
 
         maxtime = 0
         for dep in self.get_deplist():
+            if not dep.is_file():
+                continue
             depmtime = dep.mtime()
-            if dep.is_file() and depmtime > maxtime:
+            if depmtime > maxtime:
                 maxtime = depmtime
 
         if maxtime > self.mtime():
-- 
2.43.0


From 55ac1bdf801064c82df9256bf2126948a6e041ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:50 +0000
Subject: [PATCH 04/40] fix: commands with large output no longer block the
 build

---
 licant/make.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/licant/make.py b/licant/make.py
index 88ab1c3..ddc324f 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -45,13 +45,14 @@ def do_execute(target, rule, msgfield, prefix=None):
 
     proc = subprocess.Popen(
         rule, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
-    stdout = proc.stdout
-    stderr = proc.stderr
-    ret = proc.wait()
+    # communicate() drains both pipes, so that a command with much output
+    # can not block on a full pipe.
+    stdout, stderr = proc.communicate()
+    ret = proc.returncode
 
-    sprint(stdout.read().decode("utf-8"), end="")
+    sprint(stdout.decode("utf-8"), end="")
     sys.stdout.flush()
-    sprint(stderr.read().decode("utf-8"), end="")
+    sprint(stderr.decode("utf-8"), end="")
     sys.stderr.flush()
 
     if target.is_file():
-- 
2.43.0


From b571913359d44af690cea22702c42b9d90058338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:52 +0000
Subject: [PATCH 05/40] fix: command output that is not valid UTF-8 no longer
 breaks the build

---
 licant/make.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/licant/make.py b/licant/make.py
index ddc324f..a51aa81 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -50,9 +50,9 @@ def do_execute(target, rule, msgfield, prefix=None):
     stdout, stderr = proc.communicate()
     ret = proc.returncode
 
-    sprint(stdout.decode("utf-8"), end="")
+    sprint(stdout.decode("utf-8", errors="replace"), end="")
     sys.stdout.flush()
-    sprint(stderr.decode("utf-8"), end="")
+    sprint(stderr.decode("utf-8", errors="replace"), end="")
     sys.stderr.flush()
 
     if target.is_file():
-- 
2.43.0


From aea3749c65329fa26d3fae433967942ba0ae83db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:16 +0000
Subject: [PATCH 06/40] fix: arguments of an action on the command line reach
 the action

---
 licant/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/licant/cli.py b/licant/cli.py
index 4501b00..fb95458 100644
--- a/licant/cli.py
+++ b/licant/cli.py
@@ -112,13 +112,13 @@ def __cliexecute(args, default, core):
                 )
             )
 
-        return target.invoke(act, *args[2:], critical=True)
+        return target.invoke(act, args=args[2:], critical=True)
 
     # Try look up fnd in actions of default_target
     if default is not None:
         dtarget = core.get(default)
         if dtarget.hasaction(fnd):
-            return dtarget.invoke(fnd, *args[1:], critical=True)
+            return dtarget.invoke(fnd, args=args[1:], critical=True)
 
     # Can't look fnd.
     licant.util.error(
-- 
2.43.0


From 23d28dbca4d1151c6678f281874b7bc944c9859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:18 +0000
Subject: [PATCH 07/40] fix: a failed build exits with a non-zero status

---
 licant/cli.py  | 5 ++++-
 licant/core.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/licant/cli.py b/licant/cli.py
index fb95458..8b91609 100644
--- a/licant/cli.py
+++ b/licant/cli.py
@@ -150,9 +150,12 @@ def cliexecute(
         print("PRINT RUNTIME:", core.runtime)
 
     try:
-        __cliexecute(args, default=default, core=core)
+        result = __cliexecute(args, default=default, core=core)
     except KeyboardInterrupt:
         licant.util.error("interrupted by user")
 
     if colorwrap:
         print(licant.util.yellow("[finish]"))
+
+    if result is False:
+        sys.exit(1)
diff --git a/licant/core.py b/licant/core.py
index 0f1a27d..40c7181 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -420,7 +420,7 @@ class Routine(UpdatableTarget):
 
     def invoke_routine(self, *args, threads=1, **kwargs):
         self.args = list(args)
-        self.recurse_update(threads=threads)
+        return self.recurse_update(threads=threads)
 
 
 def routine(func=None, **kwargs):
-- 
2.43.0


From b1d367e7fa2049527cd7e9d78b6f66feb282385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:07 +0000
Subject: [PATCH 08/40] fix: copy and clean handle file names with special
 characters

---
 licant/make.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/licant/make.py b/licant/make.py
index a51aa81..9ee90cf 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -11,6 +11,7 @@ import os
 import time
 import subprocess
 import fcntl
+import shlex
 import sys
 import traceback
 
@@ -61,6 +62,15 @@ def do_execute(target, rule, msgfield, prefix=None):
     return True if ret == 0 else False
 
 
+def shell_path(path):
+    """Path as one word of a rule: quoted for the shell, braces kept by format."""
+    return shlex.quote(path).replace("{", "{{").replace("}", "}}")
+
+
+def copy_rule(src, tgt):
+    return "cp -- " + shell_path(src) + " " + shell_path(licant.util.canonical_path(tgt))
+
+
 class Executor:
     def __init__(self, rule, msgfield="message"):
         self.rule = rule
@@ -162,7 +172,7 @@ class FileTarget(MakeFileTarget):
 
     def clr(self):
         """Delete this file."""
-        do_execute(self, "rm -f {tgt}", "clrmsg")
+        do_execute(self, "rm -f -- " + shell_path(self.tgt), "clrmsg")
 
     def internal_update_if(self):
         if self.force or not self.is_exist():
@@ -253,7 +263,7 @@ def copy(tgt, src, adddeps=[], message="COPY {src} {tgt}", core=default_core()):
     core.add(
         FileTarget(
             tgt=tgt,
-            build=Executor("cp {src} {tgt}"),
+            build=Executor(copy_rule(src, tgt)),
             src=src,
             deps=[src] + adddeps,
             message=message,
@@ -340,7 +350,7 @@ class MakeCore(Core):
         self.source(src)
         return self.add(FileTarget(
             tgt=dst,
-            build=Executor("cp {src} {tgt}"),
+            build=Executor(copy_rule(src, dst)),
             src=src,
             deps=[src] + dirdeps + deps,
             use_dirkeep=False,
-- 
2.43.0


From 47cff86d03115174873e502a24d51e9e8a46e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:30 +0000
Subject: [PATCH 09/40] fix: an existing file whose name contains a star is not
 a pattern

---
 licant/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/core.py b/licant/core.py
index 40c7181..9ff9ad0 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -231,7 +231,7 @@ class Target:
         import licant.make
         ret = []
         for d in deps:
-            if "*" in d:
+            if "*" in d and not os.path.exists(d):
                 ret.extend(glob.glob(d))
             else:
                 ret.append(d)
-- 
2.43.0


From 5b722e03360ac4864fa7c884d3fb448f7626d569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:22 +0000
Subject: [PATCH 10/40] fix: a directory that appeared meanwhile does not fail
 the build

---
 licant/make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/make.py b/licant/make.py
index 9ee90cf..5048fb9 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -87,7 +87,7 @@ class DirectoryKeeper():
     def __call__(self, target, **kwargs):
         print("MAKEDIRS", target.tgt)
         if not target.exists():
-            os.makedirs(target.tgt)
+            os.makedirs(target.tgt, exist_ok=True)
             target.update_info()
 
 
-- 
2.43.0


From b6cb5d16c956a24e39cb72558ee1c485be6ed26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:33 +0000
Subject: [PATCH 11/40] fix: MakeCore makes the directory the output really
 goes to

---
 licant/make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/make.py b/licant/make.py
index 5048fb9..fc4fffc 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -315,7 +315,7 @@ class MakeCore(Core):
 
     def dirkeep(self, path):
         """Create directory tree for this file if needed."""
-        base_directory_path = os.path.normpath(os.path.dirname(path))
+        base_directory_path = os.path.dirname(licant.util.canonical_path(path))
         if not os.path.exists(base_directory_path):
             deps = self.dirkeep(base_directory_path)
             if not self.has(base_directory_path):
-- 
2.43.0


From c01c9816e4c9c9d0a0f41c228ca7ecd45b3631e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:10 +0000
Subject: [PATCH 12/40] fix: invoke_routine and update are actions of a routine

---
 licant/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/core.py b/licant/core.py
index 9ff9ad0..67bbbc1 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -397,7 +397,7 @@ class UpdatableTarget(Target):
 
 class Routine(UpdatableTarget):
     __actions__ = {"recurse_update",
-                   "recurse_update_get_args", "invoke_routine" "update", "actlist"}
+                   "recurse_update_get_args", "invoke_routine", "update", "actlist"}
 
     def __init__(self,
                  func,
-- 
2.43.0


From d34b0439c7ac7ebe9f160dcf94761cdfa48b7b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:22 +0000
Subject: [PATCH 13/40] fix: cyclic dependencies on named implementations are
 collected

---
 licant/cxx_modules.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 0509ed3..e80f79b 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -374,7 +374,18 @@ def collect_modules(mod):
         mdepends_default.put(name)
         add_included_from(name, incfrom)
 
+    # Модули, обход которых ещё не закончен (зависимости могут быть циклическими).
+    in_progress = []
+
     def collect_modules(mod):
+        if any(m is mod for m in in_progress):
+            return
+
+        in_progress.append(mod)
+        collect_module_depends(mod)
+        in_progress.pop()
+
+    def collect_module_depends(mod):
         if default_core().runtime["trace"]:
             print("trace: collect_modules( {} )".format(mod.name))
 
-- 
2.43.0


From 0e3d9638ebf2fcd8d54b5c3b6a6074557e33e07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:37 +0000
Subject: [PATCH 14/40] fix: submodules can be built

---
 licant/cxx_modules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index e80f79b..3c62e70 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -535,7 +535,8 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
         submodules_results = []
         # print(locopts["modules"])
         for smod in locopts["modules"]:
-            submodules_results += modmake(smod.name, smod.impl, locopts)
+            results, _ = modmake(smod.name, smod.impl, locopts)
+            submodules_results += [str(r) for r in results]
 
         if locopts["type"] == "application":
             return ([executable(locobjs + submodules_results, locopts)], locopts)
-- 
2.43.0


From 7732e4d3b147fccd8606bdf087995b9703d97632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:39 +0000
Subject: [PATCH 15/40] fix: modules included by an ancestor are not included
 again

---
 licant/cxx_modules.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 3c62e70..3063c37 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -113,13 +113,11 @@ def local_if_exist(base, local, solver, tbase, tlocal):
     return base if local is None else local
 
 
-def concat_to_submodule(base, local, solver, tbase, tlocal):
+def local_to_submodule(base, local, solver, tbase, tlocal):
+    # What the ancestors include is part of the inherited options already.
     if local is None:
         local = []
-    if base is None:
-        base = []
-    lm = [licant.modules.submodule(l) for l in local]
-    return base + lm
+    return [licant.modules.submodule(l) for l in local]
 
 
 def cxx_module_field_list():
@@ -144,7 +142,7 @@ def cxx_module_field_list():
     "builddir": solver("str", local_if_exist, base, "build"),
     "toolchain": solver("toolchain", local_if_exist, base, default_toolchain()),
     "optimize": solver("str", local_if_exist, base, ""),
-    "include_modules": solver("list", concat_to_submodule, base, []),
+    "include_modules": solver("list", local_to_submodule, base, []),
     "defines": solver("list", concat, concat, []),
     "ldscripts": solver("list", concat_add_locdir, concat_add_locdir, []),
     "local_headers": solver(
-- 
2.43.0


From 2c0153bf787127cb3c0d16bcc5217efc415b5910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:40 +0000
Subject: [PATCH 16/40] fix: an included module can include modules by name

---
 licant/cxx_modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 3063c37..fbdc4f0 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -453,7 +453,7 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
         # Проходим по include_modules, рекурсивно формируем локальные опции.
         def include_modules(locopts, lst):
             retopts = locopts
-            for simod in lst:
+            for simod in map(licant.modules.submodule, lst):
                 imod = mlibrary.get(simod.name, simod.impl)
                 retopts = retopts.merge(imod, "include")
 
-- 
2.43.0


From 2c0ea4c676912b12ce9f9c7f8c98c52869ea904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:42 +0000
Subject: [PATCH 17/40] fix: generated include directories of a module do not
 leak into its siblings

---
 licant/cxx_modules.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index fbdc4f0..28a1aef 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -469,6 +469,9 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
         for imod in collect_modules(mod):
             locopts = locopts.merge(imod, "include")
 
+        # Local copy: the list can belong to the ancestor or to the registered module.
+        locopts.opts["include_paths"] = list(locopts["include_paths"])
+
         local_headers_targets = []
         if len(locopts["local_headers"]):
             locopts["include_paths"].append(
-- 
2.43.0


From 59d906be0d3857d81bc91565d1180534e5212b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:05 +0000
Subject: [PATCH 18/40] fix: the toolchain options of the command line have an
 effect

---
 licant/cxx_make.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/licant/cxx_make.py b/licant/cxx_make.py
index f278dd4..718c7e3 100644
--- a/licant/cxx_make.py
+++ b/licant/cxx_make.py
@@ -10,6 +10,7 @@ DEFAULT_TOOLCHAIN = "std"
 def set_default_toolchain(toolchain):
     global DEFAULT_TOOLCHAIN
     DEFAULT_TOOLCHAIN = toolchain
+    default_toolchain()
 
 class Options:
     pass
@@ -68,17 +69,23 @@ def clang_toolchain():
         moc="moc",
         uic="uic")
 
+# One object for all, because the command line is usually parsed
+# after the modules have been declared.
+_default_toolchain = standart_toolchain()
+
+
 def default_toolchain():
     if DEFAULT_TOOLCHAIN == "clang":
-        return clang_toolchain()
-
-    if DEFAULT_TOOLCHAIN == "gcc":
-        return gcc_toolchain()
+        selected = clang_toolchain()
+    elif DEFAULT_TOOLCHAIN == "gcc":
+        selected = gcc_toolchain()
+    elif DEFAULT_TOOLCHAIN == "std":
+        selected = standart_toolchain()
+    else:
+        raise Exception("unknown toolchain")
 
-    if DEFAULT_TOOLCHAIN == "std":
-        return standart_toolchain()
-        
-    raise Exception("unknown toolchain")
+    _default_toolchain.__dict__.update(selected.__dict__)
+    return _default_toolchain
 
 class options:
     def __init__(
-- 
2.43.0


From c8bc3fd4c816ee849d99441865134b4ff01e4269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:26 +0000
Subject: [PATCH 19/40] fix: sources of one module never share an object file

---
 licant/cxx_modules.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 28a1aef..f97a4fb 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -230,27 +230,36 @@ def cxx_options_from_modopts(modopts):
     )
 
 
+def build_path(path, builddir):
+    if os.path.isabs(path):
+        return builddir + os.path.normpath(path)
+    return os.path.normpath(os.path.join(builddir, path.replace("..", "__")))
+
+
 def build_paths(srcs, opts, ext, prefix=None, builddir=None):
     if builddir is None:
         builddir = opts.opts["builddir"]
 
     objs = []
+    owners = {}
 
     for s in srcs:
+        source = licant.util.canonical_path(s)
         if prefix:
             split = os.path.split(s)
             s = os.path.join(*split[:-1], prefix + split[-1])
-        if os.path.isabs(s):
-            s = builddir + gu.changeext(s, ext)
-            objs.append(s)
-        else:
-            objs.append(
-                os.path.normpath(
-                    os.path.join(
-                        builddir, gu.changeext(s, ext).replace("..", "__")
-                    )
-                )
-            )
+
+        obj = build_path(gu.changeext(s, ext), builddir)
+        if owners.get(obj, source) != source:
+            # Object of another source (a.c and a.cpp): keep the extension.
+            obj = build_path(s + "." + ext, builddir)
+        number = 1
+        while owners.get(obj, source) != source:
+            obj = build_path("{}.{}.{}".format(s, number, ext), builddir)
+            number += 1
+
+        owners[obj] = source
+        objs.append(obj)
 
     return objs
 
-- 
2.43.0


From af0a41f0d11cd68fc9382751a957137c24d0f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:01 +0000
Subject: [PATCH 20/40] fix: header names with unusual characters are read from
 dependency files

---
 licant/util.py | 80 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 75 insertions(+), 5 deletions(-)

diff --git a/licant/util.py b/licant/util.py
index c91727c..015b01c 100644
--- a/licant/util.py
+++ b/licant/util.py
@@ -237,21 +237,91 @@ def find_recursive(root, pattern, hide, debug):
     return result
 
 
-cxx_read_depends_pattern = re.compile(r"[\w./-]+")
+def split_make_rules(text):
+    """Words of a makefile fragment, with the quoting of the compiler removed.
+    A word that ends in an unquoted colon (a target) is returned with it as
+    second element of the pair."""
+
+    words = []
+    word = ""
+    started = False
+    i = 0
+
+    while i < len(text):
+        c = text[i]
+        i += 1
+
+        if c == "\\":
+            count = 1
+            while i < len(text) and text[i] == "\\":
+                count += 1
+                i += 1
+
+            follow = text[i] if i < len(text) else ""
+            if follow == "\r" and text[i + 1:i + 2] == "\n":
+                i += 1
+                follow = "\n"
+
+            if follow == "\n" and count % 2 == 1:
+                # line continuation
+                word += "\\" * (count - 1)
+                c = " "
+                i += 1
+            elif follow in (" ", "\t"):
+                # backslashes are doubled in front of blanks only
+                word += "\\" * (count // 2)
+                started = True
+                if count % 2 == 1:
+                    word += follow
+                    i += 1
+                continue
+            elif follow in ("#", ":") and count % 2 == 1:
+                word += "\\" * (count - 1) + follow
+                started = True
+                i += 1
+                continue
+            else:
+                word += "\\" * count
+                started = True
+                continue
+
+        if c == "$" and text[i:i + 1] == "$":
+            i += 1
+        elif c == ":" and (i == len(text) or text[i] in " \t\r\n\\"):
+            words.append((word, True))
+            word = ""
+            started = False
+            continue
+        elif c in " \t\r\n":
+            if started:
+                words.append((word, False))
+            word = ""
+            started = False
+            continue
+
+        word += c
+        started = True
+
+    if started:
+        words.append((word, False))
+
+    return words
 
 
 def cxx_read_depends(path):
     if not os.path.exists(path):
         return None
     else:
-        f = open(path)
-        text = f.read()
+        with open(path) as f:
+            text = f.read()
 
         if len(text) == 0:
             return None
 
-        lst = cxx_read_depends_pattern.findall(text)
-        return lst[2:]
+        lst = [word for word, is_target in split_make_rules(text) if not is_target]
+
+        # without the source itself
+        return lst[1:]
 
 
 def get_actions(target):
-- 
2.43.0


From ff03fa523175ab46372e68aedbdf810c037899be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:22 +0000
Subject: [PATCH 21/40] fix: a quoted number sign after a backslash in a
 dependency file

---
 licant/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/util.py b/licant/util.py
index 015b01c..075edc3 100644
--- a/licant/util.py
+++ b/licant/util.py
@@ -275,7 +275,7 @@ def split_make_rules(text):
                     word += follow
                     i += 1
                 continue
-            elif follow in ("#", ":") and count % 2 == 1:
+            elif follow in ("#", ":"):
                 word += "\\" * (count - 1) + follow
                 started = True
                 i += 1
-- 
2.43.0


From 889679068176ebac92fb12b890d5447b5eba6388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:08 +0000
Subject: [PATCH 22/40] fix: licant_libs -r removes the named library, no
 arguments print the help

---
 licant/licant_libs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/licant/licant_libs.py b/licant/licant_libs.py
index 4f46556..9e1fd1b 100644
--- a/licant/licant_libs.py
+++ b/licant/licant_libs.py
@@ -55,7 +55,7 @@ def licant_libs_utility():
         exit(0)
 
     if len(args) == 0:
-        parser.help()
+        parser.print_help()
         exit(0)
 
     path = None
@@ -75,6 +75,7 @@ def licant_libs_utility():
             add_record(name, path)
 
     if opts.remove:
+        name = args[0]
         try:
             del paths[name]
         except:
-- 
2.43.0


From 64d31d56ee98066ecf2f363331268d17fc9720c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:13 +0000
Subject: [PATCH 23/40] fix: a search path without /usr/local/bin yields an
 application directory

---
 licant/install.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/licant/install.py b/licant/install.py
index 4a1ca26..8731122 100644
--- a/licant/install.py
+++ b/licant/install.py
@@ -15,8 +15,9 @@ is_windows = sys.platform == 'win32'
 def find_application_path():
     global error_in_install_library
 
-    envout = os.environ["PATH"]
+    envout = os.environ.get("PATH", "")
     path_list = envout.split(":")
+    path = None
 
     if "PREFIX" in os.environ:
         return os.path.join(os.environ["PREFIX"], "bin")
@@ -37,7 +38,8 @@ def find_application_path():
             if "\\usr\\local\\bin" in p:
                 path = p
                 break
-        else:
+
+        if path is None:
             print("Warning: Install path not found")
             error_in_install_library = True
 
-- 
2.43.0


From cf171b8566ac2bd5f6eb3e5f37e0884c745cb36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:05 +0000
Subject: [PATCH 24/40] fix: an application installed without a target name
 does not depend on itself

---
 licant/install.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/licant/install.py b/licant/install.py
index 8731122..d827273 100644
--- a/licant/install.py
+++ b/licant/install.py
@@ -83,9 +83,9 @@ def install_application(src, dst, tgt=None):
         return None
 
     apptgt = os.path.join(path, dst)
-    if tgt is None:
-        tgt = apptgt
     licant.make.copy(tgt=apptgt, src=src)
+    if tgt is None:
+        return apptgt
     return licant.fileset(tgt=tgt, targets=[apptgt])
 
 
-- 
2.43.0


From 5e5a16dfa6e63d4b740a0efaed7ee1fee6326763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:16 +0000
Subject: [PATCH 25/40] fix: one header directory can be installed to several
 places

---
 licant/install.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/licant/install.py b/licant/install.py
index d827273..95062f5 100644
--- a/licant/install.py
+++ b/licant/install.py
@@ -104,7 +104,14 @@ def install_headers(tgtdir, srcdir, patterns=("*.h", "*.hxx"), adddeps=[]):
 
     targets = [licant.copy(src=h, tgt=os.path.join(
         headers_path, tgtdir, os.path.relpath(h, srcdir)), adddeps=adddeps) for h in headers]
-    full_target = licant.fileset(tgt="headers://"+srcdir, targets=targets)
+
+    # One directory can be installed to several places.
+    name = "headers://" + srcdir
+    number = 1
+    while default_core().exist(name):
+        number += 1
+        name = "headers://{}#{}".format(srcdir, number)
+    full_target = licant.fileset(tgt=name, targets=targets)
 
     return full_target, targets
 
-- 
2.43.0


From 5d7dbeb7d3071a8e51f7dcaffb20a42ee9f84773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:18 +0000
Subject: [PATCH 26/40] fix: the uninstall target deletes the installed files

---
 licant/install.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/licant/install.py b/licant/install.py
index 95062f5..922c4cf 100644
--- a/licant/install.py
+++ b/licant/install.py
@@ -129,6 +129,14 @@ def install_shared_library(src, newname=None):
     return tgt
 
 
+def remove_installed(target):
+    """Delete the files that an uninstall target is weakly bound to."""
+    for name in sorted(target.weakdeps):
+        installed = target.core.get(name)
+        if licant.make.if_file_and_exist(installed):
+            installed.clr()
+
+
 def install_library(tgt, hroot, headers, headers_patterns=("*.h", "*.hxx", "*.hpp"), uninstall=None, libtgt=None):
     if error_in_install_library:
         return None
@@ -164,8 +172,8 @@ def install_library(tgt, hroot, headers, headers_patterns=("*.h", "*.hxx", "*.hp
         default_core().add(
             licant.make.MakeFileTarget(
                 tgt=uninstall,
-                build=licant.make.MakeFileTarget.clean,
-                makefile=licant.make.MakeFileTarget.clean,
+                build=remove_installed,
+                makefile=remove_installed,
                 deps=[],
                 weakdeps=rawtgts + ltgt
             )
-- 
2.43.0


From 04c514f5bd64a672a2e96850eb4d009575d8f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:57 +0000
Subject: [PATCH 27/40] fix: arguments of a routine do not reach later
 invocations

---
 licant/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/licant/core.py b/licant/core.py
index 67bbbc1..5c6bb53 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -420,7 +420,11 @@ class Routine(UpdatableTarget):
 
     def invoke_routine(self, *args, threads=1, **kwargs):
         self.args = list(args)
-        return self.recurse_update(threads=threads)
+        try:
+            return self.recurse_update(threads=threads)
+        finally:
+            # As a dependency of another routine this one gets no arguments.
+            self.args = []
 
 
 def routine(func=None, **kwargs):
-- 
2.43.0


From d4ea8577de0eb32f7fa89f4a9f2ded2036d35797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:59 +0000
Subject: [PATCH 28/40] fix: keyword arguments of a routine reach its function

---
 licant/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/licant/core.py b/licant/core.py
index 5c6bb53..701df76 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -414,17 +414,20 @@ class Routine(UpdatableTarget):
                                  **kwargs)
         self.func = func
         self.args = []
+        self.kwargs = {}
 
     def update(self):
-        return self.func(*self.args)
+        return self.func(*self.args, **self.kwargs)
 
     def invoke_routine(self, *args, threads=1, **kwargs):
         self.args = list(args)
+        self.kwargs = kwargs
         try:
             return self.recurse_update(threads=threads)
         finally:
             # As a dependency of another routine this one gets no arguments.
             self.args = []
+            self.kwargs = {}
 
 
 def routine(func=None, **kwargs):
-- 
2.43.0


From b417341fb8e74aa5a37cefbe3b624924107b7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:43 +0000
Subject: [PATCH 29/40] fix: implicit sources and directories are registered on
 the core of their target

---
 licant/core.py | 12 ++++++++----
 licant/make.py | 25 ++++++++++++++++---------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/licant/core.py b/licant/core.py
index 701df76..451aa89 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -62,6 +62,7 @@ class Core:
     def add(self, target):
         """Add new target"""
         target.core = self
+        target.add_implicit_targets()
         self._targets[target.tgt] = target
 
         if self.debug:
@@ -227,17 +228,20 @@ class Target:
     def is_file(self):
         return False
 
-    def expand_globs(self, deps):
+    def add_implicit_targets(self):
+        """Sources of the target, registered on the same core."""
         import licant.make
+        for r in self.deps:
+            if os.path.exists(r):
+                licant.make.source(r, core=self.core)
+
+    def expand_globs(self, deps):
         ret = []
         for d in deps:
             if "*" in d and not os.path.exists(d):
                 ret.extend(glob.glob(d))
             else:
                 ret.append(d)
-        for r in ret:
-            if os.path.exists(r):
-                licant.make.source(r)
         return ret
 
     def action_if_need(self):
diff --git a/licant/make.py b/licant/make.py
index fc4fffc..1d71911 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -135,10 +135,11 @@ class FileTarget(MakeFileTarget):
 
         tgt = licant.util.canonical_path(tgt)
 
+        self.output_directory = None
         if use_dirkeep:
             dirpath = os.path.normpath(os.path.dirname(tgt))
             if not os.path.exists(dirpath):
-                dirkeep(dirpath)
+                self.output_directory = dirpath
                 deps = deps + [dirpath]
 
         MakeFileTarget.__init__(self,
@@ -150,6 +151,12 @@ class FileTarget(MakeFileTarget):
         self.force = force
         self.clrmsg = "DELETE {tgt}"
 
+    def add_implicit_targets(self):
+        """Sources and output directory of the target, registered on the same core."""
+        if self.output_directory is not None:
+            dirkeep(self.output_directory, core=self.core)
+        MakeFileTarget.add_implicit_targets(self)
+
     def update_info(self):
         fcache.update_info(self.tgt)
 
@@ -223,23 +230,23 @@ class DirectoryTarget(FileTarget):
         pass
 
 
-def source(tgt, deps=[]):
+def source(tgt, deps=[], core=default_core()):
     """Index source file by licant core."""
 
-    if default_core().exist(tgt):
+    if core.exist(tgt):
         return
 
     target = FileTarget(
         build=lambda self: self.warn_if_not_exist(), deps=deps, tgt=tgt)
     target.clr = None
     target.dirkeep = licant.util.do_nothing
-    return default_core().add(target)
+    return core.add(target)
 
 
-def dirkeep(dirpath, message="MKDIR {tgt}"):
+def dirkeep(dirpath, message="MKDIR {tgt}", core=default_core()):
     """Create directory tree for this file if needed."""
     base_directory_path = os.path.normpath(os.path.dirname(dirpath))
-    return default_core().add(
+    return core.add(
         DirectoryTarget(
             tgt=dirpath,
             build=DirectoryKeeper(),
@@ -250,8 +257,8 @@ def dirkeep(dirpath, message="MKDIR {tgt}"):
     )
 
 
-def makedir(dirpath, message="MKDIR {tgt}"):
-    return dirkeep(dirpath, message)
+def makedir(dirpath, message="MKDIR {tgt}", core=default_core()):
+    return dirkeep(dirpath, message, core=core)
 
 
 def copy(tgt, src, adddeps=[], message="COPY {src} {tgt}", core=default_core()):
@@ -259,7 +266,7 @@ def copy(tgt, src, adddeps=[], message="COPY {src} {tgt}", core=default_core()):
     src = os.path.expanduser(str(src))
     tgt = os.path.expanduser(str(tgt))
 
-    source(src)
+    source(src, core=core)
     core.add(
         FileTarget(
             tgt=tgt,
-- 
2.43.0


From b298839996d6d59212894af0927477d44f295d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:02 +0000
Subject: [PATCH 30/40] fix: modules built on a given core declare all their
 targets there

---
 licant/cxx_modules.py | 68 ++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index f97a4fb..50a2ef1 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -294,11 +294,11 @@ def qt_ui_paths(opts):
     return ret
 
 
-def link_objects(srcs, objs, deps, cxxopts, adddeps):
+def link_objects(srcs, objs, deps, cxxopts, adddeps, core=default_core()):
 
     for s, o, d in zip(srcs, objs, deps):
-        if not default_core().has(s):
-            licant.make.source(s)
+        if not core.has(s):
+            licant.make.source(s, core=core)
 
         headers = cxx_read_depends(d)
         force = headers is None
@@ -306,43 +306,49 @@ def link_objects(srcs, objs, deps, cxxopts, adddeps):
             headers = []
         else:
             for h in headers:
-                if not default_core().has(h):
-                    licant.make.source(h)
+                if not core.has(h):
+                    licant.make.source(h, core=core)
 
         licant.cxx_make.depend(
-            src=s, tgt=d, opts=cxxopts, deps=[s] + adddeps + headers, force=force
+            src=s, tgt=d, opts=cxxopts, deps=[s] + adddeps + headers, force=force,
+            core=core
         )
         licant.cxx_make.object(
-            src=s, tgt=o, opts=cxxopts, deps=[s, d] + adddeps + headers
+            src=s, tgt=o, opts=cxxopts, deps=[s, d] + adddeps + headers,
+            core=core
         )
 
 
-def link_qt_moc(mocs, srcs, cxxopts, adddeps):
+def link_qt_moc(mocs, srcs, cxxopts, adddeps, core=default_core()):
     for m, s in zip(mocs, srcs):
-        licant.make.source(m)
-        licant.cxx_make.qt_moc(src=m, tgt=s, opts=cxxopts, deps=[m] + adddeps)
+        licant.make.source(m, core=core)
+        licant.cxx_make.qt_moc(src=m, tgt=s, opts=cxxopts,
+                               deps=[m] + adddeps, core=core)
 
 
-def link_qt_ui(uis, srcs, cxxopts, adddeps):
+def link_qt_ui(uis, srcs, cxxopts, adddeps, core=default_core()):
     for m, s in zip(uis, srcs):
-        licant.make.source(m)
-        licant.cxx_make.qt_uic(src=m, tgt=s, opts=cxxopts, deps=[m] + adddeps)
+        licant.make.source(m, core=core)
+        licant.cxx_make.qt_uic(src=m, tgt=s, opts=cxxopts,
+                               deps=[m] + adddeps, core=core)
 
 
-def executable(srcs, opts):
+def executable(srcs, opts, core=default_core()):
     cxxopts = cxx_options_from_modopts(opts)
-    return licant.cxx_make.executable(tgt=opts["target"], srcs=srcs, opts=cxxopts)
+    return licant.cxx_make.executable(
+        tgt=opts["target"], srcs=srcs, opts=cxxopts, core=core)
 
 
-def dynlib(srcs, opts):
+def dynlib(srcs, opts, core=default_core()):
     cxxopts = cxx_options_from_modopts(opts)
     return licant.cxx_make.dynamic_library(
-        tgt=opts["target"], srcs=srcs, opts=cxxopts)
+        tgt=opts["target"], srcs=srcs, opts=cxxopts, core=core)
 
 
-def statlib(srcs, opts):
+def statlib(srcs, opts, core=default_core()):
     cxxopts = cxx_options_from_modopts(opts)
-    return licant.cxx_make.static_library(tgt=opts["target"], srcs=srcs, opts=cxxopts)
+    return licant.cxx_make.static_library(
+        tgt=opts["target"], srcs=srcs, opts=cxxopts, core=core)
 
 
 def virtual(srcs, opts):
@@ -486,15 +492,16 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
             locopts["include_paths"].append(
                 locopts["builddir"] + "/__LOCAL_HEADERS__/")
             for pair in locopts["local_headers"]:
-                licant.make.source(pair[1])
+                licant.make.source(pair[1], core=core)
                 tgtpath = os.path.join(
                     locopts["builddir"], "__LOCAL_HEADERS__", pair[0]
                 )
-                licant.make.copy(src=pair[1], tgt=tgtpath)
+                licant.make.copy(src=pair[1], tgt=tgtpath, core=core)
 
                 local_headers_targets.append(tgtpath)
 
-        licant.make.fileset(name + "__local_headers__", local_headers_targets)
+        licant.make.fileset(
+            name + "__local_headers__", local_headers_targets, core=core)
         adddeps.append(name + "__local_headers__")
 
         for dep in locopts["depends"]:
@@ -515,7 +522,7 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
             locuihxx = build_paths(locui, locopts, "h",
                                    builddir=uidir,
                                    prefix="ui_")
-            link_qt_ui(locui, locuihxx, cxxopts, adddeps)
+            link_qt_ui(locui, locuihxx, cxxopts, adddeps, core)
             adddeps.extend(locuihxx)
 
             if uidir not in locopts.opts["include_paths"]:
@@ -529,17 +536,17 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
             locmoccxx = build_paths(locmoc, locopts, "h.cxx")
             locmocobjs = build_paths(locmoc, locopts, "h.cxx.o")
             locmocdeps = build_paths(locmoc, locopts, "h.cxx.d")
-            link_qt_moc(locmoc, locmoccxx, cxxopts, adddeps)
+            link_qt_moc(locmoc, locmoccxx, cxxopts, adddeps, core)
 
             locsrcs.extend(locmoccxx)
             locobjs.extend(locmocobjs)
             locdeps.extend(locmocdeps)
 
-        link_objects(locsrcs, locobjs, locdeps, cxxopts, adddeps)
+        link_objects(locsrcs, locobjs, locdeps, cxxopts, adddeps, core)
 
         if len(locopts["objects"]) != 0:
             for t in locopts["objects"]:
-                licant.make.source(t)
+                licant.make.source(t, core=core)
             locobjs.extend(locopts["objects"])
 
         submodules_results = []
@@ -549,11 +556,11 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
             submodules_results += [str(r) for r in results]
 
         if locopts["type"] == "application":
-            return ([executable(locobjs + submodules_results, locopts)], locopts)
+            return ([executable(locobjs + submodules_results, locopts, core)], locopts)
         elif locopts["type"] == "shared_library":
-            return ([dynlib(locobjs + submodules_results, locopts)], locopts)
+            return ([dynlib(locobjs + submodules_results, locopts, core)], locopts)
         elif locopts["type"] == "static_library":
-            return ([statlib(locobjs + submodules_results, locopts)], locopts)
+            return ([statlib(locobjs + submodules_results, locopts, core)], locopts)
         elif locopts["type"] == "objects":
             return (locobjs + submodules_results, locopts)
         else:
@@ -611,7 +618,8 @@ def library(*args, shared=True, **kwargs):
 def static_and_shared(name, static_lib, shared_lib, **kwargs):
     a = static_library(static_lib, **kwargs)
     b = shared_library(shared_lib, **kwargs)
-    licant.make.fileset(name, [a.tgt, b.tgt])
+    licant.make.fileset(name, [a.tgt, b.tgt],
+                        core=kwargs.get("core", default_core()))
     return a, b
 
 
-- 
2.43.0


From bb4583379dabe9cd9adee714d2672d5ed3d9f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:16 +0000
Subject: [PATCH 31/40] fix: an interrupt that hits the executor ends the build
 instead of hanging it

---
 licant/solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/licant/solver.py b/licant/solver.py
index 3cafba0..e354f0b 100644
--- a/licant/solver.py
+++ b/licant/solver.py
@@ -150,8 +150,10 @@ class TaskInvoker:
                         break
 
             except KeyboardInterrupt:
+                # The interrupted task will never be finished in the queue:
+                # leave it to run_until_complete to end the execution.
                 self.error_while_execution = True
-                break
+                raise
 
         await self.release_queue()
 
-- 
2.43.0


From 7c8deeebdde94ea78931fc77bed5d854b2b86fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:29 +0000
Subject: [PATCH 32/40] fix: a local tunnel can be made in the current
 directory

---
 licant/libs.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/licant/libs.py b/licant/libs.py
index 6a7398d..da6d3e4 100644
--- a/licant/libs.py
+++ b/licant/libs.py
@@ -59,8 +59,7 @@ def include(lib, path=None, local_tunel=None):
 
         if not os.path.exists(local_tunel[0]):
             # Убеждаемся, что директории до тунеля существуют
-            if not os.path.exists(os.path.dirname(local_tunel[0])):
-                os.makedirs(os.path.dirname(local_tunel[0]))
+            os.makedirs(os.path.dirname(os.path.abspath(local_tunel[0])), exist_ok=True)
 
             rawdir = os.path.dirname(libs[lib])
 
-- 
2.43.0


From 9af87512f315cd4e37762fa9da1e4913eadc516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:30 +0000
Subject: [PATCH 33/40] fix: a local tunnel is made where its script is looked
 for

---
 licant/libs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/licant/libs.py b/licant/libs.py
index da6d3e4..12f9b7a 100644
--- a/licant/libs.py
+++ b/licant/libs.py
@@ -57,14 +57,16 @@ def include(lib, path=None, local_tunel=None):
         # with python packages. Local tunel create link
         # for setup.py can find sources by relative path.
 
-        if not os.path.exists(local_tunel[0]):
+        link = os.path.join(scriptq.curdir(), local_tunel[0])
+
+        if not os.path.exists(link):
             # Убеждаемся, что директории до тунеля существуют
-            os.makedirs(os.path.dirname(os.path.abspath(local_tunel[0])), exist_ok=True)
+            os.makedirs(os.path.dirname(os.path.abspath(link)), exist_ok=True)
 
             rawdir = os.path.dirname(libs[lib])
 
-            if not os.path.exists(local_tunel[0]):
-                os.symlink(rawdir, local_tunel[0])
+            if not os.path.exists(link):
+                os.symlink(rawdir, link)
 
             included[lib] = os.path.join(local_tunel[0], local_tunel[1])
             scriptq.execute(os.path.join(local_tunel[0], local_tunel[1]))
-- 
2.43.0


From 7db51f180cc7c624fd018f80b7a0dc541a3bff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:15 +0000
Subject: [PATCH 34/40] fix: final options are shown for applications and
 libraries too

---
 licant/cxx_modules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 50a2ef1..7f4e569 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -587,6 +587,7 @@ def task(name, target, impl, type, core, **kwargs):
     #licant.make.fileset(tgt=name, targets=ret, finalopts=opts, core=core)
 
     if type != "objects":
+        ret[0].finalopts = opts
         return ret[0]
     else:
         return licant.make.fileset(tgt=name, targets=ret, finalopts=opts, core=core)
-- 
2.43.0


From 82793e92376473f2881920dcee42bcefc9867f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:52 +0000
Subject: [PATCH 35/40] fix: looking a path up does not keep an alias to a
 target that is registered again later

---
 licant/core.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/licant/core.py b/licant/core.py
index 451aa89..24a8796 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -89,12 +89,7 @@ class Core:
         if tgt in self._targets:
             return True
 
-        if licant.util.canonical_path(tgt) in self._targets:
-            # access optimization by lazy technique
-            self._targets[tgt] = self._targets[licant.util.canonical_path(tgt)]
-            return True
-
-        return False
+        return licant.util.canonical_path(tgt) in self._targets
 
     def depends_as_set_impl(self, tgt, accum):
         target = self.get(str(tgt))
-- 
2.43.0


From f14d3f2e5992c3b34fb23fc46724100ff5af8b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:14 +0000
Subject: [PATCH 36/40] fix: a dependency registered again after a build was
 still judged by its old declaration

---
 licant/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/licant/core.py b/licant/core.py
index 24a8796..e91015c 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -325,6 +325,8 @@ class UpdatableTarget(Target):
 
     def nullify_update_needity(self):
         self.need_update = None
+        # A dependency can have been registered again.
+        self.cached_deplist = None
 
     def recurse_update_get_args(self):
         return self.recurse_update()
-- 
2.43.0


From 27e42aaa5cc5c7d8683bccbbc094866cd734541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:17 +0000
Subject: [PATCH 37/40] fix: an action raising StopIteration, CancelledError or
 another BaseException hung the executor

---
 licant/solver.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/licant/solver.py b/licant/solver.py
index e354f0b..654c3d4 100644
--- a/licant/solver.py
+++ b/licant/solver.py
@@ -14,8 +14,16 @@ class DependableTarget:
         self._is_done = False
 
     def doit_impl(self):
-        a = self.what_to_do(*self.args, **self.kwargs)
-        return a
+        try:
+            return self.what_to_do(*self.args, **self.kwargs)
+        except (KeyboardInterrupt, SystemExit):
+            raise
+        except BaseException:
+            # Whatever else the action raises is its failure. It is not given
+            # to the event loop, which takes some exceptions (StopIteration,
+            # CancelledError, GeneratorExit) for its own and never finishes.
+            traceback.print_exc()
+            return False
 
     async def doit(self):
         task = asyncio.to_thread(self.doit_impl)
-- 
2.43.0


From a04aaa733d516d6ffc5ab767acac6b3503751760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:19 +0000
Subject: [PATCH 38/40] fix: a message that cannot be formatted made the build
 fail, but not with -q or -d

---
 licant/make.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/licant/make.py b/licant/make.py
index 1d71911..148d903 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -36,10 +36,16 @@ def do_execute(target, rule, msgfield, prefix=None):
     if not core.runtime["quite"]:
         if not core.runtime["debug"] and message is not None:
             if not isinstance(message, quite):
+                try:
+                    message = message.format(**target.__dict__)
+                except Exception:
+                    # Printed as it is: a message never makes the command fail.
+                    pass
+
                 if prefix is not None:
-                    sprint(prefix, message.format(**target.__dict__))
+                    sprint(prefix, message)
                 else:
-                    sprint(message.format(**target.__dict__))
+                    sprint(message)
 
         else:
             sprint(rule)
-- 
2.43.0


From 7bcdcabd11048b24969e9828bfc428fb804ce009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:22 +0000
Subject: [PATCH 39/40] fix: files changed by others between two builds of one
 process were not looked at again

---
 licant/make.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/licant/make.py b/licant/make.py
index 148d903..3896713 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -163,6 +163,11 @@ class FileTarget(MakeFileTarget):
             dirkeep(self.output_directory, core=self.core)
         MakeFileTarget.add_implicit_targets(self)
 
+    def nullify_update_needity(self):
+        # The file can have changed since the last build of this process.
+        self.update_info()
+        MakeFileTarget.nullify_update_needity(self)
+
     def update_info(self):
         fcache.update_info(self.tgt)
 
-- 
2.43.0


From 7bea3ae9994c442f000277ad7ac70f5d8cb2cfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:33 +0000
Subject: [PATCH 40/40] fix: the update condition of a target was evaluated
 once for every path that leads to it, exponentially often in layered graphs

---
 licant/core.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/licant/core.py b/licant/core.py
index e91015c..45ce6ea 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -338,14 +338,10 @@ class UpdatableTarget(Target):
         if self.need_update is not None:
             return self.need_update
 
-        if self.update_if(self):
-            return True
-
-        for dep in self.get_deplist():
-            if dep.recursive_update_needed_request():
-                return True
-
-        return False
+        # Kept, so that no target is asked again by another dependent.
+        self.need_update = bool(self.update_if(self)) or any(
+            dep.recursive_update_needed_request() for dep in self.get_deplist())
+        return self.need_update
 
     def invoke_function_or_method(self, act):
         if isinstance(act, types.MethodType):
-- 
2.43.0

