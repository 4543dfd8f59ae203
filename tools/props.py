#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os

P = []


def p(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": a})


p("C01", "Dependencies run first, and every action runs at most once",
  "While a dependency graph is being executed, the action of a target starts only after the actions of all of its dependencies have finished without failing. No target's action is started twice in one execution. This holds for every acyclic graph, every number of worker threads and every order in which running actions happen to finish.",
  ["schedules", "inputs"], "every acyclic graph of named targets, every thread count >= 1, every completion order and duration of the actions",
  "The one solver test runs a single five-node graph with whatever order the thread pool happens to produce; it can never show the absence of a bad interleaving on another graph.",
  ["licant/solver.py", "licant/core.py"],
  [("countdown of unfinished dependencies per target, target queued at zero", "licant/solver.py DependableTargetRuntime"),
   ("worker loop", "licant/solver.py TaskInvoker.worker"),
   ("graph built from the dependency closure", "licant/core.py UpdatableTarget.recurse_update")],
  state=[("depcount", "dependencies not finished yet", "licant/solver.py"), ("queue", "targets ready to run", "licant/solver.py")],
  observe=["start and end of each action"])

p("C02", "A build without failures runs every action, ends, and reports success",
  "If no action fails, executing a well-formed graph terminates, every target's action has been run exactly once when it returns, and the execution reports success. An action succeeds unless it returns the value False or raises: any other return value, including nothing, zero and an empty text, is success. This holds for every acyclic graph, thread count and completion order.",
  ["schedules", "inputs"], "every acyclic graph, every thread count >= 1, every completion order, every non-False return value",
  "Lost wake-ups and premature worker exits show only for particular combinations of graph shape, thread count and completion order; tests sample one of each.",
  ["licant/solver.py", "licant/core.py"],
  [("worker exit condition and queue join", "licant/solver.py TaskInvoker.worker/start/release_queue"),
   ("final consistency check", "licant/solver.py InverseRecursiveSolver.exec")],
  observe=["return value of the execution", "set of executed actions", "termination"])

p("C03", "A failing action ends the build with failure and holds back its dependents",
  "If some action returns False or raises an exception, the execution still terminates and reports failure. No action that directly or transitively depends on the failed one is started. Once a failure has been reported, no action that had not yet been started is started; actions already running are allowed to finish.",
  ["schedules", "fault_sequences", "inputs"], "every acyclic graph, every set of failing actions (by result or by exception), every thread count and completion order",
  "No test makes an action fail, let alone while others are running.",
  ["licant/solver.py", "licant/core.py"],
  [("error flag checked by every worker before and after running an action", "licant/solver.py TaskInvoker.worker"),
   ("draining of the queue after an error", "licant/solver.py TaskInvoker.release_queue")],
  observe=["return value", "actions started after the failure", "termination"])

p("C04", "Parallelism: never more than N actions at once, never an idle slot",
  "With N worker threads (the number given on the command line, otherwise the number of processors) at most N actions are in progress at any moment; with N = 1 actions never overlap. While no action has failed, whenever an action is ready (all its dependencies finished) and fewer than N actions are in progress, a ready action is started without waiting for any running action to finish.",
  ["schedules", "inputs", "configurations"], "every acyclic graph, every N >= 1, every completion order",
  "Tests never observe how many actions run concurrently; both halves depend on the interleaving.",
  ["licant/solver.py", "licant/core.py", "licant/cli.py"],
  [("one coroutine per worker", "licant/solver.py TaskInvoker.start"), ("ready queue", "licant/solver.py TaskInvoker")],
  observe=["number of actions in progress over time"])

p("C05", "Ill-formed graphs are refused before anything runs; well-formed ones are not",
  "A graph that contains a dependency cycle (of any length, including a target depending on itself, and whether or not the cycle is reachable from a target without dependencies) or a dependency on an unknown target is refused with an error before any action runs, and never hangs. A graph whose dependencies are all known and acyclic is never refused.",
  ["inputs"], "every directed graph, cyclic or not, with known and unknown dependency names",
  "Tests cover one cyclic and one dangling graph; the classification must be right for every graph shape.",
  ["licant/solver.py", "licant/core.py"],
  [("cycle search and connectivity check", "licant/solver.py InverseRecursiveSolver.dfs/connectivity_check"),
   ("unknown dependency check", "licant/solver.py InverseRecursiveSolver.collect_depends_of_targets")],
  observe=["exception raised on construction/execution", "set of executed actions"])

p("C06", "A file is rebuilt exactly when it or something it depends on is out of date",
  "Updating a target runs the build action of exactly those targets in its dependency closure that need it: a file target needs it if it is forced, missing, or older than a file (or file set) it depends on; any updatable target needs it if its own update condition holds or if any of its dependencies needs it. Everything else, inside or outside the closure, is left alone; targets whose time equals that of their dependencies count as up to date.",
  ["inputs", "configurations"], "every dependency graph of file, file-set and plain updatable targets, every combination of existing/missing files and of modification times, every update condition",
  "Tests touch two-node chains with one ordering of times; the decision is a function of all times, flags and edges.",
  ["licant/make.py", "licant/core.py", "licant/cache.py"],
  [("own-staleness test", "licant/make.py FileTarget.internal_update_if"),
   ("propagation along dependencies", "licant/core.py UpdatableTarget.recursive_update_needed_request"),
   ("file information cache", "licant/cache.py FileCache")],
  state=[("need_update", "decision per target for the current request", "licant/core.py")],
  observe=["which build actions run"])

p("C07", "A finished build leaves nothing to do, and an edit rebuilds only its dependents",
  "After a successful build in which every action wrote its output, building again at once, in the same process or in a new one, runs no build action. If afterwards one source file gets a newer modification time and the build is requested again, in a new process or in the same one, exactly the targets depending on it directly or transitively are rebuilt, and a further run again does nothing.",
  ["histories", "inputs"], "every initial state of files and times, every graph of file targets, every choice of edited source",
  "It is a statement about sequences of builds from arbitrary starting states; one test repeats one copy.",
  ["licant/make.py", "licant/core.py", "licant/cache.py"],
  [("cache refreshed after each action", "licant/make.py FileTarget.update"), ("needs recomputed for every request", "licant/core.py Target.invoke / Core.update_update_needity")],
  observe=["actions run by the second and third build"])

p("C08", "Work lost to a failed or interrupted build is done by the next one",
  "If a build of file targets stops part-way, because an action failed without writing its output or because the process died between or during actions, then a later fault-free build leaves every file that needed rebuilding before the first one rebuilt: between them, the two builds run every action that was needed, and the second one runs none whose output and inputs are already current. The later build may be another process or, after a failure, another request on the same core; a forced target is never current. (An action that was cut off or failed is assumed to have left its output unwritten.)",
  ["crash_points", "fault_sequences", "histories"], "every graph of file targets and file sets, every initial state, every set of failing actions and every crash point of the first build",
  "No test fails or kills a build; the guarantee quantifies over every crash point.",
  ["licant/make.py", "licant/core.py", "licant/cache.py", "licant/solver.py"],
  [("staleness recomputed from file times only", "licant/make.py FileTarget.internal_update_if"), ("dependents of a failed action are not run", "licant/solver.py")],
  observe=["union of actions over the two builds"])

p("C09", "All spellings of one path name the same target",
  "A file target registered under some path is found, depended on and acted on under every other spelling of the same path (relative, absolute, with '.', '..' or doubled or trailing slashes), and always as one and the same target. (A target that is not a file and has exactly the name asked for takes precedence.) A path that denotes a different file never resolves to it; asking for an unregistered target ends in an error, never in some other target.",
  ["inputs"], "every pair of path spellings over the working directory",
  "Tests only use literal, already canonical absolute paths.",
  ["licant/core.py", "licant/make.py", "licant/util.py"],
  [("canonicalisation on registration", "licant/make.py FileTarget.__init__"), ("lookup by literal then canonical name", "licant/core.py Core.get/has")],
  observe=["object returned by target lookup", "dependency resolution"])

p("C10", "Clean deletes the generated files of the target and nothing else",
  "The clean action of a target deletes every existing generated file in its dependency closure, including its own. It never deletes a source file, a directory, or any file outside that closure, and it runs no build action.",
  ["inputs", "configurations"], "every graph of sources, generated files, file sets and directories, every combination of existing files",
  "No test runs clean; deleting a source is unrecoverable, so it must hold for every graph.",
  ["licant/make.py"],
  [("closure walk with per-target delete action", "licant/make.py MakeFileTarget.clean"), ("sources have no delete action", "licant/make.py source / MakeCore.source")],
  observe=["files deleted"])

p("C11", "A command counts as successful exactly when it exits with status 0",
  "A build command (of a rule, or given to system()) is run to completion and counts as successful if and only if its exit status is 0; death by a signal is a failure. This is independent of how much the command writes to its output streams and of which bytes it writes: no amount or content of output can block the build or change the verdict, and what the command printed is shown to the user.",
  ["inputs", "fault_sequences"], "every exit status, every output volume on both streams, every output content",
  "Tests only run quiet, successful commands; blocking needs more output than a pipe holds.",
  ["licant/make.py"],
  [("run shell command, collect output, map exit status", "licant/make.py do_execute")],
  observe=["verdict of the executor", "termination"])

p("C12", "Built-in copy and delete act on exactly the named files",
  "For every file name, including names with spaces, quotes, shell metacharacters or braces, the built-in copy rule copies exactly the named source to exactly the named destination, and the delete step of clean deletes exactly the named file. No other file is read, written or deleted and no other command is run.",
  ["inputs"], "every source and destination path text",
  "Tests only use plain alphanumeric names.",
  ["licant/make.py"],
  [("shell command composed from paths", "licant/make.py copy / MakeCore.copy / FileTarget.clr")],
  observe=["argument vector the shell would execute"])

p("C13", "The directory of an output exists before the action that writes into it",
  "For a target whose output directory, or any of its parents, does not exist when the target is declared, the missing directories are created before the target's action starts, however many targets share them and however many threads are used. Directories that exist already, also those that came into being after the declaration, are left alone and never make the build fail.",
  ["inputs", "schedules", "configurations"], "every nesting depth, every set of pre-existing directories, directories appearing between declaration and build, directories coming and going between two declarations, every completion order",
  "Tests build into one or two fixed directories.",
  ["licant/make.py"],
  [("directory targets added as dependencies", "licant/make.py MakeCore.dirkeep / dirkeep / FileTarget.__init__"), ("directory creation", "licant/make.py DirectoryKeeper")],
  observe=["state of the directory tree when each action starts"])

p("C14", "The command line reaches the requested target and action with its arguments",
  "Without free arguments the default target's default action runs; with a target name that target's default action runs; with a target and one of its actions, or with only an action of the default target, exactly that action runs, and every remaining argument is passed to it unchanged, in order and number. A routine receives all arguments after its name. Anything else ends in an error with non-zero status and runs nothing.",
  ["inputs"], "every list of free arguments, every choice of default target",
  "Tests call the command line only without arguments.",
  ["licant/cli.py", "licant/core.py"],
  [("dispatch", "licant/cli.py __cliexecute"), ("invocation", "licant/core.py Target.invoke")],
  observe=["action invoked and its arguments", "process exit status"])

p("C15", "The exit status tells whether the build succeeded",
  "A build script that runs the command line finishes with a non-zero exit status whenever the requested build or routine failed, and with zero status when it succeeded. This holds for any number of threads, any target in the closure failing, and failure by command status, by returned False or by exception.",
  ["fault_sequences", "inputs"], "every graph, every set of failing actions, every way of failing, every way of requesting the build",
  "No test looks at the exit status of a failing build.",
  ["licant/cli.py", "licant/core.py", "licant/make.py"],
  [("result of the requested action", "licant/cli.py __cliexecute / cliexecute"), ("result of the execution", "licant/core.py UpdatableTarget.recurse_update / Routine.invoke_routine")],
  observe=["process exit status"])

p("C16", "Collecting module dependencies gives the closure, one implementation each",
  "The set of modules pulled in by a module is exactly the transitive closure of the declared module dependencies, each module name once. A dependency that names an implementation is satisfied by that implementation, also when others ask for the same module without naming one; one that does not is satisfied by the explicitly requested implementation if there is one collected, else by the module's default. Two different explicitly requested implementations of one module, unknown modules or implementations, and a missing default are errors; cyclic dependencies are not. (Where an explicit request is made only by a module that was itself pulled in as a default, after the default of the requested module was taken, an error is accepted, too.)",
  ["inputs", "configurations"], "every set of modules, implementations, defaults and dependency declarations, including cyclic ones",
  "No test collects modules.",
  ["licant/cxx_modules.py", "licant/modules.py"],
  [("closure with explicit requests first", "licant/cxx_modules.py collect_modules"), ("implementation lookup", "licant/modules.py ModuleLibrary.get/get_default")],
  observe=["modules collected", "error exit"])

p("C17", "Module options are combined by their documented rule, losing nothing",
  "When a module is built, list options are the inherited entries followed by the module's own followed by those of the modules it includes, each exactly once per contribution and in order; text flags are concatenated likewise; single-valued options (language standards, optimisation, debug flag, build directory, toolchain) are the module's own value if given and the inherited or default value otherwise. A language standard given by an included module prevails. Sources, objects, include paths, linker scripts and local headers contributed by a module are taken relative to that module's own directory (sources and objects: its source directory in it); options that are local to a module are not inherited.",
  ["inputs", "configurations"], "every presence/absence of each option in parent, child and included modules, every option value",
  "No test sets more than the sources of one module.",
  ["licant/cxx_modules.py"],
  [("per-option merge and include functions", "licant/cxx_modules.py cxx_module_field_list"), ("merge", "licant/cxx_modules.py CXXModuleOptions.merge")],
  observe=["compile and link commands", "dependencies of the objects"])

p("C18", "Building one submodule never changes the options of another",
  "The options used to compile or link a submodule are determined by its own declaration, the modules it includes and its ancestors. They do not depend on which siblings exist, on their order, or on anything built earlier in the same process; declaring or building a module never alters a registered module's declaration.",
  ["histories", "configurations"], "every pair of sibling modules and options, every order, every earlier declaration",
  "No test uses submodules or declares two applications.",
  ["licant/cxx_modules.py", "licant/modules.py"],
  [("options copied on merge", "licant/cxx_modules.py CXXModuleOptions.merge / prepare_targets")],
  observe=["compile and link commands with and without the sibling", "registered declarations before and after"])

p("C19", "Every source gets its own object file, inside the build directory",
  "For every source path the object and dependency files are placed inside the build directory, whatever '..' components the source path has. Two different source files of one module never share an object file.",
  ["inputs"], "every source path text, every pair of them",
  "Tests build one source.",
  ["licant/cxx_modules.py", "licant/util.py"],
  [("object path from source path", "licant/cxx_modules.py build_paths"), ("extension change", "licant/util.py changeext")],
  observe=["target names of the objects"])

p("C20", "Compile, link and archive commands carry exactly the configured options",
  "Every compile command names its source as input and its object as output, uses the compiler of the configured toolchain for the source's language, and carries every configured include path, define, language standard, flag and optimisation option once, in order, and nothing belonging to the other language. Link and archive commands name every object of the module in order, every library and library directory, link flags and linker scripts, and the declared output. Options that are not configured leave no trace. Java commands name the configured compiler, its flags and every source in order. The toolchain is the module's own or inherited one if given, else the one chosen on the command line, else the standard one.",
  ["inputs", "configurations"], "every list of include paths, defines, flags, libraries, every source language, every output kind, every toolchain prefix",
  "Tests look only at whether one default application builds.",
  ["licant/cxx_make.py", "licant/cxx_modules.py", "licant/util.py", "licant/java_make.py"],
  [("command templates", "licant/cxx_make.py options"), ("conversion of module options", "licant/cxx_modules.py cxx_options_from_modopts")],
  observe=["command lines executed"])

p("C21", "A change of any included header recompiles the sources that include it",
  "The prerequisites that the compiler wrote into a dependency file are recovered exactly, for every list of header names, layout with line continuations, and names with unusual characters. Every such header becomes a dependency of the object, so an object is rebuilt if any of its headers is newer or gone, and a missing or empty dependency file forces regeneration.",
  ["inputs", "histories"], "every list of header names the compiler can emit, every state of the dependency file",
  "Tests compile one source without headers.",
  ["licant/util.py", "licant/cxx_modules.py"],
  [("dependency file parser", "licant/util.py cxx_read_depends"), ("headers added as dependencies", "licant/cxx_modules.py link_objects")],
  observe=["dependencies of object targets", "what is rebuilt"])

p("C22", "A library is included once, from the place with the highest precedence",
  "Including a library runs its script exactly once per process however often and from wherever it is included. The script is the one at the explicitly given path if there is one, else the one registered by the user, else the one registered system-wide; an unregistered library is an error with non-zero status and runs nothing.",
  ["histories", "configurations", "inputs"], "every sequence of include calls, every content of the two registries",
  "No test includes a library.",
  ["licant/libs.py"],
  [("merged registries", "licant/libs.py init"), ("include once", "licant/libs.py include")],
  observe=["scripts executed, in order"])

p("C23", "The registry utility changes exactly the record it was asked to change",
  "Adding a library records its absolute path under its name, removing one deletes its record, listing changes nothing; all other records are preserved, and the user and system registries are never mixed up. Asking for a path that does not exist, or naming an unknown library for removal, leaves the registry unchanged; what was recorded is what a later include uses.",
  ["histories", "inputs"], "every registry content, every sequence of utility calls",
  "The utility has no test.",
  ["licant/licant_libs.py", "licant/libs.py"],
  [("read, modify, write of the registry", "licant/licant_libs.py licant_libs_utility")],
  observe=["registry content", "exit status"])

p("C24", "Scripts are resolved relative to the script that names them",
  "A script executed from another script is looked up relative to the directory of the script that asks for it, at any nesting depth; while it runs, the current directory reported is its own, and after it has finished, that of the asking script is restored. Modules declared by a script take paths relative to that script. A script that raises ends the run with an error and a non-zero status.",
  ["histories", "inputs"], "every tree of nested scripts and every directory text",
  "No test executes a subscript.",
  ["licant/scripter.py", "licant/modules.py"],
  [("script stack", "licant/scripter.py ScriptQueue")],
  observe=["reported directory", "scripts executed", "exit status"])

p("C25", "Installing puts every matching file at its place below the prefix",
  "Installing a header tree declares, for every file below the source directory that matches one of the patterns, and for no other, a copy at the same relative path below the header directory of the prefix. Applications and libraries are installed in the prefix's program and library directories, and every search path that has a usable system directory yields an application directory. Building the install target depends on all of these copies, and the uninstall target deletes exactly the installed copies.",
  ["inputs", "configurations"], "every header tree and pattern, every PREFIX and PATH setting",
  "The install test does not call the install functions at all.",
  ["licant/install.py", "licant/util.py"],
  [("recursive search", "licant/util.py recursive_glob"), ("destination path", "licant/install.py install_headers"), ("search path scan", "licant/install.py find_application_path")],
  observe=["copy targets declared"])

p("C26", "Routines run after their dependencies, with exactly their arguments",
  "Invoking a routine runs its function once, with exactly the given arguments, after the functions of all routines it depends on have run once each; if its update condition says no, and no dependency needs an update, its function is not run. A function that returns False or raises makes the invocation fail and keeps dependents from running; a later invocation is not affected by earlier ones.",
  ["inputs", "histories"], "every graph of routines, every argument list, every update condition, every sequence of invocations",
  "Tests invoke routines without dependencies or arguments.",
  ["licant/core.py"],
  [("routine target", "licant/core.py Routine"), ("registration", "licant/core.py Core.routine")],
  observe=["calls with arguments, in order"])

p("C27", "Unknown or wrongly typed module options are rejected",
  "Declaring for build a module that has, or one of whose submodules has, an option with an unknown name, or a value of the wrong type for a known option, ends in an error with non-zero status before any target is built. A module whose options are all known and well typed is never rejected for that reason.",
  ["inputs"], "every option name and every type of value",
  "Tests use one correct option.",
  ["licant/cxx_modules.py"],
  [("option table check", "licant/cxx_modules.py CXXModuleOptions.check")],
  observe=["exit status", "declared targets"])

p("C28", "A module lookup returns the implementation asked for, or its current default",
  "After any sequence of module, implementation and default declarations, looking a module up by name and implementation yields the latest declaration registered under exactly that name and implementation, and looking it up by name alone yields the implementation most recently declared default. Looking up what was never declared, or a default that was never chosen, is an error with non-zero status.",
  ["histories"], "every sequence of declarations and lookups over any names",
  "No test declares implementations.",
  ["licant/modules.py"],
  [("module library", "licant/modules.py ModuleLibrary")],
  observe=["module returned", "exit status"])

p("C29", "Trace, debug and quiet modes never change what is built",
  "For the same files, graph and request, the actions and commands run, their order constraints, the result and the exit status are the same whatever combination of the trace, debug and quiet options is given. (When an action fails, which independent actions had been started before may differ.)",
  ["configurations", "inputs"], "every combination of the output options, every graph, state of files and failing action",
  "Tests never switch these options on.",
  ["licant/core.py", "licant/make.py", "licant/solver.py", "licant/cli.py"],
  [("runtime flags", "licant/cli.py cliexecute"), ("conditional printing", "licant/make.py do_execute, licant/solver.py TaskInvoker.worker, licant/core.py Target.invoke")],
  observe=["commands executed", "exit status"])

p("C30", "Targets declared on one core are complete there and invisible elsewhere",
  "Everything that a rule declared on a given core needs in order to be built (its sources, its output directories and itself) can be resolved on that core. Declaring or building targets on one core never adds, replaces or runs a target that the user declared on another core.",
  ["configurations", "histories"], "every rule kind, every pair of cores, every order of declarations",
  "Tests use one core at a time.",
  ["licant/core.py", "licant/make.py", "licant/cxx_make.py"],
  [("registration on the given core", "licant/make.py copy/makefile/fileset/MakeCore, licant/core.py Core.add")],
  observe=["targets resolvable on each core", "actions run"])

p("C31", "An interrupt ends the build, and never hangs it",
  "When the user interrupts a running build, at whatever moment, no action that had not been started is started any more, actions that are running are left to finish, and the run ends: it never hangs. It ends with a non-zero status unless everything that was requested had been done. Even then every action has run at most once, and only after its dependencies.",
  ["crash-points", "schedules", "inputs"], "every moment of the build at which the interrupt can arrive, every acyclic graph, every number of threads and order of completion",
  "Tests never interrupt a build; the moment that goes wrong is one line of one thread.",
  ["licant/solver.py", "licant/core.py"],
  [("waiting for the workers", "licant/solver.py TaskInvoker.start, wait"), ("first error stops the workers", "licant/solver.py TaskInvoker.worker")],
  observe=["actions started after the interrupt", "end of the run", "exit status"])

p("C32", "A custom rule runs exactly its command, with its target's attributes",
  "Building a target whose rule is a command text runs exactly one command, in the current directory: the rule with every {attribute} replaced by the value that the target was declared with ({tgt} by its path, a list by its items separated by spaces), doubled braces by single ones, and everything else unchanged, whatever characters the values contain. A rule that is a function is called exactly once, with the target. A touch target leaves exactly the given text in exactly the named file.",
  ["inputs"], "every rule text, every value of every attribute, any number of targets with rules of their own",
  "Tests use one rule without awkward characters.",
  ["licant/make.py", "licant/core.py", "licant/util.py"],
  [("expansion of a rule", "licant/make.py Executor"), ("file targets with a rule", "licant/make.py makefile, makedir, touch")],
  observe=["commands executed", "content of the files"])

p("C33", "A pattern with stars stands for exactly the files that match it",
  "A dependency of a target, or a source or dependency of a module, that is given as a pattern with stars stands for exactly those existing files whose names match the pattern as in the shell (a star never crosses a directory separator and never matches a leading dot), each as if it had been named itself: no matching file is left out and no other file takes part. A pattern that nothing matches stands for nothing. A name without a star stands for itself.",
  ["inputs", "states"], "every pattern, every set of existing files with arbitrary names",
  "Tests have one directory with one matching file.",
  ["licant/util.py", "licant/make.py", "licant/cxx_modules.py", "licant/core.py"],
  [("expansion of patterns", "licant/util.py"), ("users of the expansion", "licant/make.py, licant/cxx_modules.py")],
  observe=["dependencies of the targets", "commands executed"])

p("C34", "A local tunnel leads to the library, which is run through it",
  "Including a library through a local tunnel, where nothing is at the given place (relative to the including script), leaves a link there to the directory of the registered library, parent directories included; what is already at the place is used as it is. The named script below it is then run, once per process, as seen through the tunnel. An explicit path prevails over the tunnel. A library that is not registered and has no tunnel yet is an error with non-zero status that runs nothing. Nothing else in the file system is created, replaced or removed.",
  ["inputs", "states", "histories"], "every place, every directory of the including script, every content of the registries and of the place before, every sequence of includes",
  "Tests never include a library.",
  ["licant/libs.py", "licant/scripter.py"],
  [("tunnel branch of include", "licant/libs.py include"), ("directory of the running script", "licant/scripter.py ScriptQueue")],
  observe=["links in the file system", "scripts run", "exit status"])

p("C35", "Information actions tell exactly what is registered, and change nothing",
  "The actions that only inform (m list, m print, l list, l included, cxxm collect_modules, cxxm finalopts, and actlist and dependies of any target) tell exactly what is registered at that moment: every module that matches the given expression once with exactly its implementations; the options of the module or result that was asked for and of no other; every library with the place it is taken from, and those included so far; exactly the actions that the command line accepts for the target; exactly its dependencies. Asking about something unknown is an error with non-zero status. They run no command and no action of another target, and change no file.",
  ["inputs", "states"], "every set of declared modules, implementations, libraries and targets, every question about them",
  "No test asks for information.",
  ["licant/modules.py", "licant/libs.py", "licant/cxx_modules.py", "licant/core.py", "licant/util.py"],
  [("m list, m print", "licant/modules.py print_modules_list, print_module"), ("l list, l included", "licant/libs.py print_system_libs, print_included_libs"),
   ("cxxm", "licant/cxx_modules.py print_collect_list, print_finalopts"), ("actlist, dependies", "licant/core.py Target")],
  observe=["printed text", "exit status", "commands executed"])

p("C36", "One request asks every update condition at most once, before any action",
  "When a target is requested, by the command line or by a script, the update condition of every target is evaluated at most once and before the first build action starts, whatever the dependency graph and the order of declaration; what is done follows from the answers given then. Deciding what to do therefore takes a number of evaluations that is at most the number of targets, also when many dependency paths lead to one target. A further request asks anew.",
  ["inputs", "histories", "configurations"], "every acyclic dependency graph of updatable targets, routines and file sets, every order of declaration, every answer of every condition, every sequence of requests",
  "Tests have graphs in which one path leads to each target; the number of evaluations is a function of graph and order.",
  ["licant/core.py"],
  [("decision before the build", "licant/core.py Core.update_update_needity"), ("answers kept", "licant/core.py UpdatableTarget.recursive_update_needed_request")],
  observe=["calls of update conditions", "calls of build actions"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
