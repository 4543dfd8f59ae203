"""Per property: how it is decided (what is symbolic, the oracle)."""
HOW = {
"C01": "The real `InverseRecursiveSolver`/`TaskInvoker` (and `Core.do`) run every acyclic graph, thread count and completion order; "
       "each action logs symbolic-clock start and end. Oracle: the edge set itself (start after end of every dependency, one start per target, closure exactly).",
"C02": "As C01 with results that are not False. Oracle: outcome True, every target in the log once, no path that blocks (a loop with nothing to complete is reported as a hang).",
"C03": "As C01 with results False or any of 16 exceptions. Oracle: outcome is failure, no dependent in the log, nothing started after the failure's end; hang detection.",
"C04": "Occupancy is computed from the log at every start. Oracle: occupancy <= N; at every moment the loop idles, no ready action with a free slot. N arrives through the command line, too.",
"C05": "Every directed graph incl. self-edges and unknown names. Oracle: acyclicity and known names computed by the harness (reachability formula) against refused/accepted; nothing ran when refused.",
"C06": "Times are reals, existence and force flags are Booleans, all symbolic; the code's comparisons fork only where undecided. Oracle: a recursive reference definition of 'needs it' evaluated as a z3 formula per path.",
"C07": "Build, build again (same process or new cores), edit (any amount newer), build, build. Oracle: set of dependents by reachability; second runs run nothing.",
"C08": "A failing action or a crash after any completed action, then a fault-free build. Oracle: union of actions = those needed at first; the second build runs none whose output and inputs are current.",
"C09": "Texts are character variables; `canonical_path` and `os.path` are executed symbolically. Oracle: component-wise normalisation written independently in the harness.",
"C10": "Any existence of any file; deletion commands recorded with their words. Oracle: closure by the harness, generated-and-existing files exactly.",
"C11": "Exit status, byte counts on both streams and validity as UTF-8 are variables; pipes fill up at 65536. Oracle: verdict == (status == 0); output shown; no blocked path.",
"C12": "File names of arbitrary characters go through licant's quoting and the shell model. Oracle: words of the command that `cp`/`rm` get are exactly the names; one command only.",
"C13": "Directories missing, there, appearing at any moment (declaration, just before mkdir, by another action). Oracle: every parent exists at the start of each action; never a failure.",
"C14": "The words of the command line are choices out of all classes of words or arbitrary texts; argparse runs as it is. Oracle: the dispatch rule written down independently.",
"C15": "Every failing subset, kind of failure and way to ask, through a script that calls `licant.ex`. Oracle: status zero iff everything needed succeeded.",
"C16": "Module graphs with named and default implementations. Oracle: an independent fixpoint of the closure rule.",
"C17": "Each option's value in each of 7 modules is symbolic and may be absent. Oracle: the combination table (inherited + own + included) as list formula, compared with the recorded compile and link commands.",
"C18": "The same declarations with and without siblings, in both orders, before and after another build. Oracle: equality of the commands of the submodule in both worlds (a self-composition), and of the registered declaration before and after.",
"C19": "Source directory, base and roots are character variables. Oracle: object path normalises to below the build directory; two objects equal implies two sources equal.",
"C20": "Option values symbolic; the recorded command is split by the shell model. Oracle: expected argument list by the option table.",
"C21": "The header name's characters are variables; the compiler's escaping is modelled and licant's parser is run on the text. Oracle: names recovered = names written; rebuild relation as in C07.",
"C22": "Registries as symbolic presence, include order and places. Oracle: precedence rule; each script once.",
"C23": "Sequences of calls of the utility on any state of the two registries. Oracle: an abstract map updated per call.",
"C24": "Script names are character variables, resolved by licant and by the harness. Oracle: relative-to-asker rule; current directory stack; exceptions.",
"C25": "Tree names are symbolic. Oracle: pattern match as z3 formula; destination = prefix + relative path; install and uninstall actions' recorded words.",
"C26": "Graphs of routines with symbolic conditions, failures and argument texts. Oracle: recursive reference; arguments equal; second invocation independent.",
"C27": "The option name's characters are variables. Oracle: membership in the documented table (z3 disjunction over names), type equality.",
"C28": "Sequences of declarations with symbolic names. Oracle: last-write-wins map as formula.",
"C29": "The same world is run with and without the options (self-composition on equal variables). Oracle: equal logs, results, statuses.",
"C30": "Two cores with a rule of each kind. Oracle: every dependency of a target resolvable on its core; the other core's targets unchanged.",
"C31": "The moment of the interrupt is a solver choice over all lines of licant/solver.py, calls and waiting points. Oracle: nothing starts afterwards, the run ends, status.",
"C32": "Rule pieces, attribute values and contents are character variables. Oracle: independent expansion; one command with that text.",
"C33": "File names are character variables. Oracle: pattern match as z3 formula (star does not cross '/' or a leading dot).",
"C34": "Registries, places and what is there. Oracle: expected tree after the run, script run through the tunnel once.",
"C35": "Registrations with symbolic names and filters; printed text recorded. Oracle: expected lines; everything else of the world equal before and after.",
"C36": "Update conditions answer with a solver variable each and are counted. Oracle: asked at most once per request, never after an action started, run == what the answers imply.",
}
