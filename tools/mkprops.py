"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(quant.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            **({"observe_at": observe} if observe else {}),
            **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
            "hook_needed": None,
        },
    })


prop("C01", "Effective configuration follows the documented precedence",
     """For every combination of command-line options, in-file configuration comments and configuration files
     (packaged, local, inherited, implicit edulint.toml/.edulint.toml in the file's directory or a parent), the
     configuration a file is linted with is the one the documentation prescribes: command line over in-file over
     configuration file, a file's own settings over those it inherits, later over earlier, linter argument lists
     accumulated in that order and other options replaced, and option groups expanded where they are set.
     A problem with one option (unknown name, missing or superfluous value, wrong type) drops only that option and is logged.""",
     ["configurations"],
     """All command lines, in-file configuration lines, chains of configuration files, option groups and directory layouts,
     including malformed options and enable=all/disable=all pairs.""",
     """The tests compare a few dozen hand-written configurations; precedence and accumulation are statements about every
     combination of sources, inheritance chains and orders, and the implicit parent-directory search has no test.""",
     ["edulint/config/config.py", "edulint/config/file_config.py", "edulint/option_parses.py", "edulint/config/option_sets.py", "edulint/config/utils.py"],
     [("combination of sources", "edulint/config/config.py: Config.combine/_combine, get_config_many"),
      ("inheritance", "edulint/config/config.py: parse_config_file"),
      ("option groups", "edulint/config/config.py: Config._translate"),
      ("enable/disable all", "edulint/config/config.py: Config._resolve_enable_disable_all"),
      ("implicit configuration files", "edulint/config/config.py: search_for_config_in_parents")],
     ["configuration returned by check_code", "\"configs\" in JSON output"])

prop("C02", "Every requested .py file is linted exactly once, under its own settings",
     """Checking any mix of files and directories lints every .py file named or contained in them (recursively) exactly once,
     each under the configuration that file gets when checked on its own, and the problems reported for it are the same as
     when it is checked alone, whatever other files are checked with it and in whatever order.
     The reported grouping of files by configuration covers exactly those files, and reported paths are relative or absolute as the argument was.""",
     ["inputs", "configurations"],
     """All directory trees, argument lists (relative and absolute, files and directories mixed) and per-file configurations.""",
     """Tests of directories need files that are absent here and cover one fixed tree; the guarantee quantifies over trees, argument mixes and per-file configurations.""",
     ["edulint/config/config.py", "edulint/linting/linting.py", "edulint/linting/nonparsing_checkers.py", "edulint/edulint.py"],
     [("partition by configuration", "edulint/config/config.py: _parse_infile_configs, get_config_many"),
      ("path reporting", "edulint/linting/linting.py: pylint_to_problem, get_proper_path"),
      ("directory traversal", "edulint/linting/nonparsing_checkers.py: to_file_paths")],
     ["problems and file groups returned by check_code"])

prop("C03", "Every problem names the setting source that enabled it",
     """For every reported problem whose code or symbolic name was explicitly enabled by some configuration source (a pylint enable
     list, a flake8 select/extend-select list, an option group, or the option that forbids in-file suppressions), the problem's
     attribution is the name of a source that actually enabled it, the highest-precedence one (command line, then in-file, then the configuration
     file and those it inherits from, then option groups); a problem no source lists has no attribution.""",
     ["configurations"],
     "All assignments of codes and symbols to sources, including the same check enabled by several sources and by a custom enabler name.",
     "Attribution is asserted only for a few fixed configurations; it is a function of all sources together.",
     ["edulint/config/utils.py", "edulint/config/config.py", "edulint/linting/linting.py", "edulint/linting/problem.py"],
     [("enabler bookkeeping", "edulint/config/utils.py: add_enabled; edulint/config/config.py: Config.__init__, combine, to_immutable"),
      ("lookup by code then symbol", "edulint/linting/linting.py: pylint_to_problem, flake8_to_problem")],
     ["Problem.enabled_by and the trailing [..] of the printed line"])

prop("C04", "Forbidden in-file suppressions are all reported and cannot take effect",
     """When in-file configuration is to be ignored for a set of linters, every comment that suppresses or re-enables messages of one of those linters
     (noqa on imports of ib111 aside) is reported, once per kind of comment, at its line and attributed to edulint, lines without such text are not reported and neither are comments for linters outside the set.
     When the set includes edulint itself (or all), no in-file configuration line changes the configuration a file is linted with, save the one demanding it.""",
     ["inputs", "configurations"],
     "All placements, spellings, letter cases and spacings of suppression comments, all linter sets, set by command line, in-file or configuration file.",
     "The tests try a handful of spellings; the guarantee is over all placements and ways of setting the option.",
     ["edulint/linting/nonparsing_checkers.py", "edulint/config/config.py"],
     [("suppression patterns", "edulint/linting/nonparsing_checkers.py: CONFIG_PATTERNS, report_infile_config"),
      ("ignoring in-file configuration", "edulint/config/config.py: _ignore_infile, resolve_ignore_infile_config, _parse_infile_configs")],
     ["EDL001 problems; configuration returned by check_code"])

prop("C05", "Problems are conserved between the linters' output and the report",
     """The report for a file is exactly what pylint and flake8 emit for it under the effective arguments (same code, position, symbol, path and text),
     plus forbidden-suppression reports, minus problems dropped by the fixed override table (same file and line, both codes present) and by the
     documented message filters (allowed one-character names, disallowed built-ins, ib111 imports, parentheses after not, single repeated operations),
     with only the documented messages reworded: nothing else is lost, duplicated, invented or altered.""",
     ["inputs", "configurations"],
     "All source files and configurations, with arbitrary numbers and mixtures of problems per line.",
     "Tests check chosen problems of chosen files; conservation is over arbitrary mixtures of messages, including overrides that themselves are overridden.",
     ["edulint/linting/linting.py", "edulint/linting/overrides.py", "edulint/linting/tweakers.py", "edulint/linting/problem.py"],
     [("collection", "edulint/linting/linting.py: lint_flake8, lint_pylint, process_results"),
      ("overrides", "edulint/linting/linting.py: apply_overrides; edulint/linting/overrides.py"),
      ("tweaks", "edulint/linting/linting.py: apply_tweaks; edulint/linting/tweakers.py")],
     ["problems returned by check_code against the raw linters' output"])

prop("C06", "Printed text, JSON, exit code and Python API agree",
     """For every input, the check command's text output, its JSON output and the problems returned by the Python API describe the same
     problems in the same order (by argument position, path, line, column); the JSON parses and every problem survives a round trip through it unchanged.
     The exit status is 0 exactly when no problem is reported, 1 when some is and 2 when the check could not be carried out (missing path, linter failure).""",
     ["inputs", "configurations"],
     "All sets of files, options and output modes, with file names and source text containing quotes, non-ASCII and control characters.",
     "No running test executes the command line's output or exit status at all (their data files are absent).",
     ["edulint/edulint.py", "edulint/linting/problem.py", "edulint/linting/linting.py"],
     [("output", "edulint/edulint.py: check_and_print, to_json"),
      ("ordering", "edulint/linting/linting.py: sort"),
      ("problem serialisation", "edulint/linting/problem.py")],
     ["stdout, stderr and exit status of python -m edulint check"])

prop("C07", "Linting any file ends with a report, never with an internal error",
     """For every file, whether a syntactically valid Python program of any construct mix, an invalid one or an empty one, checking with all of the
     tool's own checks enabled finishes with a report: no internal exception, no internal-error message of a linter, no lost results for the file.
     A file whose text does not parse as Python yields a syntax-error report.""",
     ["programs", "inputs"],
     "All programs over the full Python 3.12 grammar, including rare constructs, deep nesting, odd layout, encodings and line endings.",
     "Tests run the checks over typical student code; a crash needs a construct combination nobody wrote down.",
     ["edulint/linting/analyses", "edulint/linting/checkers", "edulint/linting/linting.py"],
     [("analyses run on every module", "edulint/linting/analyses/patcher.py: run_analyses"),
      ("checkers", "edulint/linting/checkers/"),
      ("linter failure handling", "edulint/linting/linting.py: process_results")],
     ["problems, stderr log and exit status"])

prop("C08", "Results depend only on the files and options, not on history",
     """Checking the same files with the same options gives the same report every time: in a fresh process, after any sequence of other checks
     in the same process, after the file was changed and changed back, and under any hash randomisation; a changed file is reported on as it is now.
     A check leaves the checked tree, the working directory and the process's standard streams as they were.""",
     ["histories", "inputs"],
     "All sequences of checks (different files, options, contents, failures in between) in one process, and all hash seeds.",
     "Every test runs one check; state leaking between checks shows only in particular sequences.",
     ["edulint/linting/linting.py", "edulint/linting/analyses/patcher.py", "edulint/linting/checkers", "edulint/config/config.py"],
     [("in-process linters", "edulint/linting/linting.py: lint_pylint, lint_flake8"),
      ("analyses hooked into pylint", "edulint/linting/analyses/patcher.py")],
     ["problems returned by successive check_code calls"])

prop("C09", "Suggested replacements of ifs and conditions are equivalent",
     """Whenever a message says an if statement, conditional expression, conditional assignment or condition can be replaced with, merged into or simplified
     to a given expression, performing that replacement in the checked program does not change what the program returns, prints or assigns, for
     any values of its variables of the kind its condition treats as truth values or numbers (boolean operands for boolean suggestions, numbers for
     comparisons, integers for remainders).""",
     ["programs", "inputs"],
     "All programs containing ifs, elif chains, conditional expressions and boolean or comparison conditions, and all values of the variables in them.",
     "Tests assert the suggested text for chosen snippets; none executes original and suggestion on inputs.",
     ["edulint/linting/checkers/simplifiable_if.py", "edulint/linting/checkers/local_defects.py", "edulint/linting/analyses/utils.py"],
     [("if simplification", "edulint/linting/checkers/simplifiable_if.py"),
      ("negation of conditions", "edulint/linting/analyses/utils.py: is_negation, get_negated_condition")],
     ["message texts of R6201-R6215"])

prop("C10", "Conditions claimed always true, false, redundant or unreachable are",
     """Whenever a message says that a condition is always true or always false, that part of a condition is redundant, that an elif/else branch is unreachable
     or can become else, that elif branches can be reordered with simplified conditions, or that following ifs can become elifs, no execution of the
     checked program contradicts it: evaluation of the condition, its parts and branches on every input agrees with the claim, for variables holding numbers of the types that the program
     assigns to them (integers where remainders after division by two are taken).""",
     ["programs", "inputs"],
     "All programs over integer, real and boolean variables with nested, sequential and elif-chained conditions and assignments between them, and all variable values.",
     "Tests check message texts on some 60 snippets; the claims are universally quantified over variable values.",
     ["edulint/linting/checkers/simplifiable_if.py", "edulint/linting/analyses/z3_analysis.py", "edulint/linting/analyses/z3_block_analysis.py"],
     [("condition encoding", "edulint/linting/analyses/z3_analysis.py"),
      ("path-sensitive block analysis", "edulint/linting/analyses/z3_block_analysis.py"),
      ("messages", "edulint/linting/checkers/simplifiable_if.py")],
     ["message texts of R6216-R6224 against executions of the program"])

prop("C11", "The control-flow graph contains every real execution path",
     """For every program, each transition between statements that an actual execution takes (branches, loops with else clauses, break, continue, return, raise and
     exceptions anywhere in a try statement, try/except/except*/else/finally, with, match and guards, in functions, generators, coroutines, classes and modules) is a path
     of the control-flow graph built for it, every executed statement belongs to the graph as reachable, and each statement appears in exactly one place of it.
     The traversals built on the graph visit exactly what it makes reachable from the place they start at, and the places of a statement found syntactically are
     exactly the reachable places inside of it.""",
     ["programs", "inputs"],
     "All programs over Python's statements and all of their executions.",
     "Tests compare graphs of a few small programs with hand-drawn ones; soundness is over all statement nestings and executions.",
     ["edulint/linting/analyses/cfg/visitor.py", "edulint/linting/analyses/cfg/graph.py", "edulint/linting/analyses/cfg/utils.py"],
     [("construction", "edulint/linting/analyses/cfg/visitor.py"), ("traversal", "edulint/linting/analyses/cfg/utils.py")],
     ["graph attached to each module/function vs. traced executions"])

prop("C12", "Def-use information covers every observed data flow",
     """Whenever an execution of a module's or a function's own code reads a variable, the event that produced the value it reads (an assignment, an item of an unpacking,
     a loop's target, a with or pattern capture, a walrus, a parameter, or a modification through an item, an attribute or a modifying method) is among the definitions the
     analysis attaches to that read, and that read is among the uses it attaches to that event; the expression given as assigned by that event is the one that was evaluated; and
     a variable whose value differs between two places is said to be changed between them. The definitions and uses, and the redefinition relations, of any program mirror each other.
     This speaks about variables that no nested function, lambda or class body mentions, and about assignments outside of conditionally evaluated parts of expressions.""",
     ["programs", "inputs"],
     "All programs with branches, loops, exceptions, comprehensions, augmented assignments, modifications and deletions, and all executions.",
     "Tests compare analysis results on some 20 snippets; soundness quantifies over all flows.",
     ["edulint/linting/analyses/data_dependency.py", "edulint/linting/analyses/var_events.py", "edulint/linting/analyses/variable_scope.py"],
     [("reaching definitions", "edulint/linting/analyses/data_dependency.py: collect_reaching_definitions"),
      ("variable events", "edulint/linting/analyses/variable_scope.py: VarEventsAnalysis")],
     ["definitions/uses of variable events vs. traced executions"])

prop("C13", "Variables are resolved to the scopes Python resolves them to",
     """For every program, each occurrence of a variable name is recorded exactly once as the read, assignment or other event it is, and is attributed to the scope
     Python itself binds that name to (module, enclosing function, class, comprehension, builtin), including global and nonlocal declarations, parameters,
     class bodies, comprehensions, imports, walrus, with/except/for targets and match captures.""",
     ["programs"],
     "All nestings of functions, classes, lambdas and comprehensions with all binding forms.",
     "Tests list expected events of some 40 snippets; resolution is over all nestings.",
     ["edulint/linting/analyses/variable_scope.py", "edulint/linting/analyses/var_events.py"],
     [("scope analysis", "edulint/linting/analyses/variable_scope.py")],
     ["variables and scopes in recorded events vs. Python's own symbol tables"])

prop("C14", "Findings about loops are true of every execution of the loop",
     """Whenever a message claims a loop runs at most one iteration, is infinite, has an iteration that never happens, changes a control variable without effect,
     modifies the structure it iterates over, or can iterate directly or with enumerate instead of by index, or be a for loop
     instead of a while loop, every execution of that loop agrees with the claim, and applying a fully specified rewrite leaves the program's behaviour unchanged.""",
     ["programs", "inputs"],
     "All for and while loops with breaks, continues, returns, nested loops and body effects, on all inputs.",
     "Tests check that messages appear on chosen loops; the claims are about all executions.",
     ["edulint/linting/checkers/unsuited_loop.py", "edulint/linting/checkers/local_defects.py", "edulint/linting/checkers/python_ta_checkers.py", "edulint/linting/analyses/z3_analysis.py"],
     [("loop checks", "edulint/linting/checkers/unsuited_loop.py"),
      ("iteration counting", "edulint/linting/checkers/local_defects.py; edulint/linting/checkers/python_ta_checkers.py")],
     ["messages R6301-R6310, R6606, E9996 against traced executions"])

prop("C15", "Local rewrite suggestions keep the value of the expression or statement",
     """Whenever a message suggests replacing an expression or statement by a given or evident local equivalent (augmented assignment, append, integral division,
     redundant arithmetic, else instead of elif, unreachable else, early return, letter instead of its code, comparisons instead of range membership, condition instead of comparison
     with True/False, multiplication or power instead of repetition), the original and the rewritten code behave identically for all values of the kinds the suggestion presumes.""",
     ["programs", "inputs"],
     "All expressions and statements of the affected forms and all operand values of the presumed types.",
     "Tests assert message texts on fixed snippets and never evaluate both sides.",
     ["edulint/linting/checkers/local_defects.py", "edulint/linting/analyses/utils.py", "edulint/linting/analyses/types.py"],
     [("local checks", "edulint/linting/checkers/local_defects.py")],
     ["messages R6601-R6619 against evaluation of both sides"])

prop("C16", "Duplication findings are true of the code they point at",
     """Whenever a message claims identical if branches, an identical part of all branches with a number of lines to move, identical consecutive ifs, similar blocks
     repeated a number of times at given lines, a sequence that a loop over given values replaces, or a condition or conditional expression that merges
     similar branches, the code at the reported place has exactly that property, and merging as suggested preserves the program's behaviour where the suggestion is fully specified.""",
     ["programs"],
     "All programs with identical, similar and nearly similar branches, statements and blocks.",
     "Tests assert that messages appear on fixed files; the truth of counts, line lists and suggested values is over all programs.",
     ["edulint/linting/checkers/duplication", "edulint/linting/analyses/antiunify.py"],
     [("anti-unification", "edulint/linting/analyses/antiunify.py"),
      ("duplication checks", "edulint/linting/checkers/duplication/")],
     ["messages R6501-R6562 against an independent comparison of the code"])

prop("C17", "Translations reword exactly the messages they name",
     """With a translation configured (in a configuration file, an inherited one or a language file set by any means), every problem whose code or symbol it names is shown
     with that text, its placeholders filled in order with the snippets of the original message and its word parts translated by the given table; every other
     problem, and every unknown word part, keeps its original text, and each file gets the translations of its own configuration only.""",
     ["configurations", "inputs"],
     "All translation tables over all pylint, flake8 and edulint messages, all placeholder orders, and runs over files with different configurations.",
     "The translation tests cannot run (absent data); correctness is over every message template and table.",
     ["edulint/config/language_translations.py", "edulint/linting/linting.py", "edulint/config/config.py"],
     [("patterns and formatting", "edulint/config/language_translations.py: to_pattern, Translation.translate"),
      ("application", "edulint/linting/linting.py: translate"),
      ("merging of sources", "edulint/config/config.py: parse_config_file, get_config_many")],
     ["problem texts with and without the translation"])

prop("C18", "A remote configuration is current, else cached, never partial",
     """A remote configuration file is taken from the cache while it was fetched within the last five minutes, else fetched, else (server failing or unreachable) taken from the
     cache within the long offline limit, else reported as an error; each URL gets its own content.
     Whatever fails at whatever point, in the network, on disk or by the process dying, no later run uses content the server did not serve completely, and no run fails other than by the reported error.""",
     ["fault_sequences", "crash_points", "histories"],
     "All sequences of fetches, clock advances, server answers and failures, and of crashes at every file operation of a fetch.",
     "Tests have no network and cover no failure, expiry or crash.",
     ["edulint/config/file_config.py"],
     [("cache", "edulint/config/file_config.py: CachedHTTPGet")],
     ["content used for a URL; files in the cache directory"])

prop("C19", "Update checks and explanation updates never disturb the user",
     """Explanations shown are those last downloaded completely and correctly, else those distributed with the package, and every requested explanation known to them is shown.
     The newer-version notice appears exactly when the latest released, non-yanked version is known and differs from the installed one; the network is asked once per update period of use, never sooner, and not at all when updates are disabled.
     No network failure, malformed answer or damaged local file changes the result, output or exit status of a check or explanation.""",
     ["fault_sequences", "histories"],
     "All sequences of runs, clock advances, server answers (including malformed and failing ones) and damaged or unwritable local files.",
     "Nothing in the tests exercises updates, their failures or their time limits.",
     ["edulint/explanations.py", "edulint/versions/version_checker.py", "edulint/versions/pypi_helper.py", "edulint/edulint.py"],
     [("explanations", "edulint/explanations.py"), ("version information", "edulint/versions/version_checker.py"),
      ("release list", "edulint/versions/pypi_helper.py"), ("background threads", "edulint/edulint.py: check_for_updates")],
     ["notices on stderr, requests made, explanations returned"])

prop("C20", "Findings do not depend on layout, naming or position",
     """Edits that keep a program's structure (inserting comments and blank lines, consistently renaming local variables and functions, adding code that neither names anything of the program nor calls what may be one of its
     functions, moving a function within the file, writing redundant parentheses) keep the set of the tool's own findings: each is still reported, at the correspondingly moved place, with the
     correspondingly renamed text, and no new one appears.""",
     ["programs"],
     "All programs and all such edits of them.",
     "Tests fix one layout and one naming per snippet.",
     ["edulint/linting/checkers", "edulint/linting/analyses"],
     [("checkers", "edulint/linting/checkers/"), ("analyses", "edulint/linting/analyses/")],
     ["reports of the original and the edited program"])

prop("C21", "Inferred constants, types, negations and purity are never wrong",
     """Whatever the analyses conclude about an expression is true in every execution: a concluded constant value is the value it evaluates to; the types concluded for an expression, all
     of whose operands have concluded types and whose variables are changed only in their own function, include the type of its value; two pure conditions over totally ordered values concluded to
     be negations of each other always differ in truth value, and those concluded to be the same or to imply one another do; a condition concluded unsatisfiable never holds; an expression concluded pure changes
     nothing and evaluates to the same value again; and an expression whose variables are concluded unmodified in a piece of code has the same value after it as before it.""",
     ["programs", "inputs"],
     "All expressions over constants, variables, operators, calls and containers, and all variable values.",
     "Tests check chosen expressions; a wrong conclusion shows only for particular operators and values.",
     ["edulint/linting/analyses/utils.py", "edulint/linting/analyses/types.py", "edulint/linting/analyses/mutability.py", "edulint/linting/analyses/z3_analysis.py"],
     [("negation, constants, purity", "edulint/linting/analyses/utils.py"), ("types", "edulint/linting/analyses/types.py"),
      ("implication", "edulint/linting/analyses/z3_analysis.py"), ("mutation", "edulint/linting/analyses/mutability.py")],
     ["analysis answers vs. evaluation in Python"])

prop("C22", "Structural rules fire exactly on the structure they describe",
     """The tool's purely structural checks (global variable modified after definition, top-level code outside functions, too long functions and scripts, loop with else, else containing only an if,
     while True with an immediate break condition, loop target that is part of an object, comprehension variable shadowing an outer one, return with and without value, loop shadowing its outer loop's variable)
     report every occurrence of the structure their documentation describes, at its place and with the right names and counts, and nothing else.""",
     ["programs"],
     "All programs, with the structures nested in functions, classes, loops, branches and try/with/match statements.",
     "Tests contain a few positive examples per rule and almost no near misses; exactness is over all nestings.",
     ["edulint/linting/checkers/basic_checker.py", "edulint/linting/checkers/python_ta_checkers.py", "edulint/linting/checkers/unsuited_loop.py", "edulint/linting/checkers/local_defects.py"],
     [("basic checks", "edulint/linting/checkers/basic_checker.py"), ("adapted PyTA checks", "edulint/linting/checkers/python_ta_checkers.py"),
      ("loop and local checks", "edulint/linting/checkers/unsuited_loop.py, local_defects.py")],
     ["reported messages vs. an independent detector over Python's own ast"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
