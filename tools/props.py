PROPS = []
NA = []


def P(id, title, statement, over, quant, why, files, mech, note, tech=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, tech=tech))


P("P01", "Applying fixes edits exactly what the applied diagnostics ask for",
  "Applying the fixes of a set of diagnostics to a text yields the text with exactly the edits of the applied diagnostics carried out, each diagnostic entirely or not at all, and no other change. "
  "Diagnostics that were not applied are all returned, once each; a diagnostic with fixes is left unapplied only when its edits would overlap those of an applied one. "
  "The result says that something was fixed iff at least one diagnostic was applied.",
  ["inputs"], "all texts, all sets of diagnostics with any number of non-overlapping edits each, in any order",
  "unit tests fix a handful of edit layouts; overlapping, touching, empty and out-of-order edits of several diagnostics combine without end",
  ["internal/linter/source_code_fixer.go"], [("fix application", "internal/linter/source_code_fixer.go")],
  "up to 3 diagnostics with up to 3 edits on a text of up to 6 bytes (bounds per harness in the evidence); edits inside one diagnostic are assumed not to overlap")
P("P02", "A quoted string literal always denotes the original text",
  "Turning any text into a quoted JavaScript string literal yields a well-formed single-line literal which, read by the ECMAScript rules, denotes exactly that text.",
  ["inputs"], "all byte strings that are valid UTF-8, both quote styles",
  "no test covers the escape table; a wrong escape shows only for one particular character or pair of neighbours",
  ["internal/utils/string_literal.go"], [("string literal quoting", "internal/utils/string_literal.go")],
  "every string of up to 3 bytes, and up to one astral character among others")
P("P04", "A payload is decoded exactly, and refused when its version is unknown",
  "A payload without version (or with version 0) is read as the first format and becomes one configuration per file with that file's path and its rules in order, without options; version 2 is read as the current format with all paths, rules, options, source overrides and type-error flags as given. "
  "Every other version, a version that is no integer, a truncated or malformed payload and a first-format payload without files are refused with an error and no payload.",
  ["inputs", "configurations"], "all payload texts; all versions, numbers of files and rules, names and option values",
  "there is no unit test of the payload reader; the e2e tests need a built binary and use one well-formed payload shape",
  ["cmd/tsgolint/payload.go"], [("payload version gate and conversion", "cmd/tsgolint/payload.go")],
  "version texts of up to 3 bytes, up to 2 configs/files with up to 2 rules, names of up to 2 symbolic bytes plus escapes; the JSON library is a model of go-json-experiment/json, compared natively on sampled paths")
P("P05", "Source overrides replace exactly the overridden files",
  "Through a file system with source overrides, an overridden path exists and reads as its override, byte for byte, whatever the underlying file system holds. "
  "Every request about any other path reaches the underlying file system once, unchanged, and its answer is passed on; directory queries of the virtual-file overlay additionally report exactly the directories and children that its virtual files imply, without disturbing answers given before or to others.",
  ["inputs", "configurations"], "all override tables, paths, contents and underlying answers",
  "the tests read one overridden and one other file; prefix-related names, empty contents and directory listings are not sampled",
  ["cmd/tsgolint/overlayfs.go", "internal/utils/overlay_vfs.go"], [("source override file system", "cmd/tsgolint/overlayfs.go"), ("virtual file overlay", "internal/utils/overlay_vfs.go")],
  "two overridden files; symbolic paths of up to 3 bytes and contents of up to 3 bytes; directory paths of up to 3 segments")
P("P06", "Breadth-first search visits each node once, nearest first",
  "The search visits every reachable node, unless it was visited before or removed from its level by the caller, at most once, in nondecreasing distance from the start and in listing order within one distance, and stops at the first stopping result; without one it visits everything reachable. "
  "It returns the first stopping result, else the first other result, with a shortest path of existing edges from it back to the start, and an empty path when there is no result.",
  ["inputs", "histories"], "all finite graphs, answers and sets of nodes visited before",
  "no unit test exercises the search itself; cycles, shared children and several results at one distance are graph-shaped corner cases",
  ["internal/utils/bfs.go"], [("breadth-first search", "internal/utils/bfs.go")],
  "all graphs of 3 nodes (with loops, presets, removed nodes), of 4 and of 5 nodes")
P("P07", "Each file is matched to the first tsconfig that includes it",
  "A file is assigned the nearest enclosing configuration that includes it; when the nearest does not, the configurations it references are consulted level by level, then the next configuration up the tree in the same way, and a file is unmatched only when no configuration so reached includes it. "
  "A configuration that is named always includes the file, path spelling and the file system's case sensitivity taken into account. "
  "Resolving many files in parallel answers each file exactly once, with the same configuration as resolving it alone, under every schedule and without data races.",
  ["configurations", "schedules", "inputs"], "all configuration trees, reference graphs (cycles included), file lists and worker schedules",
  "the tests resolve files of one fixture project with a single tsconfig; reference cycles, composite projects, solution configs and schedules are not sampled",
  ["internal/utils/find_tsconfig.go", "internal/utils/bfs.go"], [("reference search", "internal/utils/find_tsconfig.go"), ("parallel resolution", "internal/utils/find_tsconfig.go")],
  "up to 3 nested and 2 referenced configurations with 8 kinds of relation to the file; up to 3 files and 2 workers with one preemption (two thorough); the registry of the TypeScript project system is an environment stub with arbitrary answers")

P("P03", "Headless output is whole messages, complete, and tells every failure",
  "The headless mode writes nothing but whole length-prefixed messages to standard output: one diagnostic message for every report of every rule configured for a listed file, and none for other files or rules; the reports about one file come in the order they were made, and with timings enabled one timing message comes last. "
  "When the payload, the standard input or the working directory cannot be used or the linter fails, exactly one error message that names the failure comes last, everything reported before it is still delivered, and the exit code is 1. All this holds under every schedule of the linting and writing goroutines.",
  ["schedules", "faults", "configurations"], "all rule assignments, sources, failures and schedules of the workers and the writer",
  "the e2e tests look at one well-behaved run; interleavings of the writer with the linter and its failures are not sampled",
  ["cmd/tsgolint/headless.go", "internal/linter/linter.go"], [("headless driver", "cmd/tsgolint/headless.go"), ("linter driver", "internal/linter/linter.go")],
  "two files with up to two reports per rule, five rule lists each, two workers with two preemptions; the process environment (stdin, stdout, file system, TypeScript project system) is a stub, program construction is atomic")
P("P10", "A cached source file is the file as it is now, under the requested options",
  "Asking a compiler host for a source file yields the tree of the file's present text under the requested name, path, language and module options, and nothing for an unreadable file; the same request for the same text yields the same object, different ones never share. "
  "Asking for a referenced project yields that configuration, once per host, and nothing for a missing one. Both hold for concurrent requests, under every schedule and without data races.",
  ["inputs", "histories", "schedules"], "all sequences and interleavings of requests, texts, names and parse options",
  "the cache lives as long as the process and is shared by all programs; no test asks twice with another text or other options, let alone from two goroutines",
  ["internal/utils/host.go"], [("source file cache", "internal/utils/host.go"), ("project reference cache", "internal/utils/host.go")],
  "two requests out of four names, two paths, all module options and three texts; texts with two symbolic bytes (three thorough); two goroutines with two preemptions (one for references)")
P("P11", "Type and configuration errors are reported as asked for, once, in place",
  "When syntactic (semantic) errors are asked for, every syntax error (every other error that is not suppressed by a comment) of each listed file is reported once, with its code, message, range and file, in source order; none of unlisted files, none of a kind not asked for. The rules run all the same. "
  "A project whose configuration is broken is reported as such, with each error, what is wrong and where, and its files are left alone, while all other projects are linted; when configuration errors are suppressed, nothing is said of them and the files are linted. "
  "In headless mode these arrive as messages of their own kind with the same content, under the payload's flags.",
  ["inputs", "configurations"], "all sources, listed files, projects, broken configurations and flags",
  "the tests report one error of one file; combinations of errors, suppressions, files, projects and flags are not sampled",
  ["internal/linter/linter.go", "internal/utils/create_program.go", "cmd/tsgolint/headless.go"],
  [("type error reporting", "internal/linter/linter.go"), ("configuration errors", "internal/utils/create_program.go"), ("headless conversion", "cmd/tsgolint/headless.go")],
  "two statements of ten kinds (three thorough) with a symbolic padding byte and three headers; all subsets of three files; ten kinds of configurations in one of two projects in both orders; which errors there are is TypeScript's decision, known for the statements used")
P("P12", "A reported diagnostic reaches the client unchanged",
  "A diagnostic reported by a rule arrives in the headless output with exactly the rule's name, the file, the id, description and help text, the range and the labelled ranges it was reported with; an undefined range is left out. "
  "Fixes arrive exactly as reported when fixes were asked for, suggestions when suggestions were asked for; otherwise they are neither sent nor computed. Source bytes that are not valid UTF-8 arrive as U+FFFD and never suppress a diagnostic.",
  ["inputs", "configurations"], "all texts, ranges, labels, fixes and suggestions and all combinations of the two options",
  "conversion has no unit tests; fields that few rules use, unusual characters and option combinations are not sampled",
  ["cmd/tsgolint/headless.go", "internal/linter/linter.go"], [("conversion to messages", "cmd/tsgolint/headless.go"), ("report functions", "internal/linter/linter.go")],
  "texts of up to one free byte after every multi-byte head (two thorough), up to two labels, two fixes, two suggestions of two fixes; positions up to 30 (120 thorough); fix and label ranges are assumed valid; JSON encoding is a model compared natively")

P("P13", "Rule timings add up, and measuring changes nothing else",
  "With timings asked for, there is one entry for each rule that ran and no other, whose calls count its set-up for each file and every call of its listeners, and whose duration is the sum of theirs, over all files, projects and workers, in every schedule and without data races; the slowest comes first, equal ones in the order of their names. "
  "Reports and exit codes are those of a run without timings. A list of debug options is accepted exactly when all its non-empty parts are known. "
  "Headless mode writes them as one message after all others, in nanoseconds, only when asked for and when the run succeeds; the command line shows a table with a row for each: name, milliseconds to three places, share of the total to one place, calls.",
  ["inputs", "schedules"], "all rules, files, projects, durations, schedules and option strings",
  "there are no tests of timings; sums over workers and files are schedule- and clock-dependent",
  ["internal/linter/linter.go", "internal/linter/timing.go", "cmd/tsgolint/main.go", "cmd/tsgolint/headless.go"],
  [("timed linter loop", "internal/linter/linter.go"), ("store", "internal/linter/timing.go"), ("table and options", "cmd/tsgolint/main.go"), ("message", "cmd/tsgolint/headless.go")],
  "the clock is replaced by one that only the rules advance, with a symbolic cost for each set-up and call; two files in one or two projects with five lists of rules; two workers with up to three files in every schedule with one preemption (two thorough); option lists of three parts with one of up to four symbolic bytes (eight thorough); up to three table rows")
P("P14", "The command line lints the project's files and shows each report readably",
  "Run on a project, the command line lints exactly the project's files in its directory, leaving out those in node_modules folders, lists them first when asked to, prints every report once and says how many there were, and succeeds; it fails, and lints nothing, when the named configuration does not exist or a debug option is unknown. "
  "A report is printed, without failing, whatever the source text is: the rule, the message (continuation lines indented), path, line and UTF-16 column, and the lines from the one before it to the one after it (as TypeScript breaks lines), numbered, without their common indentation and trailing blanks, cut at no character, "
  "with the reported range underlined and nothing else; a range over too many lines is said to be so instead.",
  ["inputs"], "all source texts, ranges, rule names, messages, projects and arguments",
  "there are no tests of the printed form or of the command line program",
  ["cmd/tsgolint/main.go"],
  [("printDiagnostic", "cmd/tsgolint/main.go"), ("runMain", "cmd/tsgolint/main.go")],
  "texts of three symbolic bytes (four thorough) of blanks and line breaks and a letter, with a two-byte character, line separator or astral character anywhere, and all ranges; ranges over up to fifteen lines; whole runs over all subsets of five files, four ways to find the configuration, and options; styles other than underlining are not looked at")
P("P08", "Each file of the workload is linted once, with its own rules and context",
  "Linting a workload announces the nodes of exactly the workload's files, each node once per listening rule: the files of a project in a program with that project's options, the unmatched files in an inferred program, whatever the order, the number of workers and their schedule. "
  "Each file gets exactly the rules configured for it, in order, with the file, program and type checker of that file; a listener hears only of the file and rule run it was made in, and every report carries the rule and the file it was made for. Linting is free of data races.",
  ["configurations", "schedules"], "all assignments of files to projects, of rules to files, and all schedules of the workers",
  "the rule tests lint one file with one rule; state left over from a previous file or rule and interleavings of workers are not sampled",
  ["internal/linter/linter.go", "internal/utils/create_program.go"], [("linter driver", "internal/linter/linter.go")],
  "up to four files in two projects, unmatched or unlisted; three rules in every combination on three files; two workers with two preemptions (three thorough); program construction is atomic")
P("P09", "Rules hear of every node once, in order, with its role",
  "Linting a file announces every syntax node below the file exactly once on entry and once on exit, children in source order between the entry and the exit of their parent. "
  "Object and array literals, and the elements in them, are announced as patterns exactly when they are targets of a destructuring assignment or of a for-in/of loop, at every depth, also below spreads, property values and defaults; all others are announced as non-pattern literals.",
  ["inputs"], "all source texts",
  "the rule tests see only nodes their rule listens to; nested, defaulted, spread and computed patterns combine without end",
  ["internal/linter/linter.go"], [("node traversal", "internal/linter/linter.go"), ("listener kinds", "internal/rule/rule.go")],
  "every text of four of the characters a = [ ] { } : , . in parentheses (five thorough), assignments and loops with targets and values nested two levels, and a list of other syntax")
P("P15", "Rule options are read as given, or as documented defaults",
  "Each option of each rule that is given a value of its kind (a boolean, a text, a list, one of its named values, a boolean or an object, a list of specifiers of types and values) is read as exactly that value; an option that is absent or null is read as its documented default, each independently of all others. "
  "Unknown options are ignored, and no options at all mean that every option has its default. A specifier is a name or an object with a source, one name or several, and a path or package, each read as given.",
  ["configurations"], "all rules, all subsets of their options and all values of them",
  "rule tests give the options they are about; that null, an empty list or the presence of another option does not change one is not sampled",
  ["internal/rules/*/options.go", "internal/utils/utils.go", "internal/utils/type_matches_specifier.go"], [("reading of options", "internal/utils/utils.go"), ("specifiers", "internal/utils/type_matches_specifier.go")],
  "all 34 option types; any two options of a rule at once in all forms, the others absent or null; texts of one symbolic character or three, lists of up to two; the JSON library is a model, compared natively on sampled paths")
P("P16", "Operands are reported exactly when their type is not allowed there",
  "restrict-template-expressions reports an expression of an (untagged) template exactly when some member of its type, after type parameters were replaced by their constraints, is not text and not allowed by the options, as itself or by its name or that of a base type. "
  "restrict-plus-operands reports an operand of an addition exactly when some member of its type is not a number, bigint or text and not allowed by the options, and otherwise the addition when texts and numbers (unless allowed) or numbers and bigints are mixed. "
  "no-unsafe-unary-minus reports a negation of anything that may be neither number nor bigint. no-base-to-string reports what is turned into text (by templates, concatenation, String(), toString, toLocaleString, join) exactly when that may give the default text of objects, unless its name or that of a base type is ignored; "
  "what is said about an expression (that it will, or that it may) does not depend on any other expression of the file.",
  ["inputs", "configurations"], "all types, forms of expressions and options",
  "the rule tests sample types and options one at a time; combinations of unions, intersections, type parameters and options, and state shared between expressions, are not",
  ["internal/rules/restrict_template_expressions/restrict_template_expressions.go", "internal/rules/restrict_plus_operands/restrict_plus_operands.go", "internal/rules/no_unsafe_unary_minus/no_unsafe_unary_minus.go", "internal/rules/no_base_to_string/no_base_to_string.go"],
  [("restrict-template-expressions", "internal/rules/restrict_template_expressions/restrict_template_expressions.go"), ("restrict-plus-operands", "internal/rules/restrict_plus_operands/restrict_plus_operands.go"), ("no-unsafe-unary-minus", "internal/rules/no_unsafe_unary_minus/no_unsafe_unary_minus.go"), ("no-base-to-string", "internal/rules/no_base_to_string/no_base_to_string.go")],
  "grids of 200, 29x29, 142 and 160 types (also as constraints of type parameters) times the forms of expressions, under all options as symbolic booleans and any allowed name of up to nine letters; regular expressions plus what may be a number are left out; three of seven mutually containing types in any order")
P("P17", "Allow lists match exactly the types and values they name, from where they say",
  "A specifier matches a type exactly when it has its name (that of its alias if it has one, of its symbol, or of the built-in type), and its source fits: a file specifier without path matches declarations below the project's directory, with a path those in exactly that file; a lib specifier those of the default library and of the language itself; a package specifier those in an ambient module of that name, or in an external package of that name (by its package.json, else by its folder) or its @types package. "
  "A plain name matches wherever the declaration is. A union never matches by its members; an intersection matches when any of its members does. A value is matched by its static name (of an identifier, member, private member or text index), and for package specifiers only when its type is declared in the package; a member symbol by the name and its place of declaration. A list matches what any of its entries does.",
  ["inputs", "configurations"], "all names, paths and packages; all places of declaration",
  "the rule tests use one or two specifiers of each kind with the exact names; near misses of names, paths and packages are not sampled",
  ["internal/utils/type_matches_specifier.go"], [("specifiers", "internal/utils/type_matches_specifier.go")],
  "32 types and 11 values declared in twelve places; any name of up to seven characters, any path of up to four or one of eleven spellings, any package of up to ten; lists of up to three entries")
P("P18", "Promises are handled, awaited and passed on only as intended",
  "no-floating-promises reports an expression statement exactly when some operand of it (through parentheses, commas, branches, logical operators and, unless ignored, void) is promise-like, or an array or tuple of promises, and nothing handles it: neither await (which does not handle arrays), nor assignment, nor a rejection handler that is callable and is known to be at its position; finally passes its object on. "
  "The allow lists, checkThenables, ignoreVoid and ignoreIIFE change exactly what they say; what is reported is the unhandled operand, as what it is (with the useless handler), and suggestions apply void or await to the whole statement. "
  "await-thenable reports await, for await, await using and elements of Promise.all and the like exactly when their operands can never be awaited. "
  "no-misused-promises reports, once each, tests of values that are always promises (conditions of statements, ! and ?:, and of && || ?? as far as their values are tested), callbacks of array predicates, spreads, and functions that return promises where a function type is expected all of whose results are ignored, each kind only when it is on.",
  ["inputs", "configurations"], "all expressions, types and options",
  "the rule tests sample expressions one or two forms deep; nested combinations of forms, parentheses, unions and options are not",
  ["internal/rules/no_floating_promises/no_floating_promises.go", "internal/rules/await_thenable/await_thenable.go", "internal/rules/no_misused_promises/no_misused_promises.go", "internal/utils/ts_api_utils.go", "internal/utils/ts_eslint.go"],
  [("no-floating-promises", "internal/rules/no_floating_promises/no_floating_promises.go"), ("await-thenable", "internal/rules/await_thenable/await_thenable.go"), ("no-misused-promises", "internal/rules/no_misused_promises/no_misused_promises.go"), ("what is thenable", "internal/utils/ts_api_utils.go")],
  "statements of 19 types, 10 calls and 25 forms around them, some two levels deep, and of five operators with any two of 18 operands, themselves wrapped; 33 awaited types in 17 forms; conditions of 13 operands combined by five operators in nine forms; 20 functions where any of 17 types is expected at 22 places; all under symbolic options. Attributes of JSX and inherited methods are not looked at")
