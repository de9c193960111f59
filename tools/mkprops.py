#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the wording lives in one readable place).
import json, os
V = "packages/swc-coverage-instrument/src/"
MAC = V + "macros/instrumentation_visitor.rs"
CH = V + "macros/instrumentation_counter_helper.rs"
SH = V + "macros/instrumentation_stmt_counter_helper.rs"
CV = V + "visitors/coverage_visitor.rs"
SC = V + "source_coverage/mod.rs"
TPL = V + "coverage_template/create_coverage_fn_decl.rs"
OX = "packages/istanbul-oxide/src/"
PL = "packages/swc-plugin-coverage/src/lib.rs"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

UT = "The repository's Rust unit tests never run the visitors; the mocha fixtures (not runnable offline) pin about 130 hand-written snippets, "

prop("C01", "Instrumentation preserves the behaviour of the program",
 "Running the instrumented program has the same observable effects as running the original: the same calls with the same arguments in the same order, the same completion or thrown error, the same exports and globals, evaluation order and number of evaluations. The only additions are the coverage object, the coverage function binding and what they hold. The names functions get as default values or class field values, and source text reflection, are not part of the guarantee.",
 ["programs"], "every valid JavaScript script or module, with or without reportLogic",
 UT + "and behaviour is compared on one input each; a wrapped operand that changes evaluation order, `this`, short-circuiting, hoisting or strictness on another shape of program is not visible to them.",
 [MAC, CH, SH, CV, V + "macros/visit_mut_for_like.rs", V + "visitors/switch_case_visitor.rs", V + "instrument/create_increase_true_expr.rs"],
 [("counters are put into sequence expressions or in front of statements", CH), ("single-statement bodies become blocks", MAC), ("arrow bodies become blocks with a return", MAC)],
 ["execution trace of the original and of the instrumented program"])

prop("C02", "Statement counts are complete and exact",
 "Every executable statement, variable initialiser, class field initialiser and concise arrow body that Istanbul counts has exactly one statement counter with its source range, and nothing else has one. After any run, each count equals the number of times that statement was reached, an initialiser that contains a function, a class or a block (or is a tagged template) being counted with its declaration.",
 ["programs", "histories"], "every valid program and every execution of it, including loops, recursion, exceptions, generators and async functions",
 UT + "each checking a handful of counters after one run; a statement position no fixture has (labels, with, switch cases, nested single-statement bodies, class fields, namespaces) can lose or double its counter unnoticed.",
 [MAC, CH, SH, CV, V + "visitors/switch_case_visitor.rs", V + "visitors/finders.rs", SC],
 [("statement lists are rebuilt with counters in front of each statement", SH), ("cover_statement decides between wrapping and prepending", CH), ("new_statement allocates ids", SC)],
 ["coverage[path].s and statementMap after execution"])

prop("C03", "Function counts are complete and exact",
 "Every function with a body - declarations, expressions, arrows, class and object methods, accessors, constructors, private methods - has exactly one entry in the function map with its name and source range, and no other code has one. After any run its count equals the number of times the body was entered.",
 ["programs", "histories"], "every valid program and every execution of it",
 UT + "which call most functions zero or one time; kinds of functions or keys they do not contain are not covered.",
 [MAC, CH, SC], [("create_fn_instrumentation inserts the counter behind the directives", CH), ("one visitor per kind of method", MAC), ("new_function allocates ids and names", SC)],
 ["coverage[path].f and fnMap after execution"])

prop("C04", "Branch counts are complete and exact",
 "Every if, conditional expression, logical expression, switch and default value has exactly one branch entry, with one path per arm, leaf operand, case or default in source order, and nothing else has one. After any run, the count of each path equals the number of times that arm, operand, case body or default was evaluated.",
 ["programs", "histories"], "every valid program and every execution of it, including fallthrough, short circuits, missing else arms and nested logical expressions",
 UT + "with small branches; a path index that slips in a nested or unusual shape, or a path counted at the wrong place, needs inputs they do not have.",
 [MAC, CH, V + "visitors/switch_case_visitor.rs", SC], [("new_branch/add_branch_path allocate path indices in visiting order", SC), ("wrap_bin_expr_with_branch_counter finds the leaves", CH), ("switch cases get their counter in front of the consequent", V + "visitors/switch_case_visitor.rs")],
 ["coverage[path].b and branchMap after execution"])

prop("C05", "Truthiness counts follow the values of logical operands",
 "With reportLogic, each leaf of a logical expression also has a truthiness counter, which after any run equals the number of times the leaf evaluated to a value that is truthy and neither an empty array nor an empty plain object. The value of the expression, and of everything else, is unaffected, and without reportLogic no truthiness counters exist.",
 ["programs", "histories", "configurations"], "every valid program, value of an operand and nesting of logical expressions",
 "The tests that exist for reportLogic sample a few operands; neither reentrancy (an operand which itself contains logical expressions, recursion, await, yield) nor the full range of values is in them.",
 [CH, V + "instrument/create_increase_true_expr.rs", SC], [("the leaf's value is kept in a temporary, tested and counted", V + "instrument/create_increase_true_expr.rs"), ("b_t follows b", SC)],
 ["coverage[path].bT after execution"])

prop("C06", "Coverage data and counters in the code match one to one",
 "In every output, the ids of the statement, function and branch maps are exactly the ids of the initial hit counts, which are all zero; each branch has as many counts as locations; every counter increment in the code addresses an existing id and path; and every id and path is incremented from at least one place. No two entries of one map describe the same source range and kind.",
 ["programs", "configurations"], "every valid program and set of options",
 UT + "and do not relate the emitted increments to the emitted maps; a counter registered without code (never covered) or code without a registration (crash at run time) in dead or rare code goes unseen.",
 [SC, CH, MAC, V + "coverage_template/create_coverage_data_object.rs", V + "instrument/create_increase_counter_expr.rs"],
 [("ids are allocated and zero-initialised together", SC), ("the data object is printed from the same FileCoverage", V + "coverage_template/create_coverage_data_object.rs")],
 ["text of the output: data object, embedded comment, increments"])

prop("C07", "Reported locations and names are those of the source",
 "Every location in the coverage data is the exact 1-based line and 0-based column range of the corresponding node in the original source - statements, function declarations and bodies, branches and each of their paths - whatever the line terminators (LF, CRLF or CR), non-ASCII text, comments or earlier files in the same source map. Names, declaration ranges and the line fields of functions and branches belong to the same node.",
 ["programs", "inputs"], "every valid program text, including non-ASCII text, CRLF, tabs, and any position of the file in the compiler's source map",
 "The fixtures compare line numbers only; columns, ends, declaration ranges and multi-byte text are not checked by any test.",
 [V + "utils/lookup_range.rs", MAC, CH, SC], [("get_range_from_span maps spans through the source map", V + "utils/lookup_range.rs"), ("new_function/new_branch record lines", SC)],
 ["statementMap, fnMap and branchMap"])

prop("C08", "Ignore hints exclude exactly what they precede",
 "A comment `istanbul ignore next` in front of a statement, declaration, switch case, class member, object method or accessor, function, conditional expression or logical expression removes the counters of that node and everything in it, and of nothing else; in front of a conditional arm, logical operand or default value it removes that path of the branch, too. `ignore if` and `ignore else` remove that arm of the if statement with everything in it. A file starting with `istanbul ignore file` is left uninstrumented, behaviour never changes, and other comments have no effect.",
 ["programs", "inputs"], "every valid program and every placement of hints",
 "The fixtures have about twenty placements; that nothing outside the hinted node is lost and nothing inside it survives has to hold for every node and surrounding.",
 [V + "utils/hint_comments.rs", V + "macros/create_instrumentation_visitor.rs", MAC, CH, CV], [("on_enter looks up leading comments and passes the scope down", V + "macros/create_instrumentation_visitor.rs"), ("COMMENT_RE/COMMENT_FILE_REGEX", V + "utils/hint_comments.rs")],
 ["coverage data with the hint compared to the same program with a neutral comment"])

prop("C09", "ignoreClassMethods excludes exactly the named methods",
 "With ignoreClassMethods, class methods, object methods, accessors, constructors and named function expressions of a listed name, with everything in them, have no counters; every other entry of the coverage data has the same range and the same counts as without the option. Behaviour never changes, and names which do not occur change nothing.",
 ["programs", "configurations"], "every valid program and every list of names",
 "One fixture lists one name; that the option is exact for every kind of method, for nested functions and for the rest of the file is not sampled.",
 [MAC, V + "options/instrument_options.rs"], [("each method visitor compares the key with the list", MAC)],
 ["coverage data with and without the option"])

prop("C10", "Coverage is registered and accumulated per file on the global object",
 "After any number of instrumented files has been loaded in one realm, the object named by coverageVariable (by default __coverage__) on the global object has exactly one entry per loaded file, under the exact path the file was instrumented with and with that path in it, and each entry's counts are those of that file's code alone. An existing coverage object and the entries of other files in it are kept, and strict mode, shadowed globals and shadowed names in the program do not get in the way.",
 ["histories", "configurations", "inputs"], "every sequence of loaded files, every path (quotes, backslashes, unicode, spaces) and every coverage variable name",
 "Tests instrument and run one file per realm; sharing between files, hostile paths and names, and repeated loading need several files in one process.",
 [TPL, V + "coverage_template/create_global_stmt_template.rs", CV, V + "constants/idents.rs"], [("the template finds the global object and registers the data", TPL), ("the name of the coverage function is derived from the path", TPL)],
 ["the global coverage object after loading files"])

prop("C11", "Hash and embedded data comment agree with the data",
 "The coverage data carried in the output has a hash which is a function of the coverage data alone: equal data have equal hashes, and data that differ in any map, path or count have different hashes. With debugInitialCoverageComment the output has exactly one comment with the coverage data as JSON, equal to the initial data registered at run time, and without it none.",
 ["programs", "configurations"], "every valid program and set of options",
 "No test relates hash, comment and data; they are derived separately from the same structure.",
 [V + "coverage_template/create_coverage_data_object.rs", TPL], [("hash of the serialised coverage", V + "coverage_template/create_coverage_data_object.rs"), ("debug comment is a serialisation of the same FileCoverage", TPL)],
 ["hash, _coverageSchema, comment and runtime data"])

prop("C12", "Output depends only on the file, its path and the options",
 "Instrumenting the same source with the same path and options gives byte-identical output no matter which files were instrumented before in the same process, how many threads instrument at the same time, or how often it is repeated. No state of one file's coverage appears in another's.",
 ["schedules", "histories"], "every history of earlier files and every interleaving of concurrently instrumented files in one process",
 "Each test is its own process or a single call; process-global and thread-shared state can only show across calls and threads.",
 [TPL, CV, V + "constants/idents.rs", V + "utils/hint_comments.rs"], [("coverage state is owned by one visitor", CV), ("statics are lazily initialised constants", V + "constants/idents.rs")],
 ["output text across histories and threads"])

prop("C13", "Directives, strictness and module structure survive",
 "Leading directives of programs and of every function stay in force: strict code stays strict and sloppy code stays sloppy, and the output begins with the same directives. The imports and exports of a module - sources, names, kinds - are the same as in the original, and calling a function or importing a module before its position in the file works as before.",
 ["programs"], "every valid program with any directives, imports and exports",
 "One unit test looks at one directive; inserted statements in front of a directive silently change the semantics of code which only differs in strictness-sensitive places.",
 [CV, SH, CH, V + "utils/node.rs"], [("count_directives is used where statements are prepended", V + "utils/node.rs"), ("template goes behind directives", CV)],
 ["strictness probes, parsed import/export tables"])

prop("C14", "The input source map is passed on verbatim",
 "If the options have an inputSourceMap, the coverage data of the file has an equal source map - version, sources, contents, names, mappings, file, source root - and otherwise none. It has no influence on the counters and locations.",
 ["inputs", "configurations"], "every source map object in the options",
 "Two fixtures pass one small map; optional fields, null contents, escapes and unicode are not in them.",
 [V + "coverage_template/create_coverage_data_object.rs", OX + "source_map.rs", SC], [("SourceMap is deserialised from the options and printed into the data object", V + "coverage_template/create_coverage_data_object.rs")],
 ["coverage[path].inputSourceMap"])

prop("C15", "The instrumenter is total on valid programs",
 "For every program the compiler accepts - JavaScript, JSX, TypeScript, TSX, scripts, CommonJS and modules - and every set of options, instrumentation terminates without a panic or crash, and the output is a valid program of the same kind. TypeScript type-only code gets no counters, and namespaces, enums, parameter properties and body-less functions work.",
 ["programs", "configurations"], "every valid program in any supported syntax, before or after type stripping",
 UT + "almost all plain JavaScript; syntax that no fixture uses reaches `unwrap`, `expect` and index expressions for the first time in production.",
 [MAC, CH, SH, CV, V + "utils/lookup_range.rs", SC], [("visitors recurse over the whole AST", MAC)],
 ["panics, exit status, output parsed by an independent parser"])

prop("C16", "The plugin applies its configuration and exclusions faithfully",
 "The wasm plugin gives the same program and comments as the library called with the same file name and options; a file whose name matches any unstableExclude glob (backslashes in either one counting as slashes, drive letters left aside) is returned unchanged and any other file is instrumented. A missing file name becomes unknown.js, missing or malformed configuration falls back to instrumenting with the default options, and a list of globs with an invalid one is ignored; both are reported and neither fails.",
 ["inputs", "configurations"], "every configuration string, list of globs and file name, Unix or Windows",
 "Unit tests of the plugin normalise five paths; the entry point itself, the configuration fallback and the matching of globs are not run by any Rust test.",
 [PL, V + "options/instrument_options.rs"], [("normalize_path on patterns and file name, wax::any", PL), ("serde defaults", V + "options/instrument_options.rs")],
 ["program and comments returned by the wasm module"])

prop("C17", "Merging file coverage conserves hits",
 "Merging two coverages of a file gives, for each statement, function and branch path identified by its location, the sum of the hits of both, and the same for truthiness counts, with every entry of either input present exactly once and ids consistent between maps and counts. The second operand is not changed.",
 ["inputs", "histories"], "every pair of coverages: equal maps, different ids or order, disjoint or overlapping entries, different numbers of branch paths",
 "Unit tests merge three hand-written pairs with a single branch and function each.",
 [OX + "file_coverage.rs"], [("items are matched by a key made from the location", OX + "file_coverage.rs"), ("hits and maps are renumbered together", OX + "file_coverage.rs")],
 ["FileCoverage after merge"])

prop("C18", "Merging is associative, commutative and respects placeholders",
 "Up to the numbering of ids, merging coverages of a file gives the same result in every order and grouping. A coverage marked `all` (file never loaded) contributes nothing when merged into real coverage and is replaced by it in the other direction, and merging a coverage with all hits zero changes no hits.",
 ["histories", "inputs"], "every sequence of merges, in every order",
 "Unit tests merge two operands once.",
 [OX + "file_coverage.rs"], [("FileCoverage::merge", OX + "file_coverage.rs")], ["FileCoverage after sequences of merges"])

prop("C19", "A coverage map holds exactly one merged entry per path",
 "After any sequence of adding files, merging maps and filtering, a coverage map contains exactly the paths that were added and not filtered out, in order of first addition, each with the merge of all coverages added for it, and lookup finds each of them. Merging leaves the other map unchanged, and the summary of the map is the sum over its files.",
 ["histories"], "every sequence of add, merge, filter and lookup operations",
 "Three unit tests perform one operation each on at most two files.",
 [OX + "coverage_map.rs"], [("add_coverage_for_file merges or inserts", OX + "coverage_map.rs"), ("filter rebuilds the map", OX + "coverage_map.rs")],
 ["files, coverage and summary after each operation"])

prop("C20", "Summaries and percentages are arithmetically right",
 "For every coverage the summary has total and covered numbers of lines, statements, functions, branch paths and truthiness paths equal to a direct count, and merged summaries are the sums. A percentage is 100 for an empty total, otherwise covered/total rounded down to two decimals, always between 0 and 100, and 100 only if everything is covered.",
 ["inputs", "histories"], "every coverage and every sequence of summary merges, including large totals",
 "Unit tests sample five ratios; rounding and overflow depend on the numbers.",
 [OX + "coverage_summary.rs", OX + "percent.rs", OX + "file_coverage.rs"], [("percent", OX + "percent.rs"), ("compute_simple_totals/compute_branch_totals", OX + "file_coverage.rs"), ("CoverageSummary::merge", OX + "coverage_summary.rs")],
 ["CoverageSummary values"], "read access to the fields of CoverageSummary")

prop("C21", "Line and branch-by-line views follow from the hits",
 "The line coverage of a file has exactly the lines on which a statement starts, each with the largest count of the statements starting there; uncovered lines are exactly those with count zero. Branch coverage by line has exactly the lines of branches, with the number of paths and of covered paths of all branches of that line and their ratio.",
 ["inputs"], "every coverage with any layout of statements and branches on lines",
 "Two unit tests with two lines each.",
 [OX + "file_coverage.rs"], [("get_line_coverage, get_uncovered_lines, get_branch_coverage_by_line", OX + "file_coverage.rs")],
 ["results of the line views"])

prop("C22", "Coverage survives serialisation and reset keeps structure",
 "Serialising any coverage to JSON and reading it back gives an equal coverage, in Istanbul's format: JSON produced here is accepted by Istanbul's reader and the coverage of a run (read from the JavaScript runtime) is accepted here with equal content. Resetting hits makes every count zero and changes nothing else.",
 ["inputs"], "every coverage, including optional members, source maps and unusual paths",
 "Reset is tested once; serialisation is not tested at all.",
 [OX + "file_coverage.rs", OX + "types.rs", OX + "source_map.rs", OX + "range.rs"], [("serde attributes (camelCase, kebab-case, defaults)", OX + "types.rs"), ("reset_hits", OX + "file_coverage.rs")],
 ["JSON of FileCoverage"])

prop("C23", "Coverage of real runs merges to the coverage of both runs",
 "Collecting the coverage of an instrumented file in several processes or realms and merging the results gives, entry by entry, the sum of the counts of each run, and the merged summary is the one computed from those sums. This is how coverage is used: parallel test workers merged into one report.",
 ["histories", "programs"], "every program and every set of runs of it",
 "No test combines the instrumenter with the merge; both sides are only tested against hand-written data.",
 [OX + "file_coverage.rs", OX + "coverage_map.rs", SC, TPL], [("locations are the identity of entries", OX + "file_coverage.rs"), ("ranges distinguish entries", SC)],
 ["merged FileCoverage of real executions"])

prop("C24", "Options are independent of each other",
 "Options which do not select what is instrumented - coverageVariable, compact, debugInitialCoverageComment, inputSourceMap, instrumentLog - change neither the maps nor the counters nor the program; every option may be given alone, together with the others or left out, in which case its documented default applies, and each has its own effect whichever others are given.",
 ["configurations", "programs"], "every combination of options, given or left out",
 "Tests set one or two options at a time.",
 [V + "options/instrument_options.rs", CV, TPL], [("serde defaults per field", V + "options/instrument_options.rs")],
 ["coverage data and program under combinations of options"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
