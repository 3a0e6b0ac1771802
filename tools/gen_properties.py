#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (keeps the JSON well formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=False):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Source annotations suppress exactly the findings they cover and name",
 "A finding is suppressed by source annotations exactly when, in the finding's own file, some `#nosec` comment, `//gosec:disable` directive or configured alternative-tag comment is attached to code whose line range contains, or is contained in, the finding's line range, and that annotation names the finding's rule or names no rule. Every annotated comment group counts (of several annotations in one group only one; a tag mentioned inside a line is none), whatever the number, order or nesting of the others; rule ids inside a justification, annotations attached elsewhere and annotations naming only other rules suppress nothing. When annotations are disabled (`-nosec`, global `nosec`) none of them suppresses anything.",
 ["programs", "configurations"],
 "every source file, i.e. every placement, nesting and combination of annotations and findings, every spelling of an annotation, every map iteration order while annotations are collected",
 "unit tests use one annotation per sample and one finding; they never combine nested or overlapping annotations naming different rules, where the result depends on the lookup order",
 ["analyzer.go"],
 [("annotation parsing", "analyzer.go ignore/findNoSecDirective/findNoSecTag"), ("range lookup", "analyzer.go ignores.add/get"), ("suppression decision", "analyzer.go getSuppressionsAtLineInFile")],
 [("ignore table", "line ranges with the rules suppressed there, per file", "Context.Ignores")],
 ["Analyzer.Report issues", "CLI JSON report"])

prop("C02", "Suppressed findings are accounted for, never lost",
 "With suppression tracking on, the report holds every finding that a scan without any suppression produces, and each suppressed one carries exactly one record per annotation that suppresses it (kind `inSource`, with that annotation's justification) plus one record of kind `external` with the fixed global justification when its rule is deselected by include/exclude. With tracking off the report holds exactly the unsuppressed findings, or with show-ignored all findings with the ignored mark set exactly on the suppressed ones. The annotation counter equals the number of annotations honoured, and suppressed findings are not counted as found.",
 ["programs", "configurations"],
 "every program with annotations x every combination of tracking, show-ignored, annotations-disabled, include and exclude",
 "tests check single combinations on one-finding samples; the product of options with several overlapping annotations and rules is never explored",
 ["analyzer.go", "rule.go", "analyzers/analyzers_set.go", "cmd/gosec/main.go"],
 [("issue bookkeeping", "analyzer.go updateIssues"), ("external suppression", "rule.go IsRuleSuppressed, analyzers_set.go IsSuppressed"), ("true-issue counting", "cmd/gosec/main.go filterIssues")],
 [("issues", "reported findings", "Analyzer.issues"), ("stats", "counters", "Analyzer.stats")],
 ["Analyzer.Report", "JSON/SARIF report"])

prop("C03", "Rule selection activates exactly the requested rules",
 "A scan reports findings of a rule exactly when the rule is selected: every rule when nothing is asked for, only the included ones when an include list is given, never an excluded one (exclusion wins), for syntax-tree rules and data-flow analyzers alike and whether the lists come from the command line, the configuration file or both (a command-line list replaces the configured one). Selecting or deselecting one rule never changes the findings of another. A selection that leaves no rule at all is refused.",
 ["configurations", "programs"],
 "every include/exclude subset of the rules, from flag, config or both, on every program",
 "tests try a few hand-picked filters on the list object and do not scan with them",
 ["rules/rulelist.go", "analyzers/analyzerslist.go", "cmd/gosec/main.go", "rule.go", "cmd/vflag/flag.go"],
 [("filters", "rules/rulelist.go Generate/NewRuleFilter, analyzers/analyzerslist.go"), ("global options", "cmd/gosec/main.go loadConfig"), ("rule registry", "rule.go RuleSet")],
 [("registry", "rules by node type", "RuleSet")], ["CLI JSON report"])

prop("C04", "Severity and confidence thresholds select exactly the right findings",
 "The report of the command-line tool holds exactly the findings whose severity is at least the requested severity and whose confidence is at least the requested confidence, with their scores unchanged, and the summary's found count equals the number of reported findings that are neither suppressed nor ignored. Threshold names are accepted case-insensitively and any other value is refused before scanning.",
 ["configurations", "programs"],
 "every pair of thresholds x every multiset of findings x suppression options",
 "the threshold code of the command is exercised with a couple of fixed issue lists",
 ["cmd/gosec/main.go", "issue/issue.go"],
 [("thresholds", "cmd/gosec/main.go convertToScore/filterIssues")], [], ["CLI report Stats.found and Issues"])

prop("C05", "The exit status tells whether anything needs attention",
 "The command exits 0 exactly when the final report holds no unsuppressed finding and no error, or failure is disabled with no-fail, and exits 1 otherwise; quiet, terse, output redirection and the report format never change that, nor do findings that are only shown because suppressed ones were asked for. Quiet mode suppresses the report only when there is nothing to report, neither findings nor errors.",
 ["configurations", "programs"],
 "every combination of {findings, suppressed findings, findings below threshold, errors} with {no-fail, quiet, terse, show-ignored, track-suppressions, nosec, format, out}",
 "the exit path ends the process and is not covered by any test",
 ["cmd/gosec/main.go"],
 [("exit decision", "cmd/gosec/main.go exit"), ("quiet shortcut", "cmd/gosec/main.go main")], [], ["process exit status", "stdout"])

prop("C06", "Concurrent scans lose, duplicate and mix up nothing, and terminate",
 "For every number of packages, every positive worker count and every completion order of the package loads, a scan terminates, analyses every distinct package exactly once and yields the same set of findings, file and line counts and errors as scanning the packages one at a time. A package that fails to load contributes an error and never stops, starves or alters the others.",
 ["schedules", "configurations", "fault_sequences"],
 "every interleaving of workers taking jobs, loads succeeding or failing, and results being consumed; every worker count and package list",
 "tests scan one or two packages under whatever schedule the runtime picks; starvation, early exit of workers and result loss need particular interleavings",
 ["analyzer.go", "cmd/gosec/main.go"],
 [("worker pool", "analyzer.go Process"), ("load serialisation", "analyzer.go load")],
 [("jobs/results/quit", "channels of the pool", "analyzer.go Process")], ["Analyzer.Report", "scan log"])

prop("C07", "Build tags govern file selection in every package of a scan",
 "With build tags given, each scanned package is analysed with exactly the files whose build constraints are satisfied under those tags (and without tags exactly the files of the default build), for every package of the scan regardless of how many packages there are, their order, the worker count or the schedule. Packages left without files are skipped without an error.",
 ["configurations", "programs", "schedules"],
 "every set of tags x every package list with constrained files x worker counts",
 "tests use tags with a single package, and a shared mutable build configuration misbehaves only from the second package on",
 ["analyzer.go", "cmd/gosec/main.go"],
 [("tag plumbing", "analyzer.go Process/load")], [("shared load configuration", "build flags used by all workers", "analyzer.go Process")], ["findings per file", "Stats.files"])

prop("C08", "Every failure is recorded and contained",
 "Every syntax error, type error and load failure the Go tool chain reports for a scanned package appears in the report under the right file with its line, column and message; errors in a file are ordered by line and column, each is reported once, and none is invented. A faulty package never hides findings or errors of another package, the rules still analyse the files of a faulty package that can be parsed, and a package that cannot be imported contributes one error.",
 ["fault_sequences", "programs"],
 "every combination of healthy, unparsable, ill-typed, missing and unloadable packages, every error position",
 "tests feed one broken package at a time and check that some error exists",
 ["analyzer.go", "errors.go"],
 [("error parsing", "analyzer.go ParseErrors"), ("load errors", "analyzer.go AppendError"), ("ordering", "errors.go sortErrors")],
 [("errors", "errors per file", "Analyzer.errors")], ["report 'Golang errors'"])

prop("C09", "Every report format carries the same findings and stays well-formed",
 "For the same scan result each of the formats json, yaml, csv, junit-xml, html, text, sonarqube, golint and sarif represents every finding it is given exactly once with the same rule, file, line, severity and message, as far as the format carries that field, invents none, and produces a document that a conforming parser of the format accepts (sonarqube holds only findings in files below the scanned roots; the line formats text and golint are judged up to line breaks). This holds for every content of paths, messages and code snippets (quotes, angle brackets, ampersands, newlines, commas, control and non-ASCII characters), and findings with suppression records never appear as open problems.",
 ["inputs", "configurations"],
 "every list of findings, with arbitrary strings in every field, x every format",
 "tests render one benign finding per format and compare with a fixed string",
 ["report/formatter.go", "report/text/writer.go", "report/csv/writer.go", "report/junit", "report/sonar", "report/golint/writer.go", "report/html", "report/yaml", "report/json", "report/sarif"],
 [("format dispatch and suppression filter", "report/formatter.go CreateReport"), ("writers", "report/*/writer.go")], [], ["written report"])

prop("C10", "SARIF reports are referentially sound",
 "In every SARIF report the results correspond one to one to the findings; each result's rule index designates the driver rule whose id is the result's rule id, rule ids are unique and sorted, every weakness referred to by a rule exists once, by id and GUID, in a taxonomy of the run, which the driver declares to support, what is said of a rule (weakness, level, description) is said of a finding of it, and levels follow severity. Locations are relative to the scanned root that contains the file, region lines and columns are those of the finding, suppressions of a finding are carried over with kind and justification, and the document conforms to the structure the format requires (no null objects or missing required members).",
 ["inputs", "histories"],
 "every list of findings, in every order and with every repetition of rules, every combination of roots",
 "tests build reports with at most two distinct rules in one order; wrong indices appear only for particular insertion orders",
 ["report/sarif/formatter.go", "report/sarif/builder.go", "issue/issue.go", "cwe"],
 [("rule table", "report/sarif/formatter.go addRuleInOrder/buildSarifRule"), ("taxa", "report/sarif/formatter.go buildSarifTaxonomy"), ("locations", "report/sarif/formatter.go")],
 [("rules / taxa / results", "accumulated while iterating the findings", "report/sarif/formatter.go GenerateReport")], ["SARIF document"])

prop("C11", "Reports are deterministic and ordered",
 "Two scans of the same tree with the same options produce the same findings in the same order with the same contents, independent of scheduling, of the order of the packages on the command line and of map iteration (without sorting, the same set of findings). With sorting on, findings are ordered by decreasing severity, and sorting neither drops, duplicates nor alters findings.",
 ["schedules", "histories", "inputs"],
 "every multiset of findings including ties, every arrival order, repeated runs",
 "tests sort two or three findings; ties and arrival orders produced by concurrent loading are not covered",
 ["cmd/gosec/sort_issues.go", "helpers.go", "analyzer.go"],
 [("issue order", "cmd/gosec/sort_issues.go"), ("package list", "helpers.go PackagePaths")], [], ["CLI report, byte for byte"])

prop("C12", "Path arguments expand to exactly the directories with Go files",
 "A path ending in `...` expands to every directory below it that holds Go files, each exactly once, except those matched by an excluded-directory expression (`vendor` and `.git` by default); any other path stands for itself. Exclusions given on the command line add to the defaults, and the result does not depend on how the root is spelled, unless an exclusion matches the root's own spelling.",
 ["inputs", "configurations"],
 "every directory tree, every exclusion list, every spelling of the root",
 "tests use one small tree and one exclusion",
 ["helpers.go", "cmd/gosec/main.go"],
 [("walk", "helpers.go PackagePaths"), ("exclusion", "helpers.go ExcludedDirsRegExp/isExcluded")], [], ["scanned directories in log and report"])

prop("C13", "Test, generated and non-Go files are handled as configured",
 "Test files are analysed exactly when tests are requested, and generated files (bearing the standard generated-code marker) are reported on unless their exclusion is requested, in which case no rule or analyzer reports anything in them while all other files of the package are still analysed. Files that are no Go source of the package (such as expanded copies of cgo files) are never reported, and the file and line counters equal the number of files analysed by the rules and the sum of their lines.",
 ["programs", "configurations"],
 "every mix of ordinary, generated, test, external-test, build-constrained and cgo files x {tests, exclude-generated}",
 "tests use one file of one kind with one option",
 ["analyzer.go"],
 [("file filter", "analyzer.go CheckRules, CheckAnalyzers, generatedFiles"), ("test files", "analyzer.go load")], [("stats", "files and lines", "Analyzer.stats")], ["findings per file", "Stats"])

prop("C14", "Configuration has one meaning regardless of source and survives saving",
 "Each option has the effect documented for it whether it is set in the configuration file or by a flag; a flag given on the command line wins over the file, options not mentioned keep their defaults, and boolean options are on exactly for the values `true` and `enabled`. Reading a configuration, writing it and reading it back yields the same behaviour, reading a second configuration into the first replaces only the sections it mentions, and malformed configuration is refused.",
 ["configurations", "histories"],
 "every configuration document x flag set, every read/write/set history",
 "tests read a few documents and query single keys",
 ["config.go", "cmd/gosec/main.go", "analyzer.go"],
 [("globals", "config.go convertGlobals/GetGlobal/SetGlobal/IsGlobalEnabled"), ("merge", "cmd/gosec/main.go loadConfig")], [("configuration", "sections and global options", "Config")], ["Config API", "CLI behaviour"])

prop("C15", "Findings point at the code they are about",
 "Every finding names the file that contains the offending code, a line range that lies in the file and encloses the offending construct, the column where it starts, and a snippet consisting of exactly the numbered lines of that range with one line of context on each side, verbatim. Findings of the data-flow analyzers name the single line and the column of the operation itself (the parenthesis of a conversion or call, the bracket of an index). This holds for multi-line constructs, first and last lines, long lines and non-ASCII text.",
 ["programs", "inputs"],
 "every position and extent of an offending construct in a file",
 "tests check the snippet of one three-line sample",
 ["issue/issue.go", "analyzers/util.go"],
 [("positions", "issue/issue.go New/GetLine"), ("snippet", "issue/issue.go CodeSnippet"), ("analyzer issues", "analyzers/util.go newIssue")], [], ["Issue File/Line/Col/Code"])

prop("C16", "Detection of risky packages and calls does not depend on import names",
 "Every import of a blocklisted package, every blank import of the profiling endpoint, every call of a listed risky function (weak hashes and ciphers, weak random numbers, unsafe, insecure SSH host keys, HTTP serving without timeouts) and every HTTP server literal without header timeout is reported under the documented rule, for every way the package can be imported (plain, renamed, dot, repeated or shared with other imports, any quoting) and at every place an expression may occur. A local package, variable, method or function that merely has the same name is not reported.",
 ["programs"],
 "every import form x every call position x shadowing and look-alike packages",
 "each sample uses mostly the plain import in one call position",
 ["rules/blocklist.go", "rules/weakcrypto.go", "rules/weakcryptohash.go", "rules/weakdepricatedcryptohash.go", "rules/rand.go", "rules/unsafe.go", "rules/ssh.go", "rules/pprof.go", "rules/http_serve.go", "call_list.go", "import_tracker.go", "helpers.go"],
 [("import tracking", "import_tracker.go"), ("call lists", "call_list.go"), ("selector resolution", "helpers.go GetCallInfo/MatchCallByPackage")], [], ["findings"])

prop("C17", "File permission checks decide exactly by mode bits",
 "A constant file or directory mode passed to Mkdir, MkdirAll, OpenFile, Chmod or WriteFile of the os or io/ioutil package is reported exactly when it grants a permission bit outside the rule's limit (by default 0750 for directories, 0600 for files, or the limit configured for that rule in octal), however the constant is written. Creating a file with the implicit default mode is judged against its rule's limit in the same way, and other calls are never reported by these rules.",
 ["inputs", "configurations", "programs"],
 "all 512 (and larger) modes x every literal spelling x every covered call x configured limits",
 "samples contain a handful of modes; a comparison that is numerical instead of bitwise passes them",
 ["rules/fileperms.go", "helpers.go"],
 [("mode comparison", "rules/fileperms.go modeIsSubset"), ("constant extraction", "helpers.go GetInt")], [], ["findings G301 G302 G306 G307"])

prop("C18", "Narrowing integer conversions are reported, widening ones never",
 "An explicit conversion between integer types (uintptr aside), wherever it stands, is reported exactly when the destination type cannot represent every value of the source type and nothing shows that the value fits. A constant that fits, the result of a strconv parse call with a sufficiently small bit size, a length where only negative values are missing, and a variable or field which the comparisons with constants passed on every way to the conversion confine to the destination's range are not reported; comparisons that leave one value outside, or that are not on every way, do not count. Conversions whose destination holds every source value are never reported.",
 ["programs", "inputs"],
 "all pairs of integer types x kinds of operand x guard shapes and bounds",
 "samples cover a few pairs and guards; the full type table, named types, both comparison orders and boundary constants are not covered",
 ["analyzers/conversion_overflow.go", "analyzers/util.go"],
 [("type ranges", "analyzers/conversion_overflow.go parseIntType"), ("range checks", "analyzers/conversion_overflow.go isRangeCheck and successors")], [], ["findings G115"])

prop("C19", "Weak TLS settings and short RSA keys are reported",
 "A TLS configuration literal or an assignment to a field of a configuration is reported if it may disable certificate verification or the server's cipher preference, sets a minimum version below TLS 1.2 or a maximum version below TLS 1.3, or lists a cipher suite outside the allowed list, and a literal also if it leaves the minimum version unset or to a value that cannot be told; one that does none of these is not. The verdict depends on the values of constants and not on their spelling, on variables by their declared value, and never on other configurations in the package. rsa.GenerateKey is reported exactly for constant sizes below 2048 bits.",
 ["programs", "histories"],
 "every combination and order of fields in a configuration, every sequence of configurations in a package, every way of writing the constants",
 "samples hold one configuration each, so state carried from one configuration to the next is invisible",
 ["rules/tls.go", "rules/tls_config.go", "rules/rsa.go"],
 [("field checks", "rules/tls.go processTLSConf/processTLSConfVal"), ("version state", "rules/tls.go checkVersion/resetVersion"), ("key size", "rules/rsa.go")],
 [("actual min/max version", "carried between nodes", "rules/tls.go")], ["findings G402 G403"])

prop("C20", "Variable data reaching a dangerous call is reported, constants are not",
 "A process launch (G204), HTTP request (G107), file open (G304) or SQL query (G201, G202) is reported when its command or arguments, URL, path or query text is a variable without a known value, or is concatenated, joined or formatted from one, and is not reported when everything in it is built only from literals and constants; a variable of the package as an URL is always reported, and parameters given whole to a process launch, the context of a launch and variables whose own path was cleaned before never are. Variables count as their declaration: known when it gives the variable itself a value built only from known ones. The verdict does not depend on how a constant is split, named, parenthesised or concatenated, on import names, or on where the call stands.",
 ["programs"],
 "every expression form for the argument x every covered call",
 "samples pair a few forms with a few calls; the product is not covered",
 ["rules/subproc.go", "rules/ssrf.go", "rules/readfile.go", "rules/sql.go", "resolve.go", "helpers.go"],
 [("constant resolution", "resolve.go TryResolve"), ("sinks", "rules/subproc.go, rules/ssrf.go, rules/readfile.go, rules/sql.go")], [], ["findings G107 G201 G202 G204 G304"])

prop("C21", "Ignored error results are reported exactly where configured",
 "A call with a result of type error which an expression statement discards is reported, and in audit mode also one discarded by assignment to the blank identifier; calls without an error result, calls whose errors are bound to a name or passed on, and calls on the allow list (built in, extended by the configured one) are not. Allow-list entries apply to exactly the named functions of a package or methods of a type, whatever the form of the call, the statement around it or the import alias.",
 ["programs", "configurations"],
 "every call form x position of the error result x use of the results x allow-list content x audit mode",
 "samples cover few call forms, single results and one configuration",
 ["rules/errors.go", "call_list.go", "helpers.go"],
 [("return type scan", "rules/errors.go returnsErrors"), ("allow list", "rules/errors.go, call_list.go ContainsCall")], [], ["findings G104"])

prop("C22", "Analysing one file never changes the verdict on another",
 "The findings in a file are a function of that file's package, the configuration and the selected rules only: they are the same whether the file's package is scanned alone, after, before or together with other packages, again with the same scanner, or in a fresh scanner after a reset. No rule state, import bookkeeping or suppression leaks from one function, file, package or run into another.",
 ["histories", "programs"],
 "every sequence of packages, resets and repeated runs on one scanner",
 "tests create a fresh scanner and one package for each sample",
 ["analyzer.go", "import_tracker.go", "rules"],
 [("per-file context", "analyzer.go CheckRules"), ("reset", "analyzer.go Reset"), ("rule state", "rules/*.go Match")],
 [("context", "per-file context", "Analyzer.context"), ("rule fields", "state kept in rule objects", "rules/*.go")], ["Analyzer.Report"])

prop("C23", "No source text makes the scanner crash or hang",
 "Scanning terminates with a report for every source tree, including code that does not parse or type-check, unusual argument counts, shadowed or dot-imported packages, unusual but legal syntax and very deep nesting; the scanner never aborts. Faults are confined to the code that provokes them, so that findings elsewhere are still reported.",
 ["programs", "fault_sequences"],
 "every Go source text, well-formed or not",
 "samples compile and use the covered functions with their usual arguments",
 ["analyzer.go", "rules", "analyzers", "helpers.go"],
 [("rule dispatch", "analyzer.go Visit"), ("analyzer dispatch", "analyzer.go CheckAnalyzers/buildSSA"), ("argument inspection", "rules/*.go")], [], ["process outcome", "Analyzer.Report"])

prop("C24", "Suggested fixes attach to their findings and never cost a finding",
 "When fix suggestions are enabled, every reported finding is offered to the service at most once per distinct finding text and carries exactly the suggestion returned for its own text; a failing, slow or malformed answer is told and may end the suggestions, but never removes, reorders or alters findings, changes the exit status, or prevents the report. Suggestions are requested exactly when a provider and a key (by flag or environment) are given.",
 ["fault_sequences", "configurations"],
 "every sequence of service outcomes x every list of findings with repetitions x every source of the key",
 "tests use a mock returning one fixed outcome; the real client and the command-line wiring are not exercised",
 ["autofix/ai.go", "cmd/gosec/main.go"],
 [("cache", "autofix/ai.go generateSolutionByGemini"), ("wiring", "cmd/gosec/main.go main")], [("cache", "suggestion by finding text", "autofix/ai.go")], ["report Autofix fields", "requests seen by the service"])

prop("C25", "Constant out-of-range slice accesses are reported, in-range ones are not",
 "For a slice created with a constant length and capacity, a constant index beyond its length or a constant slicing beyond its capacity is reported and one within is not (a slice of length zero, made to be filled, is judged by its capacity); the verdict follows the bounds exactly through nested slicing and calls that pass the slice to other functions. An access which is reached only when a comparison of the length with a constant has made it safe is not reported; any other comparison changes nothing.",
 ["programs", "inputs"],
 "every length, capacity, index and bound, every guard shape",
 "samples contain fixed numbers, none systematically at the boundary",
 ["analyzers/slice_bounds.go"],
 [("bounds", "analyzers/slice_bounds.go trackSliceBounds/sliceSize"), ("guards", "analyzers/slice_bounds.go sliceGuards")], [], ["findings G602"])

prop("C26", "Every rule is fully described and its findings carry its metadata",
 "Every selectable rule has a unique identifier, a description, valid severity and confidence, and a weakness (CWE) entry that exists in the weakness catalogue; each finding carries the identifier of the rule that produced it and that rule's weakness. Rule sets offered by the command, the library and the documentation agree.",
 ["programs", "configurations"],
 "all rules x all findings they can produce",
 "tests check the mapping for samples of rules; a rule missing from the mapping is invisible",
 ["issue/issue.go", "cwe/data.go", "rules/rulelist.go", "analyzers/analyzerslist.go", "README.md"],
 [("mapping", "issue/issue.go ruleToCWE"), ("catalogue", "cwe/data.go")], [], ["finding Cwe fields", "usage text", "README"])

prop("C27", "Hard-coded credentials are recognised as configured",
 "A string literal of sufficient entropy, however it is quoted, split or parenthesised, bound to a variable or constant whose name matches the credential pattern (by assignment, declaration or comparison) is reported, as is one of a known secret format bound to a variable or constant of any name; names that do not match, computed values, values bound to other names, and values below the entropy thresholds are not. Pattern, entropy check, thresholds and truncation follow the configuration of the rule.",
 ["programs", "inputs", "configurations"],
 "every name x value x binding form x configuration",
 "samples use a few names and values with the default configuration",
 ["rules/hardcoded_credentials.go"],
 [("name pattern and entropy", "rules/hardcoded_credentials.go")], [], ["findings G101"])

prop("C28", "Two-step dangerous flows are reported",
 "A dangerous value that reaches a call which makes it dangerous is reported at that call, whether it is written there or held in a variable that got it before, and the safe variants are not: results of strconv.Atoi converted to 16 or 32 bits, decompressing readers copied without limit, names of archive members joined into paths, initialisation vectors and nonces not read from crypto/rand given to ciphers (also through parameters of functions), files created in shared temporary directories, listeners on all interfaces, HTTP servers without read timeouts or serving the root directory, anything but literals declared safe for templates, and addresses of range variables before Go 1.22 (the version named by GOSECGOVERSION, else by the module). The verdict is independent of variable names, import names and parentheses, of the distance between the two steps, of the blocks they are in, and of unrelated code around them, other variables of the same name included. Not judged: values copied from variable to variable, fields and elements, nonces that are one of several results of a call, and for listeners and archive names variables which are assigned anew.",
 ["programs"],
 "every source step x sink step x intermediate form, safe and unsafe variants",
 "samples pair one source with one sink in fixed shapes",
 ["rules/integer_overflow.go", "rules/decompression-bomb.go", "rules/archive.go", "analyzers/hardcoded_nonce.go", "rules/tempfiles.go", "rules/bind.go", "rules/slowloris.go", "rules/directory-traversal.go", "rules/templates.go", "rules/implicit_aliasing.go", "helpers.go"],
 [("flow tracking", "rules/*.go PassedValues and per-rule maps"), ("nonce tracking", "analyzers/hardcoded_nonce.go")], [("tracked values", "values remembered between nodes", "rule fields")], ["findings G102 G109 G110 G111 G112 G203 G303 G305 G407 G601"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        f.write(json.dumps(p) + "\n")
print(len(P))
