T_ALL = "every test compares a handful of hand-written weights; none ranges over "

P("C09", "Evaluation is exact up to saturation and rejects unbound variables",
  """The value of a weight expression under an assignment is the arithmetic value of its parts: constants are themselves, sums and products combine
  the values of both operands and stop at the largest representable number instead of wrapping or crashing, and a variable has the value of the
  expression it is bound to. A variable without a binding makes the evaluation an error. Two-dimensional weights are evaluated in each dimension
  separately.""",
  ["inputs"], "all weight expressions of any depth and all assignments",
  "overflow and missing bindings can sit at any depth of an expression; the tests evaluate a handful of small ones",
  [TERM], [("evaluators", TERM + ": SimpleTerm::eval, ChromaticTerm::eval")], observe=["the returned value or error"])

P("C10", "Transforming an expression acts on every part and nothing else",
  """Reducing an expression to one dimension keeps its shape, variables and factors and replaces every weight by its value in that dimension; lifting
  does the converse and leaves the other dimension zero. Substitution replaces exactly the occurrences of the variable by the given expression, the
  free and bound variables of an expression are those of all its parts, and joining the two halves of a two-dimensional weight yields an expression
  with exactly the summands of both halves.""",
  ["inputs"], "all weight expressions of any depth",
  "a part can be dropped or swapped at any depth; the tests use expressions of depth two or three",
  [TERM], [("operations", TERM + ": simplify, into_chromatic, substitute, free_vars, bound_vars, splice_add")], observe=["the returned expression"])

P("C11", "A displayed formula denotes the expression it was made from",
  """When an expression is displayed, a part is only left out where it is neutral (a factor one, a summand zero, a product with a zero factor), every
  other part appears in order with its operator, and a sum that is an operand of a product is bracketed. An expression without any visible part is
  displayed as 0.""",
  ["inputs"], "all weight expressions of any depth and nesting",
  "the tests render twelve small expressions; bracket context and omission interact at every level",
  [TERM], [("renderer", TERM + ": maybe_fmt_with_bracket, Display")], observe=["the displayed text"])

P("C12", "A change reports the right kind, values and percentage",
  """Comparing the old and the new weight of an extrinsic under one assignment of its components yields Added when only the new one
  exists, Removed when only the old one exists, Unchanged when both are the same expression and Changed otherwise; the reported old
  and new values are the evaluations of the respective side, absent where the side is absent. The percentage is 100 * new / old - 100,
  0 when both values are equal (an absent side counts as the value 0). If either side cannot be evaluated the comparison is an error
  rather than a result.""",
  ["inputs"], "all pairs of optional weight expressions, component assignments and comparison methods",
  "the tests sample a few dozen value pairs; kind, value selection and the 0/0 corner must hold for every pair",
  [CORE], [("classification and percentage", CORE + ": compare_terms, percent")], observe=["the returned change"])

P("C13", "Every extrinsic of both sides is compared exactly once, with its partner",
  """The comparison of two sets of extrinsics contains exactly one entry for every distinct pallet/extrinsic pair that occurs on either
  side and passes the optional pallet and extrinsic patterns, and no other entry. Each entry compares the old and the new extrinsic with
  exactly that pallet and name, after reducing both to the selected unit; a failing comparison becomes a failed entry instead of
  vanishing or aborting the others, and an invalid pattern is an error.""",
  ["inputs"], "all sets of old and new extrinsics, filters and units",
  "tests compare fixed weight files; matching must be right for every combination of names, including equal names in different pallets",
  [CORE], [("pairing and filtering", CORE + ": compare_files")], observe=["the returned list of differences"])

P("C14", "Components are instantiated as the comparison method prescribes",
  """For every free component of either expression the corner values follow the method: base uses the minimum for both corners, guess-worst
  minimum and maximum, exact-worst minimum and maximum, asymptotic and exact-asymptotic the maximum for both, taken from the declared range (names compare without underscores).
  When old and new declare different ranges a guessing method takes the smaller minimum and larger maximum while an exact method is an
  error; when only one side declares a range it is used; when neither does a guessing method uses 0 and 100 while an exact one is an error.""",
  ["inputs"], "all pairs of extrinsics, component ranges and comparison methods",
  "tests use a few ranges and mostly one method; the table has 5 methods x 5 range situations x both corners",
  [CORE], [("method table", CORE + ": CompareMethod::min, CompareMethod::max"), ("range selection", CORE + ": instance_component")],
  observe=["the scopes handed to the evaluation"])

P("C15", "The worst case is searched over every corner, up to 16 components",
  """When an expression pair has n free components, n at most 16, exactly the assignments that give each of the n components either its low or
  its high corner value are examined, all 2^n combinations of them, and each assignment binds every free component. With more than 16 free
  components the comparison is an error, before any combination is enumerated.""",
  ["inputs"], "all extrinsics, any number of components",
  "tests have at most a few components; off-by-one in the bit enumeration or limit shows only at particular counts",
  [CORE], [("enumeration", CORE + ": extend_scoped_components")], observe=["the produced scopes"])

P("C16", "The reported change is the worst over all examined assignments",
  """Both sides are evaluated under every examined assignment, and if both exist the reported change is a greatest one of these results: by kind of change first
  (unchanged before changed), then by percentage at a precision of a thousandth of a percent. For an added or a removed extrinsic the result
  for the first (lowest) assignment is reported. An error in any assignment makes the whole comparison of this extrinsic an error.""",
  ["inputs"], "all pairs of extrinsics and comparison parameters",
  "worst-case selection needs several components whose corners disagree in order; the tests sample very few",
  [CORE], [("selection", CORE + ": compare_extrinsics, TermChange::cmp")], observe=["the returned change"])

P("C17", "Results are sorted failures first, then by kind, then by percentage",
  """Sorting puts failed comparisons first, then unchanged, added, removed and changed extrinsics in this order, and within one kind ascending by
  percentage at a precision of a thousandth of a percent. Warnings sort like the changes they carry, the order is a total preorder (two failures
  are equal) and entries that compare equal keep their relative order.""",
  ["inputs"], "all lists of differences",
  "an inconsistent comparator only shows for particular triples of entries and sort algorithms; tests do not sort failures",
  [CORE], [("comparator", CORE + ": sort_changes, TermDiff::cmp, TermChange::cmp")], observe=["order of the reported rows"])

P("C18", "Filtering drops only what the threshold and change filter exclude",
  """Filtering keeps every failed comparison, and every other entry whose kind of change is among the selected kinds (all kinds when none are
  selected), except changed entries whose absolute percentage is strictly below the threshold and unchanged entries when the threshold is at least
  0.000001. It neither reorders, duplicates nor modifies entries.""",
  ["inputs"], "all lists of differences, thresholds and selections",
  "boundary behaviour (equal to the threshold, negative percentages, warnings) is not sampled",
  [CORE], [("filter", CORE + ": filter_changes, FilterParams::included")], observe=["the returned list"])

P("C19", "More than 1000 reads or writes is flagged as a warning",
  """A successfully compared extrinsic is reported as a warning exactly when the newest existing version of its weight has a factor larger than
  1000 on its storage reads or on its storage writes; exactly 1000 is not a warning. The warning carries the complete comparison result.""",
  ["inputs"], "all extrinsics",
  "the tests check one weight on either side; selection of the side and both operations need all combinations",
  [CORE], [("sanity check", CORE + ": sanity_check_term, compare_files")], observe=["the kind of the reported difference"])

P("C01", "A weight function's body is read as the formula it denotes",
  """Parentheses, casts and conversions leave a value unchanged, saturating_add and saturating_mul are the sum and the product of receiver and single
  argument, a name is a variable and an integer literal its value, in weights as well as in plain numbers. Every part of the body ends up in the
  formula; an expression of any other form, with an unknown method or function, or with a wrong number of arguments is an error and is never read as
  a different formula.""",
  ["inputs"], "all Rust expressions of any depth",
  "the grammar is recursive and has some twenty forms; tests parse a few dozen snippets and never the unsupported forms between supported ones",
  [PAL], [("translators", PAL + ": parse_expression, parse_scalar_expression, parse_method_call, parse_scalar_method_call")],
  observe=["the parsed formula or error"])

P("C02", "Storage accesses count the given number of reads and writes",
  """The number passed to reads or writes of the database weight, be it a literal or an arithmetic expression, is multiplied by the read or the write
  cost respectively. The accessor has to be the runtime's, the RocksDB or the ParityDB weight, called without arguments; anything else called reads or
  writes is an error, as is a missing or additional argument.""",
  ["inputs"], "all receivers and arguments of reads and writes",
  "swapping reads and writes or losing a factor shows only with particular arguments; tests use small literals",
  [PAL], [("storage access", PAL + ": parse_method_call, parse_scalar_method_call, validate_db_call")], observe=["the parsed formula or error"])

P("C03", "Every number counts in the dimension it was written for",
  """What is given to from_ref_time and as the first of the two parts counts as computation time only, what is given to from_proof_size and as the second part as
  proof size only, and Weight::zero is zero in both. A comparison of one dimension is not influenced by the other one, neither through the formula nor
  through the storage costs.""",
  ["inputs"], "all weight expressions",
  "tests use constants for which a swapped or duplicated dimension often goes unnoticed",
  [PAL, TERM, CORE], [("constructors", PAL + ": parse_call"), ("lifting", TERM + ": into_chromatic, splice_add"),
                      ("storage costs", "core/src/scope.rs")], observe=["the value of the formula in either dimension"])

P("C04", "A weight file yields all its weight functions or an error",
  """The extrinsics of a file are those of its first weight block that can be read completely: an implementation for WeightInfo, SubstrateWeight or the unit type
  with at least one function. Each function of the block, which has to return a Weight and consist of a single expression, gives exactly one extrinsic carrying its
  name, its formula and the file's pallet; a function that does not fit rules out the whole block. A file without such a block is an error, never an
  empty success.""",
  ["inputs"], "all Rust source files",
  "which block is taken and when a block is rejected depends on every item and function in the file; tests contain well-formed files",
  [PAL], [("file", PAL + ": parse_content"), ("block", PAL + ": handle_item"), ("function", PAL + ": handle_method")],
  observe=["the list of extrinsics or error"])

P("C05", "Component ranges are read from the documentation as written",
  """A documentation line of the form "The range of component `c` is `[min, max]`." gives component c, with underscores removed from its name and
  from the numbers, the inclusive range from min to max; all other attributes are ignored. A minimum above the maximum or a number that does not fit
  32 bits is an error, and a function without such a line has no ranges rather than empty ones.""",
  ["inputs"], "all attribute lists",
  "the interplay of text pattern, underscores, limits and repeated components has many corners; tests use a few canonical lines",
  [PAL], [("annotation reader", PAL + ": parse_component_attr, parse_component_attrs")], observe=["the ranges of an extrinsic or error"])

P("C06", "Storage and overhead constants are recognised and never confused",
  """A database file declares RocksDbWeight or ParityDbWeight of type RuntimeDbWeight with exactly the fields read and write; the costs are read from the field of the
  same name as sums and products of literals and constants. An overhead file declares BlockExecutionWeight or ExtrinsicBaseWeight of type Weight. The
  first such declaration in a parameter_types macro, at top level or inside the module constants, is used, and a file without one is an error.""",
  ["inputs"], "all Rust source files",
  "field order, names, types and nesting can be combined arbitrarily; tests parse the generated layout",
  ["core/src/parse/storage.rs", "core/src/parse/overhead.rs"],
  [("database files", "core/src/parse/storage.rs: parse_content, handle_item"), ("overhead files", "core/src/parse/overhead.rs: parse_content, handle_item")],
  observe=["the parsed costs or error"])

P("C07", "Strict reading stops at the first bad file, tolerant reading skips it",
  """Reading a list of files strictly returns the extrinsics of all of them in order or the error of the first file that cannot be read; reading it tolerantly
  leaves out exactly the files that cannot be read. A file's pallet name is its file name, or its path relative to the repository when it belongs to one.""",
  ["inputs"], "all lists of files, readable or not",
  "a dropped or duplicated file among many is not visible in tests that read one directory with only good or only bad files",
  [PAL, "core/src/parse/mod.rs"], [("lists", PAL + ": parse_files, try_parse_files and the repository variants"), ("names", "core/src/parse/mod.rs: PathStripping")],
  observe=["the extrinsics or error"])

P("C08", "No file content makes the parser crash",
  """Whatever bytes a weight file, database file or overhead file contains, reading it returns a result or an error; it never panics. Oversized numbers, unexpected literals,
  empty argument lists and malformed annotations are errors.""",
  ["inputs"], "all file contents (nesting deep enough to exhaust the stack excepted)",
  "a panic needs one specific unusual construct among all Rust programs",
  [PAL, "core/src/parse/mod.rs", "core/src/parse/storage.rs", "core/src/parse/overhead.rs"],
  [("entry points", "core/src/parse: parse_content, parse_file, parse_files and variants")], observe=["termination without panic"])

P("C21", "A path pattern cannot leave the repository",
  """A comparison of two revisions whose path pattern contains ".." is refused with an error before any command is run and any file is listed or read. So is one of which a part, between
  slashes or commas, starts with a dot and matches ".." when its wildcards are expanded, such as ".?".""",
  ["inputs"], "all patterns, revisions, repositories and options",
  "the tests contain no pattern with dots, and the refusal must precede every effect, not just produce an error in the end",
  [CORE], [("refusal", CORE + ": compare_commits")], observe=["commands run", "files listed or read"])

P("C22", "Each side is read from the working tree of its own revision",
  """The old weights are read after the old revision was checked out and before the new one is, and the new weights after the new revision was checked out, from a fresh
  listing of the files. If a checkout, a listing or a strict reading fails, the comparison fails with an error and nothing further is read or compared; nothing but the two
  revisions named by the caller is checked out.""",
  ["inputs", "histories"], "all revisions, file sets and every failing step",
  "the tests compare two fixed commits; a swapped or missing step shows only when files appear or vanish between the revisions or a command fails midway",
  [CORE], [("comparison of revisions", CORE + ": compare_commits"), ("checkout", CORE + ": git_checkout")], observe=["commands run and their order", "the compared sets"])

P("C23", "The network is used only when asked for",
  """A comparison of revisions contacts the remote exactly when pulling is switched on and offline mode is off; with either of them otherwise, no command that contacts a remote is run.""",
  ["inputs", "histories"], "all option combinations and failing commands",
  "the test sandbox does not observe whether a command contacted a remote",
  [CORE], [("policy", CORE + ": CompareParams::should_pull, compare_commits"), ("fetch", CORE + ": git_pull, git_checkout, git_reset")], observe=["commands run"])

P("C24", "Local work is only discarded when forced, and nothing else is modified",
  """A comparison discards local changes of the repository only when forced; a forced checkout takes the origin's state of the revision and falls back to the local one. A revision is never taken as a path to restore or as a local reference to overwrite. Apart from
  checking out, resetting and fetching inside the given repository, no program is run and no file is written, created or deleted.""",
  ["inputs", "histories"], "all options, revisions and failing commands",
  "tests run on clean repositories; losing work needs local changes and a specific combination of options",
  [CORE], [("checkout", CORE + ": git_checkout, git_reset")], observe=["commands run", "files opened for writing"])

P("C25", "A revision or pattern can never act as a command option",
  """A revision that starts with a dash is an error and reaches no command. No argument that derives from a caller can be taken as an option or as a second command by the programs that are run.""",
  ["inputs"], "all revision names and options",
  "tests use well-behaved revision names; an injected option needs a hostile one",
  [CORE], [("revision check", CORE + ": check_refname"), ("commands", CORE + ": git_checkout, git_pull, git_reset")], observe=["arguments of commands run"])

P("C26", "The compared files are exactly those matching the pattern",
  """The files read are those matching at least one of the comma-separated patterns inside the repository, whose own path is taken literally, without those named mod.rs, in sorted order and each of
  them once. A pattern that cannot be expanded is an error, and so is a selection of more files than the allowed maximum.""",
  ["inputs"], "all patterns, directory contents and limits",
  "overlapping patterns, unreadable entries and the exact limit are not sampled by the tests",
  [CORE], [("listing", CORE + ": list_files")], observe=["the list of files or error"])

P("C20", "The same inputs always give the same result",
  """Comparing, listing, displaying and reporting depend only on their inputs: two runs on the same files with the same options yield the same changes in the same order and the same error.
  The iteration order of hash tables, the time and chance never show in a result.""",
  ["inputs", "schedules"], "all inputs and all hash seeds",
  "the seed of a hash table differs between processes, so a test sees one order at a time and passes with luck",
  [CORE, TERM, "cli/src/main.rs"], [("hash tables", PAL + ": parse_component_attrs; " + CORE + ": extend_scoped_components, compare_files")], observe=["results, errors and output"])

WEB = "web/src/main.rs"
CLI = "cli/src/main.rs"
LIB = "core/src/lib.rs"
P("C30", "Content from requests, repositories and weight files is escaped in pages",
  """Every text that a page or an HTML answer of the web interface takes from a request, a repository, a file or an error message is escaped for the place it is inserted at:
  in element text for markup, in attribute values for the quotes around them, and never inside scripts, tag or attribute names. Untrusted text cannot add elements, attributes or scripts to a page.""",
  ["inputs"], "all request parameters, branch names, file contents and error messages",
  "an injection needs hostile content at the one place that is not escaped; the tests render no page",
  ["web/src/html.rs", WEB, "web/templates/compare.stpl", "web/templates/error.stpl", "web/templates/root.stpl", "web/templates/merge_requests.stpl", "web/templates/header.stpl"],
  [("templates", "web/templates"), ("links", "web/src/html.rs: code_link, html_color_percent, html_color_abs"), ("reflected answers", WEB + ": version")], observe=["HTML answers"])

P("C27", "One comparison at a time per repository, and no deadlock",
  """While the web service compares revisions in a repository, no other request compares in it or runs a command in it: every comparison holds the exclusive permit of its repository from before the first
  checkout until the last file is read, and every other command holds at least a shared one. Requests never wait for each other in a circle.""",
  ["schedules"], "all interleavings of requests",
  "two requests must overlap in a window of milliseconds to read files of the wrong revision or to deadlock; the tests serve no request",
  [WEB], [("permits", WEB + ": REPOS, do_compare_cached, branches"), ("cache lock", WEB + ": do_compare_cached")],
  [("registered repositories", "one lock per group of repositories", WEB + ": REPOS")], observe=["order of locks and commands"])

P("C28", "Only registered repositories are touched",
  """A request works only in the directory that was registered for exactly the repository name it gives; an unknown name is an error and runs nothing. The server starts only if at least one repository
  is given, all of them exist below the root directory with a known origin, and the directory of assets exists; it registers all of them.""",
  ["inputs"], "all requested names, options and directory contents",
  "tests serve no request; a request that escapes the registered directories needs a hostile name",
  [WEB], [("lookup", WEB + ": do_compare_cached, branches, compare"), ("registration", WEB + ": main")], observe=["directories of commands and comparisons", "start or refusal"])

P("C29", "A cached comparison answers only the very same request",
  """A result is reused only for a request with the same revisions, repository, pattern, filters and options, for ten minutes at most, and is marked as cached on the page; it is the result that was computed for that request.
  A failed comparison is never reused.""",
  ["inputs", "histories"], "all sequences of requests",
  "a wrong reuse needs two requests that differ in the one parameter that the key misses; the tests serve no request",
  [WEB], [("cache", WEB + ": do_compare_cached"), ("key equality", WEB + ": CompareArgs")], observe=["answers"])

P("C31", "Requests are answered with their own result or a visible error",
  """A comparison or branch request that fails at any step answers with status 500 and the error of that step; a successful one answers 200 with the result, repository and parameters of this very request.
  The version check passes exactly for the version of the running program, and branches are fetched exactly when asked for.""",
  ["inputs"], "all requests and every failing step",
  "automatic deployments and users rely on the status; the tests serve no request",
  [WEB, "web/src/html.rs"], [("answers", WEB + ": compare, branches, version, root, compare_mrs"), ("statuses", "web/src/html.rs: http_200, http_500")], observe=["status and body"])

P("C32", "The web service compares what the request asks for",
  """The revisions and the pattern of a request are decoded, freed of surrounding spaces and compared old against new with the requested unit, method, error handling and pulling (on by default); local changes are discarded and the network may be used.
  The result is filtered by exactly the requested threshold, pallet and extrinsic, sorted, and at most 6000 files are read per side.""",
  ["inputs"], "all request parameters",
  "tests serve no request; a swapped or dropped parameter shows only for specific values",
  [WEB], [("comparison of a request", WEB + ": compare, do_compare_cached")], observe=["parameters of the comparison", "the compared result"])

P("C33", "A name of an option value has one meaning everywhere",
  """Every comparison method, unit, kind of change and output format can be named by its documented name, and that name means the same value on the command line, in a query parameter, when parsed and in every listing of the choices.
A name outside these tables is rejected with an error instead of being read as some other value; the former name "weight" of the time unit keeps working.""",
  ["inputs"], "all names",
  "the tests use one or two names; two listings that are zipped by position drift apart silently",
  [LIB, CLI], [("option values", LIB + ": CompareMethod, Dimension, RelativeChange; " + CLI + ": OutputFormat")], observe=["accepted names", "listed names"])

P("C34", "The command line compares and prints what its arguments ask for",
  """Comparing files reads exactly the given old and new files (tolerantly when errors are to be ignored), comparing commits uses the given repository, revisions and pattern without a limit on files, both with the given parameters and filter.
Exactly the filtered differences are printed, in reverse sorting order, and when none are left this is said unless verbose logging is on; a command whose reading or comparison fails, or whose output format is not supported, ends with an error and prints no result.""",
  ["inputs"], "all command lines and outcomes of reading and comparing",
  "the tests run the program on two fixed comparisons",
  [CLI], [("commands", CLI + ": main, print_changes")], observe=["exit status", "printed rows"])

P("C35", "Every comparison is printed as one complete row",
  """In every supported format each comparison has exactly one row with as many cells as the header has columns: file (without the prefix to strip, and quoted in CSV when it contains a separator), name, old and new value in the chosen unit, change, and on request both formulas and the variables; a failed comparison shows as an error instead of being left out.
The percentage has a sign and two decimals; increases and additions are red, decreases and removals green, and nothing is coloured when colours are off.""",
  ["inputs"], "all results, formats and output options",
  "the tests look for one file name in the output; a cell or separator that is wrong only with certain options or kinds of change goes unnoticed",
  [CLI], [("output", CLI + ": print_changes_csv, print_changes_human, color_percent")], observe=["rows", "cells", "colours"])

P("C36", "The service exposes its endpoints, encrypted when a certificate is given",
  """The start page, comparison, merge request, branch and version endpoints are served, and as files only the assets directory. With a certificate the configured endpoint is only bound encrypted, using the given key and certificate;
  without one it is bound plainly.""",
  ["inputs"], "all server options",
  "tests start no server; serving plainly despite a certificate is not visible from the answers",
  [WEB], [("server start", WEB + ": main")], observe=["bound endpoints", "served routes"])

P("C37", "Values are shown in the largest fitting unit",
  """A time is shown in s, ms, us, ns or ps, a proof size in GiB, MiB, KiB or B and a plain number with T, G, M, K or nothing: always the largest unit that is not larger than the value, divided by exactly that unit and with two decimals.""",
  ["inputs"], "all values of 128 bits",
  "the tests format a handful of values and none next to every boundary of every unit",
  [LIB], [("formatting", LIB + ": Dimension::fmt_value, fmt_scalar")], observe=["displayed values"])

P("C38", "The comparison page shows the comparison and the request it answers",
  """The page has one row per compared component, with its file, name, old and new value, relative and absolute change, both equations with a link to the code at the respective revision, and used variables; missing sides show as "-",
  increases are marked red and decreases green, and numeric columns sort by the shown quantity with removals lowest and additions highest; the table first shows all rows by falling relative change. Errors and warnings are counted and listed instead of dropped,
  and the form repeats the parameters of the request.""",
  ["inputs"], "all comparisons and requests",
  "the tests render no comparison; a swapped column, sign or revision shows only for specific changes",
  ["web/templates/compare.stpl", "web/src/html.rs"], [("page", "web/templates/compare.stpl"), ("cells", "web/src/html.rs: html_color_percent, html_color_abs, order_percent, order_abs, code_link")], observe=["the page"])

P("C39", "Comparing, reporting and answering requests never crashes",
  """Whatever the repository contains and whatever is asked for, a comparison, its filtering and sorting, the output of the command line tool and the answer of each page of the web server are produced or end in a reported error; none of them panics, overflows a checked operation or indexes out of bounds.
  This excludes an invalid regular expression given on the command line and exhausted memory or stack.""",
  ["inputs", "histories"], "all repositories, requests and command lines, up to the contract of git's output format",
  "the tests drive a few well-formed comparisons; the crashes need missing sides, unusual names, boundary values or failing git commands",
  [LIB, "web/src/main.rs", "cli/src/main.rs"], [("comparison", LIB + ": compare_commits to sort_changes"), ("answers", "web/src/main.rs: handlers"), ("pages", "web/templates"), ("output", "cli/src/main.rs: main")], observe=["process exit", "HTTP response"])


P("C40", "The revisions on offer are the branches and tags of the remote",
  """The list of revisions of a repository is built from the branches and tags its remote has: each is offered exactly once per line of the listing, under the name it has there without its namespace and with the start of the hash it points to.
  Names containing an opening brace or a caret are left out, and with them the additional entries of annotated tags. What the remote has is fetched first exactly when the request asks for it.""",
  ["inputs"], "all names of branches and tags git permits",
  "no test covers the listing; only names that contain the text of a namespace or other special text tell the ways to cut them out apart",
  ["web/src/main.rs"], [("listing", "web/src/main.rs: branches")], observe=["the answer of /branches"])

P("C41", "The pages ask for what the service understands",
  """Every comparison a page starts names the repository as it is registered, both revisions in their order and every mandatory parameter, uses only parameters and fixed values the service accepts, and puts each name into the address so that none of its characters changes the request.
  Every control of the comparison page changes the parameter it shows and no other, and the pages offer exactly the registered names.
  The front page offers every revision the service lists, under the name it is listed with, and what is started from a row of a list concerns that row.""",
  ["inputs"], "all repository names and revisions, all selections on the pages",
  "no test covers the pages or their scripts; only unusual names (a plus, a hash, an ampersand, capitals) and rarely used controls show a wrong request",
  ["web/static/root.js", "web/static/merge_requests.js", "web/static/table.js", "web/templates/root.stpl"], [("requests", "web/static/*.js")], observe=["the requests sent by the pages"])

P("C42", "A repository belongs to the organisation its origin names",
  """The organisation of a repository is the path segment that follows the host in the address of its origin, which has to be an https address at github.com; it is asked of the repository itself.
  An origin that cannot be read, or is anywhere else, is an error and never a guess.""",
  ["inputs"], "all addresses of origins, all failures to read them",
  "the tests try four addresses; look-alike hosts, users and ports in the address, further segments or a failing command decide differently",
  ["web/src/git.rs"], [("origin", "web/src/git.rs: get_origin_org")], observe=["the organisation, or the error, for an origin"])

P("C48", "Every loop and every recursion works towards its end",
  """Reading weight files, comparing, printing, answering a request and starting up come to an end by themselves: every loop takes, in every iteration, an element of a finite collection or moves a
  counter towards the bound it is tested against, and leaves when there is nothing left; every function that calls itself, directly or through others, does so on a part of what it was given (evaluation
  follows a variable only to a number). No content of a weight file, no request and no answer of git makes the tool or the service repeat a step without getting anywhere, wait in a loop or retry without
  a limit.""",
  ["inputs", "histories"], "all weight files, expressions, requests and answers of git",
  "a test that hangs is never written; which inputs make an iteration change nothing depends on values no test picks",
  [CORE, TERM, PAL, "core/src/parse/storage.rs", "core/src/parse/overhead.rs", "core/src/scope.rs", "cli/src/main.rs", "web/src/main.rs", "web/src/git.rs", "web/templates/compare.stpl"],
  [("corners", CORE + ": extend_scoped_components"), ("evaluation", TERM + ": Term::eval, Scope::with_var"), ("expressions", PAL + ": parse_expression, parse_scalar_expression"),
   ("nested modules", "core/src/parse/storage.rs: handle_item")], observe=["whether reading, comparing, printing and answering return"])

P("C43", "Reported percentages are as accurate as the output shows them",
  """The relative change that is printed or shown with two decimals is the exact quotient of the two weights rounded to two decimals, for all weights a runtime can have.""",
  ["inputs"], "all pairs of weights below 2^127",
  "the tests compare a handful of percentages; the conversion to floating point loses digits only for large weights",
  [CORE], [("percentage", CORE + ": percent")], observe=["the percentage of a change"])
na("C43", """The formula itself (difference over old value, zero for equal values) is decided by C12. How far the result of two integer-to-float conversions, a division and a product is from the exact
   quotient is a statement about rounding errors of runtime quantities; the analysis keeps floating point operations uninterpreted, and a sound error bound needs an interval or error-bound domain over
   128-bit inputs that ends at a bound that does not prove the claim at every rounding boundary.""")

P("C44", "A cached comparison is never older than ten minutes",
  """At whatever times requests arrive and however long a comparison takes, no answer of the web service shows the content of the repositories as it was more than ten minutes earlier.""",
  ["schedules", "histories"], "all arrival times and durations",
  "no test waits; staleness depends on elapsed wall clock time",
  ["web/src/main.rs"], [("cache", "web/src/main.rs: do_compare_cached")], observe=["the age of an answer"])
na("C44", """The static part (the expiry constant handed to the cache, what is stored under which key, that failures are not stored) is decided by C29. The rest is about elapsed time: when the cache library takes its
   timestamps, how long a comparison runs before its result is stored, and clock behaviour. No static argument over the source bounds these.""")

P("C45", "Every weight file of a released runtime can be read",
  """Every weight file that the benchmarking templates of the supported versions of Substrate, Cumulus and Polkadot generate is read completely and without an error.""",
  ["inputs"], "all files the benchmark templates generate",
  "the tests read the files of the submodules present at the pinned commit",
  ["core/src/parse/pallet.rs"], [("reader", "core/src/parse/pallet.rs: parse_content")], observe=["the result of reading a file"])
na("C45", """What the readers accept is decided exactly (C01 to C06, C08). Whether the templates of other projects, which are not part of this repository, only produce such files is a statement about those templates and
   the versions of them in use; there is no source here to analyse.""")

P("C46", "Reading and comparing need bounded time and memory",
  """For every weight file up to a given size, reading, comparing and showing it ends within a time and amount of memory (stack included) that is a fixed multiple of its size.""",
  ["inputs"], "all files, including deeply nested expressions and extrinsics with many components",
  "the tests use small files; deep nesting and many components need specially made ones",
  [CORE, TERM, PAL], [("recursion", PAL + ": parse_expression"), ("corners", CORE + ": extend_scoped_components")], observe=["time and memory of a run"])
na("C46", """It does not hold by design and cannot be bounded statically: expressions are parsed, evaluated and printed by recursion over their nesting depth (in this repository and in the Rust parser it uses), and the exact
   worst case compares all 2^n corners of n components. Both depend on a runtime quantity for which the code has no limit; that all loops are over finite collections is visible in the tables of the other checks.""")

P("C47", "Git and the file system do what they are asked to do",
  """A checkout of a revision leaves exactly the content of that revision in the working directory while it is being read, whatever other programs do with the repository at the same time.""",
  ["schedules", "crash_points"], "all activities of other processes and all failures within git",
  "the tests use one local repository and no concurrent process",
  [CORE], [("checkout", CORE + ": reset, checkout"), ("reading", CORE + ": compare_commits")], observe=["the content that is compared"])
na("C47", """The order, arguments and error handling of the git commands and that this program's own requests exclude each other are decided by C21 to C27. What git does with its arguments and what unrelated processes change
   in the meantime is outside the source; no lock on the repository is shared with them.""")
