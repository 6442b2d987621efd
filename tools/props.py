PROPS = []
NA = []

def P(id, title, statement, over, quant, why, files, mech, bounds, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, bounds=bounds, **kw))

RT = "runtime/internal/trap/"

P("C01", "A call runs the latest active mock that applies to it, or the original",
  "In one goroutine, after any history of mocking and cancelling functions and methods (by value, by name, as replacer or interceptor), a call runs the most recently set up and not yet cancelled mock that applies to the function and receiver, exactly once and instead of the original, and otherwise runs the original. "
  "A mock set up on a bound method applies only to calls on an equal receiver, one on a method expression or by function name to every receiver; mocks of other functions or receivers have no influence. "
  "Arguments (including variadic ones and the context), results and returned errors pass between caller and mock unchanged; an error of an interceptor becomes the function's error result, or a panic if it has none.",
  ["histories", "inputs"], "all sequences of mock/cancel/call operations over the ways of mocking, all argument and result values",
  "The tests of this module sample a few fixed mock/cancel sequences and need an instrumented toolchain; the order of mocks, the place of the cancelled one and the receiver make an unbounded space of histories.",
  ["runtime/mock/mock.go", "runtime/mock/patch.go", RT + "mock.go", RT + "trap.go", RT + "build.go", RT + "inspect.go", RT + "stack_data.go"],
  [("per-goroutine stacks of mocks keyed by function", RT + "mock.go"), ("selection of the mock of a call", RT + "stack_data.go"), ("argument and result passing", RT + "build.go"), ("resolution of the mocked function and receiver", RT + "inspect.go")],
  "histories of 5 (thorough 6) steps for functions, 4 (5) for methods")

P("C02", "Variable mocks give the latest active value and leave the variable untouched",
  "After any history of mocking and cancelling variables, reading a variable gives the value of its most recently set up and not yet cancelled value mock, or else its real value; taking its address gives the result of its latest active pointer mock, or else its real address. "
  "Value and pointer mocks of a variable, and mocks of different variables, do not influence each other, and the stored variable is never changed by mocking. "
  "Recorders of a variable run in order around each read until cancelled; an error of a variable interceptor other than ErrMocked panics.",
  ["histories", "inputs"], "all sequences of mock/cancel/read/write operations on variables and all values",
  "Existing tests need an instrumented toolchain and check single mock/cancel pairs with constant values.",
  ["runtime/mock/patch.go", RT + "mock.go", RT + "var.go", RT + "record.go", RT + "stack_data.go"],
  [("stacks of value and of pointer mocks keyed by address", RT + "mock.go"), ("what a variable access does", RT + "var.go")],
  "histories of 4 (thorough 5) steps over two variables")

P("C03", "Interceptors and recorders: order, pairing, stopping and cancelling",
  "For each call, the active recorders of the called function and then the general interceptors run in the order they were set up before the function, and those among them having a post handler run in reverse order after it, each post handler getting the data its own pre handler returned. "
  "When a pre handler returns ErrMocked, no later handler and not the function runs, and the caller gets the results that were set; a cancelled handler is not called by later calls, all others still are, even if it was cancelled from inside a handler. "
  "Calls made from inside a general interceptor are not intercepted again, while mocks still apply to them, also after a handler panicked.",
  ["histories", "inputs"], "all sets of handlers of all kinds and shapes, all stopping patterns, cancellation orders, argument values",
  "Tests cover one or two handlers in a fixed arrangement; the protocol is a statement over every arrangement and cancellation order.",
  ["runtime/trap/interceptor.go", "runtime/trace/record.go", RT + "trap.go", RT + "interceptor.go", RT + "record.go", RT + "build.go"],
  [("pre and post handler sequencing", RT + "trap.go"), ("interceptor adaptation", RT + "build.go"), ("trapping depth", "runtime/internal/runtime/g.go")],
  "3 (thorough 4) handlers of any kind, 4 handlers cancelled in any order")

P("C04", "Goroutines inherit a snapshot of mocks, handlers and inheritable locals",
  "A goroutine starts with exactly the mocks, recorders and interceptors (bound to the same receivers) that were active in the goroutine starting it at that moment, and with the values of inheritable goroutine-local keys; afterwards neither goroutine's setting up, cancelling or storing changes what the other one sees. "
  "Handlers set up during package initialisation apply in every goroutine in addition to, and mocks as a fallback for, its own ones. "
  "Goroutine-local keys that are not inheritable are visible only where they were set.",
  ["histories", "schedules"], "all sequences of mock/cancel/set/start-goroutine/switch steps at the granularity of API calls",
  "Tests start single goroutines with single mocks; isolation is a statement over all interleavings of set-up, cancelling and goroutine starts.",
  [RT + "init.go", RT + "stack_data.go", "runtime/internal/stack/stack.go", "runtime/internal/stack/g.go", "runtime/tls/tls.go", "runtime/tls/hook.go"],
  [("copying of handlers when a goroutine is created", RT + "init.go"), ("global fallback", RT + "stack_data.go"), ("inheritance of locals", "runtime/tls/hook.go")],
  "histories of 5 (thorough 6-7) steps, up to 3 goroutines",
  trust="; goroutine switches are taken at API-call boundaries through a stand-in for the patched Go runtime")

P("C05", "A trace is the tree of the calls made, with their outcomes and times",
  "The trace given to OnFinish contains, below its root, every call of an instrumented function and every read of an instrumented variable made in it, exactly once, below the call that made it and in the order they were made; calls that ended by returning, by returning an error and by panicking carry their arguments, results, error or panic; the time span of an entry lies within that of its caller and after that of its predecessor. "
  "Each entry names its function with the file and line of it, or of the read of the variable; what it shows of values is JSON whatever they are, a placeholder if they are too long or have none. With --strace, each test the test runner calls leaves its trace in a file named after it, and nothing else does. "
  "Goroutines started within the trace appear at the place of their start with their own calls below them, those still running marked as such, and a trace is finished exactly once.",
  ["histories", "schedules"], "all call programs (calls, errors, panics recovered anywhere, mocks that return or panic, variable reads) and schedules of goroutines, all clock advances",
  "Tests of traces compare a few fixed programs, need an instrumented toolchain and ignore times.",
  [RT + "trap.go", RT + "var.go", RT + "init.go", "runtime/internal/stack/stack.go", "runtime/internal/stack/export.go"],
  [("pushing and finishing entries", RT + "trap.go"), ("the call tree", "runtime/internal/stack/stack.go"), ("export", "runtime/internal/stack/export.go")],
  "programs of 5 (thorough 7) steps; schedules of 6 (8) steps over 3 goroutines; 9 signatures; values of a few symbolic bytes around a size limit lowered to 40",
  trust="; goroutine switches are taken at API-call boundaries through a stand-in for the patched Go runtime")

P("C06", "Tracing does not change the program, and its options do what they say",
  "A traced function returns the results, error or panic it would have without tracing, even if an error it returns cannot be printed, and mocks set up before, during or after a trace stay in effect. "
  "FilterTrace decides for each call alone whether it is in the trace, in all goroutines of the trace; calls left out are replaced by the calls made in them. OnFinish is called once, at the end of the outermost trace, whether it returns or panics, and OutputFile then contains the JSON of that same trace; without both nothing is kept.",
  ["histories", "inputs"], "all combinations of options, outcomes, filters, nested traces and call programs",
  "Tests use one option at a time on successful calls, and need an instrumented toolchain.",
  [RT + "trap.go", RT + "init.go", "runtime/internal/stack/stack.go", "runtime/trace/trace.go", "runtime/internal/runtime/marshal.go"],
  [("starting and finishing a trace", RT + "trap.go"), ("filtering", RT + "trap.go")],
  "call programs of 5 (thorough 7) steps, 2 consecutive or 3 nested traces",
  trust="; encoding/json is replaced by a model validated natively on sampled paths")

IN = "instrument/"

P("C07", "Instrumenting functions in place keeps them, and traps every call",
  "In the source given to the compiler, each instrumented function or method keeps its name, type, named parameters and results, original body and the line of every statement; parameters and results without a usable name get fresh, distinct ones. "
  "Before the original body, and only there, it passes its own registration entry and the addresses of its receiver, parameters and results, in order, to the trap, defers the post handler if there is one, and returns the results set when told to stop. "
  "Functions without body, init, blank ones and those marked nosplit are left alone, and nothing else in the file changes. What is reported to be instrumented describes exactly those functions.",
  ["inputs"], "all signatures, receivers and names and all files made of such functions",
  "The few golden files do not cover combinations of blank, unnamed, grouped, variadic and generic names, whose clashes give code that fails to compile or traps the wrong values.",
  [IN + "instrument_func/trap.go", IN + "edit/edit.go", IN + "compiler_extra/decl.go"],
  [("inserting the trap", IN + "instrument_func/trap.go"), ("edits by position", "support/edit/goedit/goedit.go")],
  "parameter shapes 8 x results 9 x bodies 4, 12 receivers, names of one letter or blank; files of 3 (thorough 4) functions")

P("C08", "What is instrumented is registered as what it is, and only what should be is instrumented",
  "Every instrumented function, method and interface is registered exactly once, by type-correct code that keeps the lines of the file, with its own name, receiver, parameter and result names, kind, package, file and line, and with its own function value where it has one. "
  "A function of the main module is always selected; one of other modules only if it is exported and exporting is on, recorded as mocked, or on the list of functions allowed for the package, never more than the quota, the first ones first. "
  "The runtime of xgo itself is not instrumented.",
  ["inputs"], "all declarations, names, file and package paths, package names and settings",
  "Registration code is produced from names and paths that tests fix to a few harmless values; selection depends on the product of many settings.",
  [IN + "instrument_reg/instrument_reg.go", IN + "instrument_func/trap.go", IN + "config/config.go", IN + "compiler_extra/register.go"],
  [("registration code", IN + "instrument_reg/instrument_reg.go"), ("selection of functions", IN + "instrument_func/trap.go"), ("selection of packages", IN + "config/config.go")],
  "2 (thorough 3) declarations of 11 kinds; paths of 2 bytes with special characters; 18 functions with any quota; package paths with 2 (4) arbitrary bytes")

P("C09", "Replacing reads of package variables keeps the meaning of the program",
  "When variables are instrumented, every plain read of a package variable of the main module, and of one of other packages that something mocks, becomes a call of its getter, and nothing else does: local names that hide a package variable, assignments, fields and keys stay as they are. "
  "The result compiles, every other name means what it meant before, no statement moves to another line, the getter has exactly the type of the variable, is registered under its name, and traps its own value or address; where the address of a variable is needed the getter of the address is used. External test packages (package p_test) are packages of their own: what they declare is not mixed up with what p declares.",
  ["inputs"], "all programs made of the statements, declarations, initialisers and uses in the bounds, with all ways of shadowing",
  "Tests check a handful of sources; scoping, addressability and the typing of initialisers are statements over all programs, and a wrong one breaks the user's build.",
  [IN + "instrument_var/trap_var.go", IN + "resolve/stmt.go", IN + "resolve/expr.go", IN + "resolve/scope.go", IN + "resolve/resolve.go", IN + "resolve/addressable.go", IN + "load/load.go"],
  [("scopes", IN + "resolve/scope.go"), ("types of variables", IN + "resolve/resolve.go"), ("getters and replacing", IN + "instrument_var/trap_var.go")],
  "1 (thorough 2) statements of 41 kinds with all name assignments; 150 uses of 42 declarations; 240 initialisers; 95 uses of imported packages; 2 files; a package with internal and external tests loaded from what go list says of it")

P("C10", "Patching toolchain files by anchors is exact, repeatable and reversible",
  "Putting a text before, after or in place of an anchor of a file changes nothing but the marked block at that place; an anchor that is missing or not unique is an error and leaves the file alone. "
  "Putting it again changes nothing, putting another text under the same marker replaces the first, and cleaning gives back the original file byte for byte, whatever other patches are next to or inside it and whatever their labels.",
  ["inputs", "histories"], "all file contents, anchors, labels, texts and sequences of patches",
  "xgo patches a copy of the Go toolchain again and again over its life; tests run one patch on one small text.",
  [IN + "patch/patch.go", IN + "patch/clean_patch.go", IN + "patch/import.go", IN + "patch/remove_marker.go", "support/strutil/strutil.go"],
  [("putting and replacing", IN + "patch/patch.go"), ("cleaning", IN + "patch/clean_patch.go"), ("anchors", "support/strutil/strutil.go")],
  "files of 1+1+1 (thorough 2+1+1) arbitrary bytes of an alphabet with newlines and comment characters around two anchors; labels of 1-2 bytes; texts of up to 2 bytes; two patches, also nested",
  trust="replaced code containing a comment is outside (it cannot be kept in a comment)")

P("C11", "A patch file puts its edits where it says, or reports why not",
  "Applying a patch file puts each text exactly where its commands say (before, after, on the line after, or in place of the declaration, brace, field or text named, in the function named), wrapped in the markers of its block, as if all edits of a block were made at once, and changes nothing else; copies of functions and replaced directives likewise. "
  "What cannot be placed is an error. Applying again changes nothing, a changed block replaces what it put before, and clearing all blocks, in any order, gives back the original file.",
  ["inputs", "histories"], "all sources, blocks, commands, orders of commands and of blocks",
  "Patches for each Go version are written against files xgo does not control and applied over earlier ones; tests look for substrings in a few results.",
  [IN + "patch/apply.go", IN + "patch/apply_engine.go", IN + "patch/apply_parse.go"],
  [("parsing", IN + "patch/apply_parse.go"), ("placing edits", IN + "patch/apply_engine.go"), ("clearing", IN + "patch/apply.go")],
  "a file of 29 tokens in two variants with arbitrary white space and decoys; 15 places, up to 11 forms of commands, two places per block or two blocks; go/parser is executed symbolically on it",
  trust="texts that contain the anchors of other commands are outside; insert_after_line next to text put by another block is outside")


P("C12", "The overlay given to the compiler shows the instrumented sources, and the caller's",
  "For every file, under any path that reaches it, the compiler reads the instrumented text if xgo instrumented the file, or else the file the caller's -overlay names for it (nothing, if it deletes it), or else the file itself; instrumentation is based on that same text. "
  "The result does not depend on the order of map iteration; a chain of the caller's mapping and xgo's is one mapping, a cycle is an error. Different files never share the place their instrumented text is written to, and each is written below the name of the root that contains it.",
  ["inputs", "histories"], "all overlays over the files in the bounds, all spellings of paths, deleted files, symlinks, contents, and all map iteration orders",
  "Tests compose one or two mappings; aliases, deletions and map order make combinations that are compiled silently from the wrong source.",
  [IN + "overlay/overlay.go", IN + "overlay/io.go", "support/fileutil/fileutil.go"],
  [("composition", IN + "overlay/io.go"), ("identity and contents of files", IN + "overlay/overlay.go")],
  "3 (thorough 4) files, caller overlay of 0-1 (2) entries in 6 spellings, 0-2 (3) instrumented")

CX = "cmd/xgo/"

P("C13", "The command line means to go what it would mean without xgo",
  "Arguments that are not options of xgo reach the go command, the test binary or the program unchanged and in order, whatever their values; options of xgo have the value given last, in any of their spellings, and a missing or unknown value is reported, never a panic. "
  "The packages xgo prepares are exactly those the go command takes from the same arguments. XGO_FLAGS is split at white space; rules load the packages they include, and a package belongs to a module only if it is the module or below it.",
  ["inputs"], "all command lines of the given length of options, go flags, packages, tails and arbitrary values",
  "Tests parse about a dozen command lines; xgo promises to be a drop-in for the go command for every one.",
  [CX + "option.go", CX + "instrument.go", CX + "rule.go", "support/flag/flag.go", "support/goinfo/pkg.go"],
  [("options", CX + "option.go"), ("packages of the go command", CX + "option.go"), ("rules", CX + "instrument.go")],
  "3 arguments for packages, 2 (thorough 3) with values for options, values of 1-3 bytes",
  trust="; the generated collation tables missing from the repository are replaced by a stub")

P("C14", "Preparing a project leaves it as it is and imports what xgo needs",
  "Wherever in a module xgo is started, it builds with the module's own go.mod (or the -modfile) and checksums, with the runtime of xgo added; the language version stays, except below 1.18. With a vendor directory each vendored module comes from there with its own path, version and language version. "
  "A package to build that does not import the trace package gets the import in one of its files (its tests if there is nothing else), as the compiler reads it, in a place where it compiles, and with all other declarations, comments and their lines kept. "
  "No file of the project is changed but .gitignore, which gets one line, once, if no line ignores the generated directory.",
  ["inputs"], "all start directories, module files, vendor directories and Go files within the bounds, with symbolic text",
  "Tests add the import to a few well-formed files and never run the preparation; a file, go.mod or modules.txt laid out in another way breaks builds of users silently.",
  [CX + "trace.go", "support/goinfo/mod.go", "support/goinfo/vendor_parse.go", "instrument/overlay/overlay.go"],
  [("module and vendored modules", CX + "trace.go"), ("blank import", CX + "trace.go"), ("main module", "support/goinfo/mod.go")],
  "Go files with 2-4 symbolic bytes around the package clause and imports, go.mod and modules.txt with symbolic versions, .gitignore with 4 (6) symbolic bytes",
  trust="; the go and git commands are stand-ins that record their arguments")

P("C15", "Modules and versions are understood as the go command does",
  "The module of a directory is that of the nearest go.mod above, with the path from there in order; its module and go directives are read whatever white space, quotes or comments are around. Versions of Go and of modules are ordered as the go command orders them; the output of go version gives the release whatever notes or suffixes it has, and an error if it is malformed. "
  "vendor/modules.txt gives each vendored module with its version, replacement and language version, and each package its module. A package is within a module if its path is the module's or below it.",
  ["inputs"], "all versions, go.mod lines, modules.txt files and directory trees within the bounds, with symbolic bytes",
  "Tests try a dozen strings; these functions decide which toolchain edits apply and where packages belong, for any input.",
  ["support/goinfo/goinfo.go", "support/goinfo/mod.go", "support/goinfo/find.go", "support/goinfo/pkg.go", "support/goinfo/semver.go", "support/goinfo/version.go", "support/goinfo/vendor_parse.go"],
  [("versions", "support/goinfo/version.go"), ("module versions", "support/goinfo/semver.go"), ("module of a directory", "support/goinfo/mod.go"), ("vendored modules", "support/goinfo/vendor_parse.go")],
  "versions of up to 8 bytes, directives with 5 (8) symbolic bytes around, 4 levels of directories, 2 vendored modules")

P("C16", "What is trapped in dependencies reaches the compiler, and its change is noticed",
  "The files xgo writes for the patched toolchain say for each dependency exactly which functions and interfaces of which file are to be trapped and whether it has trapped variables. "
  "The sum that makes the go command compile a package again differs whenever any of this differs, and is the same if nothing does.",
  ["inputs"], "all pairs of sets of files, functions and interfaces with symbolic names",
  "No test covers it; two sets with the same sum give a stale object from the build cache, silently.",
  [CX + "instrument.go", IN + "compiler_extra/compiler_extra.go"],
  [("sum of a package", CX + "instrument.go"), ("mapping for the compiler", IN + "compiler_extra/compiler_extra.go")],
  "1-2 (thorough 3) files, up to 2 functions and 1 interface each, names of 1-2 bytes; the hash is taken as free of collisions")

P("C17", "What an interrupted or failing xgo leaves is not taken for complete",
  "Whenever xgo is killed while it prepares, upgrades, resets or deletes the patched GOROOT, or extracts its runtime module, the next run finds that out and ends with the same files as if nothing had happened; nor does the version of xgo before take a half upgraded GOROOT for its own. "
  "If creating, writing or removing a file fails, xgo reports it, or what it made is complete. A directory is copied with all that it holds, whatever links lead to it and by however many workers.",
  ["crash points", "faults", "schedules", "inputs"], "a crash before, or a failure of, any step that changes files; all states before and options within the bounds; schedules of the workers",
  "Tests never interrupt xgo; Ctrl-C in the setup, which takes a minute, or a full disk is ordinary, and a broken GOROOT taken for complete breaks all builds after.",
  [CX + "main.go", CX + "patch.go", CX + "trace.go", "support/filecopy/copy.go", IN + "embed/embed.go"],
  [("the order of setup", CX + "main.go"), ("synchronising GOROOT", CX + "patch.go"), ("extraction of the runtime", CX + "trace.go"), ("copying", "support/filecopy/copy.go")],
  "a GOROOT of 9 files, a module of 6, with symbolic bytes; one crash or failure at a symbolic step of the run, then one run",
  trust="; the patches and the build of the go command and compiler are stand-ins that change and make one file each; a write is done or not as a whole; two xgo at the same time are outside")

P("C18", "Merged coverage profiles have each block once with the sum of its counts",
  "xgo tool coverage merge and compact give a profile which has each block of any of the files exactly once, with the sum of its counts in all of them, in the order of first appearance, and nothing else; blocks of excluded packages are left out and no others. "
  "It holds for profiles appended to one another, with blank lines, without a last newline or with \\r\\n, and if the result is written over one of the files. What is written reads as the same again. serve and load tell when an option lacks its argument, is unknown, or there is no profile.",
  ["inputs"], "all sequences of profiles within the bounds, with symbolic counts",
  "Tests merge two profiles where the second has no new block; counts silently lost or doubled are only seen for particular overlaps.",
  ["support/coverage/merge.go", "support/coverage/parse.go", "support/coverage/format.go", CX + "coverage/main.go"],
  [("merging", "support/coverage/merge.go"), ("reading", "support/coverage/parse.go"), ("the command", CX + "coverage/main.go")],
  "1-3 profiles of together up to 3 (thorough 4) lines of 3 blocks, counts of 1 digit, with a mode line, blank lines and \\r\\n at symbolic places",
  trust="; --exclude-prefix names whole packages (as a raw prefix it also takes packages whose path continues the name)")

P("C19", "Misuse is refused and changes nothing",
  "Mocking, recording or intercepting what is not instrumented, is not a function or variable, or does not exist, with nothing, or with a replacer or recorder whose type does not fit, panics when it is set up; all mocks set up before stay as they are, nothing else is mocked, and what was refused is never called. "
  "What fits is accepted: a replacer of the type of the function (without the receiver for a method of an instance), of the value or of the address of a variable; a recorder of the parameters and results or pointers to them. Cancelling a mock twice is refused and cancels no other.",
  ["inputs", "histories"], "all combinations of a thing, a way to name it and a replacer or recorder within the bounds; all values",
  "Tests cover a few of the combinations; a misfit accepted becomes a panic (or a wrong value) far away in the code that calls the function.",
  [RT + "mock.go", RT + "record.go", RT + "build.go", RT + "object.go", RT + "inspect.go", RT + "interceptor.go"],
  [("mocks", RT + "mock.go"), ("recorders", RT + "record.go"), ("types", RT + "object.go")],
  "13 ways to name something, 26 replacers, 25 recorders, 30 other misuses; symbolic arguments",
  trust="; recorders that are nil pointers of a function type are outside")

P("C20", "Goroutines may use xgo at the same time",
  "Goroutines that call trapped functions, read trapped variables, mock, record, intercept, declare and use goroutine-local keys, and start further goroutines, while a trace of them is running, exported or turned into JSON, do so without a data race, deadlock or panic in the library: no two unsynchronised accesses to the same memory of which one writes. "
  "Each sees its own mocks and values whatever the others do.",
  ["schedules", "histories", "inputs"], "all schedules with the preemptions within the bounds, all steps, all values; a happens-before race detector over every access",
  "Tests with -race see the races of the schedules that happen to run; a dropped or misplaced lock shows once in thousands of runs, as a crash of the user's tests.",
  ["runtime/internal/stack/stack.go", "runtime/internal/stack/export.go", RT + "init.go", RT + "trap.go", "runtime/tls/tls.go", "runtime/tls/hook.go"],
  [("the tree of calls", "runtime/internal/stack/stack.go"), ("inheriting", RT + "init.go"), ("keys", "runtime/tls/hook.go")],
  "2-3 goroutines of 1-2 steps, 1-2 preemptions at locks and atomics",
  trust="; races in the values of the program under test that a trace refers to are outside; the sequentially consistent interleavings are complete for race-free programs")

P("C21", "xgo tool trace shows what the trace file holds",
  "The page of a trace file shows each call of each of its stacks exactly once, below its caller and in order, with its name, arguments, results, error, panic and times as the file holds them, whatever bytes they contain: numbers keep all their digits, and text never becomes part of the page or its script. Calls that failed or panicked are marked, no others. "
  "A file whose end is missing or damaged shows the stacks that are whole, and that there is an error; reading it always ends. Traces in the legacy format are shown with what they hold.",
  ["inputs", "crash points"], "all trees, texts and numbers within the bounds, all places a file may be cut at, all damaging bytes",
  "There are tests of one number and of two durations; a shifted id, a lost digit or a text that ends the script shows for particular traces only.",
  [CX + "trace/render/render.go", CX + "trace/render/render_item.go", CX + "trace/render/format.go", CX + "trace/convert.go", CX + "trace/main.go"],
  [("the page", CX + "trace/render/render.go"), ("the tree", CX + "trace/render/render_item.go"), ("legacy traces", CX + "trace/convert.go")],
  "files of 1-2 stacks of up to 3 calls in 7 shapes, 1 (thorough 2) symbolic bytes in one of the texts, numbers of 19 digits; all cuts of a stack after 1-2 whole ones",
  trust="; encoding/json is replaced by a model validated natively on sampled paths; what the browser's script does with the data is outside")

P("C22", "Functions are found by value, name and instance, generic ones included",
  "What is registered is found by its value, its code, its address, its package and name (`T.M` stands for a method of T or *T), and its full name, whatever its package path and the type arguments in the full name are; the full name of a function parses into the parts it is made of, and nothing else is found in its place. A registration tells whether the function takes a context first and returns an error last. "
  "Mocks, recorders and interceptors of an instance of a generic function or method apply to the calls of that instance and leave other instances alone, also where instances share their code; what has no code of its own cannot be mocked by name, and the attempt is refused.",
  ["inputs", "histories"], "all full names, paths and type arguments within the bounds, all orders of mocking, recording and cancelling on two instances, all values",
  "There are tests of 10 full names; a name with brackets in its type arguments or an escaped path is not found, and a mock of one instance breaks the calls of another, only for particular types.",
  ["runtime/functab/functab.go", "runtime/core/func.go", RT + "inspect.go", RT + "mock.go", RT + "record.go", RT + "stack_data.go"],
  [("names", "runtime/core/func.go"), ("the table", "runtime/functab/functab.go"), ("instances", RT + "inspect.go")],
  "paths of 1-3 elements with 2 symbolic bytes, 12 lists of type arguments, 1-2 symbolic letters in names; any name of up to 5 (thorough 7) bytes does not crash; 3 (thorough 4) steps on 2 instances",
  trust="; the compiler's naming and sharing of instances is simulated as it was observed with go1.25 and go1.27; instances whose parameters and results have the same types cannot be told apart and are outside")
