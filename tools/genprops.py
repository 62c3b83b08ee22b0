#!/usr/bin/env python3
"""Writes properties.jsonl. Kept as a script so that the statements stay reviewable."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe, hook_needed=None)))

p("C01", "A controller runs each target at most once and shares its outcome",
  "Within one Controller each target's action is executed at most once, however often, through whatever nesting (All, Seq, Deps, ArgTarget, Files, file chaining, references by name in YAML) and from however many goroutines it is requested. Every requester returns only after that execution has finished and observes its outcome: success, or the same error. Distinct targets are never mistaken for one another, even when one of them is no longer referenced, and an acyclic request graph always terminates.",
  ["inputs","histories","schedules"], "all acyclic target graphs (built in Go and in YAML), all sequences and concurrent interleavings of Run calls on one Controller, with garbage collections in between",
  "TestController, TestRunner and the diamond test use one fixed shape with one schedule; nothing runs concurrent Run calls on overlapping graphs, failing shared targets, or targets that become unreachable.",
  ["runner.go","controller.go","gate.go","all.go","seq.go","deps.go","argtarg.go","yaml.go"],
  [("outcome map and gate","runner.go Controller.Run"),("deferred name resolution","yaml.go deferredResolutionTarget")],
  ["execution counters and returned errors of generated targets","files appended to by generated YAML commands"],
  [("ran","targets that have run or are running, with outcome","controller.go")])
p("C02", "Seq, All and Deps honour ordering, early stop, concurrency and error reports",
  "Seq runs its targets strictly in order and runs none after the first failure; Deps runs its main target only after all its dependencies have finished successfully; All and Run start all of their targets concurrently, wait for every one of them whether or not others fail. A composite succeeds exactly when everything it was supposed to run succeeded, and otherwise its error matches (errors.Is / errors.As) the error of every failed constituent that it ran and of no target that did not fail.",
  ["inputs","schedules"], "all nestings of Seq, All, Deps, ArgTarget and plain targets, shared or not, with every assignment of successes and failures",
  "The tests have one two-element Seq, one All and one Deps; nested and failing combinations, sharing, error aggregation and real overlap of All elements are not sampled.",
  ["all.go","seq.go","deps.go","runner.go"],
  [("errors.Join of per-target results","runner.go Controller.Run"),("early return","seq.go Run"),("Seq(All(deps...), target)","deps.go Deps")],
  ["start/end event log of generated targets","returned error tree"])
p("C03", "A Files target is skipped exactly when its state is recorded as up to date",
  "With a hash database, running a Files target skips its subtarget if, after its prerequisites have run, the present state (rule, names and contents of inputs and outputs) is one that an earlier successful run recorded and the database still holds; otherwise the subtarget runs. After the subtarget succeeds the resulting state is recorded; nothing is recorded when a prerequisite, the subtarget or the database fails or the state cannot be determined (a file cannot be read, the rule has no encoding), and that failure is reported; when the state cannot be determined beforehand the subtarget does not run, unless forced. Force always runs the subtarget and records the result, and without a database, or in dry-run mode, it always runs and nothing is recorded.",
  ["inputs","histories","fault_sequences"], "all histories of input/output edits, deletions, reverts, forced, dry, database-less and failing runs, rule changes, and faults injected in the hash database at any call",
  "files_test.go walks one scripted history; reverts to earlier recorded states, failing subtargets, database faults and mixed modes are not explored.",
  ["files.go","hash.go","context.go"],
  [("hash before, run, hash after","files.go files.Run")],
  ["execution counter of a JSON-encodable subtarget","calls on a wrapping HashDB","returned error"],
  [("hash DB","set of recorded up-to-date states","hash.go HashDB")])
p("C04", "The up-to-date state depends on exactly the rule and the files' content",
  "Any change to the encodable rule of a Files target (at any depth of its subtarget: command, arguments, environment, directory, files, type, nested Seq/All/ArgTarget elements, targets referred to by name), to the set of its input or output names, or to the existence or content of any listed file or any file below a listed directory makes a previously up-to-date target run again. Changes of modification time or permission, the order or repetition of listed names, unrelated files, and a new process with the same rules do not.",
  ["inputs","histories"], "all rule trees and file trees, and all single mutations of them drawn from the relevant and irrelevant kinds",
  "hash_test.go and files_test.go check a handful of literal hashes; nested rules, directories, name references and mutation sensitivity are not covered.",
  ["files.go","command.go","all.go","seq.go","argtarg.go","yaml.go","clean.go"],
  [("canonical JSON of target, type and file hashes","files.go computeHash"),("recursive directory walk","files.go fileHashes")],
  ["execution counter before and after each mutation"])
p("C05", "An incremental build over chained Files equals a clean build and is minimal",
  "When Files targets are chained by file name (an input that is an output of another target, or lies under an output directory of one, however the names are spelled: relative or absolute, with a trailing slash, not clean), running any of them first brings every transitive producer up to date. After any history of edits to source and intermediate files the outputs are byte-identical to those of a from-scratch build of the current sources, each rule runs at most once per build, and an immediately repeated build runs no rule.",
  ["inputs","histories"], "all acyclic chains of Files rules (fan-in, fan-out, diamonds, output directories, inputs that are their own outputs), all edit/build histories",
  "TestFilesChaining has one A-to-B-to-C chain and one build; histories with edits of intermediate files, diamonds and directories are not explored.",
  ["files.go"],
  [("registry of outputs","files.go filesRegistry, runPrereqs, findInFilesRegistry")],
  ["file contents after each build versus a reference evaluator","execution log"])
p("C06", "Dry run changes nothing",
  "With dry-run mode on, running any combination of the built-in targets (Command, Files, Clean, All, Seq, Deps, ArgTarget, go.Binary, proto.Proto, ts.Decls, from Go, from YAML or from the command line with -n) creates, removes or modifies no file of the project, executes no command, and leaves the set of recorded up-to-date states unchanged, so that a following real build does exactly what it would have done without the dry run.",
  ["inputs","histories"], "all rule trees, project states, and positions of a dry run in a build history",
  "Only Clean has a dry-run test; Command, Files and the language targets are not tested in dry-run mode.",
  ["command.go","files.go","clean.go","ts/tsdecls.go","golang/go.go","proto/proto.go","main.go","driver.go.tmpl"],
  [("GetDryRun checks","command.go, files.go, clean.go, ts/tsdecls.go")],
  ["snapshot of the project tree and of the rows of the hash database before and after","actions of the next real build"])
p("C07", "The hash database is a persistent set with access-time expiry",
  "After Add of a byte string Has reports it, and Has never reports one that was not added, for strings of any content and length, across close and reopen. With Keep(d) an entry is evicted by an Add only once its last access is older than d, at which point it is gone, and without Keep never; Add always refreshes the access time and Has refreshes it if and only if UpdateOnAccess is in effect. The database that OpenHashDB opens for the fab command keeps entries for thirty days after their last access.",
  ["inputs","histories"], "all sequences of Add, Has, clock advance and reopen with any options and any byte strings",
  "sqlite/db_test.go replays one scripted sequence with a fixed clock.",
  ["sqlite/db.go","sqlite/schema.sql","context.go"],
  [("upsert and expiry delete","sqlite/db.go Add"),("update or select","sqlite/db.go Has")],
  ["Has results compared with a model map"],
  [("hashes table","hash and last access time","sqlite/schema.sql")])
p("C08", "The hash database is safe under concurrency and abrupt termination",
  "Any number of goroutines, handles and processes may use one database file at the same time: no operation fails or corrupts it, an Add that has returned is visible to every later Has in any handle or process, and Has reports only what some Add was given. A process killed at any moment loses no Add that had returned, and the file stays usable.",
  ["schedules","crash_points","histories"], "all interleavings of Add, Has, Open and Close over several goroutines, handles and processes, and all kill points",
  "There is no concurrent, multi-process or crash test of the database.",
  ["sqlite/db.go","sqlite/schema.sql"],
  [("single-statement SQLite transactions","sqlite/db.go")],
  ["linearisability-style check of the recorded operations","integrity check and Has after the kill"])
p("C09", "Command runs exactly the described process and routes its streams",
  "A Command executes exactly the given program with the given arguments (or the given string with $SHELL -c, /bin/sh by default), in the given directory, with the process environment plus Env, and with the given standard input. Every byte it writes to standard output and standard error reaches, in order, exactly the chosen destination (writer, function-made writer, overwritten or appended file, one shared file, indented copy in verbose mode, otherwise captured), and the target fails exactly when the process or its set-up fails, with captured output attached to the error and a handed-out writer closed.",
  ["inputs","configurations"], "all commands, argument and environment lists, byte streams, exit codes and all combinations of stream destinations, verbose or not",
  "command_test.go samples a few literal commands; destinations are not combined and bytes, arguments and exit codes are fixed.",
  ["command.go","runner.go"],
  [("exec.Cmd set-up","command.go Command.Run"),("CommandErr","command.go")],
  ["a helper program that reports its arguments, directory, environment and stdin and writes a script of bytes","files and writers afterwards"])
p("C10", "A YAML Command means what its documentation says",
  "A !Command mapping behaves as the Command with the documented translation of its fields: Stdin, Stdout, Stderr and Dir absolute or relative to the directory of the YAML file, a >> prefix appending and otherwise overwriting, the special names $stdin, $stdout, $stderr, $indent, $verbose and $discard, Args and Env lists, and a list of Shell strings run in sequence until one fails with file outputs accumulated. Mistyped fields are rejected with an error.",
  ["inputs","configurations"], "all combinations of fields, values and YAML directories (top level or subdirectory, relative or absolute top directory)",
  "yaml_test.go compares a few parsed structures and never runs commands with stdin, append, directories or the special streams.",
  ["command.go","yaml.go"],
  [("commandDecoder and toTarget","command.go")],
  ["effects of running the parsed target in a scratch project compared with a reference interpretation"])
p("C11", "A YAML target definition is equivalent to the same target built in Go",
  "For every nesting of !All, !Seq, !Deps (both forms), !ArgTarget, !Files, !Clean, !Command and references by name, the target read from YAML does the same things in the same order with the same outcome as the target constructed with the corresponding Go functions, regardless of YAML style (flow or block, quoting, order of definitions). A malformed definition or unknown tag is an error when the YAML is read, and an unresolvable name is an error no later than when it is run.",
  ["inputs","programs"], "all target trees over the built-in YAML types, in all textual renderings and definition orders, and all single corruptions",
  "yaml_test.go and badyaml_test.go cover one small file each; equivalence of behaviour is not tested.",
  ["yaml.go","all.go","seq.go","deps.go","argtarg.go","files.go","clean.go","command.go"],
  [("tag registry and decoders","yaml.go YAMLTarget and *Decoder functions")],
  ["execution trace of the YAML tree versus that of the Go tree"])
p("C12", "References between YAML files resolve to one target, in any order",
  "A target T of the YAML file in subdirectory D is registered as D/T, and any reference from any file by a relative path (or by name at top level) denotes that one target: it runs once however many names lead to it. This holds for every order of definitions and for files that refer to each other; a missing or mismatched _dir declaration, a missing file or name, and a slash in a defined name are errors, never a hang or crash.",
  ["inputs","programs"], "all sets of YAML files in a directory tree with acyclic target references between them, in any order, including mutually referring files",
  "subdirs_test.go uses one fixed project whose references happen to be in a workable order.",
  ["yaml.go","controller.go"],
  [("YAMLTarget, ReadYAML, ReadYAMLFile","yaml.go"),("JoinPath and RelPath","controller.go")],
  ["registered names, and the files appended to by running each target"])
p("C13", "YAML input of any content is accepted or rejected cleanly",
  "For arbitrary bytes presented as a YAML file, reading it terminates with success or an error: it never panics, hangs or executes anything. When it succeeds every registered name is listed, resolvable and describable.",
  ["inputs"], "all byte strings, concentrated on mutations of valid target definitions with wrong node kinds at every position",
  "badyaml_test.go has a dozen literal bad documents.",
  ["yaml.go","all.go","seq.go","deps.go","argtarg.go","files.go","clean.go","command.go","top.go"],
  [("node kind checks","*Decoder functions"),("yaml.v3 decoding","yaml.go ReadYAML")],
  ["return of ReadYAML / ReadYAMLFile / TopDir, registry contents"])
p("C14", "Indented output preserves every line, whatever the chunking",
  "IndentingCopier prefixes each non-empty line written to it with two spaces per level of Run nesting in effect when it was created and then the given prefix, converts CR LF and bare CR to LF, drops a final CR, and passes every other byte through unchanged and in order; the result does not depend on how the stream is split into writes, all data is delivered by the time Write returns, and Write reports the full length. Indentf output is indented by the nesting depth current at the call and ends in exactly one newline it added.",
  ["inputs","histories"], "all byte streams, all splittings into Write calls, all prefixes and nesting depths",
  "One test with one chunking.",
  ["runner.go"],
  [("indentingCopier state machine","runner.go"),("depth counter","runner.go incDepth/decDepth")],
  ["bytes received by the underlying writer, return values"])
p("C15", "Paths and file lists are interpreted relative to the right directory",
  "JoinPath discards everything left of the last absolute segment and otherwise joins the top directory and the segments; RelPath inverts it and gives the same answer for every spelling of a path. Every file in a YAML file list (plain, nested string-list tags such as !Glob) is interpreted relative to the directory of the YAML file unless absolute, in order, and !Glob yields exactly the files that match its patterns there.",
  ["inputs","configurations"], "all path segment lists, top directories (absolute, relative, empty), YAML directories, and file trees with glob patterns",
  "controller_test.go and yaml_test.go check a few literal paths and one glob.",
  ["controller.go","yaml.go","files.go"],
  [("JoinPath, RelPath","controller.go"),("YAMLFileList, YAMLStringList, YAMLStringListFromNodes","yaml.go"),("globDecoder","files.go")],
  ["returned strings versus a reference implementation","files removed by a parsed Clean"])
p("C16", "The registry and command-line arguments select exactly the named targets",
  "Names registered on a controller (and no others) are listed, in sorted order and each with its doc string indented by four spaces on every line; what a caller does with a returned list does not change the registry; a later registration of a name replaces the earlier, and a registered target is described by its name. Command-line arguments are either names, all of which must be known and which select exactly those targets in order, or, when the second argument begins with a hyphen, one target that receives all remaining arguments verbatim; every unknown name is reported and then nothing runs.",
  ["inputs","histories"], "all registration histories, all argument vectors, all doc strings, Go and YAML definitions",
  "register_test.go, argtarg_test.go and main_test.go sample one registry and a few argument vectors.",
  ["controller.go","register.go","argtarg.go","context.go","yaml.go"],
  [("ParseArgs, ListTargets","controller.go"),("RegisterTarget, RegistryNames, Describe","register.go")],
  ["results of ParseArgs, ListTargets, Describe; arguments seen by the target"])
p("C17", "The top directory is found from anywhere inside the project",
  "From any directory, TopDir returns the absolute path of the nearest directory at or above it in its path (symbolic links are not resolved) that has a _fab subdirectory or, if a fab.yaml (or fab.yml) is met first, the directory that its _dir declaration is relative to (that directory itself if there is no declaration). A declaration that is absolute or does not match the actual location, unreadable YAML, or the absence of any project is an error, never a wrong answer.",
  ["inputs","configurations"], "all directory trees with _fab directories (and files of that name), YAML files with right, wrong, absolute or no declarations, and all starting points, absolute or relative",
  "top_test.go checks a few fixed trees.",
  ["top.go"],
  [("upward search","top.go TopDir, topDirHelper")],
  ["returned path versus a reference search"])
p("C18", "Clean removes exactly the named files",
  "Running a Clean target removes every listed file that exists, plus (if and only if Autoclean is set) every output of the Files targets declared with Autoclean(true), and nothing else; files that do not exist are ignored, any other failure is reported, and the target's definition is left unchanged.",
  ["inputs","histories"], "all sets of files, Autoclean and plain Files targets, and Clean targets from Go and YAML, with missing files, unremovable entries, duplicates, dry runs",
  "clean_test.go removes one file and checks one autoclean set.",
  ["clean.go","files.go"],
  [("removal loop","clean.go Clean.Run"),("autoclean registry","files.go Autoclean")],
  ["file tree before and after"],
  [("autoclean registry","outputs to be removed by Clean targets with Autoclean","clean.go")])
p("C19", "go.Deps lists exactly the files that the Go build uses in the module",
  "golang.Deps of a package directory returns, sorted and without repetition, the Go, other and embedded files of that package (of all packages below it if recursive, of its tests if requested) and of every package of the same module that it imports directly or indirectly (through packages of that module), excluding files removed by build constraints and everything in other modules. A package that does not load is an error.",
  ["inputs","programs"], "all module layouts: import graphs, build constraints, test files, embeds, nested packages, starting directories",
  "go_test.go checks the list of one package of this repository.",
  ["golang/go.go"],
  [("packages.Load and traversal","golang/go.go Deps, gopkgAdd")],
  ["returned list versus a reference computed from the generated module"])
p("C20", "go.Binary builds the package and rebuilds exactly when it must",
  "Running a go.Binary target (Go API or YAML) produces at the named output, by default the last element of the directory, an executable built from the present sources with the given flags; it is rebuilt after a change to any source or embedded file of its module that the build uses, or to the output or flags, is not rebuilt otherwise, and a failing build is reported and not recorded. The output is subject to Autoclean.",
  ["inputs","histories","programs"], "all small module layouts, directories and output paths, flags, and edit/build histories",
  "go_test.go builds one fixed program once.",
  ["golang/go.go","files.go"],
  [("Binary and binaryDecoder","golang/go.go")],
  ["output of the built program, modification of the binary, count of go build invocations"])
p("C21", "Protocol-buffer dependencies are complete and Proto rebuilds on any of them",
  "proto.Deps returns, sorted, the file itself and every file reachable through its import statements (plain, public or weak, either quote style, any layout on a line), each resolved to the first include directory that has it, and nothing else; import cycles terminate and unreadable files are errors. A Proto target runs protoc with those includes, options and inputs exactly when an input, a transitive import, an output or the rule has changed.",
  ["inputs","histories","programs"], "all sets of .proto files over several include directories with shadowing, cycles, comments and missing imports; all edit/build histories",
  "proto_test.go reads one fixed tree (and its Proto test does not run here).",
  ["proto/proto.go"],
  [("import scanning","proto/proto.go protodeps, protodepsImport")],
  ["returned list versus a reference parser","arguments recorded by a stand-in protoc, and real protoc's dependency output"])
p("C22", "ts.Decls regenerates declarations exactly when the Go package changes",
  "Running a ts.Decls target writes to the output exactly the declarations that the generator produces for the present package, type and prefix; it regenerates after a change to the package's files, the output or the parameters, and does nothing otherwise. A failure is reported and is never recorded as up to date.",
  ["inputs","histories","programs"], "all generated service types and packages, and edit/run histories, from Go and YAML",
  "tsdecls_test.go generates one fixed file once.",
  ["ts/tsdecls.go","golang/go.go"],
  [("declsType.Run","ts/tsdecls.go")],
  ["output file versus direct use of the generator library"])
p("C23", "The driver offers exactly the exported target variables of the _fab package",
  "For every compilable _fab package (that imports Fab and the standard library only) the driver compiles, and its targets are exactly the exported top-level variables whose types implement Target, which hold pointers (whatever the declaration form: typed or inferred, grouped, of a local type, of interface type, over several files), each under its name and with its doc comment, together with the targets of fab.yaml. Tests, files excluded by build constraints, other declarations and unexported or non-target variables do not matter.",
  ["programs","configurations"], "all _fab packages built from a grammar of declarations, with accompanying YAML",
  "compile_test.go compiles one fixed package, and the type checker test has a few literal types.",
  ["compile.go","types.go","driver.go.tmpl"],
  [("checkImplementsTarget","types.go"),("doc extraction and driver template","compile.go, driver.go.tmpl")],
  ["fab -list and effects of running each listed target"])
p("C24", "A driver is never stale and never needlessly rebuilt",
  "Whatever the history of edits to the files of the _fab package (change, add, rename, remove, revert), forced runs, failed compilations and lost or damaged cache files, fab always runs targets as the present code defines them or fails; and when nothing has changed since the last successful run it uses the existing driver without compiling.",
  ["histories","fault_sequences"], "all histories of edits, runs, forced runs, syntax errors, deletions or corruptions of cache files",
  "main_test.go covers one recompilation scenario with the version check skipped.",
  ["main.go","compile.go","dirhash.go"],
  [("dirhash comparison","main.go getDriver, dirhash.go"),("build info comparison","main.go checkVersion")],
  ["output of the targets after each step, verbose messages and modification of the cached driver"],
  [("hash, fab.bin, fab-version.json","source hash, driver, fab build info","cache directory")])
p("C25", "fab behaves the same through a driver and without one",
  "For a project whose targets come from fab.yaml, running fab with any flags (-v, -n, -f, -list, -fab) and arguments from any directory of the project has the same effects on files, runs the same commands with the same arguments and standard input, lists the same targets and succeeds or fails in the same cases whether or not a _fab package is present. The exit status is zero exactly when everything requested succeeded.",
  ["inputs","configurations"], "all YAML projects, flag combinations, argument vectors, working directories and standard inputs",
  "main_test.go calls Main.Run in one directory with few flags, and the driver is never compared with driverless mode.",
  ["main.go","driver.go.tmpl","cmd/fab/main.go"],
  [("driverless","main.go"),("driver main","driver.go.tmpl")],
  ["files, standard output, exit status of both modes"])
p("C26", "An interrupted or failed build is never taken for an up-to-date one",
  "If a build (fab together with the commands it runs, each of which writes its outputs afresh) is killed at any moment, or a command fails at any step, then after restarting the same build (the command line as before, and no other change) it completes with outputs identical to those of an uninterrupted build: no rule whose outputs are missing, partial or out of date is skipped. Rules that had completed before the interruption are not run again.",
  ["crash_points","fault_sequences","histories"], "all kill points of generated multi-rule builds (before, inside and after each command), and all failing commands",
  "No test interrupts a build.",
  ["files.go","sqlite/db.go","runner.go"],
  [("state recorded only after success","files.go files.Run"),("durable hash database","sqlite/db.go Add")],
  ["outputs and log of rules executed after the restart"])
p("C27", "Settings and arguments reach exactly the targets in their scope",
  "Whatever is put in the context of a Run (verbosity, force, dry run, hash database, arguments, values of the caller, its deadline and cancellation) or by a target in the context of what it runs is what every target below sees, through All, Seq, Deps, ArgTarget, Files and the producers of its inputs, and no target outside of that scope sees it. ArgTarget replaces the arguments for its subtarget and changes nothing else. A target reached from several scopes sees one of them, whole. Controllers do not affect each other.",
  ["inputs","schedules"], "all trees of composites with settings changed at any nodes, several roots and controllers at the same time",
  "The tests read a context back in the function that set it.",
  ["context.go","argtarg.go","runner.go","files.go","all.go","seq.go","deps.go"],
  [("context keys","context.go"),("context handed on","runner.go runTarget, files.go runPrereqs")],
  ["GetVerbose, GetForce, GetDryRun, GetHashDB, GetArgs and values, as seen by each target"])
p("C28", "Verbosity changes messages only",
  "A run with WithVerbose or fab -v has exactly the effects of the same run without it: the same files, the same commands with the same inputs, the same entries recorded as up to date, success or failure in the same cases, over any history of runs and edits, from Go, YAML and the command line, also with -f and -n.",
  ["inputs","histories"], "all rule trees and histories of edits and runs with any runs verbose",
  "No test compares a verbose run with a quiet one.",
  ["context.go","command.go","files.go","main.go","clean.go"],
  [("verbose branches","command.go, files.go, clean.go, runner.go Indentf")],
  ["files, logs of commands, errors, entries of the hash database"])
p("C29", "Controllers and registries may be used from many goroutines",
  "Any number of goroutines may register and look up targets, list and describe them, run them, read YAML files of different directories, create Files and Clean targets, register YAML types and write indented messages, with one controller or several, and one hash database, without data races, deadlocks or lost updates. Each registration and each query (RegistryTarget, RegistryNames, Describe) takes effect at one moment between its call and its return. A Files target, YAML type or registered name is in effect for everyone as soon as the call that creates it returns.",
  ["inputs","schedules"], "all sets of goroutines with sequences of these operations, and all their interleavings",
  "Tests of concurrency run one or two scenarios, without the race detector and without looking at the results of overlapping operations.",
  ["registry.go","register.go","controller.go","runner.go","files.go","clean.go","yaml.go","gate.go"],
  [("registries","registry.go add, lookup; register.go"),("outcome gate","runner.go Run, gate.go"),("deferred targets","yaml.go resolve, deferTarget")],
  ["results of overlapping operations explained by a sequential order (linearizability)","the race detector","final registry contents and execution counts"])
p("C30", "A failure says what failed and shows its output, and success is quiet",
  "The error of a Run (and what the fab command prints) contains, for every command executed that failed, its exit status (or the program that could not be run), the registered names of it and of all targets above it, and in a quiet run all of its output that was not sent elsewhere, in order; nothing of targets that did not fail. The CommandErr with that output and the exec.ExitError can be found in the error. A quiet run prints nothing else. A verbose run shows every line of the output of every command exactly once, on the stream it was written to.",
  ["inputs"], "all trees of composites over succeeding and failing commands with any output, in quiet and verbose runs, from Go, YAML and the command line",
  "command_test.go looks at the output of one command; the text of errors of trees is not tested.",
  ["command.go","runner.go","cmd/fab/main.go","main.go"],
  [("CommandErr","command.go Run"),("wrapping of errors","runner.go Run"),("printing","cmd/fab/main.go")],
  ["text and structure of errors, standard output and error"])
p("C31", "Verbose output shows what is done, once and in order",
  "In a verbose run, standard output announces each target that the run executes exactly once, by its description (registered name, or unnamed and its kind), before anything that is done for it and indented more than the targets it is part of; shows each command that is executed, or in a dry run would be, once, before its output; the files a Clean removes or would remove; and for each Files target found up to date that it is. Nothing is announced that is not done: not what follows a failure, what belongs to an up-to-date Files target, or what has run already. Parts of a sequence appear in order.",
  ["inputs","histories"], "all rule trees with shared targets, failures and prerequisites, and all histories of real, dry and forced runs, from Go, YAML and the command line",
  "No test looks at verbose output.",
  ["runner.go","register.go","files.go","clean.go","command.go"],
  [("announcement","runner.go Run"),("description","register.go Describe"),("indentation","runner.go Indentf"),("up to date","files.go Run")],
  ["standard output of verbose runs"])
p("C32", "Projects sharing a fab directory do not affect each other",
  "When several projects use one fab directory (as they do by default, $HOME/.fab or the like), the commands executed, the files produced and the outcome of every run in one project are the same as if it had a fab directory of its own, whatever was done in the other projects before or is done at the same time (for drivers: at the same time only if their package paths differ), even when they have the same rules and the same file contents (for rules that give their files absolute names, as rules from YAML and names made with JoinPath have). A run in a project uses that project's current rules and directory, never those of another project with the same package path; and when package paths differ, running fab in one project does not make another's driver be compiled again.",
  ["inputs","histories","schedules"], "all pairs of projects, equal or not, and all interleavings of edits, copies and runs in them, simultaneous runs included, with and without drivers",
  "No test uses two projects.",
  ["main.go","files.go","top.go","sqlite/db.go","compile.go"],
  [("driver directory and hash","main.go getDriver"),("hash database","main.go OpenHashDB"),("hashing","files.go computeHash"),("top directory","top.go TopDir")],
  ["differential histories of two projects"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
