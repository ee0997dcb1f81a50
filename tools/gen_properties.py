import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=[observe]
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

D="internal/protoc/downloader.go"; C="internal/protoc/compiler.go"; R="internal/exec/runner.go"
p("C01","A cached protoc install is used only when it is complete",
 "Whenever a prototool command gets past resolving protoc from its cache, the install it uses contains every file of the release archive with exactly the archive's bytes (the protoc executable and all well-known types), no matter how earlier or concurrent commands were killed, crashed, lost power, hit full or failing disks, or received failed, truncated or corrupt downloads. An incomplete or wrong-version install is never accepted as already downloaded. Once faults stop, the next command repairs the cache by itself and succeeds.",
 ["crash_points","fault_sequences","histories"],"every crash point and loss of power, disk fault and network fault in every sequence of commands that share a cache",
 "TestDownload needs GitHub and only exercises one fault-free download into an empty cache; no test interrupts an extraction or corrupts a download.",
 [D,"internal/protoc/protoc.go",C],[("download and extract under the file lock","downloader.go cache/downloadInternal"),("acceptance test of an existing install","downloader.go checkDownloaded")],
 [("<cache>/protobuf/<version or url hash>","the install directory")],"exit code of commands, install directory contents whenever a command executes protoc or reads includes")
p("C02","Concurrent prototool processes can share one cache",
 "When any number of prototool processes start together on an empty, partial or complete cache, every one that succeeds runs a complete protoc install, and none executes or reads install files while another process is still writing or replacing them. Without faults all of them succeed and the release archive is fetched exactly once per cached version or URL. Installs for different versions, URLs, or cache directories never overwrite or stand in for one another.",
 ["schedules","histories","configurations"],"every interleaving of the file operations, downloads and lock attempts of several processes and of several goroutines in them",
 "The tests run one process at a time and mostly with a preinstalled protoc; nothing runs two downloads at once.",
 [D],[("flock around check, download and re-check","downloader.go cache"),("in-process lock and memoised path","downloader.go Download")],
 [("<install>.lock","advisory lock file")],"HTTP requests received by the origin, every open/exec of a cache file while another process writes it")
p("C03","The cache lock never wedges and waiting for it is bounded",
 "A process that crashed or was killed while holding the cache lock never prevents later ones from acquiring it, and a process that holds no further interest in the cache (its install is resolved or has failed) no longer holds the lock. A process that cannot get the lock fails within about ten seconds with a non-zero exit and a message naming the lock file, and never proceeds without the lock. Once the holder is gone the next command gets the lock and succeeds.",
 ["schedules","crash_points","histories"],"every crash point and stall of a lock holder, and every arrival time of waiters",
 "Lock contention, holder crashes and the ten second deadline are never exercised; they need several processes and a controlled clock.",
 [D],[("TryLockContext with timeout and retry delay","downloader.go flockLock"),("deferred unlock","downloader.go cache/flockUnlock")],
 [("<install>.lock","advisory lock file")],"simulated time from start to exit of each waiter, kernel lock table")
p("C04","Cache maintenance stays inside the cache it is meant to touch",
 "`cache delete` removes the whole default cache and nothing else: in particular it never removes or changes a custom cache set with PROTOTOOL_CACHE_PATH, nor any sibling or parent of the default cache directory. Downloading and extracting protoc creates or changes files only inside the install's own cache directory (and its lock file), whatever names the downloaded archive contains. These hold under crashes and disk faults at any point.",
 ["inputs","configurations","fault_sequences"],"every environment (HOME, XDG_CACHE_HOME, PROTOTOOL_CACHE_PATH), every archive a configured URL may serve, and every fault during deletion or extraction",
 "No test runs cache delete or feeds the extractor anything but the official archive.",
 [D,R,"internal/cmd/templates.go"],[("recursive delete of the base path","downloader.go Delete"),("joining archive names to the install path","downloader.go downloadInternal")],None,"file system mutations outside the cache")
p("C05","Compilation result is complete and independent of scheduling",
 "compile (and every command that compiles first) exits 0 exactly when protoc ran for every directory of the selected input, on all its files, and none of those runs reported anything; otherwise it exits non-zero and prints every failure reported by every protoc run, once each, for the file, line and column that protoc gave, and in sorted order. The outcome, exit code and output do not depend on how many CPUs there are, in which order the parallel protoc processes start, finish, or are delayed.",
 ["schedules","inputs","histories"],"every interleaving and relative speed of the parallel protoc processes",
 "Tests compile a few directories once with natural timing; lost failures under races, semaphore exhaustion, or reordering need schedule control.",
 [C,R],[("one goroutine per protoc command, semaphore, mutex, wait group","compiler.go Compile"),("failure printing","runner.go printFailures")],
 [("failures, errs","shared slices appended by the goroutines")],"exit code and stdout of compile, lint, format, all, generate")
p("C06","An interrupt is never reported as success",
 "When a prototool command receives SIGINT or SIGTERM while protoc is running, all running protoc processes are terminated, no later phase (formatting, generating, linting, calling, writing an output file) starts, and the command exits non-zero within a short bounded time. It never panics, never hangs and never reports success for work it did not finish. A later signal during a phase with no protoc running is never swallowed.",
 ["schedules","crash_points"],"every instant at which one or more signals can arrive, relative to every protoc start and exit",
 "No test sends a signal at all; the window between starting and finishing each of several parallel protoc processes needs schedule control.",
 [C,R],[("signal handler per protoc command","compiler.go runCmdMeta"),("phase sequencing","runner.go All/Format/DescriptorSet/BreakCheck")],
 [("signal registrations","process-wide set of handled signals")],"exit code, live child processes, file system writes after the signal")
p("C07","Nothing is left behind when a command ends",
 "When a prototool command ends by itself, successfully or not, including after compile failures, failed or interrupted clones, disk errors, network errors and timeouts, it leaves no temporary files or directories (other than the one `--tmp` asks for), no running child processes and no held locks. It does not accumulate open files over the directories it processes. Cleaning up never removes anything the command did not create.",
 ["fault_sequences","schedules","inputs"],"every single fault and schedule that lets the process end by itself (not a kill)",
 "Tests never look at the temp directory after a failing command and never inject failures between creating and using temporary files.",
 [C,"internal/git/git.go","internal/diff/diff.go",R],[("deferred cleanup of descriptor temp files","compiler.go cleanCmdMetas"),("temporary clone","git.go TemporaryClone"),("diff temp files","diff.go Do")],None,"temp directory, process table and descriptor table at exit")
p("C08","Rewriting a source file in place never loses it",
 "When format -w, format -f -w or all rewrites a Protobuf file, then after a crash, kill, loss of power, full disk or I/O error at any instant the file holds either its complete previous content or the complete formatted content, never an empty, truncated or mixed one. If the rewrite failed the command exits non-zero. The file keeps its permission bits, and a path that is a symbolic link stays a link.",
 ["crash_points","fault_sequences"],"every crash point, loss of power and write, open, close or rename error while files are being rewritten",
 "Tests only check the happy path of formatting; a crash between truncate and write cannot be produced by a unit test.",
 [R],[("overwrite of the source file","runner.go formatFile")],[("the user's .proto files","only copy of the source")],"content of each .proto at every crash point and exit")
p("C09","The same input gives the same output, every time",
 "For a given tree, configuration and command line, everything prototool writes (standard output, exit code, created and rewritten files, and the flags and inputs of the protoc processes it runs) is identical from run to run. It depends neither on map iteration order, goroutine scheduling, number of CPUs, directory listing order, nor the speed of child processes.",
 ["schedules","inputs","histories"],"every schedule, map iteration order and CPU count",
 "Go randomises map order and select per run; a test that runs once sees one order, and no test compares two runs of a multi-directory tree.",
 [R,C,"internal/file/proto_set_provider.go"],[("iteration over directories to files","runner.go format, compiler.go getCmdMetas"),("error aggregation","compiler.go Compile")],None,"stdout, exit code, protoc argv multiset, file contents")
p("C10","The file walk is complete or fails, and its timeout is honoured",
 "Every command operates on exactly the .proto files under the governing configuration's directory that are not excluded (restricted to its argument), or fails: a walk that exceeds the walk timeout yields a non-zero exit with the timeout error, never a partial list. The command gives up within the timeout plus the file operation in progress, and a walk that finishes before the timeout is never failed because of it. A timeout of zero disables the limit.",
 ["schedules","fault_sequences","inputs"],"every speed of every file operation relative to the timeout, and every tree and exclude list",
 "Tests walk tiny trees that never approach the timeout; the race between walk and timer needs a controlled clock.",
 ["internal/file/proto_set_provider.go","internal/settings/config_provider.go"],[("walk goroutine raced against a timer","proto_set_provider.go walkAndGetAllProtoFiles"),("exclude prefixes found during the walk","config_provider.go")],None,"output of files, list of files given to protoc, exit code, simulated duration")
p("C11","gRPC calls relay exactly what was sent and received",
 "prototool grpc delivers each JSON input message to the server exactly once, in order, with the given headers, and prints each response message the server sent exactly once, in order, one JSON document per line, when it is received. It exits 0 only if the call ended with status OK and everything received was printed; a non-OK status, a broken or closed connection, malformed input, or a missing reply gives a non-zero exit with the error. This holds for unary, client-, server- and bidirectional streaming calls under any delay, fragmentation or failure of the network.",
 ["schedules","fault_sequences","histories"],"every interleaving, delay, fragmentation, reset and half-close of the connection and of standard input",
 "Tests call a local in-process server over a healthy loopback connection.",
 ["internal/grpc/handler.go","internal/grpc/invocation_event_handler.go",R],[("invoke and decode","handler.go Invoke/decodeFunc"),("printing of responses and status","invocation_event_handler.go"),("credentials","handler.go getClientTransportCredentials")],None,"messages and metadata seen by the server, stdout, exit code")
p("C12","gRPC connect and call timeouts are honoured",
 "prototool grpc gives up with a non-zero exit once the connect timeout (default 10s) passes without a connection, or the call timeout (default 60s) passes without the call completing, whichever way the peer stalls (no listener, black hole, accepted but silent, handshake but no reply, endless stream). It never gives up on account of a timeout before that timeout has elapsed, and explicit --connect-timeout and --call-timeout values replace the defaults.",
 ["schedules","fault_sequences","configurations"],"every point at which the peer can stall and every configured timeout",
 "Deadlines of 10s and 60s are never waited for in tests; they need a simulated clock and network.",
 ["internal/grpc/handler.go","internal/grpc/grpc.go",R],[("context deadlines","handler.go dial/Invoke"),("keepalive","handler.go getDialOptions")],None,"simulated time of exit, exit code")
p("C13","Exit 0 means the output was completely written",
 "If any write, flush or close of a command's output fails (standard output closed or full, output file on a full or failing disk), the command exits non-zero, for every command and flag that produces output. When it exits 0, standard output and every output file contain the complete result.",
 ["fault_sequences","inputs"],"every failing or short write, flush and close of standard output and of output files",
 "Tests write to memory buffers and healthy temp files that never fail.",
 [R,"internal/grpc/invocation_event_handler.go","internal/cmd/templates.go"],[("printing through the output writer","runner.go println/printFailures"),("descriptor set output file","runner.go DescriptorSet"),("response printing","invocation_event_handler.go println")],None,"exit code against bytes that reached stdout or the file")
p("C14","A clean breaking-change verdict is only given for a real comparison",
 "break check exits 0 only if it compared the complete current definitions with the complete previous ones (the requested git branch or descriptor-set file) and found no breaking change: a failed, partial or killed clone, an unreadable, missing or truncated descriptor set, a compile failure on either side, or an interrupted protoc gives a non-zero exit. Every removed package, message, field, enum, value, oneof, service or method visible in the previous definitions, and every incompatible change of one that stays (type, name or label of a field, oneof membership, name of an enum value, types and streaming of a method, dependency of a stable package on a beta one), is reported under any schedule. The user's repository and working tree are never modified.",
 ["fault_sequences","schedules","histories"],"every fault in cloning, compiling, reading descriptor sets, and every schedule of the two compilations",
 "Tests compare in-memory package sets and one descriptor file; nothing makes git, protoc or the file system fail.",
 [R,"internal/git/git.go","internal/desc/desc.go",C],[("temporary clone","git.go TemporaryClone"),("two compilations and comparison","runner.go BreakCheck")],None,"exit code and stdout, mutations below the repository")
p("C15","create and config init never destroy an existing file",
 "create and config init never change a file that already has content: if the target exists (non-empty, for create), appears concurrently, or its state cannot be determined because of a file system error, the command exits non-zero and the file keeps its exact content. When several such commands race for one path, at most one reports success and the file holds that one's complete result. A failed or crashed command, or a loss of power, never leaves a truncated file that a retry then refuses to replace or a build silently accepts.",
 ["schedules","fault_sequences","crash_points"],"every interleaving of racing commands and editors, and every fault on the checks and writes",
 "Tests check sequential refusal only; neither races nor failing stat calls are exercised.",
 ["internal/create/handler.go",R],[("existence check then write","create/handler.go checkFilePath/create"),("existence check then write","runner.go Init")],None,"content of the target file, exit codes of all racers")
p("C16","An I/O error is never silently turned into a different answer",
 "If any file system, process or network operation a command performs fails, the command either exits non-zero or produces exactly the output, files and verdict it would have produced without the failure. In particular an unreadable configuration file or directory, proto file, include path, protoc binary or cache never makes a command run with defaults, skip files, accept input it would reject, or overwrite something. No such failure makes it panic or hang.",
 ["fault_sequences","inputs"],"every single failing operation (EIO, EACCES, EMFILE, ENOSPC, EINTR, short reads) in every command",
 "Tests run on a healthy file system; nothing injects operation failures.",
 ["internal/settings/config_provider.go","internal/file/proto_set_provider.go",D,C,R,"internal/lint/lint.go","internal/create/handler.go"],[("configuration discovery by existence test","config_provider.go getSingleFilePathForDir"),("path validation","downloader.go newDownloader")],None,"exit code, stdout and files against the fault-free run")
p("C17","Generation runs every plugin for every directory exactly once",
 "generate runs each configured plugin exactly once for each directory of the selected input, with all files of that directory, with the flags, modifiers and paths its configuration asks for, and with the output directories already existing, whatever the scheduling. It exits 0 only if every one of those plugin runs succeeded and silent; any plugin failure, missing plugin, or failure to create an output directory gives a non-zero exit naming it, and the results of the other runs are not mixed up with it.",
 ["schedules","inputs","fault_sequences"],"every schedule of the parallel protoc and plugin processes, every combination of directories and plugins, and failures of any subset",
 "Tests generate for a handful of directories with healthy plugins; parallel failures and schedules are not explored.",
 [C,R],[("command construction per directory and plugin","compiler.go getCmdMetas/getPluginFlagSets"),("creating output directories","compiler.go makeGenDirs")],None,"plugin invocations (argv, files), output tree, exit code")
p("C18","all stops at the first failing phase",
 "all runs compile, then format in place, then compile and generate, then lint, and stops at the first phase that fails: if the compile fails, is interrupted or cannot run, no source file is rewritten and no plugin runs; if formatting fails, nothing is generated; if generation fails, lint does not hide it. It exits 0 only if every enabled phase ran to completion and succeeded. This holds for failures injected at any operation of any phase.",
 ["fault_sequences","schedules","crash_points"],"every operation of every phase failing, and every schedule of the parallel work inside a phase",
 "Tests run all on small trees without faults; phase cut-off after a failure at an arbitrary point is not exercised.",
 [R,C],[("phase sequencing","runner.go All")],None,"order of protoc, rewrite, plugin and lint effects; exit code")
p("C19","Commands only change the files they are documented to change",
 "files, lint, compile, format without -w, break check, inspect, grpc and dry runs never create, change or delete anything in the user's tree; format -w and all rewrite only .proto files selected by their argument; generate writes only below configured plugin output directories; descriptor-set, create and config init write only their named outputs. This also holds when the command fails, crashes or is interrupted at any point (leftover temporaries of a killed process excepted).",
 ["inputs","fault_sequences","crash_points"],"every command, argument, tree, fault and crash point",
 "Tests look at expected outputs only; they never audit the rest of the tree, nor do so after a fault.",
 [R,C,"internal/file/proto_set_provider.go"],[("selection of directories by path prefix","runner.go format/Files, compiler.go getCmdMetas"),("write sites","runner.go, create/handler.go, compiler.go makeGenDirs")],None,"every mutating file system operation of the process and its children")
p("C20","Commands running at the same time in one tree do not disturb one another",
 "However commands that do not rewrite source files (files, lint, compile, format without -w, generate, descriptor-set, break check, inspect, all --disable-format) overlap in one tree with one cache, each ends with the exit code, output and files it has when it runs alone; the tree is then what the commands alone make of it, and temporary files are gone. If one of them is killed, interrupted or meets failing operations at any point, the others are not affected.",
 ["schedules","crash_points","fault_sequences"],"every set of such commands, every overlap of their operations and every point at which one of them is disturbed",
 "Tests run one command at a time; editors and CI run several in the same checkout.",
 [R,C,"internal/git/git.go","internal/protoc/downloader.go"],[("temporary descriptor sets and clones with names of their own","runner.go, compiler.go ioutil.TempFile, git.go TemporaryClone"),("cache lock released before protoc runs","downloader.go Download"),("creating output directories that may exist","compiler.go makeGenDirs")],None,"exit code, output and tree changes per command against the command alone")
p("C21","A dry run announces exactly what the real run executes",
 "compile --dry-run and generate --dry-run print exactly the protoc commands that the same command without --dry-run executes in the same tree under every schedule, one per line, and execute none of them and change nothing; if the dry run fails, the real run executes no protoc either.",
 ["inputs","schedules"],"every tree, plugin configuration, argument and order of the parallel work",
 "The dry run is not compared with what a real run executes anywhere.",
 [R,C],[("command construction shared by both","compiler.go getCmdMetas, ProtocCommands"),("printing","runner.go Compile/Gen dry run")],None,"printed commands against the executed argument lists")
p("C22","The outcome does not depend on how the input is named",
 "The same command gives the same exit code, protoc commands, file changes and output (up to the notation of paths) whatever the working directory, however the directory or file argument is written (relative, absolute, none, with . and .. and doubled or trailing slashes), and whether the same configuration is given as prototool.yaml, prototool.json or --config-data, under every schedule.",
 ["inputs","schedules"],"every tree, command, working directory, spelling of the argument and form of configuration",
 "Tests run from one working directory with relative paths.",
 [R,C,"internal/file/proto_set_provider.go","internal/settings/config_provider.go"],[("path normalisation and display paths","internal/file/file.go, proto_set_provider.go, compiler.go getDisplayFilePath"),("configuration discovery","config_provider.go")],None,"exit code, output, protoc argument lists and tree of two ways to ask for the same")
p("C23","A disturbed command can simply be run again",
 "After a command was killed, interrupted, hit by a power failure or by failing operations at any point, any number of times, running it again on a healthy machine gives the exit code, output and files of an undisturbed run, and so does any other command: nothing that was left in the tree, the cache or the temporary directory gets in the way, and no step by hand is needed.",
 ["crash_points","fault_sequences","histories"],"every command, every point and kind of disturbance, repeated, and every command that follows",
 "Tests never interrupt a command, let alone look at the next one.",
 [R,C,"internal/protoc/downloader.go","internal/git/git.go","internal/file/file.go"],[("temporary names that cannot collide with what is left","runner.go, compiler.go, git.go, file.go"),("repair of the cache","downloader.go checkDownloaded, install"),("lock that ends with its process","downloader.go Download")],None,"exit code, output and tree of the run after the disturbance against an undisturbed run")
p("C24","The cache affects only how long a command takes",
 "Exit code, output and files of a command are the same whether its cache is empty, complete, holds other versions or leftovers, lies elsewhere (HOME, XDG_CACHE_HOME, PROTOTOOL_CACHE_PATH, --cache-path) or is bypassed with the user's own protoc of the same version. Once protoc is installed no command uses the network, so all of them work offline; commands that do not need protoc neither use the network nor create a cache.",
 ["inputs","histories","schedules"],"every command, every state and place of the cache, first and later runs, with and without network",
 "Tests run with one warm cache.",
 [C,R,"internal/protoc/downloader.go"],[("cache path resolution and reuse of an install","downloader.go"),("protoc only when needed","compiler.go newDownloader, runner.go")],None,"outcome of two runs per state of the cache against the warm cache; network requests")
p("C25","A command on a directory does that directory's part of the whole",
 "For every directory of a project, files, compile, generate, lint, format and all on this directory run exactly the protoc commands that the same command on the whole project runs for it, change its files in the same way and nothing else, and report the failures that the whole reports for its files and no others; they fail only if the whole does, and do not succeed if the whole reports a failure there. This holds under every schedule.",
 ["inputs","schedules"],"every tree, directory, command and order of the parallel work",
 "Tests run commands on whole trees or single directories, never comparing both.",
 [R,C,"internal/file/proto_set_provider.go"],[("selection by directory","compiler.go getCmdMetas, runner.go"),("attribution of failures to files","compiler.go parseProtocOutput, runner.go")],None,"protoc argument lists, changes and failure lines of both")
p("C26","The form of the output does not change the result",
 "With --json, with any --error-format, with --debug, and whatever happens to standard error (closed, full, failing), a command has the same exit code, runs the same protoc commands, changes the same files and reports the same failures in the same order, each exactly once with the same file, line, column, lint rule and message. Nothing but the result appears on standard output. This holds under every schedule.",
 ["inputs","schedules","faults"],"every tree, command, output form and failure of standard error",
 "Tests check single forms of single commands, never with a broken standard error.",
 [R,"internal/text/text.go","internal/cmd/cmd.go"],[("printing of failures","runner.go printFailuresForErrorFormat"),("failure fields","text.go Fprintln")],None,"outputs of two runs, one re-rendered from the JSON of the other")
p("C27","What a command uses at once does not grow with the project",
 "However many directories, files and plugins a project has, and whatever fails meanwhile, a command never has more child processes running at the same time than there are CPUs, and the number of files it holds open at the same time depends on the number of CPUs but not on the size of the project. When it ends, none of its child processes is still running.",
 ["inputs","schedules","faults"],"every tree, command, number of CPUs and order of the parallel work",
 "Tests use small trees and never look at what runs or is open at the same time.",
 [C,R,"internal/lint/lint.go"],[("bounded pool of protoc processes","compiler.go runCmdMetas semaphore"),("closing of temporary and parsed files","compiler.go getTempFilePath, lint.go GetDirPathToDescriptors")],None,"children alive at each start of a process; peak of open files against the same command on one directory")
# not applicable
def na(id,title,statement,over,qt,why,files,mech): p(id,title,statement,over,qt,why,files,mech)
na("N01","Formatting preserves meaning and is idempotent",
 "For every Protobuf file that compiles, the formatted file compiles to the same descriptors (apart from options format --fix is documented to change), keeps every comment, and formatting it again changes nothing.",
 ["inputs"],"every valid Protobuf file","Golden files cover a few dozen inputs.",["internal/format"],[("visitors printing the parsed file","internal/format/*.go")])
na("N02","Lint reports exactly the violations of the enabled rules",
 "For every compiled tree and configuration, lint reports a failure exactly for the elements that violate an enabled rule and are not ignored, with their position.",
 ["inputs","configurations"],"every tree and lint configuration","Each rule is tested on a few hand-written files.",["internal/lint"],[("linters and ignore filtering","internal/lint/lint.go")])
na("N03","Breaking-change rules are complete and sound",
 "For every pair of definitions, the comparison reports a failure if and only if a documented breaking change (per configuration) exists between them.",
 ["inputs"],"every pair of definitions","Rule tests use a few hand-written pairs.",["internal/breaking"],[("pairwise comparison","internal/breaking/*.go")])
na("N04","Created files pass the default lint and compile",
 "For every legal file path and configuration, the file that create generates compiles and passes the default lint group with the package implied by the path.",
 ["inputs","configurations"],"every path and configuration","Tests use a handful of paths.",["internal/create"],[("template","internal/create/handler.go")])
na("N05","Configuration parsing is strict and order independent",
 "Every unknown key or contradictory value in a configuration file is rejected with an error, and equivalent YAML and JSON configurations have the same effect.",
 ["inputs","configurations"],"every configuration file","Tests parse a few examples.",["internal/settings"],[("strict unmarshalling","internal/settings/config_provider.go")])

# what the statements do not promise, found out while building the checks
LIMITS={
"C26":"Failures of break check that belong to no file are printed as their message alone unless --json is given.",
"C01":"Outside this: a cache that is deleted while it is being installed, damage to the well-known types of a finished install from outside prototool, archives whose directory (which no checksum covers) was altered, the version behind a --protoc-url (which prototool cannot know), and loss of unsynced data in a power failure.",
"C02":"A process that meets faults may fail, but the others are not affected. Outside this: deleting the cache while commands use it.",
"C03":"The time counts from the first attempt to get the lock; a download may itself take any time. Only commands that need the same install wait for each other.",
"C04":"A temporary directory next to the install, named like it, counts as part of it. If the default cache path is itself a symbolic link, the link is removed and not what it points to.",
"C05":"Failures in files that the configuration excludes may keep the path that protoc gives them. Lines that protoc prints only as a consequence of another reported error (an import that 'was not found or had errors', say) may be left out, and so are failures in other files when the argument is a single file; a protoc run that fails without printing anything makes the command fail too.",
"C06":"",
"C07":"What cannot be removed because removing it fails may stay.",
"C09":"Time stamps in diff headers and the random names of temporary files are not part of the output.",
"C10":"The directory of the configuration may be reached through a symbolic link; links to directories below it are not followed. The timeout is checked between the entries of the walk; the file operations for the entry being visited may still complete.",
"C11":"A response message prints as its JSON form, one without any field set prints nothing. Without input, a unary or server streaming call sends one empty message; with several inputs it fails before calling. Once the server has ended the call, inputs not yet sent need not be sent. With --tls, the call is made only over a connection to a server whose certificate --cacert vouches for under the expected name (unless --insecure), with the client certificate if one is given; otherwise it fails and nothing is sent.",
"C12":"The call timeout also covers waiting for standard input. An error of the network, or a server that ends the call, may of course end it earlier.",
"C14":"What counts as a breaking change is decided by the configuration of the current tree alone, and what does not differ, was only added or moved to another file of the package, or was extended compatibly is not reported when the whole tree is compared. A descriptor set that was cut exactly between two of its records is valid and is compared as it is.",
"C15":"At most one winner is promised on file systems with hard links.",
"C16":"Cleaning up temporary files is outside this.",
"C17":"A protoc run that fails without any report of its own may be reported instead of other failures.",
"C24":"Outside this: cache delete and cache update with the user's own protoc, paths to protoc in dry runs and logs, and a cache inside the tree of the project, whose well-known types are then part of the project.",
"C25":"Where protoc fails without saying why, only that is printed. What all generates may depend on the layout of the imported files, which only the command on the whole formats. A protoc failure anywhere keeps lint and all from reporting lint failures, and failures of files that a file of the directory imports are reported as well.",
"C23":"create and config init, which refuse to replace what an earlier run has written, and grpc are outside this. Temporary files of killed processes may stay.",
"C20":"Outside this: format -w and all with formatting, create and cache delete, which change what the others read, and two commands that write the same output file with different contents.",
"C22":"If there is a prototool.yaml below the working directory's parents that governs the argument, it is found from the argument and not from the working directory. A failure in a file that the configuration excludes may keep the name protoc gives it; lint --generate-ignores prints paths relative to the configuration.",
"C19":"Files for which removal failed are excepted like those of a killed process.",
}
for x in P:
    if LIMITS.get(x["id"]): x["statement"]+=" "+LIMITS[x["id"]]
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
