G="/repo/"
p("P01","Source overrides are authoritative for reads",
 "When the payload carries source overrides, reading a path that has an override yields exactly the override's text, and asking whether such a path exists says yes, whatever the underlying file system holds. For every path without an override, reads and existence queries give exactly what the underlying file system gives.",
 ["inputs","configurations"],"every set of overrides, every underlying file system, every path (including empty overrides, empty paths, paths the disk also has)",
 "tests try two or three paths and contents; the guarantee is about all paths, all contents and all underlying file systems",
 ["cmd/tsgolint/overlayfs.go"],[("override lookup before delegation","cmd/tsgolint/overlayfs.go: ReadFile, FileExists, newOverlayFS")],
 "All obligations over the real overlay code are discharged for an arbitrary underlying file system (any implementation of the interface). Directory queries and writes are outside the statement.")
p("P02","Every output message is one well-formed length-prefixed frame",
 "Each message written to the consumer is exactly one frame: a 4-byte little-endian payload length, one message-type byte, then the JSON payload of that length, with nothing in between. If a payload cannot be represented as JSON nothing at all is written; a payload whose text merely is not valid UTF-8 is still delivered.",
 ["inputs"],"every message type, every payload (shorter than 4 GiB) and every writer",
 "the header arithmetic has to be right for every payload length and a partial frame desynchronises everything that follows; unit tests look at a few short payloads",
 ["cmd/tsgolint/headless.go"],[("frame writer","cmd/tsgolint/headless.go: writeMessage")],
 "Proved over a ghost output stream. Assumed: the JSON library's contract (a payload has one JSON form, or none, or needs lenient UTF-8), and writers that accept what they are given.")
p("P07","Configuration payloads of both versions mean what they say",
 "A version 2 payload is taken over unchanged (files, rules, options, overrides, type-error switches) and an unversioned payload becomes one configuration per listed file with that file's rules, in order and without options. Undecodable text, an unversioned payload without files, and every other version number are rejected with an error, and nothing else is.",
 ["inputs"],"every byte string given as the payload, every version number, any number of files and rules",
 "the conversion must hold for every number of files and rules and every version number; tests sample a handful of payloads",
 ["cmd/tsgolint/payload.go"],[("version dispatch and conversion","cmd/tsgolint/payload.go: deserializePayload, getPayloadVersion"),("wire names","cmd/tsgolint/payload.go: struct tags")],
 "Proved with loop invariants for any number of files and rules. Assumed: the JSON library fills each declared member from the member of that name or reports an error.")
p("P05","Every reported diagnostic reaches standard output, once and in order",
 "Whatever the linter reports through its two callbacks is written to standard output exactly once, in the order in which it was reported, before any error or timing frame, and all of it is flushed before the run ends; nothing follows an error or timing frame. This holds for any number of diagnostics and also when the linter fails.",
 ["schedules","inputs"],"every number and mix of reported diagnostics, every outcome of every stage of the run, every buffer fill level",
 "lost tails and reordered frames depend on buffer sizes, on when the consumer runs and on failures part way; tests run a few small successful inputs",
 ["cmd/tsgolint/headless.go"],[("channel, consumer and join","cmd/tsgolint/headless.go: runHeadless, ruleToAny, internalToAny"),("buffered writer and flushes","cmd/tsgolint/headless.go: runHeadless"),("frame writer","cmd/tsgolint/headless.go: writeMessage (contract of P02)")],
 "Proved with loop invariants over a ghost record of reports, frames, buffer and errors. The consumer goroutine is verified at its join: the channel is treated as an unbounded FIFO, so blocking on a full channel and interleavings with the producer are not explored (the consumer shares nothing else with it). Assumed: the linter reports only through the callbacks and returns after the last report; writeMessage emits one frame.")
p("P06","Exit status and error frame tell truthfully whether the run succeeded",
 "Status 0 means every stage succeeded (reading the payload, decoding it, the working directory, and the linter run itself); if any of these failed the status is 1 and standard output carries exactly one error frame. A run in which nothing failed carries no error frame.",
 ["inputs","histories"],"every combination of stage failures, every number of diagnostics before the failure, every option combination",
 "failure paths of whole runs are barely exercised by tests, and a swallowed failure looks like a clean project",
 ["cmd/tsgolint/headless.go"],[("stage error handling","cmd/tsgolint/headless.go: runHeadless, writeErrorMessage")],
 "Proved for every outcome of every stage; panics and process-level failures (closed pipes) are outside.")
p("P12","Listener keys of different events never coincide",
 "For every syntax kind, the six listener keys (enter, exit, pattern enter and exit, non-pattern enter and exit) are distinct from each other and from all six keys of every other kind, and none of the five derived keys is itself a syntax kind. So a rule is only ever called for the event it registered for.",
 ["inputs"],"every pair of syntax kinds and every pair of key variants",
 "a collision shows only when two particular kinds are registered for two particular events; tests register a handful",
 ["internal/rule/rule.go"],[("key construction","internal/rule/rule.go: ListenerOnExit, ListenerOnAllowPattern, ListenerOnNotAllowPattern")],
 "Proved for all kinds known to the compiler at this revision (KindCount).")
p("P14","Fixes and suggestions are computed and attached only when asked for",
 "A report made with a fix callback runs the callback once and attaches exactly its result if fixes were asked for, and otherwise neither runs it nor attaches any fix; the same holds for suggestion callbacks and the suggestion switch, independently. Reports made without such a callback carry exactly the fixes and suggestions they were given. Each report reaches the diagnostic callback exactly once.",
 ["inputs","configurations"],"every reporting function, every combination of the two switches, every diagnostic, every list of fixes and suggestions",
 "eight reporting functions times four switch settings times prebuilt contents; tests exercise a few and mostly with both switches on",
 ["internal/linter/linter.go","internal/rule/rule.go"],[("reporting functions","internal/linter/linter.go: ruleContextBuilder methods, newRuleContext"),("accessors","internal/rule/rule.go: Fixes, GetSuggestions")],
 "Proved for the eight reporting functions as handed to rules.")
p("P18","Configuration problems are reported completely and never linted over",
 "Building a program from a tsconfig fails with an error when the file does not exist or no program can be made. If the compiler reports problems while reading the configuration, or (unless suppressed) configuration errors or option errors, then no program is returned, the call does not fail, and every one of these problems is returned exactly once, in order, with the compiler's position, its message, and the file it is in (the tsconfig itself if it names none). Otherwise the bound program is returned without diagnostics.",
 ["inputs","configurations"],"every configuration, every number and mix of problems at every stage, with and without suppression",
 "each stage has its own conversion loop; tests have no configuration with several problems in several files",
 ["internal/utils/create_program.go"],[("stages and conversion","internal/utils/create_program.go: CreateProgram")],
 "Proved with loop invariants for any number of problems. Assumed: the compiler's own entry points (parsing a configuration, building a program) as described by their results.")
p("P19","Fix helpers edit exactly the text they name",
 "Insert-before places the text at the node's first character after leading trivia and insert-after at the node's end, both replacing nothing; replace and remove cover the node from its first character to its end, or exactly the range given, with exactly the text given (none for remove). Reporting with fixes-or-suggestions reports exactly once, for the node given, as a fix with the first message if so asked and otherwise as one suggestion with the second message, with exactly the fixes given.",
 ["inputs"],"every node, range, text and list of fixes",
 "an off-by-one in a helper corrupts source text only for nodes with particular trivia; rule tests see a few layouts",
 ["internal/rule/rule.go"],[("fix constructors","internal/rule/rule.go: RuleFix*"),("fix or suggestion","internal/rule/rule.go: ReportNodeWithFixesOrSuggestions"),("trimmed ranges","internal/utils/utils.go: TrimNodeTextRange")],
 "Proved; the scanner's token position is an uninterpreted function of file and position.")

p("P03","Rule diagnostics arrive with exactly their content",
 "Every diagnostic a rule reports is sent as one message of kind rule with the rule's name, the message (id, description, help), the file's path, the range, every label in order with its range, and, exactly when asked for, every fix and every suggestion in order with texts and ranges; nothing is sent that was not asked for. The member names on the wire are the documented ones.",
 ["inputs","configurations"],"every diagnostic with any number of labels, fixes and suggestions, every combination of the two switches, every number of diagnostics",
 "a dropped field, an element overwritten by a later one or a swapped range end shows only for diagnostics that carry that part; tests look at a few diagnostics with at most one fix",
 ["cmd/tsgolint/headless.go"],[("conversion","cmd/tsgolint/headless.go: runHeadless (consumer), headlessRangeFromRange, headlessRuleMessageFromRuleMessage, headlessFixesFromRuleFixes"),("wire names","cmd/tsgolint/headless.go: struct tags")],
 "Proved with loop invariants over the consumer inside runHeadless: kind, name, message, path, range, and the numbers of labels, fixes and suggestions; the conversion of a list of edits is proved for the function that does it. That every converted label, edit and suggestion still stands when the frame is written is a bounded check (random diagnostics against the real code), labelled as such. Assumed: labels and edits have valid ranges.")
p("P04","Problems found by the linter itself arrive with exactly their content",
 "Every internal diagnostic (a tsconfig problem or a type error) is sent as one message of kind tsconfig with its id, description, help, its file path exactly if it has one, its range exactly if it has one, and without rule, labels, fixes or suggestions.",
 ["inputs"],"every internal diagnostic, every mix with rule diagnostics",
 "tests see tsconfig problems without a range or a file only incidentally",
 ["cmd/tsgolint/headless.go"],[("conversion","cmd/tsgolint/headless.go: runHeadless (consumer), headlessRangeFromRange")],
 "Proved over the consumer inside runHeadless, for every history of reports.")
p("P17","Type errors are reported exactly as asked for",
 "With syntactic reporting on, every syntactic error the compiler reports in a file to be linted is reported, file by file and in the compiler's order; with semantic reporting on, so is every semantic or include error that compiling without output would show for the file, sorted and without duplicates. Each carries the compiler's range, its code as the id and its message, and names its file; errors the compiler locates in other files are left out. With a switch off nothing of that kind is reported.",
 ["inputs","configurations"],"every number of files, every number and mix of errors per file, every setting of the two switches",
 "loss, duplication or misattribution shows with several files, several errors per file or both kinds in one file; tests have a single file with a single error",
 ["internal/linter/linter.go"],[("type errors","internal/linter/linter.go: reportTypeScriptDiagnostics")],
 "Proved with nested loop invariants over a ghost history of reports. Assumed: what the compiler's diagnostic queries return, and that sorting and removing duplicates leaves lists of at most one error alone.")
p("P25","Slice and set helpers compute what their names say for every input",
 "Filter and FilterIndex keep exactly the elements that satisfy the predicate, in order; Map transforms every element in order; Some and Every quantify over all elements; TryMap gives all transformed elements, or the error of the first element that fails and nothing else; Flatten concatenates in order; a set contains exactly what was added and not removed since, and its size and keys agree. None of them changes its argument (other than the set operated on).",
 ["inputs"],"every slice, every predicate or function, every set",
 "Filter and FilterIndex avoid copying until the first element is dropped, so positions before and after it take different code; tests sample a few lists",
 ["internal/utils/utils.go","internal/utils/set.go"],[("helpers","internal/utils/utils.go: Filter, FilterIndex, Map, Some, Every, Flatten; TryMap"),("sets","internal/utils/set.go: Set")],
 "Proved with loop invariants for the instances at int (and string results); the code is generic and does not depend on the element type beyond equality of set members. Functions passed in are assumed to be pure.")
p("P15","Rule timings add up over all workers and are listed completely",
 "What each worker measured is added to the store rule by rule and atomically: for every rule the store then holds the sum of what it held and what was added, in duration and number of calls, and nothing else changes, whatever other workers add in between. The list of timings has exactly one entry for each rule in the store, with its sums, ordered by duration, longest first, and then by name.",
 ["inputs","schedules"],"every set of measurements, every content of the store, every interleaving of workers at the store's lock",
 "lost updates need two workers to finish at the same moment with the same rule; tests run one worker",
 ["internal/linter/timing.go"],[("adding up under the lock","internal/linter/timing.go: merge, add"),("listing","internal/linter/timing.go: Collect, NewRuleTimingStore")],
 "Proved with the lock as a monitor: what the store holds is arbitrary when the lock is taken and again once it is released, so every interleaving of lock holders is covered. Assumed: sort.Slice rearranges by the comparison it is given (the comparison is proved), and the store is only touched under its lock (it is, in the functions verified). Sums are mathematical.")
p("P13","Every report is credited to the rule and the file it is about",
 "Every report a rule makes through its context is delivered exactly once, with the range, message, labels, fixes and suggestions given, under the name of the rule it was made by and for the file being linted. For every file, every rule configured for it is set up once with that file, and a listener is only ever called for the file it was made for, whatever rules and files the worker handled before.",
 ["inputs","configurations","histories"],"every list of files, every list of rules per file, every sequence of reports by arbitrary rules and listeners",
 "stale state carried over from an earlier file or rule shows only with several files with different rules on one worker; tests lint single files with single rules",
 ["internal/linter/linter.go"],[("contexts and listener registration","internal/linter/linter.go: RunLinterOnProgram (worker), newRuleContext"),("reporting functions","internal/linter/linter.go: ruleContextBuilder methods")],
 "Proved for the reporting functions and for the worker without timings, with rules and listeners as arbitrary functions. The branch taken with timings is a bounded check (whole runs with 1 to 6 workers), labelled as such. Assumed: each call of a rule yields a new listener table, configured rule lists do not change during the run, the traversal only calls back for nodes of the file it is given.")
na("P20","Diagnostics do not depend on the number of workers",
 "For the same inputs, the set of diagnostics delivered is the same for every number of workers and every schedule; workers do not race on shared data.",
 ["schedules"],"every number of workers, every interleaving of their steps",
 "a race or an order dependence needs particular interleavings; tests run one",
 ["internal/linter/linter.go"],[("work queue and workers","internal/linter/linter.go: RunLinterOnProgram")],
 "The contracts here are sequential: they cover each worker against arbitrary queue contents (P13) and the lock-protected store under arbitrary lock holders (P15), but not the interleaving of unprotected accesses by goroutines, and the type checkers shared by the workers are outside the verified code.")
na("P21","A run never blocks forever",
 "A run terminates for every input, whatever the consumer of standard output and the reporting side do, in particular when a channel is full or the linter fails part way.",
 ["schedules","inputs"],"every schedule of producer and consumer, every buffer fill level",
 "deadlocks need a full channel and a stopped consumer at the same moment; tests never fill it",
 ["cmd/tsgolint/headless.go"],[("channel and consumer","cmd/tsgolint/headless.go: runHeadless")],
 "Termination and blocking are liveness properties of goroutines; the contracts are partial-correctness contracts and the channel is an unbounded FIFO in them.")
na("P22","Each lint rule reports exactly what its documentation says",
 "For every program, each rule reports the constructs its documentation names and no others.",
 ["inputs"],"every TypeScript program",
 "rule tests sample a few hundred snippets per rule",
 ["internal/rules"],[("rules","internal/rules: one package per rule")],
 "The oracle is prose plus the semantics of the TypeScript type checker (an external dependency without contracts); a contract for a rule would restate its code.")
