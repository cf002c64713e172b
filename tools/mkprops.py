#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the properties)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Files on disk are always a complete old or a complete new version",
 "Whenever baron replaces a file it generates (the service tree, the .pb.baron.go transport file, the .pb.go files), a process kill, a power loss, a full disk or a failing write at any instant of the run leaves that file on disk either with exactly its complete previous content or with exactly the complete content the run was writing; it is never truncated, torn, empty or missing. This includes the files the user edits (service.go, wrapper.go, endpoints.go, interrupt.go, main.go).",
 ["crash_points", "fault_sequences", "histories"],
 "every kill point and power-loss point (unsynced data lost or torn), every I/O error, short write or ENOSPC at every file operation of a run, after any history of runs and user edits",
 "The tests never let a write fail and never stop the process in the middle; WriteGenFile has no test for a partial write.",
 ["gengokit/generator/gen.go", "cmd/baron/main.go"],
 [("WriteGenFile", "gengokit/generator/gen.go"), ("write loop of main", "cmd/baron/main.go")],
 ["content of every generated file after a crash, after power loss and after a failed run"])

prop("C02", "User code is never replaced by stubs because it could not be read",
 "If any step of finding, listing, opening or reading the previously generated service fails, the run exits non-zero and every file the user had in the service directory keeps its exact content: existing user code is never treated as absent and overwritten with freshly rendered stubs.",
 ["fault_sequences", "histories"],
 "every stat, readdir, open, read and close failure (EIO, EACCES, EMFILE, ...) during discovery of the previous generation, at any point of any history",
 "The tests hand previous files over as in-memory readers that never fail; no test exercises directory walking at all.",
 ["cmd/baron/main.go", "gengokit/generator/gen.go", "gengokit/service/services.go"],
 [("readPreviousGeneration", "cmd/baron/main.go"), ("fileExists", "cmd/baron/main.go"), ("NewService / prev readers", "gengokit/service/*.go")],
 ["exit status and content of user files after a run with failing reads"])

prop("C03", "Regeneration preserves the user's logic over any history",
 "Over any history of definition changes, user edits and baron runs (including failed and interrupted runs), every successful run leaves in service.go the bodies and comments of all handler methods that are still rpcs of the definition, the NewService constructor, every unexported function, every type, constant, variable and import declaration the user wrote, unchanged; and it leaves every other user-editable file of the service (service/wrapper.go, server/endpoints.go, server/interrupt.go, server/wrapper.go, cmd/*/main.go) with the same Go code and comments as before the run.",
 ["histories", "crash_points", "fault_sequences"],
 "all histories mixing adding, removing, renaming and retyping rpcs, user edits to any editable file, flag changes, normal runs, failed runs and crashes",
 "Tests run at most one or two regenerations from fixed sources in memory; they never chain histories or mix them with crashes.",
 ["gengokit/service/services.go", "gengokit/generator/gen.go", "gengokit/service/server_endpoints.go", "gengokit/service/server_interrupt.go", "gengokit/service/service_wrapper.go", "gengokit/service/server_wrapper.go", "gengokit/service/cmd_server.go", "gengokit/service/cmd_client.go", "cmd/baron/main.go"],
 [("pruneDecls / updateParams / updateResults", "gengokit/service/services.go"), ("previous-file passthrough", "gengokit/service/server_*.go")],
 ["service tree after each step of the history, against a reference model of the user's code"])

prop("C04", "After a successful run the service implements exactly the definition",
 "After every successful run, service.go declares on the service type exactly one exported handler for each unary rpc of the current definition with that rpc's request and response message types, no exported method for anything that is no longer an rpc, and the whole set of generated files (server, endpoints, interrupt, wrappers, commands, transport file, and the client command exactly when requested) is present and is valid Go.",
 ["histories", "configurations"],
 "all histories of definition changes, user edits and runs, under every flag combination",
 "Tests check single definitions and single regenerations; which rpcs exist depends on the history.",
 ["gengokit/service/services.go", "gengokit/generator/gen.go", "svcdef/svcdef.go", "cmd/baron/main.go"],
 [("pruneDecls, Render", "gengokit/service/services.go"), ("GenerateGokit", "gengokit/generator/gen.go")],
 ["the set of handler methods and files after each successful run"])

prop("C05", "Runs converge: rerunning is a fixpoint, also after a crash",
 "Running baron again on an unchanged tree changes nothing, and after a run was killed, lost power or failed at any point, the next undisturbed run succeeds and leaves exactly the tree that one undisturbed run would have left (apart from stray temporary files left behind by a killed process, which never affect later runs).",
 ["crash_points", "histories", "fault_sequences"],
 "every kill, power-loss and failure point of a run in every history, followed by an undisturbed run",
 "No test runs the generator twice over a directory, let alone after a partial run.",
 ["cmd/baron/main.go", "gengokit/generator/gen.go", "gengokit/service/services.go"],
 [("WriteGenFile", "gengokit/generator/gen.go"), ("readPreviousGeneration", "cmd/baron/main.go"), ("Render", "gengokit/service/services.go")],
 ["service tree after crash + rerun versus one clean run"])

prop("C06", "Output is a deterministic function of the inputs",
 "For the same definition files, the same existing service tree and the same flags, every run writes byte-identical files, whatever the iteration order of maps, the order of directory listings, the names of temporary files, the sizes of individual reads, the clock or the environment of the process.",
 ["schedules", "configurations"],
 "all map iteration orders, directory orders, temp names, read chunkings and clock values",
 "Go randomises map order per run; a test run sees one order per execution and compares no two runs.",
 ["gengokit/service/services.go", "svcdef/svcdef.go", "svcdef/consolidate_http.go", "gengokit/generator/gen.go", "cmd/baron/main.go"],
 [("ordered rendering of new handlers", "gengokit/service/services.go"), ("order of definition files", "svcdef/svcdef.go, svcdef/consolidate_http.go")],
 ["byte comparison of the trees of several runs of one scenario"])

prop("C07", "Success is never reported for a run that did not do its work",
 "If baron exits 0, every file it was asked to produce is on disk with exactly the content a fault-free run produces from the same inputs; a failure of any operation the result depends on (reading definitions, temporary directories, the protocol compiler, package lookup, reading or writing files) makes it exit non-zero with a message on standard error, and never end in a panic; and a run on sound inputs (a definition protoc accepts, with unary rpcs, and a service.go that is Go) in which nothing fails exits 0.",
 ["fault_sequences", "histories"],
 "every single and multiple failure of any file-system operation, external command and package lookup at any point of a run",
 "Tests have no fault injection: none of the error paths of the command is executed.",
 ["cmd/baron/main.go", "internal/parsesvcname/parsesvcname.go", "internal/execprotoc/execprotoc.go", "gengokit/generator/gen.go", "svcdef/svcdef.go", "svcdef/consolidate_http.go", "svcdef/svcparse/scanner.go", "pkg/file.go"],
 [("error propagation to main", "cmd/baron/main.go"), ("parseInput", "cmd/baron/main.go"), ("FromPaths", "internal/parsesvcname/parsesvcname.go")],
 ["exit status, standard error and tree of runs with injected failures"])

prop("C08", "A run only touches its own outputs and leaves nothing behind",
 "At no point of a run, however it is disturbed, does baron create, modify, rename or delete anything except its own output files (the .pb.go/_grpc.pb.go/.pb.baron.go files beside the definition, the generated files of the service tree, the documented stale directories of older versions) and its own temporary files; definition files and every other user file stay untouched. A run that was not killed, successful or failed, leaves no temporary file or directory behind when its removals succeed, and an undisturbed successful run has removed those stale directories.",
 ["fault_sequences", "crash_points", "histories"],
 "every operation of every run, under every fault and crash point, with arbitrary extra user files in the tree",
 "No test watches the file system; error exits and their cleanup are never executed.",
 ["cmd/baron/main.go", "internal/parsesvcname/parsesvcname.go", "internal/execprotoc/execprotoc.go", "gengokit/generator/gen.go", "svcdef/newfromstring.go"],
 [("cleanupOldFiles", "cmd/baron/main.go"), ("deferred removal of temp dirs", "internal/parsesvcname/parsesvcname.go, svcdef/newfromstring.go")],
 ["every mutating file-system operation; the tree after each run"])

prop("C09", "--start never destroys an existing file and never leaves a broken one",
 "'baron --start' never changes or truncates a file that already exists, whatever else happens at the same time, including a second '--start' or an editor creating the same file and failing file-system operations; it exits 0 only if the complete starter definition is on disk under the announced name, and when it fails it leaves no partial file that would make a retry refuse to run.",
 ["schedules", "fault_sequences", "crash_points"],
 "all interleavings of several --start processes and other writers, with any file-system failure at any operation",
 "start.Do itself has no test; its check-then-create sequence only fails under races or failing system calls.",
 ["internal/start/start.go"],
 [("Do", "internal/start/start.go")],
 ["exit codes of all processes and the file content afterwards"])

prop("C10", "Concurrent runs never lose or corrupt user code nor disturb each other",
 "When several baron processes run at the same time on the same service with the same definition, in any interleaving, every user-editable file at every instant holds a complete version with the user's code, and once all runs have ended with at least one success the service tree and the generated files beside the definition equal those a single run leaves; without failures at least one run does succeed. Runs on services in different directories do not affect each other at all: each ends with the exit code and the files of a run that is alone, whatever happens to the others.",
 ["schedules", "crash_points"],
 "all interleavings, at file-operation granularity, of two or three runs on one tree and runs in another module whose files have the same names, with any of them killed or failing at any point",
 "Tests are single-process and sequential.",
 ["cmd/baron/main.go", "gengokit/generator/gen.go", "internal/parsesvcname/parsesvcname.go"],
 [("WriteGenFile", "gengokit/generator/gen.go"), ("readPreviousGeneration", "cmd/baron/main.go"), ("private temp directories", "internal/parsesvcname/parsesvcname.go")],
 ["user-editable files after every file operation; final tree; exit codes"])

prop("C11", "The result of reading a definition does not depend on how it arrives",
 "Parsing a definition, deriving the service description from generated Go and .proto streams, and merging a previous service file give the same result for every way the same bytes are delivered: any split into short reads, empty reads, and data delivered together with end-of-file.",
 ["schedules", "inputs"],
 "all partitions of a stream into read results, including 0-byte reads and (n, EOF) returns",
 "Tests feed strings.Reader only, which always delivers everything at once.",
 ["svcdef/svcdef.go", "svcdef/consolidate_http.go", "svcdef/svcparse/scanner.go", "gengokit/service/services.go"],
 [("NewRuneReader", "svcdef/svcparse/scanner.go"), ("New", "svcdef/svcdef.go"), ("NewService", "gengokit/service/services.go")],
 ["structured results and rendered files under different deliveries"])

prop("C12", "A failing stream is an error, never a silently shortened definition",
 "If reading any definition, generated Go or previous-service stream fails part way (an error other than end-of-file), the library call that consumes it returns an error; it never returns a service description, HTTP binding set or rendered file computed from only the part that had arrived.",
 ["fault_sequences", "inputs"],
 "a read failure at every byte position of every stream",
 "Tests never use a reader that fails.",
 ["svcdef/svcparse/scanner.go", "svcdef/svcparse/lexer.go", "svcdef/svcparse/parser.go", "svcdef/consolidate_http.go", "svcdef/svcdef.go", "gengokit/service/services.go", "gengokit/service/server_endpoints.go", "internal/parsesvcname/parsesvcname.go"],
 [("NewRuneReader", "svcdef/svcparse/scanner.go"), ("isEOF handling", "svcdef/consolidate_http.go"), ("previous-file Render methods", "gengokit/service/*.go")],
 ["return values of the library calls under failing readers"])

prop("C13", "Calls into the library do not influence each other",
 "Parsing or generating for one definition gives the same result whatever was parsed or generated before in the same process (including parses that were aborted by malformed, truncated or failing input) and whatever other callers are parsing or generating at the same time.",
 ["histories", "schedules"],
 "all sequences of earlier calls and all interleavings with concurrent calls",
 "Each test calls the parser once per input, in one goroutine, and package-level state only matters across calls.",
 ["svcdef/svcparse/scanner.go", "svcdef/svcparse/lexer.go", "svcdef/svcparse/parser.go", "svcdef/svcdef.go", "gengokit/generator/gen.go"],
 [("scanner state", "svcdef/svcparse/scanner.go"), ("oneof table", "svcdef/svcdef.go")],
 ["result of a probe call alone versus after/among other calls"],
 [("withinBody, withinDef, braceLev", "scanner position inside a definition", "svcdef/svcparse/scanner.go"), ("oneofs", "oneof members by interface name", "svcdef/svcdef.go")])

prop("C14", "Interrupted or damaged definition streams never hang or crash the parser",
 "For a definition stream cut off or damaged at any point, the service parser ends after a number of steps proportional to its length, and ends by returning a service or an error: it never panics and never loops.",
 ["inputs", "fault_sequences"],
 "every cut position and random damage (dropped, duplicated, flipped, zeroed bytes and blocks) of any definition",
 "Tests parse complete, well-formed sources.",
 ["svcdef/svcparse/scanner.go", "svcdef/svcparse/lexer.go", "svcdef/svcparse/parser.go"],
 [("ReadRune/UnreadRune/ReadUnit", "svcdef/svcparse/scanner.go"), ("GetToken", "svcdef/svcparse/lexer.go"), ("ParseService", "svcdef/svcparse/parser.go")],
 ["return or panic, and step count of the parser"])

prop("C15", "Generated HTTP client and server carry calls faithfully over any network",
 "For every HTTP-annotated rpc, a call made with the generated HTTP client and served by the generated HTTP handler delivers to the service implementation exactly the request the caller passed (path parameters being non-empty values without a slash that are not dot segments, verbs being those that have a response body), and returns to the caller exactly the response the implementation returned; when the network refuses, delays, cuts, resets, stalls or replays connections and servers are killed and restarted, the caller gets either that exact response or an error, no handler runs more often than it was asked to, and concurrent calls never see each other's data: messages given to a handler or a caller are theirs to keep, and the messages they pass are not modified.",
 ["schedules", "fault_sequences", "inputs"],
 "all interleavings of concurrent calls, all cuts, resets, losses and duplications of requests and responses",
 "The tests of the generated HTTP code only compare snippets of source text; nothing is ever sent.",
 ["gengokit/httptransport/httptransport.go", "gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl", "gengokit/template/template.go", "svcdef/svcdef.go", "svcdef/consolidate_http.go"],
 [("createDecodeConvertFunc, PathSections, GenQueryUnmarshaler", "gengokit/httptransport/httptransport.go"), ("DecodeHTTP*Request / EncodeHTTP*Request / NewHTTPClient / MakeHTTPHandler", "gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl")],
 ["requests seen by the implementation, results seen by callers"])

prop("C16", "Generated gRPC and NATS transports carry calls faithfully",
 "For every rpc, a call made with the generated gRPC or NATS client and served by the generated gRPC server or NATS subscribers reaches exactly the method of that name, at most once per delivery, with exactly the caller's request, and yields to the caller exactly that call's response or an error, under any interleaving of concurrent calls and any loss, duplication, delay and reordering of messages, broken connections and server crashes, also with other services on the same NATS broker; without such faults it succeeds. Messages given to a handler or a caller are theirs to keep, and the messages they pass are not modified.",
 ["schedules", "fault_sequences"],
 "all interleavings and message fault sequences over several concurrent callers and methods",
 "No test runs a generated transport.",
 ["gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl", "gengokit/template/template.go", "gengokit/generator/gen.go", "gengokit/gengokit.go", "svcdef/svcdef.go"],
 [("MakeGRPCServer/NewGRPCClient/ServeNATS/NewNATSClient", "gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl"), ("setGRPCNames", "svcdef/svcdef.go")],
 ["requests seen by the implementation, results seen by callers"])

prop("C17", "A failing handler is never reported to the caller as success",
 "If the service implementation returns an error (of any kind, with any status code or headers), or the request or response cannot be decoded, the caller of the generated HTTP, gRPC or NATS client receives an error, never a nil error with a (possibly empty) response.",
 ["fault_sequences", "schedules"],
 "every handler error, encode/decode failure and transport failure on every transport",
 "No test runs a generated transport with a failing implementation.",
 ["gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl", "gengokit/template/template.go", "gengokit/httptransport/httptransport.go"],
 [("errorEncoder, errorDecoder, natsErrorEncoder, Decode*Response", "gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl")],
 ["error value returned by the generated clients"])

prop("C18", "The generated server stops when a transport fails or a signal arrives",
 "The generated server's run function keeps serving while all transports work, returns as soon as any transport's listener fails, its NATS connection is closed for good (reconnecting given up or the authorization revoked) or the process receives an interrupt or termination signal, in whatever order such events arrive, and reports the cause; it never keeps running with a dead transport.",
 ["schedules", "fault_sequences"],
 "all orders and combinations of listener failures and signals, including several at once and failures during start-up",
 "The generated server is never executed by the tests.",
 ["gengokit/template/NAME-service/server/server.go.tmpl", "gengokit/template/NAME-service/server/interrupt.go.tmpl", "gengokit/template/template.go"],
 [("Run", "gengokit/template/NAME-service/server/server.go.tmpl"), ("InterruptHandler", "gengokit/template/NAME-service/server/interrupt.go.tmpl")],
 ["return of the run function under simulated listeners and signals"])

prop("C19", "Every endpoint is wrapped exactly once by every middleware",
 "Wrapping the generated endpoint set applies each middleware exactly once to every endpoint that is not explicitly excluded, and labelled middlewares receive the name of the endpoint they wrap, whatever the iteration order of the exclusion set (of distinct names) and the method order in the definition; the wrapped endpoint is the one that every transport calls.",
 ["schedules", "inputs"],
 "all map iteration orders, exclusion sets and orders of wrapping calls",
 "No test executes the generated endpoint set.",
 ["gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl", "gengokit/template/template.go"],
 [("WrapAllExcept / WrapAllLabeledExcept", "gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl")],
 ["middleware call traces"])

prop("C20", "HTTP bindings are assigned to path, query and body as annotated",
 "For every definition, the generated HTTP server takes each field of an HTTP-annotated rpc's request from the path when the path names it, from the body when the body selects it, and from the query string otherwise, for every binding of the rpc, at exactly the verb and path of the annotation; values for the field in another place do not matter, and verbs that are not annotated are not served.",
 ["inputs", "schedules"], "all definitions and annotations, and concurrent requests for them",
 "Tests cover a handful of fixed definitions, and only the derived description.",
 ["svcdef/consolidate_http.go", "svcdef/svcparse/parser.go", "gengokit/httptransport/httptransport.go", "gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl"],
 [("paramLocation, getVerb", "svcdef/consolidate_http.go"), ("NewBinding", "gengokit/httptransport/httptransport.go")], ["requests seen by the implementation for hand-made HTTP requests"])

prop("C21", "Names are mapped to Go identifiers as protoc-gen-go does",
 "For every definition name, the Go identifier baron derives for a service, rpc, message or field equals the identifier the protocol compiler's Go plugin generates for it.",
 ["inputs"], "all identifiers",
 "Tests cover a few examples.",
 ["pkg/strs.go", "svcdef/consolidate_http.go"],
 [("GoCamelCase", "pkg/strs.go")], ["derived identifiers"])

prop("C22", "Generated code compiles for every supported definition",
 "For every definition inside the documented feature set, the generated service, together with the compiler's Go output and the go-kit libraries, compiles.",
 ["programs"], "all definitions inside the documented feature set",
 "Tests compile nothing.",
 ["gengokit/template/template.go", "gengokit/httptransport/httptransport.go", "gengokit/generator/gen.go"],
 [("templates", "gengokit/template/template.go")], ["go build of generated trees"])

prop("C23", "Context values travel with their own call only",
 "The values of the context keys a generated HTTP or gRPC client was told to send arrive in the context of the handler that serves this very call, under the canonical and the lower-case form of the key, and in no other call's context, under any interleaving of concurrent calls by several clients and any network faults.",
 ["schedules", "fault_sequences", "inputs"],
 "all interleavings of concurrent calls with different values, keys and clients",
 "No test runs a generated transport.",
 ["gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl", "gengokit/template/template.go"],
 [("CtxValuesToSend, HTTPHeadersToContext, ContextValuesToGRPCMetadata, GRPCMetadataToContext", "gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl")],
 ["contexts seen by the implementation"])

prop("C24", "The generated server command serves exactly what it is told to",
 "For every combination of command-line flags and environment variables, the generated server command serves each transport the service has at exactly the address configured for it and no transport without one (flags over environment variables, of these HTTP_ADDR over PORT, over the defaults), listens for debugging only in debug mode, connects to the configured NATS server only, and fails without serving anything if a flag is unknown or malformed; the same after every restart, whatever clients, the network and the scheduler do meanwhile.",
 ["inputs", "schedules", "fault_sequences"],
 "all combinations of flags and environment variables, and all schedules and crash points of the server",
 "No test runs a generated command.",
 ["gengokit/template/NAME-service/cmd/NAME/main.go.tmpl", "gengokit/template/NAME-service/server/server.go.tmpl", "gengokit/template/template.go"],
 [("init, main", "gengokit/template/NAME-service/cmd/NAME/main.go.tmpl"), ("Run", "gengokit/template/NAME-service/server/server.go.tmpl")],
 ["addresses listened on, NATS servers connected to, calls answered there, exit status"])

prop("C25", "The generated client command calls everything once and reports failures",
 "The generated client command calls every rpc once over every transport of the service (over HTTP those with bindings), in the order of the definition, at the addresses its flags give, stops at the first call that fails and then exits with a non-zero status, and exits with 0 only if every call was answered, whatever handlers, the network and the scheduler do.",
 ["fault_sequences", "schedules", "inputs"],
 "failures at every call and transport, all definitions and schedules",
 "No test runs a generated command.",
 ["gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl", "gengokit/template/template.go"],
 [("main", "gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl")],
 ["handlers invoked, in order; exit status of the command"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
