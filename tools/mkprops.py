#!/usr/bin/env python3
# Writes properties.jsonl (source of truth for the property texts).
import json,sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Generated Go names are the names protoc-gen-go generates",
 "For every protobuf identifier, the Go identifier baron derives for it equals the identifier protoc-gen-go emits, so generated code always refers to declarations that exist; the companion naming helpers (lower-camel, JSON camel/snake case, sanitised Go identifiers, map-entry and enum-value names, enum prefix trimming) likewise agree with the protobuf toolchain's published rules for every input. Exactly the eight protobuf scalar Go types are classified as base types.",
 ["inputs"],"every identifier string (any bytes) up to the stated length",
 "No test exercises the naming functions directly; they are reached only through a few fixed lower_snake names, while the rules differ on digits, dots, leading/trailing/double underscores, capitals and non-ASCII bytes.",
 ["pkg/strs.go","pkg/types.go","gengokit/httptransport/httptransport.go"],
 [("GoCamelCase and sibling helpers","pkg/strs.go"),("LowCamelName","gengokit/httptransport/httptransport.go"),("IsGoBaseType","pkg/types.go")],
 ["return values of the naming functions"])
p("C02","A service definition is parsed exactly as written",
 "For every service definition in the supported grammar, the parsed service has exactly the declared service name, and for every rpc carrying HTTP options its name, request and response type, and every HTTP binding (verb or custom kind/path, path, body, additional bindings, fields separated by commas, semicolons or nothing, strings in single or double quotes with their escapes) exactly as written; rpcs without HTTP options contribute no method and do not disturb their neighbours, and neither do options other than google.api.http or empty statements in the service and its rpcs. Whitespace, line breaks, comments between any two tokens, streaming keywords, package qualifiers and anything outside the service never change that result.",
 ["inputs"],"every service in the grammar with symbolic identifiers, paths, separators and comments, within the stated bounds",
 "Existing parser tests check about a dozen fixed proto snippets; the claim ranges over all identifiers, literal contents, layouts and comment placements.",
 ["svcdef/svcparse/parser.go","svcdef/svcparse/lexer.go","svcdef/svcparse/scanner.go"],
 [("ParseService/ParseMethod/ParseHttpBindings/ParseBindingFields","svcdef/svcparse/parser.go"),("tokenisation","svcdef/svcparse/lexer.go")],
 ["the *svcparse.Service returned by ParseService"])
p("C03","Lexing loses nothing, and unreading replays it exactly",
 "Within a service definition the concatenated token values reproduce the input text byte for byte, every string literal, identifier, whitespace run and comment (comments with nothing between them may share a token) is one token with its exact text, and the line number reported with a token is the line on which that token ends. Ungetting tokens (singly or back to a saved position) restores position and line number so that re-reading yields the same tokens.",
 ["inputs","histories"],"every service body text over the stated alphabet up to the stated length; every sequence of get/unget operations up to the stated length",
 "Scanner and lexer tests compare a few fixed texts; comment terminators, stars inside comments, escapes and multi-step unget sequences are combinatorial.",
 ["svcdef/svcparse/scanner.go","svcdef/svcparse/lexer.go"],
 [("BuildScanUnit","svcdef/svcparse/scanner.go"),("NewTokenGroup, GetToken, UnGetToken, UnGetToPosition","svcdef/svcparse/lexer.go"),("UnreadUnit/UnReadToPosition","svcdef/svcparse/scanner.go")],
 ["tokens and line numbers returned by SvcLexer"],
 [("RunePos/LineNo","rune cursor","svcdef/svcparse/scanner.go"),("tkPos/lineNo","token cursor","svcdef/svcparse/lexer.go")])
p("C04","The proto parser survives any input",
 "Whatever bytes a .proto file contains, lexing and parsing it terminates and either yields a service or returns an error; it never panics, crashes or loops. In particular truncated, unbalanced and mid-edit service definitions (cut off at any point, or with any one character replaced, inserted or deleted) are answered this way.",
 ["inputs"],"every byte string up to the stated length, every truncation and every single-character corruption of template definitions",
 "Tests feed well-formed files only; the failing inputs are truncations and odd byte combinations in an unbounded input space.",
 ["svcdef/svcparse/scanner.go","svcdef/svcparse/lexer.go","svcdef/svcparse/parser.go"],
 [("EOF and error handling in scanner, lexer and parser","svcdef/svcparse/")],
 ["termination and outcome of NewSvcLexer + ParseService"])
p("C05","Parsing a file does not depend on what was parsed before",
 "Parsing a proto definition gives the same tokens and the same service whatever other inputs - valid, truncated, unbalanced or garbage - were scanned earlier in the same process.",
 ["histories","inputs"],"every preceding input up to the stated length followed by a fixed or symbolic definition",
 "Tests parse well-balanced inputs one after the other; the property ranges over all earlier inputs, including unbalanced ones.",
 ["svcdef/svcparse/scanner.go"],
 [("brace level and in-service tracking","svcdef/svcparse/scanner.go")],
 ["result of ParseService on the second input"],
 [("withinBody, withinDef, braceLev","scanner state","svcdef/svcparse/scanner.go")])
p("C06","The extracted service model matches the generated Go code",
 "For Go code as emitted by protoc-gen-go and protoc-gen-go-grpc, the extracted definition lists exactly its messages, enums and service methods, and for every message field its Go name, its original proto name, its element type, whether it is a pointer, a slice, a map (with key and value types) or a oneof with all its alternatives, and a link to the message or enum it refers to. Methods carry their request and response message, including types from other packages. (Streaming rpcs are not supported by baron and not part of the claim.)",
 ["inputs","programs"],"every combination of field kinds and symbolic identifiers/tags within the stated bounds",
 "The tests extract two or three fixed files and look at a few fields; field kind combinations, tag layouts (packed, repeated, wire types) and symbolic names are not enumerated.",
 ["svcdef/svcdef.go","svcdef/resolvetypes.go"],
 [("New, NewMessage, NewField, NewMap, NewService, NewServiceMethod","svcdef/svcdef.go"),("resolveTypes","svcdef/resolvetypes.go")],
 ["the *svcdef.Svcdef returned by New"])
p("C07","Every request field has exactly the HTTP location the rules give it",
 "For each HTTP binding of each method, every field of the request message appears exactly once with the verb and path of that binding: in the path if its proto name is a path parameter of that binding, otherwise in the body if body is \"*\" or names that field, otherwise in the query. The binding list follows the definition, one entry per HTTP binding, attached to the method of that name only.",
 ["inputs"],"every path template, body value and field-name combination within the stated bounds",
 "One test checks a handful of fixed bindings; the rule is a function of arbitrary path, body and field-name strings.",
 ["svcdef/consolidate_http.go","gengokit/httptransport/httptransport.go"],
 [("assembleHTTPParams, getVerb, paramLocation, getPathParams","svcdef/consolidate_http.go"),("NewMethod/NewBinding","gengokit/httptransport/httptransport.go")],
 ["ServiceMethod.Bindings and httptransport.Method.Bindings"])
p("C08","The service model does not depend on file order or earlier runs",
 "Extracting a service from the same set of Go and proto files always yields the same definition: the same oneofs, messages, methods and bindings in whatever order the files are visited, however the definition is split over several files, and whatever was extracted before in the same process (baron itself extracts twice per run).",
 ["histories","schedules","configurations"],"every iteration order of the file maps and every earlier extraction from the stated set",
 "Go randomises map order, so a test run samples one order; tests use one file and mostly one extraction.",
 ["svcdef/svcdef.go","svcdef/consolidate_http.go"],
 [("oneof collection","svcdef/svcdef.go"),("merging of HTTP bindings from several proto files","svcdef/consolidate_http.go")],
 ["the *svcdef.Svcdef returned by New"],
 [("oneofs","oneof alternatives by interface name","svcdef/svcdef.go")])
p("C09","Path templates: parameters are found and placed exactly",
 "For every HTTP path template the static base path is the part before the first parameter, and the client path sections are the template's slash-separated parts in order, with each {param}, alone in its part or next to literal text, replaced by the value of exactly that request field (enums by number) and everything else quoted literally. Matching a URL against a template whose parameters are whole parts yields exactly the template's parameters, each with the URL segment at its position, and fails exactly when the number of segments differs (ignoring trailing slashes).",
 ["inputs"],"every template and URL over the stated alphabet and length",
 "Tests use three fixed templates; the property is a relation between arbitrary template and URL strings.",
 ["gengokit/httptransport/embeddable_funcs.go","gengokit/httptransport/httptransport.go"],
 [("PathParams, BuildParamMap, RemoveBraces","gengokit/httptransport/embeddable_funcs.go"),("PathSections, basePath","gengokit/httptransport/httptransport.go")],
 ["PathParams result, Binding.PathSections, Binding.BasePath"])
p("C10","Generated servers decode path and query values exactly or reject them",
 "The request decoder baron generates accepts a path or query value for an integer, bool, float, string or enum (by number) field if and only if it denotes a value of that field's type (numerals as strconv reads them in base 10; bools as strconv.ParseBool; strings as they are), and then stores exactly that value; anything else, including out-of-range numbers, is reported as an error and never silently truncated or wrapped. Absent query parameters leave the field unset, at most one alternative of a oneof may be given, and repeated values keep all elements in order; a single value for a repeated field is read as a comma separated list; messages (ones that hold no oneof), lists of messages and bytes in the query are JSON values, in oneofs too, and a message sent as null is not set. A request reaches the endpoint of the method whose verb and path it has and no other. (Map fields outside the body and bytes in the path, which baron warns about or does not support, are not part of the claim.)",
 ["inputs"],"every value string over the stated alphabet and length for every scalar field type",
 "Integration tests are disabled in this repository and send one valid value per field; the unit tests compare template text only.",
 ["gengokit/httptransport/httptransport.go","gengokit/template/template.go"],
 [("createDecodeConvertFunc, createDecodeTypeConversion, GenQueryUnmarshaler","gengokit/httptransport/httptransport.go"),("DecodeHTTP...Request","gengokit/template/template.go")],
 ["the request struct built by the generated decoder"])
p("C11","A generated client's HTTP request decodes back to the same request",
 "For every method with an HTTP binding, encoding a request with the generated HTTP client and decoding the resulting HTTP request with the generated server yields a request equal to the original, for every value of every path, query and body field, including strings with reserved characters, negative and extreme integers, enum numbers, optional fields set to zero, oneof alternatives set to zero, and repeated fields. The HTTP method and path used are those of the binding, the host the one the client was made for. (Not part of the claim: strings in the path that are empty, '.', '..' or contain '/', which no path segment can hold; a repeated string with exactly one element that contains a comma, which is read as a list; unset optional fields in the path; map fields in the query, which baron warns about, and messages there that hold a oneof or a float that is not finite; bytes in the path; repeated, oneof and nested fields or patterns in the path, which baron does not support.)",
 ["inputs"],"all field values within the stated widths and string lengths",
 "The repository's transport integration tests do not run here and use one value per field; round-trip is a statement about all values.",
 ["gengokit/httptransport/httptransport.go","gengokit/template/template.go"],
 [("EncodeHTTP...Request / DecodeHTTP...Request","gengokit/template/template.go"),("PathSections, GenQueryUnmarshaler","gengokit/httptransport/httptransport.go")],
 ["http.Request produced by the client and request produced by the server"])
p("C12","Regeneration keeps user handlers and tracks the definition",
 "Regenerating a service over an existing handler file keeps the body of every handler method still in the definition, keeps the constructor, unexported functions, types, variables, imports and their comments, and changes nothing else of the user's code; exported functions and methods that are not handlers of the definition (a handler is a method on the lower-cased service name followed by Service, named like an rpc) are removed, missing ones are added exactly once, and request and response types in kept signatures follow the definition. Regenerating again with the same definition changes nothing.",
 ["programs","histories"],"every previous file built from the stated declarations, every definition over the stated methods and types",
 "Tests try one previous file per rule; the rules interact over combinations of receivers, exported names, removed, renamed and retyped methods.",
 ["gengokit/service/services.go","gengokit/template/template.go"],
 [("pruneDecls, isValidFunc, updateParams, updateResults","gengokit/service/services.go")],
 ["the rendered handler file"])
p("C13","User-owned files are never overwritten",
 "When a previously generated server endpoints, interrupt or wrapper file, service wrapper, server main or client main exists, regeneration returns it with its code unchanged, whatever it contains; when it does not exist it is created from the definition. The server file and the transport file are always regenerated, and the client main is generated exactly when requested.",
 ["inputs","configurations"],"every subset of previously existing files with symbolic contents, every client/transport option",
 "Tests regenerate one fixed project; the property ranges over subsets of files and arbitrary contents.",
 ["gengokit/generator/gen.go","gengokit/service/cmd_client.go","gengokit/service/cmd_server.go","gengokit/service/server.go","gengokit/service/server_endpoints.go","gengokit/service/server_interrupt.go","gengokit/service/server_wrapper.go","gengokit/service/service_wrapper.go"],
 [("generateResponseFile and the Render methods","gengokit/generator/gen.go")],
 ["map returned by GenerateGokit"])
p("C14","Generation is deterministic",
 "The generated files depend only on the service definition, the configuration and the previous files: generating twice gives byte-identical output regardless of map iteration order, process history or machine, and generated methods appear in definition order.",
 ["schedules","histories"],"every iteration order of every map the generator ranges over (within the stated sizes)",
 "A test observes one random map order per run and none regenerates with several new methods.",
 ["gengokit/service/services.go","gengokit/generator/gen.go","gengokit/httptransport/httptransport.go"],
 [("handler rendering order","gengokit/service/services.go")],
 ["bytes of the generated files"])
p("C15","The generated file set and paths follow the service name and options",
 "For every service name the generated project contains exactly the expected files at paths under cmd/<service>, server and service (lower-cased service name), the client main only on request, with nothing outside the service directory and no template placeholder left in a path; files are looked up as previous versions under the same paths they are written to.",
 ["inputs","configurations"],"every service name up to the stated length, every option combination",
 "Tests generate for one fixed service name.",
 ["gengokit/generator/gen.go","gengokit/service/templates.go"],
 [("templatePathToActual, IsExcludedPath, GenerateGokit","gengokit/generator/gen.go")],
 ["keys of the map returned by GenerateGokit"])
p("C16","The start command creates one valid proto and never overwrites",
 "For every project name of letters, digits, dashes, underscores and spaces beginning with a letter the start command writes exactly one file, <name without .proto, dashes and spaces, lower-cased>.proto in the requested directory (start.proto by default), containing a definition baron itself parses into a service with that camel-cased name; if that file already exists nothing is written or changed and the exit code is non-zero. Failure to create the directory or file is reported by a non-zero exit code.",
 ["inputs","fault_sequences"],"every name up to the stated length, existing or missing target, any failing file operation",
 "The tests check the suffix removal helper on a few strings; nothing exercises Do itself, existing files or failures.",
 ["internal/start/start.go","internal/start/template.go"],
 [("Do, removeDotProtoSuffix, protoInfo","internal/start/start.go")],
 ["exit code and file system effects"])
p("C17","The command generates into the right places and touches nothing else",
 "For every spelling of the definition files (relative to any working directory, absolute, with . and ..) and of the output option (local path, package path below GOPATH, with or without trailing slash, default) the command writes the protobuf and transport code next to the definitions, named after each definition's base name, and exactly the service's files in the service directory (<service>-service below the given one when it ends in a slash), importing each other where they are. Only the transport asked for (all, gRPC or NATS, beside HTTP) is generated and served. No definitions, definitions in different directories, an unknown transport, a missing program or a protoc failing on the definitions make it exit non-zero with nothing written; definitions without a service generate no service files. Over an existing project it keeps user-owned files and handlers, regenerates the server file, removes exactly the stale directories svc/server/cli, svc/client/cli and cmd/<service>-server, and creates, changes or removes no other file; running it again changes nothing.",
 ["inputs","configurations","histories"],"every combination of spellings, options, prior project states and failures from the stated universe, names and contents up to the stated lengths",
 "cmd/baron has no tests.",
 ["cmd/baron/main.go","internal/parsesvcname/parsesvcname.go"],
 [("main, parseInput, cleanProtofilePath, parseSVCOut, readPreviousGeneration, cleanupOldFiles","cmd/baron/main.go"),("FromPaths, GetPBFileName, GetGRPCPBFileName","internal/parsesvcname/parsesvcname.go"),("WriteGenFile, GenerateBaronFile","gengokit/generator/gen.go")],
 ["exit code, programs run with their arguments, and file system effects"])
p("C18","HTTP binding labels identify a binding",
 "Within a method every HTTP binding gets its own label, formed from the method name and the decimal digits of the binding's index spelled in English, so that generated encoder and decoder functions of one method never collide, for any number of bindings.",
 ["inputs"],"all binding indices 0..N (N stated) and all method names up to the stated length",
 "One test spells a few numbers.",
 ["gengokit/httptransport/httptransport.go"],
 [("EnglishNumber, NewBinding","gengokit/httptransport/httptransport.go")],
 ["Binding.Label"])
p("C19","protoc is invoked exactly on the given files, or the failure is reported",
 "Generating the protobuf Go code runs protoc once with the Go and gRPC plugins, both output directories set to the requested directory with source-relative paths, proto3 optional enabled, the definitions' directory and every GOPATH src directory (and its bundled googleapis) on the import path, and exactly the given definition files in order. A missing plugin or a failing protoc is always returned as an error and never ignored.",
 ["inputs","fault_sequences"],"all file names, GOPATH lists and output directories within the bounds, each external step succeeding or failing",
 "Tests run one successful protoc invocation.",
 ["internal/execprotoc/execprotoc.go"],
 [("GeneratePBDotGo, protoc","internal/execprotoc/execprotoc.go")],
 ["arguments of the external command, returned error"])
p("C20","Endpoint middleware wraps exactly the endpoints asked for",
 "In generated code, wrapping all endpoints with a middleware (plain or labelled) wraps every endpoint that is not excluded exactly once, with its own name as label, leaves excluded endpoints untouched (each excluded at most once), and panics on exclusions naming no endpoint. Every method of the generated endpoint set calls its own endpoint with the given request and passes its result and error through.",
 ["inputs","schedules"],"every subset/sequence of exclusions up to the stated length, every map iteration order, every result/error",
 "The middleware integration tests do not run here and use one fixed exclusion.",
 ["gengokit/template/template.go"],
 [("Endpoints, WrapAllExcept, WrapAllLabeledExcept, Make...Endpoint","gengokit/template/template.go")],
 ["state of the generated Endpoints value"])
p("C21","Errors, headers and context values cross the HTTP boundary unchanged",
 "In generated code an error returned by a handler is answered with the status code, headers and JSON body it defines, or 500 and its message otherwise, and the client reports every non-200 response as an error, carrying that message when the body has one; a successful response is never reported as an error. Request headers reach the handler's context with their first value under both canonical and lower-case names (other than those named transport and request-url), and the context keys selected by the client that hold strings are sent as headers with their values.",
 ["inputs"],"all status codes, header names/values and messages within the bounds",
 "The transport integration tests do not run here and use two fixed errors and headers.",
 ["gengokit/template/template.go"],
 [("errorEncoder, errorDecoder, HTTPHeadersToContext, CtxValuesToSend, DecodeHTTP...Response","gengokit/template/template.go")],
 ["HTTP response/requests seen by the other side"])
p("C22","gRPC and NATS transports connect every method to its own endpoint",
 "In generated code a call of a method through the generated gRPC client and server, or through the generated NATS client and server, reaches the endpoint of that method exactly once with the request sent, and returns its response, or its error as an error, to the caller. The gRPC client uses the full method name the server is registered under, for every spelling of the method in the definition. Metadata selected by the client reaches the handler's context under its lower-case and canonical names. Serving NATS subscribes every method under a subject of its own and reports a subscription that fails. (Floats other than finite ones over NATS are not part of the claim: its encoding is JSON.)",
 ["inputs"],"every method, every number in requests and responses, every context value within the bounds",
 "No test of this repository runs a generated gRPC or NATS transport.",
 ["gengokit/template/template.go"],
 [("MakeGRPCServer, NewGRPCClient, GRPCMetadataToContext, ContextValuesToGRPCMetadata","gengokit/template/template.go"),("MakeNATSServer, ServeNATS, NewNATSClient, DecodeNATS...","gengokit/template/template.go")],
 ["request at the endpoint and response at the caller"])
p("C23","What baron generates compiles",
 "For every definition of a service, with or without methods, and for every transport (all, grpc, nats, http) and with or without the client, the Go code that baron generates from scratch - the transport file beside the protobuf code, the server, service and command packages and the client command - is accepted by the Go compiler: it parses, and nothing in it is undefined, declared twice, imported or declared without being used, or of the wrong type. This holds for methods with none, one and several HTTP bindings; for fields of every protobuf kind, single, optional, repeated or in a oneof, wherever the HTTP mapping may put them (path, query, whole body, body field; oneof alternatives in the path apart); and whatever methods, messages and fields are called, also when their names differ in case only or are, in some spelling, Go keywords or names the generated code uses itself. (Apart are names that protoc has to change or refuse itself, and messages and methods named like what the generated file declares for its users, such as Endpoints; request and response messages are declared in the package of the service.)",
 ["inputs"],"every transport and option, every kind and place of a field, every name within the bounds",
 "The tests compile what is generated for a few fixed definitions, and most of them need tools that are not there.",
 ["gengokit/template/template.go","gengokit/httptransport/httptransport.go","gengokit/generator/gen.go"],
 [("GenerateBaronFile, GenerateGokit","gengokit/generator/gen.go"),("createQueryUnmarshaler and the conversions of fields","gengokit/httptransport/httptransport.go"),("the templates","gengokit/template/template.go")],
 ["the Go type checker's verdict on the generated program"])
p("C24","The generated server serves the user's service where it is configured to",
 "The generated server command takes its addresses and debug mode from its flags (http.addr, grpc.addr, nats.addr, debug.addr, debug) where they are given, else from the non-empty environment variables HTTP_ADDR, else PORT (as :PORT), GRPC_ADDR, NATS_ADDR, DEBUG_ADDR and DEBUG (on if true in any case), else the defaults (debug address :5060, debug mode off, no other address). Running it listens for HTTP, gRPC and NATS once each at just the configured addresses (gRPC and NATS where the project was generated with that transport), and serves the debug pages if and only if in debug mode, in whatever order these start. What is served is every method of the user's service, called once per request through the service's and the endpoints' middlewares, each applied once. It returns as soon as a listener, connection or subscription fails or the process gets SIGINT or SIGTERM, and not before. As generated, every method of the service answers with an empty response and no error.",
 ["inputs","schedules","fault_sequences"],"every configuration, failing listener and order of goroutines within the bounds",
 "No test of this repository runs a generated server command.",
 ["gengokit/template/template.go","gengokit/generator/gen.go"],
 [("the server, endpoints, interrupt, service and command templates","gengokit/template/template.go"),("GenerateGokit","gengokit/generator/gen.go")],
 ["addresses listened on, calls that reach the service, whether the server returns"])
p("C25","The generated client command calls every method where it is told to",
 "The generated client command (generated on request) calls every method of the service exactly once over every transport the project was generated with, in HTTP every method with an HTTP binding, each at the address its flag (grpc.addr, http.addr, nats.addr) gives, else at its default (:5040, :5050, :4222), whatever the host is called. It exits with 0 if every call succeeds; if a connection cannot be made or a call fails it makes no further call and exits with another code.",
 ["inputs","fault_sequences"],"every choice of addresses and failing call within the bounds",
 "No test of this repository runs a generated client command.",
 ["gengokit/template/template.go","gengokit/generator/gen.go"],
 [("the client command and transport templates","gengokit/template/template.go"),("GenerateGokit","gengokit/generator/gen.go")],
 ["calls made by the command, their addresses, its exit code"])
with open(sys.argv[1] if len(sys.argv)>1 else "/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
