# What each unit's symbolic inputs range over; {x} is a parameter of the tier.
B={
"IsolationMany":"0-64 and up to 300 earlier inputs of 7 kinds, or one of that many opened or closed blocks, services, comment or string bytes; another lexer used in between",
"ParseNames":"one declared name (service, rpc, request or response) of 1+up to {len} characters over letters, digits and _ in a fixed two-rpc service",
"ParseShape":"one rpc of every form (no options, other options, one-character paths and bodies over the stated alphabets, 6 verbs/custom kinds, up to {additional} additional bindings, streaming, qualifiers, ; or {{}}) at 3 positions between fixed neighbours",
"ParseValue":"one string value of up to {len} characters over a 26-character alphabet with both quotes, escapes and punctuation, in single or double quotes, at 4 places",
"ParseOrder":"four forms of a main binding of one or two fields in both orders, none, one, a list of one or a list of two additional bindings before, between and after its fields, four separators, three spellings",
"ParseOptions":"seven forms of options without HTTP meaning (names of 2 letters, texts of up to 2 characters with braces) or empty statements, in seven places of a service, with five separators between HTTP fields",
"ParseLayout":"every gap between the tokens of a fixed definition, filled with up to {ws} blanks of any kind or a block or line comment of up to {len} characters",
"ParseOutside":"9 kinds of text before or after the service: names of up to {name} letters of 'servicmp', comments and strings of up to {len} characters",
"ParseLong":"one of 30 parts of a definition (names, qualifiers, paths, escapes, bindings, rpcs before and after, blanks, comments, options, nesting, messages around the service) made of or repeated 0 to 64 times or 13 counts up to 300, one symbolic character each",
"LexLong":"one of 12 kinds of token, or a symbolic character in it, repeated 0 to 64 times or 13 counts up to 300",
"RobustLong":"12 pieces with a symbolic character repeated 1, 2, 9, 65 or 257 times at 10 places of a sample definition, cut off there or not",
"LexFaithful":"every service body of up to {len} characters over the lexer alphabet",
"LexPieces":"every sequence of up to {n} pieces (comments, blanks, line breaks, strings, escapes, words) with a symbolic character each",
"IsolationLex":"21 kinds of earlier input with up to 2 symbolic characters, then every sequence of up to {n} pieces",
"Additional":"one main and one additional binding with a path segment, body and custom verb each",
"LexUnicode":"up to {len} arbitrary bytes inside comments and strings",
"LexUnget":"every body of up to {len} characters or {pieces} pieces, any advance, any single or positioned unget",
"RobustRaw":"up to {len} arbitrary characters as the file, after 'service ' and inside a service body",
"RobustTruncate":"every truncation of a sample definition followed by up to {len} characters",
"RobustMutate":"every one-character replacement (any byte), insertion (any byte) and deletion of a sample definition",
"Isolation":"six kinds of earlier input with up to {len} symbolic characters (garbage, open services, options and strings, truncations of a sample), once or twice; then a fixed definition",
"CamelCase":"every string of up to {len} characters over letters, digits, _ and .",
"JSONNames":"every string of up to {len} characters over letters, digits and _",
"EnumNames":"every string of up to {len} and prefix of up to {prefix} characters over letters, digits and _",
"Sanitized":"every string of up to {len} bytes over 17 byte values incl. multi-byte and invalid UTF-8",
"Keywords":"every lower-case string of up to {len} characters over the letters of Go's keywords",
"LowCamel":"every string of up to {len} characters over letters, digits, _ and .",
"Long":"a unit of 1-2 characters over letters, digits and _ repeated 3 to 257 times (8 counts), with up to one more before and after",
"BaseTypes":"every string of up to 9 characters over the characters of Go's scalar types",
"Create":"every project name of 1+up to {len} characters over all letters, digits, _, - and blank, with and without .proto suffixes, 5 target directories, existing or not",
"Existing":"up to {len} more name characters, an existing file with any 0-2 bytes or a directory of that name",
"LongC16":"names of up to 201 characters made of one character, of pairs with letters between, of runs of separators, with up to 33 .proto suffixes; target directories up to 33 levels deep, up to 2 levels above the current one, and with names of up to 201 characters; 0-9 and 12, 16, 17, 24, 32, 33, 65, 100, 128, 200 of them",
"Failing":"up to {len} more name characters, target directories that cannot be created",
"LocationsC07":"paths of up to {segs} symbolic segments, names of up to {len} characters, all verbs, custom kinds and body forms (verbs={verbs})",
"ManyC07":"0 to 12 parameters (names of 1 to 77 characters, of every kind of field) in a path with 5 separators, long literals, with and without a suffix; get, patch and a custom verb; body none, * or any of three fields",
"Spelled":"a path parameter or body of 1 to {len} characters over dDbB_2 or dDbB*, so that names differ in case or are parts of one another",
"Attachment":"three methods with 0-3 bindings each in 3 orders, names that are prefixes or case variants of one another",
"Imported":"a request type of another package, paths of up to 2 characters",
"Sections":"templates of up to {segs} segments, parameter names of up to {len} and literals of up to {lit} characters, scalar/enum/optional fields; with beside=1 also literal text of up to {pre} and {post} characters before and after a parameter, and two parameters in one segment",
"Params":"templates of up to {segs} segments with values of up to {len} characters, optional trailing slashes",
"SectionsLong":"0 to 12 parameters of 9 kinds (names of up to 77 characters), in parts of their own or next to literal text of one character, behind three kinds of literal parts",
"ParamsLong":"1 to 40 parts, each, every second or every third a parameter, values of up to 42 characters, 0 to 3 parts more, 0 to 3 trailing slashes",
"ParamsShape":"every URL of up to {url} characters over /a and template of up to {tmpl} over /a{{}}",
"Labels":"every index of up to {digits} decimal digits",
"NewLabels":"method names of up to {len} characters, any two of {bindings} bindings",
"FieldKinds":"two fields of every pair of kinds (scalars, bytes, optional, repeated, maps, messages, enums, imported), names of 1+{len} characters",
"Oneofs":"two messages with up to two oneofs of 1-3 alternatives of 5 kinds at any place",
"Methods":"up to 2 methods, service name of 1+{len} characters, request/response of 4 kinds, one or two Go files",
"Splits":"the definition split over up to 3 files, every iteration order of every map ranged over",
"History":"5 kinds of earlier extraction",
"Many":"any part of a definition many times or long: fields of all 29 kinds, messages, oneofs of 11 kinds of alternatives, methods, enums, nested messages, characters in any name; 0-33 and 48, 65, 99-101, 128, 130 of them, and 17 service names near the grpc plugin's own",
"ManyFiles":"messages with two oneofs each spread over up to {files} message files and one service file, every iteration order of every map ranged over",
"ProtoOrder":"the service's proto among up to 2 others, every iteration order",
"Handlers":"3 rpcs each kept/removed/added, 3 signature layouts, changed request/response types, both definition orders, constructor at 2 places, fixed user declarations between",
"HandlerText":"handler name of 1+{len}, identifiers of 2, type suffix of 1 and comment of {note} symbolic characters; another handler kept or gone; rpc named NewService",
"Decoys":"nine kinds of exported functions and methods resembling the handler of an rpc of 1+{len} characters, before or after it or instead of it",
"HandlersMany":"0-{count} and 16, 17, 20, 24, 31, 33, 40, 65 handlers kept, added or removed, other declarations, comments, statements, nested blocks, characters of method, service and type names; method names that differ in case only; 11 unexported and 4 exported non-ASCII or underscore names; 25 ways to write a handler's signature with 4 receivers and old or new types",
"HandlerFresh":"service name of 1+{len} characters, 0-3 methods with a symbolic name character",
"UserFiles":"each of the six user files with any contents of up to {len} characters over 7 characters",
"UserGoFiles":"one or all six user files being Go programs with identifiers of {len} and comments of 2 symbolic characters",
"AlwaysFresh":"previous server file of up to {len} characters, client main on/off",
"UserFilesLong":"each of the six user files with 0-9 and 16, 17, 32, 33, 64, 65, 100, 300, 1000 comment lines, functions, list items, text lines, import lines, characters of a name, or that much that is no Go",
"FileSetLong":"service names of up to 201 characters and services of 0-2, 32, 65, 128 and 200 methods",
"Written":"contents of 0-9 and around 100, 512, 4096, 32768, 65536 and 100000 bytes of any of 6 bytes, written to 24 paths over nothing or up to 200000 bytes",
"FileSet":"service names of 1+{len} characters over aNZ_1, client on/off, five lookups",
"FileSetWords":"service names made of each word in the string literals of the generator packages, alone, capitalised, prefixed and suffixed",
"OrderHandlers":"any subset of four handlers present, every map iteration order (up to 5 entries; forward, reverse and rotated beyond)",
"OrderMany":"0-12 and 16, 17, 32, 33, 65 methods, none, every second or every third handler present, map iteration orders as above",
"OrderAll":"the whole project, another project before, every map iteration order as above",
"BaronFile":"a definition with bindings of every kind, previous file of up to 2 characters, every map iteration order as above",
"IntValues":"every value of int32, int64, uint32, uint64 and enum fields (every number of digits) in the path, query, optional field, either of two list elements, single list element or oneof",
"IntRange":"every numeral of the field's largest number of digits beyond its limits, longer numerals of +1, 20, 21 and 30 digits, negative numerals of 1+{rest} digits for unsigned fields",
"IntSyntax":"texts of up to {len} characters over 10 (digits, signs, blank, underscore, x, e, point) for every integer kind and place",
"IntList":"one query value of up to {len} characters over digits, sign, comma and brackets",
"Lists":"2 to 1+{more} one-digit values given one by one",
"Absent":"four queries naming no field, every kind of request",
"Bools":"texts of up to {len} characters over the letters of true/false and 0/1, every place",
"Strings":"texts of up to {len} characters over 14 (percent, plus, ampersand, NUL, non-UTF-8, ...), every place",
"Floats":"34 concrete texts (extremes, denormals, syntax errors, special values), two widths, five places",
"Oneof":"0 to 3 of the seven alternatives given",
"Routes":"five bindings of one method, every verb, symbolic path and query values of 1-2 characters",
"ClientInts":"every value of every integer kind in the path, query, optional or first/last list element; optional set or not, 0-2 elements",
"ClientFlags":"every bool in every place, 0-3 elements",
"ClientFloats":"19 concrete values in every place, two widths",
"ClientStrings":"strings of up to {len} characters over 15 in every place",
"ClientAlt":"every alternative or none, every number, strings of up to 2 characters, bytes of up to {blob}, message texts of up to {text}",
"ClientDeep":"8 query fields of message, repeated message, bytes and well-known types, unset or set, strings of up to {len} characters over 8, numbers of up to {digits} digits (0: all)",
"DeepJSON":"8 query fields of composite types with one JSON form each, texts of up to {len} characters over 10, numbers of up to {digits} digits (0: all), whole or broken in four ways",
"OptValues":"optional fields in path and query, each place with every number or one of 7 texts that are none, bools in 9 spellings, strings of 1-2 characters over 4; sent or not",
"OddValues":"two oneofs with no, one or two alternatives given, lists of nested enums and messages with 0-3 elements, every number or one of 7 texts that are none, strings of 1-2 characters over 3",
"ClientOpt":"optional fields in path and query, set or not, every number, 5 doubles, strings of 1-2 characters, bytes of up to 2, both bindings",
"ClientOdd":"two oneofs with each alternative or none, nested enums and messages, lists of 0-2, a map of up to one entry (in whole bodies), every number, strings of up to 2 characters, three bindings",
"ClientBody":"whole and partial bodies, every number, strings of 1-2 characters, 0-2 elements, message set or not",
"ClientBindings":"the five encoders of one method with every verb, and the client's own choice; every number",
"AltJSON":"JSON values of up to {len} base64 digits over A/w=, or a message with any number of up to 2 digits and a text of up to one character, and five tails",
"Beside":"two bindings with text next to their parameters, values of up to {len} characters over i:go-v, every 32-bit number, right and wrong literals",
"ClientNext":"both bindings, values of up to {len} characters over i:%g o and sx-:v, every number",
"ClientHost":"host names of 1-{len} characters of {{h,1,t,p,-}}, alone or after \"http\", with or without a port or domain, with http, https or no scheme, and a path",
"PassThrough":"19 methods, every number in request and response, response text and error text of up to 1 character",
"WrapSubsets":"every subset of any {window} consecutive endpoints of 17, in two orders, plain and labelled; map iteration forward, reverse and rotated",
"WrapNames":"every name of up to {len} characters over 14 letters and digits, and every name one byte (of 20) off that of a method, alone, before or after another exclusion",
"WrapTwice":"two wrappings with any one endpoint excluded from each",
"Errors":"six kinds of errors, every 3-digit status but 200, messages of up to {len} characters over 7 (quotes, control characters, non-ASCII), 0-2 headers of 0-2 values",
"Statuses":"every 3-digit status, seven bodies with 0-1 more characters, 17 methods",
"Successes":"17 methods, every number and text of up to 2 characters in the response",
"Headers":"1 to {more} headers, names H+1-{len} characters over aB-9, values of 0-1 characters",
"Sent":"1 to {keys} keys of 1-1+{len} characters, set, unset or not a string, values of 0-1 characters",
"GRPC":"16 methods, numbers of up to 2 digits, response/error, a context value of 0-1 characters under a key of 1-2, Go package named like the proto package or not",
"GRPCMetadata":"1 or 2 values under keys of 1-1+{len} characters",
"NATS":"19 methods, every number in request and response, with and without a oneof alternative, response or error",
"NATSServe":"any one subscription failing",
"Protoc":"1 or 2 definition files, up to 2 GOPATH entries, an output directory; names of up to {len} bytes over a-/.: =,_ for one of (directory, file names, GOPATH entries, output) at a time (all=1: for all of them together); each of the three programs missing or not, protoc failing or not, with or without output",
"Locations":"the whole command on a definition whose file name has up to {len} bytes over a._-, given in 4 spellings from 3 working directories; 6 forms of -o with names of up to {len} bytes over a._; with and without -c",
"Regenerate":"the whole command over a project with any one, all or none of the user-owned files holding up to {len} arbitrary bytes over a, blank, line break and (, with or without handlers, stale directories (each, all, none) and similarly named others, {services} service directories, with and without -c; then once more",
"ProtocMany":"0-17 and 20, 31-33, 50, 64, 65, 99-101, 127, 128, 200, 255 further files, repeated files, GOPATH entries, repeated entries, characters of any name, directory levels; protoc failing or not",
"ManyFilesC17":"the whole command on 1-9, 18 or 41 definition files with the service in the first, middle or last, one of them in another directory, a name of as many characters, as many GOPATH entries and output levels, over files of an earlier run up to 4 MB long",
"Several":"the whole command on two definition files in both orders, the second with a name of up to {len} bytes over abz_.-, with and without a service",
"Refused":"no definition, definitions in different directories (6 spellings), each program missing, protoc failing with 3 exit codes",
"Transports":"the four transports, and every other word of up to {len} characters over 7 before one of them or nothing, in four spellings of the option, with and without client",
"Information":"-h, --help, -V, --version with and without a definition",
"Options":"every transport, with and without client, 0 to 2 methods with 0 to 2 bindings each",
"Fields":"a field of 21 kinds (scalars, enums, bytes, messages, nested ones, a map, a well-known type), single, optional, repeated or in a oneof, in the path, the query, the whole body or as the body (free=1: with and without other fields and methods and over every HTTP transport in every combination)",
"MethodNames":"two methods with names of up to {len} and 2 letters over gGoOfF_1 and gGoO",
"FieldNames":"two fields with names of up to {len} and 2 letters over aA_1if and aA_i in the path, query and body, the second an enum, single, optional, repeated or in a oneof",
"Bindings":"a method with 1, 2, 9, 10, 11 or 12 bindings beside one named like a binding of it (6 suffixes) with 0 to 2 bindings, two transports",
"Run":"every combination of addresses (each absent or one of two) and debug mode; nothing failing and SIGINT or SIGTERM, or HTTP, debug, gRPC (listening or serving) or NATS (connecting or one of the subscriptions) failing; every order in which goroutines run up to {delays} departures from first come, first served",
"Served":"every method over gRPC and NATS, one over HTTP with a path parameter of 1-2 characters, six debug pages",
"Config":"PORT of 0-1 characters, HTTP_ADDR and one other address of 0-{len} characters in the environment (empty or unset), that one with and without a flag of 0-1 characters, DEBUG in 8 forms, -debug in 3; goroutines first come, first served",
"Calls":"each of the three addresses as flagged (1-{len} characters and a port) or not, no call or any one call failing, or gRPC or NATS refusing the connection; one service of four methods, three of them with HTTP bindings",
"Defaults":"every method, names of 0-1 characters",
"UsedWords":"a method and a field, or a message, named like any identifier of the code generated for a small definition, or like any Go keyword",
}
