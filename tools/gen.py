#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below.

Development tool only: no check runs it.  CLAIMED lists the ids that have a check.
"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, tech="", note="", hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state or [], observe=observe or [], tech=tech, note=note, hook=hook))

SEQ = "exhaustive bounded enumeration of inputs/operation sequences on the real code, each step compared with an executable reference model"
CONC = "stateless model checking of the real code: systematic schedule exploration under a controlled scheduler and virtual clock, deviation-bounded, with happens-before state hashing"
SEQNOTE = "Exhaustive within the stated alphabets and depths (choice-tree DFS); trusts the reference model in mc/, the Go toolchain and encoding/json. Nothing is sampled; a run cut by its deadline says exhaustive=false."
CONCNOTE = "All schedules of the listed scenarios up to the completed deviation bound (per scenario in the evidence); trusts the source rewriter, the controlled scheduler and the in-memory transports. Sequentially consistent interleavings at synchronisation points; not a data-race detector."

DENSE = "stateless model checking of the real code: every statement of the library is a scheduling point of a controlled scheduler, all schedules of pairs and triples of operations up to the completed bound of deviations; oracle: the operation alone"
DENSENOTE = "All schedules of the listed pairs and triples up to the completed deviation bound (per scenario in the evidence; at least one preemption at any statement); trusts the source rewriter and the controlled scheduler. Library calls are one step; not a data-race detector."

# ---------------------------------------------------------------- core messages
prop("C01", "Every message survives the wire unchanged",
 "Encoding any request, notify, result or error message and decoding the bytes yields a message of the same kind with the same id (value and int/string type), method, parameters (including whether they were a list or one single value), result, error code/message/data and trace id, with numbers keeping every digit. Encoding the decoded message again gives the same JSON, and the pretty, compact and map encodings of one message describe the same content.",
 ["inputs", "histories"], "all message kinds x ids x methods x trace ids x JSON values (scalars, big numbers, nested lists/objects) within the alphabet, and all encode/decode/clone chains up to the depth bound",
 "Tests encode a dozen literal messages; number precision, single-value params, string/int ids, trace ids and nesting interact.",
 ["messageimpl.go", "parse.go", "types.go"],
 [("JSON templates", "messageimpl.go Interface()"), ("UseNumber decoding", "parse.go DecodeMessage/decodeParams/decodeId"), ("paramsAreList flag", "types.go RequestMessage/NotifyMessage")],
 observe=["MessageBytes", "EncodePretty", "MessageMap", "ParseBytes"], tech=SEQ)
prop("C02", "Decoding is total and classifies every input one way",
 "For every byte string, decoding either returns exactly one well-formed message or an error, and never panics. An object with a non-null error is an error message (rejected if a non-null result is also present), else a non-null result makes it a result message, else a method makes it a request (id present) or notify (no id or null id) whose params must be present, else an id alone is a null result, else it is rejected; ids other than integers fitting a machine int or strings, and malformed error bodies, are rejected.",
 ["inputs"], "every combination of present/absent/null/wrong-typed id, method, params, result, error, traceid fields over the alphabet; all truncations and one-byte corruptions of a message corpus",
 "The field-combination space has hundreds of thousands of members; tests sample about ten.",
 ["parse.go"], [("classification order", "parse.go DecodeMessage"), ("id decoding", "parse.go decodeId"), ("params decoding", "parse.go decodeParams")],
 observe=["ParseBytes", "DecodeMessage"], tech=SEQ)
prop("C03", "A message stream decodes the same however it is chunked",
 "Reading a byte stream of concatenated JSON messages yields exactly the sequence of messages that decoding each one alone yields, in order, whatever the separators and however the bytes are split across reads, and gives each message as soon as its last byte has been read. A stream that ends inside a message yields the complete messages before it and then an error, never a partial or extra message, and a well-formed value that is not a JSON-RPC message is rejected without disturbing the messages after it.",
 ["inputs", "histories", "fault_sequences"], "all sequences up to length 3 over a message corpus x separators x all cut-point pairs x all truncation points",
 "Needs all chunkings and truncation points of a stream; tests decode single complete byte slices.",
 ["parse.go"], [("decoder reuse across calls", "parse.go DecodeMessage"), ("H2 line framing", "http/h2_client.go, http/h2_server.go")],
 observe=["DecodeMessage on one json.Decoder"], tech=SEQ)
prop("C04", "Derived messages keep everything except the new id",
 "Cloning a request or replacing the id of a request, result or error gives a message that differs from the original only in its id - same kind, method, params in the same list-or-single shape, payload and trace id - and leaves the original untouched. A result or error built from a request carries that request's id and trace id, exactly one kind predicate holds for every message, and every Must accessor returns the field for the kinds that have it and panics for the others.",
 ["inputs", "histories"], "all derivation chains (clone, replace id, answer with result or error, set trace id) up to the depth bound over all message shapes",
 "Tests replace one id on one shape; the claim is over all chains of derivations.",
 ["messageimpl.go"], [("Clone / ReplaceId", "messageimpl.go"), ("NewResultMessage/NewErrorMessage/ToMessage", "messageimpl.go"), ("Must accessors", "messageimpl.go")],
 observe=["exported message API", "MessageBytes"], tech=SEQ)
prop("C05", "Command-line argument guessing is total and faithful",
 "Turning a text argument into a JSON value never panics and, when it succeeds, yields a value that encodes as JSON: the words true, false and null become those constants, text that reads as a finite number becomes that number, text starting with a bracket, brace or double quote becomes the JSON list, object or string it begins with or an error when it begins with none, an at-sign path becomes the file's JSON content or an error, and anything else is returned unchanged as a string. Guessing a list of arguments gives the element-wise guesses in order, or the first error.",
 ["inputs"], "all strings up to the length bound over an adversarial alphabet plus a word list, and all argument lists up to length 3",
 "Tests try six literals; classification boundaries (nan, inf, hex floats, signs, underscores) need enumeration.",
 ["utils.go"], [("GuessJson", "utils.go"), ("GuessJsonArray", "utils.go")], observe=["GuessJson", "GuessJsonArray"], tech=SEQ)
prop("C06", "Big integers cross JSON exactly or are refused",
 "A big integer of any size and sign encodes as a decimal JSON string and decodes from either a JSON string or a bare JSON integer to exactly the same value, alone or inside structures and lists. Text that is not a decimal integer is refused with an error rather than silently giving some other value.",
 ["inputs"], "all integer texts up to the digit bound with signs and leading zeros, powers of two around word boundaries, and all short malformed texts, in several containers",
 "The test round-trips one literal; malformed text and word boundaries are never tried.",
 ["utils.go"], [("Bigint MarshalJSON/UnmarshalJSON/Load", "utils.go")], observe=["json.Marshal / json.Unmarshal of Bigint"], tech=SEQ)
prop("C07", "Method-name rules and cache keys are exact",
 "A text is a method name exactly when it is non-empty and every character is an ASCII letter, digit, or one of - _ : + . ; it is a public method name exactly when it starts with an ASCII letter or digit, continues with those characters or / \\ & #, and does not start with 'rpc.'. Under one prefix, two requests get the same cache key exactly when their method and their parameters are the same, whatever their ids and trace ids.",
 ["inputs"], "all strings up to length 3 over the full ASCII range plus multi-byte and newline cases; all pairs of requests over a method x params alphabet designed to collide",
 "Tests check about ten names; pairwise injectivity is not tested at all.",
 ["validators.go", "messageimpl.go"], [("IsMethod/IsPublicMethod", "validators.go"), ("CacheKey", "messageimpl.go CacheKey")], observe=["IsMethod", "IsPublicMethod", "CacheKey"], tech=SEQ)
prop("C08", "Positional parameters fill struct fields exactly",
 "Decoding a parameter list into a struct assigns the i-th parameter to the i-th exported field, leaves fields beyond the list unchanged, ignores surplus parameters, and accepts null as the field's zero value. A parameter that cannot be converted to its field's type (a number out of its range included), or a target that is not a pointer to a struct, gives an error, never a panic.",
 ["inputs"], "all parameter lists up to length 4 over a value alphabet x a set of struct shapes (unexported, pointer, nested, list, map, interface fields)",
 "Tests decode three literal lists into two structs.",
 ["utils.go"], [("DecodeParams", "utils.go"), ("DecodeInterface", "utils.go")], observe=["DecodeParams"], tech=SEQ)
# ---------------------------------------------------------------- schema
prop("S01", "A schema accepts exactly the values it describes",
 "For every buildable schema and every JSON value, validation accepts the value if and only if the value satisfies the schema: its kind, inclusive and exclusive bounds, length and item-count limits, tuple positions and additional items, required, optional and additional properties, any-of, all-of, not, and method params, additional params and result. String lengths count bytes, integers are integer literals in the 64-bit range, number bounds compare in double precision. The verdict does not depend on map order or on whether numbers arrive as decoded JSON or as Go int and float64.",
 ["inputs", "configurations"], "all schemas of the grammar up to the depth bound x all values of the boundary alphabet up to depth 2-3",
 "Schema x value is a product space; the tests check about forty pairs and few boundaries.",
 ["schema/schema.go", "schema/validator.go"], [("Scan methods", "schema/schema.go"), ("dispatch", "schema/validator.go Scan")], observe=["SchemaValidator.Validate / ValidateBytes"], tech=SEQ)
prop("S02", "Building a schema never drops a constraint or misreads a form",
 "Building a schema description either fails with an error or yields a schema that enforces every constraint written in it (a null limit, or a negative length or item limit, means no limit); a description whose type is unknown or missing, or whose children, properties, required names, bounds, limits, exclusive flags, names or descriptions have the wrong form, is refused and never panics. A description builds to the same schema whether it is given as JSON, as YAML or as decoded data, properties may have any name, and building neither depends on earlier builds nor changes the description it is given.",
 ["inputs", "configurations"], "all descriptions of the grammar (well-formed and with one malformed attribute at every position) in JSON, YAML and decoded form",
 "Tests build about fifteen hand-written descriptions and four malformed ones.",
 ["schema/builder.go", "schema/convert.go"], [("buildNode*", "schema/builder.go"), ("convertAttr*", "schema/convert.go"), ("FixYamlMaps", "schema/builder.go")], observe=["SchemaBuilder.Build/BuildBytes/BuildYamlBytes/BuildYamlInterface"], tech=SEQ)
prop("S03", "An exported schema means the same as the original",
 "Exporting any built schema to JSON text (or its map encoded as JSON) and building it again gives a schema equal to the original that returns the same verdict on every value and keeps every name and description. Exporting does not change the schema, and exporting the rebuilt schema gives an equivalent description.",
 ["inputs", "configurations"], "all schemas of the grammar up to the depth bound, each compared on the whole value alphabet",
 "Tests rebuild a handful of schemas and none with every constraint kind.",
 ["schema/schema.go", "schema/builder.go"], [("Map methods", "schema/schema.go"), ("SchemaToString", "schema/schema.go")], observe=["Schema.Map", "SchemaToString", "Equal", "Validate"], tech=SEQ)
prop("S04", "Schema equality is an equivalence that sees every difference",
 "Schema equality is reflexive, symmetric and transitive, holds between two builds of the same description, and is false between schemas that differ in kind, in any bound or limit, in any child, property, required name, additional schema, name or description (an exclusive flag of false may or may not equal an absent one). Two schemas that compare equal give the same verdict on every value.",
 ["inputs", "configurations"], "all ordered pairs (and triples on a subset) of grammar schemas, including all one-attribute mutations of each",
 "Equality over pairs is quadratic in schemas; tests compare fewer than ten pairs.",
 ["schema/schema.go"], [("Equal methods and helpers", "schema/schema.go")], observe=["Schema.Equal"], tech=SEQ)
prop("S05", "Validation errors point at the fault and leave no trace",
 "When validation rejects a value, the reported path leads from the root of the value to an element (or missing required property) that really violates the sub-schema at that position. A validator can be reused: after any sequence of accepted and rejected validations, including concurrent-looking nesting of any-of, all-of and not, it gives the same verdict and path as a fresh one.",
 ["inputs", "histories"], "all schema/value pairs of the grammar, and all sequences up to length 3 of validations through one validator",
 "Tests look at a few literal paths with fresh validators.",
 ["schema/validator.go", "schema/schema.go"], [("path stack push/pop", "schema/validator.go"), ("NewErrorPos", "schema/validator.go")], observe=["ErrorPos.Path", "ErrorPos.Error"], tech=SEQ)
# ---------------------------------------------------------------- actor
prop("A01", "A method reaches the handler the actor tree says it has",
 "Feeding a request or notify runs exactly one handler: the actor's own handler for the method if registered, else that of the first child (in the order added, recursively) that has the method, else the actor's missing handler, else none and a request is answered 'method not found'. Has, the set of listed methods and the schema lookup agree with this resolution after any sequence of registrations, removals and child additions, duplicate registrations are refused, a removed method can be registered again, and results or errors fed in go only to the missing handler.",
 ["histories", "configurations"], "all sequences of On/Off/AddChild/OnMissing operations up to the depth bound over an actor tree, each followed by probing every method with request, notify, result and error messages",
 "Tests register a few handlers once; removal, shadowing and nesting orders form a history space.",
 ["http/request.go"], [("Feed resolution", "http/request.go Feed"), ("Has/MethodList/GetSchema", "http/request.go"), ("On/Off/AddChild", "http/request.go")], observe=["Actor.Feed", "Has", "MethodList", "GetSchema"], tech=SEQ)
prop("A02", "Each request gets one answer, a notify gets none",
 "Feeding a request produces exactly one result or error message carrying the request's id and trace id: the handler's value, its RPC error code, message and data even when wrapped, 'internal error' for any other error or for a recovered error panic, and the same rules hold in child actors and for the missing handler. Feeding a notify never produces a message, an HTTP-level response (WrappedResponse) a handler returns as its error is passed through untouched, and an error panic never escapes while recovery is on.",
 ["inputs", "configurations"], "all combinations of message kind, id, trace id, handler outcome (value, nil, message, RPC error, wrapped error, plain error, HTTP response, error panic), tree position and recovery setting",
 "The outcome x kind x position x setting product is far beyond the samples tested.",
 ["http/request.go", "messageimpl.go"], [("wrapResult", "http/request.go"), ("recoverCallHandler/recoverCallMissingHandler", "http/request.go")], observe=["Actor.Feed"], tech=SEQ)
prop("A03", "No handler runs on params its schema rejects",
 "When a method has a schema and validation is on, its handler runs if and only if the message's params satisfy the schema; otherwise a request is answered with the invalid-schema error code under its own id and trace id, with the offending path in the message, and a notify is dropped with an error. With validation off or no schema the handler always runs, with the params exactly as sent (params given as one single value that is not a list satisfy no method schema).",
 ["inputs", "configurations"], "all method schemas of the grammar x all params lists and single-value params of the alphabet x request/notify x validation flag x own/child actor",
 "Tests exercise two schemas with three calls.",
 ["http/request.go", "schema/schema.go"], [("schema gate", "http/request.go Feed"), ("MethodSchema.Scan", "schema/schema.go"), ("error message", "schema/validator.go ToMessage")], observe=["Actor.Feed"], tech=SEQ)
prop("A04", "Typed handlers get exactly the converted arguments",
 "A typed handler is called with each parameter converted to its argument's type, null becoming the zero value and surplus parameters ignored; too few or inconvertible parameters give an invalid-params error without calling it, and no parameter list makes the server panic. Its result reaches the caller as the JSON of the returned value and its error as the error answer; functions whose signature does not fit (variadic ones included) are refused at registration. Whether a number is taken for a text argument is left open.",
 ["inputs", "configurations"], "all params lists up to length 3 over a value alphabet x a set of handler signatures (scalars, strings, lists, maps, structs, pointers, interfaces, context/request first argument)",
 "Tests call four typed handlers with a few arguments.",
 ["http/typewrap.go", "http/request.go"], [("wrapTyped", "http/typewrap.go"), ("interfaceToValue/valueToInterface", "http/typewrap.go")], observe=["Actor.OnTyped/OnTypedContext/OnTypedRequest + Feed"], tech=SEQ)
# ---------------------------------------------------------------- http
prop("H01", "The HTTP/1 endpoint maps every outcome to one HTTP answer",
 "For every HTTP request the HTTP/1 handler answers exactly once: 405 to a method other than POST, 400 to a body that is not a JSON-RPC message, 200 with an application/json body holding the answer (and its trace id in the X-Trace-Id header, not in the body) when the actor produces one, 200 with an empty body for a notify, the handler's own HTTP response (a WrappedResponse, or for a notify also a SimpleResponse) with its status, headers and body when it returns one, and 500 when the actor gives any other error. A result that cannot be encoded is answered with an internal-error message carrying the request's id.",
 ["inputs", "configurations"], "all combinations of HTTP method, body class, message kind, id, trace id and handler outcome",
 "Tests check status and body of a few combinations and never response headers.",
 ["http/h1_server.go", "http/errors.go"], [("ServeHTTP", "http/h1_server.go")], observe=["http.ResponseWriter: status, header as sent, body"], tech=SEQ)
prop("H02", "All transports give the same answer to the same call",
 "The same request sent through the HTTP/1, WebSocket or HTTP/2 client, to the transport's own handler or to the gateway on one port, reaches the same handler with the same method and params and returns the same result or RPC error with the caller's own id and trace id. The gateway picks the transport from the HTTP version and the Upgrade header (in any letter case) only, and request messages passed to a client keep their content.",
 ["inputs", "histories", "configurations"], "all call sequences up to length 2 over a request alphabet x every client/handler pairing, compared with the in-process actor",
 "Tests use one or two calls per transport and compare nothing across transports.",
 ["http/gateway_handler.go", "http/h1_client.go", "http/ws_client.go", "http/h2_client.go", "http/client_factory.go"], [("protocol detection", "http/gateway_handler.go"), ("per-transport encode/decode", "http/*_client.go, http/*_server.go")], observe=["Client.Call/UnwrapCall/Send", "handler invocations"], tech=SEQ)
prop("H03", "The HTTP/1 client reports every server answer truthfully",
 "A call through the HTTP/1 client returns a message if and only if the server answered status 200 with a valid JSON-RPC body, with the content of that body and the trace id the caller gave the request; any other status comes back as an error that carries the server's status code and body, and an invalid body, a broken connection or a timeout as an error. The request on the wire is a POST of the encoded message with the JSON content type, the caller's trace id and all extra headers, and unwrapping gives the decoded result or the server's RPC error.",
 ["inputs", "fault_sequences", "configurations"], "all server behaviours (status x body class x truncation point x connection drop) x request alphabet x client options",
 "Tests only meet well-behaved servers.",
 ["http/h1_client.go"], [("request/Send", "http/h1_client.go"), ("UnwrapCall", "http/h1_client.go")], observe=["H1Client.Call/UnwrapCall/Send", "raw HTTP request seen by the server"], tech=SEQ)
prop("H04", "A client's settings act on its own connections and only there",
 "NewClient builds the HTTP/1, WebSocket or HTTP/2 client for the URL schemes http/https, ws/wss and h2/h2c - streaming exactly for the last four - and refuses any other URL with an error. A client asks for the path and query of its URL, and its extra headers go, with all their values, with every HTTP/1 request and with every connection a streaming client opens after they were set, and never with another client's. A TLS connection is made only to a server whose certificate the client's own TLS settings accept (the system's, when none were set), whatever other clients in the program are configured to do; otherwise the caller gets an error and no handler runs.",
 ["inputs", "configurations", "histories"], "all URL scheme x remainder combinations, all lists of up to three header flags, all sequences of set-headers/call/notify/close on two clients x every client/handler pairing, all TLS settings of two clients x scheme pairs x call orders x servers that ask for a client certificate",
 "Tests configure one client per server; leaks between clients and stale or missing settings on a reopened connection need pairs and histories.",
 ["http/client_factory.go", "http/client_util.go", "http/h1_client.go", "http/ws_client.go", "http/h2_client.go", "http/streaming_client.go"],
 [("scheme selection", "http/client_factory.go NewClient"), ("extra headers", "http/h1_client.go request/Send, http/streaming_client.go connect"), ("TLS settings", "http/h1_client.go connect, http/ws_client.go Connect, http/h2_client.go HTTPClient")],
 observe=["NewClient", "HTTP request seen by the server", "Client.Call"], tech=SEQ)
prop("H05", "A server serves exactly until it is told to stop",
 "ListenAndServe answers requests at the bind address - over TLS with the first TLS setting that is not nil, otherwise in the clear - until its context is cancelled, and then returns and the address can be bound again, also when the context is cancelled before or during the start or while a request is being handled. An address that is in use or invalid, or TLS files that cannot be used, are reported as an error and leave nothing listening, and the present holder of the address is not disturbed.",
 ["configurations", "fault_sequences", "histories"], "all lists of up to two TLS settings (good, another server's, missing, junk, mismatched) x handler x moment of cancellation, restarts on one address, all invalid and taken addresses",
 "The tests start servers and never stop or misconfigure one.",
 ["http/server_utils.go"], [("ListenAndServe", "http/server_utils.go"), ("choice of the TLS setting", "http/server_utils.go")], observe=["ListenAndServe return", "connections to the address", "calls over it"], tech=SEQ)
# ---------------------------------------------------------------- auth
prop("U01", "Only configured credentials pass, each with its own identity",
 "With an auth configuration in place a request reaches the protected handler if and only if its Authorization header carries a configured basic pair, a configured bearer token, or a JWT correctly signed with the configured secret and not expired; otherwise it is answered 401 and never reaches the handler, and no header value makes the check panic. The identity handed to the handler is exactly the user name and settings belonging to the credential that matched, whatever requests came before, and without a configuration every request passes with no identity. Validating a configuration refuses exactly those that contain an empty user name, password, bearer token or JWT secret.",
 ["inputs", "configurations", "histories"], "all configurations over up to two entries of each kind x all header values of an adversarial alphabet, all request sequences up to length 3 on one handler, and pairs of clients with different credentials over every transport behind the handler",
 "Tests try three or four headers per scheme on a fresh handler.",
 ["http/auth_handler.go"], [("TryAuth/jwtAuth", "http/auth_handler.go"), ("identity context", "http/auth_handler.go ServeHTTP")], observe=["AuthHandler.ServeHTTP", "AuthInfoFromContext"], tech=SEQ)
prop("U02", "A token stops working when it expires, cached or not",
 "For every sequence of requests and passages of time, a request with a JWT is accepted exactly while the token's expiry time has not passed, and gives the token's own identity each time, no matter how often or how recently the token was accepted before or how many other tokens were used in between.",
 ["histories", "configurations"], "all sequences up to the depth bound of requests (several tokens with different expiries, forged tokens, more tokens than the cache holds) interleaved with clock advances, under a virtual clock",
 "Needs control of time and of cache eviction; the tests never let time pass.",
 ["http/auth_handler.go"], [("token cache with expiry re-check", "http/auth_handler.go jwtAuth")], observe=["AuthHandler.ServeHTTP"], tech="exhaustive exploration of request/clock-advance sequences on the real handler under a virtual clock, compared with a reference model")
# ---------------------------------------------------------------- tools
prop("T01", "The command-line tools send and print what their arguments say",
 "Run with a method and arguments, jsonrpc-call sends exactly one request, jsonrpc-notify exactly one notify and jsonrpc-benchmark exactly clients x calls requests with distinct ids, to the server given by -c, else by JSONRPC_CONNECT, else the default, with that method, the JSON values of the arguments and all -header values, over every supported scheme. The call tool prints exactly the answer to its own request as one JSON document and exits 0 (also for an RPC error), the benchmark prints one line of consistent figures, and jsonrpc-watch prints each message pushed on its connection once and in order, plus the answer to its request. Bad arguments, headers or urls, an unreachable server or an abnormal HTTP status give a message on standard error, nothing on standard output and a non-zero exit status, and with bad arguments nothing is sent.",
 ["inputs", "configurations", "fault_sequences"], "all argument lists up to length two over an alphabet x methods x schemes x url sources x header sets x count options x faults, every one run as a real process against a recording server",
 "The tools have no tests at all.",
 ["cli/call/main.go", "cli/notify/main.go", "cli/benchmark/main.go", "cli/watch/main.go", "http/client_util.go"],
 [("argument, url and header handling", "cli/*/main.go"), ("benchmark clients", "cli/benchmark/main.go RunCallBenchmark"), ("watch printing", "cli/watch/main.go")],
 observe=["process exit status, standard output and standard error", "requests seen by the server"], tech="exhaustive bounded enumeration of command lines and server scripts, each run as a real process built from the current tree, compared with a reference model")
prop("T02", "The tools lose and invent nothing under any timing",
 "However the peer's messages, pauses and connection ends interleave with the tool on a WebSocket: jsonrpc-watch prints everything pushed on its connections exactly once and in order, and with a method sends its request once on every connection and prints each answer once; when a connection is refused or closed it connects again one second later, as long as fewer attempts in a row failed than -retry allows (an established connection starts the count again), and otherwise ends with status 0. jsonrpc-benchmark finishes once its clients x calls calls, each client's one after the other, have ended, and the figures it prints are those of the times the calls took. jsonrpc-call prints the answer to its own request and nothing else, whatever surrounds it, and never a result when there is no answer.",
 ["schedules", "fault_sequences", "histories"], "all schedules up to the deviation bound of the tools' own main functions with scripted peers: refusals and connection ends x pushes x retry limits, clients x calls x answer delays, messages around an answer",
 "The tools have no tests; which message or connection end comes first relative to the tool's own steps is a matter of scheduling.",
 ["cli/watch/main.go", "cli/benchmark/main.go", "cli/call/main.go"], [("retry loop and wait", "cli/watch/main.go run/connect"), ("client goroutines and result channel", "cli/benchmark/main.go RunCallBenchmark")],
 observe=["standard output by the end of the process", "exit status", "connection attempts and their virtual times", "requests seen by the peer"], tech=CONC)
# ---------------------------------------------------------------- streaming client
prop("K01", "Every call gets its own response, whatever the interleaving",
 "On a streaming client, whatever the interleaving of concurrent calls, responses in any order and server pushes, each call returns the response the server sent for that very call, with its content and trace id, carrying the id the caller used - also when several callers use the same id - and no response is delivered twice or to another caller. Messages that answer no outstanding call (by then or any more), and pushed notifies and requests, reach the message handler exactly once each, in arrival order.",
 ["schedules", "histories"], "all schedules up to the deviation bound of 2-3 concurrent callers (equal and distinct ids, int and string) x response orders x duplicate and unsolicited messages",
 "Depends on goroutine interleavings inside the client; tests run one lucky schedule.",
 ["http/streaming_client.go"], [("pending request table", "http/streaming_client.go request/handleResult"), ("id replacement", "http/streaming_client.go request")], state=[("pendingRequests", "calls waiting for a response", "http/streaming_client.go")], observe=["Call return values", "OnMessage", "messages given to the transport"], tech=CONC)
prop("K02", "Every call ends: answer, error, or timeout - never early",
 "Every call on a streaming client returns: with the response if one arrives within the ten-second request timeout, with an error if connecting (a server that never completes the handshake included) or sending fails, and otherwise with the timeout error once ten seconds have passed - not before - even when the connection is lost, a write fails, the server stays silent or the client is closed meanwhile. A late response to a timed-out call is never given to a call with another id, and the timer of an answered call never cuts short a later call that reuses the id.",
 ["schedules", "fault_sequences", "histories"], "all schedules up to the deviation bound of calls x response/silence/connection loss/write failure/close at every step x virtual clock",
 "Needs fault injection at every step and ten-second timeouts under all interleavings.",
 ["http/streaming_client.go"], [("request/expire", "http/streaming_client.go"), ("Send", "http/streaming_client.go"), ("Reset/handleError", "http/streaming_client.go")], observe=["Call return value and virtual return time"], tech=CONC)
prop("K03", "A closed or lost connection is reported once and can be reopened",
 "When the connection ends - closed by the client, lost, failing on read or write, or cancelled through its context - every Wait on it returns, the transport is closed, a close handler registered before the end runs exactly once for it and is then unregistered, calls still sending get an error, and nothing panics or is left running, whatever happens concurrently. Afterwards the client reports itself disconnected and the next call or connect establishes a fresh, fully working connection.",
 ["schedules", "fault_sequences", "histories"], "all schedules up to the deviation bound of connect, calls, close, read failure, write failure and context cancellation, followed by reconnection and a further call",
 "Tests close an idle client once; the races between close, loss and use need schedule control.",
 ["http/streaming_client.go", "http/ws_client.go", "http/h2_client.go"], [("Close/Reset/handleError", "http/streaming_client.go"), ("transport Close/Connected", "http/ws_client.go, http/h2_client.go"), ("Wait", "http/streaming_client.go")], observe=["Wait", "OnClose", "Connected", "goroutines left at quiescence"], tech=CONC)
prop("K04", "Sent messages go out once, whole, and in order",
 "Messages sent one after another by one goroutine on an open streaming client reach the transport exactly once each and in that order, and concurrent senders and callers never cause two writes on the connection at the same time. Sending before connecting opens the connection first, and more messages than the internal queue holds are neither lost nor reordered.",
 ["schedules", "histories"], "all schedules up to the deviation bound of 2-3 senders/callers, with a transport that detects overlapping writes, and bursts larger than the queue",
 "Overlap and reordering only appear under particular interleavings.",
 ["http/streaming_client.go"], [("send channel and single send loop", "http/streaming_client.go Send/sendLoop")], observe=["sequence of transport writes"], tech=CONC)
prop("K05", "Concurrent first use opens exactly one connection",
 "However many goroutines first use a streaming client at the same time, exactly one connection is opened, the connected handler runs exactly once per connection before any message from it is delivered, and all of the users succeed on it. If opening fails, every user gets an error, nothing is left behind, and a later attempt can succeed.",
 ["schedules", "fault_sequences"], "all schedules up to the deviation bound of 2-3 concurrent Connect/Call/Send users x dial success/failure patterns",
 "Double dialing needs an interleaving the tests never produce.",
 ["http/streaming_client.go"], [("connect lock", "http/streaming_client.go Connect")], observe=["transport Connect calls", "OnConnected", "Call results"], tech=CONC)
# ---------------------------------------------------------------- streaming servers
prop("V01", "A streaming session answers each request exactly once",
 "On a WebSocket or HTTP/2 session every request received is answered at most once, and exactly once unless the session ends meanwhile, with its own id and trace id, notifies are not answered, and answers and pushed messages go out as whole messages that never overlap on the connection, whatever the interleaving of handlers. With goroutine spawning off, messages are handled one at a time in arrival order.",
 ["schedules", "histories"], "all schedules up to the deviation bound of 2-3 in-flight messages with handlers that finish in any order, push through the session, or fail",
 "Depends on interleavings of handler goroutines and the session's writer.",
 ["http/ws_server.go", "http/h2_server.go"], [("recvLoop/msgReceived", "http/ws_server.go, http/h2_server.go"), ("single send loop", "http/ws_server.go, http/h2_server.go")], observe=["bytes written to the connection", "handler invocations"], tech=CONC)
prop("V02", "A session can end at any moment without harm",
 "Whenever a WebSocket or HTTP/2 session ends - peer closes, malformed message, handler error, request context or server shutdown, write failure - at any point relative to handlers still running, and also when the peer has stopped taking data, the close callbacks of the actor and each child run exactly once with that session, nothing panics, the response writer is not used after the HTTP handler has returned, and all goroutines of the session finish once the handlers do.",
 ["schedules", "fault_sequences"], "all schedules up to the deviation bound of session end causes x in-flight requests x pushes",
 "The failure needs teardown to race with a handler; tests only tear down idle sessions.",
 ["http/ws_server.go", "http/h2_server.go", "http/request.go"], [("wait / HandleClose", "http/ws_server.go, http/h2_server.go"), ("done channel", "http/ws_server.go, http/h2_server.go")], observe=["OnClose calls", "panics", "writes after return", "goroutines left"], tech=CONC)
prop("V03", "Session pushes arrive in order and never wedge the server",
 "Messages pushed through a session by one goroutine reach the peer in order, each exactly once, while the session is open, including when pushed from inside a handler of the same session. A peer that takes messages slowly loses none, and pushing to a session that has ended, or that ends while the push waits for room, returns instead of blocking forever, however many messages are pushed.",
 ["schedules", "fault_sequences", "histories"], "all schedules up to the deviation bound of pushes by handlers and by outside goroutines x session end at every point x bursts beyond the queue size",
 "Needs a push racing with or following teardown and a full queue.",
 ["http/ws_server.go", "http/h2_server.go"], [("Send / sendChannel", "http/ws_server.go, http/h2_server.go")], observe=["messages received by the peer", "Send returning"], tech=CONC)
prop("E01", "The FIFO service behaves as one atomic queue under concurrency",
 "Concurrent operations on the FIFO example service behave as if executed one at a time in some order consistent with real time: each push appends its items, pop removes the last item or fails on empty, list and get show a state that existed, and an answer already given never changes. Every item pushed after a subscribe was answered is pushed to that subscriber exactly once in order while it stays connected, and no concurrency of subscribe, push and disconnect crashes the service.",
 ["schedules", "histories"], "all schedules up to the deviation bound of 2-3 concurrent clients over short operation scripts, checked for linearizability against a sequential queue",
 "Tests do not run the example at all.",
 ["examples/fifo/main.go"], [("lock and fifo slice", "examples/fifo/main.go"), ("subs map", "examples/fifo/main.go")], observe=["responses and pushes at the clients"], tech=CONC)

CLAIMED = [l.strip() for l in open(os.path.join(ROOT, "tools", "claimed.txt")) if l.strip()] if os.path.exists(os.path.join(ROOT, "tools", "claimed.txt")) else []

prop("C09", "Concurrent use of messages and helpers changes no outcome",
 "Decoding, encoding, cloning, answering, argument guessing, big integer conversion, parameter decoding, name checks and cache keys give each goroutine exactly what they give it alone, however many goroutines do such things at the same time and also when they work on the same message. No message and no predeclared error changes because others read it, encoded it or built answers from it, and what is done afterwards gives what it always gave.",
 ["schedules", "histories"], "all schedules up to the deviation bound, at statement granularity, of every pair and chosen triples of operations over a corpus of messages, also shared ones",
 "Shared scratch buffers, caches and tables show only when a switch falls between two particular statements.",
 ["messageimpl.go", "parse.go", "utils.go", "validators.go", "errors.go"],
 [("messages are values built anew", "messageimpl.go, parse.go"), ("predeclared errors", "errors.go")], observe=["results of the functions"], tech=DENSE, note=DENSENOTE)
prop("S06", "One schema serves many goroutines at the same time",
 "When several goroutines validate values against the same schema, each with a validator of its own, or export, compare or build schemas (also from one decoded description) at the same time, every one of them gets the verdict, error path, description or error that it gets alone. No amount of such use changes what a schema accepts or says afterwards.",
 ["schedules", "histories"], "all schedules up to the deviation bound, at statement granularity, of every pair and chosen triples of validations, exports, comparisons and builds on shared schemas",
 "A server validates all its requests against one schema object; unit tests validate one value at a time.",
 ["schema/schema.go", "schema/validator.go", "schema/builder.go"],
 [("schemas are not written after building", "schema/schema.go"), ("path stack of the validator", "schema/validator.go")], observe=["Validate, ScanParams, ScanResult", "Map, SchemaToString", "Equal", "Build"], tech=DENSE, note=DENSENOTE)
prop("A05", "Messages fed at the same time do not touch each other",
 "When several messages are fed to one actor at the same time, each runs the handlers, with the arguments, and gives the answer or error that it gives when fed alone - converted arguments, schema verdicts, RPC errors, recovered panics, child actors and the missing handler included. The answer carries its own request's id and trace id, and the messages fed are not changed.",
 ["schedules", "histories"], "all schedules up to the deviation bound, at statement granularity, of every pair and chosen triples of feeds over an actor tree with typed, checked, failing, panicking and missing handlers",
 "Handlers run concurrently in every server; tests feed one message at a time.",
 ["http/request.go", "http/typewrap.go"], [("Feed and wrapResult", "http/request.go"), ("typed wrappers", "http/typewrap.go")], observe=["Actor.Feed", "arguments of handlers"], tech=DENSE, note=DENSENOTE)
prop("H06", "HTTP/1 exchanges at the same time stay separate",
 "HTTP/1 requests handled at the same time get each the status, headers, body and identity they get alone: no answer, trace id, header, credential or identity of one shows up in another. Calls and sends made at the same time through one or several HTTP/1 clients, also of one and the same message, send each their own complete request and return their own answer or error, and leave the message as it was.",
 ["schedules", "histories"], "all schedules up to the deviation bound, at statement granularity, of every pair and chosen triples of HTTP/1 requests, authentications and client calls",
 "Servers and clients are used from many goroutines; tests make one call at a time.",
 ["http/h1_server.go", "http/h1_client.go", "http/auth_handler.go", "http/request.go"],
 [("ServeHTTP", "http/h1_server.go"), ("jwt cache", "http/auth_handler.go"), ("request, Send", "http/h1_client.go")], observe=["response status, headers, body", "identity in the request's context", "request on the wire", "Call and Send"], tech=DENSE, note=DENSENOTE)

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            o = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]),
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"],
                                  state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                                  mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  observe_at=p["observe"], hook_needed=p["hook"]))
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(o) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in CLAIMED:
            note = p["note"] or (CONCNOTE if p["tech"] == CONC else SEQNOTE)
            checks.append(dict(property=p["id"], quick_cmd=f"python3 mc/run.py {p['id']} --tier quick",
                               thorough_cmd=f"python3 mc/run.py {p['id']} --tier thorough",
                               evidence_file=f"evidence/{p['id']}.json",
                               technique=p["tech"], level="model_checking", level_note=note))
        else:
            na.append(dict(property=p["id"], reason="check not built yet"))
    m = dict(version=1, setup_cmd="python3 mc/run.py --setup", checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()
