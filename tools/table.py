I, S, H, F, G = "inputs", "schedules", "histories", "fault_sequences", "configurations"

prop("C01", "The size-bounded cache equals a bounded LRU model",
 "A size-bounded cache returns for a key the value its loader produced last and calls the loader only when the key is absent, was invalidated or evicted; failed loads are reported and not remembered. After every call the total size of the remembered entries is within the limit (an entry too large alone is not kept), and what is dropped to make room is what was used least recently. Concurrent callers see the same guarantees.",
 [I, H, S, F], "every history of the stated number of calls over up to 4 keys, all 64-bit sizes and limits, loader failures, and two goroutines in every interleaving",
 "The tests walk a handful of fixed histories with fixed sizes; eviction order depends on the whole history and on the sizes.",
 ["utils/caches/lru.go", "utils/caches/cache.go"], [("LRU.Get", "utils/caches/lru.go"), ("age heap", "utils/caches/lru.go")],
 ["result of Get", "calls of the loader"], [("entries", "what is remembered, by key and by age", "utils/caches/lru.go")],
 note="all histories up to the bound with symbolic sizes, limits and clock distances; concurrent use for two goroutines")

prop("C02", "The memo cache loads each key once until it is invalidated",
 "The unbounded cache returns for every key what its loader produced, calling the loader once per key until the key is invalidated, and never remembers failures. This holds for concurrent callers as well.",
 [H, S, F], "every history of lookups and invalidations up to the bound with symbolic values; up to three goroutines in every interleaving within the preemption bound",
 "The tests use single sequences; concurrent double loads need a specific interleaving.",
 ["utils/caches/mem.go"], [("MemCache.Get", "utils/caches/mem.go")], ["result of Get", "calls of the loader"],
 note="histories and interleavings up to the stated bounds")

prop("C03", "The request cache is single flight and honours its time to live",
 "Concurrent requests for the same key share one load, requests for different keys do not wait for each other, and a remembered result is served only until its time to live has passed. A failed load is reported to everybody who waited for it and not remembered, and what was loading when its key was invalidated is not served to later requests.",
 [H, S, F, I], "all sequences of requests with symbolic times to live, clock distances, values and failures, and up to three concurrent callers in every interleaving within the preemption bound",
 "A double load or a stale result needs a specific interleaving and a specific clock reading; tests sleep and sample one.",
 ["utils/caches/request.go"], [("RequestCache.Get", "utils/caches/request.go")], ["result of Get", "calls of the loader"],
 note="nanosecond exact symbolic clock; schedules up to the preemption bound")

prop("Y01", "The mutex excludes, and a timed lock attempt never hangs or lies",
 "At most one caller holds the mutex at any time, however it was acquired. A timed attempt reports success exactly when it acquired the mutex, gives up after its timeout when the mutex stays held, and leaves the mutex usable by others in both cases.",
 [S, I], "every interleaving of up to three goroutines with symbolic hold times and timeouts",
 "The race between the timeout and the acquisition depends on the schedule; tests see one.",
 ["utils/sync/mutex.go"], [("Mutex.TryLock", "utils/sync/mutex.go"), ("MetricsMutex", "utils/sync/mutex.go")], ["result of TryLock", "exclusion"],
 note="interleavings exhaustive for Lock/TryLock/Unlock; preemption bounded for the metrics mutex")

prop("Y02", "The typed concurrent map and set behave like builtin ones",
 "Every history of operations on the typed map and set gives what a builtin map would, including nil values and keys, early stops of iterations and encoding. Of several concurrent insertions or removals of the same key exactly one is told it won.",
 [H, S, I], "every history of operations up to the bound over up to three symbolic keys and values; concurrent winners in every interleaving",
 "The tests use few operations with plain values; nil values and concurrent winners are not reached.",
 ["utils/sync/map.go"], [("Map", "utils/sync/map.go"), ("Set", "utils/sync/map.go")], ["results of the operations"],
 note="histories up to the bound, sync.Map itself is executed as in the standard library")

prop("R01", "Reading a stream returns every byte, or stops on cancellation",
 "Reading to the end returns exactly the bytes the stream delivered before it ended, however they are cut into pieces and also those that come together with the end or an error, and returns the error of the stream. When the context is cancelled the call returns without waiting for the stream, with what was read so far, and nothing it returned changes afterwards.",
 [I, F, S], "all streams of the stated number of chunks with symbolic sizes, contents and final errors, and cancellation at any point of any interleaving",
 "Readers in tests are byte buffers: they never return data together with an error nor block.",
 ["utils/io.go"], [("ReadAll", "utils/io.go")], ["returned bytes and error"],
 note="chunk sizes up to and beyond the internal buffer; data races are detected by a happens-before monitor on each explored schedule")

prop("L01", "List and ordered map helpers do what they say for every input",
 "Splitting gives non-empty chunks of balanced length within the limit whose concatenation is the input; flattening, reversing, sorting, grouping, copying and set helpers keep exactly the elements they should; permuting visits every permutation exactly once. The ordered map behaves like a map that remembers the order of insertion.",
 [I, H], "all slices up to the bounds with symbolic elements, all limits, and all histories of ordered map operations up to the bound",
 "The tests check single examples.",
 ["utils/lists/lists.go", "utils/lists/sort.go", "utils/lists/perm.go", "utils/lists/set.go", "utils/lists/group.go", "utils/lists/reverse.go", "utils/maps/maps.go", "utils/ordered_map.go"],
 [("Split", "utils/lists/group.go"), ("Permute", "utils/lists/perm.go"), ("OrderedMap", "utils/ordered_map.go")], ["results"],
 note="symbolic elements and limits, lengths up to the bound")

prop("S01", "Shutdown completes only when nothing is held, and cannot be missed",
 "Once the shutdown has begun its start is seen by everybody, before or after, and its completion is signalled exactly when nothing is held any more. Beginning is idempotent and safe to do concurrently, the first signal begins the shutdown, the second cancels the root context, and work may take and release holds while others wait without crashing.",
 [S, H, F], "every interleaving within the preemption bound of up to three holders, watchers and signals",
 "Ordering between holders, waiters and signals is a matter of schedules; the tests run one.",
 ["shutdown/shutdown.go", "shutdown/accessors.go"], [("Shutdown.Begin", "shutdown/shutdown.go"), ("Hold", "shutdown/shutdown.go"), ("Watch", "shutdown/shutdown.go")],
 ["channels for started and done", "cancellation of the context"],
 note="signals are delivered by the engine's model of os/signal")

prop("X01", "Context tags are all visited, in order, as valid JSON",
 "Visiting the tags of a context visits every tag attached on its chain exactly once, oldest first, and siblings do not see each other's tags; a lookup finds the innermost one. Every tag is the JSON of the value it was made from at that time, whatever the value, and an error of the visitor ends the visit and is returned.",
 [I, H], "all chains and trees of contexts up to the bound with symbolic keys and values",
 "The tests check one short chain with plain values.",
 ["ctx/tags.go", "ctx/ctx.go"], [("WithTag", "ctx/tags.go"), ("RangeTag", "ctx/tags.go")], ["visitor calls"],
 note="chains up to the bound, values of every JSON kind with symbolic content")

prop("X02", "Wrapping errors never loses the cause, the stack or the gate",
 "Through any chain of wrapping the original error is still found by identity and by type, its message is kept and the recorded stack starts where the error was first wrapped; wrapping nothing gives nothing. The error gate swallows its own error, handed back unchanged or wrapped, and returns every other error as it is.",
 [I, H], "all chains of wrapping operations up to the bound, with symbolic choice of every step",
 "The tests wrap once or twice in fixed ways.",
 ["ctx/error.go", "utils/errors.go"], [("NewError", "ctx/error.go"), ("errors.Is/As", "utils/errors.go")], ["errors.Is", "errors.As", "Error()", "stack"],
 note="chains up to the bound")

prop("X03", "Tracking ids identify a request and every span in it",
 "A tracked context carries the suggested id when there is one and a fresh one otherwise, and everything derived from it can tell it. Every span started below it has an id of its own that begins with its parent's, also when spans are started concurrently, and a span ends with its parent or on its own.",
 [H, S, I], "all trees of spans up to the bound, and concurrent starts in every interleaving within the preemption bound",
 "Id collisions depend on the order and number of spans started.",
 ["ctx/span.go", "ctx/tags.go"], [("WithTracking", "ctx/span.go"), ("Span", "ctx/span.go")], ["ids and contexts"],
 note="fresh random ids are assumed distinct")

prop("X04", "Cancellation reaches every descendant, and only those",
 "Cancelling a context ends it and everything derived from it with the right cause and nothing else; deadlines are never later than the earliest one above. A detached context keeps the values but not the cancellation of what it was made from.",
 [H, S, I], "all trees of derived, timed and detached contexts up to the bound, any order of cancellations, symbolic deadlines",
 "The tests check a parent and a child.",
 ["ctx/ctx.go", "ctx/detach.go"], [("WithCancel", "ctx/ctx.go"), ("Detach", "ctx/detach.go")], ["Err", "Cause", "Done"],
 note="trees up to the bound with a symbolic clock")

prop("G01", "Logging is one valid JSON line per entry, complete and isolated",
 "An entry at or above the minimum level is written as exactly one line of valid JSON carrying the message, the level, the arguments and all tags of the context, whatever characters they contain, and one below is not written at all. Arguments that redact themselves are never written raw, the arguments of the caller are not modified, a logger attached to one context is not seen by others, and concurrent entries do not mix.",
 [I, S, G], "all messages, tags and arguments up to the stated lengths over bytes including quotes, control characters and newlines; levels; trees of contexts; two goroutines in every interleaving within the bound",
 "The tests look at a few plain entries.",
 ["ctx/log/log.go", "ctx/log/redacted.go", "ctx/helper.go"], [("Logger", "ctx/log/log.go"), ("Redacted", "ctx/log/redacted.go")], ["written lines", "custom log functions"],
 note="encoding/json is executed from its source")

prop("E01", "Marshal then unmarshal gives back the same value, for every type",
 "Every supported Go value, of every numeric width, string, time, list, map, pointer, struct and custom type, marshalled to a node and unmarshalled into its own type is the same value, and what the node says as JSON is what the standard library writes. Untyped data becomes the same nodes and back, keeping the order of pairs.",
 [I, "programs"], "all values of the stated types: every integer, string content up to the bound, structures with each part present or absent",
 "The tests round trip a few literals.",
 ["enc/enc.go", "enc/handler.go", "enc/numeric.go", "enc/scalar.go", "enc/list.go", "enc/map.go", "enc/pairs.go"],
 [("Marshal", "enc/handler.go"), ("Unmarshal", "enc/handler.go")], ["round trip values", "JSON text"],
 note="full 64-bit ranges; lengths up to the bound")

prop("E02", "JSON decoding accepts exactly JSON, and encoding inverts it",
 "Decoding accepts exactly the texts that are one JSON document and gives the tree the document stands for, keeping digits and order; anything else is an error and never a crash. Encoding any tree gives one JSON document that decodes to the same tree, and decoded data does not change when the buffer it came from is reused.",
 [I], "all byte strings up to the bound, longer ones over structural characters, numbers and escapes, and all trees of nodes up to the bound",
 "The tests decode a few documents; malformed ones are hardly covered.",
 ["enc/json.go", "enc/io.go", "enc/enc.go"], [("JSON.Decode", "enc/json.go"), ("JSON.Encode", "enc/json.go")], ["nodes", "errors", "bytes"],
 note="oracle: an independent recogniser of the JSON grammar in the harness; encoding/json is executed from its source")

prop("E03", "No number is silently changed when it is unmarshalled",
 "A number unmarshalled into any numeric type either keeps its value (dropping only the fraction for integers and rounding for floats) or is an error: it is never wrapped around, clipped or misread. Exactly the numbers that fit are accepted, also as map keys and in text.",
 [I], "every 64-bit integer and every float as number, all texts of numbers up to the bound, into every numeric width",
 "Overflow shows only at values tests do not use.",
 ["enc/numeric.go", "enc/handler.go", "enc/map.go"], [("unmarshalNumericInto", "enc/numeric.go"), ("Digits", "enc/numeric.go")], ["value or error"],
 note="bit precise, all 64-bit values; IEEE floats decided by z3's theory of floating point")

prop("E04", "Struct fields are matched by their names, and unknown keys reported",
 "A structure is marshalled to exactly its exported fields, in order, under the names its tags give, without those that are skipped or empty and omittable. It is unmarshalled from exactly these names: a field without key keeps its value, and every key without field, at any depth, is reported exactly once with its value to the handler that asks for it, whose error is returned, and ignored otherwise.",
 [I, G], "all subsets of present keys out of matching, near matching and unknown ones, in maps and ordered pairs, with symbolic values, at top level and nested in lists, maps, pointers and structures",
 "The tests unmarshal a few complete documents.",
 ["enc/handler.go", "enc/map.go", "enc/pairs.go", "enc/util.go"], [("parseTag", "enc/util.go"), ("Map.unmarshalInto", "enc/map.go"), ("UnhandledFields", "enc/map.go")], ["fields", "pairs", "calls of the handler"],
 note="all combinations of presence within the bounds")

prop("E05", "Marshalling and unmarshalling never panic; misfits are errors",
 "Unmarshalling any node into any type either succeeds, when the kinds fit, or returns an error that tells where: it never panics nor sets something that does not fit, and null resets whatever it is put into. Marshalling any value returns a node or an error wherever the part that can't be marshalled is, errors of custom types are handed on, factories decide what interfaces hold, and concurrent use is safe.",
 [I, "programs", S], "every kind of node, with lists and maps of every kind of leaf, into some forty kinds of targets, symbolic content; two goroutines in every interleaving within the preemption bound",
 "Tests cover matching types; most pairs of node and target are never tried.",
 ["enc/handler.go", "enc/scalar.go", "enc/list.go", "enc/map.go", "enc/nil.go", "enc/numeric.go", "enc/util.go", "enc/time.go"],
 [("unmarshalInto", "enc/*.go"), ("setInterface", "enc/util.go")], ["panic, error or value"],
 note="complete product of node kinds and target kinds; trees of depth two")

prop("E06", "Times and durations survive as text, as JSON and as nodes",
 "A duration written as text or JSON is the standard text (nothing is the empty text) and read back is the same duration; a moment keeps its nanoseconds and its offset through text, JSON and nodes. Text that is not a time or duration is an error and changes nothing, and numbers of a unit are converted exactly.",
 [I], "all durations of k units for every unit and symbolic k, every 64-bit duration as number, moments with symbolic fractions in several zones, all short texts over the characters of durations, and every single-character change of a timestamp",
 "The tests use one duration and the current time.",
 ["enc/time.go", "enc/scalar.go", "enc/numeric.go"], [("Duration", "enc/time.go"), ("Time", "enc/time.go")], ["values, texts, errors"],
 note="package time is executed from its source; calendar seconds are concrete, fractions symbolic")

prop("E07", "The node pipe is an ordered, lossless stream with a clean end",
 "Everything written to one end of a pipe is read at the other end exactly once and in order, followed by the end of the stream after it was closed; the two directions are independent. Writing after the end is an error, closing twice is harmless, and a cancelled context releases whoever waits without losing what was accepted.",
 [S, I, F], "every interleaving within the preemption bound of a writer, a reader and a cancellation; symbolic contents and timeouts; buffer sizes 0 to 2",
 "Ordering, closing and cancellation interact through schedules the test does not control.",
 ["enc/util.go", "enc/io.go"], [("Pipe", "enc/util.go")], ["Read, Write and Close"],
 note="preemption bounded")

prop("A01", "An operation receives exactly its inputs and answers exactly its outputs",
 "A request gives a fresh operation holding the inputs the request names, the authenticated user (never one named by the client's data), and what was registered for every other field; outputs start empty, what is missing but required or of the wrong kind is refused, and no request affects another. What a client puts into inputs arrives at the server and what the server puts into outputs arrives at the client, and nothing else does. What can't be an operation is refused when it is registered.",
 [I, H, S, G], "every combination of present, null and missing inputs, other keys and users, with symbolic values; two requests after one another and concurrently in every interleaving within the preemption bound",
 "The tests send one complete request.",
 ["api/handler.go", "api/json.go", "api/tag.go", "api/data.go"], [("NewHandler", "api/handler.go"), ("Server.Recv", "api/handler.go"), ("JSON", "api/json.go")], ["fields of the operation", "data sent"],
 note="all combinations of presence for an operation with ten fields")

prop("H01", "HTTP answers follow from what the handler returns, leaking nothing",
 "A handler's answer is delivered unchanged as JSON with status 200 (compressed only for those who accept that encoding), an empty one as 204, and an error with the status it carries however it is wrapped, 500 by default. The text of an error is told to the client below 500 and never from 500 on, the tracking id always is, an unreadable or overdue body is a 400, a call with a body longer than its limit (1Mb by default) a 413, both without calling the handler, and of several statuses written the first that is not informational counts. Liveness always succeeds and readiness is what was set last.",
 [I, F, S], "all statuses and wrappings, symbolic bodies, failing and overdue bodies, any sequence of writes of a handler, answers around the compression limit",
 "The tests check one path each.",
 ["http/server.go", "http/error.go", "http/mux.go", "http/call.go"], [("handleRequest", "http/server.go"), ("ErrorCode", "http/error.go"), ("response", "http/mux.go"), ("CallHandler", "http/call.go")], ["status, headers and body"],
 note="net/http's mux is executed from its source; the network is outside")

prop("H02", "An operation called over HTTP is the operation run at the server",
 "Calling an operation through the client runs it once at the server with the same inputs and brings exactly its outputs back. Any failure, of the operation, of the request or of the transport, is an error at the client carrying the status, without internals and without changing the caller's operation; what is no valid request is answered 400 before anything runs, what has no url or can't be an operation is refused, and no response is left open.",
 [I, F], "symbolic inputs including characters that need escaping, all kinds of failures, all statuses, and malformed bodies",
 "The tests make one successful call.",
 ["http/client.go", "http/api.go", "api/handler.go", "api/json.go"], [("Client.API", "http/client.go"), ("RegisterAPI", "http/api.go")], ["operation at both ends", "errors", "open responses"],
 note="client, transport interface, mux and server handler are executed together; the transport hands over requests in memory")

prop("W01", "Calls over a websocket reach the object of their channel, and only that",
 "Each channel a client opens has an object of its own that starts with what was registered; every call on it reaches that object with the data sent, in the order sent, and is answered exactly once on its channel, after its replies and before the next. Failing calls and data that does not fit are told to the client on that channel and change nothing else; what is unknown or panics ends that connection and no other, with a last word to the client; a closed channel is gone and the others stay.",
 [H, I, F, S], "every sequence of two frames (three when thorough) of every kind over two channels after a first one, with symbolic amounts; every presence of fields; two connections at once in every interleaving within the preemption bound",
 "The tests call one method of one object at a time, and never fail.",
 ["http/ws/channel.go", "http/ws/rpc.go", "http/ws/reflect.go", "http/ws/handler.go", "http/ws/conn.go"],
 [("RpcConn.onFrame", "http/ws/rpc.go"), ("Channel.onData", "http/ws/channel.go"), ("builder", "http/ws/reflect.go"), ("RpcHandler.Register", "http/ws/handler.go")], ["frames at the client", "state of the objects"],
 note="the server side of golang.org/x/net/websocket is executed too, over a connection in memory")

prop("W02", "Websocket messages arrive whole and in order, and no bytes do harm",
 "Every whole message of a client is handed to the handler exactly once, unchanged and in order, and nothing else is taken for a message; pings are answered; no bytes whatsoever make the server panic. Every message sent is one message at the client, also when several are sent at once or while the connection is being closed, and nothing follows the goodbye. An error of the handler, of whatever type, is told to the client and ends the connection, as the end of the client or of the context does, and nothing is left running.",
 [I, H, S, F], "all sequences of two frames (three when thorough) of every type, finished or not, with every masking key, three encodings of the length, symbolic payloads, cut at every byte; all strings of up to three bytes (four when thorough); senders, pings, closing and cancellation in every interleaving within the preemption bound",
 "The tests exchange one well formed message over a real connection.",
 ["http/ws/ws.go", "http/ws/conn.go", "http/ws/handler.go"],
 [("wsImpl", "http/ws/ws.go"), ("Conn.Loop", "http/ws/conn.go"), ("Handler.Server", "http/ws/handler.go")], ["messages handed over", "frames sent", "goroutines left"],
 note="the server side of golang.org/x/net/websocket is executed too, over a connection in memory; fragmented messages may be refused")

prop("O01", "The OpenAPI document describes the data that is really exchanged",
 "The schema of a type fits whatever is marshalled from its values: same kinds, the same names, no property more or less, also for recursive, generic and specially marshalled types (by methods of the value or of a pointer) and types with the same name; what an interface holds is not described any further. Requests conform to what the path of their operation documents and so do its answers, every path and whether a user is needed is documented. References never dangle and keys are valid, a type without a schema is an error each time it is asked for and leaves nothing behind, and no documentation or example can break the document, which is always served as valid JSON.",
 [I, H, G], "symbolic values of types covering every rule of the generator; all sequences of three requests for schemas with and without errors; twenty kinds of examples for every kind of type; every combination of registered handlers",
 "The tests compare the schema of one type with what it was; they never compare it with data.",
 ["api/openapi/schema.go", "api/openapi/openapi.go", "api/handler.go", "http/api.go", "http/server.go"], [("schemaFromType", "api/openapi/schema.go"), ("UpdateOpenAPI", "api/handler.go"), ("/openapi.json", "http/server.go")], ["schemas", "marshalled data", "the document"],
 note="validated against the data that enc really makes")

prop("N01", "A server that listens answers every request, and shuts down in order",
 "Every request of every connection to a listening server is answered, in order, with what the handler of its path gave, for the client of the package as for any other, and websockets work next to them; a part of a request is none, and who does not finish one is disconnected in time. Requests are made with the context given, and cancelled with it. When a shutdown begins, at whatever moment, no more connections are taken and idle ones are closed, every request in progress is answered before the shutdown is done, as is every websocket, and it is done within half a minute whatever clients and handlers do. An address which can't be listened to is an error, and Listen always returns.",
 [S, H, I, F], "all sequences of requests over two connections, clients that stop at every byte of a request, combinations of stuck clients and handlers, and shutdowns before, while and after listening, in every order of events within the delay bound, through the real net/http server and client",
 "The tests send one request and never shut down a server.",
 ["http/server.go", "http/mux.go", "http/client.go", "shutdown/shutdown.go", "http/ws/handler.go"], [("Listen", "http/server.go"), ("Hold", "shutdown/accessors.go"), ("Handle", "http/mux.go"), ("Client", "http/client.go")], ["what clients receive", "shutdown.Done", "what is left running"],
 note="connections are in memory (net.Listen and dialling replaced by a model) when executed symbolically, and those of the loopback network when replayed; race detection on; scheduling bounded by 2 delays at blocking operations")

prop("M01", "Metrics count every observation once, and are valid for Prometheus",
 "A counter is the sum of what was observed, a gauge what its function or counter says, and a histogram the exact count, sum and cumulative buckets, for each combination of labels separately; nothing is lost when observed at once, and everything printed meanwhile is of one moment. What is printed is valid in the Prometheus text format for any label value, description and number, and says exactly these values, once. A metric's name is registered once, a wrong number of labels is refused, an error of the writer is reported and breaks nothing; a server tells every registered metric at the path asked for, and counts each request to a handler once with its method, path and status.",
 [I, H, S, F], "symbolic label values and descriptions; all sequences of two observations (three when thorough) of eleven kinds of numbers over two series, all histories of three steps of a gauge; two observers and a scrape in every interleaving within the preemption bound; writers failing at every write",
 "The tests look for a substring in what one series prints.",
 ["utils/prom/histogram.go", "utils/prom/counter.go", "utils/prom/gauge.go", "utils/prom/labels.go", "utils/prom/metric.go", "utils/prom/custom.go", "utils/prom/http.go", "http/monitor.go", "http/mux.go", "http/metrics.go", "http/server.go"], [("Histogram", "utils/prom/histogram.go"), ("Counter", "utils/prom/counter.go"), ("Gauge", "utils/prom/gauge.go"), ("stringify", "utils/prom/labels.go"), ("Register", "utils/prom/metric.go")], ["what is printed"],
 note="read back by a parser of the text format; race detection on")

prop("F01", "A configuration is exactly what was configured, or an error",
 "Each tagged field is the value configured for it, or else its default, or else an error which names it; every other field, and the value given, stay as they are, and two configurations made from the same value do not affect each other. Numbers, flags, texts, times, lists, maps and types which read themselves, named or not, are read exactly, and anything which is not entirely such a value is an error, as is any type or tag which can't be configured: nothing is truncated or skipped and nothing panics.",
 [I, G], "symbolic values for all kinds of fields (all 64 bit numbers; texts within the length bound), all combinations of presence, and fourteen kinds of targets which can't be configured",
 "The tests read one valid configuration.",
 ["config/config.go"], [("From", "config/config.go"), ("unmarshalText", "config/config.go")], ["fields", "errors", "the value given"])

prop("K01", "The storage gives back what was stored last, and filters by value",
 "After any history of operations, a key holds what was stored last and nothing after it was deleted. A scan calls back for exactly the entries that match all the filters, each once and as of one moment, until it is told to end, and the storage can be used meanwhile; an error of the callback ends it and is given back, and an unknown comparison is an error. Two values are equal for a filter exactly if they are the same value, whichever types hold it in memory, and always give the same answer. Nothing is lost when used at once.",
 [H, I, S], "all histories of four operations (six when thorough), all pairs of 41 values in every order of the entries of maps, symbolic numbers and texts, all combinations of stored rows, filters and what the callback does, and two writers and a scan in every interleaving within the preemption bound",
 "The tests store three rows and look for one number.",
 ["storage/keyvalue.go", "storage/filter.go"], [("memKeyValue", "storage/keyvalue.go"), ("Filter.Check", "storage/keyvalue.go")], ["what Get and Range give"],
 note="race detection on; preemption bounded by 4 (8)")

prop("T01", "An assertion fails the test exactly if what it asserts is not so",
 "Each assertion of package test lets a test go on if what it asserts holds, and fails it there if not, for all values: equality of texts, of Go values, of types and of JSON however it is held, presence, emptiness, errors, parts of texts, elements taken off a list. Its message names the source of the argument or of what was assigned to it, and whatever an argument looks like, it never panics. The buffer for tests of connections gives what was appended, keeps what was written, and ends when closed.",
 [I, H], "symbolic numbers and texts; all pairs of 18 by 12 forms of JSON values, fourteen kinds of values which may be nil or empty; sixteen shapes of calls; all histories of three operations of the buffer (four when thorough), and a reader and a writer in every interleaving within the preemption bound",
 "The tests of the assertions try one value that holds.",
 ["test/assert.go", "test/equals.go", "test/util.go", "test/nil.go", "test/empty.go", "test/errors.go", "test/strings.go", "test/list.go", "test/io.go", "test/ctx.go", "utils/ast/call_args.go", "utils/stack.go"],
 [("jsonish", "test/util.go"), ("isNil", "test/nil.go"), ("empty", "test/empty.go"), ("Caller", "utils/ast/call_args.go"), ("BufferedRWC", "test/io.go")], ["whether the test failed", "whether it went on", "the source of arguments"],
 note="the assertions parse the real source of the harness; a zero testing.T when executed symbolically, a real test when replayed")

prop("T02", "Test helpers run the real operations and websockets, and tell the truth",
 "Testing an operation by the helpers of packages api and http runs it once with exactly its inputs, as the user named, and gives back exactly its outputs; a failing operation, what is missing but required and a user that can't be told are errors, and the operation of the caller stays as it is. Calls through the websocket test client return what that very call gave, every frame of the server is handed to the callback of its channel once and in order, what can't be opened is an error, and nothing is left running.",
 [I, H, S], "every combination of inputs, outputs and failures of an operation; every sequence of calls up to the bound",
 "The helpers are used by tests and not tested themselves: if they skip something, the tests relying on them pass silently.",
 ["api/test.go", "http/test.go", "http/ws/test.go"], [("TestAPI", "http/test.go"), ("Test", "api/test.go"), ("TestClient", "http/ws/test.go")],
 ["outputs and errors of the helpers", "frames given to the callback"],
 note="one goroutine using the client; schedules of client and server up to the preemption and delay bound; one known finding (a call after a failed one)")
