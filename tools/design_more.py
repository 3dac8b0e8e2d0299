per['O01']="Oracle: a small validator of data against a schema in the harness ($ref, allOf, type, properties, additionalProperties, required), applied to what enc makes of symbolic values of types that cover each rule of the generator: names and json tags, recursion, generics, special marshallers, same names. Requests and answers of a registered operation are validated against what its path documents; and the served document must decode. One known finding: bytes are documented as a base64 string but marshalled as a list of numbers (both are pinned by tests)."
per['M01']="Oracle: a parser of the Prometheus text format in the harness, written from its specification, and plain sums and counts kept by the harness. Label values and descriptions are symbolic, so the solver looks for one which is not escaped correctly. Numbers are chosen from eleven kinds (edges of buckets, tiny, huge, negative, NaN, infinities), as the formatting of a symbolic float can't be encoded. Observers and a scrape at once under the race detector."
per['F01']="Oracle: the configured text, parsed by the harness itself (strconv for numbers, a list of words for flags), for each kind of field of a struct type, with the presence of each key symbolic. The value given and a second configuration made from it are compared afterwards, spare capacity included. Fourteen types and tags that can't be configured must each be an error."
per['K01']="Oracle: a Go map for histories of Upsert, Delete, Get and Range; for filters a table of 41 values with the text each has in JSON, all pairs of which are compared with every order of the entries of their maps (the engine branches over it), and symbolic numbers and texts. Writers and a scan run in every interleaving within the preemption bound under the race detector."
per['T01']="Oracle: the condition itself, computed by the harness on symbolic values (for JSON a table of canonical texts). Each assertion is called in a goroutine on a testing.T: it must have failed exactly if the condition is false, and then not have returned. The assertions read and parse the source of the harness with go/parser inside the engine, where os.ReadFile gives the real source; sixteen shapes of calls have their source written down by hand. Known findings, all in package test (whose files count as tests here and are left alone): Nil and Empty panic when their call can't be located, EqualsJSON depends on the order of struct fields, BufferedRWC.Close wakes nobody and Write keeps its argument."

per['N01']="""The whole of net/http runs in the executor, server and client: accepting, parsing, keep-alive, the background read of a connection, Shutdown and its polling. Only the sockets are replaced: net.Listen and (*net.Dialer).DialContext are redirected to `harness/memnet`, an in-memory network written in Go with deadlines, half-close, refused connections and ports in use; replays use the loopback network and the real calls. The oracle is what a client written in the harness receives, what `shutdown.Done` says at which moment, and what is left running afterwards. Scheduling is delay bounded: goroutines run round robin until they block, with at most two (H_Late: three, with one preemption) deviations anywhere, each a choice; time passes only when nothing else can happen, so that the thirty second limits are exact. This found that the shutdown did not wait for requests in progress (Serve returns as soon as Shutdown begins) and that Listen hung if the shutdown had begun; through M01's H_Listen, that requests were counted twice."""
per['T02']="Oracle: the harness knows the operation, so it knows what running it once gives; the helpers of packages api and http are called as tests call them (on a testing.T of its own for api.Test). For the websocket client, a model of a worker object gives what each call returns and which frames it sends. Known finding: after a call that failed (or whose callback did) the next call may return at once with what the one before left behind, as errors are told in two frames and only one channel element is waited for; it lies in a file named test.go, which is left alone."
