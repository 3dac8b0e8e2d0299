import re,glob,json,os,sys
sys.path.insert(0,'/verif/tools')
per={
'C01':"Oracle: an LRU list of (key, size) in the harness. `H_History` replays every history of get/invalidate/shrink with sizes and limits being arbitrary 64-bit numbers, so overflow of the size sum is in; `H_Errors` adds loaders that fail or panic; `H_Concurrent` runs two goroutines under the race detector. Tests: fixed sizes, one history.",
'C02':"Oracle: a map of what was loaded, and a count per key of the loader's calls. Concurrency with race detection; the loader yields, so that loading overlaps.",
'C03':"Oracle: a loaded-at time per key with symbolic distances on the virtual clock (served exactly while younger than the time to live), counts of loads in flight per key, and the error each waiter got.",
'Y01':"Every interleaving (within the preemptions) of lockers, timed lockers and timers. Mutual exclusion is an invariant asserted while holding; that nothing hangs is decided by the scheduler: a state in which a goroutine can't go on is a path, and `vsym.Blocked` sees it.",
'Y02':"Oracle: builtin map. Histories of all operations incl. nil values; Range that stops; JSON/node round trip; of concurrent LoadOrStore/LoadAndDelete exactly one wins.",
'R01':"A reader that returns every way of cutting up to n symbolic bytes, with or without the error in the same call, wrapped EOFs, empty reads. Cancellation at every point; what was returned must not change afterwards (the reading goroutine is let go on).",
'L01':"Oracles in a few lines each (concatenation, permutation counting, membership); lengths and limits symbolic within 64 bits where they are numbers.",
'S01':"Holders, watchers, beginners and signals in every order; completion must not be seen while held and must be seen afterwards. Signals are delivered by the engine to what `signal.Notify` registered.",
'X01':"Oracle: list of (key, JSON) in order of attachment over a tree of contexts. JSON of a tag is compared with encoding/json's, values mutated after attaching.",
'X02':"All chains of up to the bound of the repository's and the standard library's wrappings over all kinds of causes; errors.Is/As, text, and the recorded stack compared.",
'X03':"Trees of spans and contexts, also started concurrently: identifiers must be prefixes and unique.",
'X04':"Trees of contexts of every kind; after any sequence of cancellations and passing deadlines (symbolic distances) exactly the descendants are done, with the cause of the nearest.",
'G01':"Messages, tags and arguments of symbolic bytes (quotes, control characters, broken UTF-8 included); the line must be valid JSON (checked with encoding/json) and hold everything; redaction with values of every shape, mixed with errors; long messages; concurrent loggers.",
'E01':"Oracle: identity; JSON as encoding/json writes it. Full 64-bit range of the numeric types, all short strings, structs with omittable fields of every kind in lists and maps.",
'E02':"Oracle: a JSON grammar in the harness (`valid`), compared on all byte strings of the stated length and on structured texts with one arbitrary change; decoded trees are compared with those built.",
'E03':"Oracle: 128-bit-wide arithmetic in the harness, over the full range of every source and target type; floats as IEEE terms decided by the solver; texts of digits.",
'E04':"Oracle: field list. Every combination of present and absent, unknown keys at any depth and with values of any kind; handler errors.",
'E05':"Complete product of node kinds and some forty target kinds: the oracle says whether they fit; everything else must be an error without a panic and leave nothing misfitting behind.",
'E06':"Package time runs from source. Durations over the full 64 bits, moments with symbolic nanoseconds and offsets, all short texts over the characters of durations.",
'E07':"Writer, reader and canceller in every interleaving; the sequence read must be a prefix of what was accepted, and complete after a close.",
'A01':"Oracle: which of the ten fields are in, out, required, auth. All combinations of presence, null and other keys; two requests in turn and at once; the client's and the server's half joined (`H_Trip`).",
'H01':"All statuses × wrappings × answers through net/http's real mux with a recording ResponseWriter that asserts the protocol (one header, nothing after). Texts of errors are symbolic, and must (not) be part of the body.",
'H02':"Client, mux, server and operation executed together; the transport is in memory and fails in every way it can; bodies are counted as opened and closed.",
'W01':"Oracle: per channel an integer and whether it is open. Every sequence of frames of 13 kinds over two channels with symbolic amounts; the frames the server sends are compared one by one with what the model says. The server side of x/net/websocket runs too, over a connection in memory.",
'W02':"Oracle: a reader of RFC 6455 frames in the harness, written from the RFC: which frames are messages, pings, the end; refusing a fragmented message is allowed, taking a part for the whole is not. Mask, payload and FIN are symbolic. Senders, pings, closing and cancelling at once under the race detector.",
}
try:
    exec(open('/verif/tools/design_more.py').read())
except FileNotFoundError: pass
out=[]
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
man={c['property']:c for c in json.load(open('/verif/MANIFEST.json'))['checks']}
for p in props:
    i=p['id']
    if i not in man: continue
    d='/verif/harness/p/'+i.lower()
    hs=[]
    for f in sorted(glob.glob(d+'/*.go')):
        s=open(f).read()
        hs+=re.findall(r'^func (H_\w+)',s,re.M)
    s=open(glob.glob(d+'/*.go')[0]).read()
    assume=re.findall(r'^//vsym:assume (.*)',s,re.M); outside=re.findall(r'^//vsym:outside (.*)',s,re.M)
    ev='/verif/evidence/%s.json'%i
    cost=''
    out.append(f"### {i} {p['title']}\n\n{per[i]}\n\n* harnesses: {', '.join(hs)}\n* explored: {p['quantifier']['text']}\n"+''.join(f"* assumed: {a}\n" for a in assume)+''.join(f"* outside: {a}\n" for a in outside)+f"* not settled by tests: {p['why_tests_cant']}\n")
na=json.load(open('/verif/MANIFEST.json'))['not_applicable']
s=open('/verif/DESIGN.md').read()
a=s.index('## Properties')
b=s.find('\n## Costs')
tail=s[b:] if b>=0 else ''
s=s[:a]+'## Properties\n\n'+'\n'.join(out)
if na: s+='\n### Not claimed\n\n'+''.join(f"* {x['property']}: {x['reason']}\n" for x in na)
s+=tail
open('/verif/DESIGN.md','w').write(s)
