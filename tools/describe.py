#!/usr/bin/env python3
"""Writes the bounds and assumptions of each check into checks.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

COMMON = [
    "the engine's semantics of Go (go/ssa of /repo, its dependencies and the standard library) are those of the compiler; sampled paths and every counterexample are replayed against the compiled code to test this",
    "secp256k1, SHA-256, HMAC, ChaCha20-Poly1305 and Schnorr are uninterpreted where an operand is symbolic and the real functions where all are concrete; hashes do not collide, a signature verifies only for what was signed, ECDH agrees on both sides, a key other than the right one opens nothing",
    "a symbolic slice length is bounded by the entry's length cap; loops are unrolled as far as the path goes (a cut-off path would make the evidence say exhaustive=false)",
]
NODE = [
    "lnd is a stand-in that implements the client interfaces the code calls and records every call; nodes have fixed concrete keys",
    "goroutines are switched at synchronisation operations (channels, locks, timers, atomics, contexts) and at accesses that race by happens-before, with the stated number of preemptions; time is virtual, a timer fires when nothing else can run or the entry advances the clock",
]
RAND = ["crypto/rand yields distinct unpredictable values (counter-derived)"]
OUT = "Outside: "
D = {
'C01': (["every presence pattern of the 10 fields; with all other fields present or absent each field takes its full domain: integers all of uint64, expiry every whole second of int64, text and bytes of 0,1,3,252,253,1500 bytes (thorough up to 65535) of any content, 10 feature sets up to bit 2040 (thorough 65535), any valid key, any 64-byte signature",
   "histories of two (thorough three) offers of different shapes"],
   ["expiries hold whole seconds; an instant equal to Go's zero time stands for no expiry", "an offer without any field but a signature is not an offer"]),
'C02': (["as C01 for the fields of a request"], []),
'C03': (["as C01 for the 15 fields of an invoice; presence in two groups, one free while the other is all or nothing (thorough: all 2^15 patterns)"], ["times and durations hold whole seconds"]),
'C04': (["every byte string of up to 5 (thorough 7) bytes for each message", "streams of up to 2 (thorough 3) whole records, any known type or an unknown odd/even type of 1, 3 or 9 bytes, in ascending order or not, values of any bytes with every legal size and those one off, cut short or extended"],
   ["strings longer than the record bounds; feature vectors in which more than the stated bits are free (each set bit is a case of its own)"]),
'C05': (["up to 9 (thorough 20) records of fixed types with symbolic values in 4 (8) digest orders and 5 supply orders; up to 2 (3) records of any uint64 types; values up to 65536 bytes (thorough 1 MiB) with symbolic bytes; 31, 64, 65, 130 (thorough 600) records; two computations at the same time with 2 preemptions"],
   ["the order of sibling digests is chosen by mode for large trees (ascending, descending, pseudo-random), freely for up to 2 records"]),
'C06': (["streams of up to 2 (thorough 3) records of any known type with every legal size, or unknown odd types of 1, 3, 9 bytes; messages with any prefix of the fields, every third left out, up to 4 unknown records, signature-range records included"],
   ["a change of a record changes the root: by collision freedom of the hash together with the exact preimage"]),
'C07': (["any 32-byte root, any key, any 64-byte signature; signatures by the key itself or another over any of the three tags and the same or another root, altered in any byte of r or s by any mask; histories of 3 validations of alike messages in every order; signatures over a stream of several records, decoded"],
   []),
'C08': (["every combination of present and absent mandatory fields, integers all of uint64, text of the sizes in C01"], ["the signature itself is judged by C07"]),
'C09': (["any minimum amount, quantity bounds, amount and quantity (all of uint64), chain present or absent, feature sets of C01, payer notes of 0..1500 bytes; three requests built from one offer, which stays unchanged"], []),
'C10': (["onions of 0,1,2,255,256,1366 and more bytes up to 65535 of any content; too long by 1 up to 128 KiB; every byte string up to 38 (thorough 64) bytes; announced lengths up to 2 off for 255..1366 (65535) bytes; readers that return one byte at a time or data with EOF; a reused message"], []),
'C11': (["every presence pattern, up to 2 (3) final payloads of any uint64 type >= 64 in any order, three payloads in every order, values of up to 65535 bytes; 10, 17, 33 (130) payloads in 5 orders with reply paths as long; every byte string of up to 6 (9) bytes; up to 3 (4) records of any type"], ["the record that holds a reply path is judged by C12"]),
'C12': (["records with up to 1 hop of arbitrary lengths, 2 (3) hops with announced lengths right, one off or past the end, arbitrary bytes as keys; records cut at each of 80 lengths; up to 27 (255) hops; encoding 0..512 hops and data up to 128 KiB"], []),
'C13': (["both fields present or absent with any keys; every byte string of up to 7 (10) bytes; up to 2 (3) records of any one-byte types with values of 0, 32, 33, 34 arbitrary bytes and a tail"], []),
'C14': (["whole strings for every description of 1-5 (9) symbolic bytes; any one byte in place of sampled (thorough all) characters; any 1-2 ASCII bytes inserted at the ends, a few inner places (thorough: more); joins at every position with 7 x 7 kinds of white space; free case of every letter with up to 2 joins; every prefix of up to 4 characters; every padding; offers of 600-2500 (20000) bytes in up to 40 parts"],
   ["non-ASCII white space between parts", "strings in which more than two characters are free"]),
'C15': (["any subset of 4 types handled x any subset sent, with and without reply path; any two handler types and payload types of uint64; 40 handlers and payloads; histories of 30 (100+) messages alike or not; each pair (triple) of messages with different reply paths, encrypted data and payload sets; replays after up to 2 others; any other message type; onions for other nodes; messages after eleven idle minutes"],
   ["a handler that fails ends the delivery of that message (later payloads are not delivered), as documented in the code", "a handler that registers handlers from within is unspecified"]),
'C16': (["messages of any bytes of 0..36 and about 1400 bytes, any message type of uint32; full-size onions with any blinding point, length, version or ephemeral key; payloads of up to 5 (6) arbitrary bytes for us or to pass on; route data of up to 5 (8) arbitrary bytes, or of junk sizes; handler and lnd failures from a list of errors including context errors, in sequences of 2 (3) messages; 30 (100) failures of 10 kinds; messages after eleven idle minutes"],
   ["a handler that never returns blocks the messenger by design (back-pressure)"]),
'C17': (["any next node key, any override key, reply paths, unknown records; every pair (triple) of messages with equal, negated or different blinding points, overrides and equal data; 30 (100) messages; 7 kinds of messages that cannot be passed on; 1 failing send; lnd taking up to 2 s to send; messages after eleven idle minutes"], []),
'C18': (["histories of 3 (4) operations over any uint64 types; 70 (130) types registered again and again; two callers at once with 2 preemptions; calls before the start and during or after the shutdown with 2 preemptions; a handler that takes 1.5 or 4 s meanwhile"], []),
'C19': (["routes of 1-3 hops, lnd failing at each call, routes without or with unusable hops, connected before or after 0..6 polls or never, 0-2 addresses, any peer key, messages too large; each pair (triple) of sends to 2 targets in every state; two sends at once with 1 preemption; lnd taking 2 s per call; callers that can and cannot go away"],
   ["routes have at least the stated hops: nil hop entries cannot come from lnd's RPC"]),
'C20': (["starting and stopping twice in turn or at once (2 preemptions); four causes of failure of both streams in every combination before or after a message; failures, messages and registrations while stopping with 2 preemptions; an hour of quiet after a failure before the stop"],
   ["Stop concurrent with Start and Start after Stop are not specified", "a shutdown callback that calls Stop synchronously", "a nil error on lnd's error channel"]),
'C21': (["1-3 (5) hops, 1-3 (4) blinded hops behind 0-2 (3) clear ones, direct connection, reply paths of 0-2 hops, 5 sets of final payloads including values of 252-600 bytes; a reply along the path of the request"], []),
'C22': (["1-3 (6) clear hops, 1-3 (4) destination hops, reply paths and final payloads; nodes repeated in a route; total sizes 1299-5000 around the limit; 1-40 hops, 0-60 destination hops; any two final types; each pair (triple) of requests that share hops, destinations or keys, also after a failure, and two at once"],
   []),
'C23': (["0-3 channels with 2 (3) peers, every state of the graph entry (missing, 17 kinds of failure, no node, 0-3 (4) channels); 2 peers with 1..1025 channels, 4-5 (7) peers; up to 2 required and 2 advertised features, all of uint16; 12 or 40 channels with 12 features; two calls on one generator in every pair of states; lnd taking up to 2 s for each answer, callers leaving at any point between; 2 calls at once with 2 preemptions"],
   ["channels are counted as listed by the node's graph entry"]),
'C24': (["public keys of any bytes with lengths 0..66; destinations none, one or both; paths of 0-2 hops with each key replaced by arbitrary bytes; up to 2 final payloads of any uint64 types; all outcomes of lnd, 8 kinds of error; hops without data; 4, 9, 25 hop paths, 65 payloads, 12 hop destinations; each pair (triple) of requests, and two at once"],
   ["an object with nil hop entries cannot come off the wire", "requests while or after the server stops are judged by C28"]),
'C25': (["up to 2 features of any uint64, 5-40 features with one free; failures of lnd; a generated route used as destination and as reply path; paths of 1-2 (3) arbitrary hops and 4, 9, 25 hops through a subscription and back; histories of 3 (4) requests; 2 requests at once with 2 preemptions"],
   ["cancelled contexts"]),
'C26': (["any subset of the fields; integers of 0-8 bytes of any value; text of 0-4 bytes, features of up to 4 bytes (each bit sampled), descriptions up to 3000 bytes; any key; two offers after each other or at once"],
   ["known finding: an expiry that equals Go's zero time is reported as absent (known_findings.jsonl)"]),
'C27': (["histories of 3 (4) messages of any kinds to a quick or slow subscriber; the end by client, send failure or server at any point among 4 messages; races with 1 (2) preemptions; 2 subscribers; each pair (triple) of messages with different paths; 40 (100) messages, 40 (100) subscriptions; 8 kinds of error of the stream; eleven minutes between messages or before the subscriber takes them"],
   ["a subscriber that takes nothing holds up the messenger by design until it ends"]),
'C28': (["every RPC, well-formed or not, before the start, with any subset of contexts ended; failures at each step of the start; call, end and start at once with 2 (3) preemptions; start and stop twice at once; stopping with up to 2 subscriptions, 5 troubles of lnd; 3 (4) waiting calls; any 33-byte identity; calls waiting eleven minutes for the start"],
   ["Stop before or at once with Start is judged by C33"]),
'C29': (["all 256 numbers of retries with success at any attempt or never; any wait from 0 to 24 h with up to 3 retries on a virtual clock; 4 kinds of failure after the connection; start and stop twice at once; attempts that take up to an hour and fail in any of 11 ways"],
   ["lndclient.NewLndServices is replaced by a recording stand-in in a generated copy of the module (go.mod of /repo is not touched)"]),
'C30': (["any version numbers of uint32, any wait of int64; every subset of the build tags with any other tag; each part missing; any listeners, networks and options; every method in the service descriptor"],
   ["the service descriptor generated from the proto file lists every RPC"]),
'C31': (["any 33 bytes as identity; 2 (more in thorough) ephemeral keys, any secret and error; 4 ways lnd's GetInfo fails; 2 (3) agreements with deadlines of their own at different times"], []),
'C32': (["each sequence of 3 (4) sends and routes to 2 targets, failing or not, 3 ways to connect; 20 (100) in a row; two servers one after the other; two requests at once"],
   ["randomness that is drawn but weak is outside: the generator is assumed good"]),
'C33': (["messenger, RPC server (with and without a waiting subscription) and daemon (connecting at the 1st, 2nd or no attempt of 2): stop before start, and both at once in either order with 2 (3) preemptions; up to 2 messages in lnd's stream"],
   ["attempts to connect that lie ahead when the daemon is stopped may still be made"]),
}
lnw = {'C%02d' % i for i in range(1, 15)}
checks = json.load(open(here + '/checks.json'))
for k, c in checks.items():
    b, o = D[k]
    c['bounds'] = b
    c['assumptions'] = COMMON + ([] if k in lnw else NODE) + (RAND if k in ('C19','C21','C22','C23','C24','C25','C32') else []) + [OUT + x for x in o]
checks = dict(sorted(checks.items()))
json.dump(checks, open(here + '/checks.json', 'w'), indent=1, ensure_ascii=False)
open(here + '/checks.json', 'a').write('\n')
