#!/usr/bin/env python3
"""Writes properties.jsonl (the list is edited here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

WIRE = "replies on a client TCP connection"
KEYSPACE = ("keyspace", "process-wide map from key to typed value", "datastruct/keys.go")

p("C01", "String commands agree with a map from keys to byte strings",
  "After any sequence of SET, MSET, GET, MGET and APPEND (mixed with commands that create or delete keys of any type), every reply is the one a map from keys to byte strings gives: GET and MGET return exactly the bytes last stored, in argument order, and nil for absent keys (MGET also for keys of another type). SET and MSET replace whatever the key held before, whatever its type, MSET applies all of its pairs left to right, and APPEND creates or extends a string and replies the new length in bytes.",
  ["histories", "inputs"], "all sequences of string commands over all keys and byte-string values",
  "No existing test executes a string command at all (redis/string_test.go only calls strconv.ParseInt); the property ranges over unbounded histories.",
  ["redis/string.go", "datastruct/string.go", "datastruct/keys.go"],
  [("string command handlers", "redis/string.go"), ("string storage", "datastruct/string.go")], [WIRE], [KEYSPACE])

p("C02", "Integer counters are exact, and reject non-integers and overflow unchanged",
  "INCR, INCRBY, DECR, DECRBY and HINCRBY add exactly the given signed 64-bit amount to the stored decimal integer (an absent key or field counts as 0), reply the sum, and leave the sum as the decimal text that GET or HGET returns. If the stored value is not a 64-bit integer, the amount is not a 64-bit integer, or the sum does not fit in 64 bits, the reply is an error and the stored value is unchanged; a counter never wraps.",
  ["inputs", "histories"], "all stored values and increments, with the 64-bit boundaries, in any order",
  "The tests check three hand-picked small increments of an in-memory hash field; boundaries, string counters and rejected operands are never executed.",
  ["redis/string.go", "redis/hash_table.go", "datastruct/string.go", "datastruct/hash_table.go"],
  [("counter arithmetic", "datastruct/string.go, datastruct/hash_table.go")], [WIRE], [KEYSPACE])

p("C03", "List commands agree with a sequence of byte strings",
  "After any sequence of LPUSH, RPUSH, LPOP, RPOP (with or without a count), LLEN, LRANGE, LINDEX, LSET, LINSERT and LREM, every reply and the list contents are those of the same operations on a plain sequence: order and duplicates are kept, negative indexes count from the end, out-of-range ranges are clipped, LREM removes exactly the requested occurrences from the requested side, LINSERT places the value next to the first occurrence of the pivot (-1 if there is none, 0 if there is no list), and LLEN always equals the number of elements. Pops on an absent list reply nil; LSET outside the list is an error and changes nothing.",
  ["histories", "inputs"], "all histories of list commands, all lengths, indexes (including extreme ones) and duplicate patterns",
  "list_test.go covers single operations on lists of at most 7 elements through internal methods; sequences of operations (such as pushing after LREM emptied the list) and the command layer are not covered.",
  ["redis/list.go", "datastruct/list.go"],
  [("doubly linked list with cached length", "datastruct/list.go"), ("list command handlers", "redis/list.go")], [WIRE],
  [("list", "doubly linked nodes, head, tail, length", "datastruct/list.go")])

p("C04", "Hash commands agree with a map from fields to byte strings",
  "After any sequence of HSET, HMSET, HSETNX, HGET, HMGET, HGETALL, HKEYS, HVALS, HLEN, HEXISTS, HDEL, HINCRBY and HINCRBYFLOAT, every reply is the one a map from fields to byte strings gives: a field written by HSET, HMSET or HSETNX reads back as exactly the bytes written even when they look like a number, HSETNX never overwrites, HLEN equals the number of fields, and HSET and HDEL reply how many fields they added and removed. HINCRBYFLOAT adds to a field holding a floating-point number (absent counts as 0) and replies the sum, which HGET then reads back; on any field that is not a number, or if the sum would not be finite, it replies an error and changes nothing.",
  ["histories", "inputs"], "all histories of hash commands over all fields and values, including every spelling of a number",
  "hash_table_test.go calls two internal methods with preset values; no test stores a hash through a command and reads it back.",
  ["redis/hash_table.go", "datastruct/hash_table.go", "util/strconv.go"],
  [("hash storage and numeric conversion", "datastruct/hash_table.go, util/strconv.go")], [WIRE],
  [("hash table", "field map plus cached length", "datastruct/hash_table.go")])

p("C05", "Set commands agree with a mathematical set",
  "After any sequence of SADD, SREM, SCARD, SISMEMBER, SMEMBERS, SMOVE and SPOP, every reply is the one a set of byte strings gives: SADD and SREM count only the members really added or removed, SMEMBERS lists every member exactly once, and SCARD always equals that number. SMOVE moves a member atomically (1 if it was in the source, else 0, and never loses it), and SPOP removes and returns distinct members: one without a count, otherwise min(count, size) of them.",
  ["histories", "inputs"], "all histories of set commands over all members",
  "set_test.go is entirely commented out: no set operation is tested.",
  ["redis/set.go", "datastruct/set.go"],
  [("set storage with cached length", "datastruct/set.go")], [WIRE],
  [("set", "member map plus cached length", "datastruct/set.go")])

p("C06", "Set algebra is exact and stored results are independent copies",
  "For any sets, SUNION, SINTER and SDIFF of one or more keys (repeated or absent keys included; an absent key is the empty set) return exactly the union, the intersection, and the first set minus all the others, without changing any operand. The STORE forms replace the destination, whatever it held and even if it is an operand, with exactly that result, reply its size and leave the destination absent when the result is empty; the stored set is a copy, so later changes to operands or destination do not affect one another.",
  ["inputs", "histories"], "all tuples of sets, overlap patterns, key lists and destination choices",
  "No test runs a set-algebra command.",
  ["redis/set.go", "datastruct/set.go"],
  [("pairwise set operators folded over the key list", "datastruct/set.go")], [WIRE])

p("C07", "Sorted-set membership and scores agree with a map from member to score",
  "After any sequence of ZADD (plain, NX, XX, INCR), ZINCR, ZREM, ZPOPMIN, ZPOPMAX, ZSCORE and ZCARD, the members and their scores are those of a map from member to score: ZADD replies how many members it added, ZREM how many it removed, ZSCORE gives the current score exactly (nil if absent), ZCARD equals the number of members, and ZINCR replies the new score. ZPOPMIN and ZPOPMAX return and remove min(count, size) members with their scores from the low or high end of the order, nothing else, and a removed or popped member is gone for every command until it is added again; scores that are not numbers are rejected without effect.",
  ["histories", "inputs"], "all histories of sorted-set updates, all float scores including infinities and ties, all sizes",
  "sorted_set_test.go builds one six-member set and never removes, pops, re-adds or re-scores at random; skip-list levels are random, so only many sizes and orders reach the faulty shapes.",
  ["redis/sorted_set.go", "datastruct/sorted_set.go"],
  [("dictionary plus skip list kept in step", "datastruct/sorted_set.go")], [WIRE],
  [("sorted set", "member dictionary and skip list with spans", "datastruct/sorted_set.go")])

p("C08", "Sorted-set ranges, ranks and counts follow one total order",
  "The members of a sorted set are totally ordered by score and then by member bytes, and every query sees that order after any history of updates: ZRANGE start stop lists positions start..stop (negative from the end, clipped), ZREVRANGE the same positions of the reversed order, and ZRANK is the 0-based position of a member, or nil. ZRANGEBYSCORE (and ZRANGE BYSCORE) lists, and ZCOUNT counts, exactly the members whose score lies between the bounds, with '(' excluding a bound and -inf/+inf allowed; WITHSCORES adds each member's score.",
  ["histories", "inputs"], "all sorted sets, update histories, index pairs and score intervals including empty, inverted and infinite ones",
  "The tests query one fixed set of distinct positive scores; ties, empty intervals, intervals below or above all scores, deletions and large sets are not reached.",
  ["redis/sorted_set.go", "datastruct/sorted_set.go"],
  [("skip-list spans and rank search", "datastruct/sorted_set.go")], [WIRE], None)

p("C09", "The keyspace lists exactly the live keys, with their types",
  "At any moment EXISTS, TYPE and KEYS agree with the commands executed so far: a key exists exactly from the command that creates it until DEL or the removal of its last element, so empty lists, hashes, sets and sorted sets do not exist, and a key that went away can be recreated with any type. TYPE replies none, string, list, hash, set or zset; DEL and EXISTS accept several keys and reply how many were removed or exist; KEYS returns exactly the matching live keys, each once, for patterns made of literal characters, *, ?, classes such as [abc], [a-c] or [!abc], alternatives such as {ab,c*}, and escapes such as \\*.",
  ["histories", "inputs"], "all histories mixing all data types, deletions, emptying commands and patterns",
  "No test calls EXISTS, TYPE, KEYS or DEL.",
  ["redis/keys.go", "datastruct/keys.go", "datastruct/pattern.go", "datastruct/consts.go", "lib/shard_map/shard_map.go"],
  [("typed key map", "datastruct/keys.go"), ("pattern matching", "datastruct/pattern.go")], [WIRE], [KEYSPACE])

p("C10", "A command that replies an error leaves the whole database unchanged",
  "Every data command applied to a key of another type replies an error (MGET replies nil and SET, MSET, DEL and the destination of a STORE form overwrite instead), as does any command with missing, malformed, odd-numbered or out-of-range arguments. A command that replies an error has no effect at all: no key is created, removed, retyped or modified, in any part of the database, even when some of its arguments were valid.",
  ["inputs", "histories"], "every (command, key type) pair, every malformed argument list, in every reachable state",
  "The tests never run a command against a key of another type or with bad arguments.",
  ["redis/command.go", "redis/string.go", "redis/list.go", "redis/hash_table.go", "redis/set.go", "redis/sorted_set.go", "datastruct/keys.go"],
  [("type check on load", "datastruct/keys.go"), ("argument validation in handlers", "redis/*.go")], [WIRE], [KEYSPACE])

p("C11", "Queries have no effect and are repeatable",
  "GET, MGET, EXISTS, TYPE, KEYS, LLEN, LRANGE, LINDEX, HGET, HMGET, HGETALL, HKEYS, HVALS, HLEN, HEXISTS, SCARD, SISMEMBER, SMEMBERS, SDIFF, SINTER, SUNION, ZSCORE, ZRANK, ZCARD, ZCOUNT, ZRANGE, ZREVRANGE, ZRANGEBYSCORE, PING and COMMAND never change the database: on existing or absent keys, of the right or the wrong type, they create, remove and modify nothing, and repeating one gives the same answer (up to the order of unordered results). Inserting any queries into a history changes none of its other replies.",
  ["histories", "inputs"], "all histories and all queries inserted at any point",
  "It is a relation between two executions; the tests run single calls.",
  ["redis", "datastruct"],
  [("read paths do not store", "datastruct/*.go")], [WIRE], [KEYSPACE])

p("C12", "Keys are independent of one another",
  "The replies of the commands that name a set of keys depend only on the commands that name those keys: interleaving them in any way with commands on other keys (creating, emptying, deleting or failing on them, of any type) changes no reply. Two keys never share storage, however their values were produced.",
  ["histories", "schedules"], "all pairs of histories on disjoint keys and all their interleavings",
  "It is a relation between executions with and without the other keys; no test uses two keys.",
  ["datastruct/keys.go", "lib/shard_map/shard_map.go", "datastruct/set.go"],
  [("sharded key map", "lib/shard_map/shard_map.go")], [WIRE], [KEYSPACE])

p("C13", "Request decoding returns exactly the arguments sent, however bytes arrive",
  "For any list of byte-string arguments, decoding the array-of-bulk-strings request that carries them returns exactly those arguments and consumes exactly its bytes, leaving the following request intact, and the recorded raw text of the request is exactly the bytes consumed. This holds for every way the reader splits the bytes into reads (including one at a time), for nested arrays (flattened in order), simple strings and inline PING; a request cut off at any point yields an error, never a shortened or padded argument.",
  ["inputs", "fault_sequences"], "all argument lists, all chunkings of the byte stream, all truncation points",
  "decode_test.go decodes four complete messages from a memory buffer that always returns full reads.",
  ["protocol/decode.go", "protocol/api.go"],
  [("line and length-prefixed decoding", "protocol/decode.go")], ["return values of the exported decode function"])

p("C14", "Every reply is exactly one well-formed RESP value that reads back as meant",
  "Encoding any response built from the exported constructors (simple string, error, integer, bulk string, nil, empty array, array of bulk strings with nils) yields exactly one complete RESP value that a conforming client parses back to the same kind and content, with exact length prefixes for any bytes, and two encoded replies in a row parse back as those two. Over the network every complete non-empty request gets exactly one such value, of the kind the command defines (integer, bulk or nil, array, status or error), for every command and argument list.",
  ["inputs", "histories"], "all response values; all commands, argument lists and states",
  "No test encodes a reply and parses it back; the e2e test reads the reply bytes and discards them.",
  ["protocol/encode.go", "protocol/consts.go", "redis"],
  [("reply encoder", "protocol/encode.go")], ["encoded bytes", WIRE])

p("C15", "Keys, fields, members and values are byte-transparent for every data type",
  "Any byte string (empty, containing NUL, CR, LF, RESP markers, invalid UTF-8, or larger than a network read) can be used as key, value, list element, hash field or value, set member or sorted-set member, and every command that returns it returns exactly the same bytes. Two different byte strings are never identified with one another, and equal ones always are.",
  ["inputs"], "all byte strings in every argument position of every data type, at every size",
  "The tests use short ASCII words.",
  ["protocol/decode.go", "protocol/encode.go", "datastruct", "lib/shard_map/shard_map.go"],
  [("length-prefixed decode and encode", "protocol"), ("string-keyed maps", "lib/shard_map/shard_map.go")], [WIRE])

p("C16", "No input can crash or hang the server or disturb other clients",
  "Whatever bytes a client sends (malformed frames, absurd or negative lengths, deep nesting, wrong arities, any command with any arguments and any key pattern), the server process stays up, keeps answering other connections correctly and on time, and the data stored by others is unchanged unless a well-formed command changed it. A malformed frame gets an error reply or a closed connection, and decoding any bytes terminates without a panic and without allocating memory out of proportion to the bytes received.",
  ["inputs", "fault_sequences"], "all byte streams from any number of hostile connections, and all commands with arbitrary arguments",
  "Every test input is well formed.",
  ["protocol/decode.go", "server/v2/server.go", "redis/command.go", "datastruct/keys.go", "event/handler.go"],
  [("length validation", "protocol/decode.go"), ("error replies", "event/handler.go")], [WIRE, "server process liveness"])

p("C17", "One reply per request, in order, whatever the packet boundaries",
  "On each connection, as long as the client keeps it open and follows the protocol, the server sends exactly one reply per complete request, in the order of the requests, and executes them in that order; the sequence of replies depends only on the byte stream, not on how it is cut into packets, delayed, or pipelined, for any number of requests and any sizes. Replies never leak to another connection.",
  ["schedules", "inputs", "histories"], "all request streams, all segmentations and timings, any number of connections",
  "The e2e test sends one small request per connection in a single packet.",
  ["server/v2/server.go", "protocol/decode.go", "event/handler.go"],
  [("per-connection request stream", "server/v2/server.go")], [WIRE])

p("C18", "Concurrent clients see atomic, linearizable commands",
  "With any number of clients issuing commands concurrently, each command appears to take effect atomically at one instant between its request and its reply: the replies of every concurrent history are those of some sequential order that respects real time. In particular no increment is lost, no element is popped twice or dropped, MSET, SMOVE and the STORE forms are never seen half done, and each client reads its own writes. A request that is refused because those before it take too long has no effect then or later. While clients come, send commands and go, no two goroutines access the same data at the same time without synchronisation.",
  ["schedules", "histories"], "all concurrent histories and interleavings of any clients",
  "The tests are single-threaded.",
  ["event/event_pool.go", "event/worker.go", "event/handler.go", "redis/command.go", "server/v2/server.go"],
  [("single event worker executes commands one by one", "event/event_pool.go, event/worker.go")], [WIRE],
  [("event queue", "channel of pending commands and its single worker", "event/event_pool.go")])

p("C19", "Stopping answers or refuses every request, and terminates cleanly",
  "When the command executor is stopped at any moment, every request handed to it before or after gets exactly one prompt reply: its real result if it was executed (then its effect happened exactly once), or an error if it was refused (then it had no effect); nothing panics, hangs or is executed twice, and when the stop returns, whatever was handed over is done. A server told to stop by SIGTERM, SIGINT or SIGQUIT (the v1 server: by its Stop) while clients are active, idle or not reading ends in time with status 0, and the replies each client received are a prefix of the replies of its requests.",
  ["schedules", "crash_points"], "all stop moments relative to any set of in-flight requests",
  "The e2e test stops the server once, idle, and checks nothing afterwards.",
  ["event/event_pool.go", "event/worker.go", "event/handler.go", "server/v2/server.go", "cmd/server/main.go"],
  [("event pool stop", "event/event_pool.go"), ("signal handling", "cmd/server/main.go")], ["replies", "process exit status"])

p("C20", "Commands are found by name in any letter case; the rest are refused",
  "Every implemented command is recognised whatever the letter case of its name and behaves the same for each spelling. A name that is not an implemented command gets an error reply and has no effect, and a command called with fewer arguments than it needs gets an error reply and has no effect.",
  ["inputs"], "all command names, letter cases and argument counts",
  "No test dispatches a command by name.",
  ["redis/command.go", "redis/string.cmd.go", "redis/list.cmd.go", "redis/hash_table.cmd.go", "redis/set.cmd.go", "redis/sorted_set.cmd.go", "redis/keys.cmd.go"],
  [("command table lookup on the lower-cased name", "redis/command.go")], [WIRE])

p("C21", "The command-table generator registers every handler under its documented name",
  "For any gofmt-formatted Go source file, the generator emits, in source order, exactly one registration per command handler declared in it (a top-level function func NAME(c *Command) (*protocol.Response, error), declared on one line): under the lower-cased text of the // comment line directly above it (without its final period), or the lower-cased function name when there is none. It emits nothing else (methods, other signatures, function literals, handlers commented out with //), leaves the source untouched, replaces an older output completely, writes nothing for an argument that is not a .go file or is itself an output, and its output is valid Go. Running it on the handler files of this repository reproduces the committed command tables.",
  ["programs", "inputs"], "all gofmt-formatted Go source files with any mixture of handlers, other functions, comments, names and line lengths",
  "main_test.go matches one signature line.",
  ["cmd/gen_redis_cmd/main.go", "redis/string.cmd.go", "redis/keys.cmd.go"],
  [("line scanner and regular expression", "cmd/gen_redis_cmd/main.go")], ["generated file"])

p("C22", "The sharded map library behaves like a plain map",
  "After any sequence of its operations, the sharded map answers as a plain map from strings to values would: get, has, set, set-if-absent, delete, delete-if-exists, load-and-delete and upsert (including an aborted upsert, which changes nothing) agree with it, and keys, items and the range functions visit each live entry exactly once, stopping when asked. The copy returned by items is independent of the map, and range-and-delete removes exactly the entries it was told to.",
  ["histories", "inputs"], "all operation sequences over all keys",
  "The package has no tests.",
  ["lib/shard_map/shard_map.go"],
  [("hash-sharded buckets", "lib/shard_map/shard_map.go")], ["return values of the exported map operations"])

p("C23", "The debug build answers exactly like the default build",
  "A server built with the debug tag differs from the default build only in logging and in a fixed set of preloaded keys (list1, key1, key2, zset), which are completely loaded before it serves: every history of commands on other keys gets the same replies, and the preloaded keys hold their documented contents at every start.",
  ["configurations", "histories"], "both build configurations, all histories",
  "The tests run only in the default configuration.",
  ["debug/consts.go", "debug/consts_debug.go", "cmd/server/main.go", "event/handler.go"],
  [("build-tag constant", "debug"), ("preloading", "cmd/server/main.go")], [WIRE])

p("C24", "The legacy v1 server serves the same protocol without losing requests",
  "The net-package server (build tag v1) gives the same replies as the default server for every request stream, one per request and in order, however the stream is segmented. Clients connecting, sending anything and disconnecting at any point never bring it down or disturb other clients, and a request completely received before the client stops sending is answered.",
  ["configurations", "histories", "schedules"], "all request streams, segmentations and disconnect points, under the v1 build",
  "No test builds with the v1 tag.",
  ["server/v1/server.go", "protocol/decode.go"],
  [("asynchronous receive loop", "protocol/decode.go, server/v1/server.go")], [WIRE])

p("C25", "Configuration is taken over completely or not at all",
  "Loading a configuration from any input either succeeds, and then the effective default timeout is the configured one, or 5 seconds when it is missing or zero, or fails, and then the previously loaded settings stay in force. Before any load the default timeout is 5 seconds, and no input panics.",
  ["inputs", "histories"], "all configuration texts and all sequences of loads",
  "The package has no tests.",
  ["config/config.go"], [("decode into a fresh value, then swap", "config/config.go")], ["exported getters"])

p("C26", "A request takes effect only if it was received completely",
  "If a client disconnects, resets or stalls after sending any proper prefix of a request, that request has no effect and the complete requests before it have exactly their normal effect, each once. Other connections, the data of other clients, and new connections from the same client are unaffected.",
  ["fault_sequences", "crash_points"], "all disconnect points (byte offsets), kinds of disconnect and concurrent clients",
  "No test interrupts a request.",
  ["protocol/decode.go", "server/v2/server.go"],
  [("length-checked decoding", "protocol/decode.go"), ("per-connection state", "server/v2/server.go")], [WIRE])
p("C27", "Memory follows the live data",
  "The memory of the server is bounded by the data it holds and the requests in progress, not by its history: however long clients create, update and remove keys, elements and connections, if the data afterwards is of the same size as before, the resident memory does not keep growing. Whatever a command deletes, overwrites or removes, a request for something absent, unknown or wrong, and a closed connection leave nothing behind, and a small value does not keep alive the large request it came from.",
  ["histories"], "all rounds of commands which leave as much data as they found, and all numbers of repetitions",
  "A leak needs tens of thousands of commands and a look at the process from outside; the tests run each command a few times.",
  ["datastruct/", "lib/shard_map/shard_map.go", "protocol/decode.go", "event/", "server/v2/server.go"],
  [("unlinking of removed elements", "datastruct/list.go"), ("removal from the shards", "lib/shard_map/shard_map.go"), ("state of a connection", "server/v2/server.go")], [WIRE])

p("C28", "A command costs no more than the data it names, returns or passes over",
  "Commands on one key, on one element of a hash or set, near either end of a list, or by member, rank or score in a sorted set need (up to a logarithmic factor) the same processor time whether there are a thousand or hundreds of thousands of other keys, elements or connections. Commands that name, return or remove many elements, set operations on many keys, pipelines of many requests and large values need time in proportion to their size, and an intersection no more than in proportion to its smallest set.",
  ["inputs", "configurations"], "all commands, sizes and orders of the data",
  "The tests hold a handful of elements, where a scan of everything is as fast as a lookup; one slow command delays every client, as commands are executed one by one.",
  ["datastruct/", "lib/shard_map/shard_map.go", "protocol/decode.go", "protocol/encode.go", "server/v2/stream.go"],
  [("skip list with spans", "datastruct/sorted_set.go"), ("access from the nearest end", "datastruct/list.go"), ("hashed shards", "lib/shard_map/shard_map.go")], [WIRE])

p("C29", "A server at rest stays at rest",
  "Once the requests received so far are answered, the server uses no processor time until something arrives, whatever its clients have done: said nothing, sent half a request, violated the protocol, stopped reading, half closed, closed or reset. It keeps no descriptor of a connection that its client has closed, and it still answers the others.",
  ["fault_sequences", "histories"], "all ways in which any number of clients stop using the server",
  "No test looks at the server when nothing is asked for.",
  ["server/v2/server.go", "server/v2/stream.go", "server/v1/server.go", "event/"],
  [("blocking reads", "server/v2/stream.go"), ("end of a connection", "server/v2/server.go"), ("end of a connection", "server/v1/server.go")], [WIRE])

p("C30", "A server listens on the address it is told, or ends",
  "A server started with an address (with or without a scheme; one address, every address, a name or IPv6) accepts connections there, and at one address only if it is told one, serves them, and ends when it gets SIGTERM, SIGINT or SIGQUIT, whether or not clients are connected; another server can then be started there at once, as often as one likes. When more clients come than it can have descriptors, it still serves those it has, and new ones again once others have gone. A server told to listen on an address that nobody can listen on, or that another program listens on, ends soon and without a crash.",
  ["configurations", "histories"], "all forms of addresses, one or more starts and stops, any number of connected clients",
  "No test starts a server; a server that runs and cannot be reached, or cannot be stopped, takes a person to find and end.",
  ["cmd/server/main.go", "server/v2/server.go", "server/v1/server.go"],
  [("start, stop and signals", "cmd/server/main.go"), ("listening", "server/v2/server.go"), ("listening", "server/v1/server.go")], [WIRE])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
