#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "RESP values survive encode, stream and decode exactly",
  "Every protocol value that RESP can express (simple strings and errors without line breaks, any 64-bit integer, bulk strings of arbitrary bytes, null bulk, null array, arbitrarily nested arrays) encodes to its canonical RESP bytes, and decoding those bytes gives back a value of the same kind and content whose encoding is byte-identical. A reader over a concatenation of values returns exactly those values in order and then end-of-stream, no matter how the bytes are split into reads.",
  ["inputs"], "all protocol value trees, all concatenations of them, all fragmentations of the byte stream",
  "Tests parse about fifteen fixed literals, each from one contiguous in-memory string, one value per reader; binary payloads, streams and fragmentations are never sampled.",
  ["pkg/protocol/resp.go", "pkg/protocol/reader.go"],
  [("constructors encode eagerly", "pkg/protocol/resp.go NewBulkRedisString/NewRedisArray/..."), ("length-prefixed decode", "pkg/protocol/reader.go readString/readArray")],
  ["RedisObject.Byte/String", "protocol.Parse", "RESPReader.ReadObject"])

p("C02", "Arbitrary bytes never crash or fool the RESP decoder",
  "For any byte sequence whatsoever, decoding terminates without a crash: it yields exactly the value the RESP grammar assigns to the next frame, or an error. Truncated frames, unknown type bytes, malformed or negative lengths other than -1, malformed integers, bulk strings not terminated by CRLF and unboundedly deep nesting are errors, never a wrong value.",
  ["inputs", "fault_sequences"], "all byte strings, including every truncation and every local corruption of valid frames",
  "Existing tests only decode well-formed literals; not a single malformed input is tried.",
  ["pkg/protocol/reader.go"], [("token and length validation", "pkg/protocol/reader.go readToken/readBytes/readObject")],
  ["protocol.Parse", "RESPReader.ReadObject"])

p("C03", "String commands behave like a map of byte strings",
  "After any history of commands, SET, GET, MSET, MGET, EXISTS, STRLEN, APPEND and GETRANGE reply exactly as a map from keys to byte strings would: a read returns the bytes of the latest successful write of that key, and missing keys read as null, empty or zero. No write to one key changes another.",
  ["histories", "inputs"], "all command histories over arbitrary binary keys and values, including empty, huge, numeric-looking and overwritten values",
  "There are no command-level tests at all; container tests use a few ASCII values with no interleaving of writes, appends, counters and deletes.",
  ["pkg/command/global.go", "pkg/container/string_map.go", "pkg/container/string.go", "pkg/db/db.go"],
  [("string key table", "pkg/container/string_map.go"), ("command execution", "pkg/command/global.go")],
  ["command results through DB.ExecuteCommand"], [("string map", "key -> string container", "pkg/container/string_map.go")])

p("C04", "Counters are exact 64-bit integers and never wrap",
  "INCR, DECR, INCRBY and DECRBY on a key holding the decimal text of a 64-bit integer reply the exact sum and store its canonical decimal text, so a following read, APPEND or STRLEN sees that text. When the value or the operand is not a 64-bit integer, the key is missing, or the result would leave the 64-bit range, the reply is an error and the stored value is unchanged.",
  ["histories", "inputs"], "all stored values (integers near every boundary, signs, leading zeros, spaces, non-numbers) and all operands, in all histories mixing counter and plain string commands",
  "Tests increment small numbers only; no boundary values, no failed operation followed by a read, no command-level run.",
  ["pkg/command/global.go", "pkg/container/string.go", "pkg/container/string_map.go"],
  [("integer parse and update", "pkg/container/string.go increaseBy/decrease"), ("operand parse", "pkg/command/global.go")],
  ["command results through DB.ExecuteCommand"])

p("C05", "List commands behave like a double-ended sequence",
  "After any history of list commands (LPUSH RPUSH LPOP RPOP LLEN LRANGE LINDEX LSET LREM LTRIM LINSERT) every reply and the full contents equal those of a sequence of byte strings: order, multiplicity, length, negative indexes counted from the tail, LREM direction and count, LINSERT position. Commands that fail leave the list exactly as it was.",
  ["histories", "inputs"], "all histories over several lists with duplicate, empty and binary elements and every in-range, negative and out-of-range index or count",
  "Ten small container tests on fixed lists; no command-level tests, no histories mixing mutations at both ends, no element equal to an internal marker, no extreme counts.",
  ["pkg/command/list.go", "pkg/container/list.go", "pkg/util/index.go"],
  [("doubly linked list with sentinels", "pkg/container/list.go"), ("index resolution", "pkg/util/index.go")],
  ["command results through DB.ExecuteCommand", "LRANGE key 0 -1"])

p("C06", "Hash commands behave like a map of fields to byte strings",
  "After any history of HSET HGET HMGET HDEL HEXISTS HLEN HKEYS HVALS HGETALL HSTRLEN, every reply equals that of a finite map: HSET counts only fields newly added, HDEL counts only fields removed, HGET returns the last value set, and the key, value and pair listings hold exactly the live fields once each. Commands that fail leave the hash exactly as it was.",
  ["histories", "inputs"], "all histories over several hashes with repeated, empty and binary fields and values, single and multi-field forms",
  "Container tests use a handful of ASCII fields; the commands themselves, their argument pairing and their error paths are untested.",
  ["pkg/command/hash.go", "pkg/container/hash.go"], [("field map", "pkg/container/hash.go"), ("argument pairing", "pkg/command/hash.go")],
  ["command results through DB.ExecuteCommand"])

p("C07", "Set commands behave like mathematical sets",
  "After any history of SADD SREM SISMEMBER SMEMBERS SCARD SPOP SRANDMEMBER SDIFF SINTER SUNION, every reply equals that of finite sets of byte strings: counts count real changes, algebra over any number of existing, missing or repeated keys is exact and modifies nothing, SRANDMEMBER returns distinct members and removes none, and SPOP returns distinct members and removes exactly those. No history makes any of these commands crash.",
  ["histories", "inputs"], "all histories over several sets including emptied sets, all key lists for algebra, all counts including zero, negative and larger than the set",
  "Container tests cover a few fixed sets; random commands on emptied sets, aliasing keys and command-level paths are never run.",
  ["pkg/command/set.go", "pkg/container/set.go"], [("member map", "pkg/container/set.go"), ("random selection", "pkg/container/set.go, pkg/util/random_provider.go")],
  ["command results through DB.ExecuteCommand"])

p("C08", "Keys, types and failed or read-only commands are isolated",
  "A command changes only the keys it names and only the value of its own type: strings, lists, hashes and sets under the same name are independent. A command that replies with an error, and every read command, leaves every observable value of every key of every type unchanged.",
  ["histories", "inputs"], "all interleaved histories of all commands over shared key names, checked by a full observable dump after every step",
  "No test runs two command families against the same store, and none compares the whole store before and after a failed or read command.",
  ["pkg/db/db.go", "pkg/container/container.go", "pkg/command/"],
  [("per-type container tables", "pkg/container/container.go"), ("access object resolution", "pkg/db/db.go resolveName")],
  ["full store dump through read commands"])

p("C09", "Every request gets exactly one well-formed reply",
  "For any well-framed request from a client (any name in any letter case, any number and kind of arguments, any bytes, even something that is not a command at all) the server stays up and sends back exactly one well-formed RESP value on that connection, of the kind the command promises. Unknown names, bad arguments, missing keys, bad indexes and non-integers get their documented error replies, and afterwards the connection and the server keep working.",
  ["inputs", "histories"], "all well-framed requests: every command with every arity, kinds and nesting of arguments, control bytes in names and arguments, and empty or non-array requests",
  "No test starts the server, the engine or any command; argument validation and error rendering are entirely unexercised.",
  ["pkg/db/engine.go", "pkg/command/command.go", "pkg/network/server.go"],
  [("request dispatch", "pkg/db/engine.go handleRequest"), ("error rendering", "pkg/db/engine.go handleError"), ("arity checks", "pkg/command/*.go New*Command")],
  ["bytes on the client socket", "server process liveness"])

p("C10", "A clean restart restores the whole data set",
  "After any history of commands followed by a normal shutdown and a start from the same database file, every key of every type reads back exactly as it did before the shutdown. Restarting again without writes, or continuing to write and restarting again, keeps this true.",
  ["histories"], "all command histories, including binary data, random-removal and trimming commands, failed commands, across any number of restarts",
  "No test ever writes or reads a database file or restarts an engine.",
  ["pkg/db/engine.go", "pkg/log/log.go", "pkg/log/persistent.go", "pkg/network/server.go"],
  [("append log of modifying commands", "pkg/db/engine.go writeLog"), ("replay", "pkg/db/engine.go BuildFromLog"), ("flush at shutdown", "pkg/db/engine.go Stop")],
  ["full store dump before shutdown and after restart"], [("database file", "length-prefixed log of modifying requests", "pkg/log/log.go")])

p("C11", "A torn database file recovers to a prefix and stays usable",
  "Whatever byte the database file was cut off at by a crash, the server starts and its state is exactly the state after the log records that are complete in the file, in order. Commands accepted after such a recovery are as durable as ever: they survive the next clean restart together with the recovered prefix.",
  ["crash_points", "histories"], "every truncation point of the file produced by any history, any number of crash-recover-continue rounds, and abrupt kills during writing",
  "No test truncates a log or starts a server from an existing file.",
  ["pkg/log/log.go", "pkg/network/server.go", "pkg/db/engine.go"],
  [("length-prefixed parse with unexpected EOF", "pkg/log/log.go readLog"), ("open for append and replay", "pkg/network/server.go fromFile")],
  ["full store dump after start from truncated file, and after a further restart"])

p("C12", "Log records round-trip any request and contain damage",
  "Any request packed into a log record and parsed back, alone or in a sequence of records, yields the same command name, database index and arguments byte for byte. A record whose body is corrupted is skipped without disturbing the records around it, a truncated tail yields exactly the complete records plus a report of incompleteness, and no input makes the parser crash.",
  ["inputs", "fault_sequences"], "all requests (any bytes, any argument kinds), all record sequences, all truncation points, body corruptions and arbitrary byte strings",
  "The log package has no tests.",
  ["pkg/log/log.go", "pkg/log/log.pb.go", "pkg/log/log.proto", "pkg/util/util.go"],
  [("length prefix framing", "pkg/log/log.go PackLog/readLog"), ("protobuf payload", "pkg/log/log.pb.go")],
  ["log.PackLog", "log.ParseLog"])

p("C13", "Concurrent acknowledged writes all survive in execution order",
  "When many clients write concurrently, including conflicting order-sensitive writes to the same keys, and the server is then shut down cleanly, a restart reproduces exactly the state the clients last observed. No acknowledged write is lost, duplicated or replayed in a different order from the one it was executed in.",
  ["schedules", "histories"], "all interleavings of concurrent clients issuing order-sensitive commands, ended by a signal or stop request",
  "No test runs concurrent clients or inspects the log; the ordering depends on goroutine scheduling.",
  ["pkg/db/engine.go", "pkg/log/persistent.go", "pkg/network/server.go"],
  [("log append per executed command", "pkg/db/engine.go"), ("mutex-protected buffered file", "pkg/log/persistent.go"), ("signal handling", "pkg/network/server.go")],
  ["full store dump before shutdown and after restart"])

p("C14", "A replica starts as an exact copy of its master or not at all",
  "A server with no data of its own started against a master's replication address (its replica port, or the port above its own when that is not set to another port) ends up with exactly the data the master held at one moment between the connection being made and the transfer finishing, including everything acknowledged before the connection, and the transfer ends promptly even if the master has nothing to send. If the stream is cut off anywhere, the receiver reports an error and applies nothing, and a transfer never disturbs the master.",
  ["histories", "crash_points", "schedules"], "all master histories, all cut points of the transfer stream, replicas attaching while writes are in progress, several replicas at once",
  "The replication package has no tests.",
  ["pkg/replication/master.go", "pkg/replication/replica.go", "pkg/network/server.go"],
  [("snapshot copy and length prefix", "pkg/replication/master.go handleConn"), ("length check", "pkg/replication/replica.go Receive")],
  ["full store dump of replica versus master", "Replica.Receive result"])

p("C15", "Each session gets its own replies, in request order",
  "On every connection the reply stream is exactly the sequence of replies to that connection's requests, in the order they were sent, whether requests are sent one at a time, pipelined in bulk, or split into arbitrary fragments. This holds for any number of simultaneous connections: no reply is lost, duplicated, reordered or delivered to another client.",
  ["schedules", "inputs"], "all pipelines, fragmentations and numbers of concurrent sessions, and all interleavings of them",
  "No test opens a socket; ordering across the request/response topics depends on scheduling and on a 10 ms delivery deadline.",
  ["pkg/network/server.go", "pkg/network/conn.go", "pkg/db/engine.go", "pkg/concurrency/topic.go"],
  [("request and response topics", "pkg/network/server.go newConn/responseWorker"), ("single engine loop", "pkg/db/engine.go Start")],
  ["bytes on client sockets"])

p("C16", "Concurrent clients see one atomic, linearizable store",
  "For any concurrent execution of commands by several clients, there is a single total order of all commands, consistent with real time, in which every reply is what the sequential command semantics gives. In particular counters lose no update, a value is popped by one client only, and no client reads a half-applied multi-argument command.",
  ["schedules", "histories"], "all concurrent histories over shared counters, strings, lists, hashes and sets",
  "No test issues concurrent commands.",
  ["pkg/db/engine.go", "pkg/network/server.go", "pkg/db/db.go"],
  [("single engine loop executes commands one at a time", "pkg/db/engine.go Start")],
  ["invocation and reply times at client sockets"])

p("C17", "A misbehaving client cannot disturb the others",
  "Whatever any client does at the byte level (sends garbage, disconnects in mid-request or before its reply, floods requests, connects and sends nothing, closes abruptly) the server keeps running and every other connection keeps getting correct, complete, ordered replies. A connection that sends a complete line that is not RESP is closed rather than left hanging.",
  ["fault_sequences", "schedules"], "all sequences of client faults interleaved with well-behaved sessions",
  "No test opens a socket or injects a client fault.",
  ["pkg/network/server.go", "pkg/network/conn.go", "pkg/protocol/reader.go"],
  [("per-connection reader goroutine", "pkg/network/server.go newConn"), ("write to closed connection is an error", "pkg/network/conn.go Write")],
  ["bytes on the sockets of well-behaved clients", "server process liveness"])

p("C18", "Connections close exactly when idle too long, once, and safely",
  "A connection stays open as long as some operation happens within its idle limit and is closed once it has been idle for that long. Closing is idempotent (the second close reports that it is already closed), a closed connection reports itself closed, and reads and writes on it return an error promptly instead of blocking or crashing, whatever operations run concurrently.",
  ["schedules", "histories"], "all sequences and interleavings of reads, writes, closes, peer closes and idle gaps around the limit",
  "The network package has no tests; timing behaviour needs control of the clock.",
  ["pkg/network/conn.go"], [("idle worker with reset channel", "pkg/network/conn.go startExpireWorker"), ("closed flag", "pkg/network/conn.go Close")],
  ["Conn API", "peer side of the pipe"])

p("C19", "A future settles exactly once and everyone agrees on how",
  "A future runs its task exactly once and settles exactly once, as fulfilled or as cancelled; from then on every Get, Wait, timed wait and Cancel by any goroutine reports that same outcome, with the task's own result and error when fulfilled. Exactly one Cancel can succeed, a timed wait that expires changes nothing, and no interleaving crashes or hangs a caller after settlement.",
  ["schedules", "histories"], "all interleavings of task completion, cancels, waits and timed waits by any number of goroutines",
  "Tests cover hand-picked sleeps with one canceller and one waiter.",
  ["pkg/concurrency/future.go", "pkg/concurrency/task.go"], [("done and cancel channels", "pkg/concurrency/future.go")],
  ["Future API"])

p("C20", "A data channel delivers each accepted event once, in order",
  "For any mix of senders and a receiver, every send reports success, expiry or closed truthfully: an event reported sent is received exactly once in the order it was accepted unless the channel is closed first, and an event reported expired or closed is never received. Expiry happens only after the configured limit with no room or reader, and after close every send reports closed and every receive, including one already waiting, reports closed.",
  ["schedules", "histories"], "all sequences and interleavings of sends, receives, closes and delays, for all buffer sizes and limits",
  "Tests use single fixed scenarios with one sender and real sleeps; close races and buffered closes are not explored.",
  ["pkg/concurrency/data_channel.go"], [("select over close, data and timer", "pkg/concurrency/data_channel.go Send")],
  ["Receiver and Sender API"])

p("C21", "Published events reach every live subscriber, and only them",
  "Publishing to a topic delivers the event once to each current subscriber that accepts it in time and completes with exactly that number; a slow or closed subscriber never affects the others, a subscriber that closed is forgotten, and one that subscribes again under the same name is served. Unknown topics report so, creating and removing topics is exact, and removal tells every live subscriber.",
  ["schedules", "histories"], "all histories and interleavings of subscribe, publish, receive, close, create and remove over several topics",
  "Tests publish a few events to a few fixed subscribers and the event bus test file is empty.",
  ["pkg/concurrency/topic.go", "pkg/concurrency/event_bus.go"],
  [("concurrent distribution", "pkg/concurrency/topic.go distributeEvent"), ("topic registry", "pkg/concurrency/event_bus.go")],
  ["EventBus, Topic and Receiver API"])

p("C22", "Data maps agree with a plain map, the shared ones concurrently too",
  "Each data map variant answers Get, Has and Len exactly as a plain map after any sequence of Set and Remove, including nil values and overwritten keys. For the two variants meant for sharing, any concurrent use is free of crashes and data races, every read returns a value that was stored for that key, and once quiet Len equals the number of keys present.",
  ["histories", "schedules"], "all operation sequences on each variant, all interleavings on the shared variants",
  "Tests set and remove a few keys from one goroutine at a time and never compare the size after contended updates.",
  ["pkg/types/data_map.go"], [("mutex or sync.Map with size counter", "pkg/types/data_map.go")], ["DataMap API"])

p("C23", "Index and segment resolution is exact for every size",
  "For every index and size, resolving gives the position counted from the front for non-negative and from the back for negative indexes, or reports out of range exactly when that position does not exist. For every pair and size, a segment resolves to positions inside the range in order, with only the right end clamped, or is reported invalid exactly in the documented cases.",
  ["inputs"], "all integer indexes (including extreme ones), pairs and sizes",
  "Tests cover a table of sizes 0 and 10 with about twenty pairs.",
  ["pkg/util/index.go"], [("raw and checked resolution", "pkg/util/index.go")], ["util.Index and util.Slice API"])

p("C24", "Text comparison and byte utilities obey their laws",
  "The lexical comparison is a total order on byte strings consistent with standard byte-wise order: zero only for equal strings, antisymmetric and transitive. Exact reads return precisely the requested number of bytes and leave the rest unread, or report an error when the input is shorter; quoted joins can be taken apart again; generated identifiers never repeat, even when generated concurrently.",
  ["inputs"], "all strings, pairs and triples of strings, all readers and lengths",
  "Tests check a handful of ASCII pairs and fixed inputs.",
  ["pkg/util/util.go", "pkg/util/uuid.go"], [("byte-wise compare", "pkg/util/util.go")], ["util API"])

p("C25", "The sorted set orders by score and keeps ranks consistent",
  "After any history of additions and removals, including score increments and pops, a sorted set reports the length, scores and ranks of a reference list of entries ordered by score and then by entry, ranks of all entries forming consecutive positions in that order. Popping the minimum or maximum returns and removes the entry that is first or last in that order, and these operations never crash or hang.",
  ["histories", "inputs"], "all histories of operations with equal, negative and extreme scores, whatever the random level choices",
  "The sorted set test file is empty.",
  ["pkg/container/sorted_set.go"], [("skip list with spans", "pkg/container/sorted_set.go")], ["sorted set container API"])

p("C26", "A string value's text, length and number always agree",
  "A stored string value always reports a text, byte form, length and integer view that agree with each other, after any history of set, append and arithmetic operations. A failed integer operation reports an error and changes none of these views.",
  ["histories", "inputs"], "all histories of operations on a string value, over all byte strings and all 64-bit operands",
  "Tests check each operation once from a fixed state.",
  ["pkg/container/string.go", "pkg/container/int_variant.go"], [("string with cached integer form", "pkg/container/string.go")], ["StringContainer API"])

p("C27", "The command line client sends what was typed and shows what came back",
  "A line typed into the client is sent as one request whose arguments are exactly the words of the line, where quotes may enclose spaces or an empty argument; a line with an unbalanced quote is refused. Every reply value renders to text that shows its kind and full content, and a typed command reaches the server and its reply is shown.",
  ["inputs"], "all argument vectors and quotings, all reply values",
  "The client has no tests.",
  ["cmd/client/internal/codec.go", "cmd/client/main.go", "cmd/server/main.go"], [("line tokeniser", "cmd/client/internal/codec.go FormatInput"), ("reply rendering", "cmd/client/internal/codec.go FormatOutput")],
  ["FormatInput/FormatOutput", "client process output"])

p("C28", "Configuration files set exactly the options they name",
  "Loading a configuration file sets each option it names to the value written there and leaves every other option at its previous or default value. A missing or malformed file, or an option of the wrong type, is reported as an error rather than silently accepted.",
  ["configurations", "inputs"], "all subsets of options, all values, all damage to the file",
  "Configuration has no tests.",
  ["pkg/common/config.go"], [("TOML decode onto defaults", "pkg/common/config.go Parse")], ["Config fields after Parse"])

p("C29", "Pipelines and broadcasters pass values faithfully",
  "A pipeline applies its stages in order, passing each result to the next, and reports the first failing stage's error without running later stages. A broadcast value set once is received unchanged by every getter, before or after it was set, and no getter returns before it is set.",
  ["inputs", "schedules"], "all stage lists and failure positions; all interleavings of getters and the setter",
  "Tests run one or two fixed pipelines and a single fixed broadcast.",
  ["pkg/util/pipeline.go", "pkg/concurrency/broadcast.go"], [("stage loop", "pkg/util/pipeline.go"), ("ready channel", "pkg/concurrency/broadcast.go")], ["Pipeline and BroadCaster API"])

p("C30", "Container objects honour their contracts under any operation history",
  "Used directly, the list, hash, set and string map containers behave like their mathematical models after any history of operations: every result, size, range, extraction and element agrees with the model, and a collection kept under a name is created once, kept apart from other names and types, and found again until removed. No operation on any reachable state crashes.",
  ["histories", "inputs"], "all operation histories on each container and on the container registry",
  "About thirty fixed container tests; no random histories and no test of the registry.",
  ["pkg/container/list.go", "pkg/container/hash.go", "pkg/container/set.go", "pkg/container/container.go"],
  [("containers", "pkg/container/*.go")], ["container API"])

p("C31", "Log lines say what they were asked to, at the configured level",
  "Every logging call whose level is enabled writes one record carrying its level and exactly the message its template and arguments describe; calls below the configured level write nothing. Error-level calls also return an error with that same message, with or without a log, panic-level calls panic, and fatal-level calls end the process with their record in the log.",
  ["inputs", "configurations"], "all levels and modes, all templates and argument lists",
  "Logging has no tests.",
  ["pkg/common/logging.go"], [("leveled wrappers", "pkg/common/logging.go")], ["log file contents"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
