#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run to regenerate it."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)


MC = "src/memcache/"
p("C01", "Stored values and flags are returned byte for byte",
  "A value stored with any storage command through the text or the binary protocol is returned by every later retrieval, through either protocol, with exactly the same bytes, length and 32-bit flags until it is changed or removed. This holds for every key of 1 to 250 bytes, for every byte content (including NUL, CR, LF and protocol look-alikes), and for every size, whether the object lives in memory or in a temporary file and however appends and prepends moved it between the two.",
  ["inputs", "configurations", "histories"],
  "all keys, flags, value contents and sizes (empty to the hard limit), heap_data_limit settings, and sequences of set/append/prepend/replace moving an object across the heap/file boundary",
  "tests use a few short printable values and one file-backed object; they never sweep sizes around heap_data_limit, the 1 MiB/2 MiB/5 MiB buffer sizes or arbitrary bytes",
  [MC + "object.cpp", "src/tempfile.cpp", "cybozu/dynbuf.hpp", MC + "memcache.cpp", MC + "sockets.cpp"],
  [("heap/tempfile storage", "object::set/append/prepend in src/memcache/object.cpp"), ("temporary file I/O", "tempfile::write/read_contents in src/tempfile.cpp"), ("length-delimited parsing", "text_request::parse_storage, binary_request::parse in src/memcache/memcache.cpp")],
  ["bytes returned by get/gets and Get/GetK/GaT/LaG on the memcache port"])

p("C02", "Storage commands behave as a sequential key-value store",
  "For every sequence of set, add, replace, append, prepend, delete, get, touch and counting commands, issued over any mix of text and binary connections one after another, each reply and each later read equals that of a plain map: add stores only if the key is absent, replace/append/prepend only if present, delete removes exactly that key, and a command that reports failure changes nothing. No command affects a key other than the ones it names.",
  ["histories", "inputs"],
  "all finite histories of commands over all keys (including keys sharing a hash bucket) and connections of both protocols",
  "the protocol tests run one fixed script per command on one key at a time, never random interleavings over several colliding keys and both protocols",
  [MC + "sockets.cpp", "cybozu/hash_map.hpp", MC + "object.cpp"],
  [("command dispatch", "memcache_socket::cmd_text/cmd_bin in src/memcache/sockets.cpp"), ("bucket operations", "hash_map::bucket apply/remove_if in cybozu/hash_map.hpp")],
  ["replies on the memcache port", "values read back"])

p("C03", "Compare-and-swap succeeds only if nothing changed in between",
  "An update conditioned on a CAS unique value succeeds if and only if the object exists and has not been modified since a read or update returned that value; every successful modification gives the object a CAS value it never had before, even after the key was deleted, expired, flushed or evicted and stored again. Reads, touches, locks and failed commands leave the CAS value unchanged, and a refused conditional update changes nothing.",
  ["histories"],
  "all histories of modifications, deletions and re-creations between reading a CAS value and using it, in both protocols and all conditional commands (cas, Set/Replace/Append/Prepend/Delete/Increment/Decrement/RaU with CAS)",
  "tests check one immediate success and one immediate mismatch; they never delete and recreate a key or use old values",
  [MC + "object.hpp", MC + "object.cpp", MC + "sockets.cpp"],
  [("CAS unique generation", "object::m_cas in src/memcache/object.hpp/.cpp"), ("CAS comparison", "CAS and Set handlers in src/memcache/sockets.cpp")],
  ["gets and binary response CAS fields", "replies to conditional updates"])

p("C04", "Increment and decrement are exact 64-bit arithmetic",
  "incr adds modulo 2^64 and decr subtracts stopping at zero, and the reply, the stored decimal text and every later read agree with that result for all 64-bit operands; flags and expiration are kept. On a value that does not begin with a decimal number or exceeds 64 bits, or on a missing key (unless a binary initial value is allowed, which is then stored as is), the command reports the documented error and changes nothing.",
  ["inputs", "histories"],
  "all pairs of stored values and operands, boundary values, non-numeric and over-long contents, file-backed values, both protocols, present/absent/expired keys",
  "tests use a handful of small numbers; wrap-around, saturation and parse boundaries are not sampled",
  [MC + "object.cpp", MC + "memcache.cpp", MC + "sockets.cpp"],
  [("arithmetic", "object::incr/decr in src/memcache/object.cpp"), ("operand parsing", "to_uint / binary extras in src/memcache/memcache.cpp"), ("initial value", "Increment/Decrement handlers in src/memcache/sockets.cpp")],
  ["incr/decr and Increment/Decrement replies", "values read back"])

p("C05", "Concurrent commands on the same key are atomic",
  "When many connections operate on the same keys at the same time, the replies are those of some one-at-a-time order of the commands consistent with real time: no increment, append or prepend is lost or applied twice, exactly one of several concurrent adds or CAS updates with the same value wins, and no read ever sees a mixture of two values. This holds while garbage collection runs.",
  ["schedules"],
  "all interleavings of commands from concurrent connections over all worker threads, with garbage collection running",
  "the test clients are sequential; nothing runs conflicting commands concurrently",
  ["cybozu/hash_map.hpp", MC + "sockets.cpp", "cybozu/worker.hpp", "cybozu/reactor.cpp", MC + "gc.cpp"],
  [("bucket mutex", "hash_map::bucket::apply/remove_if/gc in cybozu/hash_map.hpp"), ("one worker per connection at a time", "memcache_socket::on_readable m_busy in src/memcache/sockets.cpp")],
  ["replies and final values over concurrent connections"])

p("C06", "Expiration takes effect exactly at its time, everywhere",
  "An object stored or touched with expiration E is visible before and invisible from the moment the server clock reaches its deadline, where E=0 means never, E up to 30 days is relative to now and larger E is an absolute Unix time, in both protocols. An expired object is indistinguishable from an absent one for every command (reads, add, replace, append, cas, incr, delete, touch, lock, keys), whether or not garbage collection has removed it yet, and touch/get-and-touch replace only the deadline.",
  ["histories", "inputs", "configurations"],
  "all expiration values around the 30-day threshold and 2^32, all commands on expired objects, before and after collection, clock advanced to either side of each deadline",
  "tests sleep real seconds and probe one or two commands; they cannot place the clock on the deadline or visit the window before collection for every command",
  [MC + "memcache.cpp", MC + "object.hpp", MC + "sockets.cpp", MC + "gc.cpp", MC + "handler.cpp"],
  [("30-day threshold", "parse_* and binary_exptime in src/memcache/memcache.cpp"), ("lazy expiration", "object::expired in src/memcache/object.hpp"), ("collection", "gc_thread::gc in src/memcache/gc.cpp")],
  ["replies on the memcache port at controlled clock values"])

p("C07", "flush_all invalidates everything stored before it takes effect",
  "After flush_all (or Flush/FlushQ) takes effect - at once, or when the server clock reaches its delay or absolute time - every unlocked object stored before is gone for every command and stays gone; before a delayed flush takes effect nothing is lost. Objects stored after the flush has completed are unaffected, and a flush requested while another is being carried out is not forgotten.",
  ["histories", "schedules"],
  "all histories of stores, flushes (immediate, delayed, both protocols) and clock movements, including flushes requested during the collection of an earlier one",
  "tests issue one immediate flush and check one key; delayed and overlapping flushes are not exercised",
  [MC + "sockets.cpp", MC + "object.hpp", MC + "gc.cpp", MC + "memcache.cpp", MC + "handler.cpp"],
  [("flush time", "statistics::flush_time and object::expired"), ("flush collection", "gc_thread::gc in src/memcache/gc.cpp")],
  ["replies on the memcache port", "keys dump"],
  [("flush_time", "Unix time from which older objects are invalid, 0 when no flush is pending", "src/memcache/stats.hpp")])

p("C08", "Objects are evicted only under memory pressure, oldest-unused first",
  "While used memory stays within memory_limit, an object that is neither expired, flushed nor deleted is never removed, however many garbage collections run. When the limit is exceeded, collections remove unlocked objects that have gone unaccessed for the most collections and keep every object accessed since the previous collection, and memory use falls back under the limit once enough unused objects exist.",
  ["histories", "configurations"],
  "all workloads of sizes, accesses and collections relative to memory_limit and heap_data_limit",
  "no test reaches memory_limit or runs more than one collection",
  [MC + "gc.cpp", MC + "object.hpp", MC + "handler.cpp"],
  [("eviction age", "gc_thread::gc in src/memcache/gc.cpp"), ("access resets the age", "object::data/set/touch in src/memcache/object.hpp")],
  ["presence of keys", "stats evictions, bytes"],
  [("gc age", "collections survived since last access", "src/memcache/object.hpp")])

p("C09", "A locked object can be changed only by the connection holding the lock",
  "While one connection holds the lock of an object, every storage, counting, delete, lock, lock-and-get, unlock and replace-and-unlock command on it from any other connection is refused with the locked (or not-locked) error and changes nothing, while reads succeed; the holder's own updates succeed and keep the lock until it unlocks, replaces-and-unlocks or deletes the object. An object is locked by at most one connection at a time, and missing or expired objects cannot be locked.",
  ["histories"],
  "all histories of lock, unlock, update and read commands by several connections of both protocols over several objects",
  "protocol tests use two clients and one scripted order per command; combinations over several objects, quiet variants and text/binary mixes are not covered",
  [MC + "sockets.cpp", MC + "object.hpp", "docs/locking.md"],
  [("lock gating", "locked_by_other checks in src/memcache/sockets.cpp"), ("lock ownership", "object::lock/unlock in src/memcache/object.hpp")],
  ["replies on the memcache port"],
  [("lock owner", "the connection that locked the object", "src/memcache/object.hpp")])

p("C10", "Locks never outlive their connection and are never lost before it ends",
  "When a connection ends in any way - quit, close, half-close, reset, or the server dropping it - every lock it held, and no other lock, is released soon after; unlock_all releases exactly the caller's locks. As long as a connection stays open its locks stay held whatever other connections open, close or reuse.",
  ["histories", "fault_sequences", "schedules"],
  "all ways and moments a connection can end, with any set of locks held, including new connections replacing it at once and commands still in flight",
  "tests close one client politely; resets, in-flight data and descriptor reuse are not exercised",
  [MC + "sockets.cpp", MC + "sockets.hpp", "cybozu/tcp.hpp", "cybozu/reactor.hpp", "cybozu/reactor.cpp"],
  [("release on close", "memcache_socket::unlock_all and destructor"), ("unique lock context", "m_context in src/memcache/sockets.hpp")],
  ["lock/update replies from other connections"])

p("C11", "Locked objects survive expiration, flushes and eviction",
  "An object that is locked stays readable and keeps its value however far its expiration has passed, whatever flush is carried out and whatever memory pressure garbage collection meets. Once it is unlocked, expiration, flush and eviction apply to it again.",
  ["histories"],
  "all histories of locks combined with expirations, flushes, evictions and collections",
  "tests never combine locks with collection",
  [MC + "object.hpp", MC + "gc.cpp", "docs/locking.md"],
  [("locked exemption", "object::expired, gc predicate in src/memcache/gc.cpp")],
  ["reads of locked and unlocked keys after collections"])

p("C12", "Lock-protected read-modify-write sequences never interfere",
  "When concurrent clients each lock an object, read it, write a value derived from what they read and unlock it (with lock/unlock or lock-and-get/replace-and-unlock, in either protocol), the final value reflects every completed sequence exactly once, even if some clients disconnect while holding the lock. A client that disconnects before writing has no effect on the value.",
  ["schedules", "fault_sequences"],
  "all interleavings of locking clients, including abrupt disconnects between any two of their commands",
  "no test runs two locking clients concurrently",
  [MC + "sockets.cpp", MC + "object.hpp", "cybozu/hash_map.hpp"],
  [("mutual exclusion", "object::lock under the bucket mutex"), ("release on close", "memcache_socket::unlock_all and destructor")],
  ["final values and replies over concurrent connections"])

p("C13", "Replies do not depend on how requests are split or batched",
  "For any sequence of requests sent on a connection - text, binary or counter protocol - the sequence of reply bytes is the same whether the bytes arrive one at a time, in arbitrary fragments or all at once, and replies come in request order. A trailing incomplete request produces no reply and no effect.",
  ["inputs", "schedules"],
  "all request sequences and all ways of cutting their bytes into receive chunks, including cuts inside numbers, keys, data blocks and terminators",
  "tests send whole requests one by one",
  [MC + "sockets.cpp", MC + "memcache.cpp", "src/counter/sockets.cpp", "src/counter/counter.cpp", "cybozu/dynbuf.hpp"],
  [("pending buffer", "m_recvjob loops in src/memcache/sockets.cpp and src/counter/sockets.cpp"), ("incomplete detection", "request parsers")],
  ["reply bytes"])

p("C14", "No input can crash the server or disturb other clients",
  "Whatever bytes clients send to the memcache port - malformed lines or frames, absurd lengths, garbage, truncated requests - the server keeps running without memory errors, other connections are served correctly, and unrelated keys keep their values. On the offending connection every malformed text line gets an error reply and every well-delimited malformed binary frame gets an error response, after which valid requests on the same connection work normally.",
  ["inputs", "fault_sequences"],
  "all byte strings on any number of connections, and disconnects at any byte",
  "tests feed a list of hand-written invalid requests to the parsers only",
  [MC + "memcache.cpp", MC + "memcache.hpp", MC + "sockets.cpp", "cybozu/tcp.cpp"],
  [("request validation", "text_request / binary_request parsers"), ("request size guard", "MAX_REQUEST_LENGTH checks in src/memcache/sockets.cpp")],
  ["server process", "replies on offending and other connections", "address/undefined sanitizer reports"])

p("C15", "Binary responses are well-formed, matched and quiet when required",
  "Every binary response echoes the opcode and opaque of its request, has consistent lengths and the documented extras, key and CAS fields, and responses appear in request order. Quiet commands respond only on error - quiet gets only on a hit, except that the quiet lock-and-get commands report a miss - and every other command responds exactly once (Stat and Keys end with one empty-key response).",
  ["inputs", "histories"],
  "all opcodes (valid, quiet, unknown), field values and pipelined sequences over hit, miss, locked, mismatching and invalid states",
  "tests check each opcode in one or two states with one request in flight",
  [MC + "memcache.cpp", MC + "memcache.hpp", MC + "sockets.cpp", "docs/locking.md", "docs/keys.md"],
  [("header generation", "binary_response::fill_header in src/memcache/memcache.hpp"), ("quiet rule", "binary_request::quiet and cmd_bin")],
  ["response frames on the memcache port"])

p("C16", "Text commands reply exactly once in order; noreply never replies",
  "Each well-formed text command produces exactly one documented reply (VALUE blocks in request order closed by END for get and gets), in the order of the commands. With noreply, a well-formed command produces no bytes at all and has the same effect as without it.",
  ["inputs", "histories"],
  "all text commands, with and without noreply, in every object state (present, absent, expired, locked by self or other, non-numeric), with pipelining, multi-key gets and extra spaces",
  "tests parse noreply but do not check over the wire that nothing is sent in every state",
  [MC + "memcache.cpp", MC + "sockets.cpp"],
  [("noreply", "text_request::no_reply checks in src/memcache/sockets.cpp"), ("reply generation", "text_response in src/memcache/memcache.cpp")],
  ["reply bytes on the memcache port"])

p("C17", "Responses are complete and in order however slowly the client reads",
  "However large the responses are and however slowly or irregularly a client reads them, it eventually receives every byte of every response, uncorrupted, in order and without duplication, including when it half-closes or sends quit after pipelining requests. Memory for unsent data is released afterwards and the server keeps serving.",
  ["schedules", "inputs"],
  "all sizes and numbers of pipelined responses, partial-write positions and client reading patterns",
  "tests read replies immediately; partial writes and the pending buffers are never exercised through the server",
  ["cybozu/tcp.cpp", "cybozu/tcp.hpp", MC + "sockets.cpp", "src/counter/sockets.cpp"],
  [("pending data", "tcp_socket::_send/_sendv/write_pending_data in cybozu/tcp.cpp"), ("close after sending", "send_close/flush_close in cybozu/tcp.hpp")],
  ["bytes received by throttled clients"])

p("C18", "Size limits are enforced exactly and contain their damage",
  "Keys of up to 250 bytes are accepted and longer ones rejected by every command; a value is accepted by set-like commands if and only if it is no longer than max_data_size, and a rejected one leaves the old object unchanged and the connection usable. A request too large to be buffered ends only the connection that sent it (releasing its locks), and no sequence of appends or prepends can grow an object past the 30 MiB hard limit.",
  ["inputs", "configurations"],
  "all key and value lengths around each limit, max_data_size settings, both protocols, all commands carrying keys or data",
  "tests check one over-long key in the parser and no value limit over the wire",
  [MC + "sockets.cpp", MC + "memcache.cpp", "src/constants.hpp", "src/config.cpp"],
  [("key limit", "MAX_KEY_LENGTH checks"), ("value limit", "max_data_size checks in src/memcache/sockets.cpp"), ("request limit", "MAX_REQUEST_LENGTH checks")],
  ["replies on the memcache port", "connection closure"])

p("C19", "The keys command lists exactly the live keys with the prefix",
  "In the absence of concurrent changes, keys (text and binary) lists every existing unexpired key beginning with the given prefix exactly once, all keys when no prefix is given, and nothing else. Under concurrent changes, keys that exist throughout are still listed exactly once and never-existing keys never appear.",
  ["inputs", "histories", "schedules"],
  "all key sets, prefixes (including whole keys, longer than any key and binary bytes), expired or deleted keys, and concurrent writers",
  "tests list a few fixed keys",
  [MC + "sockets.cpp", "cybozu/hash_map.hpp", MC + "memcache.cpp", "docs/keys.md"],
  [("iteration", "hash_map::foreach"), ("prefix match", "hash_key::has_prefix")],
  ["keys replies"])

p("C20", "Statistics report what actually happened",
  "The statistics agree with the history: per-command counts, get hits and misses, CAS hits, misses and bad values, current and total connections equal what was done, and after a garbage collection the numbers and sizes of stored objects, expirations and evictions equal the true ones. The settings report shows the configuration in force, and text and binary statistics agree.",
  ["histories", "configurations"],
  "all histories of commands, connections and collections, and configurations",
  "tests only check that some statistics are returned",
  [MC + "stats.hpp", MC + "stats.cpp", MC + "sockets.cpp", MC + "gc.cpp", MC + "memcache.cpp"],
  [("counters", "g_stats updates in src/memcache/sockets.cpp"), ("object statistics", "gc_thread in src/memcache/gc.cpp"), ("reports", "stats_* in src/memcache/memcache.cpp")],
  ["stats, stats settings/items/sizes/ops replies"])

p("C21", "A new slave receives every object the master holds",
  "Once the initial replication of a newly connected slave has finished, the stream it received, applied in order, yields exactly the master's live objects with their values, flags and deadlines, including all changes made by clients while the initial copy was running. Objects larger than memory buffers, file-backed, empty or locked are included.",
  ["histories", "schedules"],
  "all object populations and all concurrent updates during the initial scan, any number of slaves joining at any time",
  "no existing test starts replication",
  [MC + "gc.cpp", MC + "replication.cpp", MC + "handler.cpp", MC + "sockets.cpp"],
  [("initial copy", "gc_thread::gc with m_new_slaves"), ("slaves added before the scan", "handler::on_master_interval"), ("stream format", "repl_object in src/memcache/replication.cpp")],
  ["bytes sent to a connected slave"])

p("C22", "Every change on the master reaches connected slaves in order",
  "For every sequence of successful updates on the master - storage, counting, touch, delete, replace-and-unlock, expiration, flush and eviction, from any connections - the state built by applying a connected slave's stream equals the master's state, key by key with value, flags and deadline; commands that fail or only read send no change. For each key the stream carries changes in the order they took effect, also under concurrent updates, and all connected slaves receive equivalent streams.",
  ["histories", "schedules"],
  "all histories over all commands of both protocols, concurrent clients, several slaves, values of every size",
  "no existing test starts replication",
  [MC + "sockets.cpp", MC + "replication.cpp", MC + "gc.cpp", "cybozu/tcp.cpp"],
  [("update propagation", "repl_object/repl_touch/repl_delete calls under the bucket lock"), ("buffering", "tcp_socket::_sendv")],
  ["bytes sent to connected slaves"])

p("C23", "A promoted slave serves exactly what its master replicated",
  "A slave that received any replication stream, in any fragmentation, and is then promoted serves exactly the resulting state: every key with the last replicated value, flags and deadline, deleted keys absent, and nothing left from before it joined that master. A truncated trailing record is ignored, and the promoted server accepts updates, locks and new slaves like any master.",
  ["inputs", "histories", "crash_points"],
  "all replication streams (sets, touches, deletes, sizes, deadlines), all fragmentations and all points at which the master disappears",
  "no existing test starts a slave",
  [MC + "replication.cpp", MC + "handler.cpp", MC + "sockets.cpp", "src/server.cpp"],
  [("stream application", "repl_recv in src/memcache/replication.cpp"), ("promotion", "server::serve_slave/serve_master in src/server.cpp"), ("clearing", "handler::clear")],
  ["replies after promotion"])

p("C24", "Roles follow the virtual IP and data survives failover",
  "A server serves clients if and only if it holds the virtual IP: without it, it acts as a slave that refuses client data service, retries until a master is reachable and keeps its data until it has connected to one; on acquiring the IP it becomes master with its data intact; a master that loses the IP exits instead of serving. After failover every update that the old master had replicated is served by the new master.",
  ["fault_sequences", "histories", "crash_points"],
  "all sequences of master crashes, IP moves, reconnections and client updates between a pair of servers",
  "no existing test runs two servers or moves the virtual IP",
  ["src/server.cpp", MC + "handler.cpp", MC + "gc.cpp", "cybozu/ip_address.cpp", "src/main.cpp"],
  [("role decision", "is_master in src/server.cpp"), ("VIP loss exit", "gc_thread::run in src/memcache/gc.cpp"), ("retry loop", "server::serve_slave")],
  ["listening ports", "replies", "exit status"])

p("C25", "Slave failures never harm the master",
  "The master drops a slave that stays silent for slave_timeout seconds and keeps one that sends heartbeats; slaves disconnecting, resetting or sending garbage at any moment never stop client service nor the streams of other slaves. At most five slaves are served at once; further ones are refused and can join once a place is free.",
  ["fault_sequences", "schedules"],
  "all sequences of slave connections, heartbeats, silences, disconnects and resets during client activity",
  "no existing test connects slaves",
  [MC + "handler.cpp", MC + "sockets.cpp", MC + "sockets.hpp", "src/constants.hpp"],
  [("heartbeat timeout", "repl_socket::timed_out and handler::on_master_interval"), ("slave limit", "handler::make_repl_socket")],
  ["slave connections", "client replies", "stats slaves"])

p("C26", "Counters never exceed their maximum and follow acquire/release exactly",
  "For every sequence of counter commands from several connections, acquire succeeds exactly when the counter does not exist or its consumption plus the request does not exceed the given maximum (for all 32-bit values), release succeeds exactly when this connection holds at least that much, and get and dump report the exact consumption. Failed commands change nothing and report the documented status.",
  ["histories", "inputs"],
  "all histories over several connections and names (1 to 65535 bytes), all 32-bit resources and maxima",
  "the counter test client uses a few small numbers on one or two connections",
  ["src/counter/sockets.cpp", "src/counter/object.hpp", "src/counter/counter.cpp", "docs/counter.md"],
  [("acquire/release", "counter::object"), ("per-connection accounting", "counter_socket::on_acquire/on_release")],
  ["counter port responses"],
  [("consumption", "resources currently acquired", "src/counter/object.hpp")])

p("C27", "Counter resources are conserved and released when connections end",
  "At every moment a counter's consumption equals the sum of what open connections hold; when a connection ends in any way its holdings, and only those, are released. Under concurrent clients no acquisition is lost or duplicated and the agreed maximum is never exceeded.",
  ["schedules", "fault_sequences"],
  "all interleavings of acquiring, releasing and disconnecting clients",
  "tests are sequential and end connections politely",
  ["src/counter/sockets.cpp", "src/counter/sockets.hpp", "src/counter/object.hpp", "cybozu/hash_map.hpp"],
  [("release on close", "counter_socket::release_all and destructor"), ("bucket mutex", "hash_map::bucket::apply")],
  ["counter get/dump responses", "acquire outcomes"])

p("C28", "Counter peak statistics and collection follow the statistics interval",
  "The maximum consumption reported for a counter is the highest consumption it had during the current statistics interval, including the level it started the interval with. A counter is discarded only after it has been fully released and a new interval has begun; a counter in use is never discarded or reset.",
  ["histories"],
  "all histories of acquire, release, dump and clock movement across interval boundaries and collections",
  "tests do not move time across intervals",
  ["src/counter/object.hpp", "src/counter/gc.cpp", "src/counter/handler.cpp"],
  [("peak tracking", "counter::object::acquire/release/max_consumption"), ("collection", "counter::gc_thread")],
  ["dump responses at controlled clock values", "counter statistics"])

p("C29", "Counter requests are validated and any input is survived",
  "Every counter request with a complete header and body gets exactly one response (dump: one per counter plus a terminator) echoing its opcode and opaque, with an invalid-arguments or unknown-command status when malformed and no effect in that case. No byte sequence on the counter port can crash the server, corrupt memory or disturb other connections.",
  ["inputs", "fault_sequences"],
  "all opcodes, body lengths, inner name lengths, magics and byte strings, and disconnects at any byte",
  "the parser test feeds a list of hand-written requests",
  ["src/counter/counter.cpp", "src/counter/counter.hpp", "src/counter/sockets.cpp"],
  [("request validation", "counter::request::parse"), ("response generation", "counter::response")],
  ["counter port responses", "server process", "sanitizer reports"])

p("C30", "Connection limits hold and every slot comes back",
  "With max_connections configured, that many clients are served simultaneously and further ones are refused; whenever a connection ends in any way its place becomes available again, for both the memcache and the counter port. Running out of file descriptors never stops the server from serving existing clients, and service to new clients resumes once descriptors are free.",
  ["fault_sequences", "configurations", "histories"],
  "all histories of connections being opened and ended in every way, against all limits and descriptor limits",
  "tests open a few connections and never reach a limit",
  [MC + "handler.cpp", "src/counter/handler.cpp", "cybozu/tcp.cpp", MC + "sockets.cpp"],
  [("limit", "make_memcache_socket / make_counter_socket"), ("slot release", "on_invalidate and recv handling"), ("EMFILE handling", "tcp_server_socket::on_readable")],
  ["connect outcomes", "curr_connections"])

p("C31", "Temporary files never leak and are never visible",
  "Objects larger than heap_data_limit use temporary files that are unlinked as soon as they are created, so nothing is left in temp_dir at any time, even if the server is killed. Each such object uses one descriptor, released when the object is deleted, replaced by a small value, expired, flushed or evicted.",
  ["histories", "crash_points"],
  "all histories of large and small stores, removals and collections, and a kill at any moment",
  "the tempfile test writes and reads one file",
  ["src/tempfile.cpp", "src/tempfile.hpp", MC + "object.cpp", MC + "gc.cpp"],
  [("unlink at creation", "tempfile constructor"), ("close at destruction", "tempfile destructor, file_flusher")],
  ["temp_dir listing", "open descriptors of the server"])

p("C32", "With secure_erase, removed values are wiped from object memory",
  "With secure_erase enabled, no memory that held the value of an in-memory object is given back to the allocator before being overwritten, whenever a value is deleted, replaced, appended or prepended to, incremented, expired, flushed or evicted. Without secure_erase nothing else about the server's behaviour differs.",
  ["histories", "configurations"],
  "all histories of commands that replace, resize or remove values held in memory",
  "the tests only check the memory clearing primitive itself",
  ["cybozu/dynbuf.hpp", MC + "object.cpp", "cybozu/util.cpp", "src/config.cpp"],
  [("erasing buffer", "dynbuf with m_erase"), ("object buffers", "object constructors and prepend")],
  ["contents of memory blocks at the moment they are freed"])

p("C33", "Valid configuration is applied exactly; invalid configuration is refused",
  "Every valid configuration file is accepted and each option - ports, limits, sizes with K/M/G suffixes, booleans, strings, intervals, counter options - takes the value written, as shown by settings and behaviour, with documented defaults for the rest. A file with an unparsable line, an out-of-range, malformed or unknown-valued option prevents the server from starting instead of being silently misread.",
  ["inputs", "configurations"],
  "all assignments of options, spellings, spacing, quoting, comments and invalid values",
  "the config test loads one fixed file",
  ["src/config.cpp", "src/config.hpp", "cybozu/config_parser.cpp", "cybozu/config_parser.hpp", "docs/usage.md"],
  [("parsing", "config_parser::load/get_as_*"), ("validation", "config::load, counter_config::load")],
  ["start-up exit status", "stats settings", "listening ports"])

p("C34", "Signals stop, reopen logs and dump statistics without harm",
  "SIGTERM, SIGINT and SIGQUIT at any moment, under any load and in either role, end the server promptly with success; SIGHUP makes later log lines go to a file at the configured path even if it was renamed; SIGUSR1 writes statistics to the log. HUP and USR1 under load never disturb clients or lose data.",
  ["schedules", "fault_sequences"],
  "all arrival times of signals relative to client activity, garbage collection and replication",
  "the signal test only exercises signalfd itself",
  ["src/server.cpp", "cybozu/signal.cpp", "cybozu/signal.hpp", "cybozu/logger.cpp", "src/main.cpp"],
  [("signal dispatch", "signal_reader in cybozu/signal.cpp, signal setup in src/server.cpp"), ("log reopening", "logger::reopen")],
  ["exit status", "log files", "client replies"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fp:
    for d in P:
        fp.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
