#!/usr/bin/env python3
"""Writes properties.jsonl (the list is kept here for being easy to edit)"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = []


def P(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    n = statement.count(". ") + 1
    assert n <= 3, (id, n)
    OUT.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                 state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                                 observe_at=observe, hook_needed=None)))


LL = "pkg/storage/logfs/locallog.go"
CH = "pkg/storage/chunkfs/chunk.go"
PR = "pkg/storage/chunkfs/provider.go"
RP = "pkg/storage/chunkfs/replicator.go"
CA = "pkg/storage/chunkfs/caccessor.go"
SC = "pkg/storage/chunkfs/scanner.go"
BU = "pkg/storage/buntdb/buntdb.go"
PG = "pkg/storage/postgres/postgres.go"

P("P01", "Acknowledged records are kept once, in order and unchanged",
  "Every record acknowledged by an append is returned by later reads of that log exactly once, in the append order, with the appended payload, strictly increasing IDs and a creation time equal to the timestamp of its ID, however the appends are split into calls and chunk files and interleaved with other logs. "
  "An append acknowledges a prefix of its records: the reported number (and, if asked for, the reported IDs) are exactly those of the records stored by the call, and nothing of the rest is stored. "
  "Records of one log are never visible in another one, and all of this survives closing the storage and opening it again on the same data.",
  ["inputs", "histories"], "every sequence of appends (any batch and payload sizes), reads and restarts over several logs, for every chunk size configuration and every limit of open files and locks",
  "the unit tests append a few fixed batches to one or two logs with the default chunk geometry; rolling over chunks, payload mix, re-opening and interleaving are sampled at a couple of points",
  [LL, CH, PR, BU], [("append: splitting a batch over chunks, updating the catalogue", LL), ("chunk append and meta table", CH)],
  ["AppendRecords/QueryRecords of the local log"])

P("P02", "Reading by pages returns everything, in order, once",
  "For any log, direction, start record ID (inclusive, existing or not), limit and response-size budget, a read returns the records at or after (for the descending order, at or before) the start, in ID order of the direction, without gaps, not more than the limit; the page ends early only when the configured size budget is reached (only its last record may exceed the budget) and it always contains at least one record if there is one to return. "
  "The 'more' indication is never false while there are records left to read in that direction, so that following the pages until it is false returns every record exactly once.",
  ["inputs", "histories"], "every content of a log over any number of chunks, every start ID (existing, in between, before the first, after the last), limit, budget and direction",
  "tests read a handful of fixed pages from logs of one or two chunks; boundaries between chunks, budget cuts and non-existing start IDs are barely touched",
  [LL, CH], [("choice of the first chunk, loop over the chunks, the limits", LL), ("ChunkReader.SetStartID", CH)], ["QueryRecords of the local log"])

P("P03", "A ctime condition selects exactly the matching records",
  "A read with a condition on the records' creation time (any boolean combination of <, >, <=, >=, =, != comparisons with AND, OR, NOT and parentheses) returns exactly the records of the log for which the condition is true, in the same order and with the same paging guarantees as an unconditional read. "
  "A condition that no record can satisfy returns nothing, a blank condition is the same as no condition, and time constants of any precision and far outside of the records' range are handled.",
  ["inputs", "histories"], "every condition of the grammar with any time constants (record times, milliseconds around, sub-millisecond fractions, remote past and future), every log content, start ID, direction and limit",
  "tests use a couple of hand-made intervals; nested negations, contradictions, sub-millisecond bounds and conditions combined with start IDs and chunk borders are not reached",
  [LL, "pkg/ql/intervalbuilder.go", "pkg/intervals/intervals.go"], [("condition -> intervals -> ID ranges per chunk", LL), ("ParamIntervalBuilder", "pkg/ql/intervalbuilder.go")],
  ["QueryRecords of the local log"])

P("P04", "Record counts agree with what a reader would get",
  "Counting the records of a log reports the number of all the records in the log as the total, and as the count exactly the number of records that reading to the end with the same condition, start record and direction returns. "
  "If the records cannot be counted an error is returned rather than a number.",
  ["inputs", "histories", "fault_sequences"], "every log content over chunks, condition, start ID and direction; chunk files that cannot be opened",
  "tests count a few fixed logs; conditions with start IDs, descending counts, contradictory conditions and failing chunks are not covered",
  [LL], [("CountRecords", LL)], ["CountRecords of the local log"])

P("P05", "Chunk capacity: the maximum size is respected and a log never gets stuck",
  "A chunk file never becomes larger than its configured maximum size, and an append to a chunk stores the longest prefix of the batch that fits into that maximum, growing the file as needed and reporting how many records are stored, or, if the whole batch does not fit, may be refused as exhausting the chunk without changing anything. "
  "On the log level a record that fits into an empty chunk is always accepted, whatever is already in the log (a new chunk is started when needed); only a record that cannot fit into an empty chunk is rejected, as invalid, without harm to the log and without leaving empty chunks behind.",
  ["inputs", "histories", "configurations"], "every geometry (initial size, maximum size, growth step) and every sequence of batches with payload sizes around the remaining capacity",
  "tests use one geometry and do not fill chunks to the last bytes",
  [CH, LL], [("writable()/growForWrite()", CH), ("AppendRecords loop", LL)], ["Chunk.AppendRecords, size of the file", "AppendRecords of the local log"])

P("P06", "A chunk file reopens to the same content and seeks correctly",
  "A chunk closed and opened again (with or without the full check, also after it has grown) has exactly the records written so far, readable in both directions, and can be appended further; the full check accepts every file produced by the chunk itself and rejects files whose record table is inconsistent (IDs out of order, offsets and sizes that do not add up or leave the payload area). "
  "Positioning a reader at an ID leaves exactly the records with IDs not less than it (not greater, for the descending order) to be read, and reports their number.",
  ["inputs", "histories", "configurations"], "every sequence of append/close/open operations and every geometry; every seek ID; every single damage of an entry of the record table",
  "the tests open a chunk once or twice, the full check is tested on an empty chunk only",
  [CH, "golibs/files/mmfile.go"], [("init()", CH), ("SetStartID()", CH)], ["Chunk.Open, ChunkReader"])

P("P07", "Acknowledged records survive killing the process",
  "If the process is killed at any moment, then after a restart on the same files every record acknowledged before the kill is read back unchanged and in order, possibly followed by records of the append that was in progress, and the log accepts new appends.",
  ["crash_points", "histories"], "every moment of a kill (SIGKILL) during a sequence of appends over several logs and chunks",
  "no test kills the process",
  [LL, CH, "golibs/files/mmfile.go", BU], [("mmaped chunk file", "golibs/files/mmfile.go"), ("catalogue update before the acknowledgement", LL)], ["acknowledgements of a child process vs. the content after the restart"])

P("P08", "Concurrent appends and reads behave as if executed one by one",
  "With any number of concurrent appenders and readers on any number of logs (more logs and chunks than the limits of open files and locks), nobody deadlocks, every acknowledged batch is stored exactly once with its records in order, and two appends acknowledged one after another are stored in this order. "
  "Every read started after an acknowledgement sees the acknowledged records, and whatever a concurrent ascending read returns is a gap-free beginning of the final content of the log.",
  ["schedules", "histories"], "every interleaving of appends, reads and counts over several logs",
  "the tests run everything from one goroutine or check only the final number of records",
  [LL, CH, PR, CA, "golibs/container/lru/releasable.go"], [("per-log lock", LL), ("chunk rw-lock", CH), ("pool of opened chunks", PR)], ["results of concurrent AppendRecords/QueryRecords"])

P("P09", "Replication never loses or changes a chunk",
  "Whatever sequence of uploads, downloads, deletions with synchronisation, local losses and remote failures (failing, partial or interrupted transfers) happens, the last content of a chunk stays available either locally or remotely: a local copy is removed only after it is stored remotely, and a failed operation reports an error and never replaces or leaves a broken copy in place of a good one. "
  "A chunk that is downloaded is byte for byte what was uploaded, so reads after local loss return the same records.",
  ["histories", "fault_sequences"], "every sequence of replication operations and every failure of the remote storage or of the transferred data",
  "tests upload and download one chunk with the in-memory storage, which never fails",
  [RP, PR, "golibs/files/ziputil.go"], [("zipAndUpload/DeleteChunk/DownloadChunk", RP), ("download if there is no local file", PR)], ["files of the local folder, content of the remote storage, records read"])

P("P10", "The scanner removes only replicated chunks and keeps to its thresholds",
  "The scanner uploads every chunk that was modified and not changed for the configured time, does not upload it again until it is changed, and when the size of a folder of chunks reaches the upper threshold it removes chunks of it, the least recently modified first, until the size is below the lower threshold. "
  "A chunk is removed locally only if it is not in use and it has been stored remotely, files that are not chunks are never touched, and the scanner stops when it is told to.",
  ["histories", "fault_sequences", "configurations"], "every content of the folders (sizes, modification times, foreign files), thresholds, in-use chunks and failing uploads",
  "tests check single helper functions with fixed values", [SC, RP], [("sweep()/replicate()", SC)], ["local folder and the remote storage after scans"])

P("P11", "A chunk file is never removed while somebody uses it",
  "Deleting a chunk which is opened, being written, uploaded or downloaded is refused with a conflict and changes nothing; a chunk being deleted cannot be opened, written, uploaded or downloaded until the deletion is over. "
  "At most one operation at a time has the exclusive access to a chunk, the waiting ones get it when it is released, and a waiter whose context is cancelled, or on shutdown, returns promptly with an error and blocks nobody.",
  ["schedules", "histories"], "every interleaving of open/release, write, upload, download, delete, cancellation and shutdown on several chunks",
  "tests cover a few two-step scenarios", [CA, RP, PR], [("state machine per chunk", CA)], ["errors of the operations, file system and storage calls observed by a stand-in storage"])

P("P12", "LRU caches are bounded, single-flight and evict the least recently used",
  "A cache never holds more than its capacity, a lookup of a missing key creates the value exactly once even if many callers ask for it concurrently, an error is returned to the caller whose creation failed and is never cached, and a hit returns the value created for that key. "
  "The least recently used entry is evicted first, every value leaving the cache (evicted, removed, cleared or expired) is passed to the delete callback exactly once, and a lookup never returns an entry which had expired or had been removed before the lookup started, even if it was still being created when it was removed.",
  ["inputs", "histories", "schedules"], "every sequence and interleaving of lookups, removals, clears and failures for every capacity",
  "tests check fixed short sequences", ["golibs/container/lru/cache.go", "golibs/container/lru/ecache.go", "golibs/container/lru/expirable.go"],
  [("GetOrCreate/Remove/Clear", "golibs/container/lru/ecache.go")], ["created/deleted callbacks, returned values"])

P("P13", "The log catalogue behaves as a map of logs",
  "Creating, reading, updating, querying and deleting logs (by IDs or by a condition, physically or by marking) behaves as on a map from ID to log: a created log has a fresh ID and is read back with its tags and times, updates change only the addressed log, a marked, deleted or unknown log is reported as not existing and is excluded from queries; a deletion reports exactly the logs which it has marked or (marked before or not) dropped physically. "
  "A query returns exactly the matching logs page by page in the order of their IDs: every matching log once, no more than the limit per page, with the number of all the matching logs as the total on every page; everything survives a restart, and a failure of the database is never reported as a result.",
  ["inputs", "histories"], "every sequence of catalogue operations with any tags, conditions, pages and limits, including restarts",
  "tests run a fixed scenario with a few logs; those of PostgreSQL need a container", [BU, PG, "pkg/storage/storage.go"], [("buntdb storage of logs", BU), ("PostgreSQL storage of logs", PG)], ["results of the catalogue operations"])

P("P14", "The chunk catalogue keeps the chunk list of every log",
  "For every log the catalogue returns the chunks upserted for it, each one once and with its last values, ordered by the chunk ID, and the last chunk is the one with the greatest ID; chunks of different logs never mix, whatever their IDs are, a log without chunks has no last chunk, an unknown or marked log is reported as not existing. "
  "Deleting a log physically drops its chunks, marking it keeps them, and everything survives a restart.",
  ["inputs", "histories"], "every sequence of upserts and deletes over several logs", "tests use two logs with fixed chunks", [BU, PG], [("chunk keys", BU), ("chunk table", PG)], ["GetChunks/GetLastChunk"])

P("P15", "The metadata cache is transparent",
  "With the cache in front of the metadata storage every read which is not concurrent with a modification returns exactly what the storage itself would return, and no read returns a state older than the one left by a modification of the same log made through the cache and completed (successfully or with an error) before the read started, even if the modification overlapped with loads in progress. "
  "Initializing and shutting it down does the same with the storage; what a caller does with a returned or passed value never changes what others get.",
  ["histories", "schedules", "fault_sequences"], "every history of reads and modifications, with loads of the underlying storage delayed at any point, and failing",
  "tests call methods one by one over mocks", ["pkg/storage/cache/cache.go", "golibs/container/lru/ecache.go"], [("invalidate on write", "pkg/storage/cache/cache.go")], ["results of the cached storage vs. the underlying one"])

P("P16", "The SQL made of a log condition means the same as the condition",
  "The SQL text made of a condition on logs selects, for every log with any ID and tags, exactly the logs for which the condition evaluates to true, and stays a single self-contained boolean expression whatever characters (quotes included) its constants contain. "
  "A condition which the evaluator rejects as invalid because of unknown or misused parameters is rejected by the translator too.",
  ["inputs"], "every condition of the grammar over log IDs and tags with any constants, every log",
  "tests compare the SQL text of a few conditions with expected strings", ["pkg/ql/translator.go", "pkg/ql/dialect.go"], [("Translator", "pkg/ql/translator.go")], ["rows selected by a SQL engine"])

P("P17", "Conditions evaluate by their documented meaning",
  "Evaluating a condition for a log or a record gives the value of the boolean formula: OR binds weaker than AND, which binds weaker than NOT, parentheses group, comparisons of strings and times, IN (membership) and LIKE (% is any sequence) have their documented meaning, keywords are case-insensitive, strings may be in single or double quotes and white space does not matter. "
  "The empty condition is always true.",
  ["inputs", "programs"], "every expression of the grammar and every value", "tests evaluate a list of fixed expressions", ["pkg/ql/evaluator.go", "pkg/ql/parser.go", "pkg/ql/dialect.go"],
  [("BuildExprF", "pkg/ql/evaluator.go")], ["value of the evaluator vs. a reference evaluator"])

P("P18", "Any condition text is either handled or rejected as invalid",
  "Parsing, evaluating, translating and converting to time intervals never crashes, hangs or exhausts resources for any text; what is not a condition of the language (wrong syntax, unknown or misplaced parameters, unsupported operations, wrong constants) is rejected with an error, never silently accepted as something else.",
  ["inputs"], "every byte string, and every near-miss mutation of valid conditions", "tests have a few negative examples", ["pkg/ql/parser.go", "pkg/ql/evaluator.go", "pkg/ql/translator.go", "pkg/ql/intervalbuilder.go"],
  [("Parse", "pkg/ql/parser.go")], ["errors and panics"])

P("P19", "Interval arithmetic agrees with sets of points",
  "For every two intervals (open, half-open, closed) within a basis their intersection is the set of common points, the union, when reported, is exactly the set of points of both and is reported whenever they overlap, and the complement is exactly the rest of the basis; before/after/starts-before/ends-after answer by the positions of the points and of the borders.",
  ["inputs"], "every pair of valid intervals of every basis", "tests check a table of pairs", ["pkg/intervals/intervals.go"], [("Basis operations", "pkg/intervals/intervals.go")], ["membership of points"])

P("P20", "Intervals made of a condition cover exactly the times allowed by it",
  "For a condition made of comparisons of the time parameter with constants, combined by AND, OR, NOT and parentheses, the produced intervals contain exactly the points of the basis for which the condition is true, are sorted and do not overlap. "
  "When parts of the condition do not constrain the parameter, no point for which the condition may still be true is left out.",
  ["inputs", "programs"], "every condition of the grammar with any constants, within and outside of the basis", "tests check a table of expressions", ["pkg/ql/intervalbuilder.go"], [("ParamIntervalBuilder.Build", "pkg/ql/intervalbuilder.go")], ["membership of points vs. evaluation of the condition"])

P("P21", "A query over several logs is one merged, ordered, pageable sequence",
  "A query for several logs (listed or selected by a condition) returns the records of all of them merged by record ID in the requested direction, each one once and labelled with its log, and following the page tokens visits every record of that sequence exactly once, in order, for any positive limit, whatever the distribution of the records over the logs. "
  "A page of several logs is full unless it is the last one, its token is the ID of the next record, and there is none after the last record. Selecting more logs than can be merged, or a failure of the storage, is reported as an error and never as a shorter result.",
  ["inputs", "histories"], "every distribution of records over 1..n logs, direction, limit, condition and number of pages", "tests merge fixed small lists", ["pkg/api/service.go", "pkg/api/riterator.go", "pkg/api/mixer.go", "golibs/container/iterable/mixer.go"],
  [("QueryRecords", "pkg/api/service.go"), ("page fetching iterator", "pkg/api/riterator.go")], ["QueryRecords of the service"])

P("P22", "The service validates requests, applies limits, reports errors as statuses",
  "For any request with any field values every service method returns either a result or an error with the gRPC status code of its kind (invalid argument, not found, already exists, ...), and never crashes: zero, negative and huge limits, unknown logs, malformed IDs, conditions and page tokens, logs deleted meanwhile and failing storages included. "
  "No response has more items than the positive limit asked for (none if it is zero or negative for records) or the maximum configured for reading one log, and counting over logs adds up the counts of the selected logs.",
  ["inputs", "fault_sequences"], "every request, any storage content and any failure of the storages", "tests send a few well-formed requests", ["pkg/api/service.go", "golibs/errors/grpc.go"], [("Service methods", "pkg/api/service.go")], ["responses and status codes"])

P("P23", "The REST API gives the same results as the gRPC API",
  "Every REST request has the effect and the result of the corresponding service call: all the fields of the request and of the response (records, IDs, tags, times, payloads, totals, page tokens) are carried over without a loss, and errors are reported with the HTTP status corresponding to the error kind.",
  ["inputs", "histories"], "every request of the REST API with any field values, over any storage content", "tests exercise a few calls with fixed values", ["pkg/api/rest/rest.go", "pkg/api/rest/transformers.go"], [("REST handlers", "pkg/api/rest/rest.go")], ["HTTP responses vs. service responses"])

P("P24", "Error kinds survive wrapping and transport",
  "An error of a kind which has a gRPC code (exist, not exist, invalid, not authorized, data loss, exhausted, unimplemented, conflict, canceled, internal), wrapped any number of times, is recognised as the same kind before and after it is converted into a gRPC status and back and keeps its message, different kinds are never confused, an unknown error is internal after the transport and no kind before it, no error stays no error, and an object embedded into an error is extracted back intact.",
  ["inputs"], "every error kind, depth of wrapping and embedded object", "tests check a few conversions", ["golibs/errors/errors.go", "golibs/errors/grpc.go"], [("GRPCWrap/GRPCStatusCode/FromGRPCError", "golibs/errors/grpc.go")], ["errors.Is on both sides"])

P("P25", "Shared resources are created once, bounded and destroyed only when unused",
  "The pool of releasable resources creates at most one live resource per key, never has more than the capacity of them at once, gives the same one to all its concurrent holders, and destroys a resource exactly once, only after its last holder has released it. "
  "A caller waiting for a slot gets it when one becomes free (also because a creation has failed), or returns promptly with an error when its context is done or the pool is closed; after the close all resources are destroyed as they are released and nothing can be obtained.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of get, release, creation failure, cancellation and close for every capacity", "tests check a few scenarios with sleeps", ["golibs/container/lru/releasable.go"], [("ReleasableCache", "golibs/container/lru/releasable.go")], ["create/destroy callbacks, obtained values"])

P("P27", "The iterable map iterates consistently while it is modified",
  "The map behaves as a map with the insertion order (adding an existing key is an error which changes nothing): an iterator returns the entries in this order, skips the ones removed before it reaches them and returns the ones added ahead of it, each at most once, whatever additions and removals happen between its steps and however many iterators are open or closed. "
  "A new iteration always starts from the first live entry.",
  ["histories"], "every sequence of add/remove/iterate/close operations with several iterators", "tests check a few sequences", ["golibs/container/iterable/map.go"], [("Map", "golibs/container/iterable/map.go")], ["iterators and lookups"])

P("P28", "Merging iterators yields the ordered union of the inputs",
  "Merging sorted iterators gives all their elements, each exactly once, in the order of the selector; peeking repeatedly does not lose or change anything, resetting starts over if the sources support it and otherwise is refused and changes nothing, and closing closes the sources exactly once.",
  ["inputs", "histories"], "every set of sorted inputs and every sequence of HasNext/Next/Reset/Close", "tests merge fixed lists", ["golibs/container/iterable/mixer.go", "golibs/container/iterable/iterator.go", "golibs/container/iterable/intit.go"], [("Mixer", "golibs/container/iterable/mixer.go")], ["elements"])

P("P29", "Key-value storages implement versioned, expiring records",
  "All key-value storages behave alike: Create stores only if the key does not exist, Put overwrites, a compare-and-swap succeeds only for the current version, every successful write gives a new version, Get, GetMany and the key listing (by prefix) see exactly the live records (nothing is given for a missing one), and a record is gone for every operation once it is deleted or its expiration time has passed. "
  "A waiter for a version change returns when the record is changed, deleted or expired, or its context is done; a stored value is never affected by what callers do with their buffers.",
  ["histories", "schedules"], "every sequence of operations with any keys, values, versions and expirations over each implementation", "a shared suite checks a few sequences", ["golibs/kvs/kvs.go", "golibs/kvs/inmem/inmem.go", "golibs/kvs/redis/redis.go"], [("inmem storage", "golibs/kvs/inmem/inmem.go"), ("redis storage", "golibs/kvs/redis/redis.go")], ["results vs. a model"])

P("P30", "The distributed lock excludes everybody else and is always released",
  "At any moment at most one holder of a named lock is between lock and unlock, across all the lockers, providers and instances sharing the storage; locks with different names are independent. "
  "After the unlock (or after the lease of a dead holder expires) one of the waiters acquires the lock; a lock attempt with a cancelled context, on a closed provider or with a failed storage returns an error and leaves the lock usable for the others, and TryLock never waits for a holder; a live holder keeps the lock for as long as it needs it, even if the storage is unavailable for a part of the lease.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of lock/trylock/unlock/cancel/close/crash over several instances", "tests use a few goroutines and fixed timings", ["golibs/kvs/distlock/kvlock.go"], [("kv locks", "golibs/kvs/distlock/kvlock.go")], ["critical sections"])

P("P31", "Scheduled calls run exactly once, not early, unless cancelled",
  "A scheduled function is called exactly once, not before its time and reasonably soon after it, regardless of how many other calls are scheduled, in what order and from how many goroutines, provided the scheduled functions return promptly. "
  "A call cancelled before its time is never executed, and cancelling is idempotent and affects no other call.",
  ["schedules", "histories"], "every set of delays and cancellations", "the package's tests are flaky and check single calls", ["golibs/timeout/timeout.go"], [("Call/Cancel", "golibs/timeout/timeout.go")], ["calls made"])

P("P32", "The block allocator hands out disjoint blocks and persists its state",
  "Allocated blocks never overlap each other or the allocator's own data, an allocation succeeds as long as there is a free block and fails with an error otherwise, a freed block can be allocated again, freeing a free or non-existing block is rejected and changes nothing, and the number of free blocks is exact. "
  "Reopening over the same bytes restores exactly the set of allocated blocks and their content; wrong geometries (block sizes, sizes of the storage) are rejected with an error.",
  ["inputs", "histories", "configurations"], "every sequence of allocate/free/write/reopen operations for every block and segment size", "tests check fixed sequences", ["golibs/container/bytes/blocks.go", "golibs/container/bytes/inmem.go"], [("Blocks", "golibs/container/bytes/blocks.go")], ["block indexes and contents"])

P("P33", "The ring buffer is a bounded FIFO queue",
  "The ring buffer is a FIFO queue of the fixed capacity: reads return the written elements in order and exactly once, writes and skips beyond what is possible are refused or cut as documented, lengths and indexed access are exact at any time, including after wrapping around any number of times.",
  ["histories"], "every sequence of operations for every capacity", "tests check a few short sequences", ["golibs/container/ringbuffer.go"], [("RingBuffer", "golibs/container/ringbuffer.go")], ["results vs. a model"])

P("P34", "Binary encoding round-trips and rejects malformed input",
  "Every value (integers of every width, variable-length integers, byte slices, strings) is decoded to itself, consuming exactly the bytes the encoder produced and the announced size; encoding into a too small buffer is reported as an error. "
  "Decoding any byte string, truncated or malformed, returns a value or an error without crashing, never reads beyond the buffer and never returns a wrapped-around value, and a decoded value asked to be a copy does not alias the input.",
  ["inputs"], "every value, buffer size and byte string", "tests check a few values", ["golibs/xbinary/xbinary.go"], [("Marshal*/Unmarshal*", "golibs/xbinary/xbinary.go")], ["round trips"])

P("P35", "A memory mapped file reflects exactly what was written",
  "Bytes written through the mapped buffers are what the file has and what later mappings (after growing, closing and opening again) show, growing preserves the content and adds zeros, the size is as requested, a buffer starting out of the file is rejected and one exceeding its end is cut there, wrong sizes and operations on a closed file are rejected with errors.",
  ["histories", "configurations"], "every sequence of write/grow/close/open operations and any offsets and sizes", "tests check a few offsets", ["golibs/files/mmfile.go"], [("MMFile", "golibs/files/mmfile.go")], ["file content"])

P("P36", "File utilities preserve trees and contents",
  "Archiving a folder (of regular files and folders; folders without files are not archived) and extracting it, and copying a folder or a file reproduce the tree and every content byte for byte; an error of reading or writing is reported, it is never a silently incomplete result. "
  "Nothing is written outside of the destination folder, whatever names an archive has. A hash of a tree or a file depends on the names and contents only: equal for equal trees and different after a change of any file's content or name.",
  ["inputs"], "every directory tree and archive", "tests use one small tree", ["golibs/files/files.go", "golibs/files/ziputil.go", "golibs/files/hash.go"], [("zip/unzip/copy", "golibs/files/ziputil.go")], ["the resulting trees"])

P("P37", "Configuration layers override each other field by field",
  "Applying configuration layers (defaults, another value, JSON or YAML files, environment variables) results in the value of the last layer that sets the field and leaves all other fields as they were, for nested structures, pointers, slices and maps (files add keys to maps) too; another value sets the fields which are not zero in it. "
  "Malformed files are reported as errors and a malformed variable is never applied; the network settings override each other the same way, and their printed address is read back as the same settings.",
  ["inputs", "configurations"], "every combination of layers setting any subset of the fields", "tests set a few fixed fields", ["golibs/config/enricher.go", "golibs/config/config.go", "golibs/transport/transport.go"], [("Enricher", "golibs/config/enricher.go")], ["resulting values vs. a model"])

P("P38", "Record IDs are unique, increasing and have exact neighbours",
  "IDs generated by the process, from any number of goroutines, are unique and increase in the order of generation, and carry the current time. "
  "The next (previous) ID of an ID is its immediate successor (predecessor) in the ID order: nothing is in between, and they are inverse to each other; texts of a wrong length are rejected.",
  ["inputs", "schedules"], "every ID and any number of concurrent generators", "tests check a few IDs", ["golibs/ulidutils/ulidutils.go"], [("New/NextID/PrevID", "golibs/ulidutils/ulidutils.go")], ["IDs as 128 bit numbers"])

P("P43", "The database is connected to by exactly the configured parameters",
  "Whatever characters the host, the port, the user, the password, the name of the database and the SSL mode have, the connection string (the key/value one and the URL) makes the driver connect to that host and port with that SSL mode, as that user with that password, and to that database, with no other parameters. "
  "A parameter which is not specified has the default value, and it does not change the meaning of the others.",
  ["configurations"], "every value of the connection parameters, except NUL characters", "the connection needs a database, tests use one fixed configuration", ["pkg/db/config.go"], [("SourceName/URL", "pkg/db/config.go")], ["what the server gets from the driver"])

P("P44", "The server serves what it acknowledged, starts as configured and stops cleanly",
  "Started by a configuration (a file, environment variables), the server answers on the configured addresses, by gRPC and REST, and serves everything which was acknowledged by the earlier runs on the same database and folder, whether they were stopped or killed. "
  "Told to stop (at any moment, also while it is starting or serves requests), it stops in bounded time, what it has acknowledged is kept, a request is either served entirely or fails, nothing is served afterwards, and the ports, the connections and the go-routines are released. "
  "A server which cannot start as it is configured (no folder, a busy port, no database, a wrong setting) reports an error and stops, it does not run partially.",
  ["histories", "schedules", "configurations", "crash_points"], "every configuration, history of requests, moment of a stop", "the tests do not start the server", ["pkg/server/server.go", "pkg/grpc/server.go", "pkg/http/router.go", "pkg/storage/postgres/db.go", "pkg/server/config.go", "cmd/solaris/commands/start.go"], [("server.Run", "pkg/server/server.go"), ("gRPC server", "pkg/grpc/server.go"), ("HTTP server", "pkg/http/router.go")], ["answers over gRPC and REST after restarts", "exit of the process", "ports", "connections of the database"])

P("P39", "Object storages keep objects by path",
  "All object storages behave alike: a stored object is read back byte for byte, storing again replaces it, deleting makes it not existing and deleting a missing one is not an error, reading a missing one is reported as not existing, listing a path returns exactly the objects and sub-folders directly under it, and operations on different keys (also concurrent ones) never affect each other.",
  ["histories", "schedules"], "every sequence of operations with any valid keys and contents", "a shared suite checks a few keys", ["golibs/sss/service.go", "golibs/sss/inmem/storage.go", "golibs/sss/s3/storage.go"], [("inmem storage", "golibs/sss/inmem/storage.go"), ("S3 storage", "golibs/sss/s3/storage.go")], ["results vs. a model"])

P("P40", "Time constants of conditions denote the documented moments",
  "A time constant written in any of the supported absolute formats denotes the moment it was formatted from (to the precision of the format, in the given zone or UTC), a relative one ('-1.5h', '-24m', '-2d') the moment that long ago, 'minute', 'hour', 'day' and 'week' the moment one such period before now (or a later one within the current period); an integer is a number of nanoseconds since the epoch and any other text is rejected.",
  ["inputs"], "every moment and format", "tests check a fixed moment for a list of formats", ["pkg/ql/datetime.go", "golibs/datetime/date.go"], [("parseDateTime", "pkg/ql/datetime.go")], ["evaluation of ctime conditions"])

P("P41", "Contexts and channels helpers signal exactly when their sources do",
  "A context made of a channel, of signals or cancellable with an error is done exactly when its channel is closed, one of its signals comes, its cancel function is called or its parent is done, reports the error of the first of these events from then on, and leaves no go-routine behind once it is cancelled. "
  "Sleep returns when the time is over or the context is done, whichever is earlier, reporting which one it was, and writing to many channels writes the value to exactly one of them or reports the channel of which the done indicator is closed.",
  ["schedules", "inputs"], "every order of closing, cancelling and waiting", "tests check single scenarios", ["golibs/context/wrapper.go", "golibs/context/cnclderr.go", "golibs/context/context.go"], [("WrapChannel/WithCancelError/Sleep", "golibs/context/wrapper.go")], ["Done/Err of the contexts"])

P("P42", "Collection and string helpers compute what their names promise",
  "The slice, map and string helpers (copies, fills, reverses, index search and removal, overlap exclusion, difference, prefix and containment, hashes, trimming) compute what is documented for every input, duplicates, empty and nil arguments included, never modify or alias their arguments (but the in-place ones: removing, reversing, filling, swapping, removing of duplicates), and never read out of range.",
  ["inputs"], "every argument", "tests check a few fixed values", ["golibs/container/sliceutils.go", "golibs/container/maputils.go", "golibs/strutil/string.go", "golibs/strutil/hash.go"], [("helpers", "golibs/container/sliceutils.go")], ["results vs. naive reference implementations"])

P("P45", "Files are held only by what is opened",
  "At any moment the storage has open (and mapped) at most one file per opened chunk, of no more chunks than it is configured to keep open, plus what is being transferred or scanned. "
  "After an operation has completed, also when it has failed (a failed transfer, a damaged file or archive, no space), it holds no file of its own, and every object got from the remote storage is closed. "
  "Once the storage is closed nothing of its files stays open or mapped.",
  ["histories", "fault_sequences"], "every sequence of operations and failures of the chunks, the replication, the scanner and the file utilities",
  "a test process lives for a second and never runs out of descriptors; the garbage collector hides most of the lost files", ["golibs/files/mmfile.go", "golibs/files/files.go", "golibs/files/ziputil.go", "pkg/storage/chunkfs/chunk.go", RP, PR, "pkg/storage/chunkfs/scanner.go"],
  [("deferred and explicit closings", RP), ("MMFile.Close", "golibs/files/mmfile.go"), ("closing of evicted chunks", PR)], ["/proc/self/fd", "/proc/self/maps", "unclosed readers of the remote storage"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for o in OUT:
        f.write(json.dumps(o) + "\n")
print(len(OUT))
