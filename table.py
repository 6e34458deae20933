# The checks: property -> what is run for it. "quick"/"thorough" are the numbers of generated cases (rapid.checks)
def T(pkg, test, quick, thorough, **kw):
    return dict(pkg=pkg, test=test, quick=quick, thorough=thorough, **kw)


CHECKS = {
    "P19": dict(technique="property-based testing (rapid): interval operations against point-set membership",
                note="random search over pairs of intervals on a small dense grid, which is nearly exhausted; three bases",
                tests=[T("p19", "TestAlgebra", 20000, 2000000)]),
    "P16": dict(technique="property-based testing (rapid): generated conditions, differential between the SQL run by an SQL engine and a reference evaluator",
                note="the SQL is executed by SQLite wrapped to have the PostgreSQL operators and semantics used by the translator; the real PostgreSQL is not available",
                assumptions=["SQLite with the wrapped operators evaluates the produced SQL as PostgreSQL does"],
                tests=[T("ql", "TestSQL", 5000, 300000), T("ql", "TestSQLMissingTags", 3000, 150000), T("ql", "TestTranslateRejects", 5000, 300000)]),
    "P17": dict(technique="property-based testing (rapid): generated conditions against a reference evaluator",
                note="random search over condition trees and the logs/records built around their constants",
                tests=[T("ql", "TestLogConditions", 8000, 600000), T("ql", "TestRecordConditions", 8000, 600000)]),
    "P18": dict(technique="fuzzing of condition texts (rapid, grammar-based and mutated) with an independent reference parser as the oracle",
                note="random search over texts: generated from the grammar, token soups, mutations, big and deeply nested ones",
                tests=[T("ql", "TestAnyText", 40000, 3000000), T("ql", "TestBigText", 40, 1500)]),
    "P20": dict(technique="property-based testing (rapid): intervals built for generated conditions against the evaluation at probe points",
                note="random search over condition trees; membership is probed at all the constants, their neighbours and the limits",
                tests=[T("ql", "TestTimeIntervals", 8000, 600000), T("ql", "TestStringIntervals", 8000, 600000)]),
    "P38": dict(technique="property-based testing (rapid): IDs against 128 bit arithmetic; concurrent generators",
                note="random and boundary IDs; up to 8 concurrent generators",
                tests=[T("p38", "TestNeighbours", 30000, 2000000), T("p38", "TestGenerate", 3000, 200000)]),
    "P40": dict(technique="property-based testing (rapid): generated moments are formatted, parsed by a condition and compared",
                note="random search over moments, formats, zones and mutated texts",
                tests=[T("ql", "TestAbsolute", 30000, 2000000), T("ql", "TestRelative", 30000, 2000000)]),
    "P01": dict(technique="stateful property-based testing (rapid): histories of appends, reads and restarts against a model of the logs",
                note="random histories over up to 4 logs with generated chunk geometries and limits; sizes are biased to the chunk borders",
                tests=[T("locallog", "TestAppendRead", 1500, 100000)]),
    "P02": dict(technique="property-based testing (rapid): generated logs and page requests against a model of the log",
                note="random logs over several chunks; start IDs are biased to the records, their neighbours and the chunk borders",
                tests=[T("locallog", "TestPages", 1500, 100000)]),
    "P03": dict(technique="property-based testing (rapid): generated ctime conditions against a reference evaluator over a model of the log",
                note="random logs and condition trees; constants are biased to the record times, milliseconds around and sub-millisecond fractions",
                tests=[T("locallog", "TestConditions", 800, 60000)]),
    "P04": dict(technique="property-based testing (rapid): counts against a model of the log, also with chunk files missing",
                note="random logs, conditions and start IDs; faults: removed chunk files",
                tests=[T("locallog", "TestCounts", 1500, 80000)]),
    "P05": dict(technique="stateful property-based testing (rapid): batches around the remaining capacity against a capacity model",
                note="random geometries (whole blocks) and batches",
                tests=[T("locallog", "TestFill", 1000, 60000), T("chunk", "TestCapacity", 6000, 400000)]),
    "P06": dict(technique="stateful property-based testing (rapid): append/close/open/seek against a model; generated damages of the record table against a reference check",
                note="random histories and geometries; one damage at a time",
                tests=[T("chunk", "TestReopen", 6000, 400000), T("chunk", "TestDamaged", 6000, 400000)]),
    "P08": dict(technique="concurrent property-based testing (rapid): generated concurrent histories are checked for linearizability of appends and reads; race detector",
                note="schedules are sampled by running 3-10 goroutines with generated pauses and cancellations, also under the race detector",
                tests=[T("locallog", "TestConcurrent", 1500, 60000), T("locallog", "TestConcurrentCancel", 1500, 60000), T("locallog", "TestConcurrentCancel", 200, 5000, race=True)]),
    "P24": dict(technique="property-based testing (rapid): generated chains of wraps, embeddings and gRPC hops against the expected kind",
                note="random chains of up to 7 steps over all the kinds and foreign errors; the hop is the status code and the message, what the wire carries",
                tests=[T("base", "TestErrors", 40000, 2000000)]),
    "P27": dict(technique="stateful property-based testing (rapid): histories of changes and steps of several iterators against a model",
                note="random histories of up to 60 operations, 5 iterators",
                tests=[T("base", "TestMap", 60000, 4000000)]),
    "P28": dict(technique="stateful property-based testing (rapid): random trees of mixers over generated sources against the sorted union",
                note="random sources (up to 6), trees and sequences of operations, ties included",
                tests=[T("base", "TestMixer", 30000, 2000000), T("base", "TestMixerNoReset", 30000, 2000000)]),
    "P32": dict(technique="stateful property-based testing (rapid): histories of allocations, releases, writes and re-openings against a model",
                note="random geometries and histories",
                tests=[T("coll", "TestBlocks", 10000, 500000), T("coll", "TestBlocksGeometry", 20000, 500000)]),
    "P33": dict(technique="stateful property-based testing (rapid): histories of operations against a model queue",
                note="random capacities and histories",
                tests=[T("coll", "TestRing", 30000, 2000000)]),
    "P34": dict(technique="fuzzing (rapid): round trips of generated values, decoding of generated and mutated byte strings against a reference decoder",
                note="random and boundary values and malformed inputs",
                tests=[T("coll", "TestRoundTrip", 40000, 3000000), T("coll", "TestMalformed", 40000, 3000000)]),
    "P35": dict(technique="stateful property-based testing (rapid): histories of writes, growths and re-openings against a model of the file",
                note="random histories; the file is also compared by reading it directly",
                tests=[T("coll", "TestMMFile", 6000, 300000)]),
    "P41": dict(technique="stateful and concurrent property-based testing (rapid): trees of contexts with generated events against a model",
                note="random trees, events and timings; every wait is bounded by 20 s",
                tests=[T("base", "TestContexts", 3000, 100000), T("base", "TestCancelRace", 10000, 500000), T("base", "TestCancelRace", 1000, 30000, race=True),
                       T("base", "TestSleep", 3000, 60000), T("base", "TestSignals", 1500, 40000), T("base", "TestChans", 10000, 500000)]),
    "P42": dict(technique="property-based testing (rapid): generated arguments against naive reference implementations",
                note="random arguments over small alphabets, so that duplicates and overlaps are frequent",
                tests=[T("coll", "TestSlices", 30000, 2000000), T("coll", "TestMaps", 30000, 2000000), T("coll", "TestStrings", 30000, 2000000), T("coll", "TestHash", 20000, 1000000)]),
    "P12": dict(technique="stateful property-based testing (rapid) against a model of an LRU cache; concurrent generated histories checked against the callbacks' log",
                note="random histories over 1-9 keys and small capacities; schedules are sampled by generated pauses",
                tests=[T("lru", "TestSequential", 20000, 1000000), T("lru", "TestConcurrent", 1500, 60000), T("lru", "TestConcurrent", 200, 5000, race=True),
                       T("lru", "TestSingleFlight", 2000, 60000), T("lru", "TestExpiration", 800, 20000)]),
    "P25": dict(technique="stateful concurrent property-based testing (rapid): generated interleavings with gated creations, safety and progress checked after each step",
                note="random interleavings of get, release, creation results, cancellation and close; a progress must be made within 20 s",
                tests=[T("lru", "TestPool", 8000, 400000), T("lru", "TestPool", 800, 20000, race=True), T("lru", "TestPoolLRU", 20000, 1000000), T("lru", "TestPoolStress", 5000, 200000),
                       T("lru", "TestPoolStress", 500, 10000, race=True)]),
    "P13": dict(technique="stateful property-based testing (rapid): histories of catalogue operations and restarts against a model",
                note="random histories over up to ~30 logs (and up to 2050 logs for paging); conditions are a random subset of the grammar; there is no PostgreSQL server here: its storage runs over a database/sql driver to a stand-in, which executes the statements by SQLite with the semantics of PostgreSQL for what is used; failures of the stand-in at every statement and row",
                assumptions=["PostgreSQL compares texts byte by byte (the C collation) and otherwise behaves as the stand-in does", "tags in PostgreSQL have no NUL characters"],
                tests=[T("meta", "TestCatalogue", 4000, 300000), T("meta", "TestManyLogs", 60, 4000), T("meta", "TestCataloguePG", 2000, 60000), T("meta", "TestManyLogsPG", 30, 1000)]),
    "P14": dict(technique="stateful property-based testing (rapid): histories of upserts, deletions and restarts against a model",
                note="random histories; chunk IDs are ULIDs or short ASCII strings, also equal to the IDs of logs; the storage over PostgreSQL as in P13",
                assumptions=["PostgreSQL behaves as the stand-in does"],
                tests=[T("meta", "TestChunkCatalogue", 4000, 300000), T("meta", "TestChunkCataloguePG", 2000, 60000)]),
    "P15": dict(technique="stateful and concurrent property-based testing (rapid): reads through the cache against the storage, with injected faults and delays of the storage",
                note="random histories; schedules are sampled by generated pauses in the clients and in the storage, before and after a call takes effect; also under the race detector",
                tests=[T("meta", "TestCacheTransparent", 5000, 300000), T("meta", "TestCacheConcurrent", 1500, 60000), T("meta", "TestCacheConcurrent", 200, 5000, race=True)]),
    "P09": dict(technique="stateful property-based testing (rapid) with fault injection: histories of appends, uploads, downloads, deletions, losses and damages against a model of the local and the remote copies",
                note="random histories over up to 3 chunks; faults: uploads failing before, midway and after, downloads failing, cut, with flipped bits, no space for the archive, lost and damaged local files",
                tests=[T("repl", "TestReplication", 6000, 300000)]),
    "P07": dict(technique="property-based testing (rapid) with crash injection: a child process is killed at generated moments, the files are opened again and compared with what it had acknowledged",
                note="moments of the kill: random ones, around the acknowledgements, just before and just after an update of the catalogue; growing chunks are killed at the updates only (a kill during a growth is the known finding)",
                tests=[T("crash", "TestKill", 900, 30000)]),
    "P10": dict(technique="stateful property-based testing (rapid): generated folders and scans controlled through a stand-in storage against a model of the scanner; concurrent load with the scanner sweeping all the time",
                note="random folders, thresholds and histories; the scans are observed through the storage and the file system; 'modified' is the modification time of the file",
                tests=[T("repl", "TestScanner", 1600, 60000), T("repl", "TestLoad", 1500, 60000), T("repl", "TestLoad", 150, 4000, race=True)]),
    "P11": dict(technique="stateful property-based testing (rapid): interleavings controlled through a stand-in storage against a model of the accesses; concurrent histories with invariants, race detector",
                note="random interleavings at the granularity of the storage calls and of the exclusive accesses; finer schedules are sampled by the concurrent test",
                tests=[T("repl", "TestAccess", 4000, 200000), T("repl", "TestAccessStress", 1500, 60000), T("repl", "TestAccessStress", 200, 5000, race=True)]),
    "P21": dict(technique="property-based testing (rapid): merged queries over generated distributions of records against the sorted union; generated page sizes and failures of the storage",
                note="random distributions over up to 12 logs (real storage, via gRPC) and up to 1500 (a storage of short pages and failures made by its contract)",
                tests=[T("api", "TestMerged", 800, 40000), T("api", "TestMergedPages", 4000, 200000), T("api", "TestTooManyLogs", 30, 1500)]),
    "P22": dict(technique="stateful property-based testing (rapid): sequences of generated gRPC requests against a model of logs; fault injection; concurrent clients",
                note="random requests over gRPC to the real server and storage; every error kind of the storages; schedules are sampled",
                tests=[T("api", "TestRequests", 1200, 80000), T("api", "TestFailures", 6000, 300000), T("api", "TestConcurrentRequests", 1200, 50000), T("api", "TestConcurrentRequests", 150, 4000, race=True)]),
    "P23": dict(technique="property-based testing (rapid): generated REST requests, differential against the service calls",
                note="random sequences of HTTP requests to the real router, JSON fields are read by the OpenAPI specification",
                tests=[T("api", "TestRest", 1200, 80000), T("api", "TestRestFailures", 6000, 300000)]),
    "P29": dict(technique="stateful property-based testing (rapid) of all the storages against a model; concurrent generated histories checked for linearizability",
                note="random histories over a few keys with short expirations, several clients; redis is a stand-in server in the process (miniredis)",
                assumptions=["the redis stand-in behaves as a redis server does"],
                tests=[T("kvs", "TestModel", 4000, 200000), T("kvs", "TestWaiters", 2000, 50000), T("kvs", "TestLinearizable", 6000, 300000), T("kvs", "TestLinearizable", 2000, 50000, race=True)]),
    "P30": dict(technique="concurrent property-based testing (rapid) with fault injection: generated programs of several lockers, mutual exclusion and progress monitored; generated stories about leases in real time",
                note="schedules are sampled by generated pauses in the lockers and in the storage; leases are shortened; every wait is bounded",
                tests=[T("kvs", "TestLocker", 1000, 40000), T("kvs", "TestExclusion", 1000, 40000), T("kvs", "TestExclusion", 150, 5000, race=True), T("kvs", "TestLeases", 100, 3000)]),
    "P31": dict(technique="concurrent property-based testing (rapid): generated sets of scheduled calls and cancellations, each call monitored",
                note="real time: the delays are up to about a second, lateness is judged only when the process itself was not delayed",
                tests=[T("timeout", "TestCalls", 300, 10000), T("timeout", "TestCalls", 60, 1500, race=True), T("timeout", "TestQuiet", 2, 20)]),
    "P36": dict(technique="property-based testing (rapid): generated trees and archives, round-trips; fault injection (damaged archives, no space, unreadable files)",
                note="random trees of regular files and folders; the names have special characters and all the spellings of the same folder; everything is in a scratch folder",
                tests=[T("fsutil", "TestTrees", 2500, 150000), T("fsutil", "TestHash", 3000, 200000), T("fsutil", "TestArchives", 2500, 100000), T("fsutil", "TestDamaged", 3000, 150000),
                       T("fsutil", "TestNoSpace", 2500, 100000), T("fsutil", "TestWriter", 3000, 150000), T("fsutil", "TestEnsure", 2000, 100000)]),
    "P37": dict(technique="property-based testing (rapid): generated layers applied in generated orders against a model of the fields",
                note="random layers setting random subsets of the fields of a test structure and of the configuration of the server",
                tests=[T("conf", "TestLayers", 8000, 500000), T("conf", "TestServer", 6000, 400000), T("conf", "TestTransport", 5000, 300000)]),
    "P45": dict(technique="stateful property-based testing (rapid) with fault injection: the histories of the other properties, the files held by the process are compared with what is opened after each step",
                note="open descriptors and mappings of the files of the scratch folder (/proc/self/fd, /proc/self/maps) with the garbage collection off; failing transfers, damaged files and archives, no space, capacities of the cache of chunks",
                assumptions=["Linux: /proc/self/fd and /proc/self/maps"],
                tests=[T("repl", "TestReplicationFiles", 1500, 60000), T("repl", "TestScannerFiles", 300, 10000), T("locallog", "TestFiles", 800, 40000),
                       T("chunk", "TestCapacityFiles", 1500, 60000), T("chunk", "TestReopenFiles", 1500, 60000), T("chunk", "TestDamagedFiles", 1500, 60000),
                       T("fsutil", "TestTreesFiles", 1500, 60000), T("fsutil", "TestHashFiles", 1500, 60000), T("fsutil", "TestArchivesFiles", 1500, 60000),
                       T("fsutil", "TestDamagedFiles", 1500, 60000), T("fsutil", "TestNoSpaceFiles", 800, 30000), T("fsutil", "TestWriterFiles", 1500, 60000)]),
    "P43": dict(technique="property-based testing (rapid): generated connection parameters, the driver connects by them to a stand-in server",
                note="random parameters with special characters and empty ones; the requests of the driver (lib/pq) are observed by a stand-in server: the address, SSL, the user, the password, the database",
                assumptions=["a server of PostgreSQL takes the parameters from the protocol messages the driver sends"],
                tests=[T("conf", "TestDBConn", 8000, 400000)]),
    "P44": dict(technique="stateful property-based testing (rapid): generated configurations and histories of runs of the whole server (in the process and as the built binary) against a model; stops and kills at generated moments",
                note="random histories of requests by gRPC and REST over several runs on the same data, stops in the middle of requests and of the start, SIGTERM, SIGINT and SIGKILL of the binary; generated configurations which cannot be started with",
                assumptions=["a PostgreSQL server executes the statements as the stand-in does (SQLite behind the wire protocol)", "the remote storage of the default configuration is in the memory"],
                tests=[T("srv", "TestServer", 300, 10000), T("srv", "TestBinary", 150, 4000), T("srv", "TestBadStart", 150, 3000), T("srv", "TestServer", 60, 1000, race=True)]),
    "P39": dict(technique="stateful property-based testing (rapid) of the in-memory and S3 storages against a model; fault injection at the S3 server; concurrent histories",
                note="random histories over keys with special characters, shared prefixes and sub-folders; listings of more objects than a page of the server has; S3 is a stand-in server in the process",
                assumptions=["the S3 stand-in behaves as an S3 server does", "keys are of printable characters"],
                tests=[T("sss", "TestModel", 1500, 60000), T("sss", "TestMany", 200, 6000), T("sss", "TestConcurrent", 800, 30000), T("sss", "TestConcurrent", 100, 3000, race=True), T("sss", "TestFaults", 1500, 60000)]),
}
