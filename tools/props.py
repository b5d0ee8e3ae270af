TB = ("Decided on the compiler's own MIR with resolved callees, for every path of the analysed functions; "
      "trusts the rustc front end, the fact dumper and the listed models of std/crate functions. ")
P = []


def prop(id, title, statement, over, quant, why, mech, technique=None, note=None, na=None):
    d = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, mech=mech)
    if na:
        d["na"] = na
    else:
        d["technique"] = technique
        d["note"] = TB + (note or "")
    P.append(d)


LB = "common/limiter_bucket/src/"
ME = "common/metrics/src/"
CA = "common/cache/src/"
prop("C01", "A sharded cache behaves as one map",
     "Every operation on a sharded cache that names a key works on the same shard, whichever operation it is, so a stored value is found, replaced and removed again under its key. Capacity, usage and clearing cover all shards, and popping takes an entry whenever any shard has one.",
     "inputs histories schedules", "all keys, shard counts, capacities and operation histories, from any number of threads",
     "The tests store a handful of keys in a few shards; keys that fall into other shards, uneven capacities and empty shards next to full ones are not reached.",
     [("routing", CA + "lib.rs: shard"), ("synchronous cache", CA + "sharded_sync_cache.rs"), ("asynchronous cache", CA + "sharded_async_cache.rs"), ("underlying map", CA + "lru_cache.rs"), ("wrappers", CA + "sync_cache.rs, async_cache.rs")],
     "symbolic shard-index terms and path conditions per operation on MIR",
     "The lru crate's map is trusted to do what its operations are named for.")
prop("C02", "The bounded ring cache evicts oldest first and never loses step with its map",
     "The ring cache holds at most its capacity of keys, evicts the oldest key when a new one arrives in a full ring, and its look-up map holds exactly the keys in the ring. Deleting before or after a key removes exactly the keys on that side.",
     "inputs histories", "all capacities of at least one and all operation histories",
     "The tests walk one short fixed history per operation; wrap-around together with deletions from both ends is not explored.",
     [("ring", CA + "circular_kvcache.rs: CircularBuffer"), ("map", CA + "circular_kvcache.rs: CircularKVCache")],
     "state-transition analysis: symbolic write terms with path conditions on MIR",
     "Each operation's transition is compared with the ring's abstract transition; the invariant follows by induction over operations. Keys are assumed to be put in increasing order where deletion by comparison is concerned, as the callers do.")
prop("C03", "Rate limiting never grants more than was available",
     "A token bucket never hands out more tokens than its starting balance plus one refill per whole interval elapsed, never holds more than its maximum, and a refused request takes nothing. This holds for any interleaving of concurrent callers.",
     "schedules inputs histories", "all interleavings of callers, all amounts, all bucket settings and all clock values",
     "The tests call one bucket from one thread with a few amounts and real sleeps; neither concurrent callers nor idle-then-burst histories nor extreme settings are reached.",
     [("refill and deduct under the bucket's lock", LB + "rate_bucket.rs: update_critical/acquire/acquire_closed"),
      ("refill arithmetic", LB + "rate_bucket.rs: calculate_drain"), ("construction", LB + "rate_bucket.rs: RateBucketBuilder::build")],
     "critical-section and path-condition analysis on MIR with polynomial normal forms of balance updates",
     "Conservation is shown as an identity between returned amount and balance change per path pair; real time is taken as the value the clock call returned.")
prop("C05", "Metric recorders lose nothing and count in the right unit",
     "Every value recorded through a counter, gauge, average or histogram handle is reflected exactly once in what is reported for it, whatever other threads record or read at the same time. Durations are kept in nanoseconds and histogram observations land in the first bucket whose bound they do not exceed.",
     "schedules inputs", "all interleavings of recording and reporting threads and all recorded values",
     "The tests use a few values and three threads that are joined before reading; lost updates between a concurrent read-and-reset and a record are never scheduled.",
     [("atomic counters", ME + "count.rs"), ("gauges", ME + "gauge.rs"), ("durations", ME + "duration.rs"), ("histograms", ME + "histogram.rs"), ("averages", ME + "average.rs")],
     "atomic read-modify-write discipline and symbolic effect terms on MIR",
     "Shows the absence of load/store pairs on recorder atomics, single critical sections, and the exact effect term of each operation.")
prop("C06", "One metric per name and labels, and every one is reported",
     "Asking the registry twice for the same name and labels gives handles on the same recorded state, also when the requests race. Every registered metric, sub-registry and recorder is visited by every report, with the registry's labels and its own.",
     "schedules histories", "all interleavings of registration, removal and reporting, all names and labels",
     "The tests register sequentially; two threads that register the same recorder at once are never scheduled.",
     [("get-or-create", ME + "metric_register.rs: sub_register/metric/register_metric"), ("recorders", ME + "metric.rs: recorder"), ("reporting", ME + "metric_register.rs: report")],
     "critical-section and get-or-create typestate analysis on MIR", "Shows that look-up and creation are one critical section and that the stored object is the returned one.")
prop("C07", "The Prometheus exposition agrees with the recorded values",
     "For every metric kind, the scraped text carries the family name, type, labels and value that were recorded: durations in seconds, cumulative bucket counts over the bounds in order, sample count and sum. No non-null value is left out.",
     "inputs", "all metric kinds, values, labels and bucket lists",
     "One test renders a handful of metrics; other kinds, bucket shapes and values are not rendered.",
     [("family naming", ME + "prom_reporter.rs: start"), ("value conversion", ME + "prom_reporter.rs: report"), ("flush", ME + "prom_reporter.rs: stop")],
     "case analysis by enum discriminant with symbolic argument terms on MIR", "Shows the term stored in each exposition slot per kind.")
prop("C08", "The configuration check reports every invalid section value",
     "Checking a configuration reports a finding, with its severity, for exactly the values that are outside the documented range of each validated setting, in every section, nested ones included. A configuration without such values produces no finding.",
     "configurations inputs", "all values of all validated settings in all sections",
     "The test prints findings for one hand-made value; the value sets per setting are never explored and one section reported only when it had no findings.",
     [("section checks", "config/src/tskv/mod.rs: Config/check_config"), ("storage", "config/src/tskv/storage_config.rs: StorageConfig::check"), ("merge", "config/src/check.rs: CheckConfigResult")],
     "value-set (interval / finite set) analysis of dominating branch conditions on MIR", "The value set per finding is computed and compared with the documented one.")
prop("C09", "A setting means the same left out, written, by environment, or read back",
     "A setting that is absent from the configuration file has the value it would have with no file at all; a written configuration, read again, is the same configuration. Every setting of the data and meta services can be given by an environment variable of its own, and the variable wins over the file. A size or a duration is written so that reading it gives the same number.",
     "inputs", "all settings of both services, all subsets left out, all sizes and durations",
     "The tests read two sample files and format a few sizes; no test leaves out each field, sets each variable, or round-trips arbitrary sizes.",
     [("settings", "config/src/tskv/*.rs, config/src/meta/*.rs, config/src/common/*.rs: Default, Deserialize, Serialize"),
      ("variables", "config/src/tskv/mod.rs, config/src/meta/mod.rs: new, env_keys; common/derive_macros/src/keys; common/derive_traits/src/keys.rs"),
      ("sizes", "config/src/codec, common/utils/src/byte_nums.rs: format_bytes, parse_bytes")],
     "comparison of the derived Deserialize's default terms with Default on MIR, key-table extraction, codec pairing by path conditions",
     "figment, toml, humantime and byte_unit are taken to do what they document.")
prop("C11", "An HTTP body survives its encoding",
     "For every supported content encoding, decoding what was encoded gives back the original bytes in full, whatever was encoded or decoded before on the same thread. The header name of an encoding is the one the protocol defines and parses back to the same encoding; codec errors are returned.",
     "inputs histories", "all bodies, encodings and sequences of calls on a thread",
     "The tests round-trip one short body per encoding; reuse after an error, long bodies and error paths are not reached.",
     [("codecs", "common/http_protocol/src/encoding.rs: encode/decode"), ("names", "common/http_protocol/src/encoding.rs: FromStr/to_header_value")],
     "per-variant path conditions, codec pairing and result-use analysis on MIR", "The codec crates are trusted to invert each other when paired and given the same input.")
prop("C14", "A Bloom filter never denies what was inserted",
     "A value that was inserted into a Bloom filter is always reported as possibly contained, before and after the filter's bytes are stored and restored, for every filter size.",
     "inputs histories", "all values, filter sizes and insertion histories",
     "The test inserts a few values into filters of ordinary size; small filters and restored filters are not covered.",
     [("set and test", "common/utils/src/bloom_filter.rs: insert/maybe_contains"), ("construction", "common/utils/src/bloom_filter.rs: new/with_data")],
     "symbolic equality of the bit positions set and tested, effect terms on MIR", "Values are those whose byte representation is equal; hashers are deterministic functions of what is written to them.")
prop("C15", "Time precisions and durations convert exactly, saturate or refuse",
     "Converting a timestamp between millisecond, microsecond and nanosecond precision uses the exact ratio and refuses overflow. A duration is returned in the unit asked for, capped instead of wrapped, and the infinite duration is the largest value in every unit; unknown precision or duration text is refused.",
     "inputs", "all timestamps, pairs of precisions, durations and texts",
     "The tests convert a few in-range values; values next to the overflow limits and unusual unit pairs are not sampled.",
     [("precision", "common/utils/src/precision.rs: timestamp_convert, Precision"), ("duration", "common/utils/src/duration.rs: CnosDuration")],
     "case analysis by discriminant with symbolic arithmetic terms on MIR", "std's checked arithmetic, Duration conversions and humantime parsing are trusted.")
prop("C20", "Record files give back exactly what was appended, and detect damage",
     "A record file is read back as exactly the records that were appended to it, in order, with their type, version and data, whatever their sizes. A record whose stored checksum does not match is never returned as data, a record cut short at the end of the file reads as the end of the file, and an I/O error is returned instead of a short or altered record.",
     "inputs histories faults", "all sequences of non-empty records, all buffer boundaries, all truncation points and damaged bytes, all I/O errors",
     "The tests write and read a few small records from a healthy file; records across read-window borders, torn tails, damaged headers and failing writes are not reached.",
     [("record layout", "tskv/src/record_file/writer.rs: Writer::write_record"), ("record parsing", "tskv/src/record_file/reader.rs: Reader::read_record"),
      ("file access", "tskv/src/file_system/file/: RawFile, AsyncFile, FileStreamWriter")],
     "symbolic layout terms of written and parsed bytes with path conditions on MIR, result-use analysis",
     "The writer's byte layout and the reader's offsets are compared term by term. The kernel's read and write calls are trusted to transfer the bytes they report; CRC-32 collisions are out of scope.")
WA = "tskv/src/wal/"
prop("C21", "An acknowledged raft entry is in the write-ahead log and is found there",
     "When appending raft entries reports success, every one of them has been written to the current log file in order (and synced when so configured) and is found again, byte for byte, under its index, through the cache or the files. Reading a range gives every entry of it in order, and the last entry is the one with the highest index kept.",
     "inputs histories faults", "all sequences of appends, file rolls and reads, all codecs and configurations, all I/O errors",
     "The tests append a few entries without errors and read them back at once; failing writes and syncs, empty caches and ranges across files are not reached.",
     [("append", WA + "wal_store.rs: RaftEntryStorage::append"), ("record layout", WA + "writer.rs: append_raft_entry"),
      ("reading", WA + "reader.rs: WalRecordData::new, decode_wal_raft_entry"), ("rolling", WA + "mod.rs: VnodeWal::roll_wal_file"),
      ("ranges", WA + "wal_store.rs: entries, entry, last_entry")],
     "per-iteration must-happen and ordering analysis, symbolic layout terms and result-use on MIR",
     "The record files below are C20's; the cache is C02's. Codecs and serde are trusted to invert each other when paired.")
prop("C22", "Restart re-applies from the log what was applied but not flushed",
     "When a vnode is opened, every log entry that was applied before but is above the flushed sequence is applied to the engine again exactly once, in log order, with its own index. Every entry that is kept is found again under its index, and the log is cut only at a damaged tail or above what was applied.",
     "crash histories", "all log contents, crash points, flushed sequences and applied indexes",
     "The tests recover one small healthy log; torn tails, logs partly flushed and logs with unapplied entries are not sampled.",
     [("opening", "coordinator/src/raft/manager.rs: open_vnode_raft"), ("walking the files", WA + "wal_store.rs: RaftEntryStorage::recover"),
      ("one record", WA + "wal_store.rs: RaftEntryStorageInner::recover_record")],
     "path-condition analysis per recovered record, loop-exit and ordering analysis on MIR",
     "Entries acknowledged but not yet applied are cut off on restart: recorded as a known finding. The state store's applied index is taken as written.")
prop("C23", "Cutting the raft log removes exactly the entries asked for",
     "Purging the log up to an index makes exactly the entries below it unreachable, and cutting it from an index exactly those at and above it, in the index, the cache and the files; every other entry stays findable. After a cut, appending continues behind the last entry that is left, and an error on the way is returned.",
     "inputs histories faults", "all log contents spread over all numbers of files, all indexes, all I/O errors",
     "The tests cut one small log twice; cuts across files, at file borders, and readers that hold stale buffers are not reached.",
     [("index per file", WA + "wal_store.rs: WalFileMeta::del_before/del_after"), ("walks", WA + "wal_store.rs: mark_delete_before/mark_delete_after"),
      ("files", WA + "mod.rs: truncate_wal_file, rollback_wal_writer"), ("writer", WA + "writer.rs: truncate")],
     "order relations of branch conditions, loop-exit and effect-term analysis on MIR",
     "Files' ranges are taken to be ordered and non-overlapping (C21 appends in order). A failing removal of a deleted file is only logged.")
prop("C04", "Configured request limits are enforced and survive storage",
     "Each kind of request of a tenant is limited by the bucket configured for that kind, with the configured numbers; a bucket that is stored and read back is the same bucket. A request under a limit is admitted only when the tokens it needs are there and are deducted, once, and the tokens the meta service grants are taken from its stored bucket. A tenant's limiter follows changes and removal of the tenant.",
     "inputs histories", "all configurations, request sizes, balances and orders of requests",
     "The tests take tokens from one bucket; the mapping of the eight kinds, the overdraft cases, binary formats and the dropped tenant are not sampled.",
     [("stored bucket", "common/limiter_bucket/src/rate_bucket.rs: Serialize/Deserialize"), ("local limiter", "meta/src/limiter/local_request_limiter.rs: require, remote_requre, check_bucket"),
      ("meta side", "meta/src/store/storage.rs: process_limiter_request"), ("following the tenant", "meta/src/limiter/limiter_manager.rs: process_watch_log")],
     "order relations of path conditions, symbolic terms of keys and amounts, must-happen events on MIR",
     "The refill arithmetic of one bucket is C03's. Whether the grant meta gives is large enough is not decided.")
prop("C12", "Errors reach the client with their own code, as valid JSON",
     "Every kind of error has a code of its own, six digits beginning with its module's number, and an error that wraps another answers with the inner code. The answer sent to a client is valid JSON carrying exactly that code and message, whatever the message contains. Errors and results sent between nodes come back as the same case with the same data.",
     "inputs", "all error kinds, all messages, all answers between nodes",
     "The tests check a few derived codes; messages with quotes or control characters, forwarding answers and wrapped errors are not sampled.",
     [("codes", "tskv/src/error.rs, meta/src/error.rs, coordinator/src/errors.rs, replication/src/errors.rs: ErrorCode::code, error_code"), ("answer", "common/http_protocol/src/response.rs: ErrorResponse"),
      ("between nodes", "coordinator/src/errors.rs: encode_grpc_response/decode_grpc_response; tskv/src/error.rs: From<Status>")],
     "constant tables per enum discriminant, format-template and escape-class analysis, symbolic codec pairing on MIR",
     "The spi and main crates do not build here: only their module numbers are compared, from the syntax (the derive macro refuses duplicate codes in one enum).")
prop("C24", "The raft storage gives consensus back exactly what it stored",
     "The vote, applied and purged ids, memberships and snapshots of a replica group are read back as they were last stored, separately for every group and kind, and removing a group removes them all. The log given to consensus is the one appended: an append replaces everything from its first index, a purge or conflict removes exactly its side, and the log ends at the last entry or, without one, at the purged id. Entries are applied all, in order, with one answer each, and a snapshot is described by the id and membership at its own index and claimed only once it is restored; errors are returned.",
     "histories", "all sequences of storage calls by consensus, all groups, crash points between the writes",
     "The openraft suite runs one group on one store without crashes, and is not among the tests that run here.",
     [("adapter", "replication/src/node_store.rs: NodeStorage, RaftStorage for Arc<NodeStorage>"), ("state", "replication/src/state_store.rs: Key, StateStorage"), ("log", "replication/src/entry_store.rs: HeedEntryStorage")],
     "symbolic terms and path conditions of the storage callbacks, key-template unification, event-order analysis on MIR",
     "LMDB transactions are taken to be atomic; the environment is opened without sync, so loss of power is not covered.")
prop("C33", "A metadata command changes exactly what it names, and says so",
     "Each metadata command stores or deletes exactly the entities it names, of the cluster and tenant it names, with the given values and only under its stated preconditions; it answers success only when everything was stored, and each query reads exactly the entities it asks for. Every change raises the metadata version by one in the same transaction and is announced to watchers with that version, key and value; ids handed out for buckets, replica sets and vnodes are never handed out twice. A snapshot holds every stored pair, and restoring one replaces everything and makes older watchers do a full sync.",
     "inputs histories faults", "all commands, contents of the store and names, all storage failures",
     "The tests store and read a few entries; commands on entities of other tenants and clusters, failing stores and restored snapshots are not sampled.",
     [("keys", "meta/src/store/key_path.rs: KeyPath"), ("commands", "meta/src/store/storage.rs: StateMachine::process_write_command, process_read_command"),
      ("store", "meta/src/store/storage.rs: insert, remove, fetch_and_add_incr_id, backup, restore"), ("ids", "common/models/src/meta_data.rs: allocation_replication_set")],
     "effect tables per command: symbolic key and value terms with path conditions, key-template unification, failure propagation on MIR",
     "Names that contain '/' are not excluded by the key layout and are out of scope. Which healthy nodes are chosen for a bucket is not decided (see C35).")
prop("C34", "A node that watches the metadata misses no change",
     "A watcher that asks from a version is given every later change to its cluster's own entities and to the tenants it watches (their own entries included), in order, or is told to sync fully when the change log no longer reaches back that far; the version it goes on from is never beyond a change it was not given. A node applies each change to the cached entity its key names, once per tenant and version, after a full sync holds what the store answered, and when it begins to use a tenant goes back to the version that tenant's data was read at.",
     "inputs histories schedules", "all change logs, capacities, watched tenants, versions asked for and interleavings of watch task and tenant use",
     "The tests append and read a few entries; wrapped logs, tenants used while changes arrive and watchers that fell behind are not sampled.",
     [("log", "meta/src/store/command.rs: CircleBuf, Watch"), ("server", "meta/src/store/storage.rs: read_change_logs; meta/src/service/{http,single}.rs: process_watch"),
      ("node", "meta/src/model/meta_admin.rs: watch_data_task, watch_task_manager, process_watch_data; meta/src/model/meta_tenant.rs: process_watch_log")],
     "ring-index case analysis, filter condition as DNF, effect tables specialised to each key template, loop-exit and event-order analysis on MIR",
     "Delivery is polled; how soon a change arrives is not decided. Caches of tenants that sessions already hold during a full sync are out of scope.")
prop("C28", "The summary log and the versions built from it agree across crashes",
     "An edit of a vnode's files is on disk before anything acts on it, and after a restart the vnode has exactly the files, sequence number, largest time and next file id that the recorded edits describe. A new version holds every file of the old one that the edit does not delete and every file it adds, each at its own level; only deleted files are removed from disk, and caches are dropped only when their flush is recorded. Rewriting the summary never loses an edit.",
     "histories crashes", "all sequences of edits, crash points and failures while recording or rewriting",
     "The tests recover a summary with a few edits; failing rewrites, order of recording and marking, and levels of deleted files are not sampled (and the tskv tests do not run here).",
     [("summary", "tskv/src/tsfamily/summary.rs: Summary::recover, apply_version_edit, rewrite_summary_file"), ("version", "tskv/src/tsfamily/version.rs: Version::copy_apply_version_edits, VersionEdit, CompactMeta"),
      ("vnode", "tskv/src/tsfamily/tseries_family.rs: new_version, switch_to_immutable, build_version_edit"), ("files", "tskv/src/tsfamily/{level_info,column_file}.rs")],
     "composed list effects per edit kind, folds over all edits, path conditions of durability and marking, symbolic conversions on MIR",
     "The record file itself is C20's. That file ids are not reused while a deleted file is still open is not decided.")
prop("C26", "A flush never forgets rows: they are in a file before anything says so",
     "Every series of a flushed cache is written, with its key, all its pages and its time range, into a finished file that the recorded edit names with the cache's own sequence number; a failed flush records nothing and leaves the cache to be flushed again. Edits are recorded lowest sequence first, never past a cache that is not flushed or whose edit could not be recorded, and failures reach whoever waits. Concurrent flushes do not deadlock or flush one cache twice.",
     "schedules faults histories", "all contents of caches, interleavings of flushes and points of failure",
     "The tests flush one small cache alone; failing flushes, concurrent flushes and edits that cannot be recorded are not sampled (and the tskv tests do not run here).",
     [("one cache", "tskv/src/compaction/flush.rs: FlushTask::run, flush_memtable"), ("queue", "tskv/src/compaction/job.rs: FlushJob::run, flush_memtables, process_summary_tasks"),
      ("cache", "tskv/src/mem_cache/memcache.rs: MemCache, MemCacheSeriesScanIterator")],
     "path conditions per written series and edit, guard-lifetime and lock-order analysis, loop-exit and failure propagation on MIR",
     "Recording an edit is C28's. The order among rows of one timestamp inside a cache depends on the skiplist crate, whose source is not here, and is not decided.")
prop("C29", "A delete reaches every place that may hold the rows",
     "Deleting rows, dropping a column or a table and changing tags reach, for exactly the series, columns and time ranges named, the mutable cache and every immutable cache of the vnode, then every file of the version taken after that which may hold one of the series, as tombstones that are on disk before the command is answered. A cache drops a row exactly when its time is in the range, and keeps the others as they were; a dropped table's series leave the index. OK is answered only when every step succeeded.",
     "inputs histories", "all commands, series sets, column sets, time ranges, and contents of caches and levels",
     "The tests delete from one small cache or file; several immutable caches, several schema groups, bloom-filter misses and failing steps are not sampled (and the tskv tests do not run here).",
     [("vnode", "tskv/src/vnode_store.rs: VnodeStorage::{apply,drop_table,drop_table_columns,delete,update_tags_value}"), ("caches", "tskv/src/tsfamily/tseries_family.rs; tskv/src/mem_cache/{memcache,series_data}.rs"),
      ("files", "tskv/src/tsfamily/super_version.rs: column_files_by_sid_and_time, add_tombstone; tskv/src/tsm/tombstone.rs: add_range")],
     "path conditions per reached cache, file and row, operand flow, loop-exit, order and failure-propagation analysis on MIR",
     "A flush or compaction that runs at the same time is out of scope (the code says so itself: 'Stop compaction when doing delete TODO'), as is reading tombstones back from disk.")
prop("C30", "A series is found again: one id per key, by its key, its id and each of its tags",
     "A series that the index holds keeps its id, also after a restart, a rebuild or an update of its tags, and only a key held nowhere gets a new one, above every id given before; a series is found by its key, by its id, and by its table, each of its tags and ranges of a tag's values, whether it is still in memory or already stored, and by nothing else (in particular not by a table whose name its own continues with a dot). Deleting a series removes it everywhere, or fails. A flush stores everything in memory, with the id counter, before memory forgets it, and fails if a step of it fails.",
     "inputs histories faults", "all keys, tags and values (unbounded strings), all contents of the index's two caches and store, all failing steps",
     "The tests of tskv do not run here; they look up a handful of series in one state of the index. Half-flushed states, hash collisions, failing stores, table names with dots and open or excluded range ends are not sampled.",
     [("index", "tskv/src/index/ts_index.rs: TSIndex, encode_*_key, filter_range_to_*"), ("memory", "tskv/src/index/cache.rs: IndexCache, ForwardCache, IndexMemCache"), ("store", "tskv/src/index/engine2.rs: IndexEngine2")],
     "effects and returns of each index operation, with their path conditions, compared with a table by truth-table equality; order, loop-exit and failure propagation on MIR",
     "LMDB (heed) and roaring bitmaps are trusted; that index operations of one vnode do not run at the same time is the callers' lock (C26 covers lock order).")
HP = "common/http_protocol/src/"
TR = "common/trace/src/"
prop("C10", "The HTTP client reaches its server with exactly the trust it was told",
     "A client connects to the scheme, host and port it was given, over TLS exactly when one of the ssl options asks for it, and accepts an invalid certificate only when unsafe ssl was asked for. Every certificate file is loaded or the client is refused; a proxy and its credentials are used exactly when given. Each request method is sent as itself to the server's address joined with the path by one '/'.",
     "inputs", "all combinations of the options, any number of certificate files, all paths",
     "The tests send a few requests to a plain local server; certificates, unsafe ssl and proxies with credentials are not reached, and a wrongly trusted certificate shows in no test.",
     [("settings", HP + "http_client.rs: with_proxy_settings"), ("requests", HP + "http_client.rs: url/get/post/head/put/patch/delete")],
     "truth tables of the conditions of every builder call, and move analysis of the builder, on MIR",
     "reqwest's builder options are trusted to do what they are named for.")
prop("C13", "A trace context crosses processes unchanged and never refuses a request",
     "The text a trace context is sent as reads back as the same trace id and span id, under the same header, and anything else is an error. A request with a context in its header is handled under that context, one without gets a random one exactly when spans are generated, and every request, even one with a bad header, is passed on and its answer returned. A reader on another node is sent the context of the query it works for.",
     "inputs", "all contexts, all header texts, both settings, all remote reads",
     "The tests run one context through one call; extreme ids, malformed headers together with the setting, and remote readers need a cluster.",
     [("text form", TR + "span_ctx_ext.rs"), ("headers", TR + "http/http_ctx.rs"), ("service", TR + "http/tower_layer.rs"), ("spans", TR + "span_ext.rs"), ("remote reads", "coordinator/src/reader")],
     "writer/reader agreement of formatted terms and radixes, and truth tables over the header's state, on MIR",
     "minitrace, http and tonic's maps are trusted; the server's own registration of the layer (main) does not compile offline.")
prop("C17", "Logs and traces are written as configured, and none is lost on the way",
     "The log line of any crate of the workspace reaches standard error and the log file exactly when its level is at or above the configured one (warnings and errors when the setting is no level); the file has the configured path, the given prefix, the configured rotation and number of old files, and its writer lives as long as the process. Tokio's own events and the console appear exactly when configured. Spans go to the configured file or collector under the configured limits, every span of a report, and what is left is written at the end.",
     "inputs", "all settings, all crates and levels, all reports",
     "The only test logs one line with one setting and looks at nothing; a crate left out of the filter, a rotation mapped to another, or a dropped writer guard fails no test.",
     [("logs", TR + "global_logging.rs"), ("spans", TR + "global_tracing.rs")],
     "target table against the workspace's manifests, truth tables over the settings, and construction terms of the installed subscriber and reporters, on MIR",
     "tracing-subscriber, tracing-appender and minitrace do what their builders say; when both a file and a collector are set, minitrace keeps the collector (set last), which the property does not forbid.")
prop("C16", "Rows of one series always go to the same replication set, each exactly once",
     "However a row is written (line protocol, OpenTSDB, JSON logs, SQL insert), rows with the same table and the same tags, in the same time bucket, are sent to the same replication set, whatever the order of the tags. Every row of a write is sent to exactly one set, the one of the bucket that holds its timestamp in the database's precision, and the write succeeds only when every set has accepted its rows.",
     "inputs",
     "all rows and all series (unbounded strings), all parser states, all buckets",
     "Unit tests hash a few fixed lines; that five writers agree for every series, and that no path skips the hash, is not sampled.",
     [("hash", "common/utils/src/bkdr_hash.rs"), ("lines", "common/protocol_parser/src/lib.rs"), ("parsers", "common/protocol_parser/src"), ("writes", "coordinator/src/service.rs"), ("buckets", "common/models/src/meta_data.rs"), ("lookup", "meta/src/model/meta_tenant.rs")],
     "event order on the hasher (table, key, value per tag behind a sort), must-pass-hash reachability and exactly-once grouping over MIR",
     "main's HTTP handlers and the stream engine (query) do not compile offline; what raft does with a sent write is C24's.")

# ---- properties this family cannot settle here
prop("C40", "What is compressed decodes to itself",
     "Every column codec (integer, unsigned, float, boolean, timestamp, string) decodes what it encoded to the same values, for all blocks and all encodings the table allows.",
     "inputs", "all blocks of values", "The tests encode a few blocks per codec.", [("codecs", "tskv/src/tsm/codec/{float,integer,simple8b,string,timestamp,boolean,unsigned}.rs")],
     na="Round trip of bit-packing loops (gorilla, simple8b, delta) is arithmetic over every bit of the block; a sound static argument would need loop invariants over bit vectors, which is proof or symbolic execution, not dataflow; half the encodings live in third-party crates (pco, snappy, zstd) whose source is not here.")
prop("C41", "Compaction and reading return each row once, with its newest values",
     "A query or compaction over overlapping files and caches yields each series' rows once, in time order, with the values written last, minus the deleted ranges.",
     "inputs histories", "all sets of overlapping files, caches and tombstones", "The tests merge a few small blocks.", [("merge", "tskv/src/compaction/compact.rs; tskv/src/reader/{sort_merge,merge}.rs; tskv/src/mem_cache/series_data.rs")],
     na="The order among equal timestamps depends on runtime contents of heaps, on the skiplist crate (no source here) and on DataFusion's Arrow kernels (a signature-only stub here); which row wins is a value question that the term language cannot bound.")
prop("C42", "A query returns what SQL says",
     "A statement's result is the one its SQL text denotes over the rows written, whichever filters and aggregates are pushed down to storage.",
     "inputs", "all statements and data", "The tests run sampled statements.", [("planner", "query_server/query/src")],
     na="The query crates do not compile offline (DataFusion and several dozen dependencies are absent), so there is no type-checked program to analyse; semantic equality of plans is also no dataflow property.")
prop("C43", "A statement runs only with the privilege it needs",
     "No statement reads or changes a tenant's, database's or user's data unless the session's role holds the privilege for it.",
     "inputs", "all statements, roles and sessions", "The tests check a few grants.", [("check", "query_server/query/src/auth; query_server/spi/src/service")],
     na="The checks sit in query_server/{query,spi}, which do not compile offline: callees and types cannot be resolved, and a syntactic match of the privilege table would judge how it is written, not what it does.")
prop("C44", "Replicated writes are linearizable",
     "A write acknowledged by the leader of a replication set is in every later leader's log and is applied once, in order, on every replica.",
     "schedules faults", "all schedules, partitions and crashes", "The tests run one node.", [("raft", "replication/src; openraft")],
     na="The protocol is openraft's, whose source is not in the sandbox (only a signature stub); what cnosdb owes it, its storage contract, is C21 to C24. The global claim quantifies over network schedules.")
prop("C45", "Memory and queues stay within their limits",
     "The memory pool, write buffers and caches never hold more than configured, and waiting writers make progress.",
     "schedules inputs", "all workloads and schedules", "The tests reserve a few bytes.", [("pool", "common/memory_pool/src; tskv/src/mem_cache")],
     na="The bound is a sum over runtime sizes of many owners released in destructors; no static bound on that sum is in reach, and progress depends on the scheduler.")
