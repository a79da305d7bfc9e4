#!/usr/bin/env python3
# Source of properties.jsonl (kept as data here so that the lines stay well-formed).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state, obs, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=s) for s in state], observe_at=obs, hook_needed=hook)))

M="monotone/"
p("C01","Writes and deletes form an exact ordered map of events",
  "After any sequence of successful batch writes (inserts, replacements and deletes with any 64-bit id, any key of 0..255 bytes and any value), a full scan returns exactly the live events, each with its latest key and value bytes, each once, in ascending unsigned id order and then key order. Deleting an event that does not exist, and events that share an id but differ in key, behave like the corresponding operations on an ordered map. This holds whatever the number of events per partition, the write order, and the distance between ids.",
  ["programs","inputs"],"all sequences (bounded length) of batches over small alphabets of ids (including 0, 2^31, 2^32, 2^63 and 2^64-1 neighbourhoods), keys, values and flags, all permutations of insertion order, and fill patterns around every internal page boundary",
  "Tests write ascending runs or rand() keys and check a handful of layouts; order, split and wrap-around errors only appear for particular insertion orders, distances or duplicates.",
  [M+"engine/io/memtable.c",M+"engine/io/event.h",M+"engine/io/comparator.h",M+"engine/engine/write.c",M+"engine/engine/engine_cursor.h",M+"engine/io/merge_iterator.h"],
  [("memtable_set / page split",M+"engine/io/memtable.c"),("comparator",M+"engine/io/comparator.h"),("engine_write",M+"engine/engine/write.c"),("engine_cursor",M+"engine/engine/engine_cursor.h")],
  ["in-memory table pages","partition mapping"],["monotone_write return code","cursor read/next sequence"])

p("C02","A cursor opened at a key starts at the first event not less than it",
  "A cursor opened at a given id and key is positioned on the first live event that is greater than or equal to it, and advancing it returns every later live event in order and nothing else, whether or not the sought event exists. This holds for data in memory, on local storage, in the cloud, or split between them, and for sought positions inside gaps, at page, region and partition boundaries, before the first and after the last event.",
  ["inputs","programs"],"for every data layout of a bounded family (memory only, refreshed, refreshed plus newer writes, cloud; one or several pages, regions and partitions, with gaps and deletes): every seek position in a neighbourhood of every stored event and boundary",
  "Tests seek existing keys, mostly in a single page and region; absent keys at each kind of boundary are a product space they do not enumerate.",
  [M+"engine/io/memtable_iterator.h",M+"engine/io/region_iterator.h",M+"engine/io/part_iterator.h",M+"engine/io/part_cursor.h",M+"engine/engine/engine_cursor.h"],
  [("memtable_iterator_open",M+"engine/io/memtable_iterator.h"),("part_iterator_open",M+"engine/io/part_iterator.h"),("region_iterator_open",M+"engine/io/region_iterator.h"),("engine_cursor_open",M+"engine/engine/engine_cursor.h")],
  ["in-memory pages","region index","partition mapping"],["cursor open/read/next"])

p("C03","Maintenance never changes what reads return",
  "Refreshing, moving, uploading, downloading, dropping one of two copies of a partition, checkpointing, running background service work, log rotation and garbage collection, changing storage or pipeline settings that drop nothing, renaming, and closing and reopening the database leave the set of events returned by scans unchanged, in every order in which they are combined with writes and deletes.",
  ["programs","histories"],"all sequences up to a bounded length over an alphabet of writes, deletes and maintenance commands on several storage and cloud layouts, each followed by full and seek reads, a reopen, and the reads again",
  "Tests run one fixed script per command; the merge of old file, frozen table and newer writes, and the handover between local and cloud copies, depend on the order in which operations are combined.",
  [M+"engine/engine/refresh.c",M+"engine/engine/op.c",M+"engine/io/merger.c",M+"engine/io/writer.c",M+"engine/io/part.c",M+"engine/engine/engine_recover.c",M+"cloud/cloud/mock.c"],
  [("refresh",M+"engine/engine/refresh.c"),("merge_iterator",M+"engine/io/merge_iterator.h"),("engine_download/upload/drop_file",M+"engine/engine/op.c"),("recovery",M+"engine/engine/engine_recover.c")],
  ["partition files","cloud files","log files","in-memory tables"],["scan before/after each command and after reopen"])

p("C04","A batch write is all or nothing",
  "A batch write that returns success is applied completely; one that returns an error leaves every event exactly as it was before the call, both for later reads by the same process and after a restart, wherever in the batch the failing event is and however many partitions the batch spans. Readers in other threads never observe part of a batch inside a partition.",
  ["inputs","fault_sequences"],"all batches up to a bounded length over an alphabet of inserts, replacements and deletes hitting existing and absent events in several partitions, with each possible failing position and each failure cause (invalid event, log write failure, memory limit)",
  "Tests inject one failure at the end of one fixed batch; undo order, repeated keys inside a batch and failures in the middle of a multi-partition batch are not enumerated.",
  [M+"engine/engine/write.c",M+"engine/wal/log.h",M+"engine/wal/wal.c",M+"engine/io/memtable.c"],
  [("engine_rollback",M+"engine/engine/write.c"),("memtable_unset",M+"engine/io/memtable.c"),("wal_write",M+"engine/wal/wal.c")],
  ["in-memory tables","log"],["monotone_write return code, scans, reopen"])

p("C05","Acknowledged writes survive a process crash at any point",
  "If the process dies at any moment, then after reopening with the log enabled the database contains every acknowledged write and delete, and of the one unacknowledged batch in flight either everything or nothing; nothing else appears. The same holds when the process also dies during the recovery itself, any number of times, when the interrupted write left only a part of its bytes, and for writes made after such a recovery.",
  ["crash_points","histories"],"every prefix of the sequence of file-system operations (and every torn length class of the interrupted write) of every workload of a bounded family, then again every such point of the recovery, followed by more writes and another reopen",
  "Tests reopen cleanly after a fixed script; they never stop in the middle of an operation.",
  [M+"engine/wal/wal.c",M+"engine/wal/wal_file.h",M+"engine/wal/wal_cursor.c",M+"main/main/main.c",M+"engine/engine/write.c",M+"engine/engine/engine_recover.c"],
  [("wal_open / wal_recover",M+"engine/wal/wal.c"),("wal_cursor",M+"engine/wal/wal_cursor.c"),("engine_write_replay",M+"engine/engine/write.c")],
  ["log files","partition files","config file"],["contents after reopen"])

p("C06","With log sync on every write, acknowledged writes survive power loss",
  "With syncing enabled (the default file sync plus log sync on every write), acknowledged writes survive the loss of all file data that was not yet flushed to the device, at any moment including during refresh, log rotation and garbage collection. What survives of the unflushed data may be nothing, everything or any leading part, and the database must open and show exactly the acknowledged state, give or take the one batch in flight.",
  ["crash_points","fault_sequences"],"every file-system operation of every workload of a bounded family as power-loss point, with for every file each of: nothing unflushed survives, everything survives, a leading part survives",
  "No test models the difference between written and flushed data.",
  [M+"engine/wal/wal.c",M+"engine/engine/refresh.c",M+"engine/io/writer.c",M+"runtime/runtime/file.h",M+"runtime/config/config.c"],
  [("file_sync",M+"runtime/runtime/file.h"),("refresh ordering of sync/rename/unlink",M+"engine/engine/refresh.c"),("wal sync",M+"engine/wal/wal.c")],
  ["durable contents of log and partition files"],["contents after reopen"])

p("C07","Interrupted maintenance loses nothing",
  "If the process dies at any moment of a refresh, move, upload, download, drop of one copy, checkpoint, rebalance or log garbage collection, then reopening succeeds, returns exactly the events present before the operation, and the operation can be repeated successfully afterwards. Leftovers of the interrupted operation never prevent opening, never resurrect old contents, and never hide newer ones.",
  ["crash_points"],"every file-system operation of every maintenance command on a bounded family of data and storage layouts, with the reopened database then driven through the same and other commands and reopened again",
  "Tests use three fixed injected errors inside refresh; the other dozens of intermediate directory states are never produced.",
  [M+"engine/engine/engine_recover.c",M+"engine/engine/refresh.c",M+"engine/engine/op.c",M+"cloud/cloud/mock.c",M+"cloud/cloud/id.h"],
  [("engine_recover state machine",M+"engine/engine/engine_recover.c"),("refresh steps",M+"engine/engine/refresh.c"),("upload/download rename protocol",M+"engine/engine/op.c")],
  ["partition directory states (.incomplete, .complete, cloud id files)"],["contents after reopen, command results"])

p("C08","Dropping partitions removes exactly them, for good",
  "A successful drop removes exactly the events of the named partitions (or of the partitions lying entirely within the given range) and frees their files; later reads, maintenance, restarts and crash recovery never bring them back, and no other event is affected. If the process dies during a drop the partition is afterwards either entirely present or entirely absent, and events written after a successful drop into the same range survive like any others.",
  ["programs","crash_points","histories"],"all bounded sequences of writes, refreshes and drops (whole, by range, one copy) with reopen after each prefix and a crash at each file-system operation of the drop and of the following recovery",
  "Tests drop in one state and reopen once; resurrection depends on which log records and files exist when the drop and the crash happen.",
  [M+"engine/engine/op.c",M+"engine/wal/log_write.h",M+"main/main/main.c",M+"main/command/parse_partition.c"],
  [("engine_drop",M+"engine/engine/op.c"),("LOG_DROP replay",M+"main/main/main.c")],
  ["log drop records","partition files"],["scan, SHOW PARTITIONS, directory listing, reopen"])

p("C09","Storage, cloud, pipeline and setting changes are durable and atomic",
  "Every acknowledged change to the set of storages, clouds, to the pipeline or to runtime settings is in effect after a restart or a crash at any later moment, with the same identities, so that all stored events remain reachable. A crash during such a change leaves either the old or the new definition, never a lost, mixed or unreadable configuration.",
  ["crash_points","programs"],"all bounded sequences of configuration commands with data present, and every file-system operation of each command as crash point, including torn configuration writes",
  "Tests reopen after clean shutdown only; the window between removing the old and finishing the new configuration is never exercised.",
  [M+"runtime/config/config.c",M+"main/main/execute.c",M+"engine/storage/storage_mgr.c",M+"cloud/cloud/cloud_mgr.c",M+"engine/storage/pipeline.c"],
  [("config_save / config_open",M+"runtime/config/config.c"),("storage_mgr_save",M+"engine/storage/storage_mgr.c")],
  ["configuration file"],["SHOW STORAGES/CLOUDS/PIPELINE/CONFIG and scans after reopen"])

p("C10","An I/O or cloud error fails one operation and damages nothing",
  "If any single file-system or cloud operation fails (or writes fewer bytes than asked, or keeps failing until repaired), the affected call returns an error or succeeds, the process does not crash or hang, and all acknowledged events stay readable in the running database and after a restart. Once the fault is gone, writes work and the failed maintenance can be repeated successfully. A drop that failed may be completed later, but only for whole partitions.",
  ["fault_sequences"],"every file-system call made by every workload of a bounded family, times each failure kind (error once, error until repaired, short write), followed by reads, retries and reopen",
  "Tests use six built-in injection points; there are over fifty call sites with distinct unwinding.",
  [M+"engine/engine/refresh.c",M+"engine/engine/op.c",M+"engine/wal/wal.c",M+"engine/engine/write.c",M+"runtime/runtime/vfs.c",M+"engine/storage/storage_mgr.c"],
  [("exception unwinding",M+"runtime/runtime/exception.h"),("refresh error path",M+"engine/engine/refresh.c"),("wal_write rollback",M+"engine/wal/wal.c")],
  ["references and locks held at throw time","files left behind"],["return codes, scans, reopen"])

p("C11","Damaged files are detected, never returned as data",
  "With checksums enabled, a stored partition or log file in which any byte was changed or which was cut at any length is either reported by an error (on open or on read) or does not affect the result: a scan never returns an event that was not written, and never silently misses events, except that a log file may be treated as ending at a damaged or cut record.",
  ["inputs","fault_sequences"],"every byte position of every stored file of a bounded family of databases (plain, compressed, encrypted) times several modifications, and every truncation length",
  "Tests never damage files.",
  [M+"engine/io/reader.h",M+"engine/io/region.h",M+"engine/io/index.h",M+"engine/wal/wal_cursor.c",M+"runtime/lib/crc.c",M+"engine/io/index_op.c"],
  [("region/index crc",M+"engine/io/reader.h"),("wal record crc",M+"engine/wal/wal_cursor.c")],
  ["crc fields in file headers"],["open/read return codes and contents"])

p("C12","Results do not depend on storage configuration",
  "The events returned for a given history of writes and commands do not depend on the storage options: compression (none, lz4, zstd) and level, encryption, checksums, sync, region size, log options, or a different combination of them on each storage that a partition passes through. Data of every size and content is returned byte for byte.",
  ["configurations","inputs"],"the full product of storage options (and all ordered pairs of options for partitions moving between two storages) times a family of histories and event sizes",
  "Tests fix one option at a time; combinations, and codecs shared between storages with different options, are a product space.",
  [M+"runtime/lib/compression_mgr.c",M+"runtime/lib/compression_zstd.c",M+"runtime/lib/compression_lz4.c",M+"runtime/lib/encryption_aes.c",M+"engine/io/region_writer.h",M+"engine/io/reader.h",M+"engine/storage/tier_config.h"],
  [("compression/encryption managers",M+"runtime/lib/compression_mgr.c"),("writer/reader",M+"engine/io/writer.c")],
  ["codec caches","region encoding"],["scan results"])

p("C13","Tiering moves and drops exactly what the pipeline says",
  "After a rebalance of partitions that are not waiting for a background refresh, each pipeline storage holds at most what its configured limits (number of partitions, size, events, age) allow, the newest partitions stay in the earliest storages and each surplus partition moves oldest-first to the next storage. A partition is dropped only when it is surplus in the last storage of the pipeline, no event that stays within the limits is ever lost, and a second rebalance changes nothing.",
  ["configurations","programs"],"all pipelines up to a bounded length over a set of limits, times partition layouts and sizes, times interleaved writes, refreshes and reopen",
  "Tests check a few fixed pipelines with one limit each.",
  [M+"engine/storage/pipeline.c",M+"engine/engine/op.c",M+"engine/storage/tier.h",M+"engine/storage/storage_mgr.c"],
  [("pipeline_rebalance",M+"engine/storage/pipeline.c"),("engine_rebalance",M+"engine/engine/op.c")],
  ["pipeline tiers","storage partition lists"],["SHOW PARTITIONS, scans"])

p("C14","Automatically assigned ids are unique and increasing, also across restarts",
  "In serial mode every event written without an explicit id gets an id greater than every id assigned or present before, in write order, also after failed writes, deletes, drops of partitions, refreshes, restarts and crashes; so no acknowledged event is ever overwritten by an automatically assigned id. Only ids of events which are deleted or dropped for good may be given again after a restart.",
  ["histories","crash_points"],"all bounded sequences of automatic and explicit writes, deletes, refreshes, drops, failing writes and restarts or crashes",
  "Tests check one restart with one partition.",
  [M+"engine/engine/engine.c",M+"engine/engine/write.c",M+"runtime/config/global.h"],
  [("engine_set_serial",M+"engine/engine/engine.c"),("config_ssn",M+"runtime/config/global.h")],
  ["serial counter"],["ids returned by scans"])

p("C15","Every event lives in exactly one partition whose range contains it",
  "At all times partitions cover pairwise disjoint ranges, every event is in the partition whose range contains its id, and writes create the missing partitions aligned to the configured interval without overlapping existing ones, including after the interval is changed, after partitions are created by hand or dropped, at both ends of the id space, and after restart (after which partitions that hold no stored event may be missing or created anew).",
  ["programs","inputs"],"all bounded sequences of writes at boundary ids, explicit partition creation with all small ranges, interval changes, drops and reopen",
  "Tests use one interval and a few ids.",
  [M+"engine/engine/op.c",M+"engine/engine/engine.c",M+"engine/io/mapping.h",M+"engine/engine/engine_recover.c"],
  [("engine_fill / engine_create",M+"engine/engine/op.c"),("mapping",M+"engine/io/mapping.h")],
  ["partition mapping"],["SHOW PARTITIONS, scans"])

p("C16","Concurrent clients and background work see a consistent ordered map",
  "Under every interleaving of writers, readers and background maintenance, each batch takes effect atomically per partition, every acknowledged write is visible to every read that starts afterwards, a cursor returns an ordered duplicate-free sequence, and the final contents equal those of some sequential order of the acknowledged writes. The same contents are found after a clean or crash restart.",
  ["schedules","crash_points"],"all thread schedules up to a preemption bound of a family of small programs (writers, cursors, refresh, move, drop, checkpoint, background workers), switching at every synchronisation and file operation",
  "Tests run one uncontrolled schedule per run, and have almost no concurrent cases.",
  [M+"engine/engine/lockage.h",M+"engine/engine/ref.h",M+"engine/engine/refresh.c",M+"engine/engine/write.c",M+"engine/engine/service.h",M+"engine/engine/engine.c",M+"engine/wal/wal.c"],
  [("partition reference locks",M+"engine/engine/lockage.h"),("refresh lock protocol",M+"engine/engine/refresh.c"),("control lock",M+"main/main/main.c"),("wal lock",M+"engine/wal/wal.c")],
  ["reference locks","service queue","memtable pair"],["return codes and scans of each thread"])

p("C17","No schedule deadlocks or loses a wake-up",
  "Every operation started by any combination of concurrent clients, background workers and shutdown completes under every schedule, provided that a client thread holds at most one cursor, closes it eventually, and writes or issues commands while holding it only if no other client thread is active, and that no limit makes writes block for memory. Queued background work is always picked up, and closing the database always terminates.",
  ["schedules"],"all schedules up to a preemption bound of small programs of clients, workers and shutdown, checking that the program ends with every thread finished",
  "A deadlock needs one specific interleaving of lock requests; tests sample one.",
  [M+"engine/engine/lockage.h",M+"engine/engine/service.h",M+"runtime/runtime/rwlock.h",M+"runtime/runtime/cond_var.h",M+"engine/engine/worker.c",M+"runtime/lib/memory_mgr.h"],
  [("lock acquisition order",M+"engine/engine/engine.c"),("service queue wait/signal",M+"engine/engine/service.h"),("reference wait/broadcast",M+"engine/engine/lockage.h")],
  ["lock waiters"],["termination of every thread"])

p("C18","An open cursor stays correct while its thread writes",
  "A cursor keeps working while the same thread inserts, replaces or deletes events: it never crashes, never returns an event out of order or twice, and never misses an event that existed when the cursor was opened and was not deleted since. Each event it returns has a value which the event held at some moment since the cursor was opened (a change ahead of the cursor may or may not be seen). After a write, successful or failed, the current event of the cursor is unchanged unless it was itself replaced or deleted.",
  ["programs","inputs"],"all positions of the cursor times all single and paired writes, replacements and deletes relative to it, in tables at, below and above the page-split limits, in one and several partitions",
  "Tests use one insert pattern; the repositioning logic depends on the position relative to the page and split point.",
  [M+"engine/io/memtable.c",M+"engine/io/memtable_iterator.h",M+"engine/engine/write.c"],
  [("memtable_iterator_sync",M+"engine/io/memtable_iterator.h"),("memtable split",M+"engine/io/memtable.c")],
  ["iterator list of the table"],["cursor read/next sequence"])

p("C19","The log keeps what is needed and is eventually trimmed",
  "A log file is removed only after every write and drop recorded in it is safely in partition storage or superseded, so that a crash right after any removal loses nothing. Once all partitions are refreshed, all older log files are removed, so the log does not grow without bound.",
  ["programs","crash_points","schedules"],"all bounded sequences of writes to several partitions, rotations, refreshes, drops, checkpoints and log collections with a crash after each step, and all schedules of concurrent writers and collection",
  "Tests look at one rotation and one collection.",
  [M+"engine/wal/wal.c",M+"engine/wal/wal_id.h",M+"engine/engine/op.c",M+"engine/engine/engine_recover.c"],
  [("wal_gc",M+"engine/wal/wal.c"),("wal_rotate",M+"engine/wal/wal.c"),("minimum lsn",M+"engine/engine/op.c")],
  ["log file list","minimum unflushed position of each partition"],["SHOW WAL, log directory, contents after crash"])

p("C20","Memory use is bounded as configured and always returned",
  "With a memory limit in error mode a write that would exceed the limit fails cleanly with an error and works again after a refresh frees memory; memory reported as in use never exceeds the limit by more than the pages a single call needs (replay of the log at open is exempt: every logged event must be recovered), and returns to its initial value after everything is refreshed or dropped. No sequence of operations, failures included, leaks file descriptors or memory pages.",
  ["programs","fault_sequences"],"all bounded sequences of writes, refreshes, drops and failing writes for several limits and page sizes, comparing the reported usage and the open descriptors with a model after each step",
  "Tests set one limit once.",
  [M+"runtime/lib/memory_mgr.h",M+"runtime/lib/heap.h",M+"engine/io/memtable.c"],
  [("memory_mgr_pop/push",M+"runtime/lib/memory_mgr.h"),("heap_allocate",M+"runtime/lib/heap.h")],
  ["page counters"],["SHOW MEMORY, return codes, open descriptors"])

p("C21","Commands either take effect or change nothing",
  "Every command string either succeeds with exactly its documented effect or returns an error and changes nothing: objects, settings, partitions and events stay as they were, in the running database and after restart. Malformed, truncated or ill-typed commands never crash the process; IF EXISTS and IF NOT EXISTS make the absent or present case a success without effect, and numeric units mean what they say.",
  ["inputs","programs"],"all token sequences up to a bounded length derived from the command grammar (valid, with one token dropped, duplicated or replaced), in several database states, comparing the full introspection output and contents before and after",
  "Tests contain a few dozen valid commands and a few errors.",
  [M+"main/command/lex.c",M+"main/command/parse.c",M+"main/main/execute.c",M+"main/command/parse_partition.c",M+"main/command/parse_storage.c",M+"main/command/parse_pipeline.c",M+"main/command/parse_cloud.c",M+"main/command/parse_config.c"],
  [("lexer/parsers",M+"main/command"),("execute",M+"main/main/execute.c")],
  ["configuration","storages","clouds","pipeline","mapping"],["return code, error text, SHOW output, scans"])

p("C22","A database directory is open in at most one place",
  "While a database directory is open, every other attempt to open it fails with an error and does not disturb the one that is open or its files; after it is closed, after a failed open, or after a crash, it can be opened again.",
  ["programs","schedules"],"all bounded sequences of open, close, failed open, write and maintenance on two handles of the same directory, with fault injected into each system call of the open",
  "Tests do not open the same directory twice.",
  [M+"main/main/main.c",M+"runtime/runtime/file.h",M+"runtime/runtime/vfs.c"],
  [("directory lock",M+"main/main/main.c")],
  ["lock on the directory"],["open return codes, contents"])

p("C23","Encrypted storages never hold plaintext and need their key",
  "Everything a storage with encryption enabled writes to its partition files, locally and in the cloud, is unreadable without the key: no event key or value appears in them in clear, equal contents do not produce equal regions, and reading with a different key fails with an error or returns nothing but correct data. Moving a partition into such a storage leaves no clear copy behind in either storage.",
  ["configurations","programs"],"all storage option combinations with encryption, all bounded command sequences that write, refresh, move, upload and download partitions, scanning every byte of every file of the storage after each step",
  "Tests only check that encrypted data reads back.",
  [M+"runtime/lib/encryption_aes.c",M+"engine/io/writer.c",M+"engine/io/region_writer.h",M+"engine/io/index_writer.h",M+"engine/storage/storage.h"],
  [("region and index encryption",M+"engine/io/writer.c")],
  ["bytes of partition files"],["file contents, reopen with other key"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
