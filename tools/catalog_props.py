NOT_APPLICABLE = []

REPLAY = ("TLC-checked TLA+ system model (spec/Tonbo.tla); behaviours simulated from it are replayed "
          "into the real engine on a simulated filesystem and executor, every observation compared")
NOTE = ("Exhaustive on the specification within small bounds; the engine is compared with the "
        "specification on thousands of seeded behaviours (4 model keys, about 20 steps, 12 key "
        "schemas, groups of up to 700 rows per model key). Trusts the harness's filesystem and the stand-in "
        "for the unavailable pruning crate, which never prunes.")

prop("C01", "Reads return exactly the newest committed version of every live key",
     "A full scan returns every key whose most recent committed write is an insert or update, exactly once, in ascending key order, with all column values of that write, and no other row. "
     "This holds wherever the versions of the keys currently are: in the active write buffer, in sealed buffers, in freshly flushed files, in compacted files, or any mixture, and also after a restart. "
     "Within one batch the last row for a key wins and deletes hide every older version.",
     ["inputs", "histories", "configurations"],
     "every sequence of batches (upserts, deletes, duplicate keys), seals, flushes, compactions, log rotations and restarts, for every supported key schema",
     "Unit tests read back a handful of hand-written layouts; which source holds which version, in which order, is an unbounded product of write, seal, flush and compaction histories.",
     ["src/db/scan.rs", "src/query/stream/merge.rs", "src/query/stream/package.rs", "src/inmem/mutable/memtable.rs", "src/inmem/immutable/memtable.rs", "src/ondisk/scan.rs", "src/ondisk/sstable.rs", "src/ondisk/merge.rs"],
     [("mem", "row versions not yet sealed", "src/inmem/mutable/memtable.rs"),
      ("imm", "sealed memtables awaiting flush", "src/db/mod.rs (seal state)"),
      ("man", "SSTs of the current manifest version", "src/manifest/version.rs")],
     [("k-way merge keeping the newest visible version per key", "src/query/stream/merge.rs"),
      ("per-source visible scans", "src/inmem/mutable/memtable.rs, src/inmem/immutable/memtable.rs, src/ondisk/scan.rs")],
     ["DB::scan().collect()"], "step seal, flush, compaction and log maintenance one at a time",
     REPLAY, NOTE)

prop("C02", "A held snapshot keeps answering as of the moment it was taken",
     "Once at least one write has been committed, a snapshot returns, for as long as it is held, exactly the rows that were visible when it was taken. "
     "Later writes and deletes, sealing, flushing, compaction, log rotation and log reclamation never add, remove or change a row of it.",
     ["histories", "inputs"],
     "every interleaving of snapshots with writes, deletes, seals, flushes and compactions before each repeated read",
     "Tests read a snapshot once or twice around one fixed event; stability is about every later sequence of maintenance.",
     ["src/transaction/mod.rs", "src/db/mod.rs", "src/db/scan.rs", "src/manifest/version.rs"],
     [("snaps", "read timestamp and pinned manifest version", "src/transaction/mod.rs Snapshot")],
     [("timestamp visibility filter in every source", "src/inmem/mutable/memtable.rs, src/inmem/immutable/memtable.rs, src/ondisk/scan.rs"),
      ("files of the pinned and later versions stay readable", "src/db/scan.rs")],
     ["Snapshot::scan(&db).collect()"], "step seal, flush and compaction one at a time",
     REPLAY, NOTE)

prop("C03", "Transactions read their snapshot plus their own writes and apply atomically",
     "Inside a transaction, scans and point reads return the table as of the transaction's start overlaid with its own staged upserts and deletes. "
     "Nobody else sees staged writes before commit; a successful commit makes all of them visible together, and a transaction that aborts or is refused leaves no trace.",
     ["histories", "inputs", "programs"],
     "every program of staged upserts and deletes interleaved with other writers, seals, flushes, compactions and restarts",
     "Tests stage one or two rows over data that is still in memory; the overlay must be right over every placement of the older versions.",
     ["src/transaction/mod.rs", "src/db/scan.rs", "src/query/stream/merge.rs"],
     [("txns", "snapshot timestamp, staged write set, status", "src/transaction/mod.rs")],
     [("staged overlay stream with highest precedence", "src/query/stream/merge.rs, src/transaction/mod.rs"),
      ("all rows of a commit share one timestamp and one log transaction", "src/transaction/mod.rs")],
     ["Transaction::scan/get/commit/abort", "DB::scan"], "step seal, flush and compaction one at a time",
     REPLAY, NOTE)

prop("C04", "First committer wins: overlapping writers never silently overwrite each other",
     "A transaction commits if and only if no key it writes was committed by anyone else (insert, update or delete) after the transaction started; otherwise it is refused with a conflict and changes nothing. "
     "This holds wherever the other write now is: in the active buffer, sealed, flushed or compacted.",
     ["histories", "schedules", "inputs"],
     "every interleaving of overlapping transactions, plain writes, seals, flushes and compactions",
     "Tests cover one conflict in each memtable; lost updates need a particular placement of the competing write.",
     ["src/transaction/mod.rs", "src/db/wal.rs", "src/inmem/mutable/memtable.rs", "src/inmem/immutable/memtable.rs", "src/db/scan.rs"],
     [("txns", "snapshot timestamp and staged keys", "src/transaction/mod.rs")],
     [("conflict probes per layer", "src/inmem/mutable/memtable.rs has_conflict, src/inmem/immutable/memtable.rs has_conflict, src/db/scan.rs sst_conflict"),
      ("per-key commit locks", "src/transaction/mod.rs")],
     ["Transaction::commit result", "DB::scan afterwards"], "step seal, flush and compaction one at a time",
     REPLAY, NOTE)

prop("C05", "An acknowledged write survives a crash at any point",
     "Once an insert, delete or transaction commit has returned successfully (write-ahead log on, strict acknowledgement), its effect is there after the process is killed at any later moment and the table is reopened. "
     "This includes being killed in the middle of another write, a seal, a flush, a compaction, a log rotation, a log reclamation or a previous recovery, and killing and reopening repeatedly. "
     "Reopening after a kill always succeeds.",
     ["crash_points", "histories"],
     "every storage operation of every step as the moment of death, after every history of writes, maintenance and earlier crashes",
     "Tests reopen after orderly steps; loss needs a death between two particular storage operations, often followed by a second one.",
     ["src/db/wal.rs", "src/wal/writer.rs", "src/wal/replay.rs", "src/wal/storage.rs", "src/db/builder.rs", "src/compaction/minor.rs", "src/compaction/driver.rs", "src/manifest/driver.rs"],
     [("wal", "log records per segment", "src/wal/storage.rs"),
      ("man", "published manifest versions with their log floor", "src/manifest/driver.rs"),
      ("prev", "durable state before the interrupted step", "spec only")],
     [("log first, then memtable, then acknowledge", "src/db/wal.rs insert_dyn_wal_batch"),
      ("floor raised only by the version that publishes the SST", "src/compaction/minor.rs, src/db/mod.rs flush_immutables_with_descriptor"),
      ("segments removed only below the floor", "src/wal/writer.rs, src/wal/storage.rs prune_below")],
     ["DB::open after a crash image", "DB::scan"], "step seal, flush, compaction and log maintenance one at a time",
     REPLAY + "; for each step marked by the specification as interrupted, the images after its storage operations (and torn writes) are recovered", NOTE)

prop("C06", "A crash never leaves part of a write behind",
     "After the process is killed at any moment and the table reopened, every batch and every transaction is there completely or not at all, including batches that mix upserts and deletes and span several log records. "
     "A write that was never acknowledged is either fully there or fully absent, and if absent it never reappears later, whatever is written, rotated or reopened afterwards. "
     "A half-written record at the end of the log is discarded without affecting earlier records.",
     ["crash_points", "inputs", "histories"],
     "every storage operation and torn write inside every batch or commit, followed by further writes and restarts",
     "Tests truncate a log once; partial effects need a death between the records of one write and particular follow-up activity.",
     ["src/wal/replay.rs", "src/wal/frame.rs", "src/wal/storage.rs", "src/db/wal.rs", "src/transaction/mod.rs"],
     [("wal", "log records per segment", "src/wal/storage.rs"),
      ("prev", "durable state before the interrupted step", "spec only")],
     [("rows are applied only when their commit record is found", "src/db/wal.rs replay_wal_events"),
      ("torn tail detection and truncation", "src/wal/replay.rs, src/wal/storage.rs tail_metadata_with_hint"),
      ("provisional ids are never reused while their records exist", "src/wal/mod.rs enable_wal")],
     ["DB::open after a crash image", "DB::scan"], "step seal, flush, compaction and log maintenance one at a time",
     REPLAY + "; every storage operation and torn write inside the interrupted batch is recovered and compared", NOTE)

prop("C10", "Compaction never changes what any reader sees",
     "Merging files into lower levels changes no query result, for current readers and for readers holding an older snapshot, however many files take part and however the output is split. "
     "Deletes keep hiding older versions that live in files outside the merge.",
     ["histories", "inputs", "configurations"],
     "every sequence of flushes and compactions, every planner setting and output split, before and after restarts",
     "Tests merge a few rows in one shape; ordering errors need several files, several versions, deletes and more rows than one internal batch.",
     ["src/ondisk/merge.rs", "src/ondisk/sstable.rs", "src/compaction/driver.rs", "src/compaction/executor.rs", "src/compaction/planner.rs"],
     [("man", "SSTs per level and version", "src/manifest/version.rs")],
     [("k-way merge by key, newest first", "src/ondisk/merge.rs"),
      ("manifest swap of inputs for outputs", "src/compaction/driver.rs")],
     ["DB::scan, Snapshot::scan"], "run one planned compaction on demand",
     REPLAY, NOTE)

prop("C14", "A filtered, projected or limited read equals the full read, filtered, projected and cut",
     "For every filter, a read returns exactly the rows of the full read that satisfy it under SQL's three-valued logic, in key order; a limit returns a prefix of that, and a projection changes which columns are returned and nothing else. "
     "It makes no difference which layer holds the rows, whether the filter can be used to skip keys or files, or whether the reader is the table, a snapshot or a transaction.",
     ["inputs", "histories", "configurations"],
     "every predicate tree over key and value columns (comparisons, ranges, lists, prefixes, null tests, and/or/not), projection and limit, against every placement of row versions",
     "Tests use a few filters on fixed data; a filter that is pushed below version merging is wrong only for particular combinations of superseded versions, deletes and literals.",
     ["src/query/scan.rs", "src/db/scan.rs", "src/query/stream/package.rs", "src/query/stream/merge.rs", "src/ondisk/scan.rs", "src/inmem/mutable/memtable.rs", "src/inmem/immutable/memtable.rs"],
     [("plan", "key range, pushed-down and residual filter, scan and result schema", "src/query/scan.rs ScanPlan")],
     [("key range derived from the filter", "src/query/scan.rs key_bounds_for_predicate"),
      ("residual filter, projection and limit on the merged rows", "src/query/stream/package.rs")],
     ["DB::scan().filter().projection().limit().collect() and the snapshot and transaction equivalents"], "step seal, flush and compaction one at a time",
     REPLAY + "; the specification evaluates sampled predicate trees over the expected view (spec/Predicates.tla)", NOTE)

prop("C15", "One total key order for every key schema, everywhere",
     "For every supported key schema (booleans, 32- and 64-bit integers, floats, strings, binary, and composites of them, wherever the key columns stand in the schema) rows come back in ascending key order, each key once. "
     "Two rows have the same key exactly when all components are equal (all NaNs are one key that sorts last; negative and positive zero are one key). "
     "Memory, log recovery, files, file statistics, compaction, point reads and conflict checks agree on it.",
     ["inputs", "configurations", "histories"],
     "every key schema and every set of key values, including extreme values, empty and prefix-sharing strings, non-finite floats",
     "Tests use strings and small integers; an order that disagrees between two components shows only for particular types and values.",
     ["src/key/row.rs", "src/key/owned.rs", "src/key/ts.rs", "src/extractor/extractors.rs", "src/ondisk/merge.rs", "src/query/stream/merge.rs", "src/inmem/mutable/memtable.rs"],
     [("keys", "rows, ranges and statistics ordered by key", "src/key/*.rs")],
     [("comparison, equality and hash of key rows", "src/key/row.rs"),
      ("stored form of owned keys", "src/key/owned.rs")],
     ["DB::scan, Transaction::get, commit conflicts"], "step seal, flush and compaction one at a time",
     REPLAY + "; keys 1..8 of the model are bound to random schemas and random key values sorted by an independent comparator", NOTE)

prop("C16", "Concurrent clients observe one order of commits, and every operation finishes",
     "When several tasks use one table at once (batches, transactions, snapshots, scans, with sealing, flushing, compaction and log maintenance going on), what they observe is explained by a single order of commits that respects real time: "
     "an operation that has returned is visible to every later reader; a snapshot or transaction reads one fixed prefix of that order; of two overlapping transactions that write the same key only the first to commit succeeds; each write is visible completely or not at all. "
     "After a crash everything that had returned is there and everything else is there completely or not at all. Every operation eventually returns.",
     ["schedules", "histories", "crash_points"],
     "every interleaving, at every suspension point, of the operations of 2 to 4 clients and one or two maintenance tasks, and every moment of it as the moment of death",
     "Tests run one or two tasks on whatever schedule the runtime picks; lost updates, torn snapshots and deadlocks need one particular interleaving.",
     ["src/transaction/mod.rs", "src/db/wal.rs", "src/db/mod.rs", "src/db/scan.rs", "src/mvcc/mod.rs", "src/inmem/mutable/memtable.rs", "src/compaction/minor.rs", "src/compaction/driver.rs", "src/manifest/driver.rs", "src/wal/writer.rs"],
     [("order", "commits in timestamp order", "src/mvcc/mod.rs commit clock"),
      ("bt", "read timestamps of snapshots and transactions", "src/transaction/mod.rs")],
     [("per-key commit locks held over check, log and apply", "src/transaction/mod.rs commit"),
      ("log, then apply, then acknowledge", "src/db/wal.rs insert_dyn_wal_batch"),
      ("flush and compaction swap files for buffers without a gap", "src/db/mod.rs, src/compaction/driver.rs")],
     ["results of concurrent DB, Snapshot and Transaction calls"], "step seal, flush, compaction and log maintenance as tasks of their own",
     "TLA+ trace checking: histories recorded from concurrent clients of the real engine under a seeded scheduler are judged by TLC against spec/Lin.tla",
     "TLC decides for every recorded history whether any behaviour of the specification explains it (sound and complete per history). Histories are seeded random schedules on one thread, interleaved at every suspension point; true parallelism inside one poll is not explored.")

prop("C07", "Damage to the log never yields invented or patchwork data",
     "When bytes of the write-ahead log are lost or altered (a flipped bit, overwritten bytes, a file cut short, the bookkeeping file missing or cut), reopening either refuses with an error or yields the table as it was after some earlier commit that is no older than what had been flushed to files. "
     "It never yields rows that were never written, part of a write, or later writes without earlier ones. A log that is merely cut short opens, a lost bookkeeping file loses nothing, and a table recovered this way takes new writes, and serves them, like any other. (Not covered: the loss of the whole oldest log file while nothing of it was flushed, recorded as K07.)",
     ["inputs", "histories", "crash_points"],
     "every damage to any byte of any log file after every history of writes, maintenance and restarts",
     "Tests damage one frame of a fresh log; silent loss depends on which byte is hit, on the flushed floor and on what follows in the log.",
     ["src/wal/replay.rs", "src/wal/frame.rs", "src/wal/storage.rs", "src/wal/state.rs", "src/db/wal.rs", "src/db/builder.rs", "src/db/mod.rs"],
     [("wal", "log records per segment", "src/wal/storage.rs"),
      ("FlushedTs", "newest commit in the manifest's files", "src/db/mod.rs advance_clock_past_ssts")],
     [("frame checksum, length and order checks", "src/wal/frame.rs, src/wal/replay.rs"),
      ("truncated tail ends replay", "src/wal/replay.rs"),
      ("commit clock resumes past both log and files", "src/db/mod.rs")],
     ["DB::open on a damaged image", "DB::scan and writes afterwards"], "step seal, flush, compaction and log maintenance one at a time",
     REPLAY + "; at each damage step eight damaged images are reopened and must be refused or show one of the moments the specification lists", NOTE)

prop("C18", "The log's sync policy bounds what a power failure can take",
     "With sync policy Always, an acknowledged write is on stable storage before its acknowledgement. With IntervalBytes, less than the threshold of acknowledged log bytes is unsynced at any time; with IntervalTime, nothing stays unsynced longer than the interval while the table is open. "
     "A segment is synced before its successor receives bytes, so what survives a power failure is a prefix of the log, except under policy Disabled; closing the table syncs the log. "
     "Segments are rotated when they reach the size or age limit and are numbered consecutively, and the retention limit removes only the oldest segments and only while the log exceeds it.",
     ["schedules", "configurations", "histories", "crash_points"],
     "every sync policy, segment size and age, retention limit, flush interval and queue length, against every timing and size of writes, pauses, closes and reopens",
     "Tests cannot see which bytes were synced when an acknowledgement was given, and the bounds are about every timing of writes against timers.",
     ["src/wal/writer.rs", "src/wal/mod.rs", "src/wal/storage.rs"],
     [("segs", "length, synced length and age of every segment", "src/wal/writer.rs"),
      ("acks", "log length and time at each acknowledgement", "src/wal/mod.rs WalTicket")],
     [("sync decision after each batch of frames and on the timer", "src/wal/writer.rs maybe_sync, next_sync_deadline"),
      ("rotation", "src/wal/writer.rs maybe_rotate, rotate_active"),
      ("retention", "src/wal/storage.rs, src/wal/writer.rs")],
     ["write, fsync, create and remove calls of the log writer; acknowledgements; clock"], "none (the harness supplies filesystem, timer and fsync)",
     "TLA+ trace checking: storage operations recorded from the real log writer on a simulated clock are judged by TLC against spec/WalLog.tla, which is itself model checked exhaustively within bounds (spec/WalLogMC.tla)",
     "Exhaustive on the specification for 2 segments and small lengths; each recorded run is decided completely. Directory entries are assumed durable once the file is synced; manifest and data files are outside this property.")

prop("C08", "A storage failure is reported and costs nothing that was acknowledged",
     "When a storage operation fails underneath a call (a write, sync, rename, list, delete or read returning an error, once or repeatedly), the call either reports an error or completes correctly; it never reports success for something it did not do, and a read never returns a result with rows missing or wrong. "
     "A failed batch, commit, flush, compaction or log reclamation is applied wholly or not at all; everything acknowledged earlier stays readable, and reopening the table once storage works again restores a complete state from which it carries on.",
     ["crash_points", "histories", "inputs"],
     "every storage operation inside every step as the one that fails, for one or several failures, after every history of writes, maintenance and restarts",
     "Tests run on storage that works; a swallowed error shows only when one particular call fails and only in what is missing later.",
     ["src/wal/writer.rs", "src/wal/storage.rs", "src/wal/mod.rs", "src/db/wal.rs", "src/db/mod.rs", "src/compaction/minor.rs", "src/compaction/driver.rs", "src/ondisk/sstable.rs", "src/ondisk/scan.rs", "src/manifest/driver.rs"],
     [("prev", "durable state before the failed step", "spec only"),
      ("wal", "log records per segment", "src/wal/storage.rs"),
      ("man", "published manifest versions", "src/manifest/driver.rs")],
     [("a failed log write is reported to every waiting writer", "src/wal/writer.rs"),
      ("files are published only after they are complete", "src/compaction/minor.rs, src/compaction/driver.rs"),
      ("read errors end the scan with an error", "src/ondisk/scan.rs, src/db/scan.rs")],
     ["results of DB calls on failing storage", "DB::scan before and after reopening"], "step seal, flush, compaction and log maintenance one at a time",
     REPLAY + "; at each step the specification marks as failing, one or more of its storage operations return errors and the outcome must be one of the two the specification allows", NOTE)

prop("C09", "A write that is refused has no effect, now or later",
     "A batch or transaction that the table refuses because it is not valid (missing, extra, renamed or wrongly typed columns, a null in a key or in a column that may not be null, a tombstone list of the wrong length) changes nothing: no reader sees any of its rows, transactions in progress and later writes go on as if it had never been offered, and nothing of it comes back after a restart. "
     "In particular a refused write never keeps the table from being opened again.",
     ["inputs", "histories"],
     "every kind of invalid batch or staged row, for every key schema, at every point of every history of writes, maintenance and restarts",
     "Tests assert that an error comes back; that the refused rows are not in the log, in a buffer or in a later recovery depends on what follows.",
     ["src/db/wal.rs", "src/db/mod.rs", "src/inmem/mutable/memtable.rs", "src/extractor/extractors.rs", "src/transaction/mod.rs"],
     [("commits", "committed writes, unchanged by a refusal", "src/mvcc/mod.rs")],
     [("schema, key and bitmap checks before the log append", "src/db/wal.rs insert_dyn_wal_batch, src/db/mod.rs ingest"),
      ("row checks when staging", "src/transaction/mod.rs")],
     ["results of DB::ingest, ingest_with_tombstones, Transaction::upsert, upsert_batch, delete", "DB::scan before and after restart"], "step seal and flush one at a time",
     REPLAY + "; refused writes are stuttering steps of the specification", NOTE)
