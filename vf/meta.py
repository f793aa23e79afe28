"""Source of properties.jsonl and MANIFEST.json:  python3 vf/gen.py"""

META = {}


def M(id, title, statement, over, qtext, why, files, mech, **kw):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    anchors.update(kw)
    META[id] = dict(id=id, title=title, statement=statement,
                    quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=anchors)


API = "include/splinterdb/splinterdb.h"

M("C01", "A lookup returns exactly what the history of operations says",
  "For every sequence of inserts, updates and deletes that returned success, a lookup of any key returns exactly the value that folding that key's operations in order gives, and reports absence exactly when the key was never written or was last deleted. This holds for every key and value length the configuration allows, every comparator, every valid configuration, and whatever background flushing, splitting, compaction and eviction happened in between; no valid operation crashes or fails.",
  ["inputs", "histories", "configurations"],
  "all operation histories x all keys/values/comparators within limits x all valid configurations x all tree shapes they lead to",
  "Tests check a few fixed key patterns on one default configuration; the answer depends on which of memtable, branches, bundles and filters hold the key's messages, which only long varied histories reach.",
  ["src/trunk.c", "src/memtable.c", "src/btree.c", "src/routing_filter.c", "src/merge.c", "src/splinterdb.c", API],
  [("point query walk from memtables through trunk nodes", "src/trunk.c:trunk_lookup"),
   ("flush, split and compaction of branches", "src/trunk.c:trunk_flush, trunk_split_leaf, trunk_compact_bundle"),
   ("leaf lookup", "src/btree.c:btree_lookup")],
  observe_at=["splinterdb_lookup", "splinterdb_lookup_result_value"])

M("C02", "Range iteration yields exactly the live keys, in order, both directions",
  "An iterator started at any key (or at the beginning) of an unchanging database stands on the smallest live key not below its start and visits every live key exactly once, in comparator order, with its current value, for every sequence of forward and backward steps. It is invalid exactly before the first and after the last live key, from where it can be stepped back into the range, and what it reports about being able to step agrees with that.",
  ["inputs", "histories"],
  "all database contents and tree shapes x all start keys x all sequences of next/prev",
  "Tests iterate a few dense integer key sets; mistakes appear when directions change at page, leaf, branch or deleted-key boundaries.",
  ["src/trunk.c", "src/merge.c", "src/btree.c", "src/splinterdb.c"],
  [("range iterator over memtables and branches", "src/trunk.c:trunk_range_iterator_init"),
   ("merging of sorted runs with direction changes", "src/merge.c:merge_next, merge_prev"),
   ("b-tree iterator", "src/btree.c:btree_iterator_next, btree_iterator_prev, btree_iterator_seek")],
  observe_at=["splinterdb_iterator_*"])

M("C03", "Concurrent operations on a key are linearizable",
  "When any number of threads insert, update, delete and look up keys at the same time, each operation takes effect atomically at one point between its call and its return: there is one order of all operations on a key, consistent with real time, that explains every answer. No acknowledged write is lost, no older value reappears, no torn or foreign value is returned, and no operation fails or crashes, whatever background work is under way.",
  ["schedules", "histories"],
  "all interleavings of any number of threads and background tasks",
  "A test samples a few uncontrolled schedules and rarely checks overlapping operations against a history; most windows are a few instructions wide.",
  ["src/trunk.c", "src/memtable.c", "src/btree.c", "src/clockcache.c", "src/platform_linux/platform.c"],
  [("insert under rotation of memtables", "src/memtable.c:memtable_maybe_rotate_and_begin_insert"),
   ("concurrent b-tree insert with optimistic hand-over-hand locks", "src/btree.c:btree_insert"),
   ("copy-on-write trunk with snapshot readers", "src/trunk.c:trunk_copy_path_by_key_and_height")],
  observe_at=["splinterdb_insert", "splinterdb_update", "splinterdb_delete", "splinterdb_lookup"])

M("C04", "Iterators are consistent while other threads write",
  "While other threads write, an iterator still returns keys in strictly increasing (or, backwards, decreasing) order without duplicates; each value it returns is one that the key really had at some point not older than the start of the iteration. A key that was present throughout the iteration is never skipped inside the traversed range, and a key that was absent throughout is never returned.",
  ["schedules", "histories"],
  "all interleavings of iterators in either direction with writers, flushes, compactions and evictions",
  "Tests hardly iterate while writing and cannot tell a stale or skipped key from a legal race without tracking each key's versions.",
  ["src/trunk.c", "src/merge.c", "src/btree.c", "src/mini_allocator.c"],
  [("branch references held by iterators", "src/trunk.c:trunk_range_iterator_init, trunk_range_iterator_deinit"),
   ("b-tree iterator end re-search when the tree changed", "src/btree.c:btree_iterator_next_leaf"),
   ("blocking deallocation of branches in use", "src/mini_allocator.c:mini_block_dec_ref")],
  observe_at=["splinterdb_iterator_*"])

M("C05", "Everything acknowledged survives a clean close and reopen",
  "After a close, opening the same file again gives a database whose contents are exactly those at the time of the close, for every history, including those with earlier reopens, and it can be written to and closed again any number of times. This also holds when settings that do not describe the file, such as the cache size or the number of background threads, are different at the next open.",
  ["histories", "configurations"],
  "all histories x all sequences of close and reopen x all valid configurations",
  "Tests reopen after short histories in one configuration; what is lost depends on which dirty pages, memtables and allocation records exist at the close.",
  ["src/splinterdb.c", "src/trunk.c", "src/rc_allocator.c", "src/clockcache.c"],
  [("unmount: flush memtables, write super block", "src/trunk.c:trunk_unmount, trunk_set_super_block"),
   ("allocation map persistence", "src/rc_allocator.c:rc_allocator_unmount, rc_allocator_mount"),
   ("write-back of dirty pages", "src/clockcache.c:clockcache_flush")],
  observe_at=["splinterdb_open", "splinterdb_close"])

M("C06", "After a crash a database is refused or opens in its last closed state",
  "If the process dies at any point, between or in the middle of any writes to the device, a later open either returns an error or gives exactly the contents of a moment at which the database was cleanly closed (or freshly created), namely the latest one completed before the crash or the one in progress. It never crashes, hangs, or serves a mixture, and a refused file can be created anew.",
  ["crash_points", "fault_sequences", "histories"],
  "every write to the device, in full or torn at any sector, during create, operation, close and reopen, as the last one before the process dies",
  "No test kills the process in the middle; there is one test outcome for each of thousands of write positions.",
  ["src/trunk.c", "src/rc_allocator.c", "src/splinterdb.c"],
  [("super block with the unmounted flag and checksum", "src/trunk.c:trunk_set_super_block, trunk_mount"),
   ("allocation map and its meta page", "src/rc_allocator.c:rc_allocator_mount")],
  observe_at=["splinterdb_open after a killed process"])

M("C07", "Space of overwritten and deleted data becomes usable again",
  "The device space in use is bounded by the live data and work in progress, however much was written, overwritten and deleted before: a workload whose live data fits comfortably can go on for ever without running out of space. The space held by discarded tables and filters is released exactly once, and a clean close and reopen neither loses nor resurrects space.",
  ["histories", "configurations"],
  "all histories of overwrites, deletes and reopens whose live data is bounded",
  "A leak of a few extents per compaction shows up only as exhaustion after volumes no test writes; a double release only as later corruption.",
  ["src/trunk.c", "src/mini_allocator.c", "src/rc_allocator.c", "src/routing_filter.c"],
  [("reference counts on branches by key range", "src/mini_allocator.c:mini_keyed_inc_ref, mini_keyed_dec_ref"),
   ("release of filters", "src/trunk.c:trunk_dec_filter"),
   ("extent reference counts", "src/rc_allocator.c:rc_allocator_dec_ref")],
  observe_at=["extents in use on quiescent databases"])

M("C08", "No memory error or undefined behaviour is reachable through the API",
  "No sequence of documented calls with valid arguments, from any number of registered threads, reads or writes outside live memory objects, uses freed memory, releases memory twice, or executes undefined behaviour. This covers keys and values of every permitted length, lookups into buffers of any size, iterators and reopening.",
  ["inputs", "histories", "schedules"],
  "all call sequences with valid arguments",
  "Such errors usually do not change the tested answer; they are visible only to instrumentation on paths that tests do not take.",
  ["src/btree.c", "src/trunk.c", "src/merge.c", "src/routing_filter.c", "src/splinterdb.c", "src/data_internal.h"],
  [("in-page entry layout arithmetic", "src/btree.c:btree_set_leaf_entry, btree_split_leaf"),
   ("per-thread scratch and variable length buffers", "src/data_internal.h:key_buffer, merge_accumulator")],
  observe_at=["AddressSanitizer, UndefinedBehaviorSanitizer"])

M("C09", "A page read returns what was last written to it, whatever is evicted",
  "For every page of the device, a reader sees exactly the contents that the last holder of its write lock left, no matter how often the page was evicted, written back by checkpointing or flushing, prefetched and read again, by whichever threads, and even when the working set is many times the cache. After a flush the device holds exactly those contents, and a newly allocated page, once written, never shows the contents of its previous owner.",
  ["schedules", "histories"],
  "all interleavings of readers, writers, evictions, write-back, prefetch and flush over all pages",
  "The cache test runs few fixed patterns on a cache larger than what it touches at a time and cannot see a page that went stale for a moment.",
  ["src/clockcache.c", "src/cache.h", "src/platform_linux/laio.c"],
  [("clock eviction and write-back", "src/clockcache.c:clockcache_evict_batch, clockcache_batch_start_writeback"),
   ("page load and lookup", "src/clockcache.c:clockcache_get_internal"),
   ("prefetch", "src/clockcache.c:clockcache_prefetch")],
  observe_at=["cache page get/claim/lock/unlock, cache_flush, device contents"])

M("C10", "Page locks exclude as promised",
  "While a thread holds a page's write lock no other thread holds any lock on that page; while a thread holds a page's claim no other thread obtains a claim; any number of readers share. A page that someone holds is neither evicted nor reused, a failed claim leaves the holder with its read lock, and every waiting thread gets its turn when the holders let go.",
  ["schedules"],
  "all interleavings of get, try-claim, lock, unlock, unclaim, unget and eviction by any number of threads",
  "A violated exclusion needs two threads inside a window of a few instructions and shows only if somebody watches who is inside.",
  ["src/clockcache.c", "src/cache.h"],
  [("distributed read counts and status bits", "src/clockcache.c:clockcache_get_read, clockcache_get_claim, clockcache_get_write"),
   ("eviction of unreferenced pages", "src/clockcache.c:clockcache_try_evict")],
  observe_at=["cache page get/claim/lock"])

M("C11", "Device requests never conflict and none is forgotten",
  "At no time are two requests to overlapping parts of the device in flight together if one of them is a write, the memory of a write is not modified until the write has completed, and at close no request is outstanding. Every request lies within the configured device size and is aligned to pages.",
  ["schedules", "histories"],
  "all workloads and schedules, with completions delayed arbitrarily and returned in any order",
  "A real device completes fast and mostly in order, so that tests never see what a conflicting or modified request would do.",
  ["src/clockcache.c", "src/platform_linux/laio.c"],
  [("write-back state machine", "src/clockcache.c:clockcache_batch_start_writeback, clockcache_write_callback"),
   ("asynchronous requests and completion", "src/platform_linux/laio.c:laio_write_async, laio_cleanup")],
  observe_at=["io_submit, io_getevents, pread, pwrite"])

M("C12", "The batch reader-writer lock excludes and makes progress",
  "For each index of the lock, write holders are alone, at most one thread has a claim, and readers share only with readers and a claimant, for every interleaving; indexes do not affect each other. Every request is eventually granted once the conflicting holders have released, and what a writer stored under the lock is visible to every later holder.",
  ["schedules"],
  "all interleavings of get, claim, lock and their releases by up to the maximum number of threads on any indexes",
  "There is no test of this lock; its users rarely contend in tests.",
  ["src/platform_linux/platform.c", "src/platform_linux/platform_types.h"],
  [("per-thread read counters with claim and write flags", "src/platform_linux/platform.c:platform_batch_rwlock_get, platform_batch_rwlock_lock")],
  observe_at=["lock entry and exit"])

M("C13", "A b-tree holds exactly what was inserted, however it was built",
  "A b-tree built by any number of threads inserting concurrently contains for each key exactly the merge of the messages inserted for it, and lookups and iterators over any range, in both directions and at any time, agree with that; a b-tree packed from a sorted stream contains exactly that stream, together with correct counts, sizes and fingerprints. Counting or estimating tuples in a range is consistent with the contents.",
  ["inputs", "schedules"],
  "all multisets of keys and messages of permitted sizes x all insertion interleavings x all ranges",
  "The stress test inserts uniform keys of one size; splits at the edges of pages depend on exact sizes and orders.",
  ["src/btree.c", "src/btree.h"],
  [("splits, defragmentation and optimistic concurrency of inserts", "src/btree.c:btree_insert, btree_split_leaf, btree_defragment_leaf"),
   ("packing", "src/btree.c:btree_pack"),
   ("range counts", "src/btree.c:btree_count_in_range")],
  observe_at=["btree_lookup, btree_iterator, btree_pack output"])

M("C14", "Filters never deny a key they were given",
  "After any sequence of additions of key sets under numbered values, a filter lookup of any added key includes the number it was last added under and thus never leads a query to skip a table that has the key. The rate of false positives stays near what the configured remainder size promises, and the reported number of unique keys is a close estimate.",
  ["inputs", "histories"],
  "all sets of keys x all sequences of additions x all filter sizes and configurations",
  "The filter test checks one set of integer keys for one configuration; false negatives depend on hash collisions and bucket boundaries.",
  ["src/routing_filter.c", "src/PackedArray.c"],
  [("building from an older filter and new fingerprints", "src/routing_filter.c:routing_filter_add"),
   ("lookup by quotient and remainder", "src/routing_filter.c:routing_filter_lookup")],
  observe_at=["routing_filter_lookup"])

M("C15", "Merging sorted runs obeys recency and message semantics",
  "Merging any number of sorted runs, older and newer, yields each key once, in order, in both directions, with the message that results from applying newer messages to older ones: newest insert or delete wins and updates are combined in order. In the final mode deletes vanish and updates become values; in the intermediate mode both are kept for older data; in the raw mode every message is passed on.",
  ["inputs"],
  "all numbers of runs, overlaps, orders and messages x all walks",
  "Tests exercise the merge only through whole-database runs of one pattern.",
  ["src/merge.c", "src/data_internal.h", "src/data_internal.c"],
  [("selection and equality folding", "src/merge.c:advance_one_loop, merge_resolve_equal_keys"),
   ("message composition", "src/data_internal.h:data_merge_tuples")],
  observe_at=["merge_iterator"])

M("C16", "The extent allocator never hands out an extent twice",
  "For every interleaving of allocation, reference taking and release, an extent is handed out only while nobody holds it, each extent's count equals the references taken minus those released, the number of extents in use is exact, and allocation fails only when no extent is free. The same counts are found again after the allocator was unmounted and mounted.",
  ["schedules", "histories"],
  "all interleavings of allocate, inc, dec by any number of threads, including on a nearly full device",
  "A double hand-out needs a race on one counter and shows only as corruption of unrelated data much later.",
  ["src/rc_allocator.c", "src/allocator.h"],
  [("reference counts by compare and swap", "src/rc_allocator.c:rc_allocator_alloc, rc_allocator_inc_ref, rc_allocator_dec_ref"),
   ("persistence", "src/rc_allocator.c:rc_allocator_unmount, rc_allocator_mount")],
  observe_at=["allocator_alloc, allocator_inc_ref, allocator_dec_ref, allocator_in_use"])

M("C17", "Grouped page allocation frees exactly the unreferenced ranges",
  "Pages handed out in a group are distinct, stay within extents owned by the group, and are found by walking it; with key ranges, an extent is released exactly when no reference covers any key range it serves, for every order of taking and dropping overlapping range references. While a reader blocks release, nothing it may read is released, and when the last reference goes everything is.",
  ["histories", "schedules"],
  "all sequences of allocation in several batches, range references, releases and blocks",
  "Whether an extent leaks or is freed too early depends on how range references overlap, which only varied compactions produce.",
  ["src/mini_allocator.c", "src/mini_allocator.h"],
  [("extent list with start keys", "src/mini_allocator.c:mini_alloc, mini_keyed_for_each"),
   ("range reference counts", "src/mini_allocator.c:mini_keyed_inc_ref, mini_keyed_dec_ref"),
   ("blocking", "src/mini_allocator.c:mini_block_dec_ref")],
  observe_at=["mini_alloc, mini_keyed_inc_ref, mini_keyed_dec_ref, allocator counts"])

M("C18", "Background tasks run exactly once and shutdown waits for them",
  "Every task that was accepted runs exactly once, on some registered thread with its own scratch space, before the system reports being quiescent or is torn down, whatever the number of background threads and whoever helps. Threads alive at the same time have distinct identifiers below the maximum, identifiers are reusable for ever, and registering more threads than the maximum is refused.",
  ["schedules"],
  "all interleavings of enqueueing, helping, quiescing, registering and deregistering threads",
  "A lost wake-up or a task run twice needs a precise schedule; tests run a handful.",
  ["src/task.c", "src/task.h"],
  [("queues and workers", "src/task.c:task_enqueue, task_worker_thread, task_perform_until_quiescent"),
   ("thread identifiers", "src/task.c:task_register_thread, task_allocate_threadid")],
  observe_at=["executed tasks, thread identifiers"])

M("C19", "The log returns every entry written to it",
  "After any number of threads wrote entries to a log and each has gone on to a further page, iterating over the log, from memory or from the device after a flush, returns exactly the entries on finished pages, each once with the same key and message, in the order of their generation numbers. Entries of each thread keep their order, iterating before that returns a prefix of each thread's entries, and dropping the log releases its space.",
  ["inputs", "schedules"],
  "all numbers of threads and entries of all permitted sizes",
  "The log test writes uniform entries; page boundaries and thread interleavings matter.",
  ["src/shard_log.c", "src/shard_log.h"],
  [("per-thread pages", "src/shard_log.c:shard_log_write"),
   ("sorting iterator", "src/shard_log.c:shard_log_iterator_init")],
  observe_at=["log_write, shard_log_iterator"])

M("C20", "Invalid arguments and configurations are refused without harm",
  "A configuration that cannot work, a key or value over its limit, or an open of a missing or foreign file is answered with an error instead of a crash, and leaves the open databases, the contents and the file as they were. Arguments at the limits themselves are accepted and work, and after a refusal the same call with valid arguments succeeds.",
  ["inputs", "configurations"],
  "all out-of-range and boundary arguments and configuration values",
  "Tests try a few invalid values; the boundary lies at a different place for each combination of settings.",
  ["src/splinterdb.c", "src/clockcache.c", "src/rc_allocator.c", "src/trunk.c"],
  [("configuration checks", "src/splinterdb.c:splinterdb_validate_app_data_config, splinterdb_init_config"),
   ("limits on keys and values", "src/trunk.c:trunk_insert, src/btree.c:btree_insert")],
  observe_at=["return codes of the public functions, contents afterwards"])

M("C21", "A failed device request is never passed off as data",
  "If the device fails to read or write, or transfers only a part of a request, the database may stop or return an error, but it never returns wrong or missing data as if the request had worked, and it never reports a clean close whose reopening gives different contents.",
  ["fault_sequences"],
  "every single read and write request as the one that fails, with an error or a short transfer",
  "Devices do not fail in tests.",
  ["src/platform_linux/laio.c", "src/clockcache.c", "src/rc_allocator.c", "src/trunk.c"],
  [("synchronous requests", "src/platform_linux/laio.c:laio_read, laio_write"),
   ("completion of asynchronous requests", "src/platform_linux/laio.c:laio_callback")],
  observe_at=["answers after an injected fault"])

M("C22", "The shared-memory allocator returns disjoint, intact fragments",
  "Memory fragments handed out from a shared segment lie inside it, are aligned to cache lines, never overlap another live fragment, and keep their contents until freed, for every interleaving of allocation, reallocation and freeing by any number of threads; a reallocated fragment keeps the contents that fit. A freed large fragment (of up to 128 tracked) serves a later request that fits it, and the most recently allocated small fragment is taken back when it is freed (other small fragments are, by design, not reused). The usage figures account for exactly the part of the segment handed out so far, and a request that does not fit is refused and changes nothing.",
  ["schedules", "histories"],
  "all interleavings of allocate, reallocate and free of all sizes",
  "The test allocates a few sizes from one thread and does not fill and check the fragments under contention.",
  ["src/platform_linux/shmem.c", "src/platform_linux/shmem.h"],
  [("bump allocation, free lists and large fragment tracking", "src/platform_linux/shmem.c:platform_shm_alloc, platform_shm_free, platform_shm_realloc")],
  observe_at=["fragment addresses, sizes and contents"])

M("C23", "Updates are combined exactly once, in order, through the user's callbacks",
  "The value of a key is the combination, oldest to newest, of the last insert and all later updates, each applied exactly once, however they are spread over memory and device and however often compactions combined parts of them. The combining callbacks are called only with the key concerned and with intact messages of the kinds they are documented for, and never see a deleted base.",
  ["histories", "inputs"],
  "all histories of updates mixed with inserts and deletes x all groupings by flushes and compactions",
  "Most tests never update; a reordered or doubly applied update is invisible with the usual overwriting or commutative operators.",
  ["src/data_internal.c", "src/merge.c", "src/btree.c", "src/trunk.c", "include/splinterdb/data.h"],
  [("combination in memtables", "src/btree.c:btree_create_leaf_incorporate_spec"),
   ("combination in merges", "src/merge.c:merge_resolve_equal_keys"),
   ("finalisation at lookup", "src/trunk.c:trunk_lookup, src/data_internal.c:data_merge_tuples_final")],
  observe_at=["merge callbacks, lookup and iterator values"])

M("C24", "Databases in one process are independent and leave nothing behind",
  "Several databases open in one process at the same time behave as if each were alone, in any interleaving of opening, closing and use by shared threads. Closing a database releases its threads, file handles, memory and thread identifiers, so that opening and closing can be repeated for ever.",
  ["histories", "schedules"],
  "all interleavings of creating, opening, using and closing several databases, any number of times",
  "Tests open one database at a time a few times; leaks and crosstalk need many.",
  ["src/splinterdb.c", "src/task.c", "src/platform_linux/platform.c", "src/platform_linux/laio.c"],
  [("construction and teardown", "src/splinterdb.c:splinterdb_create_or_open, splinterdb_close"),
   ("i/o contexts and handles", "src/platform_linux/laio.c:io_handle_init, io_handle_deinit")],
  observe_at=["answers of each database, process resources"])

M("C25", "Asynchronous point queries give the same answers as synchronous ones",
  "A query that is suspended for device reads and resumed any number of times, from a thread with any number of such queries in progress, ends with the same answer a synchronous lookup could have given between its start and end. Every suspended query is notified exactly once per suspension and completes.",
  ["schedules", "histories"],
  "all interleavings of queries in progress, completions, evictions and writers",
  "The functional test exercises them only in one mixed benchmark without an exact oracle.",
  ["src/trunk.c", "src/btree.c", "src/routing_filter.c", "src/clockcache.c"],
  [("suspendable query state machine", "src/trunk.c:trunk_lookup_async"),
   ("asynchronous page reads", "src/clockcache.c:clockcache_get_async")],
  observe_at=["trunk_lookup_async results and callbacks"])
