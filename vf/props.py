"""The checks: for each property, the jobs to run and how coverage is counted."""

SEQ_RULE = ("each run draws a configuration (key universe, comparator, value sizes, memtable/cache/"
            "fanout/filter sizes, background threads, shared memory, log, emulated or real async "
            "device) and a long operation history from the seed; a case is one observed answer "
            "compared with the reference model; distinct = distinct (database state digest) or "
            "(iterator path signature, end position) pairs seen by the monitor")

PROPS = {}


def P(id, **kw):
    PROPS[id] = kw


def J(name, variant, harness, args, quick, thorough=None, **kw):
    d = dict(name=name, variant=variant, harness=harness, args=[str(a) for a in args], quick=quick)
    if thorough is not None:
        d["thorough"] = thorough
    d.update(kw)
    return d


P("C01",
  technique="runtime monitor: reference-model oracle over every lookup of random histories",
  level_note="Held on the sampled histories and configurations; the oracle is exact (self-describing values), trusts the harness model and libc.",
  jobs=[J("point-rel", "rel", "h_seq", ["--focus", "point", "--ops", 60000], 60, 800, base=1),
        J("point-dbg", "dbg", "h_seq", ["--focus", "point", "--ops", 40000], 24, 400, base=2),
        J("point-deep", "rel", "h_seq", ["--focus", "point", "--ops", 400000, "--keys", 60000, "--maxpad", 600], 20, 300, base=7),
        J("point-deep-dbg", "dbg", "h_seq", ["--focus", "point", "--ops", 200000, "--keys", 30000, "--maxpad", 1000], 8, 100, base=8)],
  eval_stats=["lookups"], must_observe=["lookups_present", "lookups_absent", "reopens"],
  rule=SEQ_RULE)

P("C02",
  technique="runtime monitor: reference-model oracle over every iterator position of random walks",
  level_note="Held on the sampled walks; positions in both directions, seeks and end-of-range behaviour are compared exactly.",
  jobs=[J("scan-rel", "rel", "h_seq", ["--focus", "scan", "--ops", 50000], 56, 700, base=3),
        J("scan-dbg", "dbg", "h_seq", ["--focus", "scan", "--ops", 30000], 24, 300, base=4),
        J("scan-deep", "rel", "h_seq", ["--focus", "scan", "--ops", 300000, "--keys", 60000, "--maxpad", 600, "--iterevery", 3000], 16, 300, base=9)],
  eval_stats=["iterator_steps"], must_observe=["iterators", "iterator_steps"],
  rule=SEQ_RULE)

P("C05",
  technique="runtime monitor: full-content oracle after every clean close and reopen",
  level_note="Held on the sampled histories; each reopen compares every key and a full scan against the model.",
  jobs=[J("reopen-rel", "rel", "h_seq", ["--focus", "reopen", "--ops", 50000], 56, 700, base=5),
        J("reopen-dbg", "dbg", "h_seq", ["--focus", "reopen", "--ops", 30000], 20, 300, base=6),
        J("reopen-deep", "rel", "h_seq", ["--focus", "reopen", "--ops", 250000, "--keys", 40000, "--maxpad", 600], 16, 300, base=10)],
  eval_stats=["lookups", "reopens"], must_observe=["reopens"],
  rule=SEQ_RULE)

CONC_RULE = ("each run draws a configuration, thread counts, key distribution, schedule perturbation "
             "(delays at atomics and function entries) and device behaviour (real or emulated with "
             "random completion delays) from the seed; a case is one answer observed while writers run; "
             "distinct = distinct recorded operation histories or observed (version window, answer) signatures")

P("C03",
  technique="runtime monitor: online single-writer linearizability oracle and offline search for a linearization of recorded histories",
  level_note="Held on the sampled, perturbed schedules; the histories' linearizability is decided exactly by a Wing-Gong search per key.",
  jobs=[J("owner-rel", "rel", "h_conc", ["--mode", "owner"], 45, 900, base=21),
        J("wgl-rel", "rel", "h_conc", ["--mode", "wgl"], 50, 900, base=22),
        J("slow-rel", "rel", "h_conc", ["--mode", "owner", "--slow", 1, "--secs", 3, "--ops", 60000], 32, 600, base=27),
        J("owner-dbg", "dbg", "h_conc", ["--mode", "owner"], 30, 400, base=23),
        J("wgl-dbg", "dbg", "h_conc", ["--mode", "wgl"], 30, 400, base=24)],
  eval_stats=["concurrent_lookups", "history_ops"],
  must_observe=["lookups_racing_a_write", "concurrent_pairs"],
  rule=CONC_RULE)

P("C04",
  technique="runtime monitor: version-window oracle over every position of iterators racing writers",
  level_note="Held on the sampled, perturbed schedules; order, duplicates, skipped keys and staleness are judged per position.",
  jobs=[J("iter-rel", "rel", "h_conc", ["--mode", "iter"], 160, 1600, base=25),
        J("iter-dbg", "dbg", "h_conc", ["--mode", "iter"], 60, 600, base=26)],
  eval_stats=["iterator_keys_checked"],
  must_observe=["concurrent_iterators", "iterator_keys_checked"],
  rule=CONC_RULE)

P("C08",
  technique="AddressSanitizer and UndefinedBehaviorSanitizer under random API histories and concurrent workloads",
  level_note="Sanitizers see every access of the executions run; intra-page overruns inside one cache page are visible only through the answers, which are checked too.",
  jobs=[J("seq-asan", "asan", "h_seq", ["--focus", "point", "--ops", 30000], 30, 400, base=31),
        J("scan-asan", "asan", "h_seq", ["--focus", "scan", "--ops", 15000], 16, 200, base=32),
        J("reopen-asan", "asan", "h_seq", ["--focus", "reopen", "--ops", 15000], 12, 200, base=33),
        J("iter-asan", "asan", "h_conc", ["--mode", "iter"], 24, 300, base=34),
        J("wgl-asan", "asan", "h_conc", ["--mode", "wgl"], 16, 200, base=35)],
  eval_stats=["lookups", "iterator_steps", "inserts", "updates", "deletes", "reopens", "acked_writes", "concurrent_lookups", "history_ops"],
  must_observe=["lookups", "iterator_steps", "reopens", "concurrent_iterators", "history_ops"],
  rule="a case is one API call executed with every memory access and arithmetic operation of the library instrumented; " + SEQ_RULE)

P("C11",
  technique="runtime monitor on the device interface: overlap, buffer-stability, bounds and outstanding-request oracles over emulated asynchronous I/O",
  level_note="Every request of the executions is judged; completions are delayed and reordered at random.",
  jobs=[J("seq-dev", "rel", "h_seq", ["--focus", "reopen", "--ops", 40000, "--devmon", 1], 40, 500, base=41),
        J("conc-dev", "rel", "h_conc", ["--mode", "iter", "--devmon", 1], 60, 700, base=42),
        J("conc-dev-dbg", "dbg", "h_conc", ["--mode", "owner", "--devmon", 1], 30, 300, base=43),
        J("cache-dev", "rel", "h_cache", ["--mode", "content"], 40, 600, base=44, tiny_cache=True)],
  eval_stats=["dev_async_submits", "dev_writes", "dev_reads"], must_observe=["device_async_requests", "device_inflight"],
  rule=CONC_RULE)

P("C23",
  technique="runtime monitor: order-sensitive merge algebra with callback-contract checks and exact value oracle",
  level_note="Values are hashes over the exact sequence of operations, so a lost, doubled or reordered update changes the answer.",
  jobs=[J("merge-rel", "rel", "h_seq", ["--focus", "point", "--ops", 60000, "--merge", 1], 40, 500, base=51),
        J("merge-scan", "rel", "h_seq", ["--focus", "scan", "--ops", 40000, "--merge", 1], 20, 300, base=52),
        J("merge-dbg", "dbg", "h_seq", ["--focus", "point", "--ops", 30000, "--merge", 1], 16, 200, base=53),
        J("merge-conc", "rel", "h_conc", ["--mode", "wgl"], 20, 300, base=54)],
  eval_stats=["merge_callbacks", "final_merge_callbacks", "lookups", "iterator_steps", "history_ops"],
  must_observe=["merge_callbacks", "final_merge_callbacks", "updates"],
  rule=SEQ_RULE)

P("C06",
  technique="crash-point injection at device writes (whole, torn, lost) with a state oracle after reopening",
  level="fault_enumeration",
  level_note="Process-crash model: writes that completed are on the device, the last one in full, in part or not at all; volatile device caches (power loss) are not modelled because the system never flushes them.",
  jobs=[J("crash", "rel", "h_crash", ["--points", 24], 72, 900, base=61)],
  eval_stats=["crash_points"],
  must_observe=["opens_refused", "accepted_with_contents_of_previous_close", "accepted_with_contents_of_close_in_progress", "torn_crash_points"],
  rule="each run scripts a life of create/open, operations, close (up to 3 epochs) and kills it at device writes chosen from opening, closing (densely) and operation; a case is one crash point followed by an open in a new process; distinct = distinct (epoch, phase, write number, bytes of it that reached the device)")

P("C07",
  technique="runtime monitor: space-in-use audits of quiescent databases over long overwrite/delete histories, conservation audit at destruction",
  level_note="Held on the sampled histories; the bound is the live data times a constant, and everything must be released when the trees are destroyed.",
  jobs=[J("space", "rel", "h_space", [], 48, 600, base=71),
        J("space-dbg", "dbg", "h_space", [], 16, 200, base=72),
        J("space-long", "rel", "h_space", ["--ops", 30000], 12, 200, base=73)],
  eval_stats=["usage_audits", "conservation_audits"], must_observe=["usage_audits", "conservation_audits", "reopens", "extents_released_by_destroy"],
  rule="each run draws a configuration and phases of inserts, overwrites, updates and deletes over bounded live data; a case is one audit of the extents in use against the live data, or the audit that destroying the database releases every extent; distinct = distinct (configuration, phase) usage figures")

CACHE_RULE = ("each run draws cache size, threads, page sets, device delays and schedule perturbation from the seed and mixes "
              "gets (blocking, non-blocking, asynchronous), claims, writes, prefetches, pins, syncs, flushes, evictions and extent "
              "recycling; a case is one page read or written under the monitor; distinct = distinct (page kind, previous state, event) signatures")

P("C09",
  technique="runtime monitor: version oracle on every page read, device comparison after flushes, over a cache far smaller than its working set",
  level_note="Every page carries its identity, version and a checksum; a stale, torn or foreign page differs from what the last writer left.",
  jobs=[J("content", "rel", "h_cache", ["--mode", "content"], 48, 800, base=81, tiny_cache=True),
        J("content-dbg", "dbg", "h_cache", ["--mode", "content"], 24, 300, base=82, tiny_cache=True),
        J("content-asan", "asan", "h_cache", ["--mode", "content"], 16, 200, base=83, tiny_cache=True)],
  eval_stats=["page_reads", "page_writes", "pages_compared_on_device"],
  must_observe=["page_reads", "page_writes", "async_reads", "extents_recycled", "prefetches", "pages_compared_on_device", "page_syncs", "extent_syncs"],
  rule=CACHE_RULE)

P("C10",
  technique="runtime monitor: ownership counters checked inside every read, claim and write section of cache pages under perturbed schedules",
  level_note="Held on the sampled, perturbed schedules; the monitor counts who is inside each page's sections.",
  jobs=[J("locks", "rel", "h_cache", ["--mode", "locks"], 160, 800, base=84, tiny_cache=True),
        J("locks-dbg", "dbg", "h_cache", ["--mode", "locks"], 60, 300, base=85, tiny_cache=True)],
  eval_stats=["page_reads", "page_writes"],
  must_observe=["page_reads", "page_writes", "claims_refused", "writers_that_waited", "nonblocking_refused"],
  rule=CACHE_RULE)

P("C19",
  technique="runtime monitor: exact oracle over every log iteration, under cache pressure, eviction and reloading from the device",
  level_note="Held on the sampled runs; each returned entry is matched with what was written.",
  jobs=[J("log", "rel", "h_log", [], 64, 1000, base=91, tiny_cache=True),
        J("log-dbg", "dbg", "h_log", [], 32, 400, base=92, tiny_cache=True),
        J("log-asan", "asan", "h_log", [], 16, 200, base=93, tiny_cache=True)],
  eval_stats=["log_entries_returned"],
  must_observe=["log_entries_returned", "logs_read_while_unfinished", "logs_read_after_eviction", "logs_read_in_new_cache", "cache_pressure_gets"],
  rule="each run draws threads, entry sizes, generation strides and cache pressure from the seed; a case is one entry returned by a log iterator and compared with what was written; distinct = distinct (entries, completeness, run) iterations")

P("C16",
  technique="runtime monitor: owner table and reference-count model over concurrent allocation histories, refusal oracle, audits before and after mount",
  level_note="Held on the sampled, perturbed schedules; a double hand-out or wrong count is seen exactly, a refusal is judged against extents free throughout the call.",
  jobs=[J("alloc", "rel", "h_alloc", [], 300, 4000, base=101),
        J("alloc-dbg", "dbg", "h_alloc", [], 100, 1000, base=102)],
  eval_stats=["allocations", "references_taken", "references_dropped", "refusals_checked", "count_audits"],
  must_observe=["allocations", "refusals_checked", "references_passed_between_threads", "extents_freed", "mounts", "root_id_changes"],
  rule="each run draws device size, fill level, threads and schedule perturbation from the seed; a case is one allocation, reference change or audit judged by the model; distinct = distinct count maps at audits")

P("C12",
  technique="runtime monitor: ownership counters and a happens-before witness inside every section of the lock, under perturbed schedules; watchdog for progress",
  level_note="Held on the sampled, perturbed schedules (x86 hardware memory order); lost wake-ups show as a watchdog time-out.",
  jobs=[J("rwlock", "rel", "h_rwlock", [], 240, 3000, base=111),
        J("rwlock-dbg", "dbg", "h_rwlock", [], 80, 800, base=112)],
  eval_stats=["reads", "claims", "writes", "nested_holds"],
  must_observe=["reads", "claims", "claims_refused", "writes", "reads_shared", "reads_beside_a_claimant", "writers_that_met_readers"],
  rule="each run draws threads, indexes used, hold times and schedule perturbation from the seed; a case is one section of the lock entered under the monitor; distinct = distinct (run, index, value after the last writer) at the end of runs")

P("C17",
  technique="runtime monitor: range-reference model, per-extent count oracle and content witness over concurrent groups",
  level_note="Held on the sampled histories and schedules; extents released are compared with the model after every step.",
  jobs=[J("mini", "rel", "h_mini", [], 120, 2000, base=121),
        J("mini-dbg", "dbg", "h_mini", [], 48, 600, base=122),
        J("mini-asan", "asan", "h_mini", [], 24, 300, base=123)],
  eval_stats=["pages_allocated", "range_references_taken", "range_references_dropped", "extent_counts_compared", "referenced_pages_read"],
  must_observe=["groups_released", "release_blocks", "referenced_pages_read", "extent_counts_compared", "groups_reloaded", "group_references"],
  rule="each run draws groups, batches, key ranges, threads and schedule perturbation from the seed; a case is one page handed out, one range reference taken or dropped, or one extent count compared with the model; distinct = distinct extent count vectors")

P("C14",
  technique="runtime monitor: exact membership oracle per number, false-positive and estimate bounds, over synchronous and asynchronous lookups under cache pressure",
  level_note="Held on the sampled key sets; membership is exact, the rates are judged against the binomial expectation with a margin of 7 sigma.",
  jobs=[J("filter", "rel", "h_filter", [], 300, 3000, base=131, tiny_cache=True),
        J("filter-deep", "rel", "h_filter", ["--keys", 150000], 24, 300, base=132, tiny_cache=True),
        J("filter-dbg", "dbg", "h_filter", [], 60, 600, base=133, tiny_cache=True),
        J("filter-asan", "asan", "h_filter", [], 40, 300, base=134, tiny_cache=True)],
  eval_stats=["lookups_of_added_keys", "lookups_of_absent_keys", "async_lookups", "estimates_compared"],
  must_observe=["lookups_of_added_keys", "lookups_of_absent_keys", "async_suspensions", "filters_that_grew", "estimates_over_filters", "filters_dropped"],
  rule="each run draws fingerprint and index size, key sets, numbers and threads from the seed; a case is one lookup or estimate compared with the monitor's own sets; distinct = distinct (fingerprints, number, unique fingerprints) filters built")


P("C13",
  technique="runtime monitor: exact multiset oracle over lookups, walks, counts and packed copies of b-trees built concurrently under perturbed schedules",
  level_note="Held on the sampled key sets, sizes and perturbed schedules; contents are compared exactly, walks during insertions against what was surely there.",
  jobs=[J("btree", "rel", "h_btree", [], 900, 6000, base=171),
        J("btree-dbg", "dbg", "h_btree", [], 240, 1500, base=172),
        J("btree-asan", "asan", "h_btree", [], 100, 600, base=173)],
  eval_stats=["lookups", "iterator_steps", "tuples_packed", "range_counts", "asynchronous_lookups"],
  must_observe=["insertions", "updates_of_shared_keys", "walks_during_insertions", "changes_of_direction",
                "trees_packed", "trees_packed_from_merges", "packs_over_the_limit", "range_counts", "suspensions"],
  rule="each run draws key and message sizes, orders of insertion, threads and schedule perturbation from the seed; a case is one answer, iterator position, packed tuple or count compared with the monitor's own contents; distinct = distinct tree shapes seen")

P("C15",
  technique="runtime monitor: exact reference merge compared at every position of random walks, with checking callbacks",
  level_note="Held on the sampled runs and walks; every position is compared exactly.",
  jobs=[J("merge", "rel", "h_merge", [], 700, 4000, base=161),
        J("merge-dbg", "dbg", "h_merge", [], 200, 800, base=162),
        J("merge-asan", "asan", "h_merge", [], 120, 600, base=163)],
  eval_stats=["items_compared", "raw_items_compared"],
  must_observe=["items_compared", "raw_items_compared", "changes_of_direction", "keys_with_several_messages",
                "deletes_dropped", "updates_finalised", "updates_that_remove", "positions_past_the_ends"],
  rule="each run draws numbers of runs, key sets, messages and walks from the seed; a case is one position compared with the reference merge; distinct = distinct (mode, shape of the merge, walk) combinations")

P("C18",
  technique="runtime monitor: exactly-once ledger of tasks, identifier ownership table and watchdog under perturbed schedules",
  level_note="Held on the sampled, perturbed schedules; a task that runs twice, never or after quiescence is seen exactly.",
  jobs=[J("task", "rel", "h_task", [], 80, 1200, base=151),
        J("task-dbg", "dbg", "h_task", [], 24, 300, base=152),
        J("task-asan", "asan", "h_task", [], 12, 150, base=153)],
  eval_stats=["tasks", "registrations", "quiescence_under_load"],
  must_observe=["tasks", "tasks_enqueued_by_tasks", "tasks_run_in_background", "tasks_run_by_helpers",
                "registrations", "registrations_refused_when_full", "quiescence_under_load", "all_identifiers_in_use"],
  rule="each run draws threads, background threads, groups, task trees and schedule perturbation from the seed; a case is one task accounted for, registration or report of quiescence judged; distinct = distinct cycles (tasks, helpers, background share)")

P("C22",
  technique="runtime monitor: interval map of live fragments with patterned contents, usage and refusal oracles, under perturbed schedules",
  level_note="Held on the sampled histories and perturbed schedules; overlap and damage are seen exactly.",
  jobs=[J("shmem", "rel", "h_shmem", [], 72, 1000, base=141),
        J("shmem-dbg", "dbg", "h_shmem", [], 24, 300, base=142)],
  eval_stats=["fragments", "frees", "reallocations_larger", "reallocations_smaller", "requests_refused", "usage_audits"],
  must_observe=["fragments", "large_fragments", "frees", "reallocations_larger", "reallocations_smaller", "requests_refused",
                "fragments_passed_between_threads", "usage_audits", "large_fragments_recycled_at_rest"],
  rule="each run draws segment size, sizes, threads and schedule perturbation from the seed; a case is one allocation, free, reallocation, refusal or audit judged by the interval map; distinct = distinct usage figures at audits")
