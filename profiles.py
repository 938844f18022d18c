"""What each check runs. Counts are episodes (one generated configuration and history each); see DESIGN.md."""

HIST = ("Each case is one episode: a configuration (key width 1-8, data width, page size, erase block, page counts, index/bitmaps/min-max/variable data/"
        "record-level consistency, spline or binary search) and a history of API calls, both drawn from (VERIF_SEED, case number); the real library runs on a "
        "simulated flash and every call is compared with a reference model. ")
PROFILES = {}


def P(pid, rule, ms, quick_s=240, level="exploration", need=None, deep_ms=None, extra=None, sizes=None, assumptions=None, variants=None, scale=0, **kw):
    """ms: CPU milliseconds of one quick episode; the numbers of episodes below are derived from it once, so a run is the same on any machine."""
    def phases(tier):
        quick = tier == "quick"
        total = (quick_s if quick else 4300) * 1000.0
        per = ms if quick else (deep_ms or ms * 3)
        out = []
        for v, share in (variants or ({"asan": 0.75, "dist": 0.25} if quick else {"asan": 0.6, "gcc": 0.25, "dist": 0.15})).items():
            n = max(24, int(total * share / per))
            out.append({"variant": v, "profile": pid, "episodes": n, "start": 10**6 * len(out), "chunk": max(1, min(400, n // (24 if quick else 64)))})
        if scale:  # histories with more pages than 16-bit numbers can count
            out.append({"variant": "asan", "profile": pid, "episodes": scale if quick else 20 * scale, "start": 9 * 10**6, "chunk": 1 if quick else 5, "hang": 600})
        return out + (extra(quick) if extra else [])
    PROFILES[pid] = {"level": level, "rule": rule, "phases": phases, "need": need or {}, "assumptions": assumptions or ASSUME, **kw}


ASSUME = ["the simulated flash behaves like the documented file interface (reads return the last write, erase covers whole blocks)",
          "the reference model of the harness is right", "a violation outside the generated configurations and histories is not seen"]
MODEL = ["gets", "queries"]

P("C01", HIST + "Lookups go to stored, buffered, absent, boundary and reclaimed keys. Non-trivial: both present and absent keys were looked up.", 4, scale=8, need={"episodes_hundreds_of_pages": 10, "episodes_oldest_page_beyond_65536": 1, "episodes_beyond_65536_pages": 4, "gets_found": 5000, "gets_absent": 2000, "gets_reclaimed": 100})
P("C02", HIST + "Key ranges (open, closed, point, empty, beyond either end) are iterated and compared record by record. Non-trivial: a non-empty range was compared.", 7.5, scale=8, need={"episodes_hundreds_of_pages": 10, "episodes_oldest_page_beyond_65536": 1, "episodes_beyond_65536_pages": 4, "queries_nonempty": 2000, "queries_empty": 200})
P("C03", HIST + "Data-bounded (and key-bounded) iterations under every bitmap function and size, with and without the index. Non-trivial: a filtered query returned records.", 5.5, scale=8, need={"episodes_hundreds_of_pages": 10, "episodes_oldest_page_beyond_65536": 1, "episodes_beyond_65536_index_pages": 1, "episodes_beyond_65536_pages": 4, "queries_nonempty": 2000, "index_page_writes": 100, "episodes_index": 50})
P("C04", HIST + "Out-of-order and equal keys are offered in every buffer state, followed by full comparisons. Non-trivial: a put was refused.", 7.5, scale=8, need={"episodes_oldest_page_beyond_65536": 1, "episodes_beyond_65536_pages": 4, "rejected_puts": 2000})
P("C05", HIST + "Histories several times the storage capacity; the set of readable records is compared with the block-exact model. Non-trivial: data storage wrapped.", 8.5, scale=8, need={"episodes_hundreds_of_pages": 10, "episodes_oldest_page_beyond_65536": 1, "episodes_beyond_65536_pages": 4, "episodes_data_wrapped": 100, "gets_reclaimed": 200})
P("C06", HIST + "The storage monitor checks every page address, erase range and rewrite of every call, also during recovery from reconstructed crash images. Non-trivial: pages were written and monitored.", 42, scale=8, need={"episodes_oldest_page_beyond_65536": 1, "crashes_beyond_65536_pages": 4, "episodes_beyond_65536_pages": 4, "index_page_writes": 100, "crash_points": 500}, deep_ms=150)
P("C07", HIST + "The database is closed and reopened at arbitrary points, contents compared, and the history continued. Non-trivial: a reopen was compared.", 8, scale=8, need={"episodes_hundreds_of_pages": 10, "episodes_oldest_page_beyond_65536": 1, "episodes_beyond_65536_pages": 4, "reopens": 1000})
CR = HIST + "The history's storage mutations are logged and storage is reconstructed after each of them (every one, or a sample for long histories); the real recovery runs on each image, everything recovered is compared with what was acknowledged, some images are then continued and crashed again. Non-trivial: a crash image was audited."
P("C08", CR, 115, level="fault_enumeration", scale=8, need={"episodes_oldest_page_beyond_65536": 1, "episodes_beyond_65536_pages": 4, "crashes_beyond_65536_pages": 4, "crash_points": 5000, "histories_with_every_crash_point": 20}, deep_ms=1300)
P("C09", CR + " Record-level consistency is on.", 112, level="fault_enumeration", scale=8, need={"episodes_oldest_page_beyond_65536": 1, "episodes_beyond_65536_pages": 4, "crashes_beyond_65536_pages": 4, "crash_points": 5000, "histories_with_every_crash_point": 10}, deep_ms=1500)
P("C12", CR + " Variable data is on.", 172, level="fault_enumeration", scale=8, need={"episodes_oldest_page_beyond_65536": 1, "episodes_beyond_65536_pages": 4, "crashes_beyond_65536_pages": 4, "crash_points": 5000, "var_values_verified": 5000, "histories_with_every_crash_point": 10}, deep_ms=1700)
P("C10", HIST + "Values of every length relative to the page are stored and read back in random chunks through lookups and iterators. Non-trivial: a value was read back.", 11, scale=8, need={"episodes_oldest_page_beyond_65536": 1, "episodes_beyond_65536_pages": 4, "var_values_verified": 5000, "stream_chunks": 20000, "values_over_65535_bytes": 100, "values_larger_than_storage": 100})
P("C11", HIST + "Variable storage wraps many times; every retained record's value must be exact or reported deleted, per the page-exact model. Non-trivial: a deleted value was reported.", 12, scale=8, need={"episodes_oldest_page_beyond_65536": 1, "episodes_beyond_65536_pages": 4, "var_reported_deleted": 2000, "episodes_var_wrapped": 50})
P("C13", HIST + "Restarts and reconstructed crash images with the index on, followed by data-bounded iterations. Non-trivial: an index was recovered and queried.", 38, level="fault_enumeration", scale=8, need={"episodes_oldest_page_beyond_65536": 1, "episodes_beyond_65536_index_pages": 1, "crashes_beyond_65536_pages": 4, "episodes_beyond_65536_pages": 4, "index_page_writes": 200, "reopens": 300, "crash_points": 500}, deep_ms=140)
P("C14", "Each case builds a spline over a generated key sequence (widths 1-8, dense/skewed/gapped/extreme), looks up stored, absent and boundary keys, drops old points, and checks interval, estimate and memory against the page array. Non-trivial: lookups were checked.", 1.1, need={"lookups": 100000, "erases": 500})
Q = "Each case builds one or two databases and a few hundred random operator chains over them, executes them (to the end, partially, or not at all) and compares every row and schema with a direct evaluation of the same chain over the model. "
P("C15", Q + "Non-trivial: rows were compared.", 4, scale=8, need={"tables_beyond_65536_rows": 3, "rows_compared": 20000, "op_selection": 2000, "op_projection": 2000, "op_custom": 500})
P("C16", Q + "Chains with aggregates over crafted group structures and extreme values. Non-trivial: groups were compared.", 4.5, scale=8, need={"tables_beyond_65536_rows": 3, "groups_expected": 10000, "agg_avg": 500, "agg_digest": 500, "agg_sum_signed": 200})
P("C17", Q + "Chains with joins over every overlap. Non-trivial: joins were compared.", 7.2, scale=8, need={"tables_beyond_65536_rows": 3, "joins_nonempty": 500, "joins_empty": 500, "join_pairs_expected": 5000})
P("C18", Q + "All allocations of the library are tracked; each chain, iterator, stream, schema and database must give back every one exactly once. AddressSanitizer and LeakSanitizer-style accounting decide. Non-trivial: something was built and released.", 7, need={"chains_closed_early": 200, "chains_run_to_end": 500, "schemas_refused": 50})
P("C19", HIST + "All workload families (database, operators, splines, helpers) under AddressSanitizer and UndefinedBehaviorSanitizer (clang and gcc) with exactly sized, sometimes unaligned buffers, plus valgrind memcheck. Non-trivial: the library was exercised.", 4.6,
  variants={"asan": 0.5, "gcc": 0.3, "dist": 0.2}, extra=lambda q: [{"variant": "plain", "profile": "C19", "episodes": 120 if q else 2400, "chunk": 10, "wrap": "memcheck", "start": 5 * 10**6, "hang": 600}], need={"puts": 20000, "exec_calls": 2000, "lookups": 5000, "example_runs": 4})
P("C20", HIST + "Single faults and bursts are injected at chosen reads, writes, erases, opens and flushes (also every position in short histories); results during the fault and full contents afterwards are compared. Non-trivial: a fault fired.", 25, level="fault_enumeration", need={"rare_calls_failed": 100, "faults_fired": 1500, "puts_failed_by_fault": 500, "inits_failed_by_fault": 300, "recoveries_failed_by_fault": 300}, deep_ms=90)
P("C21", "Each case takes a valid configuration on or near the limits, breaks it in each documented way, checks that it is refused with nothing left open or allocated, and runs a workload on the allowed ones. Page buffers are exactly as large as configured. Non-trivial: refused and accepted configurations were seen.", 1.6, need={"invalid_configurations": 1000, "valid_configurations": 1000})
P("C22", HIST + "Several databases are driven call by call in random interleavings, or in parallel threads under ThreadSanitizer where each thread's outcome must equal that of the same workload alone. Non-trivial: several databases were used.", 31, quick_s=75,
  extra=lambda q: [{"variant": "tsan", "profile": "C22T", "episodes": 480 if q else 12000, "chunk": 20 if q else 100, "racy": True}], need={"databases_interleaved": 300, "threads_run": 300}, deep_ms=60)
P("C23", HIST + "Many iterators and streams stay open while lookups, puts, flushes and wraparound go on; each reader is compared step by step. Non-trivial: interleaved readers made steps.", 9, need={"iterator_steps": 50000, "iterators_opened": 1500, "stream_steps": 200})
P("C24", HIST + "After every call the counters are compared with the calls the simulated flash received. Non-trivial: counters were compared.", 6, scale=8, need={"episodes_oldest_page_beyond_65536": 1, "episodes_beyond_65536_pages": 4, "stat_checks": 50000})
P("C25", "Each case runs one workload of another property on the modular sources, the checked-in distribution and a distribution regenerated by the repository's script (on a copy), and compares digests of every return value, record, stream, row and storage image. Non-trivial: the workload ran to its end.", 22, variants=None, compare=True, need={"workloads_compared": 1500})
P("C26", "Each case takes a bitmap family or the comparators and checks random, boundary and (thorough) exhaustive slices of values and ranges. Non-trivial: values inside ranges were tested.", 2.2, need={"ranges_exact": 20000, "values_inside_range": 200000, "values_updated": 200000, "comparisons": 200000}, deep_ms=110)
P("C27", "Each case drives one file interface (desktop on real files, desktop with simulated erase, SD and its wrapper on a stand-in card, dataflash on a stand-in chip) with random calls on several files, healthy and failing, against a page-store model; every fourth case runs a database on it, compared call by call with the simulated flash. Non-trivial: pages were compared.", 3.6, variants={"asan": 1.0}, quick_s=90, need={"pages_compared": 50000, "failed_writes": 100, "second_openers": 500, "flushed_images": 200, "database_workloads": 100, "refused": 1000},
  assumptions=["the SdFat and dataflash stand-ins behave as documented by those libraries"])
P("C28", HIST + "Each history runs three times with different prior contents of state structure, buffer, outputs and heap and must give identical answers, storage and statistics; further cases run under valgrind memcheck. Non-trivial: the runs were compared.", 19, quick_s=95,
  extra=lambda q: [{"variant": "plain", "profile": "C28", "episodes": 96 if q else 1500, "chunk": 8, "wrap": "memcheck", "start": 5 * 10**6, "hang": 600}], need={"puts": 20000})
P("C29", HIST + "Each history runs under five search tunings and must give identical answers and storage. Non-trivial: the tunings were compared.", 36, scale=8, need={"episodes_hundreds_of_pages": 10, "episodes_oldest_page_beyond_65536": 1, "episodes_beyond_65536_pages": 4, "tuning_variants": 3000})
P("C30", HIST + "Every page write is decoded and compared with the records the model says it holds. Non-trivial: pages were checked.", 16.5, scale=8, need={"episodes_oldest_page_beyond_65536": 1, "episodes_beyond_65536_pages": 4, "pages_checked": 5000, "index_entries_checked": 2000})
P("C31", HIST + "A previous database (abandoned anywhere, also crashed) is reset and a second history with restarts follows; nothing old may appear. Non-trivial: the reset was audited.", 9, scale=8, need={"episodes_oldest_page_beyond_65536": 1, "episodes_beyond_65536_pages": 4, "old_records": 5000, "reopens": 500})

P("C33", HIST + "The pages every call reads and writes are logged at the file interface and compared with what the spline interval, the index entries on storage, the write buffer and the model allow. Non-trivial: costs were compared.", 7, scale=8, need={"episodes_hundreds_of_pages": 10, "episodes_oldest_page_beyond_65536": 1, "episodes_beyond_65536_index_pages": 1, "episodes_beyond_65536_pages": 4, "lookup_costs": 100000, "query_costs": 20000, "write_costs": 100000, "pages_skipped_by_index": 5000, "queries_started_by_spline": 2000, "queries_stopped_early": 5000, "repeated_lookups": 10000, "spline_lookups_covered": 20000, "binary_searches_over_2_pages": 5000})
P("C32", HIST + "Storage is taken to lose everything not yet flushed, each file on its own: after sampled mutations and flush events images are built that keep a prefix of each file's unflushed mutations, and recovered by the real code. After each acknowledged flush or durable put no file may hold unflushed pages. Every fourth history injects failing flushes. Non-trivial: crash images were audited or a fault fired.", 55, level="fault_enumeration", scale=8, need={"episodes_oldest_page_beyond_65536": 1, "episodes_beyond_65536_pages": 4, "crashes_beyond_65536_pages": 4, "crash_points": 3000, "crashes_losing_unflushed_pages": 1000, "crashes_with_index_ahead_of_data": 200, "durability_checks": 3000, "flushes_failed_by_fault": 20}, deep_ms=190)


def _c25(tier):
    n = 900 if tier == "quick" else 36000
    return [{"variant": v, "profile": "C25", "episodes": n, "chunk": 15 if tier == "quick" else 150} for v in ("asan", "dist", "regen")]


PROFILES["C25"]["phases"] = _c25
