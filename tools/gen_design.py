import json, glob, os, re, sys
sys.path.insert(0, "/verif/tools"); sys.path.insert(0, "/verif")
V = "/verif"
rows = {
"C01": ("every get (present, buffered, absent, between, beyond, reclaimed) vs the model of accepted and reclaimed records", "keys 1–8 bytes incl. both sides of 2^63, ≤ ~1000 records per history, 8 histories beyond 65536 pages", "any geometry × buffer state × search mode"),
"C02": ("every iterator's complete output vs the model's range", "open/closed/point/empty/beyond ranges; pages with >255 records", "range ends fall on every page/estimate relation"),
"C03": ("every filtered iterator vs the model's filter; index pages decoded", "5 bitmap families, 1–8 bytes; early flushes; wrapped index", "an index may only be wrong for a rare page/bucket combination"),
"C04": ("verdict of each put vs max accepted key; full comparison after a refusal", "all buffer states, after flush/reopen/wrap", "the comparison key lies in a different place in each state"),
"C05": ("readable set vs block-exact reclamation model after each wrap", "up to ~10 storage turns; >65536 pages", "off-by-one in reclamation needs exact wrap positions"),
"C06": ("each read/write/erase at the interface: file, range, alignment, write-once, no read of erased pages by queries; also during recovery of crash images", "all geometries", "violations are invisible in results on forgiving storage"),
"C07": ("contents and counters before/after close+reopen, several generations", "as C01", "recovery scans depend on exact page ids on storage"),
"C08": ("recovery of the storage after each mutation; recovered set vs completed pages and erased blocks", "atomic pages; every prefix of short histories", "crash points are not reachable from tests"),
"C09": ("as C08; each acknowledged put present exactly once", "record-level consistency on; nested crashes", "as C08"),
"C10": ("each stream's length and bytes, any chunking; refusal on databases without variable data", "0 … >65535 bytes, values larger than the storage", "page/boundary/chunk relations"),
"C11": ("each retained record's value: exact or reported deleted, per page-exact variable space model", "many variable wraps", "which value is cut depends on exact byte positions"),
"C12": ("as C08 with values", "atomic pages", "as C08"),
"C13": ("filtered iterations and decoded index pages after each restart/crash image and further puts", "index of 2…n blocks, wrapped, partially filled, stale", "as C08"),
"C14": ("interval contains the page, estimate in bounds, error bound, size of the point array; after add and erase", "keys 1–8 bytes incl. full 64-bit range; error 0–2^32−1; capacity ≥4", "numeric overflow/rounding for special shapes"),
"C15": ("rows, column bytes, schema of each chain vs direct evaluation", "random chains, all comparisons/widths/signs, rows >255 bytes, >65536 rows", "combinatorics of chains"),
"C16": ("each group row vs exact integer arithmetic", "widths 1–8, extremes, groups of 256·k, >65536 rows", "width/sign/overflow combinations"),
"C17": ("each joined row vs the pair set; end reported", "any overlap, nested joins, selected/projected inputs, >65536 rows", "run-out orders of the two inputs"),
"C18": ("live allocations of the library before/after each object's life; ASan for reuse", "complete, partial, unused, recursive frees", "early close paths"),
"C19": ("any ASan/UBSan (clang+gcc)/memcheck report in any workload family; example program", "exact-size and unaligned buffers", "UB rarely shows in results"),
"C20": ("n-th operation fails: result reports it; afterwards contents = accepted calls; retry works", "every position in short histories; bursts; during recovery", "tests have no failing storage"),
"C21": ("each documented limit crossed → refused, nothing open/allocated; allowed → empty and usable in an exactly sized buffer", "all parameters and files", "limits × parameter combinations"),
"C22": ("a model per interleaved database; threads: TSan and digest = serial digest", "2–4 databases; 2–8 threads", "shared statics show only with mixed widths/schedules"),
"C23": ("each step of every open reader vs snapshot-minus-reclaimed model", "many readers with puts, flushes, wraps", "the shared read buffer couples readers"),
"C24": ("counters after every call vs operations the flash saw; printed statistics parsed", "failed operations, reset, reopen", "conservation over whole histories"),
"C25": ("digests of results, rows, streams, storage bytes of three builds", "workloads of all other profiles", "tests run one build at a time on fixed inputs"),
"C26": ("helper laws on random, boundary, exhaustive (8/16-bit) slices", "all shipped helpers", "all values × ranges"),
"C27": ("page-store model vs desktop (real files), SD and dataflash on stand-ins; failures; databases on top", "files >4 GB (sparse) on desktop", "medium failures, short pages"),
"C28": ("three runs with different prior memory: identical answers, storage, statistics; memcheck", "state, page buffer, outputs, heap", "luck of zero memory hides it"),
"C29": ("five search tunings: identical answers and storage", "as C01", "differential over histories"),
"C30": ("every complete page written is decoded: id, count, order, bitmap, min/max; index entries", "all geometries", "headers are not visible through the API"),
"C31": ("nothing of the old database after reset, also after later restarts", "old state abandoned anywhere, crashed, wrapped, other configuration", "stale pages show only after a restart"),
"C32": ("no unflushed page when a flush/durable put is acknowledged; per-file losses of unflushed pages are recovered and audited", "prefix per file", "needs a volatile cache between library and medium"),
"C33": ("pages read/written per call vs those allowed by buffer, spline interval, index entries, model", "documented worst cases", "costs are invisible in results"),
}
walls = {}
for p in rows:
    try: walls[p] = round(json.load(open(f"{V}/tools/quick_walls.json"))[p])
    except Exception: walls[p] = None
props = {json.loads(l)["id"]: json.loads(l) for l in open(f"{V}/properties.jsonl")}
out = [open(f"{V}/tools/design_head.md").read().rstrip(), "", "| id | property | monitored, against what oracle | bounds | reach | quick |", "|---|---|---|---|---|---|"]
for p, (m, b, r) in rows.items():
    out.append(f"| {p} | {props[p]['title']} | {m} | {b} | {r} | {str(walls[p])+' s' if walls[p] else '–'} |")
assert set(rows) == set(props)
out += ["", open(f"{V}/tools/design_tail.md").read().rstrip().replace("@NFIX@", str(len({l.split()[2] for l in open(f"{V}/known_findings.txt") if l.startswith("fixed:")}))), "", "## 6. Planted bugs", "",
 "Each was written from a property's text and the code, builds, passes the 257 tests, and has a demonstration. All are caught by the quick tier of the check of the property named in the id.", "",
 "| planted bug | what it breaks | what it needs |", "|---|---|---|"]
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(f)); c = lambda s: s.replace("|", "/").replace("\n", " ")
    out.append(f"| {f.split('/')[-2]} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
open(f"{V}/DESIGN.md", "w").write("\n".join(out) + "\n")
