#!/usr/bin/env python3
"""Regenerates properties.jsonl (single source for the property texts)."""
import json, os
E="src/embedDB/embedDB.c"; S="src/spline/spline.c"; Q="src/query-interface/advancedQueries.c"; SC="src/query-interface/schema.c"
U="lib/EmbedDB-Utility/embedDBUtility.c"; D="lib/Distribution/embedDB.c"
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Point lookup returns exactly what was put",
 "After any history of accepted puts, flushes and reads, embedDBGet on a key that was accepted and not yet reclaimed returns success and exactly the data bytes given to the put, whether the record is still in the write buffer or on storage. On any other key (never inserted, between two keys, below the oldest, above the newest, or already reclaimed) it reports not-found.",
 ["inputs","histories","configurations"],"every key distribution, put/flush/get interleaving, key width 1-8, record size, page size, search method and spline configuration",
 "Tests look up a few sequential 4- or 8-byte keys on 512-byte pages with the spline search only; they never query absent keys densely, never use binary search, large pages, wide gaps or lookups interleaved with wraparound.",
 [E,S,D],[("page search: splineSearch/linearSearch/binarySearch",E),("in-page search: embedDBSearchNode, searchBuffer",E)],["return value and data of embedDBGet"])
p("C02","Key-range iteration is exact",
 "An iterator with any combination of minKey and maxKey yields exactly the retained records whose keys lie in the inclusive range, each once, in ascending key order with its exact data, including records still in the write buffer, and then reports the end.",
 ["inputs","histories","configurations"],"every range (empty, point, between keys, beyond both ends), every history with partially filled pages, wraparound and flushes, every configuration",
 "The tests iterate a handful of fixed ranges over linear keys; a wrong start page shows only with skewed keys, wrapped data or partially filled pages.",
 [E,S],[("embedDBInitIterator start page","src/embedDB/embedDB.c"),("embedDBNext",E)],["sequence of records from embedDBNext"])
p("C03","Data filters and the bitmap index never change query answers",
 "An iterator constrained by minData/maxData (alone or with key bounds) yields exactly the retained records satisfying the bounds, whatever bitmap function and size are configured, with or without per-page bitmaps and the index file, and however pages were filled, flushed, wrapped or recovered. The index may only skip pages, never a matching record.",
 ["inputs","histories","configurations"],"all data values and bounds, bitmap widths 1/2/8 bytes, index space wrapping, partial index pages produced by flush and restart",
 "One test file exercises the index, on full pages and a fixed query; a bitmap attributed to the wrong data page needs partial index pages, wrap or restart to be visible.",
 [E,U],[("updateBitmap on put, bitmapOverlap on read",E),("index page append in embedDBPut/embedDBFlush",E)],["records from embedDBNext with data bounds"])
p("C04","Keys must ascend: violations are rejected without side effects",
 "A put (fixed or variable) whose key is not strictly greater than the largest key accepted so far returns non-zero and leaves every later answer unchanged; a put with a strictly larger key is accepted. This holds right after a flush, after a restart and after wraparound.",
 ["inputs","histories","configurations"],"every out-of-order key relative to every buffer/page state",
 "Tests reject one or two keys while the write buffer is non-empty; the check after a partial-page flush or restart reads the key from storage and is not sampled.",
 [E],[("previous key comparison at the head of embedDBPut",E)],["return value of embedDBPut/embedDBPutVar","full contents afterwards"])
p("C05","Wraparound discards only the oldest records, and only as needed",
 "However many records are inserted, puts keep succeeding and the readable records are always a contiguous newest suffix of the accepted records; at most one erase block (beyond the space reserved for record-level consistency) of the allotted data pages is ever not retained once full. Reopening may give up one further block when the newest block is exactly full, and a put that fails may already have reclaimed the oldest block. Discarded records are never returned by any query.",
 ["histories","configurations"],"histories many times the storage capacity, all erase sizes and page counts, flushes creating partial pages",
 "Tests wrap a fixed-size file with full pages a couple of times at one geometry; off-by-one block accounting needs other geometries, partial pages and interleaved queries.",
 [E],[("erase and minDataPageId advance in writePage",E),("shiftRecordLevelConsistencyBlocks",E)],["set of readable records after every wrap"])
p("C06","Storage discipline: allotted pages, aligned erases, erase before rewrite",
 "Every read and write addresses a page inside the range allotted to that file, every erase covers whole aligned erase blocks inside it, a page holding data is erased before it is written again, and data, index and variable storage are never confused. Queries never read an erased or never-written page (recovery may probe such pages and read past the end of a file).",
 ["histories","configurations","crash_points"],"all histories, geometries, features and recoveries",
 "The desktop erase is a no-op, so no test can notice a missing, misplaced or late erase; on flash it destroys data.",
 [E],[("erase calls in writePage/writeIndexPage/writeVariablePage/writeTemporaryPage/recovery",E)],["calls to the file interface"])
p("C07","Flush, close and reopen preserve the database exactly",
 "After embedDBFlush and embedDBClose, initialising on the same storage recovers exactly the records retained before (when the newest block is exactly full the oldest block may be given up, as recovery continues in a clean block), with identical answers to every query, and the database accepts further puts under the same guarantees; repeating close/reopen changes nothing.",
 ["histories","configurations"],"every shutdown point in every history, including wrapped storage at every offset and partially filled pages, and repeated restarts",
 "Recovery tests cover some page counts at one geometry with full pages and inspect counters; they do not re-verify all contents nor continue to wrap after recovery.",
 [E,D],[("embedDBInitDataFromFile",E),("embedDBInitSplineFromFile",E)],["all query answers before and after restart"])
p("C08","Power loss keeps every completed page",
 "If execution stops at any storage operation (before or after any page write or block erase), reopening succeeds and yields a contiguous run of accepted records with exact data that ends at the last record whose data page write completed and starts no later than the oldest block not yet erased (or the one after it when the newest block is exactly full). The recovered database is fully usable, including further crashes.",
 ["crash_points","histories","configurations"],"every point in the sequence of storage mutations of every history, for each erase behaviour (no-op or any fill value)",
 "Tests only re-open after an orderly close; none stops between an erase and the following write or with a non-trivial erase pattern at many offsets.",
 [E],[("embedDBInitDataFromFile block skipping",E)],["contents recovered from every storage snapshot"])
p("C09","Record-level consistency: acknowledged records survive any crash",
 "With record-level consistency enabled, once a put has returned success the record survives a stop at any later storage operation: reopening yields every acknowledged retained record exactly once with exact data, plus at most the record being inserted at the time, and the database remains usable and equally durable afterwards.",
 ["crash_points","histories","configurations"],"every storage-mutation prefix of every put/flush/close/reopen history, all erase sizes, wrapped and unwrapped",
 "The tests check internal positions after 1-3 scripted shutdowns on one geometry; loss windows are single mutations during block shifts, flushes and recoveries.",
 [E],[("writeTemporaryPage",E),("shiftRecordLevelConsistencyBlocks",E),("embedDBInitDataFromFileWithRecordLevelConsistency",E)],["contents recovered from every storage snapshot"])
p("C10","Variable-length data round-trips",
 "For every record stored with variable data, embedDBGetVar and embedDBNextVar deliver a stream whose total length and bytes equal those given, for any length (also zero and many pages) and any sequence of read chunk sizes; records stored without variable data (through either put) yield no stream, and on a database without variable data the variable-data calls report an error and change nothing.",
 ["inputs","histories","configurations"],"all lengths relative to page boundaries, chunkings, interleavings with puts, flushes and other reads, buffered and stored records",
 "Tests use a few fixed lengths and one chunk size, mostly after a flush; boundary offsets and interleaved readers are not sampled.",
 [E],[("embedDBPutVar",E),("embedDBSetupVarDataStream, embedDBVarDataStreamRead",E)],["stream length and bytes"])
p("C11","Reclaimed variable data is reported, never returned corrupted",
 "When variable storage wraps, a record whose variable bytes were reclaimed still returns its fixed data and is reported as having its variable data deleted; a record whose bytes are all still stored always returns them. No query ever returns other bytes in their place. A restart may also give up the value whose bytes start on or before the oldest variable page still stored.",
 ["histories","configurations"],"wrapping histories for all geometries, value sizes and mixes of records with and without variable data",
 "Tests wrap variable storage in one or two scripted ways with equal-sized values and a no-op erase.",
 [E],[("minVarRecordId update in writeVariablePage",E)],["status and bytes for every retained record"],
 )
p("C12","Variable data survives restart and power loss with its records",
 "After any restart or power loss, every recovered record's variable data is either returned exactly or, only if its storage was reclaimed, reported deleted; data durably written before is not reported deleted, except a value starting on or before the oldest variable page still stored. With record-level consistency this covers every acknowledged record.",
 ["crash_points","histories","configurations"],"every storage mutation prefix with fixed and variable storage at independent wrap offsets",
 "Recovery tests check counters after an orderly close; none stops between a variable page and its data page.",
 [E],[("embedDBInitVarDataFromFile",E)],["recovered records and streams"])
p("C13","The index survives restart and power loss",
 "After any restart or power loss with the index enabled, every data-filtered query is still exact, immediately and after further puts, flushes, index wraparound and more restarts, even when index pages were lost or partially filled.",
 ["crash_points","histories","configurations"],"all mutation prefixes with index and data files at independent wrap offsets",
 "Index recovery tests look at counters only and never query after restart with partial index pages.",
 [E],[("embedDBInitIndexFromFile",E),("index lookup in embedDBNext",E)],["records from data-filtered iterators after recovery"])
p("C14","Spline lookups always bracket the right page",
 "For any strictly increasing key sequence (one key per page, consecutive page numbers), any error bound and any capacity of at least 4 points, the page interval returned for a key contains the page that holds it (or would hold it), the estimate stays within the data and, for keys between the retained points, within the error bound of either end of the interval, and this remains so when old points are dropped for any page still stored. Memory use never exceeds the configured number of points.",
 ["inputs","configurations"],"all key widths and distributions including gaps near the key range, error bounds, spline capacities and erasures",
 "Spline tests use two tiny data sets of 4-byte keys.",
 [S],[("splineAdd, splineFind, splineErase",S)],["loc/low/high from splineFind","point count"])
p("C15","Scan, selection and projection match relational semantics",
 "Any chain of table scan, selection and projection operators outputs exactly the rows a direct evaluation over the stored records gives, in key order, with correct column bytes and schema, for every comparison, column width and signedness. A user's operator placed anywhere in the chain is initialised and closed once and its rows are passed on unchanged.",
 ["programs","inputs"],"all operator chains, schemas, comparison operators and values",
 "The query tests need a data file that is not in the repository, so none runs.",
 [Q,SC],[("nextTableScan/nextSelection/nextProjection, compare",Q)],["rows from exec and operator schemas"])
p("C16","Group aggregates match relational semantics",
 "Aggregation over any input yields one row per maximal run of records in the same group, in order, including the first and last, with COUNT, SUM, MIN, MAX and AVG equal to the mathematical result over the group for every column width (1-8 bytes) and signedness (sums modulo 64 bits, AVG computed from that sum). A user's aggregate function is reset before each group, handed every record of the group once and in order, and asked once for its result.",
 ["programs","inputs"],"all group structures, schemas, aggregate lists, values including extremes, and downstream operators",
 "No aggregate test can run here; they would sample three-group queries on two 4-byte columns.",
 [Q],[("nextAggregate and aggregate functions",Q)],["rows from exec"])
p("C17","Key join returns exactly the matching pairs",
 "The key join of two inputs outputs exactly one row per key present in both, in ascending key order, being the concatenation of both rows, for any overlap including none, and for inputs that are themselves selections or projections, and then reports the end.",
 ["programs","inputs"],"all pairs of key sets, schemas and input operators, two databases or two scans of one",
 "No join test can run; overlap patterns are unbounded.",
 [Q],[("nextKeyJoin",Q)],["rows from exec"])
p("C18","Operators, schemas, iterators and streams are released completely",
 "Building, running partially or completely, closing and freeing any operator chain, iterator, stream or database releases every allocation exactly once and touches no freed memory; closing early is safe at any point.",
 ["programs","histories"],"all operator trees and abandon points",
 "No test runs with a leak detector and the query tests do not run at all.",
 [Q,SC,E],[("close functions, embedDBFreeOperatorRecursive, embedDBFreeSchema",Q),("embedDBClose, embedDBCloseIterator",E)],["allocations and frees"])
p("C19","No memory error or undefined behaviour in any supported use",
 "No sequence of API calls with valid arguments, in any supported configuration and on any storage content the library itself produced, reads or writes outside the user's buffers and allocations, uses freed memory, leaks, or executes behaviour the C standard leaves undefined.",
 ["inputs","histories","configurations","crash_points"],"all configurations (page sizes, record sizes up to a page, all feature combinations), histories and recoveries",
 "The tests are built without sanitizers, with buffers larger than needed, at one geometry.",
 [E,S,Q,SC,U,D],[("all pointer arithmetic on state->buffer",E)],["AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer reports"])
p("C20","Storage failures are reported and never corrupt",
 "When the storage interface fails a write, erase, flush or open at any time, or a read after initialisation, the call that needed it reports an error or not-found/end and never returns wrong data as success (an iteration skips no record before its end); records already stored remain retrievable, a failed put is not visible (one whose page was written but could not be flushed may reappear after a restart), and once the fault clears the same operation can be retried and all guarantees hold again.",
 ["fault_sequences","histories","configurations"],"every single fault position and fault bursts in every history",
 "No test injects a storage failure.",
 [E],[("return-value checks around fileInterface calls",E)],["return values under injected faults","contents after the fault clears"])
p("C21","Invalid configurations are refused, valid ones work",
 "Initialisation returns non-zero, without touching memory outside the given buffer, for every configuration the documentation excludes (key larger than 8 bytes, page counts not a multiple of the erase size, too few data, index or variable pages or buffers, a page too small for one record, too few spline points, missing files), leaving no file open and no memory allocated, and succeeds for every configuration it allows, after which the database is empty and usable.",
 ["configurations"],"the full cross product of parameters around each limit",
 "Tests try three invalid settings.",
 [E],[("parameter checks in embedDBInit/InitData/InitIndex/InitVarData",E)],["return value of embedDBInit","behaviour of a subsequent workload"])
p("C22","Databases are independent of each other",
 "Operations on one database never affect the contents or answers of another, whether their calls are interleaved on one thread or executed in parallel threads, one database per thread.",
 ["schedules","histories","configurations"],"all interleavings of operations on several databases with different configurations",
 "The multi-instance tests run two or three identical databases sequentially; none is run under a race detector.",
 [E,S,Q],[("all state is in embedDBState; no globals",E)],["answers of each database","ThreadSanitizer reports"])
p("C23","Readers may be interleaved freely",
 "Several open iterators and variable-data streams, lookups and puts may be interleaved in any order on one database; every lookup and stream is exact, every iterator yields, in order and once each, the records in its range that existed when it was opened and are still retained, and never anything not stored.",
 ["schedules","histories"],"all interleavings of open iterators, streams, gets, puts, flushes and wraparound",
 "Tests run one reader at a time; the shared read buffers only matter when readers are interleaved.",
 [E],[("bufferedPageId/bufferedIndexPageId/bufferedVarPage read caches",E)],["results of each interleaved reader"])
p("C24","I/O statistics equal the I/O performed",
 "After a statistics reset, the read and write counters for data, index and variable pages (temporary record-level-consistency pages excluded) equal the successful page reads and writes actually issued to storage, lookups served from the buffer are counted as hits, a fresh database starts from zero, and the printed statistics are these counters.",
 ["histories","configurations"],"all histories and configurations",
 "No test compares the counters with real I/O; initialisation with variable data is not covered.",
 [E],[("counters in readPage/writePage/readIndexPage/writeIndexPage/readVariablePage/writeVariablePage",E)],["counters vs. calls seen by the file interface"])
p("C25","The single-file distribution behaves exactly like the modular sources",
 "For every workload the checked-in amalgamated distribution, and one regenerated with the provided script, produce the same return values, outputs and byte-identical storage as the modular sources.",
 ["inputs","histories","configurations","programs"],"all workloads of the other properties",
 "Both are tested separately on fixed inputs; nothing compares them, and nothing ties the checked-in copy to the sources.",
 [D,E,S,Q,SC,"amalgamation/amalgamation.py"],[("amalgamation script","amalgamation/amalgamation.py"),("checked-in copy",D)],["execution traces and storage images of both builds"])
p("C26","Bitmap helpers are conservative and comparators are total orders",
 "For every value and range, the bitmap built from a range intersects the bitmap of every value inside the range and has no bits but those of such values, membership tests agree with the update function, and updates only add bits; the provided key/data comparators order all supported values consistently (sign, antisymmetry, transitivity).",
 ["inputs"],"all 8/16/32-bit values and bounds; all key pairs in the supported range",
 "Tests sample a few temperatures.",
 [U],[("updateBitmap*/buildBitmap*FromRange/inBitmap*",U),("int32Comparator/int64Comparator",U)],["bitmaps and comparison results"])
p("C27","File interfaces honour the page-store contract",
 "The provided file interfaces (desktop, SD, dataflash) behave as a page store: a page read returns the bytes last written to it, a read of a page that does not exist fails, other pages are unaffected; for the file-based ones create mode truncates, update mode preserves and requires existence, flush makes writes visible to another opener, and success/failure is reported as specified, also when the medium fails.",
 ["inputs","histories","fault_sequences"],"all sequences of open/read/write/erase/flush/close on several files, page sizes and failing media",
 "Tests use the interface only through the database on a healthy disk.",
 ["lib/Desktop-File-Interface/desktopFileInterface.c","lib/SD-File-Interface/SDFileInterface.c","lib/SD-Wrapper/sdcard_c_iface.cpp","lib/Dataflash-File-Interface/dataflashFileInterface.c"],
 [("FILE_READ/FILE_WRITE/FILE_OPEN...","lib/Desktop-File-Interface/desktopFileInterface.c")],["return values and file contents"])
p("C28","Behaviour does not depend on uninitialised memory",
 "The caller need only set the documented fields: results, storage bytes within the record area and statistics are the same whatever the remaining fields, the page buffer, the output variables and the heap contained before.",
 ["inputs","configurations","histories"],"all prior memory contents and workloads",
 "Tests calloc or happen to get zeroed memory and run once.",
 [E,S,Q],[("embedDBInit field initialisation",E),("initBufferPage",E)],["traces under different memory fills","valgrind memcheck reports"])
p("C29","Search tuning never changes answers",
 "Spline versus binary search, the spline error bound, the number of spline points and disabling spline cleaning affect only cost: the same operations give the same answers and leave the same data on storage.",
 ["configurations","histories"],"all tuning parameters crossed with all histories",
 "Tests run one tuning; binary search is never run.",
 [E,S],[("EMBEDDB_USE_BINARY_SEARCH, EMBEDDB_DISABLE_SPLINE_CLEAN paths",E)],["lock-step answers of differently tuned databases"])
p("C30","Page headers and summaries describe the stored records",
 "Every complete data page on storage carries its logical page number, its exact record count, records in ascending key order, and, when enabled, a bitmap covering every record and minimum/maximum key and data equal to those of its records; index pages repeat the bitmaps of the pages they describe.",
 ["histories","configurations"],"every page written in every history for all feature combinations",
 "No test reads back MIN/MAX headers; bitmap headers are checked for one setup.",
 [E],[("header maintenance in embedDBPut",E)],["bytes of every page write"])
p("C31","Resetting really starts from scratch",
 "Initialising with the reset flag on storage that holds any previous database yields an empty database; no record, variable datum or index entry of the previous database is ever visible afterwards, also after later restarts without the flag.",
 ["histories","configurations"],"all previous contents and subsequent histories",
 "Tests reset onto files of a previous test but never look for leftovers after a later recovery.",
 [E],[("EMBEDDB_RESET_DATA handling in the init functions",E)],["contents after reset and after later restarts"])
p("C32","Acknowledged data is flushed to the medium, and losing unflushed pages is safe",
 "When embedDBFlush returns success every data, index and variable page written before has been flushed through the file interface (embedDBFlushVar: every variable page); with record-level consistency so has the page of a put when the put returns success. A failed flush is reported. If power is lost while each file keeps only some prefix of its unflushed mutations, reopening gives what the crash guarantees promise for the surviving data file, with exact variable data and exact filtered queries; acknowledged records are never lost.",
 ["crash_points","histories","configurations","fault_sequences"],"every storage mutation and flush event, with every combination of unflushed suffixes lost per file, and failing flushes",
 "Tests never look at the flush calls; on an operating system or SD card, pages that were not flushed vanish with the process or the power.",
 [E],[("fileInterface->flush calls in embedDBFlush, embedDBFlushVar, writeTemporaryPage and shiftRecordLevelConsistencyBlocks",E)],["flush calls at the file interface against pages written", "contents recovered from per-file truncated histories"])
p("C33","Queries and inserts touch only the pages the index structures promise",
 "A lookup decided by the write buffer reads nothing; otherwise it reads only pages the search structure allows, each once: at most 2*error+1 pages for a key between the retained spline points, at most floor(log2(pages))+1 with binary search, and none when repeated with the spline. An uninterrupted iteration over fixed data reads each data page at most once, none before the spline's lower bound for minKey, none after the page that shows a key above maxKey, and, with the index, none whose bitmap on storage shares no bit with the query's; index pages are read once plus a binary search. A put writes at most one data page (one more temporary page with record-level consistency), one index page and the variable pages its value needs; a refused put writes nothing.",
 ["histories","configurations"],"all histories and configurations, every query and put",
 "Tests check answers, not which pages were read to find them; losing the index's effect changes no answer.",
 [E,S],[("embedDBGet, splineSearch, binarySearch, linearSearch, embedDBInitIterator, embedDBNext, findIndexEntry, bitmapOverlap",E),("splineFind",S)],["page reads and writes at the file interface during each call"])
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
