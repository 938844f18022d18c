B = "runtime monitoring: real library on a simulated flash, generated histories, "
TRUST = (" Sampled, not exhaustive: a violation needing a configuration or history outside the generators' distributions is not seen. Trusts the reference model in harness/core.cpp, the simulated flash, "
         "and the sanitizers of clang/gcc. Covers src/ and the checked-in lib/Distribution.")
MODEL = B + "online model oracle for every call, ASan+UBSan"
TECH = {p: MODEL for p in "C01 C02 C03 C04 C05 C07 C10 C11 C31".split()}
NOTE = {
 "C01": "Every get of every history is compared with an exact model of retained records (block-exact reclamation).",
 "C02": "Every iterated range is compared record by record with the model.",
 "C03": "Every filtered iteration is compared record by record; index pages are decoded and checked to summarise their data pages.",
 "C04": "Every put's verdict is compared with the key-order rule, and contents are compared after refusals.",
 "C05": "The readable set is compared with the exact block-reclamation model and with the documented upper bound of loss.",
 "C06": "A monitor at the file interface checks every read, write and erase: allotted range, block alignment, write-once between erases, owner file.",
 "C07": "Contents before and after every close/reopen are compared, and the histories continue with all other oracles on.",
 "C08": "Each storage mutation of each sampled history is a crash point (all points in short histories, sampled in long ones); write-level atomic model.",
 "C09": "As C08 with record-level consistency: every acknowledged put must survive every crash point.",
 "C10": "Every variable value read through lookups and iterators, in random chunk sizes, is compared byte for byte.",
 "C11": "A page-exact model of the variable data space decides which values must be present, must be reported deleted.",
 "C12": "As C08 with variable data: every recovered record's value must be the acknowledged one or reported deleted as the space model says.",
 "C13": "Index files are recovered from restarts and every crash point; filtered iterations and decoded index pages are compared with the data.",
 "C14": "Spline intervals, estimates and memory use are checked for every stored key and surrounding absent keys after each insertion and erasure.",
 "C15": "Every row and schema of every generated operator chain is compared with a direct evaluation over the model.",
 "C16": "Every group of every generated aggregate is compared with exact integer arithmetic over the model.",
 "C17": "Every row of every generated join is compared with the exact pair set.",
 "C18": "All allocations of the library are counted (symbols renamed); each object graph must give back exactly what it took, also when abandoned midway.",
 "C19": "Any sanitizer report (ASan, UBSan with clang and gcc; valgrind memcheck on a sample) in any workload family is a violation.",
 "C20": "The n-th storage operation of each kind fails; results must report it, contents afterwards must equal the model of accepted calls.",
 "C21": "Each documented limit is crossed and each accepted configuration is exercised with exactly sized buffers.",
 "C22": "Interleaved databases each keep their own model; threads run under TSan and must give the digest of the same workload run alone.",
 "C23": "Every step of many simultaneously open readers is compared with the model at that step.",
 "C24": "Counters are compared after every call with the operations the simulated flash saw.",
 "C25": "Digests of everything observable are compared between src/, lib/Distribution and a freshly regenerated distribution.",
 "C26": "Bitmap and comparator laws are checked on random, boundary and exhaustive slices of their domains.",
 "C27": "Each call on each interface is compared with a page-store model, with real write failures (file size limit, full device) and injected ones; stand-ins replace the SD card and the dataflash chip.",
 "C28": "Runs that differ only in prior memory contents must be identical; valgrind memcheck watches a sample.",
 "C29": "The same history under several search tunings must be identical in answers and storage.",
 "C30": "Every page the library writes is decoded and compared with the records the model says it holds.",
 "C32": "Per-file dirty state is checked whenever a flush or durable put is acknowledged; crash images drop, per file, any suffix of the mutations not yet flushed, and the real recovery of each is audited.",
 "C33": "The pages each lookup, iteration, put and flush reads and writes are logged at the file interface and compared with those the model, the spline interval and the decoded index pages allow.",
 "C31": "After a reset over any previous state nothing of the old database may appear, in lookups, iterations, or after restarts.",
}
NOTE = {k: v + TRUST for k, v in NOTE.items()}
CR = B + "storage image reconstructed at each mutation and recovered by the real code, audited against acknowledged records"
TECH.update(C06=B + "online storage-discipline monitor at the file interface", C08=CR, C09=CR, C12=CR, C13=CR, C32=CR + ', each file losing any part of its unflushed mutations; flush-acknowledgement monitor', C20=B + "fault injection at each storage operation, model oracle",
 C14="runtime monitoring: online interval/estimate/memory oracle over generated key sequences, ASan+UBSan",
 C15="runtime monitoring: differential relational evaluator over generated operator chains, ASan+UBSan", C16="runtime monitoring: exact-arithmetic aggregate oracle over generated chains, ASan+UBSan",
 C17="runtime monitoring: exact join oracle over generated chains, ASan+UBSan", C18="runtime monitoring: allocation accounting with object-lifetime oracle, ASan",
 C19="sanitizers: ASan, UBSan (clang, gcc), valgrind memcheck under all generated workloads", C21="runtime monitoring: generated configurations on and beyond the limits, exactly sized buffers, ASan+UBSan",
 C22="runtime monitoring: interleaved databases with a model each; ThreadSanitizer and serial-equivalence for threads", C33=B + 'trace oracle over the page reads and writes of each call', C23=B + "step-by-step model of all open readers",
 C24=B + "conservation oracle between counters and interface calls", C25="runtime monitoring: differential execution of three builds of the library",
 C26="runtime monitoring: law checking on sampled and exhaustive slices, UBSan", C27="runtime monitoring: page-store model against real and stand-in devices with injected failures",
 C28="runtime monitoring: differential execution with perturbed uninitialised memory; valgrind memcheck", C29="runtime monitoring: differential execution under search tunings", C30=B + "page decoder compared with the model on every write")
