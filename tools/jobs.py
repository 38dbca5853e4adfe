"""What each check runs.  cases = (quick, thorough)."""
SPECS = {}
NOT_APPLICABLE = {}
def spec(pid, technique, note, rule, jobs, require=(), assumptions=(), level="exploration", sigs=None):
    SPECS[pid] = dict(technique=technique, note=note, rule=rule, jobs=jobs, require=list(require),
                      assumptions=list(assumptions), level=level, sigs=sigs)
def job(name, harness, cases, variant="asan", weight=2, **kw):
    return dict(name=name, harness=harness, cases=cases, variant=variant, weight=weight, **kw)

spec("C01",
  "offline serializability and opacity checker over recorded histories of stress runs",
  "Every history recorded was checked completely; schedules are sampled by stress, random delays and thread counts. "
  "Trusts that the commit ticket is drawn while locks are held.",
  "A case is a random memory layout with random concurrent transactions on 2-8 threads; it counts when transactions "
  "interfered (more executions than commits), and is distinct by its commit order of threads.",
  [job("tm-asan", "c01_tm", (60, 4000), weight=8, args=dict(threads=8)),
   job("tm-plain", "c01_tm", (150, 20000), "plain", weight=8, args=dict(threads=8), seedoff=1000),
   job("tm-2", "c01_tm", (150, 10000), "plain", weight=2, args=dict(threads=2), seedoff=2000)],
  require=["committed", "aborted-executions", "irrevocable", "aborted-multi-reads", "strings-privatized"])

spec("C02",
  "model-based monitor: random operation sequences compared byte by byte with plain memory, under ASan/UBSan",
  "Sampled operation sequences; each compared completely with a byte-array model.",
  "A case is a random sequence of up to 60 tm operations (load/store/loadstore/privatize/raw/typed/discard) on unaligned "
  "ranges of 320 bytes; non-trivial with more than 3 operations, distinct by operations and ranges.",
  [job("seq-asan", "c02_tm", (20000, 1000000), args=dict(mode="commit")),
   job("seq-plain", "c02_tm", (60000, 4000000), "plain", args=dict(mode="commit"), seedoff=1)],
  require=["operations", "op-loadstore", "op-privatize", "op-privatize-c", "raw-bytes-written", "op-discard", "address-regions"])

spec("C03",
  "model-based monitor of aborted transactions (byte image before/after), lock hand-over to a second thread, and concurrent abort stress",
  "Sampled operation sequences and schedules; memory images compared completely.",
  "A case is a random sequence of tm operations that ends in a conflict, an explicit error or an access to discarded "
  "memory; distinct by operations and ranges (concurrent job: by commit order).",
  [job("abort-asan", "c02_tm", (20000, 1000000), args=dict(mode="abort"), seedoff=2),
   job("abort-plain", "c02_tm", (60000, 4000000), "plain", args=dict(mode="abort"), seedoff=3),
   job("conc-plain", "c01_tm", (80, 8000), "plain", weight=8, args=dict(threads=6), seedoff=4)],
  require=["operations", "handovers", "aborted-executions", "op-discard", "raw-bytes-written"])

spec("C04",
  "online automaton over recorded module callbacks (trace specification of the transaction life cycle)",
  "Every callback of every sampled execution is judged; workloads and schedules are sampled.",
  "A case is a transaction with random events of 1-12 user modules, aborted by conflicts, errors, irrevocability and "
  "failing prepare-commit callbacks; it counts when it was executed more than once, distinct by its event sequence.",
  [job("log1-asan", "c04_log", (4000, 100000), args=dict(threads=1)),
   job("log4-plain", "c04_log", (4000, 200000), "plain", weight=4, args=dict(threads=4), seedoff=1)],
  require=["events-applied", "events-undone", "late-modules", "prepare-failures", "releases", "executions-of-65536-events", "modules-refused"])

spec("C05",
  "online monitor of execution spans (module begin/finish callbacks) and irrevocability, plus race detector on memory guarded by irrevocability only",
  "Every begin, body, callback and finish of every sampled schedule is judged against the set of active executions.",
  "A case is a mix of revocable transactions and transactions that become irrevocable by call, repeated call, retry limit, "
  "error, prepare-commit error or operation on 2-8 threads; distinct by the sequences of kinds and execution counts.",
  [job("irr-asan", "c05_irrev", (240, 8000), weight=8, args=dict(threads=8)),
   job("irr-plain", "c05_irrev", (900, 40000), "plain", weight=8, args=dict(threads=8), seedoff=1000),
   job("irr-tsan", "c05_irrev", (240, 8000), "tsan", weight=8, args=dict(threads=6), seedoff=2000)],
  require=["irrevocable", "by-retry-limit", "by-error", "by-prepare", "by-operation", "overlapping-executions"])

spec("C07",
  "shadow-ownership monitor of reader/writer locks under stress (threads, waiting and young owners, upgrades), exact sequential model, race detector",
  "Holders are tracked for every grant in every sampled schedule; single-threaded sequences are judged exactly.",
  "A case is a random sequence of lock operations by up to 12 owners on one thread, or 2-32 threads hammering 1-6 locks; "
  "concurrent cases count when conflicts occurred; distinct by operations and results.",
  [job("seq", "c07_rwlock", (80000, 2000000), args=dict(mode="seq")),
   job("conc-asan", "c07_rwlock", (400, 10000), weight=8, args=dict(threads=16), seedoff=1),
   job("conc-plain", "c07_rwlock", (1500, 40000), "plain", weight=8, args=dict(threads=32), seedoff=2),
   job("old-plain", "c07_rwlock", (4, 400), "plain", weight=8, args=dict(threads=16, arg=1), seedoff=3),
   job("old-asan", "c07_rwlock", (3, 200), weight=8, args=dict(threads=24, arg=1), seedoff=4),
   job("conc-tsan", "c07_rwlock", (200, 5000), "tsan", weight=8, args=dict(threads=8), seedoff=5),
   job("old-tsan", "c07_rwlock", (2, 100), "tsan", weight=8, args=dict(threads=8, arg=1), seedoff=6)],
  require=["seq-upgrades", "seq-conflicts", "conflicts", "upgrades", "readers", "writers", "old-transactions"])

spec("C06",
  "execution counting and watchdog over contention storms (old and young transactions, up to 1100 threads), conservation of committed updates",
  "Every transaction's number of executions is bounded and every storm must finish; schedules are sampled. A hang counts after "
  "the watchdog time without any commit, and only if it repeats.",
  "A case is a contention storm of random shape; distinct by the execution counts of all transactions.",
  [job("storm-plain", "c06_progress", (250, 20000), "plain", weight=8, args=dict(mode="storm", threads=48, watch=30)),
   job("storm-asan", "c06_progress", (40, 4000), weight=8, args=dict(mode="storm", threads=16, watch=40), seedoff=1),
   job("old-plain", "c06_progress", (3, 300), "plain", weight=4, args=dict(mode="old", threads=16, watch=40), seedoff=2),
   job("old-asan", "c06_progress", (3, 300), weight=4, args=dict(mode="old", threads=24, watch=40), seedoff=3),
   job("many-plain", "c06_progress", (6, 300), "plain", weight=8, args=dict(mode="many", threads=1100, watch=60), seedoff=4),
   job("waiting-plain", "c07_rwlock", (3, 300), "plain", weight=8, args=dict(threads=15, arg=1, watch=40), seedoff=5),
   job("waiting-asan", "c07_rwlock", (3, 200), weight=8, args=dict(threads=15, arg=1, watch=40), seedoff=6)],
  require=["transactions", "restarted", "file-operations", "old-transactions", "live-threads", "refused-threads"])

spec("C09",
  "thread-churn stress with residue oracles (module release, owner slots, counters), leak detector and race detector",
  "Sampled schedules of threads starting, releasing, restarting and exiting; more thread lives per run than there are owner slots.",
  "A case is 1-6 controllers that start short-lived threads next to 0-2 permanent ones; distinct by its shape and committed work.",
  [job("churn-asan", "c06_progress", (60, 2500), weight=8, args=dict(mode="churn", arg=100, watch=40)),
   job("churn-plain", "c06_progress", (300, 10000), "plain", weight=8, args=dict(mode="churn", arg=60, watch=30), seedoff=1),
   job("churn-tsan", "c06_progress", (30, 1200), "tsan", weight=8, args=dict(mode="churn", arg=30, watch=60), seedoff=2)],
  require=["thread-lives", "releases", "transactions", "undone-writes"])

spec("C08",
  "oracle on the recovery phase: injected and real errors with known status and value, images before/after, event counters, forked non-recoverable errors",
  "Every recovery is compared with the error that was raised and with images of memory, file, stack and event counters; cases are sampled.",
  "A case is 1-4 threads with 20 transactions each that fail in one of 17 ways at a random place after random operations, "
  "with random restarts; distinct by kinds and codes.",
  [job("err-asan", "c08_error", (300, 20000), weight=4, args=dict(threads=4)),
   job("err-plain", "c08_error", (1000, 100000), "plain", weight=4, args=dict(threads=4), seedoff=1)],
  require=["recoveries", "restarts", "non-recoverable"])

def txlib(pid, name, mask, req):
    spec(pid,
      "model-based monitor: every execution (committed, aborted, failed) of random transactions replayed on a sequential model, with ASan-checked entry life times",
      "Sampled operation sequences; every result of every execution is compared with the model. Order among multiset entries of equal key is not judged.",
      "A case is up to 12 transactions of random container operations with random conflicts, errors and retries; distinct by operations and results.",
      [job("seq-asan", "c12_txlib", (30000, 600000), args=dict(mode="seq", arg=mask)),
       job("seq-plain", "c12_txlib", (100000, 4000000), "plain", args=dict(mode="seq", arg=mask), seedoff=1),
       job("conc-asan", "c12_txlib", (150, 6000), weight=4, args=dict(mode="conc", arg=mask, threads=4), seedoff=2),
       job("probe-asan", "c12_probe", (120, 30000), weight=2, args=dict(arg=mask), seedoff=3),
       job("probe-plain", "c12_probe", (150, 60000), "plain", weight=2, args=dict(arg=mask), seedoff=4)],
      require=["committed", "aborted-executions", "failed", "freed-entries", "replayed", "probes-committed", "probe-conflicts", "writers-given-up"])
txlib("C12", "txlist", 1, [])
txlib("C13", "txqueue", 6, [])
txlib("C14", "txmultiset", 8, [])
spec("C15",
  "offline serializability and opacity checker over recorded container histories of stress runs, race detector",
  "Every recorded history is replayed completely in commit-ticket order; schedules are sampled by stress, delays and thread counts.",
  "A case is 2-8 threads running random transactions over lists, queues, stacks and multisets; it counts when executions were aborted, "
  "distinct by commit order and results.",
  [job("conc-asan", "c12_txlib", (120, 6000), weight=8, args=dict(mode="conc", threads=8)),
   job("conc-plain", "c12_txlib", (500, 30000), "plain", weight=8, args=dict(mode="conc", threads=8), seedoff=1000),
   job("conc-tsan", "c12_txlib", (100, 4000), "tsan", weight=8, args=dict(mode="conc", threads=6), seedoff=2000),
   job("probe-plain", "c12_probe", (250, 60000), "plain", weight=2, args=dict(), seedoff=3000),
   job("probe-tsan", "c12_probe", (40, 10000), "tsan", weight=2, args=dict(), seedoff=4000)],
  require=["committed", "aborted-checked", "replayed", "freed-entries", "probes-committed", "probe-conflicts"])

spec("C10",
  "model-based monitor of random lookups, creations, walks and tear-downs; agreement oracle and race detector for concurrent lookups",
  "Sampled key sets (also full 64-bit keys), level widths, creator failures and schedules; every lookup, walk and value life is judged.",
  "A case is a map with random level width and up to 64 keys under up to 120 operations, or 1-12 threads with up to 150 lookups each; "
  "distinct by keys and operations (shared: by who created what).",
  [job("map-asan", "c10_treemap", (10000, 800000), args=dict(mode="map")),
   job("map-plain", "c10_treemap", (30000, 2000000), "plain", args=dict(mode="map"), seedoff=1),
   job("smap-asan", "c10_treemap", (800, 30000), weight=8, args=dict(mode="smap", threads=8), seedoff=2),
   job("smap-plain", "c10_treemap", (3000, 200000), "plain", weight=8, args=dict(mode="smap", threads=12), seedoff=3),
   job("smap-tsan", "c10_treemap", (400, 20000), "tsan", weight=8, args=dict(mode="smap", threads=8), seedoff=4)],
  require=["map-operations", "walks", "shared-lookups", "lost-creations"])
spec("C11",
  "online monitor of initialiser/finaliser call-backs and of held references under stress, race detector, leak detector",
  "Every call-back and every held reference of every sampled schedule is judged.",
  "A case is 1-12 threads taking, conditionally taking and dropping references with failing initialisers and conditions; distinct by who initialised and finalised.",
  [job("ref-asan", "c10_treemap", (4000, 100000), weight=8, args=dict(mode="ref", threads=5)),
   job("ref-plain", "c10_treemap", (10000, 400000), "plain", weight=8, args=dict(mode="ref", threads=6), seedoff=1),
   job("ref-tsan", "c10_treemap", (2000, 60000), "tsan", weight=8, args=dict(mode="ref", threads=5), seedoff=2)],
  require=["object-lives", "state-lives", "thread-states"])

WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=posix_memalign,--wrap=free"]
WRAP27 = WRAP + ["-Wl,--wrap=strdup,--wrap=realpath,--wrap=get_current_dir_name,--wrap=newlocale,--wrap=duplocale"]
spec("C16",
  "ledger of an interposed allocator compared with a model of committed blocks after every execution, AddressSanitizer, block-content oracle under concurrency, race detector",
  "Every block of every sampled execution is accounted for; operation sequences and schedules are sampled.",
  "A case is up to 10 transactions of random allocator operations with conflicts, failures and give-ups (concurrent: 2-8 threads on 12 shared "
  "slots); distinct by operations (concurrent: by execution counts).",
  [job("seq-asan", "c16_alloc", (4000, 200000), args=dict(mode="seq"), extra=WRAP),
   job("seq-plain", "c16_alloc", (15000, 1000000), "plain", args=dict(mode="seq"), seedoff=1, extra=WRAP),
   job("conc-asan", "c16_alloc", (300, 10000), weight=8, args=dict(mode="conc", threads=8), seedoff=2, extra=WRAP),
   job("conc-plain", "c16_alloc", (2000, 60000), "plain", weight=8, args=dict(mode="conc", threads=8), seedoff=3, extra=WRAP),
   job("conc-tsan", "c16_alloc", (80, 4000), "tsan", weight=8, args=dict(mode="conc", threads=6), seedoff=4, extra=WRAP)],
  require=["errno-checks", "op-malloc", "op-calloc", "op-memalign", "op-realloc", "op-strdup", "op-free", "recoveries", "committed", "conc-commits", "conc-aborted"])

spec("C17",
  "differential monitor: each transactional function runs next to the C function on exact-size twin blocks; return values, contents in the transaction, after commit and after abort compared; ASan for reads and writes outside",
  "Sampled inputs (lengths, alignments, contents, overlaps, formats); each compared completely.",
  "A case is up to 4 transactions of up to 8 random functions on 5 blocks of 0-250 bytes; distinct by functions, sizes and string lengths.",
  [job("seq-asan", "c17_string", (60000, 800000), args=dict()),
   job("seq-plain", "c17_string", (200000, 8000000), "plain", args=dict(), seedoff=1)],
  require=["errno-restored", "operations", "committed", "aborted", "given-up", "memccpy", "memmove", "stpcpy", "stpncpy", "strncat", "strncpy", "strndup",
           "strtok_r", "snprintf", "sscanf", "strerror_r", "strftime", "strptime", "qsort", "rand_r", "strcoll_l"])

spec("C18",
  "differential monitor: every file operation runs next to the POSIX call on a twin file; results, errno, contents, sizes and offsets compared in the transaction, at restarts, after commit and after abort; ASan and LSan",
  "Sampled programs, file sizes, offsets and flags; every result and every file is compared.",
  "A case is 1-3 files and up to 4 transactions of up to 14 random operations with conflicts, errors, give-ups and irrevocability; distinct by operations.",
  [job("io-asan", "c18_file", (5000, 400000), args=dict(mode="io")),
   job("io-plain", "c18_file", (5000, 600000), "plain", args=dict(mode="io"), seedoff=1)],
  require=["op-read", "op-write", "op-pread", "op-pwrite", "op-lseek", "op-fstat", "reads-at-end", "committed", "aborted", "restarted", "files-compared", "offsets-compared"])
spec("C21",
  "differential monitor with a census of all descriptors, directories and files after every transaction and at every restart; twin descriptors made with the POSIX calls; ASan and LSan",
  "Sampled programs of descriptor operations; every descriptor number up to 1023 is looked at after every transaction.",
  "A case is up to 4 transactions of up to 10 random open/creat/mkstemp/dup/pipe/socket/fcntl/close and I/O calls with conflicts, errors, give-ups and invalid descriptors; distinct by operations.",
  [job("fd-asan", "c18_file", (7000, 250000), args=dict(mode="fd")),
   job("fd-plain", "c18_file", (7000, 400000), "plain", args=dict(mode="fd"), seedoff=1)],
  require=["bystander-checks", "op-open", "op-creat", "op-dup", "op-close", "op-pipe", "op-socket", "op-mkstemp", "op-fcntl-get", "op-fcntl-set", "committed", "aborted", "restarted", "censuses"])
spec("C19",
  "offline serializability and opacity checker over recorded file histories of stress runs (byte-exact replay in commit order), lock-leak probe, race detector",
  "Every recorded history is replayed completely; schedules are sampled by stress, delays and thread counts.",
  "A case is 2-8 threads with up to 40 transactions each of up to 10 reads, writes, appends, seeks and fstats at unaligned hot offsets of 1-3 files, "
  "through shared or own descriptors; it counts when executions were aborted, distinct by commit order.",
  [job("conc-asan", "c19_file", (700, 40000), weight=6, args=dict(threads=5)),
   job("conc-plain", "c19_file", (2500, 150000), "plain", weight=8, args=dict(threads=8), seedoff=1000),
   job("conc-tsan", "c19_file", (150, 8000), "tsan", weight=6, args=dict(threads=5), seedoff=2000)],
  require=["replayed", "aborted-checked", "files-compared", "lock-checks"])

spec("C20",
  "differential monitor against twin streams driven by plain system calls, with byte counts of every stream checked during executions and independent readers; offline checker of recorded streams (exactly once, whole, in commit order) under stress; sanitizers",
  "Each operation, abort point and stream state is compared; programs and schedules are sampled.",
  "A case is up to 5 transactions over 1-3 pipes, FIFOs and UNIX sockets (stream, datagram, seqpacket; blocking or not) with writes, sends, reads, MSG_PEEK, dup, close, shutdown, forced conflicts and give-ups; "
  "or 2-8 concurrent threads sending multi-part messages over 1-3 shared streams. It counts when more than 3 operations ran, distinct by operation sequence or delivery order.",
  [job("seq-asan", "c20_stream", (2500, 150000), weight=6, args=dict(mode="seq")),
   job("seq-plain", "c20_stream", (2500, 200000), "plain", weight=6, args=dict(mode="seq"), seedoff=500),
   job("conc-asan", "c20_stream", (150, 10000), weight=6, args=dict(mode="conc", threads=5)),
   job("conc-plain", "c20_stream", (400, 40000), "plain", weight=6, args=dict(mode="conc", threads=8), seedoff=1000),
   job("conc-tsan", "c20_stream", (60, 4000), "tsan", weight=6, args=dict(mode="conc", threads=5), seedoff=2000)],
  require=["committed", "aborted", "restarted", "invisibility-checks", "independent-reads", "messages-received", "signals-delivered", "blocking-operations", "streams-checked", "records-moved"])

spec("C22",
  "differential monitor: directory, path, locale and signal operations run next to plain *at() calls on a twin tree; results, errno, working directory, locale names and objects, buffers and signal routing compared in the transaction, at restarts, after commit and after abort; offline history check of concurrent directory and locale changes in commit order; sanitizers",
  "Every operation and abort point of the sampled programs is compared; programs and schedules are sampled.",
  "A case is up to 5 transactions of up to 12 operations on a tree with nested directories, files and symbolic links, with conflicts, failing calls, give-ups, signals and irrevocability; "
  "or 2-8 concurrent threads changing and querying the directory, the locale and shared locale objects; or 300 signals sent to 1-5 threads that run transactions and change picotm's signal state. Distinct by operation sequence or committed history.",
  [job("seq-asan", "c22_proc", (4000, 200000), args=dict(mode="seq")),
   job("seq-plain", "c22_proc", (8000, 600000), "plain", args=dict(mode="seq"), seedoff=500),
   job("conc-asan", "c22_proc", (100, 8000), weight=4, args=dict(mode="conc", threads=5)),
   job("conc-plain", "c22_proc", (250, 30000), "plain", weight=6, args=dict(mode="conc", threads=8), seedoff=1000),
   job("conc-tsan", "c22_proc", (60, 4000), "tsan", weight=4, args=dict(mode="conc", threads=5), seedoff=2000),
   job("signals-plain", "c22_proc", (20, 3000), "plain", weight=4, args=dict(mode="signals", threads=5), seedoff=3000),
   job("signals-asan", "c22_proc", (12, 1500), weight=4, args=dict(mode="signals", threads=3), seedoff=4000),
   job("signals-tsan", "c22_proc", (12, 1500), "tsan", weight=4, args=dict(mode="signals", threads=4), seedoff=5000)],
  require=["signals-sent", "errno-changed-silently", "committed", "aborted", "restarted", "chdir", "fchdir", "getcwd", "getcwd-allocated", "mkstemp", "mkdtemp", "lstat", "unlink", "setlocale",
           "newlocale-base", "duplocale", "freelocale", "uselocale", "signal-recovery", "signals-released", "non-recoverable-signals", "relative-paths", "history-checks", "locale-objects-replaced"])

spec("C23",
  "input/output monitor: every operation of every type run in transactions, results and recovery codes compared with the exact result in a wider type; rollback of preceding writes observed; UndefinedBehaviorSanitizer",
  "All operand pairs of the 8-bit and user-defined small types; wider types by boundary, derived-at-limit and random pairs.",
  "A case is one (type, operation) with up to 4096 operand pairs: all pairs of 8-bit and bounded user-defined types in turn, pairs derived to land on, below and above the limits for the others; float, double, long double and bounded floating-point types. "
  "Distinct by type, operation and operands (every eighth pair is counted).",
  [job("ints-plain", "c23_arith", (1344, 60000), "plain", args=dict(mode="ints")),
   job("ints-asan", "c23_arith", (280, 12000), args=dict(mode="ints"), seedoff=500),
   job("floats-plain", "c23_arith", (800, 60000), "plain", args=dict(mode="floats"), seedoff=1000),
   job("floats-asan", "c23_arith", (100, 6000), args=dict(mode="floats"), seedoff=1500)],
  require=["exhaustive-batches", "exact-results", "results-at-limits", "range-errors", "division-by-zero", "fp-results", "fp-results-near-limits", "fp-range-errors", "fp-division-by-zero"])

spec("C24",
  "input/output monitor: every cast function run in transactions, results and recovery codes compared with the exact value; rollback of preceding writes observed; UndefinedBehaviorSanitizer",
  "All values of 8- and 16-bit sources; wider sources by boundary and random values.",
  "A case is one of the casts between native types (174) or to bounded user-defined types (65) with up to 4096 values, in turn; for wide sources limits of source and destination, powers of two, small and random values. "
  "Distinct by cast and value (every fourth value is counted).",
  [job("cast-plain", "c24_cast", (4200, 200000), "plain"),
   job("cast-asan", "c24_cast", (500, 20000), seedoff=500)],
  require=["exhaustive-batches", "values-kept", "values-at-limits", "range-errors", "values-to-float", "float-values", "float-range-errors"])

spec("C25",
  "input/output monitor: all 255 functions run in transactions next to the C library's; result bits, secondary results, recovery error, exception flags, errno, rounding mode and preceding writes compared; environment programs with conflicts and errors; sanitizers",
  "Every function is called with the same number of arguments; arguments and environments are sampled.",
  "A case is 100 calls of one function with zeros, subnormals, infinities, NaNs, extremes, integers, halves and random values under random rounding modes, preset flags and errno; "
  "or up to 4 transactions that save and change the floating-point environment and commit, fail or restart; or threads using lgamma's shared sign. Distinct by function and arguments or by operation sequence.",
  [job("fn-plain", "c25_libm", (2550, 200000), "plain", args=dict(mode="fn")),
   job("fn-asan", "c25_libm", (765, 40000), args=dict(mode="fn"), seedoff=500),
   job("env-plain", "c25_libm", (3000, 200000), "plain", args=dict(mode="env"), seedoff=1000),
   job("env-asan", "c25_libm", (1000, 60000), args=dict(mode="env"), seedoff=1500),
   job("conc-plain", "c25_libm", (100, 10000), "plain", weight=4, args=dict(mode="conc", threads=4), seedoff=2000),
   job("conc-tsan", "c25_libm", (40, 3000), "tsan", weight=4, args=dict(mode="conc", threads=4), seedoff=2500)],
  require=["results-equal", "errors-reported", "results-with-flags-set-before", "errors-with-flags-set-before", "secondary-results", "secondary-results-undone",
           "complex-results", "signgam-negative", "flags-undone", "errno-undone", "env-committed", "env-failed", "env-restarted", "rounding-changed", "flags-raised", "conc-committed", "conc-failed"])

spec("C30",
  "monitor of the dynamic symbol table: the library is built with hidden visibility as in picotm's own build, every public function is looked up at run time as a linked program would; programs that include each public header first and alone, or use the static initialisers, are built and run with the configuration headers made from the tree's templates; every public function and every typed operation must be declared, and have the type of its C counterpart; thread functions called in transactions",
  "All 564 functions that the public headers declare, and all 65 headers, with gcc and clang in GNU C11 and C17.",
  "A case is one declared function, one header or program with one compiler and standard, or 4 threads running transactions with the thread functions.",
  [job("hidden", "c30_exports", (900, 2300), "hidden", weight=2)],
  require=["functions-found", "programs-run", "headers-compiled", "declarations-checked", "prototypes-checked", "thread-transactions"])

spec("C26",
  "model comparison of thread-local data after every operation; linearizability check of recorded histories of shared data per address; race detector on the shared items; sanitizers",
  "Every history of up to 48 operations is checked exhaustively; schedules are sampled by stress and delays.",
  "A case is 3-8 threads with up to 9 transactions of up to 8 operations on up to 24 addresses (equal in all but one bit, zero, the highest ones), with conflicts, errors, restarts and threads that release and come back; distinct by address history.",
  [job("asan", "c26_ptrdata", (1500, 100000), weight=4, args=dict(threads=4)),
   job("plain", "c26_ptrdata", (4000, 300000), "plain", weight=8, args=dict(threads=8), seedoff=500),
   job("plain3", "c26_ptrdata", (3000, 200000), "plain", weight=3, args=dict(threads=3), seedoff=700),
   job("tsan", "c26_ptrdata", (500, 30000), "tsan", weight=4, args=dict(threads=4), seedoff=1000)],
  require=["local-gets", "local-clears", "local-sets", "payloads-read", "restarted", "failed", "releases", "shared-test-and-sets", "shared-clears", "histories-linearized", "histories-with-overlap"])

spec("C27",
  "fault injection: each allocation of the library (and those of the C library made for it) fails in turn, also persistently up to and including the rollback; oracle over complete images of memory, containers, blocks, descriptors, files, directory and locale, event balance, recovery error and a ledger of live blocks; sanitizers",
  "All allocations of programs with up to 80 of them, every n-th of longer ones; programs are sampled.",
  "A case is a random program of up to 12 operations over all modules, run once without failure and once per allocation with that allocation (or it and all later ones) failing; "
  "the recovery gives up (initial state expected) or restarts (state of the run without failure expected). Distinct by operations and failing allocation.",
  [job("oom-plain", "c27_oom", (1800, 60000), "plain", extra=WRAP27, args=dict(watch=20)),
   job("oom-plain2", "c27_oom", (1800, 60000), "plain", extra=WRAP27, args=dict(watch=20), seedoff=500),
   job("oom-plain3", "c27_oom", (1800, 60000), "plain", extra=WRAP27, args=dict(watch=20), seedoff=600),
   job("oom-plain4", "c27_oom", (1800, 60000), "plain", extra=WRAP27, args=dict(watch=20), seedoff=700),
   job("oom-asan", "c27_oom", (500, 15000), extra=WRAP27, args=dict(watch=40), seedoff=1000),
   job("oom-asan2", "c27_oom", (500, 15000), extra=WRAP27, args=dict(watch=40), seedoff=1500)],
  require=["programs", "allocations-seen", "failures-injected", "failures-persistent", "recovered", "gave-up", "restarted", "leak-checks"])

spec("C31",
  "model comparison: each descriptor operation runs in a transaction on one descriptor and plainly on an equal twin; result, errno, data, queue lengths, flags, locks and the census of descriptors are compared; sanitizers",
  "All pairs of kind and operation occur many times; arguments and sequences are sampled.",
  "A case is a set of descriptors of up to 12 kinds with twins and transactions of random operations, some invalid for the kind, ending in commit, abort or restart; distinct by sequence of kinds, operations and results.",
  [job("kinds", "c31_kinds", (60000, 3000000), weight=2),
   job("kinds-plain", "c31_kinds", (120000, 6000000), "plain", weight=2, seedoff=500),
   job("kinds-msan", "c31_kinds", (8000, 300000), "msan", weight=2, seedoff=900)],
  require=["errno-restored", "comparisons", "errors-compared", "queued-bytes-compared", "committed", "aborted", "restarted", "irrevocable", "connected-or-bound", "connections-accepted", "record-locks-held", "would-block"])

spec("C32",
  "child processes end within a transaction; oracle over wait status, shared memory, the file written and a record of exit handlers; sanitizers",
  "Schedules are sampled by stress.",
  "A case is a process with up to 8 concurrent threads and a transaction with up to 23 operations (memory, file, allocation, events) that is restarted up to 12 times and ends in one of the four functions; each execution draws other operations. Distinct by kind, threads, executions and data.",
  [job("exit", "c32_exit", (6000, 400000), "plain", weight=4, args=dict(threads=8, watch=60)),
   job("exit2", "c32_exit", (6000, 400000), "plain", weight=4, args=dict(threads=8, watch=60), seedoff=300),
   job("exit-asan", "c32_exit", (2500, 100000), weight=4, args=dict(threads=8, watch=60), seedoff=500),
   job("sleep", "c32_exit", (12, 400), "plain", weight=1, args=dict(mode="sleep", watch=60), seedoff=900)],
  require=["processes", "restarted", "exit", "abort", "exit-without-handlers", "with-threads", "handler-transactions", "events-applied", "bytes-compared", "sleeps", "sleep-signals"])

spec("C33",
  "model comparison after every operation on lists and tables; overlap counters, liveness words and exactly-once counters for references, locks and lazily initialised state on concurrent threads; ThreadSanitizer and sanitizers",
  "Contents and operations are sampled; schedules are sampled by stress.",
  "A case is a sequence of list or table operations with a model, or up to 8 threads that acquire and release references, global and shared state (with failing initialisers) and spinlocks; distinct by contents.",
  [job("lib", "c33_lib", (60000, 4000000), weight=2),
   job("lib-plain", "c33_lib", (60000, 4000000), "plain", weight=2, seedoff=300),
   job("lib-msan", "c33_lib", (20000, 600000), "msan", weight=2, seedoff=500),
   job("threads", "c33_lib", (150, 10000), "plain", weight=6, args=dict(mode="threads", threads=6, watch=60), seedoff=700),
   job("threads-tsan", "c33_lib", (40, 3000), "tsan", weight=6, args=dict(mode="threads", threads=6, watch=60), seedoff=900)],
  require=["list-states", "searches", "walks", "sorted-inserts", "clean-ups", "table-resizes", "table-walks", "table-reverse-walks", "table-uniqs", "counter-steps", "error-states",
           "references-acquired", "references-refused", "initialisers-failed", "initialisations", "critical-sections", "try-locks-failed"])

# The workloads of all other checks, with other seeds, as input of the sanitizers.
def all_workloads(kind):
    w = []
    def add(name, harness, cases, args, weight=2, extra=()):
        w.append(job(f"{name}-{kind}", harness, cases, kind, weight=weight, args=args, seedoff=70000, extra=list(extra)))
    a, t, m = kind == "asan", kind == "tsan", kind == "msan"
    add("mix6", "c28_mix", (900 if a else 250 if t else 200, 60000), dict(threads=6, watch=60), 6)
    add("mix1", "c28_mix", (900 if a else 400, 60000), dict(threads=1, watch=60), 2)
    add("mix16", "c28_mix", (150 if a else 60, 20000), dict(threads=16, watch=60), 8)
    add("tm", "c01_tm", (40 if a else 20, 3000), dict(threads=6), 6)
    if not t:
        add("commit", "c02_tm", (20000 if a else 4000, 600000), dict(mode="commit"))
        add("abort", "c02_tm", (10000 if a else 3000, 600000), dict(mode="abort"))
        add("string", "c17_string", (30000 if a else 8000, 600000), dict())
        add("io", "c18_file", (3000 if a else 800, 300000), dict(mode="io"))
        add("fd", "c18_file", (3000 if a else 800, 200000), dict(mode="fd"))
        add("map", "c10_treemap", (4000 if a else 1000, 400000), dict(mode="map"))
        add("lib-seq", "c12_txlib", (20000 if a else 4000, 600000), dict(mode="seq", arg=15))
        add("locks-seq", "c07_rwlock", (30000 if a else 5000, 1000000), dict(mode="seq"))
        add("stream-seq", "c20_stream", (1500 if a else 400, 100000), dict(mode="seq"), 4)
        add("proc-seq", "c22_proc", (2000 if a else 500, 100000), dict(mode="seq"))
        add("kinds", "c31_kinds", (8000 if a else 1500, 300000), dict())
        add("mod-lib", "c33_lib", (8000 if a else 1500, 300000), dict())
        add("alloc-seq", "c16_alloc", (3000 if a else 600, 100000), dict(mode="seq"), extra=WRAP)
        add("ints", "c23_arith", (140 if a else 30, 6000), dict(mode="ints"))
        add("cast", "c24_cast", (250 if a else 60, 10000), dict())
        add("fenv", "c25_libm", (800 if a else 200, 40000), dict(mode="env"))
    if a:
        add("libm", "c25_libm", (510, 20000), dict(mode="fn"))
        add("oom", "c27_oom", (250, 10000), dict(watch=40), extra=WRAP27)
    add("log", "c04_log", (2000 if a else 400, 50000), dict(threads=4), 4)
    add("irrevocable", "c05_irrev", (100, 5000), dict(threads=6), 6)
    add("storm", "c06_progress", (15, 1500), dict(mode="storm", threads=12, watch=60), 6)
    add("churn", "c06_progress", (25, 1500), dict(mode="churn", arg=30, watch=60), 6)
    add("locks", "c07_rwlock", (150, 5000), dict(threads=8), 6)
    add("errors", "c08_error", (250 if a else 60, 15000), dict(threads=4), 4)
    add("smap", "c10_treemap", (500 if a else 300, 20000), dict(mode="smap", threads=8), 6)
    add("refs", "c10_treemap", (2000 if a else 1000, 60000), dict(mode="ref", threads=5), 4)
    add("lib", "c12_txlib", (80, 5000), dict(mode="conc", threads=6), 6)
    add("alloc", "c16_alloc", (150 if a else 60, 6000), dict(mode="conc", threads=6), 6, WRAP)
    add("file", "c19_file", (300 if a else 100, 15000), dict(threads=5), 5)
    add("stream", "c20_stream", (60, 4000), dict(mode="conc", threads=5), 5)
    add("proc", "c22_proc", (60, 4000), dict(mode="conc", threads=5), 5)
    if not m:
        add("signgam", "c25_libm", (30, 3000), dict(mode="conc", threads=4), 4)
        add("mod-threads", "c33_lib", (30, 2000), dict(mode="threads", threads=6, watch=60), 6)
        add("ptrdata", "c26_ptrdata", (500 if a else 300, 20000), dict(threads=4), 4)
    return w
spec("C28",
  "AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer and the library's assertions over random programs that mix all modules on up to 16 threads, and over the workloads of all other checks",
  "Sampled programs, inputs and schedules. Only what the sanitizers and assertions report is judged here; wrong results are the other checks' matter.",
  "A case is a program of concurrent threads with up to 31 transactions of up to 12 operations over all modules, or a case of another check's workload.",
  all_workloads("asan") + all_workloads("msan"),
  require=["committed", "recoveries", "restarted-commits", "releases", "failures-injected", "operations", "op-pwrite", "records-moved"],
  sigs=r"(asan|leak|ubsan|msan|assert|exit|crash):")
spec("C29",
  "ThreadSanitizer over random programs that mix all modules on up to 16 threads, and over the concurrent workloads of all other checks",
  "Sampled programs and schedules; a race is reported if both accesses occur in an execution without an order between them, whatever the timing.",
  "A case is a program of concurrent threads with up to 31 transactions of up to 12 operations over all modules, or a concurrent case of another check's workload.",
  all_workloads("tsan"),
  require=["committed", "recoveries", "restarted-commits", "releases", "thread-lives", "conflicts", "shared-lookups", "histories-linearized"],
  sigs=r"tsan:")

# The quick tiers above, scaled to about 20-30 s on 8 cores.
QUICK_FACTOR = dict(C01=25, C02=30, C03=25, C04=40, C05=3, C06=1.5, C07=2, C08=8, C09=3, C10=5, C11=4, C12=10, C13=10, C14=10,
                    C15=7, C16=2.5, C17=6, C18=4, C19=1.5, C20=2, C21=8, C22=3.5, C23=60, C24=40, C25=40, C26=5, C28=1.2, C29=1.5, C31=2, C33=4)
for _p, _f in QUICK_FACTOR.items():
    for _j in SPECS[_p]["jobs"]:
        _j["cases"] = (int(_j["cases"][0] * _f), int(_j["cases"][1] * max(1, _f / 5)))

# Very long transactions, one mode for each module.
for _p, _m in dict(C02="mem", C03="mem", C12="list many", C13="queue stack", C14="mset", C16="alloc", C18="file", C20="stream", C21="fd", C22="cwd locale", C26="ptrdata").items():
    for _i, _k in enumerate(_m.split()):
        _so = 9000 + 100 * _i + int(_p[1:])
        SPECS[_p]["jobs"] += [job("long-" + _k, "c_long", (24, 1500), args=dict(mode=_k), seedoff=_so),
                              job("long-" + _k + "-plain", "c_long", (48, 6000), "plain", args=dict(mode=_k), seedoff=_so + 50)]
    SPECS[_p]["require"] = SPECS[_p]["require"] + ["long-operations"]
    SPECS[_p]["rule"] += " Or one or two transactions of 120 to 70000 operations of the module on a single thread."
