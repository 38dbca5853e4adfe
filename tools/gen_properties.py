#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Edit the table here, then re-run."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

TM = "modules/tm/src/"
LC = "modules/libc/src/"
TX = "modules/txlib/src/"

p("C01", "Committed transactions on shared memory are serializable and opaque",
  "Concurrent transactions that load and store shared memory, mixed freely with transactions that become irrevocable, have the same outcome as some one-at-a-time execution of exactly the committed ones, in an order that respects real time. No transaction, including one that is later rolled back, ever observes a combination of values that no serial execution could have produced. No committed update is lost and no update of an uncommitted transaction is visible to another thread.",
  ["schedules", "programs", "histories"],
  "Every set of transaction programs over every layout of shared variables (same block, neighbouring bytes, block-crossing), every number of threads and every interleaving.",
  "The tests run a few fixed counters/arrays with at most 4 threads and compare a final value; they never record what individual transactions saw, so zombie reads, write skew and lost updates on other layouts go unseen.",
  ["src/picotm.c", "src/picotm_tx.c", "src/picotm_lock_manager.c", TM+"vmem_tx.c", TM+"vmem.c", TM+"frame.c", TM+"page.c", TM+"framemap.c"],
  [("per-frame reader/writer locks held until commit or rollback", TM+"frame.c"), ("buffered or in-place transactional pages", TM+"page.c"), ("apply during commit before unlock", TM+"vmem_tx.c:tm_vmem_tx_apply"), ("irrevocable transactions exclude all others", "src/picotm_lock_manager.c")],
  observe=["values returned by load_*_tx / loadstore_tx, values after commit"])

p("C02", "Transactional memory operations behave like plain memory inside and after",
  "Within one transaction, any sequence of transactional loads, stores, copies, privatizations and raw accesses to privatized memory on any byte ranges reads exactly what the same sequence of plain memory operations would read. After commit, memory holds exactly the bytes the sequence wrote, and every other byte is untouched.",
  ["inputs", "programs"],
  "Every sequence of tm operations with every size, alignment, overlap and privatization flag.",
  "Tests use aligned C scalars and a handful of privatize calls; partially overlapping ranges, block and page boundaries and mixed buffered/in-place blocks are not sampled.",
  [TM+"module.c", TM+"vmem_tx.c", TM+"page.c", TM+"block.h", "modules/tm/include/picotm/picotm-tm.h", "modules/tm/include/picotm/picotm-tm-ctypes.h"],
  [("tm_vmem_tx_ld/st/ldst/privatize", TM+"vmem_tx.c"), ("per-block bitmaps in pages", TM+"page.c")],
  observe=["return buffers of tm operations", "memory contents after commit"])

p("C03", "A transaction that does not commit leaves shared memory as it found it",
  "Whenever an execution of a transaction ends without committing, because of a conflict, an explicit restart, or an error that went to recovery, every byte of memory it accessed through the transactional memory interface, including memory it privatized and then modified directly, has the value it had before that execution. Locks and resources of that execution are released, so another thread can access the same memory at once.",
  ["programs", "schedules", "fault_sequences"],
  "Every transaction body, every point at which it is aborted, and every cause of the abort.",
  "Tests abort in a few fixed places and check one or two variables.",
  [TM+"vmem_tx.c", TM+"page.c", "src/picotm.c", "src/picotm_tx.c", "src/picotm_log.c"],
  [("undo of in-place pages, discarding buffered pages", TM+"vmem_tx.c:tm_vmem_tx_undo"), ("rollback protocol", "src/picotm_tx.c:picotm_tx_rollback")],
  observe=["memory after abort", "lock availability from another thread"])

p("C04", "Logged events are applied in order at commit and undone in reverse on abort",
  "Every event that a module logs during an execution of a transaction gets exactly one of the apply or undo callbacks: all events are applied in logging order if that execution commits, and all are undone in reverse logging order if it does not, before any later execution starts. Each registered module sees begin, prepare-commit, apply or undo, release and finish in the documented order, with the module and event arguments it supplied.",
  ["programs", "histories", "fault_sequences"],
  "Every number of modules and events, every interleaving of their logging with aborts and every cause of an abort, across successive executions on a thread.",
  "The module tests register a single module with few callbacks; event order over many modules, re-executions and log growth is never checked.",
  ["src/picotm_log.c", "src/picotm_module.c", "src/picotm_event.c", "src/picotm_tx.c", "include/picotm/picotm-module.h"],
  [("picotm_log apply/undo", "src/picotm_log.c"), ("module callbacks", "src/picotm_module.c"), ("commit and rollback sequencing", "src/picotm_tx.c")],
  observe=["sequence of callbacks recorded by user modules"])

p("C05", "An irrevocable transaction runs alone and is never re-executed",
  "Once a transaction has become irrevocable, by request, by retry limit, or through an operation that needs it, no other transaction on any thread runs its body or commits until the irrevocable one has finished. From that point on it is not rolled back because of conflicts, and its irrevocability is reported truthfully.",
  ["schedules", "programs"],
  "Every number of threads, every mix of revocable and irrevocable transactions and all interleavings.",
  "Tests only check that picotm_irrevocable makes one counter come out right; overlap with other transactions is never observed.",
  ["src/picotm.c", "src/picotm_tx.c", "src/picotm_lock_manager.c", "include/picotm/picotm.h"],
  [("exclusive owner lock", "src/picotm_lock_manager.c"), ("MODE_IRREVOCABLE restart", "src/picotm.c")],
  observe=["begin/end event log of transactions", "picotm_is_irrevocable"])

p("C06", "Every transaction completes under contention; locks are never lost",
  "Under any load of finitely many transactions, each one eventually commits or reports an error: a transaction is re-executed a bounded number of times before it is made to succeed, and no interleaving deadlocks or leaves a lock held by nobody. This holds for any number of threads up to the documented limits, including threads that start and exit while others run.",
  ["schedules", "configurations", "histories"],
  "Every number of threads (well beyond the 4 used by tests), every conflict pattern and every wake-up order of waiting transactions.",
  "Tests use 1 or 4 threads and short transactions, so waiting (which starts only for transactions older than a second) and more than 15 lock owners never happen.",
  ["src/picotm_lock_manager.c", "src/picotm_lock_owner.c", "src/picotm-lib-rwlock.c", "src/picotm.c", "src/picotm_os_timespec.c", "src/picotm_os_cond.c"],
  [("retry limit", "src/picotm_tx.c"), ("waiting lists and wake-up", "src/picotm_lock_manager.c"), ("reader-count and waiter encoding", "src/picotm-lib-rwlock.c")],
  observe=["re-execution counts", "termination of workloads", "picotm_number_of_restarts"])

p("C07", "Reader/writer locks admit one writer or several readers, never both",
  "At every moment a transactional reader/writer lock is held either by no one, by one writer, or by any number of readers, for any sequence of lock, upgrade, downgrade and unlock calls from any number of threads. A lock request that reports a conflict leaves the lock and the caller's state unchanged, and unlocking everything makes the lock available to everyone again.",
  ["schedules", "histories", "inputs"],
  "All operation sequences by all numbers of owners on a lock, including reader-count saturation, concurrent upgrades, arrays of locks and repeated locking by the same owner.",
  "The lock library has no unit tests of its own; it is exercised only indirectly.",
  ["src/picotm-lib-rwlock.c", "src/picotm-lib-rwlock.h", "src/picotm-lib-rwstate.c", "include/picotm/picotm-lib-rwlock.h", "include/picotm/picotm-lib-rwstate.h"],
  [("atomic counter with writer value", "src/picotm-lib-rwlock.c"), ("per-transaction lock state", "src/picotm-lib-rwstate.c")],
  observe=["critical-section occupancy", "return values"])

p("C08", "Errors reach the recovery phase exactly as raised, after a full rollback",
  "When an operation fails, control passes to the transaction's recovery phase with all effects of the transaction rolled back, and the status and code reported there (errno value, error code, signal, kernel code, and recoverability) are those of the failure. Restarting from recovery executes the transaction again from its start with a clean state, ending it there has no effects, and errors never leak into later transactions.",
  ["programs", "fault_sequences", "histories"],
  "Every error kind and code, raised at any point of a transaction, followed by restart or end, over sequences of transactions on a thread.",
  "Tests check one or two errno/code values with nothing to roll back.",
  ["src/picotm-error.c", "src/picotm.c", "include/picotm/picotm.h", "include/picotm/picotm-error.h", "src/picotm_tx.c"],
  [("picotm_recover_from_*", "src/picotm.c"), ("MODE_RECOVERY handling", "src/picotm.c")],
  observe=["picotm_error_status/as_*", "state after rollback"])

p("C09", "Threads can join and leave the system at any time without residue",
  "A thread may run transactions, release its transactional state with picotm_release() (as it has to before it exits), and run transactions again, any number of times and concurrently with other threads, without disturbing running transactions and without leaking memory, locks or owner slots. Transactions of threads that reuse a released slot behave like those of a fresh thread.",
  ["schedules", "histories"],
  "All sequences of thread creation, release and exit, with any number of live threads, at any moment relative to other threads' transactions.",
  "Tests create all threads once and join them at the end.",
  ["src/picotm.c", "src/picotm_lock_owner.c", "src/picotm_lock_manager.c", "include/picotm/picotm-lib-thread-state.h", "include/picotm/picotm-lib-global-state.h"],
  [("thread-state macros and TLS destructor", "include/picotm/picotm-lib-thread-state.h"), ("owner registration", "src/picotm_lock_manager.c")],
  observe=["leak checker", "results of concurrent transactions", "heap statistics over many thread generations"])

p("C10", "Tree maps hold exactly one stable value per key",
  "For every key, a tree map returns the same value on every lookup after it was created, creates a value only when asked to and only once, never mixes up keys, and destroys every value exactly once on tear-down. Concurrent lookups of the shared variant from any number of threads agree on one value per key, and values of losing creators are released.",
  ["inputs", "schedules", "histories"],
  "All key sets, key sizes and radix settings; all interleavings of concurrent finders.",
  "No unit test addresses the maps; users of them touch few, clustered keys.",
  ["src/picotm-lib-treemap.c", "src/picotm-lib-shared-treemap.c", "include/picotm/picotm-lib-treemap.h", "include/picotm/picotm-lib-shared-treemap.h"],
  [("compare-and-swap publication of directories and values", "src/picotm-lib-shared-treemap.c")],
  observe=["find results, create/destroy callback counts"])

p("C11", "Shared reference-counted objects are set up and torn down exactly once",
  "A shared reference-counted object is initialised exactly when its first reference is taken and finalised exactly when the last one is dropped, never both at once and never while a reference exists, for any interleaving of taking, conditionally taking and dropping references. A failed initialisation or an unfulfilled condition takes no reference.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of up/down operations from any number of threads and failures of the first-reference callback.",
  "There are no unit tests for the counters; application tests rarely hit first/last reference races.",
  ["src/picotm-lib-shared-ref-obj.c", "include/picotm/picotm-lib-shared-ref-obj.h", "include/picotm/picotm-lib-ref.h"],
  [("spin-locked or atomic counter with init/final callbacks", "src/picotm-lib-shared-ref-obj.c")],
  observe=["init/final callback log"])

p("C12", "Transactional lists behave like sequences and roll back completely",
  "Within a transaction, a transactional list answers every query (size, emptiness, front, back, iteration) as a sequential list would after the operations so far; after commit other transactions see that list and after an abort they see the list as it was before. Inserting, erasing, pushing, popping and clearing at any position keep the order of all other elements.",
  ["programs", "inputs", "fault_sequences"],
  "All sequences of list operations over transactions that commit or abort at any point.",
  "Tests perform short scripted sequences and never abort after several operations.",
  [TX+"txlist.c", TX+"txlist_state.c", TX+"txlist_tx.c", TX+"txlib_tx.c", TX+"txlib_event.c", TX+"txlib_event.c"],
  [("operations applied immediately with logged inverse", TX+"txlist_tx.c")],
  observe=["public txlist functions"])

p("C13", "Transactional queues and stacks keep FIFO and LIFO order and roll back",
  "Transactional queues return elements in exactly the order they were pushed, stacks in the reverse order, within and across transactions; sizes and emptiness are always those of the sequential container. After an abort the container has exactly the elements and order it had before the transaction.",
  ["programs", "inputs", "fault_sequences"],
  "All sequences of push/pop/front/top/size/empty over transactions that commit or abort at any point, including popping elements pushed by the same transaction.",
  "Tests are short scripts without aborts in the middle.",
  [TX+"txqueue_tx.c", TX+"txqueue_state.c", TX+"txstack_tx.c", TX+"txstack_state.c", TX+"txlib_tx.c"],
  [("local push/pop lists merged at commit", TX+"txqueue_tx.c"), ("local push/pop lists merged at commit", TX+"txstack_tx.c")],
  observe=["public txqueue/txstack functions"])

p("C14", "Transactional multisets stay sorted, complete and searchable",
  "A transactional multiset always contains exactly the elements inserted and not erased, iterates over them in non-decreasing key order, and finds, counts and bounds keys accordingly, whatever the insertion order and number of equal keys. After an abort it has exactly the elements it had before the transaction.",
  ["programs", "inputs", "fault_sequences"],
  "All sequences of insert/erase/find/count/lower_bound/upper_bound/clear, including many equal keys, over transactions that commit or abort at any point.",
  "Tests insert a few keys in simple orders; equal keys with subtrees are not covered.",
  [TX+"txmultiset_state.c", TX+"txmultiset_tx.c", TX+"txmultiset.c", TX+"txlib_event.c", TX+"txmultiset_entry.c"],
  [("binary tree with lists of equal keys", TX+"txmultiset_state.c")],
  observe=["public txmultiset functions"])

p("C15", "Concurrent transactions on containers lose and duplicate nothing",
  "When many threads concurrently move elements between transactional containers, every element is in exactly one place at every committed moment, multi-container transactions appear atomic, and each queue or stack keeps its order per producer. No thread ever observes a container in a state that no serial execution produces.",
  ["schedules", "histories"],
  "All interleavings of transactions of any number of threads on any mix of lists, queues, stacks and multisets.",
  "Tests push per-thread elements and look only at totals with 4 threads.",
  [TX+"txlist_tx.c", TX+"txqueue_tx.c", TX+"txstack_tx.c", TX+"txmultiset_tx.c", TX+"txlib_tx.c", "src/picotm-lib-rwstate.c"],
  [("container reader/writer locks", TX+"txlib_tx.c"), ("head and tail locks of queues", TX+"txqueue_tx.c")],
  observe=["contents reported by transactions", "element ledger"])

p("C16", "Transactional allocation never leaks, loses or double-frees memory",
  "Memory allocated by a transaction that aborts is released, memory freed by a transaction that aborts remains allocated with its contents, and memory freed by a transaction that commits is released exactly once and not before commit. Allocated blocks have the requested size, alignment and (for zeroed or resized blocks) contents, and requests that cannot be satisfied fail through recovery without effect. An abort restores errno.",
  ["programs", "inputs", "fault_sequences", "schedules"],
  "All sequences of malloc/calloc/realloc/posix_memalign/free/strdup-like operations of all sizes over transactions that commit or abort at any point, from any number of threads.",
  "Tests allocate and free single small blocks; abort paths are covered by one test each and nobody counts blocks.",
  [LC+"stdlib.c", LC+"stdlib-tm.c", LC+"allocator/allocator_tx.c", LC+"allocator/module.c", "modules/libc/include/picotm/stdlib.h"],
  [("log of allocations and deferred frees", LC+"allocator/allocator_tx.c")],
  observe=["interposed malloc/free ledger", "AddressSanitizer", "block contents"])

p("C17", "Transactional string and memory functions equal their C counterparts",
  "For every valid input, each transactional string, memory and conversion function returns what the C library function of that name returns and leaves the same bytes in memory on commit, touching no byte outside the ranges the C function may touch. On abort, destination memory and errno are unchanged. Format conversions it does not support are refused through error recovery, without effect.",
  ["inputs"],
  "All functions of the transactional string.h/stdio.h/stdlib.h interfaces, on all lengths, alignments, contents (including bytes above 127) and overlaps that the C standard allows.",
  "Tests use one or two short ASCII strings per function.",
  [LC+"string-tm.c", LC+"string.c", LC+"stdio-tm.c", LC+"stdio.c", LC+"stdlib-tm.c", "modules/libc/include/picotm/string.h"],
  [("privatize-then-call wrappers", LC+"string-tm.c")],
  observe=["return value and memory image compared with the C library"])

p("C18", "File I/O in a transaction behaves like POSIX and is atomic",
  "Inside a transaction, reads, writes, seeks, their positional variants and changes of the file mode on a regular file return what they would return on a plain POSIX file after the same operations, including the transaction's own pending writes, end-of-file and holes. After commit the file's content, size, mode and offset are those of the plain execution; after an abort they are unchanged.",
  ["programs", "inputs", "fault_sequences"],
  "All sequences of read/write/pread/pwrite/lseek with all offsets and sizes, on all file sizes and open modes, over transactions that commit or abort at any point.",
  "Tests use short aligned strings at the start of small files.",
  [LC+"fildes/regfile_tx.c", LC+"fildes/seekbuf_tx.c", LC+"fildes/iooptab.c", LC+"fildes/iooptab.c", LC+"fildes/seekbuf.c", LC+"fildes/fd_tx.c", LC+"fildes/fildes_tx.c"],
  [("write log with overlay for own reads", LC+"fildes/iooptab.c"), ("apply at commit", LC+"fildes/regfile_tx.c")],
  observe=["return values, buffers, errno; file image, size and offset after the transaction"])

p("C19", "Concurrent transactional file access is isolated",
  "Concurrent transactions that read and write overlapping regions of a shared file behave as if executed one at a time: none sees part of another's writes, read-modify-write transactions lose no update, and records that cross internal region boundaries are protected as well. Region protection is released when transactions end and never carries over to other files.",
  ["schedules", "histories"],
  "All interleavings of file transactions from any number of threads over any byte ranges and any number of files.",
  "Tests write disjoint or identical lines and check only the final file with 4 threads.",
  [LC+"fildes/seekbuf.c", LC+"fildes/seekbuf_tx.c", LC+"fildes/rwcountermap.c", LC+"fildes/rwlockmap.c", LC+"fildes/regiontab.c", LC+"fildes/file_tx.c", LC+"fildes/filebuf.c"],
  [("region locks in fixed-size records", LC+"fildes/rwcountermap.c"), ("file offset and size locks", LC+"fildes/file_tx.c")],
  observe=["versioned records read back by transactions"])

p("C20", "Pipes, FIFOs and sockets deliver committed data once and in order",
  "Data that a transaction writes to a pipe, FIFO or socket becomes visible to readers exactly once, in program order, when the transaction commits, and never if it does not. Data that a transaction reads is consumed exactly once and never lost by an abort. Signals that interrupt a blocking call, and calls that transfer only a part, change nothing about this.",
  ["programs", "schedules", "fault_sequences"],
  "All sequences of transactional reads and writes on streams, all sizes, all abort points, and all interleavings of several writers and readers.",
  "Tests send one short string in one direction.",
  [LC+"fildes/fifo_tx.c", LC+"fildes/pipebuf_tx.c", LC+"fildes/socket_tx.c", LC+"fildes/sockbuf_tx.c", LC+"fildes/iooptab.c", LC+"fildes/iooptab.c"],
  [("buffered stream writes", LC+"fildes/iooptab.c"), ("irrevocable reads", LC+"fildes/fifo_tx_ops.c")],
  observe=["bytes received on the other end by an independent reader"])

p("C21", "Descriptors opened or closed in a transaction follow its outcome",
  "Descriptors that a transaction opens, duplicates or otherwise creates exist after commit and are gone after an abort, together with files it created exclusively (open with O_CREAT and O_EXCL, mkstemp); pre-existing files and descriptors survive an abort unharmed. Descriptors closed by a transaction are closed exactly once after commit and remain usable after an abort, and invalid descriptors are reported as EBADF.",
  ["programs", "fault_sequences", "histories"],
  "All sequences of open (all flags), creat, mkstemp, dup, pipe, socket, fcntl and close over transactions that commit or abort at any point.",
  "Tests open and close one file per transaction and do not look at the descriptor table or directory afterwards.",
  [LC+"fildes/fildes_tx.c", LC+"fildes/openop.c", LC+"fildes/fdtab.c", LC+"fildes/fd.c", LC+"fildes/fd_tx.c", LC+"fcntl.c", LC+"unistd.c"],
  [("event log for opens and deferred closes", LC+"fildes/fildes_tx.c"), ("reference-counted descriptor entries", LC+"fildes/fd.c")],
  observe=["/proc/self/fd style census via fcntl/fstat", "directory contents"])

p("C22", "Working directory, errno, locale and signal state follow the outcome",
  "The working directory, the thread's errno and the locale change as requested by a committed transaction and are restored when the transaction aborts. Paths a transaction obtains agree with the working directory it sees, and concurrent transactions never observe another transaction's uncommitted working directory or locale. Locale objects passed to a transaction remain valid and unchanged unless it commits their release. A signal enabled for recovery on a thread moves its running transaction into recovery with an error that names the signal; every other signal reaches the program's own handler.",
  ["programs", "fault_sequences", "schedules"],
  "All sequences of directory, path, locale, signal and errno-changing operations over transactions that commit or abort at any point, alone and concurrently.",
  "Tests change directory once and do not check rollback of errno or locale.",
  [LC+"cwd/cwd_tx.c", LC+"cwd/cwd.c", LC+"cwd/module.c", LC+"locale/locale_tx.c", LC+"locale/module.c", LC+"error/error_tx.c", LC+"signal/module.c", LC+"unistd.c", LC+"stdlib.c"],
  [("logged chdir with undo", LC+"cwd/cwd_tx.c"), ("saved errno", LC+"error/error_tx.c"), ("saved locale", LC+"locale/locale_tx.c")],
  observe=["getcwd, errno, setlocale(NULL) before, during and after transactions"])

p("C23", "Checked arithmetic returns the exact result or reports the range error",
  "Each transactional addition, subtraction, multiplication and division on any C integer type, and on any bounded type defined with the public macros, returns the mathematically exact result whenever that result is within the type's range; otherwise it does not return but undoes the transaction and enters recovery with ERANGE, or EDOM for a division by zero. On finite floating-point operands the operations return the IEEE result, and enter recovery with ERANGE if the result is beyond the type's range and with EDOM for a division by zero.",
  ["inputs"],
  "All operand pairs of all types and all four operations.",
  "Tests check a few boundary pairs per type.",
  ["modules/arithmetic/src/arithmetic.c", "modules/arithmetic/include/picotm/picotm-arithmetic.h", "modules/arithmetic/include/picotm/picotm-arithmetic-ctypes.h"],
  [("range pre-checks before each operation", "modules/arithmetic/include/picotm/picotm-arithmetic.h")],
  observe=["result or recovery error"])

p("C24", "Checked casts preserve the value or report the range error",
  "Each transactional cast between C types, and to bounded types defined with the public macro, returns a value equal to its argument whenever the argument is within the destination's range, rounded only where a floating-point destination lacks precision; otherwise it undoes the transaction and enters recovery with ERANGE. It never returns a wrapped or truncated value.",
  ["inputs"],
  "All pairs of source and target types and all argument values.",
  "Tests sample each pair with a few limits.",
  ["modules/cast/src/cast.c", "modules/cast/include/picotm/picotm-cast.h", "modules/cast/include/picotm/picotm-cast-ctypes.h"],
  [("range comparison before conversion", "modules/cast/include/picotm/picotm-cast.h")],
  observe=["result or recovery error"])

p("C25", "Transactional math functions equal the C library or report the math error",
  "Each transactional math function returns exactly the value of the C library function of the same name, including secondary results, and enters recovery precisely when that call reports a domain, pole or range error, whatever exception flags or errno earlier operations left. Flags and errno set earlier remain set; what a call changed is restored when it fails or the transaction aborts later. A floating-point environment that a transaction saved through the interface is restored when the transaction aborts and keeps its changes when it commits. Secondary results and the sign of lgamma are undone on abort and never seen uncommitted by others.",
  ["inputs", "fault_sequences"],
  "All functions of the transactional math.h and complex.h interfaces and the environment-saving calls, all argument values including zeros, subnormals, infinities, NaNs and extremes.",
  "Tests call each function with one harmless argument.",
  ["modules/libm/src/math.c", "modules/libm/src/complex.c", "modules/libm/src/matherr.h", "modules/libm/src/matherr.c", "modules/libm/src/fpu_tx.c", "modules/libm/src/fpu_tx.h"],
  [("exception-flag check around each call", "modules/libm/src/matherr.h"), ("saved floating-point environment", "modules/libm/src/fpu_tx.c")],
  observe=["result bits, recovery error, exception flags"])

p("C26", "Thread-local and shared pointer data return what was stored",
  "Data that a thread attaches to an address is returned to that thread for exactly that address, over any number of transactions and whatever their outcome, until it is changed, cleared or the thread releases picotm; other threads never see it. Shared data attached to an address is the same for all threads; setting, getting, clearing and test-and-set are atomic, so that each history has an order in which every operation sees the result of its predecessor. What a thread stored in a data item before sharing it is visible to the threads that obtain it.",
  ["programs", "schedules", "histories"],
  "All sequences of set, test-and-set, get and clear over any number of addresses, transactions and threads.",
  "Tests use a couple of pointers in one transaction.",
  ["modules/ptrdata/src/module.c", "modules/ptrdata/src/ptrdata.c", "modules/ptrdata/src/ptrdata_tx.c", "modules/ptrdata/src/picotm-ptrdata.c", "modules/ptrdata/include/picotm/picotm-ptrdata.h"],
  [("compare-and-swap on the address's value", "modules/ptrdata/src/ptrdata.c"), ("per-thread map", "modules/ptrdata/src/ptrdata_tx.c")],
  observe=["returned data, intervals of operations"])

p("C27", "Failed allocations inside the library abort cleanly",
  "If any single memory allocation inside the library fails during a transaction, the transaction either still completes correctly or enters recovery with an out-of-memory error after a full rollback, and a retry with memory available succeeds. Nothing is leaked, corrupted or left locked.",
  ["fault_sequences"],
  "Every allocation made by every transactional operation on every path, each failing in turn.",
  "No test injects allocation failures.",
  ["src/picotm-lib-tab.c", "src/table.c", "src/picotm_log.c", "src/picotm_module.c", "src/picotm-lib-treemap.c", TX+"txlib_tx.c", LC+"fildes/fildes_tx.c", TM+"vmem_tx.c"],
  [("error propagation through struct picotm_error", "include/picotm/picotm-error.h")],
  observe=["interposed allocator, final state, error code"])

p("C28", "No transactional operation corrupts memory or has undefined behaviour",
  "Any program that uses the public interface within its documented preconditions runs without out-of-bounds or use-after-free accesses, uninitialised decisions, leaks at exit, failed internal assertions, or other undefined behaviour inside the library.",
  ["programs", "inputs", "schedules"],
  "All valid programs over all modules.",
  "Tests run single-threaded variants under valgrind with friendly inputs only; no undefined-behaviour instrumentation.",
  ["src/picotm_tx.c", "src/picotm-lib-tab.c", TM+"vmem_tx.c", LC+"fildes/fildes_tx.c", LC+"fildes/iooptab.c", TX+"txlib_tx.c"],
  [("bounds handled by tables and maps", "src/picotm-lib-tab.c")],
  observe=["AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer, assertions"])

p("C29", "The library itself is free of data races",
  "Concurrent transactions of any number of threads on any modules never cause two unsynchronised conflicting accesses, to the library's own state or to user memory accessed only through transactional operations.",
  ["schedules", "programs"],
  "All programs and interleavings over all modules.",
  "Tests do not run under a race detector.",
  ["src/picotm_lock_manager.c", "src/picotm-lib-rwlock.c", "src/picotm-lib-shared-treemap.c", "src/picotm-lib-shared-ref-obj.c", TM+"vmem.c", LC+"fildes/fdtab.c", LC+"fildes/filebuf.c"],
  [("C11 atomics and locks", "src/picotm-lib-rwlock.c")],
  observe=["ThreadSanitizer reports"])

p("C30", "The public headers and shared libraries work in any GNU C program",
  "A GNU C program can include any public header of picotm first and alone, use the static initialisers that the headers define, link to picotm's libraries and call every function and typed operation that the installed headers document; each wrapper takes and returns the types of the C function it stands for. The calling thread's identity is the same within transactions as outside.",
  ["programs"],
  "All installed headers with the configuration of the host, their static initialisers, all functions, macros and typed operations they document, with gcc and clang, in GNU C11 and C17.",
  "Tests call only some of the functions and include the headers behind others; a missing symbol or declaration only shows in programs that use it.",
  ["include/picotm/compiler.h", "modules/libm/src/math-tm.c", "modules/libpthread/src/pthread.c", LC+"unistd-tm.c"],
  [("PICOTM_EXPORT", "include/picotm/compiler.h")],
  observe=["dynamic symbol table"])

p("C31", "Operations on every kind of descriptor match the system call",
  "A descriptor operation in a transaction has the result, data and errno of the system call on an equal descriptor, whatever the descriptor refers to (regular file, directory, pipe, FIFO, socket, terminal or other device), including errors for operations that the kind does not support. This includes setting up sockets and connections, status flags and record locks. After the commit the descriptor, its queued data, flags and locks are those of the twin; after an abort before irrevocability they and errno are unchanged.",
  ["programs", "inputs"],
  "All pairs of a descriptor kind and an operation of the transactional descriptor interfaces, with valid and invalid arguments, as commit, abort or restart.",
  "Tests use each operation with the kind it is meant for; record locks and most errors are never tried.",
  [LC+"fildes/fildes_tx.c", LC+"fildes/socket_tx.c", LC+"fildes/fifo_tx.c", LC+"fildes/dir_tx.c", LC+"fildes/chrdev_tx.c", LC+"fildes/regfile_tx.c", LC+"fildes/fcntlop.c", LC+"fcntl-tm.c", LC+"sys_socket-tm.c"],
  [("operation tables of the descriptor kinds", LC+"fildes/socket_tx.c")],
  observe=["results, errno, queued data, flags, locks, census of descriptors next to a twin"])

p("C32", "A process that exits within a transaction commits it first",
  "exit_tx, _exit_tx, _Exit_tx and abort_tx terminate the process as the C functions of their names do, with that status or signal and with or without the exit handlers, after the transaction took effect completely and exactly once; its earlier aborted executions leave nothing. Exit handlers see the effects and can run transactions themselves. sleep_tx returns after the whole time has passed, despite signals.",
  ["programs", "schedules"],
  "All transactions that end in one of these functions, with any number of restarts and concurrent threads.",
  "Tests call them in one empty transaction.",
  [LC+"stdlib.c", LC+"unistd.c", "src/picotm.c", "src/picotm_tx.c"],
  [("commit before termination", LC+"stdlib.c")],
  observe=["wait status, shared memory and files after the process's end"])

p("C33", "Module-support data structures follow their documented behaviour",
  "picotm's lists keep their elements and links in the order that the operations imply; searches, walks and clean-ups visit exactly the elements that the interface names, in order, and stop as documented. Tables keep their contents when resized, walks visit each element once, and removal of duplicates keeps one of each. Reference counters, spinlocks and lazily initialised global and shared state stay correct with any number of threads: initialised once, torn down once after the last reference, never used in between.",
  ["programs", "inputs", "schedules"],
  "All sequences of operations on the data structures that picotm offers to module authors, and all schedules of the shared ones.",
  "Tests use fixed lists, tables and counters with one thread.",
  ["include/picotm/picotm-lib-slist.h", "src/picotm-lib-tab.c", "src/table.c", "include/picotm/picotm-lib-tab.h", "include/picotm/picotm-lib-ref.h", "include/picotm/picotm-lib-spinlock.h", "include/picotm/picotm-lib-global-state.h", "include/picotm/picotm-lib-shared-state.h", "src/picotm-error.c"],
  [("list links", "include/picotm/picotm-lib-slist.h"), ("table walks", "src/table.c")],
  observe=["contents next to a model after every operation, counters of overlapping users"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
