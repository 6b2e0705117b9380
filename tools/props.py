"""Single source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""
TESTS = "The existing tests exercise a handful of lib/ classes (chatter, crc64, fd, limits, namedptr, path, process, progress, seeker, table, task) on fixed inputs and run nothing of src/; "
P = []
NA = []


def prop(id, title, statement, over, q, why, files, mech, technique, level="proof", note="", state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, state=state, observe=observe))


def na(id, title, statement, over, q, why, files, mech, reason):
    prop(id, title, statement, over, q, why, files, mech, None)
    NA.append((id, reason))


prop("C01", "User data is changed only by kernel-verified sharing",
     "The daemon never writes, truncates, clones, punches, reflags or otherwise modifies a file of the filesystem it deduplicates except by asking the kernel to compare two ranges and share them. Everything it writes with ordinary system calls goes to its own temporary files, its own state files and its own log/status output.",
     ["programs", "inputs", "histories"], "every call of a modifying system interface in every function reachable from the daemon's entry point, whatever the files contain",
     TESTS + "no test opens a filesystem, so a write through the wrong descriptor would go unnoticed.",
     ["src/bees.cc", "src/bees-context.cc", "src/bees-hash.cc", "src/bees-roots.cc", "lib/fd.cc", "lib/fs.cc"],
     [("read-only open flags for scanned files", "src/bees.h FLAGS_OPEN_*"), ("single dedupe primitive", "lib/fs.cc btrfs_extent_same"), ("temporary file writes", "src/bees.cc BeesTempFile"), ("hash table flush", "src/bees-hash.cc"), ("state file writes", "src/bees.cc BeesStringFile")],
     "static-analysis: effect analysis over the call graph (classification of every modifying system call, descriptor provenance by interprocedural value-origin dataflow, open-flag constants)",
     note="sound over the exported call graph; a system call reached through a function pointer or inline assembly would be reported as unclassified",
     observe=["system calls issued on descriptors of scanned files"])

prop("C02", "Paths from the filesystem can never lead outside it",
     "Every open of a pathname obtained from the filesystem is resolved beneath an already opened directory of that filesystem, without following symbolic links and without crossing into another filesystem. Where the kernel lacks the confining open call, the fallback is used only because the call is unimplemented, never because it refused a path.",
     ["inputs", "fault_sequences"], "every pathname returned by inode-to-path lookups and every error the confining open can return",
     TESTS + "no test resolves a path inside a hostile tree or injects errors into opens.",
     ["src/bees-roots.cc", "src/bees.h", "lib/openat2.cc"],
     [("confined open wrapper", "src/bees-roots.cc bees_openat"), ("open flags", "src/bees.h FLAGS_OPEN_FILE / FLAGS_OPEN_DIR")],
     "static-analysis: call-site enumeration, constant-flag dataflow and path-sensitive guard analysis of the fallback",
     note="on kernels without the confining call only symlink/no-follow protection of the last component remains, as in the code's fallback")

prop("C03", "A file is used only after its identity was verified",
     "A descriptor obtained for a (subvolume, inode) pair is handed to the rest of the daemon only after the opened object was checked to be that inode, in that subvolume, on the same device, with attributes that permit dedupe. A descriptor remembered for a range is used again only if it still belongs to the range's inode; the same holds for subvolume roots.",
     ["inputs", "schedules"], "every file replaced, renamed or deleted between lookup and open; every path through the open functions",
     TESTS + "the races between lookup and open need a filesystem changing underneath the daemon.",
     ["src/bees-roots.cc", "src/bees-types.cc", "src/bees-context.cc"],
     [("open by inode with verification", "src/bees-roots.cc BeesRoots::open_root_ino_nocache"), ("open subvolume with verification", "src/bees-roots.cc BeesRoots::open_root_nocache"), ("range descriptor verification", "src/bees-types.cc BeesFileRange::fd"), ("identity comparison", "src/bees-types.cc BeesFileId::operator==")],
     "static-analysis: interprocedural path-sensitive typestate (opened -> checked) over the control-flow graphs, with aliasing of descriptors")

prop("C04", "Every dedupe request is well-formed and fully confirmed",
     "The kernel is asked to share two ranges only if they have equal size, do not overlap, both files' identities were re-validated, and the destination's subvolume was established not to be read-only when that protection is enabled. A request the kernel completes in several pieces advances source, destination and remaining length by exactly what the kernel shared, and success is reported only when every byte was confirmed.",
     ["inputs", "histories"], "every pair of ranges any scan can produce and every sequence of partial completions and statuses from the kernel",
     TESTS + "partial completions and mismatched ranges never occur in a test; they need a kernel that returns them.",
     ["src/bees-context.cc", "lib/fs.cc", "src/bees-roots.cc"],
     [("precondition checks", "src/bees-context.cc BeesContext::dedup"), ("chunk loop", "lib/fs.cc btrfs_extent_same"), ("read-only test", "src/bees-roots.cc BeesRoots::is_root_ro")],
     "static-analysis: interprocedural path-sensitive guard analysis plus symbolic linear-form dataflow of the loop variables")

prop("C05", "Conflicting kernel operations are mutually exclusive",
     "While any worker is inside a dedupe request no worker is inside a physical-address-to-reference lookup and vice versa, although operations of the same kind may overlap; the exclusion is always enabled, is released on every exit path including errors, and no worker ever waits for one kind while holding another. The throttling pause is never taken while holding it.",
     ["schedules", "fault_sequences"], "every interleaving of worker threads and every exception leaving the protected sections",
     TESTS + "the lock class has no test at all and interleavings are not explored.",
     ["lib/multilock.cc", "src/bees-context.cc", "src/bees-roots.cc", "src/bees.cc"],
     [("class lock", "lib/multilock.cc MultiLocker"), ("dedupe section", "src/bees-context.cc BeesContext::dedup"), ("lookup section", "src/bees-context.cc BeesContext::resolve_addr_uncached"), ("extent map section", "src/bees-roots.cc create_extent_map")],
     "static-analysis: must-hold typestate of RAII handles on all normal and exceptional paths; path analysis and lock-set analysis of the exclusion itself",
     note="proves what the lock's monitor code does under its mutex; std::mutex/condition_variable semantics are trusted")

prop("C06", "The daemon's own working files are never deduplicated",
     "Temporary files, the hash table file and everything in the filesystem's internal root tree are never scanned and never chosen as a dedupe partner. A temporary file is registered as the daemon's own before it receives any content and stays registered until it is destroyed.",
     ["histories", "inputs"], "every scanned file and every reference returned by the kernel, over the life of every temporary file",
     TESTS + "no test creates temporary files or scans.",
     ["src/bees-context.cc", "src/bees-resolve.cc", "src/bees.cc", "src/bees-hash.cc"],
     [("own-file set", "src/bees-context.cc BeesContext::is_blacklisted"), ("scan entry", "src/bees-context.cc BeesContext::scan_forward"), ("reference walk", "src/bees-resolve.cc BeesResolver::for_each_extent_ref"), ("registration", "src/bees.cc BeesTempFile")],
     "static-analysis: interprocedural guard analysis (must-pass-through) and event-order typestate")

prop("C07", "Extents the kernel handles pathologically slowly are avoided for good",
     "Every physical-address lookup is timed by the kernel CPU time it consumed, and an address whose lookup reaches the threshold is classified toxic, likewise lookups returning too many references yield none. When a match candidate turns out toxic, that is recorded in the hash table and work on the extent ends. A hash table address marked toxic is never looked up again, its references are never used, and no match is extended over a block with a toxic hash.",
     ["inputs", "histories"], "every lookup result and timing, and every hash table content",
     TESTS + "kernel slowness cannot be produced in a unit test.",
     ["src/bees-context.cc", "src/bees-resolve.cc", "src/bees-types.cc"],
     [("timed lookup", "src/bees-context.cc BeesContext::resolve_addr_uncached"), ("candidate filter and recording", "src/bees-context.cc BeesContext::scan_one_extent"), ("resolver state", "src/bees-resolve.cc BeesResolver::addr"), ("extension", "src/bees-types.cc BeesRangePair::grow")],
     "static-analysis: path-sensitive typestate with element-wise tracking through containers; symbolic form of the measured quantity",
     note="that the marker survives in the table and is cleared on load is C15")

prop("C08", "Only byte-identical, currently valid data becomes a match",
     "A reference found through the hash table becomes a dedupe candidate only if the data was read back and compared byte for byte with the scanned block, and the reference still points at the physical address that was looked up and to real data. A match is extended in either direction only by blocks that were read and compared on both sides, lie at different physical addresses, and keep the two ranges equally long and disjoint.",
     ["inputs", "schedules", "histories"], "every hash collision, every stale hash table entry, every pair of files",
     TESTS + "hash collisions and stale references cannot be sampled meaningfully.",
     ["src/bees-resolve.cc", "src/bees-types.cc", "lib/bytevector.cc"],
     [("block verification", "src/bees-resolve.cc BeesResolver::adjust_offset"), ("reference verification", "src/bees-resolve.cc BeesResolver::chase_extent_ref"), ("range extension", "src/bees-types.cc BeesRangePair::grow"), ("byte equality", "lib/bytevector.cc ByteVector::operator==")],
     "static-analysis: path-sensitive must-pass-through analysis with symbolic range arithmetic")

prop("C09", "Rewritten extents are never published; unprofitable extents are left alone",
     "While scanning an extent, the hashes of its blocks are put into the hash table and the extent is remembered as finished only if the scan neither replaced nor rewrote any part of it and no dedupe of a match failed. Once the scan decided that an extent is not worth touching (more bytes to copy than to free, or more than the fixed number of operations), it issues no dedupe and no copy for it.",
     ["inputs", "histories"], "every combination of matching, zero and unique blocks in an extent and every dedupe outcome",
     TESTS + "no test scans an extent.",
     ["src/bees-context.cc"],
     [("publication decision", "src/bees-context.cc BeesContext::scan_one_extent"), ("cost rules", "src/bees-context.cc BeesContext::scan_one_extent")],
     "static-analysis: path-sensitive event-order analysis of the extent scan (boolean flag tracking over all paths)")

prop("C10", "Saved state files are replaced atomically",
     "Every state or status file is replaced by creating its successor under a temporary name (exclusively, after removing a left-over one), writing it completely, and renaming it over the old version in the same directory; no file is rewritten in place. Saved crawl and statistics files are flushed successfully before the rename, except on the daemon's own filesystem type whose rename orders the data; a failed write or flush prevents the replacement. Contents outside the size limit are neither written nor read back.",
     ["crash_points", "fault_sequences", "histories"], "a crash between any two system calls and every failing system call during a save",
     TESTS + "no test saves state, and crash points are not sampled.",
     ["src/bees.cc", "src/bees-context.cc", "src/bees-hash.cc"],
     [("state file", "src/bees.cc BeesStringFile::write"), ("flush", "src/bees.cc bees_fsync"), ("status file", "src/bees-context.cc BeesContext::dump_status"), ("new hash table file", "src/bees-hash.cc BeesHashTable::open_file")],
     "static-analysis: event-order typestate over descriptors and path names on every normal and exceptional path",
     note="the kernel's rename and fsync semantics are trusted")

prop("C11", "Hash table updates are serialised, complete and eventually written back",
     "Entries of the hash table are read and changed only under the lock of the extent they lie in, after that extent was loaded from its own place in the file, and every change is marked for writing back before the lock is released. A change made while the extent is being written, or whose write failed, is still marked for writing afterwards. When the table is stopped, every extent is examined once more after the stop request and written to its own place if it was changed.",
     ["schedules", "fault_sequences", "histories"], "every interleaving of lookups, inserts, prefetch and writeback, every I/O error",
     TESTS + "the hash table is never instantiated by a test.",
     ["src/bees-hash.cc"],
     [("extent writeback", "src/bees-hash.cc BeesHashTable::flush_dirty_extent"), ("extent load", "src/bees-hash.cc BeesHashTable::fetch_missing_extent_by_index"), ("operations", "src/bees-hash.cc find_cell, erase_hash_addr, push_front_hash_addr, push_random_hash_addr"), ("writer thread", "src/bees-hash.cc BeesHashTable::writeback_loop")],
     "static-analysis: must-hold lock sets, interprocedural typestate per critical section, symbolic offsets",
     note="writeback after a stop request is best effort for changes made during the last pass, as documented in the code")

prop("C12", "Saved scan positions never pass unfinished work",
     "The scan position saved for a subvolume or size tier is the oldest one still being worked on: a holder at or before an extent or file is taken before the crawl position moves past it, and is kept until the task scanning it is done. A reference whose inode or extent was busy is scanned again later, not skipped.",
     ["schedules", "crash_points", "histories"], "every order in which concurrent scans finish, every point at which the state is saved",
     TESTS + "the progress tracker test covers a few fixed orders; the crawlers that use it have no test.",
     ["include/crucible/progress.h", "src/bees-roots.cc", "src/bees-context.cc"],
     [("position tracker", "include/crucible/progress.h ProgressTracker"), ("extent hand-over", "src/bees-roots.cc BeesScanModeExtent::SizeTier::find_next_extent, create_extent_map"), ("file hand-over", "src/bees-roots.cc BeesScanModeSubvol::crawl_one_inode"), ("file scan", "src/bees-roots.cc BeesFileCrawl::scan_one_ref")],
     "static-analysis: path-sensitive typestate of position holders, captures of task functions, invariant of the tracker's constructor and destructor",
     note="an exception ends the work on that item by design; items skipped that way are not retried")

prop("C13", "Scan progress survives a restart",
     "Every crawler that has started is saved with all fields of its position, under the keys it is loaded from, and every saved record is used on load before anything crawls or saves. Every change of a scan position or of the set of crawlers marks the saved state out of date afterwards; it counts as saved only after the snapshot taken with that mark was written completely.",
     ["schedules", "crash_points", "histories"], "every set of crawlers, every interleaving of saving with scanning",
     TESTS + "no test saves or loads scan positions.",
     ["src/bees-roots.cc"],
     [("saving", "src/bees-roots.cc BeesRoots::state_save, state_to_stream"), ("loading", "src/bees-roots.cc BeesRoots::state_load"), ("changes", "src/bees-roots.cc BeesCrawl::set_state, hold_state, BeesRoots::insert_root, crawl_state_erase"), ("start", "src/bees-roots.cc BeesRoots::start")],
     "static-analysis: field-by-field provenance of saved and loaded records; event-order typestate of the out-of-date mark",
     note="a file that cannot be parsed is reported and ignored from the bad line on")

prop("C14", "Scan cycles cover every transaction without gaps",
     "A crawler's next cycle begins at the old cycle's last transaction, at the first object, up to the current transaction, and starts only after the current range was searched to its end. An extent is passed over for its generation only if it lies outside the range (both ends included). Each new transaction lets every crawler look for work again.",
     ["histories", "inputs"], "every sequence of transactions and every extent generation",
     TESTS + "no test runs a crawler.",
     ["src/bees-roots.cc"],
     [("cycle restart", "src/bees-roots.cc BeesCrawl::restart_crawl_unlocked"), ("end of cycle", "src/bees-roots.cc BeesCrawl::fetch_extents, SizeTier::find_next_extent"), ("generation filter", "src/bees-roots.cc BeesFileCrawl::scan_one_ref, SizeTier::find_next_extent"), ("wake-up", "src/bees-roots.cc BeesRoots::crawl_thread, BeesScanMode*::next_transid, insert_root")],
     "static-analysis: path-sensitive typestate of crawl states, guard analysis of cycle restarts and generation filters",
     note="a subvolume found read-only before its first object moves its range's end forward without scanning, as documented in the code")

prop("C15", "Temporary copies are exact",
     "A temporary copy or hole fills exactly a freshly extended, block-aligned part of the temporary file of the length asked for. A copy transfers every block of the source unchanged to the same relative place, except blocks in which every byte was found to be zero; incomplete reads and writes abort it. The file stays with one worker until the dedupe from it is finished and is emptied before it is reused.",
     ["inputs", "fault_sequences", "schedules"], "every source range, every failing or short read and write, every order of workers",
     TESTS + "no test creates a temporary file.",
     ["src/bees.cc", "src/bees-types.cc", "src/bees-context.cc", "include/crucible/pool.h", "lib/fd.cc"],
     [("copy", "src/bees.cc BeesTempFile::make_copy, make_hole, resize, realign"), ("block data", "src/bees-types.cc BeesBlockData::data, is_data_zero"), ("hand-over", "include/crucible/pool.h Pool<BeesTempFile>"), ("use", "src/bees-context.cc BeesContext::rewrite_file_range, scan_one_extent")],
     "static-analysis: path-sensitive value numbering with linear forms and a loop-advance invariant; ownership typestate")


prop("C16", "Failed and short I/O is never taken for success",
     "The read and write helpers return normally only after the whole amount was transferred between consecutive positions of the caller's buffer and the file; those meant for partial transfers report exactly how much was. The result of every file, descriptor and btrfs control call is looked at, and a failure leads to an exception, a retry, or a result callers can tell from success and look at in turn; data the kernel did not fill in is not used. Exempt are calls that only affect performance or diagnostics and the removal of leftover files.",
     ["fault_sequences", "inputs"], "every failing, interrupted or short system call",
     TESTS + "tests run on files that do not fail; no test makes a system call fail or stop short.",
     ["lib/fd.cc", "lib/fs.cc", "include/crucible/error.h", "src/bees.cc", "src/bees-hash.cc", "src/bees-roots.cc", "src/bees-context.cc"],
     [("transfer helpers", "lib/fd.cc pread_or_die, pwrite_or_die, read_partial_or_die, write_or_die"), ("control calls", "lib/fs.cc do_ioctl_nothrow, do_ioctl"), ("checks", "include/crucible/error.h die_if_*"), ("users", "all call sites")],
     "static-analysis: path-sensitive outcome typestate of call results with derived failure conventions; value numbering with loop-advance invariant")


prop("C17", "Shared data is accessed only under its lock",
     "The mutable members of objects that several threads use (contexts, crawlers and crawl sets, scan modes, the hash table, task queues and task states, caches, lock sets, pools, progress trackers, rate limiters, statistics, buffers) are read and written only while the mutex that belongs to them in the same object is held, or are atomic; only constructors and destructors, objects not yet shared, and numbers shown in log messages are exempt. References and iterators into such members are used only while the mutex is held. Variables of static storage that threads modify are atomic, thread local, initialised once, or always accessed under one lock.",
     ["schedules"], "every interleaving of worker, service and task threads",
     TESTS + "data races depend on timing that no test controls.",
     ["src", "lib", "include/crucible"],
     [("tasks", "lib/task.cc TaskState, TaskMasterState, BarrierState, Exclusion"), ("crawlers", "src/bees-roots.cc BeesRoots, BeesCrawl, BeesScanMode*"), ("hash table", "src/bees-hash.cc BeesHashTable"), ("library", "include/crucible/cache.h, lockset.h, pool.h, namedptr.h, progress.h, multilock.h, lib/time.cc, lib/bytevector.cc"), ("statistics", "src/bees.cc BeesStatTmpl")],
     "static-analysis: must-hold lock sets, interprocedural guarded-by check, escape check of borrowed references",
     note="crawl positions and hash table contents shared through atomics and holders are covered by C11 and C12; the owner of an object is trusted to keep it alive")


prop("C18", "Threads cannot deadlock on mutexes",
     "Mutexes are taken in one global order: there is no cycle of mutexes taken, directly, in called functions, in log and status callbacks, or in destructors of the last reference to an object, while another of the cycle is held. No thread takes a mutex it already holds, two mutexes of the same member are taken together only by a primitive that cannot deadlock or when one of the objects is not shared yet, and a thread inside the process-wide exclusion for dedupe or LOGICAL_INO does not wait for the other kind. A thread that waits for a condition, sleeps or joins a thread holds no mutex but the one the wait releases.",
     ["schedules"], "every interleaving of all threads",
     TESTS + "deadlocks depend on timing that no test controls.",
     ["src", "lib", "include/crucible"],
     [("task queues", "lib/task.cc TaskState, TaskMasterState, TaskConsumer"), ("scan state", "src/bees-roots.cc BeesRoots, BeesCrawl, BeesScanMode*"), ("status", "src/bees-trace.cc BeesNote"), ("process locks", "lib/multilock.cc MultiLocker"), ("caches", "include/crucible/cache.h, namedptr.h, pool.h, lockset.h")],
     "static-analysis: whole-program lock-order graph with witnesses; must-hold lock sets at blocking calls",
     note="extent and key locks (LockSet, Exclusion) are resources, not mutexes, and not part of the order; long-lived objects (context, roots, hash table, scan modes, crawlers) are trusted not to be destroyed by a temporary reference")


prop("C19", "No wake-up is lost",
     "A thread that waits on a condition variable looks at the state it waits for (free lock names, other kinds of process lock, queued tasks and the allowed number of workers, out-of-date hash table parts, stop requests, the newest transaction) after taking the mutex the wait releases and again after each wait that has no time limit. Every change of that state that could let a waiter go on is followed, on every path and before the changing thread joins another one, by a notification of every thread that might be able to go on, and is made so that it cannot fall between a waiter's look and its wait.",
     ["schedules"], "every interleaving of waiting and changing threads",
     TESTS + "a lost wake-up depends on timing that no test controls.",
     ["lib/task.cc", "lib/multilock.cc", "lib/time.cc", "include/crucible/lockset.h", "src/bees-hash.cc", "src/bees-roots.cc", "src/bees-context.cc"],
     [("task workers", "lib/task.cc TaskMasterState, TaskConsumer::consumer_thread"), ("locks", "include/crucible/lockset.h LockSet, lib/multilock.cc MultiLocker"), ("hash table writeback", "src/bees-hash.cc BeesHashTable::writeback_loop, set_extent_dirty_locked"), ("stop requests", "src/bees-hash.cc, src/bees-roots.cc, src/bees-context.cc"), ("transaction rate", "lib/time.cc RateEstimator")],
     "static-analysis: dominance of checks over waits, post-dominance of notifications over enabling changes, must-hold lock sets",
     note="periodic waits with a time limit only need the check before them; the names of condition variables and what they stand for are a table in the checker")


prop("C20", "Every extent belongs to one scan tier and no scanning pass skips any",
     "The extent scan's size tiers cover every extent length without gap or overlap, each with its own crawl record and task, and every pass that is not throttled starts all of them. A tier passes an extent over only because it is a metadata extent or its length or generation is outside the tier's range; for every other extent it queues all references, over their whole length, unless the inode has no data checksums, the reference is gone or there are too many references, and it jumps ahead only over extents too short for the tier. A file scan hands on every extent of the file unless it is inline, a hole, blacklisted or outside the transaction range.",
     ["inputs", "histories"], "every filesystem content and every scan position",
     TESTS + "completeness is a statement about every filesystem.",
     ["src/bees-roots.cc"],
     [("tier table", "src/bees-roots.cc s_magic_crawl_map"), ("tier scan", "src/bees-roots.cc BeesScanModeExtent::SizeTier::find_next_extent, create_extent_map, scan_one_ref"), ("file scan", "src/bees-roots.cc BeesFileCrawl::crawl_one_extent"), ("pass start", "src/bees-roots.cc BeesScanModeExtent::scan")],
     "static-analysis: interval partition of the constant tier table; typestate over CFG paths (each fetched item handed on or excused)")


prop("C21", "No two threads run one task at once and no requested run is lost",
     "Whatever the order in which threads request, append, insert and run a task, its function is never executed by two threads at the same time, it is in at most one queue at a time, and every request to run it is followed by an execution that begins after the request, unless the queues are cancelled. Tasks moved between the global, idle, worker and dependent-task queues are never dropped; a worker runs each task it removes, takes an idle task only when nothing else is queued, and queueing a task, ending a pause, raising the number of workers or the end of a worker starts workers until there are as many as allowed. An exclusion lock is given to a task only when no other task owns it, and a task that does not get it is queued behind the owner.",
     ["schedules"], "every interleaving of any number of threads and requests",
     TESTS + "the task tests run a handful of schedules of the many possible.",
     ["lib/task.cc"],
     [("task state", "lib/task.cc TaskState::exec, run, idle, append, insert"), ("queues", "lib/task.cc TaskState::rescue_queue, TaskMasterState::push_back, push_back_idle, push_front"), ("workers", "lib/task.cc TaskConsumer::consumer_thread, TaskMasterState::start_threads_nolock"), ("exclusion", "lib/task.cc Exclusion::try_lock")],
     "static-analysis: task state machine extracted from the code and exhaustively composed (abstract states, any number of threads); typestate and ownership of queued tasks over CFG paths",
     note="exceptions from memory allocation and thread creation are not considered; the mutexes around the state are checked by C17, wake-ups by C19")


prop("C22", "No failure ends the daemon or stops one of its threads",
     "Everything the program throws is derived from std::exception, and the function of each task runs inside a handler that stops every such exception before it reaches the worker. No exception leaves the function of a thread, and no failed system call leaves a destructor. No failed system call or status note ends the loop of a thread that is to go on until it is told to stop: crawling, writing back hash table and scan state, status and progress reports, load tracking, task workers.",
     ["fault_sequences", "inputs"], "every failing system call and every exception thrown anywhere below a thread, task or destructor",
     TESTS + "no test makes a system call fail below a thread or a destructor.",
     ["src", "lib"],
     [("handlers", "lib/error.cc catch_all"), ("threads", "src/bees-thread.cc BeesThread::exec, lib/task.cc TaskConsumer, loadavg_thread_fn"), ("tasks", "lib/task.cc TaskState::exec"), ("destructors", "src/bees.cc ~BeesTempFile, ~BeesTooLong, src/bees-trace.cc ~BeesTracer"), ("loops", "src/bees-roots.cc crawl_thread, writeback_thread, src/bees-context.cc dump_status, show_progress, src/bees-hash.cc")],
     "static-analysis: interprocedural exception-escape analysis (throw sites to handlers over the call graph, including functions passed as arguments and stored) at thread, task, destructor and loop boundaries",
     note="calls that fail only for lack of memory, for bad arguments or on signals (which are blocked) are taken not to fail; failed consistency checks (not system calls) below destructors and loops are not considered; main is not a thread: the daemon may refuse to start")


prop("C23", "Sorting and lookup use consistent orders, and identity is exact",
     "Every comparison by which values are sorted or kept in sets and maps is a strict weak order: no value precedes itself, no two values precede each other, 'precedes' and 'ties' are transitive. Two keys count as the same entry exactly when they are equal: the same inode and subvol, the same file range, the same hash and address, the same extent reference, the same tree item. Documented orders hold: 'recent' mode takes the subvol with the highest min_transid first, longer matches go before shorter ones, references are grouped by inode, tasks go by age.",
     ["inputs"], "every two and three values of every type that is sorted or used as a key",
     TESTS + "no test compares keys of the daemon.",
     ["src", "lib", "include/crucible"],
     [("orders", "src/bees-types.cc operator<, src/bees-roots.cc SortKey and sort of ExtentRef, src/bees-context.cc BeesSeenRange and sort of dedupe_list, lib/task.cc, include/crucible/fs.h BtrfsIoctlSearchHeader"), ("equality", "src/bees-types.cc operator==, src/bees.h BeesHashTable::Cell")],
     "static-analysis: abstract evaluation of each comparison function over all relations between the parts it compares, with the order laws checked exhaustively over those relations",
     note="fields compared as wholes are taken to be ordered themselves (each class's own operator< is a separate obligation); two ranges with the same open descriptor are taken to be in the same file")


prop("C24", "One task at a time works on an extent or an inode",
     "An extent's data is only scanned, copied and deduplicated by the task that holds the lock made for that extent's address, and a reference is only scanned by the task that holds the lock made for its inode number. A task that does not get a lock does nothing and is queued behind the holder. While any task holds or wants the lock of an address or inode, every task that asks for it gets the same lock object.",
     ["schedules"], "every interleaving of scanning tasks over shared extents and inodes",
     "The namedptr test uses the map from one thread; " + TESTS[0].lower() + TESTS[1:] + "no test runs two scans.",
     ["src/bees-context.cc", "src/bees-roots.cc", "lib/task.cc", "include/crucible/namedptr.h", "include/crucible/lockset.h"],
     [("extent lock", "src/bees-context.cc scan_forward"), ("inode lock", "src/bees-roots.cc SizeTier::scan_one_ref, BeesFileCrawl::scan_one_ref"), ("lock", "lib/task.cc Exclusion::try_lock"), ("one object per name", "include/crucible/namedptr.h insert_item, ~Value; include/crucible/lockset.h lock")],
     "static-analysis: path-sensitive typestate of lock variables (obtained, tested, alive, for which key) up to every scan call, with callers; typestate of the name map and of the lock's owner",
     note="the inode number a tree fetcher is set to is taken to be that of the items it returns")

prop("C25", "A termination signal saves everything before the process ends",
     "SIGTERM and SIGINT (blocked before any thread starts) make the daemon pause its workers, save the scan positions once more, write the whole hash table, and only then end at once with success; scans are told to give up, and tasks thrown away, only after the final scan positions were saved. SIGUSR1 keeps the workers from taking tasks until SIGUSR2 comes, neither ends the daemon, and a second SIGTERM or SIGINT during shutdown ends the process at once. Every thread the shutdown waits for looks for the stop request before each sleep and does not sleep again after it.",
     ["schedules", "fault_sequences"], "every time a signal can arrive, and every interleaving of the threads with the shutdown",
     TESTS + "no test sends a signal or stops a daemon.",
     ["src/bees.cc", "src/bees-context.cc", "src/bees-roots.cc", "src/bees-hash.cc", "src/bees-thread.cc", "lib/task.cc"],
     [("signals", "src/bees.cc block_signals, wait_for_signals, bees_main"), ("order of shutdown", "src/bees-context.cc BeesContext::stop"), ("threads", "src/bees-roots.cc stop_wait, writeback_thread, crawl_thread; src/bees-hash.cc stop_wait, writeback_loop, prefetch_loop; src/bees-thread.cc join"), ("pause", "lib/task.cc TaskMasterState::pause, TaskConsumer::consumer_thread")],
     "static-analysis: path-sensitive typestate of signal masks and shutdown steps from main, of stop flags in each joined thread, and of the pause flag in the workers",
     note="that a write requested at shutdown also reaches the file is decided by C11, C13 and C16; that the stop request wakes every sleeper by C19")


prop("C26", "Every command line option has its documented effect",
     "bees accepts exactly the documented letter and argument form of each of its thirteen options, alone or with others, and the daemon starts only when exactly one path is left and neither help nor an unknown option was given. When it starts, the worker limit and minimum, load target, throttle factor, scan mode, send workaround, path and timestamp style, and log level (0 to 8) are what the options or else the documented defaults say, the last of two opposite options winning and a thread count overriding a factor. The settings are kept as given: no worker starts or takes another task above the limit, each scan mode number makes the scanner documented for it, and a throttled operation waits 60 seconds at most.",
     ["inputs", "configurations"], "every option, every documented interplay of two options, and every argument value",
     TESTS + "no test runs bees_main or parses an option.",
     ["src/bees.cc", "src/bees-roots.cc", "src/bees-usage.txt", "lib/task.cc", "lib/chatter.cc"],
     [("option table and parsing", "src/bees.cc bees_main"), ("scan mode", "src/bees-roots.cc BeesRoots::set_scan_mode"), ("worker limits", "lib/task.cc TaskMasterState::calculate_thread_count_nolock, start_threads_nolock, start_stop_threads, TaskConsumer::consumer_thread"), ("throttle", "src/bees.cc bees_throttle")],
     "static-analysis: symbolic dataflow through the option parser for each option sequence against the documented effects, and guard dataflow of worker limits",
     note="an argument the number parser rejects throws before anything starts; how well the resulting load control works is C96")


prop("C27", "A block address names exactly one block on disk, or says there is none",
     "The address bees gives a file block is the physical address of that very block, or for compressed data the address of its extent together with a mark and the block's distance from the extent's start, so two different blocks of an extent never share an address. Holes, delayed allocation, inline or unaligned data and extents with any flag bees does not know get the special value for it and are never used as a block on disk. The compressed, end-of-file, toxic and offset parts of an address never overlap each other, the block number or a special value, and each question about an address looks only at its own part and is false for special values.",
     ["inputs"], "every extent, offset and combination of extent flags, and every address value",
     TESTS + "no test makes or takes apart a BeesAddress.",
     ["src/bees-types.cc", "src/bees.h"],
     [("fields and accessors", "src/bees.h BeesAddress"), ("special values", "src/bees-types.cc BeesAddress::magic_check"), ("address of an extent's block", "src/bees-types.cc BeesAddress::BeesAddress(const Extent &, off_t)"), ("taking apart", "src/bees-types.cc BeesAddress::get_physical_or_zero, get_compressed_offset, set_toxic")],
     "static-analysis: constant propagation through each accessor per class of address and per extent flag, field layout check, and symbolic path dataflow of the address built from an extent",
     note="what the kernel reports for an extent is taken as given; the order and equality of addresses is C23")

# ------------------------------------------------------------ not applicable
na("C91", "Every duplicate block is eventually found and deduplicated",
   "Given enough time, memory and an idle filesystem, every pair of identical blocks the filesystem can share is found and shared.",
   ["histories"], "every history of the filesystem and the hash table", TESTS + "no test runs a scan.",
   ["src/bees-hash.cc", "src/bees-context.cc"], [("hash table", "src/bees-hash.cc"), ("scan", "src/bees-context.cc scan_one_extent")],
   "depends on which of the sampled hashes survive in a table of limited size over a whole history of scans (random insertion and eviction), a runtime quantity no static argument bounds; the structural part (no extent or reference is skipped, no position moves past unscanned data) is C12, C14 and C20")
na("C92", "Deduplication frees more space than it uses",
   "The temporary copies and split extents a deduplication creates never take more space than the sharing frees.",
   ["inputs", "histories"], "every extent layout and sharing state", TESTS + "no test has an extent.",
   ["src/bees-context.cc", "src/bees-hash.cc"], [("cost estimate", "src/bees-context.cc scan_one_extent"), ("reference counts", "src/bees-resolve.cc")],
   "the freed space depends on reference counts and extent boundaries on disk at the time, which are runtime quantities; that copies are made only for ranges that the same pass then replaces is C09 and C15")
na("C93", "Block hashes spread evenly and equal blocks hash equal",
   "The hash of a block is the CRC64 of its bytes on every machine, so equal blocks have equal hashes across runs, and unequal blocks rarely collide.",
   ["inputs"], "every block content", "The crc64 test compares a few fixed vectors.",
   ["lib/crc64.cc", "src/bees-types.cc"], [("crc64", "lib/crc64.cc Digest::CRC::crc64")],
   "the value computed by a table-driven numeric loop is not decided by dataflow or typestate, only by evaluating it, which is testing; that a wrong hash can cost space but never data is C04 and C07")
na("C94", "Memory use stays bounded",
   "The daemon's memory apart from the hash table stays within a bound that does not depend on the size of the filesystem.",
   ["inputs", "histories"], "every filesystem and every history", TESTS + "no test runs long enough.",
   ["src", "lib"], [("caches", "include/crucible/cache.h LRUCache"), ("queues", "src/bees-roots.cc")],
   "queue lengths, cache entry sizes and numbers of references are runtime quantities that no sound static bound in reach can limit")
na("C95", "Tree searches return exactly the next matching item",
   "A search of a btrfs tree returns the first item at or after the requested position, whatever the tree contains, and a backward search the last one at or before it.",
   ["inputs"], "every tree content", "The seeker test samples a few sets of numbers.",
   ["lib/btrfs-tree.cc", "include/crucible/seeker.h"], [("backward seek", "include/crucible/seeker.h seek_backward"), ("fetchers", "lib/btrfs-tree.cc BtrfsTreeFetcher")],
   "correctness of the interval arithmetic of the search depends on kernel results and on a numeric termination argument over unbounded trees; a static dataflow rule cannot decide it. What callers do with the items is decided in C12 and C20")
na("C96", "The daemon keeps to the configured load and rate",
   "Over time, the load average, the dedupe throttling and the transaction polling converge to the configured targets.",
   ["histories"], "every timing", TESTS + "no test measures load.",
   ["lib/task.cc", "lib/time.cc", "src/bees.cc"], [("load tracking", "lib/task.cc calculate_thread_count_nolock"), ("throttle", "src/bees.cc bees_throttle")],
   "convergence of a feedback loop over measured times and loads is a quantitative property of the running system")
