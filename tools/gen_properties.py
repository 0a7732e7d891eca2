#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, mech, state=None, observe=None, files=("mdbx.c",), hook=None):
    a = {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A successful durable commit survives power loss, whole and exactly",
 "In the default (fully durable) mode, once a write transaction's commit has returned success, every later opening after a power loss or OS crash at any instant shows all of its changes; a transaction whose commit had not returned is then visible either completely or not at all. "
 "The recovered database opens without manual repair, passes the integrity check, and its content equals exactly the content some commit produced, whatever subset of not-yet-flushed disk sectors happened to reach the medium and in whatever order.",
 ["crash_points", "histories", "schedules", "fault_sequences"],
 "every history of transactions by any number of threads and processes, both write paths (file writes and writable mapping), every instant of the crash, every subset and order of unflushed sectors surviving",
 "The tests never crash a process or drop unflushed writes; every test run reads back through the same page cache, so a missing or misordered flush is invisible to them.",
 [("two-step sync: data flush, then meta publication with signature", "mdbx.c:dxb_sync_locked"),
  ("three rotating meta pages, steady/weak signatures, validation and choice of the head", "mdbx.c:meta_troika/meta_validate/meta_sync"),
  ("recovery: fall back to the last steady meta unless the same boot", "mdbx.c:dxb_setup"),
  ("write-out of dirty pages, write-through for small commits", "mdbx.c:txn_basal_commit/txn_write/iov_*/osal_ioring_write"),
  ("flush primitives", "mdbx.c:osal_fsync/osal_msync/osal_pwrite")],
 [("meta pages", "three candidate roots of the database", "first three pages of the data file"),
  ("steady signature", "this snapshot was flushed before it was published", "meta page sign field")],
 ["mdbx_txn_commit_ex", "mdbx_env_open after crash", "mdbx_get/cursor scans", "mdbx_env_chk"])

prop("C02", "Relaxed sync modes lose only a recent suffix and never corrupt",
 "With metadata or data syncing relaxed (no-meta-sync or safe-no-sync, set for the environment or for single transactions), a power loss at any instant leaves a database that opens, passes the integrity check and holds exactly the content of one committed transaction, never a mixture and never one older than the newest commit known to be on disk. "
 "Commits known to be on disk are those covered by a successful explicit or automatic sync or by a successful orderly close, and in no-meta-sync mode also everything before the last commit. "
 "Without an OS crash none of these modes loses any committed transaction.",
 ["crash_points", "histories", "configurations", "fault_sequences"],
 "every mix of sync modes per environment and per transaction, explicit and background syncs, every crash instant and every surviving subset of unflushed sectors",
 "Tests never lose power, so whether a sync actually pinned the last steady snapshot, and whether pages of that snapshot were recycled too early, is never observed.",
 [("weak/steady meta and bootstrap rollback", "mdbx.c:dxb_setup/meta_troika"),
  ("pages of the last steady snapshot are not recycled while newer ones are weak", "mdbx.c:mvcc_shapshot_oldest/gc_alloc_ex"),
  ("explicit sync, non-blocking sync, sync on close", "mdbx.c:env_sync/mdbx_env_close_ex"),
  ("no-meta-sync pre-sync of the previous meta", "mdbx.c:txn_basal_commit/meta_sync")],
 [("unsynced pages counter", "volume not yet flushed", "shared lock table")],
 ["mdbx_env_sync_ex", "mdbx_txn_commit_ex", "mdbx_env_open after crash"])

prop("C03", "Killing a process at any instant harms no committed data and blocks nobody",
 "If a process using the database is killed at any instant (OS keeps running), all transactions it had committed stay visible in every sync mode, its unfinished transaction leaves no trace, and locks and reader registrations it held are recovered automatically. "
 "Other live processes and newly started ones keep reading consistent snapshots and can begin and commit write transactions without any manual intervention.",
 ["crash_points", "schedules", "histories"],
 "every kill point inside every call of every process, including inside open, commit, resize, reader registration, sync and close, with any number of survivors and restarts",
 "Existing tests run one orderly process; none kills a process that holds the write lock or a reader slot in the middle of a commit.",
 [("robust mutex owner-dead recovery", "mdbx.c:osal_ipclock_failed"),
  ("dead reader detection by pid byte lock", "mdbx.c:mvcc_cleanup_dead/lck_rpid_check"),
  ("meta published only by a final two-phase update, torn meta ignored", "mdbx.c:meta_update_begin/meta_update_end/meta_troika"),
  ("exclusive vs shared first-opener protocol", "mdbx.c:lck_seize/lck_setup_locked")],
 [("reader table", "pid/tid/txnid of live readers", "lock file"), ("robust mutexes", "writer and reader-table locks", "lock file")],
 ["mdbx_txn_begin", "mdbx_txn_commit_ex", "mdbx_reader_check", "mdbx_env_open"])

prop("C04", "A read transaction sees one frozen committed snapshot",
 "From start to end a read transaction observes exactly the content one commit produced, across all tables and repeated reads, however many writers commit, resize, shrink, defragment or sync the database meanwhile in this or other processes. "
 "Values it was handed by pointer stay unchanged until it ends.",
 ["schedules", "histories", "configurations"],
 "every interleaving of readers with writers in the same and other processes, every point at which a reader registers, every page recycling and file resize decision",
 "The tests have a few threads with uncontrolled timing; a page recycled one commit too early or a reader registering in the wrong window needs a specific interleaving.",
 [("reader registration with publish-then-verify of the snapshot id", "mdbx.c:txn_ro_seize/txn_ro_start (ro slot setup)"),
  ("oldest-reader scan bounding reuse of freed pages", "mdbx.c:mvcc_shapshot_oldest/gc_alloc_ex"),
  ("copy-on-write of pages", "mdbx.c:page_touch"),
  ("coherency checks of meta and root pages", "mdbx.c:coherency_check*"),
  ("retire to the garbage collector", "mdbx.c:page_retire_ex/gc_update")],
 [("snapshot id in reader slot", "pins all pages of the snapshot", "lock file reader table")],
 ["mdbx_txn_begin RDONLY", "mdbx_get", "mdbx_cursor_get", "mdbx_txn_id"])

prop("C05", "Write transactions are serialised and immediately visible in order",
 "At most one write transaction of a database is active at a time over all threads and processes; each starts from exactly the content left by the previous successful commit, with strictly increasing transaction ids. "
 "A read or write transaction that starts after a commit returned sees that commit or a later one, and no reader ever sees a transaction that was not committed.",
 ["schedules", "histories"],
 "every interleaving of writers and readers over threads and processes, blocking and try modes, including writers that fail, abort or die",
 "Tests with more than one writer are tiny and run at natural timing; cross-process races on meta pages and on lock hand-over are not reached.",
 [("inter-process writer mutex and overlap guards", "mdbx.c:lck_txn_lock/txn_basal_start"),
  ("head selection from meta pages", "mdbx.c:meta_recent/meta_tap/txn_basal_start_locked"),
  ("publishing new meta", "mdbx.c:dxb_sync_locked/meta_update_end")],
 [("transaction id", "total order of commits", "meta pages")],
 ["mdbx_txn_begin", "mdbx_txn_commit_ex", "mdbx_txn_id"])

prop("C06", "Every committed state is well formed and every page is accounted for",
 "In every committed state each page of the file belongs to exactly one of: meta pages, one tree of one table, or the free-page list; entries are in key order and stored counters equal what traversal finds. "
 "Pages freed by updates become reusable once no reader needs them, so churning a bounded amount of live data does not grow the database without bound.",
 ["histories", "schedules", "configurations", "fault_sequences"],
 "every history of updates (overflow values, duplicates, sub-tables, drops, nested transactions, spilling, big and small free lists), every pattern of readers pinning old snapshots, every page size",
 "Unit tests check contents after a handful of operations; leaks and double allocation appear only after particular free-list shapes (splits of the list into several records, refund, reclaim order, reserve loops).",
 [("allocation from the free list and the loose/relist/refund pools", "mdbx.c:gc_alloc_ex/page_alloc/txn_refund"),
  ("storing the free list at commit", "mdbx.c:gc_update"),
  ("tree balancing", "mdbx.c:page_split/tree_rebalance/page_merge"),
  ("integrity checker", "mdbx.c:mdbx_env_chk")],
 [("GC table", "freed pages by transaction id", "table 0"), ("table counters", "items, pages by kind, depth", "tree_t")],
 ["mdbx_env_chk", "mdbx_env_info_ex", "mdbx_dbi_stat"])

prop("C07", "Aborted and nested changes vanish completely; nested commits merge exactly",
 "Aborting, rolling back or failing a transaction at any depth restores exactly the content, tables, sequences and markers visible before it began, to itself, to its parent and to everybody else. "
 "A committed nested transaction's changes become part of its parent and share the parent's fate.",
 ["histories", "inputs", "fault_sequences"],
 "every nesting of begin/commit/abort with any updates at each level, before and after dirty pages were spilled to disk, with memory allocation failing at any point",
 "Existing tests cover a couple of shallow nestings; the state to restore (dirty and spilled page lists, retired lists, table trees, cursors) depends on what happened at each level.",
 [("nested transactions' shadow lists and merging", "mdbx.c:txn_nested_create/txn_nested_join/txn_nested_abort"),
  ("cursor backup and restore", "mdbx.c:txn_shadow_cursors/txn_done_cursors"),
  ("rollback in place", "mdbx.c:txn_basal_rollback"),
  ("table handles created inside", "mdbx.c:dbi_update")],
 None,
 ["mdbx_txn_begin(parent)", "mdbx_txn_commit_ex", "mdbx_txn_abort_ex", "mdbx_txn_rollback"])

prop("C08", "Failing system calls and allocations never corrupt or silently lose data",
 "When reads, writes, flushes, file resizes, mappings, locks or memory allocations fail or are interrupted at any point, the affected call reports an error (or succeeds by retrying); a commit that reported failure is never partially visible, and data of all earlier successful commits stays intact for current readers and for later openings. "
 "Once the failures stop, the database works again, at worst after closing and reopening the environment.",
 ["fault_sequences", "histories", "crash_points"],
 "every position and kind of failing system call or allocation in every operation of any history, optionally followed by a process kill or a power loss",
 "The tests never inject a failure; error paths after a partially completed commit are not executed at all.",
 [("undo of a failed meta write; fatal-error flag", "mdbx.c:dxb_sync_locked"),
  ("abort on failed write-out", "mdbx.c:txn_basal_commit/txn_write"),
  ("short and interrupted writes", "mdbx.c:osal_pwrite/osal_pwritev/osal_ioring_write"),
  ("failing growth is reported as full", "mdbx.c:dxb_resize/osal_mresize"),
  ("error unwinding in cursors and transactions", "mdbx.c:MDBX_TXN_ERROR handling")],
 [("fatal error flag", "environment must be reopened", "env flags")],
 ["every API return code", "mdbx_env_open afterwards", "mdbx_env_chk"])

prop("C09", "Tables and cursors behave as ordered maps while pages split, merge and spill",
 "Inside a write transaction any sequence of updates and reads through handles and any number of simultaneously open cursors gives the results of an ordered (multi)map: order, uniqueness, duplicates, counts, conditional flags and positions. "
 "This stays true while pages are copied, split, merged, spilled to disk under memory pressure and read back, and every cursor not on a removed item keeps pointing at its item.",
 ["histories", "inputs", "configurations"],
 "every sequence of cursor and table operations over every table kind and page size, with several cursors per table, with dirty-page limits forcing spilling at arbitrary points",
 "Tests exercise a few fixed sequences; the interplay of several cursors with page splits, merges and spilling under a varying memory limit is combinatorial.",
 [("cursor fix-ups on split, delete, rebalance", "mdbx.c:page_split/tree_rebalance/cursor_del/cursor_put"),
  ("spilling and unspilling of dirty pages", "mdbx.c:spill_slowpath/page_unspill"),
  ("sub-pages and nested trees for duplicates", "mdbx.c:cursor_put/subpage handling"),
  ("range and bunch deletion", "mdbx.c:mdbx_cursor_bunch_delete/cutoff")],
 None, ["mdbx_put/mdbx_del/mdbx_replace", "mdbx_cursor_get/put/del", "mdbx_cursor_delete_range"])

prop("C10", "A hot backup is one consistent committed snapshot or an error",
 "Copying a live database (as-is or compacting, to a file or a stream) concurrently with any writers yields, whenever it reports success, a database that opens, passes the integrity check and holds exactly the content of one commit that was current at some moment during the copy, not older than commits completed before the copy began. "
 "If any read, write or allocation fails the copy reports an error instead of leaving a wrong copy behind as good.",
 ["schedules", "fault_sequences", "histories", "configurations"],
 "every interleaving of the copying process (and its helper thread) with writers, every copy option, every failing or short write to the target",
 "There is no test that copies while writing, and none in which the target fails.",
 [("as-is copy under a read snapshot", "mdbx.c:copy_asis"),
  ("compacting walk with a writer thread and double buffer", "mdbx.c:copy_with_compacting/compacting_*"),
  ("target locking, sync and cleanup on failure", "mdbx.c:copy2fd/copy2pathname")],
 None, ["mdbx_env_copy", "mdbx_env_copy2fd", "mdbx_txn_copy2pathname"])

prop("C11", "Automatic and explicit syncs reach the disk when they promise to",
 "A successful forced sync makes every commit finished before the call survive a power loss. "
 "With a volume threshold or a time period configured in a relaxed-sync mode, a commit that makes the unsynced volume reach the threshold, or a commit or poll at which the period has expired, leaves everything committed so far able to survive a power loss; syncs that are not needed or would block report so without harm.",
 ["schedules", "crash_points", "configurations", "fault_sequences"],
 "every threshold and period, every clock progress between commits, commits by several processes, crash at any later instant",
 "Time and crashes are not under the tests' control; no test sets a period and loses power.",
 [("autosync decision", "mdbx.c:dxb_sync_locked"), ("polling and forced sync", "mdbx.c:env_sync/mdbx_env_sync_ex"),
  ("monotonic clock conversion", "mdbx.c:osal_monotime/osal_16dot16_to_monotime")],
 [("eoos timestamp and unsynced pages", "first unsynced moment and volume", "shared lock table")],
 ["mdbx_env_sync_ex", "mdbx_env_sync_poll", "mdbx_env_set_option(sync_bytes/sync_period)"])

prop("C12", "The database grows and shrinks within its limits without disturbing anyone",
 "The file grows by the configured step up to the upper bound and never beyond it, and shrinks only behind the data in use and never below the lower bound, at run time and while other processes have it mapped. "
 "When space is exhausted the operation fails with the map-full error, the transaction can be aborted, and all committed content stays intact and usable; resizing by one process is picked up by all others.",
 ["schedules", "configurations", "histories", "fault_sequences"],
 "every geometry (bounds, steps, thresholds), geometry changes at run time from any process, concurrent readers and writers in several processes, failing resizes",
 "Tests use one process and mostly one geometry; remapping in one process while others read, or a failure in the middle, is not exercised.",
 [("resizing file and mapping", "mdbx.c:dxb_resize/osal_mresize"), ("shrink on commit", "mdbx.c:dxb_sync_locked"),
  ("geometry in meta and adoption by other processes", "mdbx.c:txn_basal_start_locked/txn_ro_start/mdbx_env_set_geometry")],
 [("geometry", "lower, now, upper, steps", "meta pages")],
 ["mdbx_env_set_geometry", "mdbx_env_info_ex", "file size", "MDBX_MAP_FULL"])

prop("C13", "Lagging readers are ousted only by the rules and never read wrong data",
 "A parked read transaction either resumes on the very same unchanged snapshot or is reported as ousted (restarted on the newest snapshot only if asked to); a reader that is not parked is never displaced unless the registered slow-reader handler decided so. "
 "The handler is called when and only when old snapshots block space reclaiming, and its verdict (wait, retry, give up) is obeyed.",
 ["schedules", "histories", "configurations"],
 "every interleaving of parking, unparking (explicit and automatic), reading and of writers short of space, in one and several processes",
 "The race between a writer ousting a parked reader and the reader resuming is a handful of instructions wide.",
 [("atomic hand-over of the reader slot between parked, ousted and active", "mdbx.c:txn_ro_park/txn_ro_unpark/mvcc_kick_laggards"),
  ("slow-reader handler protocol", "mdbx.c:mvcc_kick_laggards")],
 [("slot thread id", "parked/ousted marks", "reader table")],
 ["mdbx_txn_park", "mdbx_txn_unpark", "mdbx_env_set_hsr", "MDBX_OUSTED"])

prop("C14", "The reader table tracks exactly the live readers",
 "Each running reader holds exactly one slot showing its process and snapshot, slots of finished or dead readers become available again, and a slot of a live reader is never taken or cleared by others. "
 "When all slots are taken further readers get the readers-full error and succeed again after one finishes; listing and straggler reports match the live transactions.",
 ["schedules", "crash_points", "histories"],
 "every interleaving of readers starting, resetting, renewing, finishing and dying over processes and threads, with any table size, while checks for dead readers run concurrently",
 "Slot allocation and stale-slot clean-up race only across processes and with deaths at specific points.",
 [("slot allocation", "mdbx.c:mvcc_bind_slot"), ("dead reader clean-up", "mdbx.c:mvcc_cleanup_dead"),
  ("thread exit and registration", "mdbx.c:rthc_*/mdbx_thread_register")],
 [("reader slots", "pid, tid, txnid", "lock file")],
 ["mdbx_reader_list", "mdbx_reader_check", "mdbx_txn_begin RDONLY", "MDBX_READERS_FULL"])

prop("C15", "Concurrent opening, closing and mode negotiation between processes is safe",
 "Any number of processes may open and close the same database at any moment: exactly the first opener initialises shared state, later ones join it, the last closer leaves it clean, and an exclusive opener and others exclude each other with a busy error. "
 "Openers whose essential modes conflict with the running users are refused (or adopt the running mode if they asked to), and a refused or failed opening changes nothing and disturbs nobody.",
 ["schedules", "configurations", "crash_points", "fault_sequences"],
 "every interleaving of opens, closes, kills and failed opens over processes and both kinds of file locks, every combination of opening modes, lock files left over from earlier boots",
 "Tests open from one process; the window between the last closer's clean-up and the next opener's initialisation needs cross-process interleaving.",
 [("lock file protocol", "mdbx.c:lck_seize/lck_downgrade/lck_upgrade/lck_destroy"),
  ("mode compatibility", "mdbx.c:env_open/lck_setup_locked"), ("creation of a new database", "mdbx.c:dxb_setup")],
 [("lock table envmode", "modes of current users", "lock file")],
 ["mdbx_env_open return codes", "mdbx_env_close_ex"])

prop("C16", "Table handles stay correct while tables are created, renamed and dropped",
 "A handle refers to the same table in every transaction that may see it, or is refused with an error, while other threads and processes concurrently create, open, close, rename, clear and drop tables. "
 "A table created, renamed or dropped in an aborted transaction is as if nothing happened; a dropped table disappears for later transactions only, and a handle never gives access to another table's data.",
 ["schedules", "histories", "inputs"],
 "every interleaving of handle opening and closing in threads of one process with transactions, nested transactions and table changes by other processes",
 "Handle sharing is lock-free and validity depends on per-transaction sequence numbers; wrong hand-over needs specific interleavings.",
 [("handle table with lock-free opening and defer-freeing", "mdbx.c:dbi_open_locked/dbi_import/dbi_update/dbi_defer_release"),
  ("per-transaction handle state", "mdbx.c:dbi_check/dbi_state"), ("renaming and dropping", "mdbx.c:dbi_rename_locked/mdbx_drop")],
 None, ["mdbx_dbi_open", "mdbx_dbi_close", "mdbx_dbi_rename", "mdbx_drop", "MDBX_BAD_DBI", "MDBX_NOTFOUND"])

prop("C17", "Defragmentation moves pages but never changes content",
 "Running defragmentation, to completion or stopped by time, by its limits, by errors or by a crash at any point, leaves the content of every table exactly as it was, keeps concurrent readers' snapshots intact and the database passing the integrity check. "
 "What it reports as moved and released is what it committed, and the space in use never grows because of it, beyond the few pages of bookkeeping which a stopped run may cost as documented.",
 ["histories", "crash_points", "schedules", "fault_sequences"],
 "every fragmented database state, every stopping condition, concurrent readers, failing calls and crashes during the run",
 "No existing test runs defragmentation under concurrency or faults.",
 [("page relocation and re-linking", "mdbx.c:defrag_*/mdbx_env_defrag"), ("commit per batch", "mdbx.c:txn_basal_commit")],
 None, ["mdbx_env_defrag", "scans before and after", "mdbx_env_chk"])

prop("C18", "Chained transactions keep their no-gap guarantees",
 "Checkpointing commits and continues, commit-and-read continues reading, and amending turns a read snapshot into a write transaction, in each case with no foreign commit in between; amending is refused without effect when a newer commit exists. "
 "Refreshing moves a reader to the newest commit or reports it already is; a clone reads exactly the snapshot of its origin.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of these operations with writers in other threads and processes, and with failures at any step",
 "The guarantee is precisely about other writers slipping in between two steps, which natural test timing never provokes.",
 [("commit keeping the lock", "mdbx.c:txn_basal_checkpoint/mdbx_txn_checkpoint"), ("commit into reading", "mdbx.c:mdbx_txn_commit_embark_read"),
  ("amend", "mdbx.c:mdbx_txn_amend"), ("refresh and clone", "mdbx.c:mdbx_txn_refresh/txn_ro_clone")],
 None, ["mdbx_txn_checkpoint", "mdbx_txn_commit_embark_read", "mdbx_txn_amend", "mdbx_txn_refresh", "mdbx_txn_clone"])

prop("C19", "Cached lookups always agree with uncached ones",
 "A lookup through a cache entry returns exactly what a plain lookup of the same key in the same transaction returns, whatever commits, aborts, re-creations or page movements happened since the entry was filled, and whichever mixture of older and newer snapshots and threads shares the entry. "
 "An entry reporting a hit is never stale and an aborted change is never cached.",
 ["schedules", "histories"],
 "every history of updates between lookups, every mixture of reader snapshots and a write transaction sharing entries between threads, interleaved inside the lookup itself",
 "Staleness needs a particular history of page modifications and sharing between snapshots of different age.",
 [("early-exit search bounded by page transaction ids", "mdbx.c:cache_get"), ("lock-free entry update", "mdbx.c:mdbx_cache_get")],
 [("cache entry", "txnids, offset, length", "caller memory")],
 ["mdbx_cache_get", "mdbx_cache_get_SingleThreaded", "mdbx_get"])

prop("C20", "Operations make progress: no deadlock, livelock or lost wake-up",
 "Readers are never blocked by a writer or by other readers, try-mode calls return instead of waiting, and a blocked writer gets the write lock after the holder finishes or dies. "
 "When faults stop, every pending operation of every live process completes within a bounded number of steps, and closing always completes.",
 ["schedules", "fault_sequences", "crash_points"],
 "every interleaving of readers, writers, openers, closers, dead-reader checks and copies over threads and processes, including deaths of lock holders",
 "Lock-order problems and lost wake-ups appear only in particular interleavings; a test that passes says nothing about them.",
 [("lock order between writer, reader-table, handle-table and file locks", "mdbx.c:lck_*/rdt_lock/txn_lock"),
  ("bounded retry loops on torn or moving metas", "mdbx.c:txn_ro_start/meta_tap/coherency_timeout"),
  ("helper thread hand-shake", "mdbx.c:compacting_toggle_write_buffers")],
 None, ["return of every API call in simulated steps"])

prop("C21", "Misuse of transactions across threads is refused, never harmful",
 "Using a transaction from a thread that does not own it, starting a second overlapping transaction in a thread, or using finished, broken or foreign handles returns the documented error and changes neither the database nor the misused transaction; with thread-binding disabled, transactions may move between threads, and an attempt to finish a write transaction by a thread that did not start it is refused and condemns that transaction to be aborted. "
 "After such refused calls all legitimate owners continue unaffected.",
 ["schedules", "inputs", "histories"],
 "every interleaving of legitimate use with refused calls from other threads, in each binding mode",
 "Tests have a few fixed misuse calls and not while another thread is inside the same environment.",
 [("owner and signature checks", "mdbx.c:check_txn/check_txn_rw"), ("overlap checks", "mdbx.c:mdbx_txn_begin_ex/txn_basal_start"),
  ("reader slot per thread", "mdbx.c:mvcc_bind_slot")],
 None, ["MDBX_THREAD_MISMATCH", "MDBX_TXN_OVERLAPPING", "MDBX_BAD_TXN", "MDBX_BAD_RSLOT"])

prop("C22", "Sequences and canary markers are transactional and never repeat",
 "Values handed out by a table's persistent sequence in committed transactions are unique and strictly increasing over all threads, processes, restarts and (in durable mode) crashes; values taken in an aborted transaction are handed out again. "
 "The canary markers read in a transaction are exactly those of its snapshot, with the version marker naming the transaction that set them.",
 ["histories", "schedules", "crash_points"],
 "every interleaving of sequence and marker use with commits, aborts, nesting, crashes and sync modes",
 "Uniqueness over crashes and processes is not tested anywhere.",
 [("sequence in table record", "mdbx.c:dbi_sequence/mdbx_dbi_sequence"), ("canary in meta", "mdbx.c:mdbx_canary_put/txn_basal_commit")],
 [("canary", "x,y,z,v", "meta page")],
 ["mdbx_dbi_sequence", "mdbx_canary_get"])

prop("C23", "Refused or interrupted maintenance and opening never damages the database",
 "Opening for reading only, opening for recovery, inspecting, checking, warming up and listing never modify the durable content, and may run at any moment beside live users. "
 "After an unclean shutdown a read-only opening either serves a complete committed state or refuses, and leaves the data file able to be recovered by the next writable opening.",
 ["crash_points", "schedules", "configurations"],
 "every moment of inspection relative to running writers and crashes, every kind of inspection and read-only opening",
 "No test compares the durable image before and after read-only use in an uncleanly shut down state.",
 [("read-only setup and meta choice", "mdbx.c:dxb_setup/env_open"), ("checker", "mdbx.c:mdbx_env_chk"), ("snapshot info without opening", "mdbx.c:mdbx_preopen_snapinfo"),
  ("warm-up", "mdbx.c:mdbx_env_warmup")],
 None, ["durable file image", "mdbx_env_open(RDONLY)", "mdbx_env_chk", "mdbx_preopen_snapinfo"])

prop("C24", "Numeric key mappings preserve order and round-trip",
 "Mapping of floating-point and JSON-integer numbers to keys is injective, order preserving and reversible.",
 ["inputs"], "every double, float and integer in range",
 "The domain has 2^64 values and edge cases at sign and exponent boundaries.",
 [("bit tricks on IEEE-754 representation", "mdbx.c:mdbx_key_from_double/mdbx_key_from_float/mdbx_key_from_jsonInteger")],
 None, ["mdbx_key_from_*", "mdbx_*_from_key"])

prop("C25", "Text encodings of slices round-trip",
 "Encoding a byte string as hex, base58 or base64 and decoding it gives the same bytes, and malformed text is rejected.",
 ["inputs"], "every byte string and every text, with any wrapping option",
 "Unbounded input domain; the tests have a few vectors.",
 [("encoders and decoders", "mdbx.c++:to_hex/from_hex/to_base58/from_base58/to_base64/from_base64")],
 None, ["mdbx::slice encode/decode"], files=("mdbx.c++", "mdbx.h++"))

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
