"""What each check explores: number of seeds of the quick tier and a description of the profile."""
COMPONENTS = {
    "real": "libmdbx (mdbx.c of the working tree, every line of it, default build options)",
    "simulated": "files, page cache, disk and power loss, mmap/msync/fsync, file and pthread locks, processes, threads and their "
                 "scheduling, signals of death, clocks and sleeping, memory allocation, pids, /proc and sysfs queries",
    "stub": "none of the library; workload clients and the reference model are harness code",
}
ASSUMPTIONS = [
    "sequentially consistent memory: preemption happens between instrumented memory accesses, store buffering is not simulated",
    "a single machine and file system which keeps the POSIX/Linux promises of fsync, fdatasync, msync, mmap coherence and locks",
    "aligned 512-byte sectors are written atomically by power loss; everything not made durable may be lost, kept or torn by sector",
]
# situations counted by the harness (probe number -> name)
PROBES = {
    1: "opening found a half-created database", 10: "parked reader resumed by itself", 11: "parked reader found ousted by itself",
    12: "unpark: resumed", 13: "unpark: ousted", 14: "unpark: restarted on the newest snapshot", 15: "clone of a reader",
    16: "refresh moved a reader", 17: "amend succeeded", 18: "amend refused, a newer commit exists", 19: "amend: parked reader was ousted meanwhile",
    20: "dead readers cleared", 21: "geometry changed", 22: "change of geometry refused", 23: "copy tried", 24: "copy verified", 25: "copy: snapshot ousted",
    26: "defragmentation finished", 27: "defragmentation moved pages", 30: "call by a foreign thread", 31: "wrong step within a transaction", 32: "misuse call",
    33: "explicit opening/closing of a handle", 34: "reader table was full", 40: "handle invalidated by a change of tables", 41: "integrity check run", 44: "slow-reader handler called", 42: "commit-and-read", 43: "commit-and-read without changes", 45: "extended cursor/transaction calls", 46: "inspection calls", 47: "range deletion", 50: "reader table examined after the dead were cleared", 51: "report of defragmentation compared with the pages in use", 49: "auto-sync was due at a commit or a poll", 48: "handle of an undone creation of a table examined",
}
PLAN = {
    "C01": {"quick": 10000, "what": "durable mode; power cut at any system call, instruction or at rest, with any subset of unsynced sectors persisted"},
    "C02": {"quick": 12000, "what": "no-meta-sync and safe-no-sync modes per environment and per transaction, explicit syncs, polls, closings and power cuts"},
    "C03": {"quick": 8000, "what": "several processes, any of which is killed at any system call or instruction; survivors and new processes continue"},
    "C04": {"quick": 12000, "what": "readers re-reading their snapshot while writers commit, resize, defragment and sync in other threads and processes"},
    "C05": {"quick": 20000, "what": "several writers over threads and processes, blocking and try mode, with fine-grained preemption, aborts and kills"},
    "C06": {"quick": 8000, "what": "integrity check and an own accounting of pages over long histories of updates in all table kinds and page sizes"},
    "C07": {"quick": 16000, "what": "write transactions abandoned at any step, nested transactions committed and aborted, aborts by kill, failing calls inside"},
    "C08": {"quick": 8000, "what": "failing system calls and allocations (once, repeatedly, permanently), full disk and full map at any point of any call"},
    "C09": {"quick": 10000, "what": "mixed tables and cursors in all key/value formats against an ordered-map model"},
    "C10": {"quick": 4000, "what": "hot copies (as-is/compacting, file/descriptor/pipe) concurrent with writers and resizing, opened and compared with the snapshot"},
    "C11": {"quick": 14000, "what": "explicit syncs, polls, volume and time thresholds in relaxed modes, with clock progress and power cuts"},
    "C12": {"quick": 6000, "what": "all kinds of geometry, changed at run time by any process, small maps that fill up, failing resizes, kills"},
    "C13": {"quick": 16000, "what": "parked, unparked, refreshed and cloned readers against space-hungry writers and the handle-slow-readers callback"},
    "C14": {"quick": 12000, "what": "crowded reader tables, readers of several threads and processes that finish, exit without closing, or are killed, pid reuse"},
    "C15": {"quick": 14000, "what": "processes opening, closing and re-opening concurrently (read-write and read-only), exits without closing and kills at any point of it"},
    "C16": {"quick": 20000, "what": "tables created, renamed, cleared and dropped while several threads and processes open, use and close handles"},
    "C17": {"quick": 4000, "what": "defragmentation with all kinds of limits and stopping, over fragmented databases with readers and writers, faults, kills and power cuts"},
    "C18": {"quick": 16000, "what": "checkpoint, commit-and-read (embark), amend and plain commits mixed by several writers"},
    "C19": {"quick": 20000, "what": "lookups through cache entries compared with plain lookups over snapshots of all ages"},
    "C20": {"quick": 6000, "what": "readers, writers, openers, closers, copies and checks over threads and processes with deaths of lock holders and failing locks; no deadlock, all calls return"},
    "C21": {"quick": 12000, "what": "calls by foreign threads, wrong steps and misuse of transactions and handles between legitimate work, in both binding modes"},
    "C22": {"quick": 12000, "what": "sequence and canary updates by several writers with aborts, nested transactions and crashes"},
    "C23": {"quick": 8000, "what": "read-only processes, integrity checks, statistics, warm-up and reader listings against writers, kills and power cuts"},
}
UNCLAIMED = {}
NOT_APPLICABLE = {
    "C24": "pure single-threaded arithmetic without any concurrency, time, I/O or history for a simulator to control",
    "C25": "pure single-threaded functions over byte strings (the C++ header), nothing for a simulator to schedule or to fail",
}
