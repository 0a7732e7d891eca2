// Deterministic simulator for libmdbx: processes, threads, files, disk, locks, clocks, memory.
// One OS process, one OS thread; every interleaving, fault and crash is decided by seeded streams
// and logged, so that a (program, decision log) pair is one exactly repeatable execution.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

inline u64 mix64(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline u64 hash2(u64 a, u64 b) { return mix64(mix64(a) ^ (b * 0xd6e8feb86659fd93ull + 0x2545F4914F6CDD1Dull)); }

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(mix64(seed)) {}
  u64 next() {
    s += 0x9e3779b97f4a7c15ull;
    u64 z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); } // inclusive
  bool chance(u32 num, u32 den) { return below(den) < num; }
  bool ppm(u32 p) { return below(1000000) < p; }
  // log-uniform in [lo,hi]
  u64 logu(u64 lo, u64 hi);
  // geometric-like gap with the given mean (>=1)
  u64 gap(u64 mean);
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- faults
enum Fault : u8 {
  F_NONE = 0,
  F_PWRITE_EIO,
  F_PWRITE_ENOSPC,
  F_PWRITE_SHORT,
  F_PWRITE_EINTR,
  F_FSYNC_EIO,
  F_FSYNC_EINTR,
  F_MSYNC_EIO,
  F_FTRUNC_ENOSPC,
  F_FTRUNC_EIO,
  F_MMAP_ENOMEM,
  F_MREMAP_ENOMEM,
  F_MALLOC,
  F_PREAD_EIO,
  F_PREAD_SHORT,
  F_OPEN_FAIL,
  F_FSTAT_EIO,
  F_LOCK_ERR,
  F_LOCK_EINTR,
  F_THREAD_EAGAIN,
  F_STREAM_EIO,   // write() to a copy target fails
  F_STREAM_SHORT, // write() short
  F_COPYRANGE_ERR,
  F_CLOCK_JUMP,
  F_MINCORE_COLD,
  F_COND_SPURIOUS,
  F_DISK_FULL, // quota exceeded, not an injected coin flip
  F_KILL,      // process killed
  F_POWERLOSS,
  F_WRITEBACK,
  F_STALL,
  F_TORN, // page torn at sector granularity at power loss
  F_LOSTPAGE, // dirty page lost at power loss
  F_EXIT_NOCLOSE,
  F_COUNT
};
extern const char *const fault_names[F_COUNT];

// ---------------------------------------------------------------- decisions
enum Stream : u8 {
  D_POINT = 1, // at scheduling point >= idx: val = action (see below)
  D_BLOCK,     // at n-th forced switch: val = task to run
  D_SYS,       // at n-th fault-eligible call: val = fault kind | arg<<8
};
// D_POINT actions in low byte of val
enum PointAct : u8 { PA_SWITCH = 1, PA_STALL, PA_KILL, PA_POWER, PA_WRITEBACK, PA_CLOCK };

struct Decision {
  u64 idx;
  u64 val;
  u8 stream;
};

constexpr u32 MAX_DECISIONS = 1u << 20;
constexpr u32 PROBES = 256;
constexpr u32 TRACE_BYTES = 8u << 20;

struct Shared { // lives in MAP_SHARED memory, survives a crash of the run's process
  volatile u32 status; // 0 = running, 1 = ok, 2 = violation, 3 = internal error
  char viol_class[96];
  char viol_text[4000];
  u32 ndec;
  u32 dec_overflow;
  Decision dec[MAX_DECISIONS];
  u64 faults[F_COUNT];
  u64 probes[PROBES];
  u64 points, switches, syscalls, sim_ns, ops, commits, reads, epochs, kills, powerlosses, recoveries;
  u64 event_hash; // hash of the whole event log: determinism oracle
  u64 state_hash; // hash over distinct (commit,reader) observations: interleaving measure
  u64 sched_hash; // hash of the sequence of task switches at API granularity
  u32 truncated;  // run hit the step cap without verdict
  u32 trace_on;
  u32 trace_len;
  char trace[TRACE_BYTES];
  u32 nopids;
  u64 opids[1 << 16]; // operations and steps executed, in order (for minimisation)
};
extern Shared *SH;
inline void note_op(u64 id) {
  if (SH->nopids < 1u << 16)
    SH->opids[SH->nopids++] = id;
}

void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void logev(u64 a, u64 b = 0, u64 c = 0); // folds into the event hash
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void internal_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- configuration of a run
struct Config {
  u64 seed = 1;
  // scheduling
  u64 mean_switch = 500; // mean gap between preemptions in points
  u32 w_plain = 1, w_atomic = 4, w_sys = 16;
  u32 stall_ppm = 0;   // per preemption: chance that the preempted task is stalled
  u64 mean_race = 0;   // mean count of atomic accesses between preemptions directed at them; 0 = none
  bool race_maps = true; // only accesses to shared memory (lock file, meta-pages), otherwise to the heap and globals too
  u64 stall_max = 20000;
  u64 mean_writeback = 0; // 0 = never
  u64 mean_kill = 0;      // mean gap in points between process kills; 0 = never
  u64 mean_power = 0;     // mean gap in points for a power loss
  u32 kill_io_ppm = 0;    // chance per I/O system call (before or after it)
  u32 power_io_ppm = 0;
  u32 max_kills = 0, max_powers = 0;
  u64 point_cap = 60000000;
  // faults: parts per million per eligible call
  u32 fault_ppm[F_COUNT] = {0};
  u32 max_faults = 0;
  u64 disk_quota = 0; // bytes, 0 = unlimited
  // environment
  u32 kernel = 0; // 0: 6.1, 1: 5.12 , 2: 3.10 (posix locks)
  u64 fsync_ns = 100000;
  bool pid_reuse = false;
  bool map_gap = true; // leave room behind mappings so that in-place growth works
  bool copy_range_works = true;
  bool sendfile_works = true;
  u32 persist_mode = 0; // 0 = random choice per power loss
};
extern Config CFG;

// ---------------------------------------------------------------- processes and tasks
struct Vproc;
struct Task;
typedef void (*taskfn)(void *);

struct Task {
  int id;
  Vproc *vp;
  void *sp = nullptr;
  u8 *stack = nullptr;
  enum { RUNNABLE, BLOCKED, DONE } st = RUNNABLE;
  bool (*ready)(void *) = nullptr;
  void *ready_arg = nullptr;
  u64 wake_ns = 0; // for timed sleeping (0 = none)
  u64 stall_until = 0;
  int err = 0;
  taskfn fn = nullptr;
  void *arg = nullptr;
  std::function<void()> body;
  void *ret = nullptr;
  u64 tid;
  std::vector<std::pair<void *, void *>> emutls; // control -> storage
  std::map<unsigned, void *> specific;
  std::vector<std::pair<void (*)(void *), void *>> atexits;
  bool in_api = false;
  const char *what = "";
  u64 api_start = 0; // points at API entry
  u64 api_ends = 0;  // count of ended readers at API entry
  u64 run_points = 0;
  bool lib_thread = false;
  bool lck_bad = false, chk_bad_dbi = false;
  u64 nfaults = 0; // error faults injected into this task
  u64 lazy_bytes = 0; // written by pwrite without O_DSYNC in large pieces
};

struct OFD;
struct Vproc {
  int id;      // unique in the run
  int slot;    // heap region
  int pid;
  bool alive = true;
  bool exiting = false;
  std::vector<u8> image;
  std::vector<OFD *> fds;
  std::vector<Task *> tasks;
  std::map<unsigned, void (*)(void *)> keys;
  unsigned next_key = 1;
  bool faults_on = true; // fault injection applies to this process
  bool killable = true;
  int last_errno = 0;
  std::string name;
};

extern Task *cur;

void init_run(const Config &cfg, const std::vector<Decision> *replay);
Vproc *spawn_process(const char *name, std::function<void()> main_body); // main task created
Task *spawn_task(Vproc *vp, std::function<void()> body, const char *name);
void kill_process(Vproc *vp);                 // kill -9
[[noreturn]] void exit_process_abruptly();    // exit() without cleanup of environments (runs library destructors)
enum RunResult { RUN_DONE, RUN_POWERLOSS, RUN_DEADLOCK, RUN_CAP };
RunResult run_scheduler();
void sleep_ns(u64 ns);
void yield_point(); // an explicit preemption point in harness code
void wait_until(bool (*ready)(void *), void *arg);
bool task_done(Task *t);
u64 now_ns();
void advance_ns(u64 ns);
std::string describe_tasks();
void set_powerloss_persist_seed(u64);
void request_powerloss();
void reboot_after_powerloss(); // applies the surviving disk image
void faults_enable(bool on);   // injected errors (coins)
u64 points_now();
u64 last_death(); // the point of the last end of a process
void crashes_enable(bool on);  // kills and power losses
bool faults_enabled();
u64 faults_fired(); // number of injected error faults so far
void set_quota(u64 bytes);
u32 buggify_seed();

// buggify-style decision for the harness/simulator: returns fault kind fired or F_NONE
Fault fault_point(std::initializer_list<Fault> kinds, bool io);

// ---------------------------------------------------------------- virtual files
bool vfs_exists(const char *path);
std::vector<u8> vfs_content(const char *path);   // page cache view
std::vector<u8> vfs_durable(const char *path);   // what survives right now if nothing else is flushed
u64 vfs_size(const char *path);
void vfs_create(const char *path, const std::vector<u8> &content);
void vfs_remove(const char *path);
void vfs_make_durable_all();
int vfs_open_stream(const char *name); // in the current process; returns fd, content available under path
void vfs_close_fd(int fd);
void vfs_set_max_size_probe(const char *path);
u64 vfs_max_size_seen(const char *path);
void vfs_set_readonly(const char *path, bool ro);
void vfs_flip(const char *path, u64 off, u8 mask);

void finish_stats();
void probe(u32 id, u64 n = 1);

} // namespace sim
