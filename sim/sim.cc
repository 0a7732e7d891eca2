#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <fcntl.h>
#include <limits.h>
#include <mntent.h>
#include <pthread.h>
#include <signal.h>
#include <sys/auxv.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <utmpx.h>

extern "C" {
extern u_int8_t __start_mdbxdata[], __stop_mdbxdata[];
extern u_int8_t __start_mdbxbss[], __stop_mdbxbss[];
typedef void (*ctor_t)(int, char **, char **);
extern ctor_t __start_mdbxctors[], __stop_mdbxctors[];
extern ctor_t __start_mdbxdtors[], __stop_mdbxdtors[];
void sim_switch(void **save_sp, void *new_sp);
}

asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

namespace sim {

u64 Rng::logu(u64 lo, u64 hi) {
  if (lo >= hi)
    return lo;
  int bl = 63 - __builtin_clzll(lo | 1), bh = 63 - __builtin_clzll(hi | 1);
  u64 b = range(bl, bh);
  u64 v = (1ull << b) + below(1ull << b);
  return v < lo ? lo : v > hi ? hi : v;
}
u64 Rng::gap(u64 mean) {
  // sum of two uniforms mixed with an exponential-like tail, integers only
  u64 r = next();
  unsigned k = __builtin_ctzll(r | (1ull << 20)); // geometric
  return 1 + below(mean) + (k > 1 ? below(mean * (k > 8 ? 8 : k)) / 2 : 0);
}

const char *const fault_names[F_COUNT] = {
    "none",        "pwrite-EIO",  "pwrite-ENOSPC", "pwrite-short", "pwrite-EINTR",  "fsync-EIO",    "fsync-EINTR",
    "msync-EIO",   "ftruncate-ENOSPC", "ftruncate-EIO", "mmap-ENOMEM",  "mremap-ENOMEM", "malloc-fail",  "pread-EIO",
    "pread-short", "open-fail",   "fstat-EIO",     "lock-error",   "lock-EINTR",    "thread-EAGAIN", "stream-EIO",
    "stream-short", "copyrange-err", "clock-jump",  "mincore-cold", "cond-spurious", "disk-full",    "process-kill",
    "power-loss",  "writeback",   "stall",         "torn-page",    "lost-page",     "exit-without-close"};

Shared *SH;
Config CFG;
Task *cur;

constexpr uintptr_t STACK_BASE = 0x210000000000ull;
constexpr size_t STACK_SIZE = 512 << 10;
constexpr unsigned MAX_TASKS = 1024;
constexpr uintptr_t HEAP_BASE = 0x300000000000ull;
constexpr size_t HEAP_SPAN = 1ull << 30;
constexpr unsigned HEAP_SLOTS = 16;
constexpr uintptr_t MAP_BASE = 0x400000000000ull;
constexpr size_t MAP_SPAN = 1ull << 42;
constexpr size_t VIEW_SPAN = 1ull << 30;
constexpr uintptr_t VIEW_BASE = 0x500000000000ull;

struct HeapBlk {
  u32 magic;
  u32 cls;
  u64 size;
};
struct Heap {
  uintptr_t base = 0, top = 0;
  std::vector<std::vector<uintptr_t>> free_small;
  std::map<u64, std::vector<uintptr_t>> free_large;
  u64 live = 0, live_blocks = 0;
};

struct Inode {
  int id = 0;
  int memfd = -1;
  u8 *view = nullptr;
  u64 size = 0;
  std::vector<u8> durable;
  bool entry_durable = false; // directory entry survives a power loss
  bool wmapped = false;
  std::vector<u64> dirty; // bitmap by 4K page
  u64 max_size = 0;
  int nlink = 1;
  bool readonly = false;
  bool is_stream = false;
  std::string name;
  struct Lock {
    u64 start, end;
    bool wr;
    const void *owner; // OFD* or Vproc*
  };
  std::vector<Lock> locks;
  u64 pages() const { return (size + 4095) >> 12; }
  void mark(u64 off, u64 len) {
    if (!len)
      return;
    for (u64 p = off >> 12; p <= (off + len - 1) >> 12; ++p) {
      if ((p >> 6) >= dirty.size())
        dirty.resize((p >> 6) + 8);
      dirty[p >> 6] |= 1ull << (p & 63);
    }
  }
  bool is_marked(u64 p) const { return (p >> 6) < dirty.size() && (dirty[p >> 6] >> (p & 63) & 1); }
  void clear_mark(u64 p) {
    if ((p >> 6) < dirty.size())
      dirty[p >> 6] &= ~(1ull << (p & 63));
  }
};

struct OFD {
  Inode *ino;
  int flags;
  u64 pos = 0;
  int refs = 1;
  std::string special; // e.g. boot_id content
  bool is_special = false;
};

struct Map {
  Vproc *vp;
  uintptr_t addr;
  size_t len;
  Inode *ino;
  u64 off;
  int prot;
};

struct State {
  std::vector<Vproc *> procs;
  std::vector<Task *> tasks;
  Vproc *loaded = nullptr;
  void *sched_sp = nullptr;
  u64 points = 0, next_event = ~0ull;
  u64 next_switch = ~0ull, next_wb = ~0ull, next_kill = ~0ull, next_power = ~0ull, next_force = ~0ull;
  u64 nblock = 0, nsys = 0;
  u64 now = 1000000000ull * 100000, boot_ns = 1000000000ull * 100000, past_ns = 0;
  u64 real_off = 1700000000ull * 1000000000ull;
  Rng r_sched{1}, r_fault{1}, r_crash{1}, r_wb{1}, r_misc{1}, r_race{1};
  u64 race_left = ~0ull; // atomic accesses until the next directed preemption
  bool race_hit = false;
  bool replaying = false;
  std::vector<Decision> rp_point, rp_block, rp_sys;
  size_t ip = 0, ib = 0, is = 0;
  bool faults = false, crashes = false;
  u64 nfaults = 0;
  u32 nkills = 0, npowers = 0;
  u64 last_death = 0;
  bool power_req = false;
  u64 power_seed = 0;
  bool kill_pending = false;
  std::map<std::string, Inode *> files;
  std::vector<Inode *> inodes; // all live inodes incl. unlinked
  std::vector<Map> maps;
  uintptr_t map_top = MAP_BASE;
  uintptr_t view_top = VIEW_BASE;
  int next_inode = 1;
  Heap heaps[HEAP_SLOTS];
  std::vector<u8> pristine;
  u32 boot = 1;
  u64 next_tid = 1;
  u64 quota = 0;
  int next_pid = 1000;
  bool in_sched = false;
};
static State *S;
static bool enabled = false; // a task is running

// ---------------------------------------------------------------- logging, verdicts
void trace(const char *fmt, ...) {
  if (!SH->trace_on)
    return;
  if (SH->trace_len + 2000 > TRACE_BYTES) {
    // keep the tail: drop the first half
    memmove(SH->trace, SH->trace + TRACE_BYTES / 2, SH->trace_len - TRACE_BYTES / 2);
    SH->trace_len -= TRACE_BYTES / 2;
  }
  va_list ap;
  va_start(ap, fmt);
  int n = snprintf(SH->trace + SH->trace_len, 100, "[%llu %s/%d] ", (unsigned long long)(S ? S->points : 0),
                   cur && cur->vp ? cur->vp->name.c_str() : "-", cur ? cur->id : -1);
  n += vsnprintf(SH->trace + SH->trace_len + n, 1800, fmt, ap) > 1799 ? 1799 : 0;
  va_end(ap);
  SH->trace_len += strlen(SH->trace + SH->trace_len);
  SH->trace[SH->trace_len++] = '\n';
  SH->trace[SH->trace_len] = 0;
}

void logev(u64 a, u64 b, u64 c) { SH->event_hash = mix64(SH->event_hash ^ a) + b * 0x9e3779b97f4a7c15ull + c; }

static void sync_stats() {
  if (S) {
    SH->points = S->points;
    SH->sim_ns = S->past_ns + (S->now - S->boot_ns);
    SH->event_hash ^= 0; // no-op
  }
}

void finish_stats() { sync_stats(); }

void violation(const char *cls, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  char buf[3000];
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  snprintf(SH->viol_class, sizeof SH->viol_class, "%s", cls);
  snprintf(SH->viol_text, sizeof SH->viol_text, "%s [at point %llu, process %s, task %d, in %s]", buf,
           (unsigned long long)(S ? S->points : 0), cur && cur->vp ? cur->vp->name.c_str() : "-", cur ? cur->id : -1,
           cur ? cur->what : "-");
  trace("VIOLATION %s: %s", cls, buf);
  sync_stats();
  SH->status = 2;
  _exit(1);
}
void internal_error(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(SH->viol_text, sizeof SH->viol_text, fmt, ap);
  va_end(ap);
  snprintf(SH->viol_class, sizeof SH->viol_class, "internal-error");
  SH->status = 3;
  sync_stats();
  _exit(3);
}
void probe(u32 id, u64 n) {
  if (id < PROBES)
    SH->probes[id] += n;
}

static void record(u8 stream, u64 idx, u64 val) {
  if (SH->ndec < MAX_DECISIONS) {
    SH->dec[SH->ndec].stream = stream;
    SH->dec[SH->ndec].idx = idx;
    SH->dec[SH->ndec].val = val;
    SH->ndec++;
  } else
    SH->dec_overflow = 1;
}

// ---------------------------------------------------------------- image of the library's globals
static size_t img_data() { return __stop_mdbxdata - __start_mdbxdata; }
static size_t img_bss() { return __stop_mdbxbss - __start_mdbxbss; }
static void save_image(std::vector<u8> &v) {
  v.resize(img_data() + img_bss());
  memcpy(v.data(), __start_mdbxdata, img_data());
  memcpy(v.data() + img_data(), __start_mdbxbss, img_bss());
}
static void load_image(const std::vector<u8> &v) {
  memcpy(__start_mdbxdata, v.data(), img_data());
  memcpy(__start_mdbxbss, v.data() + img_data(), img_bss());
}
static void load_proc(Vproc *vp) {
  if (S->loaded == vp)
    return;
  if (S->loaded && S->loaded->alive)
    save_image(S->loaded->image);
  if (vp)
    load_image(vp->image);
  S->loaded = vp;
}

// ---------------------------------------------------------------- heap
static u32 size_class(u64 n, u64 &rounded) {
  if (n < 16)
    n = 16;
  if (n <= 1024) {
    rounded = (n + 15) & ~15ull;
    return (u32)(rounded / 16);
  }
  // power of two with 4 steps
  unsigned lg = 63 - __builtin_clzll(n - 1);
  u64 step = 1ull << (lg > 1 ? lg - 2 : 0);
  rounded = (n + step - 1) & ~(step - 1);
  return ~0u;
}
static void *heap_alloc_raw(Heap &h, u64 n, u64 align) {
  u64 rounded;
  u32 cls = size_class(n, rounded);
  uintptr_t p = 0;
  if (align <= 16) {
    if (cls != ~0u) {
      if (h.free_small.size() <= cls)
        h.free_small.resize(cls + 1);
      auto &f = h.free_small[cls];
      if (!f.empty())
        p = f.back(), f.pop_back();
    } else {
      auto it = h.free_large.find(rounded);
      if (it != h.free_large.end() && !it->second.empty())
        p = it->second.back(), it->second.pop_back();
    }
  } else
    cls = ~1u; // aligned blocks are never reused (rare)
  if (!p) {
    uintptr_t t = h.top + sizeof(HeapBlk) + 16 /* guard */;
    if (align > 16)
      t = (t + align - 1) & ~(align - 1);
    p = t;
    if (p + rounded + 64 > h.base + HEAP_SPAN)
      return nullptr;
    h.top = p + ((rounded + 15) & ~15ull);
  }
  HeapBlk *b = (HeapBlk *)(p - sizeof(HeapBlk));
  b->magic = 0xA110CA7Eu;
  b->cls = cls;
  b->size = n;
  h.live += n;
  h.live_blocks++;
  memset((void *)p, 0xA7, rounded);
  return (void *)p;
}
static Heap &cur_heap() {
  if (!cur || !cur->vp)
    internal_error("library allocation outside of a process");
  return S->heaps[cur->vp->slot];
}
static HeapBlk *blk_of(const void *p) { return (HeapBlk *)((uintptr_t)p - sizeof(HeapBlk)); }
static void heap_free(void *p) {
  if (!p)
    return;
  Heap &h = cur_heap();
  uintptr_t a = (uintptr_t)p;
  if (a < h.base || a >= h.top)
    violation("memory", "free() of a foreign pointer %p", p);
  HeapBlk *b = blk_of(p);
  if (b->magic == 0xDEADF4EEu)
    violation("memory", "double free() of %p", p);
  if (b->magic != 0xA110CA7Eu)
    violation("memory", "free() of a wild pointer or overwritten block %p", p);
  b->magic = 0xDEADF4EEu;
  u64 rounded;
  size_class(b->size, rounded);
  h.live -= b->size;
  h.live_blocks--;
  memset(p, 0xDD, rounded);
  if (b->cls == ~1u)
    return;
  if (b->cls != ~0u)
    h.free_small[b->cls].push_back(a);
  else
    h.free_large[rounded].push_back(a);
}
static void heap_reset(int slot) {
  Heap &h = S->heaps[slot];
  uintptr_t base = HEAP_BASE + slot * HEAP_SPAN;
  if (h.top > base)
    madvise((void *)base, (h.top - base + 4095) & ~4095ull, MADV_DONTNEED);
  h = Heap();
  h.base = base;
  h.top = base + 64;
}

// ---------------------------------------------------------------- scheduling
static void update_next_event() {
  u64 n = std::min(std::min(S->next_switch, S->next_wb), std::min(S->next_kill, S->next_power));
  n = std::min(n, S->next_force);
  S->next_event = std::min(n, CFG.point_cap);
}

static void to_sched() {
  Task *me = cur;
  me->err = errno;
  enabled = false;
  sim_switch(&me->sp, S->sched_sp);
  enabled = true;
  errno = me->err;
}
[[noreturn]] static void to_sched_forever() {
  void *dummy;
  enabled = false;
  sim_switch(&dummy, S->sched_sp);
  internal_error("resumed a dead task");
}

static Task *ready_for;
// A blocked task may wait for an object in the library's globals: look at the image of its own process.
static void *own_view(void *p) {
  uintptr_t a = (uintptr_t)p;
  if (!ready_for || ready_for->vp == S->loaded)
    return p;
  if (a - (uintptr_t)__start_mdbxdata < img_data())
    return ready_for->vp->image.data() + (a - (uintptr_t)__start_mdbxdata);
  if (a - (uintptr_t)__start_mdbxbss < img_bss())
    return ready_for->vp->image.data() + img_data() + (a - (uintptr_t)__start_mdbxbss);
  return p;
}
static bool call_ready(Task *t) {
  ready_for = t;
  bool r = t->ready(t->ready_arg);
  ready_for = nullptr;
  return r;
}
static bool task_ready(Task *t) {
  if (t->st == Task::RUNNABLE)
    return true;
  if (t->st == Task::BLOCKED) {
    if (t->wake_ns && t->wake_ns <= S->now)
      return true;
    if (t->ready && call_ready(t))
      return true;
  }
  return false;
}

static u64 crash_persist_seed() { return S->r_crash.next() | 1; }

static void do_power(u64 seed) {
  S->power_req = true;
  S->power_seed = seed;
  S->npowers++;
  SH->powerlosses++;
  SH->faults[F_POWERLOSS]++;
  logev(0xF0, S->points, seed);
  trace("POWER LOSS (persist seed %llx)", (unsigned long long)seed);
  if (cur)
    to_sched_forever();
}

static void do_kill(Vproc *vp) {
  S->nkills++;
  SH->kills++;
  SH->faults[F_KILL]++;
  logev(0xF1, S->points, vp->id);
  trace("KILL -9 process %s", vp->name.c_str());
  bool self = cur && cur->vp == vp;
  kill_process(vp);
  if (self)
    to_sched_forever();
}

static std::vector<Vproc *> killable_procs() {
  std::vector<Vproc *> v;
  for (Vproc *p : S->procs)
    if (p->alive && p->killable)
      v.push_back(p);
  return v;
}

static int writeback(u64 seed);

static void switch_from(u64 stall) {
  if (stall) {
    cur->stall_until = S->points + stall;
    SH->faults[F_STALL]++;
  }
  to_sched();
}

static u64 g_switch_target = ~0ull; // chosen by a recorded switch decision

static void point_slow() {
  if (S->points >= CFG.point_cap) {
    to_sched(); // scheduler reports RUN_CAP
    return;
  }
  if (S->replaying) {
    while (S->ip < S->rp_point.size() && S->rp_point[S->ip].idx <= S->points) {
      const Decision d = S->rp_point[S->ip++];
      S->next_switch = S->ip < S->rp_point.size() ? S->rp_point[S->ip].idx : ~0ull;
      update_next_event();
      record(D_POINT, S->points, d.val);
      switch (d.val & 0xff) {
      case PA_SWITCH:
      case PA_STALL: {
        g_switch_target = (d.val >> 8) & 0xffff;
        S->next_force = S->points + 400000;
        update_next_event();
        switch_from((d.val & 0xff) == PA_STALL ? d.val >> 24 : 0);
        break;
      }
      case PA_KILL: {
        u64 pid = d.val >> 8;
        for (Vproc *p : S->procs)
          if (p->alive && (u64)p->id == pid && p->killable) {
            do_kill(p);
            break;
          }
        break;
      }
      case PA_POWER:
        do_power(d.val >> 8);
        break;
      case PA_WRITEBACK:
        writeback(d.val >> 8);
        break;
      }
    }
    if (S->points >= S->next_force) {
      S->next_force = S->points + 400000;
      update_next_event();
      g_switch_target = ~0ull;
      to_sched();
    }
    return;
  }
  // record mode
  if (S->points >= S->next_wb) {
    u64 seed = S->r_wb.next() >> 8;
    S->next_wb = S->points + S->r_wb.gap(CFG.mean_writeback);
    update_next_event();
    if (writeback(seed))
      record(D_POINT, S->points, PA_WRITEBACK | seed << 8);
  }
  if (S->points >= S->next_kill) {
    S->next_kill = S->points + S->r_crash.gap(CFG.mean_kill);
    update_next_event();
    if (S->crashes && S->nkills < CFG.max_kills) {
      auto v = killable_procs();
      if (!v.empty()) {
        Vproc *p = S->r_crash.chance(1, 2) && cur->vp->killable ? cur->vp : S->r_crash.pick(v);
        record(D_POINT, S->points, PA_KILL | (u64)p->id << 8);
        do_kill(p);
      }
    }
  }
  if (S->points >= S->next_power) {
    S->next_power = S->points + S->r_crash.gap(CFG.mean_power);
    update_next_event();
    if (S->crashes && S->npowers < CFG.max_powers) {
      u64 seed = crash_persist_seed() >> 8;
      record(D_POINT, S->points, PA_POWER | seed << 8);
      do_power(seed);
    }
  }
  if (S->points >= S->next_force) {
    S->next_force = S->points + 400000;
    update_next_event();
    g_switch_target = ~0ull;
    to_sched();
    return;
  }
  if (S->points >= S->next_switch) {
    const bool race = S->race_hit;
    S->race_hit = false;
    S->next_switch = S->points + S->r_sched.gap(CFG.mean_switch);
    update_next_event();
    if (race && S->crashes && CFG.mean_kill && S->nkills < CFG.max_kills && cur->vp->killable && S->r_race.chance(1, 30)) {
      record(D_POINT, S->points, PA_KILL | (u64)cur->vp->id << 8);
      do_kill(cur->vp);
      return;
    }
    // candidates other than me
    unsigned n = 0;
    Task *pick = nullptr;
    for (Task *t : S->tasks)
      if (t != cur && t->st != Task::DONE && t->stall_until <= S->points && task_ready(t)) {
        ++n;
        if (S->r_sched.below(n) == 0)
          pick = t;
      }
    if (pick) {
      u64 stall = 0;
      if (CFG.stall_ppm && S->r_sched.ppm(CFG.stall_ppm))
        stall = S->r_sched.logu(100, CFG.stall_max);
      else if (race && S->r_race.chance(1, 2))
        stall = S->r_race.logu(100, CFG.stall_max);
      S->next_force = S->points + 400000;
      update_next_event();
      record(D_POINT, S->points, (stall ? (PA_STALL | stall << 24) : PA_SWITCH) | (u64)pick->id << 8);
      g_switch_target = pick->id;
      switch_from(stall);
    }
  }
}

static inline void point(unsigned w) {
  if (!enabled)
    return;
  S->points += w;
  if (__builtin_expect(S->points >= S->next_event, 0))
    point_slow();
}

// An atomic access: others may be directed right here, i.e. between accesses of a lock-free protocol.
static inline void point_atomic(const volatile void *p) {
  if (!enabled)
    return;
  S->points += CFG.w_atomic;
  if (__builtin_expect(S->race_left != ~0ull, 1) && (!CFG.race_maps || (uintptr_t)p - MAP_BASE < MAP_SPAN) && --S->race_left == 0) {
    S->race_left = S->r_race.gap(CFG.mean_race);
    S->race_hit = true;
    S->next_switch = S->points;
    update_next_event();
  }
  if (__builtin_expect(S->points >= S->next_event, 0))
    point_slow();
}

void yield_point() { point(1); }

RunResult run_scheduler() {
  for (;;) {
    if (S->power_req)
      return RUN_POWERLOSS;
    if (S->points >= CFG.point_cap) {
      sync_stats();
      return RUN_CAP;
    }
    Task *next = nullptr;
    bool any = false;
    if (g_switch_target != ~0ull) {
      for (Task *t : S->tasks)
        if ((u64)t->id == g_switch_target && t->st != Task::DONE && task_ready(t))
          next = t;
      g_switch_target = ~0ull;
    }
    if (!next) {
      // forced switch: choose among the ready ones
      std::vector<Task *> c, stalled;
      u64 min_wake = ~0ull;
      for (Task *t : S->tasks) {
        if (t->st == Task::DONE)
          continue;
        any = true;
        if (task_ready(t))
          (t->stall_until <= S->points ? c : stalled).push_back(t);
        else if (t->wake_ns)
          min_wake = std::min(min_wake, t->wake_ns);
      }
      if (!any)
        return RUN_DONE;
      if (c.empty())
        c.swap(stalled);
      if (c.empty()) {
        if (min_wake == ~0ull) {
          sync_stats();
          return RUN_DEADLOCK;
        }
        S->now = min_wake;
        continue;
      }
      // default: round robin after the current one
      size_t def = 0;
      if (cur) {
        for (size_t i = 0; i < c.size(); ++i)
          if (c[i]->id > cur->id) {
            def = i;
            break;
          }
      }
      next = c[def];
      if (c.size() > 1) {
        u64 n = ++S->nblock;
        if (S->replaying) {
          while (S->ib < S->rp_block.size() && S->rp_block[S->ib].idx < n)
            S->ib++;
          if (S->ib < S->rp_block.size() && S->rp_block[S->ib].idx == n) {
            for (Task *t : c)
              if ((u64)t->id == S->rp_block[S->ib].val)
                next = t;
            S->ib++;
          }
        } else
          next = S->r_sched.pick(c);
        if (next != c[def])
          record(D_BLOCK, n, next->id);
      }
    }
    if (next != cur) {
      SH->switches++;
      SH->sched_hash = mix64(SH->sched_hash ^ ((u64)next->id << 20) ^ (u64)(uintptr_t)next->what);
      logev(0x51, next->id, S->points);
    }
    next->st = Task::RUNNABLE;
    next->ready = nullptr;
    next->wake_ns = 0;
    next->stall_until = 0;
    load_proc(next->vp);
    cur = next;
    if (!next->sp)
      internal_error("task without stack");
    enabled = true;
    errno = next->err;
    sim_switch(&S->sched_sp, next->sp);
    enabled = false;
  }
}

static void run_thread_dtors() {
  while (!cur->atexits.empty()) {
    auto a = cur->atexits.back();
    cur->atexits.pop_back();
    a.first(a.second);
  }
  for (int iter = 0; iter < 4; ++iter) {
    bool again = false;
    auto vals = cur->specific;
    for (auto &kv : vals) {
      auto k = cur->vp->keys.find(kv.first);
      if (kv.second && k != cur->vp->keys.end() && k->second) {
        cur->specific[kv.first] = nullptr;
        k->second(kv.second);
        again = true;
      }
    }
    if (!again)
      break;
  }
}

static void task_entry() {
  Task *t = cur;
  enabled = true;
  if (t->body)
    t->body();
  t->what = "thread exit";
  run_thread_dtors();
  t->st = Task::DONE;
  to_sched_forever();
}

static void prep_stack(Task *t) {
  if ((unsigned)t->id >= MAX_TASKS)
    internal_error("too many tasks");
  t->stack = (u8 *)(STACK_BASE + (uintptr_t)t->id * STACK_SIZE);
  u64 *sp = (u64 *)(t->stack + STACK_SIZE - 64);
  *--sp = 0; // fake return address / alignment
  *--sp = (u64)(uintptr_t)&task_entry;
  for (int i = 0; i < 6; ++i)
    *--sp = 0;
  t->sp = sp;
}

Task *spawn_task(Vproc *vp, std::function<void()> body, const char *name) {
  Task *t = new Task;
  t->id = (int)S->tasks.size();
  t->vp = vp;
  t->body = std::move(body);
  t->tid = 0x7f0000000000ull + S->next_tid++ * 0x1000;
  t->what = name;
  prep_stack(t);
  S->tasks.push_back(t);
  vp->tasks.push_back(t);
  return t;
}

Vproc *spawn_process(const char *name, std::function<void()> main_body) {
  Vproc *vp = new Vproc;
  vp->id = (int)S->procs.size() + 1;
  vp->slot = -1;
  bool used[HEAP_SLOTS] = {false};
  for (Vproc *p : S->procs)
    if (p->alive)
      used[p->slot] = true;
  for (unsigned i = 0; i < HEAP_SLOTS; ++i)
    if (!used[i]) {
      vp->slot = i;
      break;
    }
  if (vp->slot < 0)
    internal_error("too many processes");
  heap_reset(vp->slot);
  if (CFG.pid_reuse) {
    // smallest pid not in use
    int pid = 1000;
    for (bool again = true; again;) {
      again = false;
      for (Vproc *p : S->procs)
        if (p->alive && p->pid == pid)
          ++pid, again = true;
    }
    vp->pid = pid;
  } else
    vp->pid = S->next_pid += 7;
  vp->name = std::string(name) + "#" + std::to_string(vp->id);
  vp->fds.resize(3, nullptr);
  vp->image = S->pristine;
  S->procs.push_back(vp);
  spawn_task(
      vp,
      [vp, main_body]() {
        for (ctor_t *c = __start_mdbxctors; c < __stop_mdbxctors; ++c)
          if (*c)
            (*c)(0, nullptr, nullptr);
        main_body();
        // orderly process exit: thread dtors of main, then library destructors
        vp->exiting = true;
        run_thread_dtors();
        for (ctor_t *c = __start_mdbxdtors; c < __stop_mdbxdtors; ++c)
          if (*c)
            (*(void (*)())(*c))();
        enabled = false;
        kill_process(vp);
        to_sched_forever();
      },
      "main");
  return vp;
}

void exit_process_abruptly() {
  Vproc *vp = cur->vp;
  vp->exiting = true;
  SH->faults[F_EXIT_NOCLOSE]++;
  trace("exit() without closing");
  run_thread_dtors();
  for (ctor_t *c = __start_mdbxdtors; c < __stop_mdbxdtors; ++c)
    if (*c)
      (*(void (*)())(*c))();
  enabled = false;
  kill_process(vp);
  to_sched_forever();
}

static void close_ofd(Vproc *vp, OFD *f);

u64 points_now() { return S->points; }
u64 last_death() { return S->last_death; }
void kill_process(Vproc *vp) {
  if (!vp->alive)
    return;
  for (Task *t : vp->tasks)
    t->st = Task::DONE;
  vp->alive = false;
  S->last_death = S->points;
  for (size_t i = 0; i < S->maps.size();) {
    if (S->maps[i].vp == vp) {
      munmap((void *)S->maps[i].addr, S->maps[i].len);
      S->maps.erase(S->maps.begin() + i);
    } else
      ++i;
  }
  for (OFD *&f : vp->fds)
    if (f) {
      close_ofd(vp, f);
      f = nullptr;
    }
  if (S->loaded == vp)
    S->loaded = nullptr;
  heap_reset(vp->slot);
}

void wait_until(bool (*ready)(void *), void *arg) {
  while (!ready(arg)) {
    cur->ready = ready;
    cur->ready_arg = arg;
    cur->st = Task::BLOCKED;
    to_sched();
  }
}
static void block_timed(bool (*ready)(void *), void *arg, u64 wake) {
  cur->ready = ready;
  cur->ready_arg = arg;
  cur->wake_ns = wake;
  cur->st = Task::BLOCKED;
  to_sched();
}
void sleep_ns(u64 ns) {
  u64 until = S->now + (ns ? ns : 1);
  while (S->now < until)
    block_timed(nullptr, nullptr, until);
}
bool task_done(Task *t) { return t->st == Task::DONE; }
u64 now_ns() { return S->now; }
void advance_ns(u64 ns) { S->now += ns; }
void faults_enable(bool on) { S->faults = on; }
bool faults_enabled() { return S->faults; }
void crashes_enable(bool on) { S->crashes = on; }
u64 faults_fired() { return S->nfaults; }
static void note_fault() {
  S->nfaults++;
  if (cur)
    cur->nfaults++;
}
void set_quota(u64 b) { S->quota = b; }
u32 buggify_seed() { return (u32)S->r_misc.next(); }

std::string describe_tasks() {
  std::string s;
  char b[300];
  for (Task *t : S->tasks)
    if (t->st != Task::DONE) {
      snprintf(b, sizeof b, "{task %d of %s: %s in %s%s}", t->id, t->vp->name.c_str(),
               t->st == Task::BLOCKED ? "blocked" : "runnable", t->what, t->lib_thread ? " (library thread)" : "");
      s += b;
    }
  return s;
}

// ---------------------------------------------------------------- fault points
Fault fault_point(std::initializer_list<Fault> kinds, bool io) {
  if (!enabled)
    return F_NONE;
  u64 n = ++S->nsys;
  if (S->replaying) {
    while (S->is < S->rp_sys.size() && S->rp_sys[S->is].idx < n)
      S->is++;
    if (S->is < S->rp_sys.size() && S->rp_sys[S->is].idx == n) {
      u64 v = S->rp_sys[S->is++].val;
      Fault k = (Fault)(v & 0xff);
      if (k == F_KILL) {
        if (!cur->vp->killable)
          return F_NONE;
        record(D_SYS, n, v);
        do_kill(cur->vp);
      } else if (k == F_POWERLOSS) {
        record(D_SYS, n, v);
        do_power(v >> 8);
      }
      for (Fault q : kinds)
        if (q == k) {
          record(D_SYS, n, v);
          SH->faults[k]++;
          if (k != F_MINCORE_COLD && k != F_COND_SPURIOUS && k != F_CLOCK_JUMP)
            note_fault();
          logev(0xFA, n, k);
          trace("fault %s", fault_names[k]);
          return k;
        }
    }
    return F_NONE;
  }
  if (io && S->crashes) {
    if (CFG.kill_io_ppm && S->nkills < CFG.max_kills && cur->vp->killable && S->r_crash.ppm(CFG.kill_io_ppm)) {
      record(D_SYS, n, F_KILL);
      do_kill(cur->vp);
    }
    if (CFG.power_io_ppm && S->npowers < CFG.max_powers && S->r_crash.ppm(CFG.power_io_ppm)) {
      u64 seed = crash_persist_seed() >> 8;
      record(D_SYS, n, F_POWERLOSS | seed << 8);
      do_power(seed);
    }
  }
  if (S->faults && cur->vp->faults_on && !cur->vp->exiting) {
    for (Fault k : kinds)
      if (CFG.fault_ppm[k] && S->nfaults < CFG.max_faults && S->r_fault.ppm(CFG.fault_ppm[k])) {
        record(D_SYS, n, k);
        SH->faults[k]++;
        if (k != F_MINCORE_COLD && k != F_COND_SPURIOUS && k != F_CLOCK_JUMP)
          note_fault();
        logev(0xFA, n, k);
        trace("fault %s", fault_names[k]);
        return k;
      }
  }
  return F_NONE;
}

static void sysenter(u32 code, u64 a = 0) {
  SH->syscalls++;
  S->now += 1000;
  logev(code, a, S->points);
  point(CFG.w_sys);
}

// ---------------------------------------------------------------- inodes and the disk
static Inode *new_inode(const std::string &name) {
  Inode *i = new Inode;
  i->id = S->next_inode++;
  i->name = name;
  i->memfd = memfd_create("sim", MFD_CLOEXEC);
  if (i->memfd < 0)
    internal_error("memfd_create failed: %d", errno);
  i->view = (u8 *)mmap((void *)S->view_top, VIEW_SPAN, PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_NORESERVE | MAP_FIXED_NOREPLACE, i->memfd, 0);
  if (i->view == MAP_FAILED)
    internal_error("mmap of a view failed: %d", errno);
  S->view_top += VIEW_SPAN;
  S->inodes.push_back(i);
  return i;
}
static int inode_resize(Inode *i, u64 n) {
  if (n > VIEW_SPAN)
    return EFBIG;
  if (n == i->size)
    return 0;
  if (ftruncate(i->memfd, n))
    internal_error("ftruncate(%llu) of memfd failed: %d", (unsigned long long)n, errno);
  u64 lo = std::min(n, i->size), hi = std::max(n, i->size);
  i->mark(lo, hi - lo);
  i->size = n;
  i->max_size = std::max(i->max_size, n);
  return 0;
}
// makes [off,off+len) of the page cache durable (whole pages)
static void persist(Inode *i, u64 off, u64 len) {
  if (!len)
    return;
  u64 end = std::min(off + len, i->size);
  // the journal makes the current size durable as well
  i->durable.resize(i->size);
  for (u64 p = off >> 12; (p << 12) < end; ++p) {
    u64 a = p << 12, n = std::min<u64>(4096, std::min<u64>(i->size, i->durable.size()) - a);
    if (a >= i->durable.size())
      break;
    if (!i->wmapped && !i->is_marked(p))
      continue;
    memcpy(i->durable.data() + a, i->view + a, n);
    i->clear_mark(p);
  }
}
static void persist_all(Inode *i) {
  if (i->durable.size() != i->size) {
    if (i->durable.size() > i->size)
      i->durable.resize(i->size);
  }
  u64 old = i->durable.size();
  if (old < i->size) {
    i->durable.resize(i->size);
    // the tail of the old last page may differ
    u64 a = old & ~4095ull;
    memcpy(i->durable.data() + a, i->view + a, i->size - a);
  }
  persist(i, 0, i->size);
  i->entry_durable = true;
}
static bool page_differs(Inode *i, u64 p) {
  u64 a = p << 12;
  if (a >= i->size)
    return a < i->durable.size();
  u64 n = std::min<u64>(4096, i->size - a);
  if (a >= i->durable.size())
    return true;
  u64 d = std::min<u64>(4096, i->durable.size() - a);
  return n != d || memcmp(i->view + a, i->durable.data() + a, n) != 0;
}
static std::vector<u64> dirty_pages(Inode *i, Rng *window = nullptr) {
  std::vector<u64> v;
  u64 np = std::max(i->pages(), (u64)(i->durable.size() + 4095) >> 12), from = 0;
  if (window && np > 2048) {
    // a big file: comparing all of it again and again would take too long
    from = window->chance(1, 2) ? 0 : window->below(np - 1024);
    np = from + 1024;
  }
  for (u64 p = from; p < np; ++p)
    if ((i->wmapped || i->is_marked(p)) && (p << 12) < i->size) {
      if (page_differs(i, p))
        v.push_back(p);
      else
        i->clear_mark(p);
    }
  return v;
}
// background writeback by the OS: some dirty pages become durable
static int writeback(u64 seed) {
  Rng r(seed);
  int done = 0;
  for (Inode *i : S->inodes) {
    if (i->is_stream || i->name.find(".lck") != std::string::npos || i->name.find("-lck") != std::string::npos)
      continue;
    auto v = dirty_pages(i, &r);
    if (v.empty())
      continue;
    unsigned mode = r.below(4); // all, random half, single, prefix
    u64 k = r.below(v.size());
    for (u64 j = 0; j < v.size(); ++j) {
      bool take = mode == 0 || (mode == 1 && (r.next() & 1)) || (mode == 2 && j == k) || (mode == 3 && j <= k);
      if (!take)
        continue;
      u64 a = v[j] << 12;
      u64 end = std::min<u64>(i->size, a + 4096);
      if (i->durable.size() < end) {
        // delayed allocation: the size becomes durable together with the data
        i->durable.resize(end);
      }
      memcpy(i->durable.data() + a, i->view + a, end - a);
      i->clear_mark(v[j]);
      ++done;
    }
  }
  if (done) {
    SH->faults[F_WRITEBACK]++;
    logev(0xF3, seed, done);
    trace("background writeback of %d pages", done);
  }
  return done;
}

void reboot_after_powerloss() {
  Rng r(hash2(S->power_seed, CFG.persist_mode));
  cur = nullptr;
  enabled = false;
  for (Vproc *p : S->procs)
    kill_process(p);
  S->loaded = nullptr;
  std::vector<std::string> gone;
  for (Inode *i : S->inodes) {
    if (i->is_stream)
      continue;
    auto v = dirty_pages(i);
    std::vector<u8> out = i->durable;
    unsigned size_mode = r.below(3); // durable size, volatile size, as needed by surviving pages
    if (size_mode == 1 && i->entry_durable)
      out.resize(i->size);
    unsigned mode = CFG.persist_mode ? CFG.persist_mode - 1 : (unsigned)r.below(10);
    u64 k = r.below(v.size() + 1);
    u64 dens = r.range(1, 9);
    u64 lost = 0, torn = 0;
    for (u64 j = 0; j < v.size(); ++j) {
      bool take = false, tear = false;
      switch (mode) {
      case 0:
        take = false;
        break;
      case 1:
        take = true;
        break;
      case 2:
        take = r.below(10) < dens;
        break;
      case 3:
        take = r.below(10) < dens;
        tear = r.chance(1, 2);
        break;
      case 4:
        take = j < k;
        break; // low addresses first: metas before data
      case 5:
        take = j >= k;
        break;
      case 6:
        take = v[j] < 3 * 16;
        break; // only the beginning of the file (metas, whatever page size)
      case 7:
        take = v[j] >= 3;
        break; // everything but the first pages
      case 8:
        take = j + 1 != k;
        break; // exactly one lost
      case 9:
        take = j + 1 == k;
        tear = r.chance(1, 4);
        break; // exactly one survives
      }
      u64 a = v[j] << 12, end = std::min<u64>(i->size, a + 4096);
      if (!take) {
        ++lost;
        continue;
      }
      if (out.size() < end)
        out.resize(end);
      if (tear) {
        ++torn;
        for (u64 s = a; s < end; s += 512)
          if (r.next() & 1)
            memcpy(out.data() + s, i->view + s, std::min<u64>(512, end - s));
      } else
        memcpy(out.data() + a, i->view + a, end - a);
    }
    SH->faults[F_LOSTPAGE] += lost;
    SH->faults[F_TORN] += torn;
    trace("power loss: %s: %zu dirty pages, mode %u, %llu lost, %llu torn, size %llu -> %zu", i->name.c_str(), v.size(),
          mode, (unsigned long long)lost, (unsigned long long)torn, (unsigned long long)i->size, out.size());
    if (!i->entry_durable && r.chance(1, 2) && i->nlink > 0)
      gone.push_back(i->name);
    // install
    if (ftruncate(i->memfd, 0))
      internal_error("ftruncate");
    if (ftruncate(i->memfd, out.size()))
      internal_error("ftruncate");
    memcpy(i->view, out.data(), out.size());
    i->size = out.size();
    i->durable = std::move(out);
    i->dirty.clear();
    i->wmapped = false;
    i->locks.clear();
    i->entry_durable = true;
  }
  for (auto &g : gone)
    S->files.erase(g);
  S->boot++;
  S->power_req = false;
  // the monotonic clock restarts, the real-time clock goes on
  u64 up = S->now;
  S->past_ns += S->now - S->boot_ns;
  S->now = S->boot_ns = 1000000000ull * 100 + r.below(1000000000ull);
  S->real_off += up;
  g_switch_target = ~0ull;
  SH->epochs++;
  if (!S->replaying && CFG.mean_power)
    S->next_power = S->points + S->r_crash.gap(CFG.mean_power);
  if (!S->replaying)
    update_next_event();
}
void request_powerloss() {
  u64 seed = hash2(CFG.seed, 0x9000 + S->npowers) >> 8;
  S->power_req = true;
  S->power_seed = seed;
  S->npowers++;
  SH->powerlosses++;
  SH->faults[F_POWERLOSS]++;
  if (cur)
    to_sched_forever();
}

bool vfs_exists(const char *p) { return S->files.count(p) != 0; }
std::vector<u8> vfs_content(const char *p) {
  auto it = S->files.find(p);
  if (it == S->files.end())
    return {};
  return std::vector<u8>(it->second->view, it->second->view + it->second->size);
}
std::vector<u8> vfs_durable(const char *p) {
  auto it = S->files.find(p);
  return it == S->files.end() ? std::vector<u8>() : it->second->durable;
}
u64 vfs_size(const char *p) {
  auto it = S->files.find(p);
  return it == S->files.end() ? 0 : it->second->size;
}
u64 vfs_max_size_seen(const char *p) {
  auto it = S->files.find(p);
  return it == S->files.end() ? 0 : it->second->max_size;
}
void vfs_create(const char *p, const std::vector<u8> &c) {
  vfs_remove(p);
  Inode *i = new_inode(p);
  S->files[p] = i;
  inode_resize(i, c.size());
  memcpy(i->view, c.data(), c.size());
  persist_all(i);
}
void vfs_remove(const char *p) {
  auto it = S->files.find(p);
  if (it != S->files.end()) {
    it->second->nlink = 0;
    S->files.erase(it);
  }
}
void vfs_make_durable_all() {
  for (Inode *i : S->inodes)
    if (!i->is_stream)
      persist_all(i);
}
void vfs_set_readonly(const char *p, bool ro) {
  auto it = S->files.find(p);
  if (it != S->files.end())
    it->second->readonly = ro;
}
void vfs_flip(const char *p, u64 off, u8 mask) {
  auto it = S->files.find(p);
  if (it != S->files.end() && off < it->second->size) {
    it->second->view[off] ^= mask;
    it->second->mark(off, 1);
  }
}

static void close_ofd(Vproc *vp, OFD *f);
static int install_fd(OFD *f) {
  auto &t = cur->vp->fds;
  for (size_t i = 3; i < t.size(); ++i)
    if (!t[i]) {
      t[i] = f;
      return (int)i;
    }
  t.push_back(f);
  return (int)t.size() - 1;
}
int vfs_open_stream(const char *name) {
  vfs_remove(name);
  Inode *i = new_inode(name);
  i->is_stream = true;
  S->files[name] = i;
  OFD *f = new OFD;
  f->ino = i;
  f->flags = O_WRONLY;
  return install_fd(f);
}
void vfs_close_fd(int fd) {
  if (fd >= 0 && (size_t)fd < cur->vp->fds.size() && cur->vp->fds[fd]) {
    OFD *f = cur->vp->fds[fd];
    cur->vp->fds[fd] = nullptr;
    if (f->ino)
      f->ino->is_stream = false; // the receiver kept everything in a file
    close_ofd(cur->vp, f);
  }
}
static OFD *getfd(int fd) {
  auto &t = cur->vp->fds;
  if (fd < 0 || (size_t)fd >= t.size() || !t[fd]) {
    errno = EBADF;
    return nullptr;
  }
  return t[fd];
}
static void close_ofd(Vproc *vp, OFD *f) {
  if (f->ino) { // POSIX: closing any descriptor drops the process's locks
    auto &L = f->ino->locks;
    L.erase(std::remove_if(L.begin(), L.end(), [&](const Inode::Lock &l) { return l.owner == vp; }), L.end());
  }
  if (--f->refs == 0) {
    if (f->ino) {
      auto &L = f->ino->locks;
      L.erase(std::remove_if(L.begin(), L.end(), [&](const Inode::Lock &l) { return l.owner == f; }), L.end());
    }
    delete f;
  }
}

static u64 total_space() {
  u64 n = 0;
  for (Inode *i : S->inodes)
    if (i->nlink > 0 && !i->is_stream)
      n += i->size;
  return n;
}

// ---------------------------------------------------------------- mutexes
struct Mx { // overlays pthread_mutex_t, compatible with its static initialisers
  u32 lock, count, owner, nusers;
  u32 kind;
  u32 pad[5];
};
static_assert(sizeof(Mx) <= sizeof(pthread_mutex_t), "mutex size");
enum { MX_TYPE = 3, MX_ROBUST = 16, MX_PSHARED = 128 };
static bool owner_alive(u32 owner) {
  return owner && owner - 1 < S->tasks.size() && S->tasks[owner - 1]->st != Task::DONE;
}
// For robust mutexes only the death of the thread matters; for plain ones a dead owner blocks forever.
static bool mx_ready(void *p) {
  Mx *m = (Mx *)own_view(p);
  return m->lock != 1 || ((m->kind & MX_ROBUST) && !owner_alive(m->owner));
}

// ---------------------------------------------------------------- signals
static u8 sigstack[65536];
static void on_signal(int sig, siginfo_t *si, void *uc) {
  ucontext_t *u = (ucontext_t *)uc;
  uintptr_t a = (uintptr_t)si->si_addr;
  const char *where = "unmapped memory";
  if (a >= MAP_BASE && a < MAP_BASE + MAP_SPAN)
    where = "file mapping area";
  else if (a >= HEAP_BASE && a < HEAP_BASE + HEAP_SPAN * HEAP_SLOTS)
    where = "heap";
  else if (a >= STACK_BASE && a < STACK_BASE + STACK_SIZE * MAX_TASKS)
    where = "stack";
  if (!enabled && sig != SIGBUS && !(a >= MAP_BASE && a < MAP_BASE + MAP_SPAN))
    internal_error("signal %d at %p rip %p outside of a task", sig, si->si_addr,
                   (void *)u->uc_mcontext.gregs[REG_RIP]);
  violation("crash", "signal %s accessing %p (%s), rip %p", sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "SIGABRT",
            si->si_addr, where, (void *)u->uc_mcontext.gregs[REG_RIP]);
}

void init_run(const Config &cfg, const std::vector<Decision> *replay) {
  CFG = cfg;
  S = new State;
  S->r_sched = Rng(hash2(cfg.seed, 11));
  S->r_race = Rng(hash2(cfg.seed, 17));
  S->r_fault = Rng(hash2(cfg.seed, 12));
  S->r_crash = Rng(hash2(cfg.seed, 13));
  S->r_wb = Rng(hash2(cfg.seed, 14));
  S->r_misc = Rng(hash2(cfg.seed, 15));
  S->quota = cfg.disk_quota;
  static bool mapped = false;
  if (!mapped) {
    mapped = true;
    auto reserve = [](uintptr_t a, size_t n) {
      if (mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
               -1, 0) != (void *)a)
        internal_error("cannot reserve %zx at %zx: %d", n, (size_t)a, errno);
    };
    reserve(STACK_BASE, STACK_SIZE * MAX_TASKS);
    reserve(HEAP_BASE, HEAP_SPAN * HEAP_SLOTS);
    stack_t ss = {};
    ss.ss_sp = sigstack;
    ss.ss_size = sizeof sigstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
      sigaction(s, &sa, nullptr);
    signal(SIGPIPE, SIG_IGN);
  }
  for (unsigned i = 0; i < HEAP_SLOTS; ++i)
    heap_reset(i);
  save_image(S->pristine);
  SH->event_hash = hash2(cfg.seed, 1);
  if (replay) {
    S->replaying = true;
    for (auto &d : *replay)
      (d.stream == D_POINT ? S->rp_point : d.stream == D_BLOCK ? S->rp_block : S->rp_sys).push_back(d);
    auto byidx = [](const Decision &a, const Decision &b) { return a.idx < b.idx; };
    std::stable_sort(S->rp_point.begin(), S->rp_point.end(), byidx);
    std::stable_sort(S->rp_block.begin(), S->rp_block.end(), byidx);
    std::stable_sort(S->rp_sys.begin(), S->rp_sys.end(), byidx);
    S->next_switch = S->rp_point.empty() ? ~0ull : S->rp_point[0].idx;
  } else {
    if (CFG.mean_switch)
      S->next_switch = S->r_sched.gap(CFG.mean_switch);
    if (CFG.mean_race)
      S->race_left = S->r_race.gap(CFG.mean_race);
    if (CFG.mean_writeback)
      S->next_wb = S->r_wb.gap(CFG.mean_writeback);
    if (CFG.mean_kill)
      S->next_kill = S->r_crash.gap(CFG.mean_kill);
    if (CFG.mean_power)
      S->next_power = S->r_crash.gap(CFG.mean_power);
  }
  S->next_force = 400000;
  update_next_event();
}

} // namespace sim

// =====================================================================================================
// System interface seen by the library (symbols of mdbx.o are redirected here by objcopy)
// =====================================================================================================
using namespace sim;

extern "C" {

// ---- memory
void *sim_malloc(size_t n) {
  if (fault_point({F_MALLOC}, false))
    return errno = ENOMEM, nullptr;
  return heap_alloc_raw(cur_heap(), n, 16);
}
void sim_free(void *p) { heap_free(p); }
void *sim_calloc(size_t a, size_t b) {
  void *p = sim_malloc(a * b);
  if (p)
    memset(p, 0, a * b);
  return p;
}
size_t sim_malloc_usable_size(void *p) { return p ? blk_of(p)->size : 0; }
void *sim_realloc(void *p, size_t n) {
  if (!p)
    return sim_malloc(n);
  if (!n) {
    sim_free(p);
    return nullptr;
  }
  void *q = sim_malloc(n);
  if (!q)
    return nullptr;
  memcpy(q, p, std::min<size_t>(n, blk_of(p)->size));
  heap_free(p);
  return q;
}
void *sim_aligned_alloc(size_t al, size_t n) {
  if (fault_point({F_MALLOC}, false))
    return errno = ENOMEM, nullptr;
  return heap_alloc_raw(cur_heap(), n, al);
}
int sim_posix_memalign(void **pp, size_t al, size_t n) {
  void *p = sim_aligned_alloc(al, n);
  if (!p)
    return ENOMEM;
  *pp = p;
  return 0;
}
void *sim_memalign(size_t al, size_t n) { return sim_aligned_alloc(al, n); }
char *sim_strdup(const char *s) {
  size_t n = strlen(s) + 1;
  char *p = (char *)sim_malloc(n);
  if (p)
    memcpy(p, s, n);
  return p;
}

// ---- time
static u64 clk() {
  S->now += 50;
  return S->now;
}
int sim_clock_gettime(clockid_t id, struct timespec *ts) {
  point(1);
  u64 t = clk();
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)
    t += S->real_off;
  ts->tv_sec = t / 1000000000ull;
  ts->tv_nsec = t % 1000000000ull;
  return 0;
}
int sim_gettimeofday(struct timeval *tv, void *) {
  u64 t = clk() + S->real_off;
  tv->tv_sec = t / 1000000000ull;
  tv->tv_usec = t / 1000 % 1000000ull;
  return 0;
}
time_t sim_time(time_t *p) {
  time_t t = (clk() + S->real_off) / 1000000000ull;
  if (p)
    *p = t;
  return t;
}
int sim_usleep(unsigned us) {
  sysenter(1, us);
  sleep_ns(us * 1000ull);
  return 0;
}
int sim_nanosleep(const struct timespec *a, struct timespec *) {
  sysenter(1);
  sleep_ns(a->tv_sec * 1000000000ull + a->tv_nsec);
  return 0;
}
int sim_clock_nanosleep(clockid_t, int flags, const struct timespec *a, struct timespec *) {
  sysenter(1);
  u64 t = a->tv_sec * 1000000000ull + a->tv_nsec;
  if (flags & TIMER_ABSTIME)
    t = t > S->now ? t - S->now : 1;
  sleep_ns(t);
  return 0;
}
int sim_sched_yield(void) {
  S->now += 1000;
  // a voluntary yield: always give others a chance
  logev(2, S->points);
  S->points += CFG.w_sys;
  if (S->points >= S->next_event)
    point_slow();
  g_switch_target = ~0ull;
  if (enabled)
    to_sched();
  return 0;
}

// ---- identity and system information
int sim_getpid(void) { return cur->vp->pid; }
pthread_t sim_pthread_self(void) { return cur->tid; }
char *sim_getenv(const char *) { return nullptr; }
long sim_gethostid(void) { return 0x12345678; }
int sim_isatty(int fd) {
  (void)fd;
  errno = ENOTTY;
  return 0;
}
unsigned long sim_getauxval(unsigned long) { return 0; }
ssize_t sim_getrandom(void *buf, size_t n, unsigned) {
  for (size_t i = 0; i < n; ++i)
    ((u8 *)buf)[i] = (u8)S->r_misc.next();
  return n;
}
int sim_getrlimit64(int, struct rlimit64 *r) {
  r->rlim_cur = r->rlim_max = RLIM64_INFINITY;
  return 0;
}
int sim_setrlimit64(int, const struct rlimit64 *) { return 0; }
int sim_getrusage(int, struct rusage *r) {
  memset(r, 0, sizeof *r);
  u64 t = clk();
  r->ru_utime.tv_sec = t / 1000000000ull;
  r->ru_utime.tv_usec = t / 1000 % 1000000;
  return 0;
}
struct utmpx *sim_getutxid(const struct utmpx *) { return nullptr; }
void sim_setutxent(void) {}
void sim_endutxent(void) {}
FILE *sim_setmntent(const char *, const char *) { return nullptr; }
struct mntent *sim_getmntent(FILE *) { return nullptr; }
struct mntent *sim_getmntent_r(FILE *, struct mntent *, char *, int) { return nullptr; }
int sim_endmntent(FILE *) { return 1; }
int sim_uname(struct utsname *u) {
  memset(u, 0, sizeof *u);
  strcpy(u->sysname, "Linux");
  strcpy(u->nodename, "sim");
  strcpy(u->machine, "x86_64");
  strcpy(u->release, CFG.kernel == 2 ? "4.4.0" : CFG.kernel == 1 ? "5.12.3" : "6.1.0");
  strcpy(u->version, "#1 SMP");
  return 0;
}
long sim_sysconf(int n) {
  switch (n) {
  case _SC_PAGE_SIZE:
    return 4096;
  case _SC_PHYS_PAGES:
    return 1 << 20;
  case _SC_AVPHYS_PAGES:
    return 1 << 19;
  case _SC_IOV_MAX:
    return 1024;
  case _SC_NPROCESSORS_ONLN:
  case _SC_NPROCESSORS_CONF:
    return 4;
  }
  return sysconf(n);
}

// ---- files
static int fill_stat(Inode *i, struct stat64 *st) {
  memset(st, 0, sizeof *st);
  st->st_dev = 0x801;
  st->st_ino = i ? i->id : 2;
  st->st_mode = i ? (S_IFREG | 0644) : (S_IFDIR | 0755);
  st->st_nlink = 1;
  st->st_blksize = 4096;
  st->st_size = i ? i->size : 4096;
  st->st_blocks = i ? (i->size + 511) / 512 : 8;
  return 0;
}
static bool is_dir(const char *p) { return !strcmp(p, "/") || !strcmp(p, "/db") || !strcmp(p, "/db/") || !strcmp(p, "/tmp"); }

int sim_open64(const char *path, int flags, ...) {
  sysenter(3, flags);
  if (!strcmp(path, "/proc/sys/kernel/random/boot_id")) {
    OFD *f = new OFD;
    f->ino = nullptr;
    f->flags = flags;
    f->is_special = true;
    char b[64];
    snprintf(b, sizeof b, "%08x-1111-4222-8333-%012llx\n", (unsigned)hash2(CFG.seed, S->boot),
             (unsigned long long)hash2(S->boot, CFG.seed) & 0xffffffffffffull);
    f->special = b;
    return install_fd(f);
  }
  if (strncmp(path, "/proc", 5) == 0 || strncmp(path, "/sys", 4) == 0 || strncmp(path, "/dev", 4) == 0 ||
      strncmp(path, "/etc", 4) == 0)
    return errno = ENOENT, -1;
  if (fault_point({F_OPEN_FAIL}, false))
    return errno = EMFILE, -1;
  if (is_dir(path))
    return errno = EISDIR, -1;
  auto it = S->files.find(path);
  Inode *i = nullptr;
  if (it != S->files.end()) {
    if ((flags & O_CREAT) && (flags & O_EXCL))
      return errno = EEXIST, -1;
    i = it->second;
    if (i->readonly && (flags & O_ACCMODE) != O_RDONLY)
      return errno = EACCES, -1;
  } else {
    if (!(flags & O_CREAT))
      return errno = ENOENT, -1;
    i = new_inode(path);
    S->files[path] = i;
  }
  if (flags & O_TRUNC) {
    inode_resize(i, 0);
  }
  OFD *f = new OFD;
  f->ino = i;
  f->flags = flags;
  int fd = install_fd(f);
  trace("open(%s, 0x%x) = %d", path, flags, fd);
  fault_point({}, true);
  return fd;
}
int sim_close(int fd) {
  sysenter(4, fd);
  OFD *f = getfd(fd);
  if (!f)
    return -1;
  cur->vp->fds[fd] = nullptr;
  close_ofd(cur->vp, f);
  fault_point({}, true);
  return 0;
}
int sim_dup(int fd) {
  OFD *f = getfd(fd);
  if (!f)
    return -1;
  f->refs++;
  return install_fd(f);
}
int sim_unlink(const char *path) {
  sysenter(5);
  if (!S->files.count(path))
    return errno = ENOENT, -1;
  vfs_remove(path);
  trace("unlink(%s)", path);
  fault_point({}, true);
  return 0;
}
int sim_remove(const char *path) { return sim_unlink(path); }
int sim_rename(const char *a, const char *b) {
  sysenter(5);
  auto it = S->files.find(a);
  if (it == S->files.end())
    return errno = ENOENT, -1;
  Inode *i = it->second;
  S->files.erase(it);
  vfs_remove(b);
  S->files[b] = i;
  i->name = b;
  return 0;
}
int sim_mkdir(const char *path, mode_t) {
  sysenter(6);
  return is_dir(path) ? (errno = EEXIST, -1) : (errno = EACCES, -1);
}
int sim_rmdir(const char *) {
  sysenter(6);
  return errno = ENOTEMPTY, -1;
}
int sim_access(const char *path, int) {
  sysenter(7);
  if (S->files.count(path) || is_dir(path))
    return 0;
  return errno = ENOENT, -1;
}
int sim_stat64(const char *path, struct stat64 *st) {
  sysenter(8);
  if (is_dir(path))
    return fill_stat(nullptr, st);
  auto it = S->files.find(path);
  if (it == S->files.end())
    return errno = ENOENT, -1;
  return fill_stat(it->second, st);
}
int sim_stat(const char *path, struct stat64 *st) { return sim_stat64(path, st); }
int sim_fstat64(int fd, struct stat64 *st) {
  sysenter(9, fd);
  OFD *f = getfd(fd);
  if (!f)
    return -1;
  if (fault_point({F_FSTAT_EIO}, false))
    return errno = EIO, -1;
  fill_stat(f->ino, st);
  if (!f->ino)
    st->st_mode = S_IFREG | 0444, st->st_size = 0;
  if (f->ino && f->ino->is_stream)
    st->st_mode = S_IFIFO | 0644, st->st_size = 0;
  return 0;
}
int sim_fstat(int fd, struct stat64 *st) { return sim_fstat64(fd, st); }
int sim_fstatfs64(int fd, struct statfs64 *s) {
  sysenter(10, fd);
  OFD *f = getfd(fd);
  if (!f)
    return -1;
  memset(s, 0, sizeof *s);
  s->f_type = f->is_special ? 0x9fa0 : 0xEF53;
  s->f_bsize = 4096;
  s->f_blocks = 1 << 20;
  s->f_bfree = s->f_bavail = 1 << 19;
  return 0;
}
int sim_fstatfs(int fd, struct statfs64 *s) { return sim_fstatfs64(fd, s); }
static void fill_statvfs(struct statvfs64 *s) {
  memset(s, 0, sizeof *s);
  s->f_bsize = s->f_frsize = 4096;
  s->f_blocks = 1 << 20;
  s->f_bfree = s->f_bavail = 1 << 19;
}
int sim_fstatvfs64(int fd, struct statvfs64 *s) {
  sysenter(10, fd);
  if (!getfd(fd))
    return -1;
  fill_statvfs(s);
  return 0;
}
int sim_statvfs64(const char *path, struct statvfs64 *s) {
  if (!S->files.count(path) && !is_dir(path))
    return errno = ENOENT, -1;
  fill_statvfs(s);
  return 0;
}
long sim_lseek64(int fd, long off, int whence) {
  OFD *f = getfd(fd);
  if (!f)
    return -1;
  if (f->ino && f->ino->is_stream)
    return errno = ESPIPE, -1;
  u64 base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? f->pos : f->ino ? f->ino->size : f->special.size();
  f->pos = base + off;
  return f->pos;
}
ssize_t sim_read(int fd, void *buf, size_t n) {
  sysenter(11, n);
  OFD *f = getfd(fd);
  if (!f)
    return -1;
  if (f->is_special) {
    size_t left = f->special.size() > f->pos ? f->special.size() - f->pos : 0;
    n = std::min(n, left);
    memcpy(buf, f->special.data() + f->pos, n);
    f->pos += n;
    return n;
  }
  u64 left = f->ino->size > f->pos ? f->ino->size - f->pos : 0;
  n = std::min<u64>(n, left);
  memcpy(buf, f->ino->view + f->pos, n);
  f->pos += n;
  return n;
}
ssize_t sim_pread64(int fd, void *buf, size_t n, off64_t off) {
  sysenter(12, off);
  OFD *f = getfd(fd);
  if (!f)
    return -1;
  Fault k = fault_point({F_PREAD_EIO, F_PREAD_SHORT}, false);
  if (k == F_PREAD_EIO)
    return errno = EIO, -1;
  u64 left = f->ino->size > (u64)off ? f->ino->size - off : 0;
  n = std::min<u64>(n, left);
  if (k == F_PREAD_SHORT && n > 1)
    n /= 2;
  memcpy(buf, f->ino->view + off, n);
  return n;
}

static ssize_t do_pwrite(OFD *f, const struct iovec *iov, int cnt, u64 off) {
  u64 total = 0;
  for (int i = 0; i < cnt; ++i)
    total += iov[i].iov_len;
  if ((f->flags & O_ACCMODE) == O_RDONLY)
    return errno = EBADF, -1;
  Fault k = fault_point({F_PWRITE_EIO, F_PWRITE_ENOSPC, F_PWRITE_SHORT, F_PWRITE_EINTR}, true);
  Inode *ino = f->ino;
  trace("pwrite(%s, off %llu, len %llu)%s", ino->name.c_str(), (unsigned long long)off, (unsigned long long)total,
        (f->flags & O_DSYNC) ? " dsync" : "");
  if (k == F_PWRITE_EIO)
    return errno = EIO, -1;
  if (k == F_PWRITE_ENOSPC)
    return errno = ENOSPC, -1;
  if (k == F_PWRITE_EINTR)
    return errno = EINTR, -1;
  u64 limit = total;
  if (k == F_PWRITE_SHORT && total > 1)
    limit = std::max<u64>(1, (total / 2) & (total > 1024 ? ~511ull : ~0ull));
  if (off + limit > ino->size) {
    if (S->quota && total_space() + (off + limit - ino->size) > S->quota) {
      SH->faults[F_DISK_FULL]++;
      note_fault();
      return errno = ENOSPC, -1;
    }
    int e = inode_resize(ino, off + limit);
    if (e)
      return errno = e, -1;
  }
  u64 done = 0;
  for (int i = 0; i < cnt && done < limit; ++i) {
    u64 n = std::min<u64>(iov[i].iov_len, limit - done);
    // other processes may see a partially done write: preemption between pieces
    for (u64 q = 0; q < n;) {
      u64 c = std::min<u64>(n - q, 1024);
      memcpy(ino->view + off + done + q, (const u8 *)iov[i].iov_base + q, c);
      ino->mark(off + done + q, c);
      q += c;
      point(CFG.w_atomic);
    }
    done += n;
    if (done < limit)
      fault_point({}, true);
  }
  if (f->flags & (O_DSYNC | O_SYNC)) {
    // synchronous write: the pages of this range become durable (generic_write_sync),
    // together with the size as far as it is needed and with the creation of the file
    persist(ino, off, done);
    ino->entry_durable = true;
    S->now += CFG.fsync_ns;
  } else if (done >= 256)
    cur->lazy_bytes += done;
  fault_point({}, true);
  return done;
}
ssize_t sim_pwrite64(int fd, const void *buf, size_t n, off64_t off) {
  sysenter(13, off);
  OFD *f = getfd(fd);
  if (!f)
    return -1;
  struct iovec v = {(void *)buf, n};
  return do_pwrite(f, &v, 1, off);
}
ssize_t sim_pwritev64(int fd, const struct iovec *iov, int cnt, off64_t off) {
  sysenter(14, off);
  OFD *f = getfd(fd);
  if (!f)
    return -1;
  return do_pwrite(f, iov, cnt, off);
}
ssize_t sim_write(int fd, const void *buf, size_t n) {
  sysenter(15, n);
  OFD *f = getfd(fd);
  if (!f)
    return -1;
  if ((f->flags & O_ACCMODE) == O_RDONLY)
    return errno = EBADF, -1;
  Fault k = fault_point({F_STREAM_EIO, F_STREAM_SHORT, F_PWRITE_EINTR, F_PWRITE_ENOSPC}, true);
  if (k == F_STREAM_EIO)
    return errno = f->ino->is_stream ? EPIPE : EIO, -1;
  if (k == F_PWRITE_EINTR)
    return errno = EINTR, -1;
  if (k == F_PWRITE_ENOSPC)
    return errno = f->ino->is_stream ? EIO : ENOSPC, -1;
  if (k == F_STREAM_SHORT && n > 1)
    n = std::max<size_t>(1, n / 3);
  if (f->ino->is_stream && n > 65536 && !(n & 1))
    n = 65536; // pipes accept limited amounts
  u64 off = f->pos;
  if (off + n > f->ino->size) {
    if (S->quota && !f->ino->is_stream && total_space() + n > S->quota) {
      SH->faults[F_DISK_FULL]++;
      note_fault();
      return errno = ENOSPC, -1;
    }
    int e = inode_resize(f->ino, off + n);
    if (e)
      return errno = e, -1;
  }
  for (size_t q = 0; q < n;) {
    size_t c = std::min<size_t>(n - q, 4096);
    memcpy(f->ino->view + off + q, (const u8 *)buf + q, c);
    q += c;
    point(CFG.w_atomic);
  }
  f->ino->mark(off, n);
  f->pos += n;
  fault_point({}, true);
  return n;
}
ssize_t sim_writev(int fd, const struct iovec *iov, int cnt) {
  ssize_t t = 0;
  for (int i = 0; i < cnt; ++i) {
    ssize_t r = sim_write(fd, iov[i].iov_base, iov[i].iov_len);
    if (r < 0)
      return t ? t : r;
    t += r;
    if ((size_t)r < iov[i].iov_len)
      break;
  }
  return t;
}
ssize_t sim_copy_file_range(int fi, off64_t *oi, int fo, off64_t *oo, size_t n, unsigned) {
  sysenter(16, n);
  OFD *a = getfd(fi), *b = getfd(fo);
  if (!a || !b)
    return -1;
  if (!CFG.copy_range_works)
    return errno = EXDEV, -1;
  if (b->ino->is_stream)
    return errno = EINVAL, -1;
  Fault k = fault_point({F_COPYRANGE_ERR, F_STREAM_SHORT}, true);
  if (k == F_COPYRANGE_ERR)
    return errno = EIO, -1;
  u64 i = oi ? *oi : a->pos, o = oo ? *oo : b->pos;
  u64 left = a->ino->size > i ? a->ino->size - i : 0;
  n = std::min<u64>(n, left);
  n = std::min<size_t>(n, 256 * 1024);
  if (k == F_STREAM_SHORT && n > 1)
    n = std::max<size_t>(1, n / 3);
  if (o + n > b->ino->size) {
    if (S->quota && total_space() + (o + n - b->ino->size) > S->quota) {
      SH->faults[F_DISK_FULL]++;
      note_fault();
      return errno = ENOSPC, -1;
    }
    int e = inode_resize(b->ino, o + n);
    if (e)
      return errno = e, -1;
  }
  for (size_t q = 0; q < n;) {
    size_t c = std::min<size_t>(n - q, 4096);
    memmove(b->ino->view + o + q, a->ino->view + i + q, c);
    q += c;
    point(CFG.w_atomic);
  }
  b->ino->mark(o, n);
  if (oi)
    *oi += n;
  else
    a->pos += n;
  if (oo)
    *oo += n;
  else
    b->pos += n;
  fault_point({}, true);
  return n;
}
ssize_t sim_sendfile64(int fo, int fi, off64_t *oi, size_t n) {
  sysenter(17, n);
  OFD *a = getfd(fi), *b = getfd(fo);
  if (!a || !b)
    return -1;
  if (!CFG.sendfile_works)
    return errno = ENOSYS, -1;
  Fault k = fault_point({F_STREAM_EIO, F_STREAM_SHORT}, true);
  if (k == F_STREAM_EIO)
    return errno = EIO, -1;
  u64 i = oi ? *oi : a->pos;
  u64 left = a->ino->size > i ? a->ino->size - i : 0;
  n = std::min<u64>(n, left);
  n = std::min<size_t>(n, 256 * 1024);
  if (k == F_STREAM_SHORT && n > 1)
    n = std::max<size_t>(1, n / 3);
  u64 o = b->pos;
  if (o + n > b->ino->size) {
    if (S->quota && !b->ino->is_stream && total_space() + (o + n - b->ino->size) > S->quota) {
      SH->faults[F_DISK_FULL]++;
      note_fault();
      return errno = ENOSPC, -1;
    }
    int e = inode_resize(b->ino, o + n);
    if (e)
      return errno = e, -1;
  }
  for (size_t q = 0; q < n;) {
    size_t c = std::min<size_t>(n - q, 4096);
    memcpy(b->ino->view + o + q, a->ino->view + i + q, c);
    q += c;
    point(CFG.w_atomic);
  }
  b->ino->mark(o, n);
  b->pos += n;
  if (oi)
    *oi += n;
  else
    a->pos += n;
  fault_point({}, true);
  return n;
}
static int do_truncate(OFD *f, u64 n, bool grow_only) {
  Fault k = fault_point({F_FTRUNC_ENOSPC, F_FTRUNC_EIO}, true);
  trace("%s(%s, %llu -> %llu)", grow_only ? "fallocate" : "ftruncate", f->ino->name.c_str(),
        (unsigned long long)f->ino->size, (unsigned long long)n);
  if (k == F_FTRUNC_EIO)
    return EIO;
  if (n > f->ino->size) {
    if (k == F_FTRUNC_ENOSPC)
      return ENOSPC;
    if (S->quota && total_space() + (n - f->ino->size) > S->quota) {
      SH->faults[F_DISK_FULL]++;
      note_fault();
      return ENOSPC;
    }
  }
  if (grow_only && n <= f->ino->size)
    return 0;
  int e = inode_resize(f->ino, n);
  fault_point({}, true);
  return e;
}
int sim_ftruncate64(int fd, off64_t n) {
  sysenter(18, n);
  OFD *f = getfd(fd);
  if (!f)
    return -1;
  if ((f->flags & O_ACCMODE) == O_RDONLY)
    return errno = EINVAL, -1;
  if (f->ino->is_stream)
    return errno = EINVAL, -1;
  int e = do_truncate(f, n, false);
  return e ? (errno = e, -1) : 0;
}
int sim_posix_fallocate64(int fd, off64_t off, off64_t n) {
  sysenter(19, n);
  OFD *f = getfd(fd);
  if (!f)
    return EBADF;
  if ((f->flags & O_ACCMODE) == O_RDONLY)
    return EBADF;
  if (f->ino->is_stream)
    return ESPIPE;
  return do_truncate(f, off + n, true);
}
int sim_fallocate64(int fd, int, off64_t off, off64_t n) {
  int e = sim_posix_fallocate64(fd, off, n);
  return e ? (errno = e, -1) : 0;
}
static int do_fsync(int fd, bool data_only) {
  OFD *f = getfd(fd);
  if (!f)
    return -1;
  if (f->ino->is_stream)
    return errno = EINVAL, -1;
  Fault k = fault_point({F_FSYNC_EIO, F_FSYNC_EINTR}, true);
  trace("%s(%s)", data_only ? "fdatasync" : "fsync", f->ino->name.c_str());
  if (k == F_FSYNC_EINTR)
    return errno = EINTR, -1;
  if (k == F_FSYNC_EIO) {
    // part of the data may have reached the disk
    if (S->nsys & 1)
      persist(f->ino, 0, f->ino->size / 2);
    return errno = EIO, -1;
  }
  persist_all(f->ino);
  S->now += CFG.fsync_ns;
  fault_point({}, true);
  return 0;
}
int sim_fsync(int fd) {
  sysenter(20, fd);
  return do_fsync(fd, false);
}
int sim_fdatasync(int fd) {
  sysenter(21, fd);
  return do_fsync(fd, true);
}
int sim_flock(int, int) {
  sysenter(22);
  return 0;
}

// ---- byte range locks
static bool lock_conflict(Inode *i, const void *owner, u64 a, u64 b, bool wr, Inode::Lock *out) {
  for (auto &l : i->locks)
    if (l.owner != owner && l.start < b && a < l.end && (wr || l.wr)) {
      if (out)
        *out = l;
      return true;
    }
  return false;
}
static void lock_set(Inode *i, const void *owner, u64 a, u64 b, int type) {
  std::vector<Inode::Lock> n;
  for (auto &l : i->locks) {
    if (l.owner != owner || l.end <= a || b <= l.start) {
      n.push_back(l);
      continue;
    }
    if (l.start < a)
      n.push_back({l.start, a, l.wr, owner});
    if (b < l.end)
      n.push_back({b, l.end, l.wr, owner});
  }
  if (type != F_UNLCK)
    n.push_back({a, b, type == F_WRLCK, owner});
  i->locks.swap(n);
}
struct LockWait {
  Inode *i;
  const void *owner;
  u64 a, b;
  bool wr;
};
static bool lock_ready(void *p) {
  LockWait *w = (LockWait *)p;
  return !lock_conflict(w->i, w->owner, w->a, w->b, w->wr, nullptr);
}
int sim_fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  sysenter(23, cmd);
  OFD *f = getfd(fd);
  if (!f)
    return -1;
  switch (cmd) {
  case F_GETFD:
  case F_SETFD:
  case F_SETFL:
    return 0;
  case F_GETFL:
    return f->flags;
  case F_OFD_SETLK:
  case F_OFD_SETLKW:
  case F_OFD_GETLK:
    /* fallthrough */
  case F_SETLK:
  case F_SETLKW:
  case F_GETLK: {
    bool ofd = cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW || cmd == F_OFD_GETLK;
    const void *owner = ofd ? (const void *)f : (const void *)cur->vp;
    struct flock64 *fl = (struct flock64 *)arg;
    u64 a = fl->l_start, b = fl->l_len ? a + fl->l_len : ~0ull;
    if (!f->ino || f->ino->is_stream)
      return errno = EINVAL, -1;
    if (ofd && fl->l_pid != 0)
      return errno = EINVAL, -1;
    int acc = f->flags & O_ACCMODE;
    if (cmd != F_GETLK && cmd != F_OFD_GETLK &&
        ((fl->l_type == F_WRLCK && acc == O_RDONLY) || (fl->l_type == F_RDLCK && acc == O_WRONLY)))
      return errno = EBADF, -1;
    if (cmd == F_GETLK || cmd == F_OFD_GETLK) {
      Inode::Lock l;
      if (lock_conflict(f->ino, owner, a, b, fl->l_type == F_WRLCK, &l)) {
        fl->l_type = l.wr ? F_WRLCK : F_RDLCK;
        fl->l_start = l.start;
        fl->l_len = l.end == ~0ull ? 0 : l.end - l.start;
        fl->l_pid = ofd ? -1 : 1;
      } else
        fl->l_type = F_UNLCK;
      return 0;
    }
    if (fl->l_type != F_UNLCK) {
      Fault k = fault_point({F_LOCK_ERR, F_LOCK_EINTR}, true);
      if (k == F_LOCK_ERR)
        return errno = ENOLCK, -1;
      if (k == F_LOCK_EINTR && (cmd == F_SETLKW || cmd == F_OFD_SETLKW))
        return errno = EINTR, -1;
      if (lock_conflict(f->ino, owner, a, b, fl->l_type == F_WRLCK, nullptr)) {
        if (cmd == F_SETLK || cmd == F_OFD_SETLK)
          return errno = EAGAIN, -1;
        LockWait w = {f->ino, owner, a, b, fl->l_type == F_WRLCK};
        wait_until(lock_ready, &w);
      }
    }
    lock_set(f->ino, owner, a, b, fl->l_type);
    trace("lock %s %s [%llu,%llu)", f->ino->name.c_str(),
          fl->l_type == F_UNLCK ? "UN" : fl->l_type == F_WRLCK ? "WR" : "RD", (unsigned long long)a,
          (unsigned long long)b);
    fault_point({}, true);
    return 0;
  }
  }
  return errno = EINVAL, -1;
}

// ---- mappings
static uintptr_t pick_map_addr(size_t len) {
  size_t gap = CFG.map_gap ? 64ull << 20 : 0;
  uintptr_t a = (S->map_top + 0xffff) & ~0xffffull;
  S->map_top = a + ((len + 0xffff) & ~0xffffull) + gap;
  if (S->map_top > MAP_BASE + MAP_SPAN)
    internal_error("map arena exhausted");
  return a;
}
void *sim_mmap64(void *addr, size_t len, int prot, int flags, int fd, off64_t off) {
  sysenter(24, len);
  OFD *f = getfd(fd);
  if (!f)
    return MAP_FAILED;
  if (fault_point({F_MMAP_ENOMEM}, true))
    return errno = ENOMEM, MAP_FAILED;
  if (f->is_special || f->ino->is_stream)
    return errno = ENODEV, MAP_FAILED;
  if ((prot & PROT_WRITE) && (f->flags & O_ACCMODE) != O_RDWR)
    return errno = EACCES, MAP_FAILED;
  len = (len + 4095) & ~4095ull;
  uintptr_t a;
  if (addr && (flags & (MAP_FIXED | MAP_FIXED_NOREPLACE))) {
    a = (uintptr_t)addr;
    for (auto &m : S->maps)
      if (m.addr < a + len && a < m.addr + m.len)
        return errno = EEXIST, MAP_FAILED;
    if (!CFG.map_gap)
      return errno = EEXIST, MAP_FAILED;
  } else
    a = pick_map_addr(len);
  void *p = mmap((void *)a, len, prot, MAP_SHARED | MAP_NORESERVE | MAP_FIXED_NOREPLACE, f->ino->memfd, off);
  if (p == MAP_FAILED)
    internal_error("mmap(%zx,%zx) failed: %d", (size_t)a, len, errno);
  S->maps.push_back({cur->vp, a, len, f->ino, (u64)off, prot});
  if (prot & PROT_WRITE)
    f->ino->wmapped = true;
  trace("mmap(%s, %zu) = %p", f->ino->name.c_str(), len, p);
  fault_point({}, true);
  return p;
}
int sim_munmap(void *addr, size_t len) {
  sysenter(25, len);
  uintptr_t a = (uintptr_t)addr, b = a + ((len + 4095) & ~4095ull);
  for (size_t i = 0; i < S->maps.size(); ++i) {
    Map m = S->maps[i];
    if (m.vp != cur->vp || m.addr >= b || a >= m.addr + m.len)
      continue;
    uintptr_t lo = std::max(a, m.addr), hi = std::min<uintptr_t>(b, m.addr + m.len);
    munmap((void *)lo, hi - lo);
    S->maps.erase(S->maps.begin() + i);
    if (m.addr < lo)
      S->maps.push_back({m.vp, m.addr, lo - m.addr, m.ino, m.off, m.prot});
    if (hi < m.addr + m.len)
      S->maps.push_back({m.vp, hi, m.addr + m.len - hi, m.ino, m.off + (hi - m.addr), m.prot});
    i = (size_t)-1;
  }
  fault_point({}, true);
  return 0;
}
void *sim_mremap(void *addr, size_t olen, size_t nlen, int flags, ...) {
  sysenter(26, nlen);
  olen = (olen + 4095) & ~4095ull;
  nlen = (nlen + 4095) & ~4095ull;
  uintptr_t a = (uintptr_t)addr;
  if (fault_point({F_MREMAP_ENOMEM}, true))
    return errno = ENOMEM, MAP_FAILED;
  for (auto &m : S->maps)
    if (m.vp == cur->vp && m.addr == a && m.len == olen) {
      bool room = CFG.map_gap;
      if (room)
        for (auto &q : S->maps)
          if (&q != &m && q.addr < a + nlen && a < q.addr + q.len)
            room = false;
      if (nlen <= olen) {
        munmap((void *)(a + nlen), olen - nlen);
        m.len = nlen;
        return addr;
      }
      uintptr_t dst = a;
      if (!room) {
        if (!(flags & MREMAP_MAYMOVE))
          return errno = ENOMEM, MAP_FAILED;
        dst = pick_map_addr(nlen);
      }
      munmap((void *)a, olen);
      void *p = mmap((void *)dst, nlen, m.prot, MAP_SHARED | MAP_NORESERVE | MAP_FIXED_NOREPLACE, m.ino->memfd, m.off);
      if (p == MAP_FAILED)
        internal_error("mremap failed: %d", errno);
      m.addr = dst;
      m.len = nlen;
      if (dst + nlen > S->map_top)
        S->map_top = dst + nlen;
      return p;
    }
  return errno = EFAULT, MAP_FAILED;
}
static Map *map_of(uintptr_t a) {
  for (auto &m : S->maps)
    if (m.vp == cur->vp && m.addr <= a && a < m.addr + m.len)
      return &m;
  return nullptr;
}
int sim_msync(void *addr, size_t len, int flags) {
  sysenter(27, len);
  Map *m = map_of((uintptr_t)addr);
  if (!m)
    return errno = ENOMEM, -1;
  trace("msync(%s, +%zu, %s)", m->ino->name.c_str(), len, (flags & MS_SYNC) ? "SYNC" : "ASYNC");
  if (!(flags & MS_SYNC))
    return 0;
  if (fault_point({F_MSYNC_EIO}, true))
    return errno = EIO, -1;
  u64 off = (uintptr_t)addr - m->addr + m->off;
  persist(m->ino, off, len);
  m->ino->entry_durable = true;
  S->now += CFG.fsync_ns;
  fault_point({}, true);
  return 0;
}
int sim_madvise(void *addr, size_t len, int advice) {
  sysenter(28, advice);
  if (advice == MADV_REMOVE) {
    Map *m = map_of((uintptr_t)addr);
    if (!m || !(m->prot & PROT_WRITE))
      return errno = EACCES, -1;
    u64 off = (uintptr_t)addr - m->addr + m->off;
    u64 end = std::min<u64>(m->ino->size, off + len);
    if (off < end) {
      memset(m->ino->view + off, 0, end - off);
      m->ino->mark(off, end - off);
    }
  }
  return 0;
}
int sim_mincore(void *addr, size_t len, unsigned char *vec) {
  sysenter(29);
  Fault k = fault_point({F_MINCORE_COLD}, false);
  memset(vec, k ? 0 : 1, (len + 4095) / 4096);
  (void)addr;
  return 0;
}
int sim_mlock(const void *, size_t) { return 0; }
int sim_mlock2(const void *, size_t, unsigned) { return 0; }
int sim_munlock(const void *, size_t) { return 0; }

// ---- threads
int sim_pthread_create(pthread_t *out, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
  sysenter(30);
  if (fault_point({F_THREAD_EAGAIN}, false))
    return EAGAIN;
  Task *t = spawn_task(cur->vp, nullptr, "library thread");
  t->lib_thread = true;
  t->body = [t, fn, arg]() { t->ret = fn(arg); };
  *out = t->tid;
  return 0;
}
static bool join_ready(void *p) { return ((Task *)p)->st == Task::DONE; }
int sim_pthread_join(pthread_t id, void **ret) {
  sysenter(31);
  for (Task *t : cur->vp->tasks)
    if (t->tid == id) {
      wait_until(join_ready, t);
      if (ret)
        *ret = t->ret;
      return 0;
    }
  return ESRCH;
}
int sim_pthread_sigmask(int, const sigset_t *, sigset_t *) { return 0; }
int sim_sigwait(const sigset_t *, int *sig) {
  *sig = SIGPIPE;
  return 0;
}
int sim_pthread_atfork(void (*)(void), void (*)(void), void (*)(void)) { return 0; }

int sim_pthread_mutexattr_init(pthread_mutexattr_t *a) {
  *(u32 *)a = 0;
  return 0;
}
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
int sim_pthread_mutexattr_setprotocol(pthread_mutexattr_t *, int) { return 0; }
int sim_pthread_mutexattr_setpshared(pthread_mutexattr_t *a, int v) {
  if (v == PTHREAD_PROCESS_SHARED)
    *(u32 *)a |= MX_PSHARED;
  return 0;
}
int sim_pthread_mutexattr_setrobust(pthread_mutexattr_t *a, int v) {
  if (v == PTHREAD_MUTEX_ROBUST)
    *(u32 *)a |= MX_ROBUST;
  return 0;
}
int sim_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) {
  *(u32 *)a = (*(u32 *)a & ~MX_TYPE) | (t & MX_TYPE);
  return 0;
}
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  point(CFG.w_atomic);
  memset(m, 0, sizeof *m);
  ((Mx *)m)->kind = a ? *(u32 *)a : 0;
  return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t *m) {
  point(CFG.w_atomic);
  Mx *x = (Mx *)m;
  if (x->lock == 1 && !(x->kind & MX_ROBUST)) // as glibc does: the check is skipped for robust mutexes
    return EBUSY;
  return 0;
}
static int mx_acquire(Mx *x, bool block) {
  for (;;) {
    if (x->lock == 0x7fffffff)
      return ENOTRECOVERABLE;
    if (x->lock == 0) {
      x->lock = 1;
      x->owner = cur->id + 1;
      x->count = 1;
      return 0;
    }
    if (x->lock != 1)
      violation("memory", "mutex memory is garbage (%x)", x->lock);
    if (x->owner == (u32)cur->id + 1 && owner_alive(x->owner)) {
      if ((x->kind & MX_TYPE) == PTHREAD_MUTEX_RECURSIVE) {
        x->count++;
        return 0;
      }
      if ((x->kind & MX_TYPE) == PTHREAD_MUTEX_ERRORCHECK)
        return block ? EDEADLK : EBUSY;
      if (!block)
        return EBUSY;
    }
    if ((x->kind & MX_ROBUST) && !owner_alive(x->owner)) {
      x->lock = 1;
      x->owner = cur->id + 1;
      x->count = 1;
      x->nusers = 1; // inconsistent
      trace("mutex owner-dead");
      return EOWNERDEAD;
    }
    if (!block)
      return EBUSY;
    cur->ready = mx_ready;
    cur->ready_arg = x;
    cur->st = Task::BLOCKED;
    to_sched();
  }
}
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
  S->now += 30;
  point(CFG.w_sys);
  int r = mx_acquire((Mx *)m, true);
  return r;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m) {
  S->now += 30;
  point(CFG.w_sys);
  return mx_acquire((Mx *)m, false);
}
int sim_pthread_mutex_unlock(pthread_mutex_t *m) {
  point(CFG.w_sys);
  Mx *x = (Mx *)m;
  if (x->lock != 1 || x->owner != (u32)cur->id + 1)
    return EPERM;
  if (--x->count)
    return 0;
  if ((x->kind & MX_ROBUST) && x->nusers) {
    x->lock = 0x7fffffff;
    x->owner = 0;
    return 0;
  }
  x->owner = 0;
  x->lock = 0;
  point(CFG.w_atomic);
  return 0;
}
int sim_pthread_mutex_consistent(pthread_mutex_t *m) {
  Mx *x = (Mx *)m;
  if (!(x->kind & MX_ROBUST) || x->lock != 1 || !x->nusers)
    return EINVAL;
  x->nusers = 0;
  return 0;
}
struct Cv {
  u64 seq;
};
struct CvWait {
  Cv *c;
  u64 seq;
};
static bool cv_ready(void *p) { return ((Cv *)own_view(((CvWait *)p)->c))->seq != ((CvWait *)p)->seq; }
int sim_pthread_cond_init(pthread_cond_t *c, const void *) {
  memset(c, 0, sizeof *c);
  return 0;
}
int sim_pthread_cond_destroy(pthread_cond_t *) { return 0; }
int sim_pthread_cond_signal(pthread_cond_t *c) {
  point(CFG.w_sys);
  ((Cv *)c)->seq++;
  return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t *c) { return sim_pthread_cond_signal(c); }
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  CvWait w = {(Cv *)c, ((Cv *)c)->seq};
  sim_pthread_mutex_unlock(m);
  if (!fault_point({F_COND_SPURIOUS}, false))
    wait_until(cv_ready, &w);
  return sim_pthread_mutex_lock(m);
}
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  CvWait w = {(Cv *)c, ((Cv *)c)->seq};
  u64 until = ts->tv_sec * 1000000000ull + ts->tv_nsec;
  u64 mono = until > S->real_off ? until - S->real_off : until;
  sim_pthread_mutex_unlock(m);
  while (!cv_ready(&w) && S->now < mono)
    block_timed(cv_ready, &w, mono);
  int rc = cv_ready(&w) ? 0 : ETIMEDOUT;
  sim_pthread_mutex_lock(m);
  return rc;
}
int sim_pthread_key_create(pthread_key_t *k, void (*d)(void *)) {
  *k = cur->vp->next_key++;
  cur->vp->keys[*k] = d;
  return 0;
}
int sim_pthread_key_delete(pthread_key_t k) {
  cur->vp->keys.erase(k);
  for (Task *t : cur->vp->tasks)
    t->specific.erase(k);
  return 0;
}
void *sim_pthread_getspecific(pthread_key_t k) {
  auto it = cur->specific.find(k);
  return it == cur->specific.end() ? nullptr : it->second;
}
int sim_pthread_setspecific(pthread_key_t k, const void *v) {
  cur->specific[k] = (void *)v;
  return 0;
}
int sim___cxa_thread_atexit_impl(void (*d)(void *), void *obj, void *) {
  cur->atexits.push_back({d, obj});
  return 0;
}
struct emutls_control {
  size_t size, align;
  void *obj;
  void *templ;
};
void *__emutls_get_address(emutls_control *c) {
  for (auto &p : cur->emutls)
    if (p.first == c)
      return p.second;
  void *m = heap_alloc_raw(S->heaps[cur->vp->slot], c->size < 16 ? 16 : c->size, 16);
  if (c->templ)
    memcpy(m, c->templ, c->size);
  else
    memset(m, 0, c->size);
  cur->emutls.push_back({c, m});
  return m;
}

// ---- stdio/assertions
[[noreturn]] void sim___assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
  violation("assert", "assertion failed: %s at %s:%u in %s", e, file, line, fn);
}
[[noreturn]] void sim_abort(void) { violation("panic", "the library called abort()"); }
int sim_fprintf(FILE *, const char *, ...) { return 0; }
int sim_vfprintf(FILE *, const char *, va_list) { return 0; }
int sim_fflush(FILE *) { return 0; }

// ---- instrumentation callbacks (compiled-in by -fsanitize=thread; the real runtime is not linked)
static inline bool in_maps(const volatile void *p) { return (uintptr_t)p - MAP_BASE < MAP_SPAN; }
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define PLAIN(name)                                                                                                    \
  void name(void *p) {                                                                                                 \
    if (in_maps(p))                                                                                                    \
      point(CFG.w_plain);                                                                                              \
  }
#define VOLAT(name)                                                                                                    \
  void name(void *p) {                                                                                                 \
    point_atomic(p);                                                                                                   \
  }
PLAIN(__tsan_read1)
PLAIN(__tsan_read2)
PLAIN(__tsan_read4)
PLAIN(__tsan_read8)
PLAIN(__tsan_read16)
PLAIN(__tsan_write1)
PLAIN(__tsan_write2)
PLAIN(__tsan_write4)
PLAIN(__tsan_write8)
PLAIN(__tsan_write16)
PLAIN(__tsan_unaligned_read2)
PLAIN(__tsan_unaligned_read4)
PLAIN(__tsan_unaligned_read8)
PLAIN(__tsan_unaligned_read16)
PLAIN(__tsan_unaligned_write2)
PLAIN(__tsan_unaligned_write4)
PLAIN(__tsan_unaligned_write8)
PLAIN(__tsan_unaligned_write16)
VOLAT(__tsan_volatile_read1)
VOLAT(__tsan_volatile_read2)
VOLAT(__tsan_volatile_read4)
VOLAT(__tsan_volatile_read8)
VOLAT(__tsan_volatile_read16)
VOLAT(__tsan_volatile_write1)
VOLAT(__tsan_volatile_write2)
VOLAT(__tsan_volatile_write4)
VOLAT(__tsan_volatile_write8)
VOLAT(__tsan_volatile_write16)
VOLAT(__tsan_unaligned_volatile_read2)
VOLAT(__tsan_unaligned_volatile_read4)
VOLAT(__tsan_unaligned_volatile_read8)
VOLAT(__tsan_unaligned_volatile_read16)
VOLAT(__tsan_unaligned_volatile_write2)
VOLAT(__tsan_unaligned_volatile_write4)
VOLAT(__tsan_unaligned_volatile_write8)
VOLAT(__tsan_unaligned_volatile_write16)
void __tsan_vptr_read(void **) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_read_range(void *p, unsigned long) {
  if (in_maps(p))
    point(CFG.w_plain);
}
void __tsan_write_range(void *p, unsigned long) {
  if (in_maps(p))
    point(CFG.w_plain);
}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  if (n > 32 && (in_maps(d) || in_maps(s))) {
    // copies from/to shared memory are not atomic: preemption between pieces
    u8 *a = (u8 *)d;
    const u8 *b = (const u8 *)s;
    for (size_t q = 0; q < n;) {
      size_t c = n - q < 64 ? n - q : n > 1024 ? (n - q < 512 ? n - q : 512) : 64;
      memcpy(a + q, b + q, c);
      q += c;
      point(CFG.w_plain);
    }
    return d;
  }
  if (in_maps(d) || in_maps(s))
    point(CFG.w_plain);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  if (in_maps(d) || in_maps(s))
    point(CFG.w_plain);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  if (in_maps(d))
    point(CFG.w_plain);
  return memset(d, c, n);
}

#define ATOMICS(N, T)                                                                                                  \
  T __tsan_atomic##N##_load(const volatile T *p, int) {                                                                \
    point_atomic(p);                                                                                                   \
    return *p;                                                                                                         \
  }                                                                                                                    \
  void __tsan_atomic##N##_store(volatile T *p, T v, int) {                                                             \
    point_atomic(p);                                                                                                   \
    *p = v;                                                                                                            \
  }                                                                                                                    \
  T __tsan_atomic##N##_exchange(volatile T *p, T v, int) {                                                             \
    point_atomic(p);                                                                                                   \
    T o = *p;                                                                                                          \
    *p = v;                                                                                                            \
    return o;                                                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int) {                                                            \
    point_atomic(p);                                                                                                   \
    T o = *p;                                                                                                          \
    *p = o + v;                                                                                                        \
    return o;                                                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int) {                                                            \
    point_atomic(p);                                                                                                   \
    T o = *p;                                                                                                          \
    *p = o - v;                                                                                                        \
    return o;                                                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int) {                                                            \
    point_atomic(p);                                                                                                   \
    T o = *p;                                                                                                          \
    *p = o & v;                                                                                                        \
    return o;                                                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int) {                                                             \
    point_atomic(p);                                                                                                   \
    T o = *p;                                                                                                          \
    *p = o | v;                                                                                                        \
    return o;                                                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int) {                                                            \
    point_atomic(p);                                                                                                   \
    T o = *p;                                                                                                          \
    *p = o ^ v;                                                                                                        \
    return o;                                                                                                          \
  }                                                                                                                    \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) {                                 \
    point_atomic(p);                                                                                                   \
    if (*p == *e) {                                                                                                    \
      *p = v;                                                                                                          \
      return 1;                                                                                                        \
    }                                                                                                                  \
    *e = *p;                                                                                                           \
    return 0;                                                                                                          \
  }                                                                                                                    \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b) {                               \
    return __tsan_atomic##N##_compare_exchange_strong(p, e, v, a, b);                                                  \
  }                                                                                                                    \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int, int) {                                       \
    point_atomic(p);                                                                                                   \
    T o = *p;                                                                                                          \
    if (o == e)                                                                                                        \
      *p = v;                                                                                                          \
    return o;                                                                                                          \
  }
ATOMICS(8, u_int8_t)
ATOMICS(16, u_int16_t)
ATOMICS(32, u_int32_t)
ATOMICS(64, u_int64_t)
void __tsan_atomic_thread_fence(int) { point(CFG.w_atomic); }
void __tsan_atomic_signal_fence(int) {}

} // extern "C"
