#pragma once
#include "model.h"
#include <functional>
#include <set>
#include <unordered_set>

namespace sim {

// ---------------------------------------------------------------- knobs of a run
enum Op : u8 { // operations of a thread
  O_WRITE = 0, O_RBEGIN, O_RCHECK, O_REND, O_RRENEW, O_SYNC, O_POLL, O_GEOM, O_COPY, O_CHK, O_INFO, O_RDCHECK, O_RDLIST,
  O_DEFRAG, O_PARK, O_UNPARK, O_REFRESH, O_CLONE, O_AMEND, O_EMBARK, O_CACHE, O_MISUSE, O_SETFLAGS, O_CLOSEREOPEN, O_WARMUP,
  O_SLEEP, O_TXNINFO, O_DBI, O_ROOPEN, O_STALLREAD, O_OPT, O_COUNT
};
extern const char *const op_names[O_COUNT];
enum Sub : u8 { // steps inside a write transaction
  S_PUT = 0, S_DEL, S_GET, S_WALK, S_CUR, S_NEST, S_CLEAR, S_DROP, S_RENAME, S_SEQ, S_CANARY, S_SCAN, S_REPLACE, S_FILL,
  S_ERASE, S_CHECKPOINT, S_ROLLBACK, S_BAD, S_CACHEGET, S_MULTI, S_LOCKED, S_INSPECT, S_EXT, S_RANGE, S_COUNT
};
extern const char *const sub_names[S_COUNT];

enum SyncMode { SM_DURABLE = 0, SM_NOMETA, SM_SAFE_NOSYNC, SM_UTTERLY };

struct RunCfg {
  u32 ps = 4096;
  bool writemap = false, nosticky = true, lifo = false, nomeminit = false, exclusive = false, pagepert = false;
  bool coalesce = false;
  SyncMode sync = SM_DURABLE;
  int slots = 2, threads = 2, ops = 12, incs = 3, max_sub = 20;
  u32 max_val = 200;
  u64 glower = 0, gupper = 8 << 20, ggrow = 64 << 10, gshrink = 128 << 10;
  u32 maxreaders = 0;
  u32 dp_limit = 0;
  u64 sync_bytes = 0;
  u32 sync_period = 0; // 16.16
  bool dyn_tables = false;
  int epochs = 1;
  int ntabs = 3;
  u32 w[O_COUNT] = {0};
  u32 s[S_COUNT] = {0};
  u32 abort_pct = 10;
  u32 weak_txn_pct = 0;  // txn-level MDBX_TXN_NOSYNC / NOMETASYNC
  u32 exit_pct = 0;      // process exits without closing
  u32 dontsync_pct = 0;
  bool final_power = false;
  bool ro_slot = false; // slot 0 opens read-only
  bool cap_is_violation = true; // a livelock is a violation of whatever is checked: nothing may spin forever
  bool small_map = false;
  bool hsr = false;
  u32 reopen_max = 2;
  u32 max_tc = 3;          // long-lived cursors per writing transaction
  u32 tc_check = 0;        // percentage of steps followed by a look at all of them
  u32 max_rd = 3;          // readers per thread
  bool use_cache = false, toggle_nosync = false;
  u32 chk_pct = 100;
  bool churn = false, mix_modes = false, inspect = false;
  int scenario = 0; // dedicated scenario number (0 = generic workload)
  std::vector<std::pair<int, u64>> options;
};

enum SnapStatus { SN_INFLIGHT, SN_COMMITTED, SN_UNCERTAIN, SN_DROPPED };
struct Snap {
  u64 seq = 0, txnid = 0;
  State st;
  u64 hash = 0;
  SnapStatus status = SN_COMMITTED;
  Vproc *owner = nullptr;
  bool steady = true;
  bool seen = false;    // observed by a reader
  bool failed = false;  // the commit call returned an error
  u64 done_ns = 0;      // when the commit returned
  u64 pages = 0;        // written without syncing by the commit, at least
};
typedef std::shared_ptr<Snap> SnapP;

struct Proc;
struct Global {
  u64 seed = 0;
  std::string prop;
  RunCfg rc;
  Config sc;
  std::vector<TabSpec> specs;
  std::vector<SnapP> hist;
  u64 floor_seq = 0;
  u64 lck_seq = 0; // snapshots before this one were made before the lck-file was initialised last time
  u64 next_seq = 1;
  u64 seen_txnid = 0;
  Vproc *wproc = nullptr;
  Task *wtask = nullptr;
  bool need_recovery = false;
  bool created = false;   // an open with creation has succeeded at least once
  std::unordered_set<u64> skip;
  u64 reader_tainted = 0;
  std::map<int, int> live; // slot -> live processes
  int nprocs_open = 0;
  std::vector<Proc *> procs;
  int boots = 0;
  u64 obs_hash = 0;
  u64 maxcopy = 0;
  bool geom_changed = false;
  u64 kill_epoch = 0;
  int in_verify = 0;
  u64 copies = 0, chks = 0;
  u64 wacq = 0, opens = 0;
  u64 maint = 0; // changes of geometry and defragmentations
  u64 rd_ends = 0; // ended read transactions
  u64 odd_gen = 0; // attempts to open in another mode
  u64 last_api_end = 0; // point of the last return from a library call, in any thread
};
extern Global G;

struct RTxn {
  MDBX_txn *txn = nullptr;
  u64 T = 0;
  SnapP snap;
  bool reset = false, parked = false, autounpark = false;
  Task *owner = nullptr;
  u64 begun_ns = 0;
};

struct CacheSlot {
  MDBX_cache_entry_t e;
  size_t ti = 0;
  u32 k = 0;
};
struct Proc {
  int slot = 0, inc = 0;
  Vproc *vp = nullptr;
  MDBX_env *env = nullptr;
  bool ro = false, lazy = false; // lazy: some handle of the initial tables could not be opened at the start
  unsigned envflags = 0;
  bool panic = false;
  int running = 0;
  Rng rng{1};
  std::vector<Task *> threads;
  std::vector<CacheSlot> cache;
  int writers = 0, envops = 0; // see EnvUse
  int rusers = 0, dropping = 0; // see DbiUse
  std::vector<struct Thr *> thrs;
  bool registered = false; // a read transaction was started, so slots of a dead process with the same pid are gone
  std::map<std::string, MDBX_dbi> handles; // as remembered by the application
  std::set<MDBX_dbi> freed; // slots of handles of tables deleted by the current write transaction
  std::set<std::string> known;              // names under which a table was opened ever
  u64 duses = 0;
  int defrags = 0; // running
  u64 dopen = 0, dopened = 0; // started and finished openings of handles
  u64 maxreaders = 0; // slots of the reader table
  bool opened = false;
  u64 open_gen = 0;    // counts the openings
  bool odd = false;    // the environment is being opened or was opened in another mode than that of all
  u64 as_bytes = 0, as_ns = 0; // thresholds of auto-sync in force
};

struct Thr {
  Proc *p;
  int idx;
  u64 base;
  std::vector<RTxn> rd;
  bool stop = false;
  u64 opid = 0;
  Thr(Proc *p, int idx, u64 base) : p(p), idx(idx), base(base) { p->thrs.push_back(this); }
  ~Thr() {
    for (size_t i = 0; i < p->thrs.size(); ++i)
      if (p->thrs[i] == this) {
        p->thrs.erase(p->thrs.begin() + i);
        break;
      }
  }
  Thr(const Thr &) = delete;
};

struct WTxn {
  Thr *t;
  MDBX_txn *txn = nullptr;
  u64 id = 0;
  SnapP base;
  State cur;
  std::vector<State> stack; // for nested
  bool nobase = false;      // it is unknown what it is based on, since reading failed
  bool broken = false;      // an operation failed: only abort (or a failing commit) is expected
  bool mutated = false;
  bool zombies = false; // cursors of an outer transaction were closed within a nested one
  bool tabs_changed = false; // tables were created, deleted or renamed
  bool ambiguous = false;
  unsigned flags = 0;
  u64 opid = 0;
  u32 step = 0;
  struct TC {
    MDBX_cursor *c = nullptr;
    std::string tab;
    int st = 0; // 0 unknown, 1 at entry, 2 after deletion of the entry by this cursor
    u32 k = 0, d = 0;
    u64 th = 0;
    size_t depth = 0;
  };
  std::vector<TC> tc;
  struct Made { // tables created by this transaction
    std::string tab;
    MDBX_dbi dbi;
    size_t depth;
  };
  std::vector<Made> made;
  u64 commit_ns = 0, commit_bytes = 0; // at the beginning of the commit
  size_t depth() const { return stack.size(); }
};

// harness.cc
void configure(const std::string &prop, u64 seed, RunCfg &rc, Config &sc);
void harness_run();
u64 op_hash(u64 a, u64 b);

// shared helpers
bool fail_ok(int rc, const char *what);
bool gone_dbi(int rc);
bool is_skipped(u64 id);
std::string spec_tab_name(const TabSpec &s);
const TabSpec *spec_of(const std::string &name);
int open_tab(MDBX_txn *txn, const std::string &name, bool create, MDBX_dbi *dbi, bool afresh = false);
void forget_handles(const std::string &name = std::string());
bool read_state(MDBX_txn *txn, State &out, std::string &why, int &rc);
std::string diff_state(const State &a, const State &b);
int begin_read(Thr &t, RTxn &r);
void check_read(Thr &t, RTxn &r, Rng &g);
void end_read(Thr &t, RTxn &r, Rng &g);
void op_write(Thr &t, Rng &r, u64 opid, bool embark = false);
void run_steps(WTxn &w, Rng &r, u64 opid);
void finish_write(WTxn &w, Rng &r, bool embark = false);
void do_sync(Proc &p, bool force, bool nonblock);
bool expect_state(MDBX_txn *txn, const State &want, const char *cls, const char *who, u64 T);
void cache_probe(Thr &t, MDBX_txn *txn, const State &st, Rng &r, bool writer, u64 T);
void bad_step(WTxn &w, Rng &r);
void cursor_ext(MDBX_txn *txn, const Table &tb, Rng &g, const char *who);
void txn_inspect(MDBX_txn *txn, const State &st, Rng &g, const char *who, u64 T, bool writer);
int delete_range(MDBX_txn *txn, Table &tb, Rng &g);
bool ent_at(const Table &tb, size_t i, const MDBX_val &k, const MDBX_val &v, std::string &why, bool key_only = false);
void walk_cursor(MDBX_txn *txn, const Table &tb, Rng &g, int steps, const char *who);
int open_env(Proc &p, unsigned extra, bool creator);
void check_env(MDBX_env *env, const char *where, MDBX_txn *txn = nullptr);
SnapP head();
SnapP snap_for(u64 T);
bool writer_begun(WTxn &w, const char *how);
void writer_step(WTxn &w, Rng &r);
bool commit_model_begin(WTxn &w, SnapP &sn);
void commit_model_end(WTxn &w, SnapP sn, int rc);
void bind_reader(RTxn &r, u64 lo, u64 seen_before, const char *how);
void generic_op(Thr &t, Rng &r, Op kind, u64 opid);
void scenario_run(Thr &t, Rng &r); // dedicated scenarios

// Closing a table handle (a deletion closes it for the whole environment) must not happen, as documented for
// mdbx_dbi_close(), while another thread of the process is inside a call which uses the handle.
struct DbiUse {
  Proc *p;
  bool closing, on;
  DbiUse(Proc *p, bool closing, bool on_ = true) : p(p), closing(closing), on(on_ && G.rc.dyn_tables) {
    if (!on)
      return;
    if (closing) {
      while (p->dropping || p->rusers)
        wait_until([](void *a) { return ((Proc *)a)->dropping + ((Proc *)a)->rusers == 0; }, p);
      p->dropping = 1;
    } else {
      while (p->dropping)
        wait_until([](void *a) { return ((Proc *)a)->dropping == 0; }, p);
      p->rusers++;
    }
  }
  ~DbiUse() {
    if (on)
      closing ? p->dropping-- : p->rusers--;
  }
};

#define API(name, expr)                                                                                                \
  ({                                                                                                                   \
    const char *save_ = cur->what;                                                                                     \
    cur->what = name;                                                                                                  \
    cur->api_start = points_now();                                                                                     \
    cur->api_ends = G.rd_ends;                                                                                         \
    auto r_ = (expr);                                                                                                  \
    cur->what = save_;                                                                                                 \
    G.last_api_end = points_now();                                                                                     \
    SH->ops++;                                                                                                         \
    r_;                                                                                                                \
  })
#define APIV(name, expr)                                                                                               \
  do {                                                                                                                 \
    const char *save_ = cur->what;                                                                                     \
    cur->what = name;                                                                                                  \
    expr;                                                                                                              \
    cur->what = save_;                                                                                                 \
    G.last_api_end = points_now();                                                                                     \
    SH->ops++;                                                                                                         \
  } while (0)

} // namespace sim
