// Workload, reference-model bookkeeping and oracles.
#include "harness.h"
#include <cerrno>
#include <cstdlib>
#include <unistd.h>

namespace sim {
Global G;
const char *const op_names[O_COUNT] = {"write",   "read-begin", "read-check", "read-end", "read-renew", "sync",     "poll",   "geometry",
                                       "copy",    "chk",        "info",       "reader-check", "reader-list", "defrag", "park",   "unpark",
                                       "refresh", "clone",      "amend",      "embark",   "cache",      "misuse",   "setflags", "reopen",
                                       "warmup",  "sleep",      "txninfo",    "dbi",      "ro-open",    "stalled-reader", "option"};
const char *const sub_names[S_COUNT] = {"put",  "del",   "get",    "walk", "cursor", "nested", "clear", "drop", "rename", "sequence", "canary",
                                        "scan", "replace", "fill", "erase", "checkpoint", "rollback", "bad-call", "cacheget", "multi", "locked", "inspect", "ext", "range"};

static const char *DBPATH = "/db/data.mdbx";

u64 op_hash(u64 a, u64 b) { return hash2(a, b) & 0xffffffffffffull; }
bool is_skipped(u64 id) { return !G.skip.empty() && G.skip.count(id); }

// ------------------------------------------------------------------------------- errors
static bool env_level(int rc) { return rc == MDBX_PANIC; }
// Handles may be closed by others: by changes of the set of tables, or by mdbx_env_chk() (it closes the handles it was the first
// to open, so nobody may use them meanwhile: see Proc::lazy).
static bool dbi_volatile() {
  return G.rc.dyn_tables;
}
// how many slots of the reader table may be taken at most, by live processes only: slots of dead ones have to be reused
static u64 slots_bound() {
  if (last_death() >= cur->api_start)
    return ~0ull; // unknown at the moment when slots were looked through
  u64 n = G.rd_ends - cur->api_ends;
  for (Proc *p : G.procs)
    if (p->vp && p->vp->alive) {
      n += 3;
      for (Thr *t : p->thrs)
        n += t->rd.size() + 3;
    }
  return n;
}
static Proc *my_proc() {
  for (Proc *p : G.procs)
    if (p->vp == cur->vp)
      return p;
  return nullptr;
}
// a handle has been closed by another transaction, and the slot may be in use by another table
bool gone_dbi(int rc) { return rc == MDBX_BAD_DBI || rc == MDBX_DANGLING_DBI; }
bool fail_ok(int rc, const char *what) {
  if (rc == MDBX_SUCCESS)
    return true;
  // whatever fails, data must neither look damaged nor be denied because of that
  const bool damage = rc == MDBX_CORRUPTED || rc == MDBX_PAGE_NOTFOUND || rc == MDBX_CURSOR_FULL || rc == MDBX_PAGE_FULL || rc == MDBX_EBADSIGN ||
                      rc == MDBX_VERSION_MISMATCH || rc == MDBX_INCOMPATIBLE || rc == MDBX_INVALID || rc == MDBX_KEYEXIST || rc == MDBX_NOTFOUND ||
                      rc == MDBX_BAD_VALSIZE || rc == MDBX_EMULTIVAL || rc == MDBX_EKEYMISMATCH || rc == MDBX_TXN_OVERLAPPING || rc == MDBX_THREAD_MISMATCH;
  if (faults_fired() > 0 && !damage) {
    trace("tolerated: %s -> %d (%s)", what, rc, mdbx_strerror(rc));
    return true;
  }
  if ((rc == MDBX_MAP_FULL || rc == MDBX_UNABLE_EXTEND_MAPSIZE) && (G.rc.small_map || G.geom_changed))
    return true;
  if (rc == MDBX_TXN_FULL && (G.rc.dp_limit || G.rc.small_map || G.geom_changed)) // a small map limits the number of dirty pages as well
    return true;
  if (rc == MDBX_READERS_FULL && my_proc() && slots_bound() >= my_proc()->maxreaders) {
    probe(34);
    return true;
  }
  if (gone_dbi(rc) && dbi_volatile()) { // deletion and renaming of a table act upon handles of the whole process
    probe(40);
    return true;
  }
  if (rc == MDBX_READERS_FULL && my_proc())
    violation("reader-table", "%s: MDBX_READERS_FULL though no more than %llu of %llu slots may be taken by live processes", what,
              (unsigned long long)slots_bound(), (unsigned long long)my_proc()->maxreaders);
  violation("unexpected-error", "%s returned %d: %s", what, rc, mdbx_strerror(rc));
}

// ------------------------------------------------------------------------------- snapshots
SnapP head() {
  for (size_t i = G.hist.size(); i-- > 0;)
    if (G.hist[i]->status == SN_COMMITTED)
      return G.hist[i];
  internal_error("no committed snapshot");
}
static void drop_snap(SnapP s) {
  s->status = SN_DROPPED;
  for (size_t i = 0; i < G.hist.size(); ++i)
    if (G.hist[i] == s) {
      G.hist.erase(G.hist.begin() + i);
      return;
    }
}
SnapP snap_for(u64 T) {
  for (size_t i = G.hist.size(); i-- > 0;)
    if (G.hist[i]->txnid <= T)
      return G.hist[i];
  return nullptr;
}
static void prune_history() {
  // snapshots older than the durable floor are only needed by operations which began before, those hold a reference
  size_t keep = 0;
  while (keep + 1 < G.hist.size() && G.hist[keep + 1]->seq <= G.floor_seq && G.hist.size() - keep > 40 &&
         G.hist[keep].use_count() == 1)
    ++keep;
  if (keep)
    G.hist.erase(G.hist.begin(), G.hist.begin() + keep);
}

const TabSpec *spec_of(const std::string &name) {
  // "t<i><variant>": the digit selects the specification
  if (name.size() < 2 || name[0] != 't')
    return nullptr;
  size_t i = name[1] - '0';
  return i < G.specs.size() ? &G.specs[i] : nullptr;
}
// Gives a handle of the table: either the remembered one (an application opens its tables once), or by opening it again.
int open_tab(MDBX_txn *txn, const std::string &name, bool create, MDBX_dbi *dbi, bool afresh) {
  const TabSpec *s = spec_of(name);
  Proc *p = my_proc();
  if (p && mdbx_txn_env(txn) != p->env)
    p = nullptr;
  if (p && !create && !afresh) {
    auto it = p->handles.find(name);
    // a slot freed by deletion of a table and re-used for another one must be re-opened within that transaction
    const bool reused = it != p->handles.end() && p->freed.count(it->second) && !(mdbx_txn_flags(txn) & MDBX_TXN_RDONLY);
    if (it != p->handles.end() && !reused && (hash2(G.seed ^ p->slot, ++p->duses) & 1)) {
      *dbi = it->second;
      return MDBX_SUCCESS;
    }
  }
  if (p)
    p->dopen++;
  int rc = API("mdbx_dbi_open", mdbx_dbi_open(txn, name.c_str(), (MDBX_db_flags_t)(s->flags | (create ? MDBX_CREATE : 0)), dbi));
  if (p) {
    p->dopened++;
    if (rc == MDBX_SUCCESS) {
      p->known.insert(name);
      p->handles[name] = *dbi;
    } else
      p->handles.erase(name);
  }
  return rc;
}
void forget_handles(const std::string &name) {
  Proc *p = my_proc();
  if (!p)
    return;
  if (name.empty())
    p->handles.clear();
  else
    p->handles.erase(name);
}
// handles of tables whose creation was undone must not be valid anymore (unless their slots are in use by other tables)
static void check_undone(Proc *p, MDBX_txn *txn, const std::vector<WTxn::Made> &undone, u64 opens, const char *how) {
  for (auto &m : undone) {
    unsigned fl, st;
    int rc = API("mdbx_dbi_flags_ex", mdbx_dbi_flags_ex(txn, m.dbi, &fl, &st));
    if (p->dopen != opens)
      return;
    probe(48);
    if (rc == MDBX_SUCCESS)
      violation("tables", "the handle of table %s is still valid after the transaction which created it was aborted (%s)", m.tab.c_str(), how);
    if (rc != MDBX_BAD_DBI)
      fail_ok(rc, "mdbx_dbi_flags");
  }
}

static int read_table(MDBX_txn *txn, MDBX_dbi dbi, const TabSpec &spec, Table &out, std::string &why, unsigned how) {
  out.spec = spec;
  MDBX_cursor *c = nullptr;
  int rc = API("mdbx_cursor_open", mdbx_cursor_open(txn, dbi, &c));
  if (rc) {
    why = "mdbx_cursor_open failed";
    return rc;
  }
  MDBX_val k, v;
  bool back = (how & 1) != 0;
  rc = API("mdbx_cursor_get", mdbx_cursor_get(c, &k, &v, back ? MDBX_LAST : MDBX_FIRST));
  Ent prev{0, 0, 0, 0};
  bool first = true;
  char b[200];
  while (rc == MDBX_SUCCESS) {
    Ent e;
    if (!decode(spec, k, v, e)) {
      snprintf(b, sizeof b, "table %s: undecodable pair (key %zu bytes, value %zu bytes) after key %u.%u", spec.name.c_str(),
               k.iov_len, v.iov_len, prev.k, prev.d);
      why = b;
      mdbx_cursor_close(c);
      return MDBX_RESULT_TRUE;
    }
    if (!first && !(back ? ent_less(e, prev) : ent_less(prev, e))) {
      snprintf(b, sizeof b, "table %s: order violated, %u.%u then %u.%u", spec.name.c_str(), prev.k, prev.d, e.k, e.d);
      why = b;
      mdbx_cursor_close(c);
      return MDBX_RESULT_TRUE;
    }
    first = false;
    prev = e;
    out.v.push_back(e);
    out.xh ^= ent_hash(e);
    if (out.v.size() > 200000) {
      why = "endless table";
      mdbx_cursor_close(c);
      return MDBX_RESULT_TRUE;
    }
    rc = API("mdbx_cursor_get", mdbx_cursor_get(c, &k, &v, back ? MDBX_PREV : MDBX_NEXT));
  }
  mdbx_cursor_close(c);
  if (back)
    std::reverse(out.v.begin(), out.v.end());
  if (rc != MDBX_NOTFOUND) {
    snprintf(b, sizeof b, "table %s: cursor walk stopped after %zu items with %d: %s", spec.name.c_str(), out.v.size(), rc,
             mdbx_strerror(rc));
    why = b;
    return rc;
  }
  MDBX_stat st;
  rc = API("mdbx_dbi_stat", mdbx_dbi_stat(txn, dbi, &st, sizeof st));
  if (rc) {
    why = "mdbx_dbi_stat failed";
    return rc;
  }
  if (st.ms_entries != out.v.size()) {
    snprintf(b, sizeof b, "table %s: ms_entries is %llu but a walk finds %zu", spec.name.c_str(),
             (unsigned long long)st.ms_entries, out.v.size());
    why = b;
    return MDBX_RESULT_TRUE;
  }
  uint64_t seq = 0;
  rc = API("mdbx_dbi_sequence", mdbx_dbi_sequence(txn, dbi, &seq, 0));
  if (rc) {
    why = "mdbx_dbi_sequence failed";
    return rc;
  }
  out.seq = seq;
  return MDBX_SUCCESS;
}

// Reads the whole visible state. MDBX_RESULT_TRUE means: readable, but not a state any model could have.
bool read_state(MDBX_txn *txn, State &out, std::string &why, int &rc) {
  MDBX_dbi dbi;
  rc = API("mdbx_dbi_open", mdbx_dbi_open(txn, nullptr, MDBX_DB_ACCEDE, &dbi));
  if (rc) {
    why = "opening the main table failed";
    return false;
  }
  std::vector<std::string> names;
  MDBX_cursor *c;
  rc = API("mdbx_cursor_open", mdbx_cursor_open(txn, dbi, &c));
  if (rc) {
    why = "mdbx_cursor_open(main) failed";
    return false;
  }
  MDBX_val k, v;
  rc = API("mdbx_cursor_get", mdbx_cursor_get(c, &k, &v, MDBX_FIRST));
  while (rc == MDBX_SUCCESS && names.size() < 100) {
    names.emplace_back((const char *)k.iov_base, k.iov_len);
    rc = API("mdbx_cursor_get", mdbx_cursor_get(c, &k, &v, MDBX_NEXT));
  }
  mdbx_cursor_close(c);
  if (rc != MDBX_NOTFOUND) {
    why = "walk of the main table failed";
    return false;
  }
  for (auto &n : names) {
    const TabSpec *s = spec_of(n);
    if (!s || n.size() != 3) {
      why = "foreign name in the main table";
      rc = MDBX_RESULT_TRUE;
      return false;
    }
    rc = open_tab(txn, n, false, &dbi);
    if (rc) {
      why = "mdbx_dbi_open of listed table " + n + " failed";
      return false;
    }
    auto t = std::make_shared<Table>();
    rc = read_table(txn, dbi, *s, *t, why, (unsigned)hash2(SH->ops, 5) & 1);
    if (rc)
      return false;
    out.t[n] = t;
  }
  MDBX_canary can;
  rc = API("mdbx_canary_get", mdbx_canary_get(txn, &can));
  if (rc) {
    why = "mdbx_canary_get failed";
    return false;
  }
  out.can[0] = can.x, out.can[1] = can.y, out.can[2] = can.z;
  return true;
}

std::string diff_state(const State &a, const State &b) {
  char s[400];
  for (auto &kv : a.t)
    if (!b.get(kv.first))
      return "table " + kv.first + " is missing";
  for (auto &kv : b.t) {
    const Table *ta = a.get(kv.first);
    if (!ta)
      return "table " + kv.first + " should not exist";
    const Table &tb = *kv.second;
    if (ta->seq != tb.seq) {
      snprintf(s, sizeof s, "table %s: sequence is %llu instead of %llu", kv.first.c_str(), (unsigned long long)tb.seq,
               (unsigned long long)ta->seq);
      return s;
    }
    size_t i = 0, j = 0;
    while (i < ta->v.size() || j < tb.v.size()) {
      if (i < ta->v.size() && j < tb.v.size() && ta->v[i] == tb.v[j]) {
        ++i, ++j;
        continue;
      }
      if (j == tb.v.size() || (i < ta->v.size() && ent_less(ta->v[i], tb.v[j])))
        snprintf(s, sizeof s, "table %s: item %u.%u is missing (expected %zu items, found %zu)", kv.first.c_str(), ta->v[i].k,
                 ta->v[i].d, ta->v.size(), tb.v.size());
      else if (i == ta->v.size() || ent_less(tb.v[j], ta->v[i]))
        snprintf(s, sizeof s, "table %s: extra item %u.%u (expected %zu items, found %zu)", kv.first.c_str(), tb.v[j].k,
                 tb.v[j].d, ta->v.size(), tb.v.size());
      else
        snprintf(s, sizeof s, "table %s: item %u.%u has value tag %llx len %u instead of %llx len %u", kv.first.c_str(),
                 tb.v[j].k, tb.v[j].d, (unsigned long long)tb.v[j].tag, tb.v[j].len, (unsigned long long)ta->v[i].tag,
                 ta->v[i].len);
      return s;
    }
  }
  for (int i = 0; i < 3; ++i)
    if (a.can[i] != b.can[i])
      return "canary differs";
  return "no difference";
}

// the same, but opens handles again which were closed by changes of the set of tables in another thread
static bool read_stable(MDBX_txn *txn, State &out, std::string &why, int &rc) {
  for (int i = 0;; ++i) {
    out = State();
    if (read_state(txn, out, why, rc))
      return true;
    if (!gone_dbi(rc) || !dbi_volatile() || i > 6)
      return false;
    probe(41);
  }
}

// Compares the state visible in txn with the expected one; false only when an injected failure explains it.
bool expect_state(MDBX_txn *txn, const State &want, const char *cls, const char *who, u64 T) {
  State got;
  std::string why;
  int rc;
  if (!read_stable(txn, got, why, rc)) {
    if (gone_dbi(rc) && fail_ok(rc, cls))
      return false;
    if (rc != MDBX_RESULT_TRUE && rc != MDBX_CORRUPTED && rc != MDBX_PAGE_NOTFOUND && faults_fired() > 0) {
      trace("tolerated: reading failed: %s: %d", why.c_str(), rc);
      return false;
    }
    violation(cls, "%s: txn %llu: %s (rc %d %s)", who, (unsigned long long)T, why.c_str(), rc,
              rc == MDBX_RESULT_TRUE ? "" : mdbx_strerror(rc));
  }
  if (got.hash() != want.hash())
    violation(cls, "%s: txn %llu: %s", who, (unsigned long long)T, diff_state(want, got).c_str());
  return true;
}

// ------------------------------------------------------------------------------- cursor walks
bool ent_at(const Table &tb, size_t i, const MDBX_val &k, const MDBX_val &v, std::string &why, bool key_only) {
  char b[300];
  Ent e;
  if (i >= tb.v.size()) {
    if (decode(tb.spec, k, v, e))
      snprintf(b, sizeof b, "item %u.%u where none is expected", e.k, e.d);
    else
      snprintf(b, sizeof b, "an undecodable item where none is expected");
    why = b;
    return false;
  }
  if (key_only) {
    if (!dec_key(tb.spec, k, e.k) || e.k != tb.v[i].k) {
      why = "wrong key";
      return false;
    }
    return true;
  }
  if (!decode(tb.spec, k, v, e)) {
    snprintf(b, sizeof b, "undecodable item (%zu/%zu bytes) instead of %u.%u", k.iov_len, v.iov_len, tb.v[i].k, tb.v[i].d);
    why = b;
    return false;
  }
  if (!(e == tb.v[i])) {
    snprintf(b, sizeof b, "item %u.%u (tag %llx len %u) instead of %u.%u (tag %llx len %u)", e.k, e.d, (unsigned long long)e.tag,
             e.len, tb.v[i].k, tb.v[i].d, (unsigned long long)tb.v[i].tag, tb.v[i].len);
    why = b;
    return false;
  }
  return true;
}
static const char *curop_name(int op) {
  static const char *n[] = {"FIRST", "FIRST_DUP", "GET_BOTH", "GET_BOTH_RANGE", "GET_CURRENT", "GET_MULTIPLE", "LAST", "LAST_DUP", "NEXT", "NEXT_DUP", "NEXT_MULTIPLE", "NEXT_NODUP", "PREV", "PREV_DUP", "PREV_NODUP", "SET", "SET_KEY", "SET_RANGE", "PREV_MULTIPLE", "SET_LOWERBOUND", "SET_UPPERBOUND", "TO_KEY_LT", "TO_KEY_LE", "TO_KEY_EQ", "TO_KEY_GE", "TO_KEY_GT", "TO_EXACT_LT", "TO_EXACT_LE", "TO_EXACT_EQ", "TO_EXACT_GE", "TO_EXACT_GT", "TO_PAIR_LT", "TO_PAIR_LE", "TO_PAIR_EQ", "TO_PAIR_GE", "TO_PAIR_GT"};
  return (unsigned)op < sizeof n / sizeof n[0] ? n[op] : "?";
}

// expected result of a cursor operation; pos is the current index (or npos when unset)
constexpr size_t NPOS = ~(size_t)0;
struct Expect {
  int rc;     // MDBX_SUCCESS, MDBX_NOTFOUND, MDBX_RESULT_TRUE
  size_t pos; // index of the item returned
};
static Expect model_cursor(const Table &tb, size_t pos, MDBX_cursor_op op, u32 k, u32 d) {
  const auto &v = tb.v;
  auto at = [&](size_t i) { return i < v.size() ? Expect{MDBX_SUCCESS, i} : Expect{MDBX_NOTFOUND, NPOS}; };
  const Expect nf{MDBX_NOTFOUND, NPOS};
  switch (op) {
  case MDBX_FIRST:
    return at(0);
  case MDBX_LAST:
    return v.empty() ? nf : at(v.size() - 1);
  case MDBX_NEXT:
    return pos == NPOS ? at(0) : at(pos + 1);
  case MDBX_PREV:
    return pos == NPOS ? (v.empty() ? nf : at(v.size() - 1)) : pos ? at(pos - 1) : nf;
  case MDBX_GET_CURRENT:
    return pos == NPOS ? nf : at(pos);
  case MDBX_NEXT_NODUP:
    return pos == NPOS ? at(0) : at(tb.upper_key(v[pos].k));
  case MDBX_PREV_NODUP: {
    if (pos == NPOS)
      return v.empty() ? nf : at(v.size() - 1);
    size_t a = tb.lower(v[pos].k);
    return a ? at(a - 1) : nf;
  }
  case MDBX_NEXT_DUP:
    return pos + 1 < v.size() && v[pos + 1].k == v[pos].k ? at(pos + 1) : nf;
  case MDBX_PREV_DUP:
    return pos > 0 && v[pos - 1].k == v[pos].k ? at(pos - 1) : nf;
  case MDBX_FIRST_DUP:
    return at(tb.lower(v[pos].k));
  case MDBX_LAST_DUP:
    return at(tb.upper_key(v[pos].k) - 1);
  case MDBX_SET:
  case MDBX_SET_KEY:
  case MDBX_TO_KEY_EQUAL: {
    size_t i = tb.lower(k);
    return i < v.size() && v[i].k == k ? at(i) : nf;
  }
  case MDBX_SET_RANGE:
  case MDBX_TO_KEY_GREATER_OR_EQUAL:
    return at(tb.lower(k));
  case MDBX_TO_KEY_GREATER_THAN:
    return at(tb.upper_key(k));
  case MDBX_TO_KEY_LESSER_THAN: {
    size_t i = tb.lower(k);
    return i ? at(i - 1) : nf;
  }
  case MDBX_TO_KEY_LESSER_OR_EQUAL: {
    size_t i = tb.lower(k);
    if (i < v.size() && v[i].k == k)
      return at(i); // refined by the caller for multi-values
    return i ? at(i - 1) : nf;
  }
  case MDBX_GET_BOTH:
  case MDBX_TO_EXACT_KEY_VALUE_EQUAL:
  case MDBX_TO_PAIR_EQUAL:
    return tb.has(k, d) ? at(tb.lower(k, d)) : nf;
  case MDBX_GET_BOTH_RANGE:
  case MDBX_TO_EXACT_KEY_VALUE_GREATER_OR_EQUAL: {
    size_t i = tb.lower(k, d);
    return i < v.size() && v[i].k == k ? at(i) : nf;
  }
  case MDBX_TO_EXACT_KEY_VALUE_GREATER_THAN: {
    size_t i = tb.lower(k, d);
    if (i < v.size() && v[i].k == k && v[i].d == d)
      ++i;
    return i < v.size() && v[i].k == k ? at(i) : nf;
  }
  case MDBX_TO_EXACT_KEY_VALUE_LESSER_THAN: {
    size_t i = tb.lower(k, d);
    return i && v[i - 1].k == k ? at(i - 1) : nf;
  }
  case MDBX_TO_EXACT_KEY_VALUE_LESSER_OR_EQUAL: {
    if (tb.has(k, d))
      return at(tb.lower(k, d));
    size_t i = tb.lower(k, d);
    return i && v[i - 1].k == k ? at(i - 1) : nf;
  }
  case MDBX_SET_LOWERBOUND: {
    size_t i = tb.lower(k, d);
    if (i >= v.size())
      return nf;
    return {v[i].k == k && v[i].d == d ? MDBX_SUCCESS : MDBX_RESULT_TRUE, i};
  }
  case MDBX_SET_UPPERBOUND: {
    size_t i = tb.lower(k, d);
    if (i < v.size() && v[i].k == k && v[i].d == d)
      ++i;
    return at(i);
  }
  case MDBX_TO_PAIR_GREATER_OR_EQUAL:
    return at(tb.lower(k, d));
  case MDBX_TO_PAIR_GREATER_THAN: {
    size_t i = tb.lower(k, d);
    if (i < v.size() && v[i].k == k && v[i].d == d)
      ++i;
    return at(i);
  }
  case MDBX_TO_PAIR_LESSER_THAN: {
    size_t i = tb.lower(k, d);
    return i ? at(i - 1) : nf;
  }
  case MDBX_TO_PAIR_LESSER_OR_EQUAL: {
    if (tb.has(k, d))
      return at(tb.lower(k, d));
    size_t i = tb.lower(k, d);
    return i ? at(i - 1) : nf;
  }
  default:
    return nf;
  }
}
static bool op_needs_pos(MDBX_cursor_op op) {
  return op == MDBX_NEXT || op == MDBX_PREV || op == MDBX_GET_CURRENT || op == MDBX_NEXT_NODUP || op == MDBX_PREV_NODUP ||
         op == MDBX_NEXT_DUP || op == MDBX_PREV_DUP || op == MDBX_FIRST_DUP || op == MDBX_LAST_DUP;
}
static bool op_dup_only(MDBX_cursor_op op) {
  return op == MDBX_NEXT_DUP || op == MDBX_PREV_DUP || op == MDBX_FIRST_DUP || op == MDBX_LAST_DUP || op == MDBX_GET_BOTH ||
         op == MDBX_GET_BOTH_RANGE || (op >= MDBX_TO_EXACT_KEY_VALUE_LESSER_THAN && op <= MDBX_TO_EXACT_KEY_VALUE_GREATER_THAN);
}
static const MDBX_cursor_op seek_ops[] = {MDBX_FIRST, MDBX_LAST, MDBX_SET, MDBX_SET_KEY, MDBX_SET_RANGE, MDBX_SET_LOWERBOUND,
                                          MDBX_SET_UPPERBOUND, MDBX_GET_BOTH, MDBX_GET_BOTH_RANGE, MDBX_TO_KEY_LESSER_THAN,
                                          MDBX_TO_KEY_EQUAL, MDBX_TO_KEY_GREATER_OR_EQUAL, MDBX_TO_KEY_GREATER_THAN,
                                          MDBX_TO_EXACT_KEY_VALUE_LESSER_THAN, MDBX_TO_EXACT_KEY_VALUE_LESSER_OR_EQUAL,
                                          MDBX_TO_EXACT_KEY_VALUE_EQUAL, MDBX_TO_EXACT_KEY_VALUE_GREATER_OR_EQUAL,
                                          MDBX_TO_EXACT_KEY_VALUE_GREATER_THAN, MDBX_TO_PAIR_LESSER_THAN,
                                          MDBX_TO_PAIR_LESSER_OR_EQUAL, MDBX_TO_PAIR_EQUAL, MDBX_TO_PAIR_GREATER_OR_EQUAL,
                                          MDBX_TO_PAIR_GREATER_THAN};
static const MDBX_cursor_op step_ops[] = {MDBX_NEXT, MDBX_NEXT, MDBX_NEXT, MDBX_PREV, MDBX_PREV, MDBX_GET_CURRENT, MDBX_NEXT_NODUP,
                                          MDBX_PREV_NODUP, MDBX_NEXT_DUP, MDBX_PREV_DUP, MDBX_FIRST_DUP, MDBX_LAST_DUP};

static void near_item(const Table &tb, Rng &g, u32 &k, u32 &d) {
  if (!tb.v.empty() && g.chance(3, 4)) {
    const Ent &e = tb.v[g.below(tb.v.size())];
    k = e.k;
    d = e.d;
    if (g.chance(1, 4))
      k += (u32)g.below(3), k = k ? k - 1 : 0;
    if (g.chance(1, 3))
      d += (u32)g.below(3), d = d ? d - 1 : 0;
  } else {
    k = (u32)g.below(tb.spec.kspace);
    d = tb.spec.dup() ? (u32)g.below(tb.spec.dspace) : 0;
  }
  if (!tb.spec.dup())
    d = 0;
}

static void trace_table(const Table &tb) {
  std::string o;
  for (size_t i = 0; i < tb.v.size() && i < 40; ++i)
    o += " " + std::to_string(tb.v[i].k) + "." + std::to_string(tb.v[i].d);
  trace("table %s flags %x, %zu items:%s", tb.spec.name.c_str(), tb.spec.flags, tb.v.size(), o.c_str());
}
// One cursor operation compared with the model. Returns the new position, NPOS when unset.
static size_t cursor_op(MDBX_cursor *c, const Table &tb, size_t pos, Rng &g, const char *who, bool &stop) {
  MDBX_cursor_op op;
  const bool dup = tb.spec.dup();
  do {
    if (pos != NPOS && g.chance(3, 4))
      op = step_ops[g.below(sizeof step_ops / sizeof *step_ops)];
    else
      op = seek_ops[g.below(sizeof seek_ops / sizeof *seek_ops)];
  } while ((!dup && (op_dup_only(op) || (op >= MDBX_TO_PAIR_LESSER_THAN && op <= MDBX_TO_PAIR_GREATER_THAN))) ||
           (!dup && (op == MDBX_SET_LOWERBOUND || op == MDBX_SET_UPPERBOUND)));
  u32 k, d;
  near_item(tb, g, k, d);
  Bytes kb, db;
  enc_key(tb.spec, k, kb);
  if (dup)
    enc_dup(tb.spec, d, db);
  MDBX_val kv = kb.val(), dv = db.val();
  MDBX_val k0 = kv;
  if (op_needs_pos(op) || op == MDBX_FIRST || op == MDBX_LAST)
    kv = MDBX_val{nullptr, 0}, dv = MDBX_val{nullptr, 0};
  Expect x = model_cursor(tb, pos, op, k, d);
  if (tb.v.empty() && (op == MDBX_TO_KEY_LESSER_THAN || op == MDBX_TO_KEY_LESSER_OR_EQUAL || op == MDBX_TO_PAIR_LESSER_THAN ||
                       op == MDBX_TO_PAIR_LESSER_OR_EQUAL))
    x.rc = MDBX_ENODATA; // an empty table: either of two codes for "nothing there"
  int rc = API("mdbx_cursor_get", mdbx_cursor_get(c, &kv, &dv, op));
  trace("cursor %s %s(%u.%u) at %d -> %d, expected %d at %d", tb.spec.name.c_str(), curop_name(op), k, d, pos == NPOS ? -1 : (int)pos, rc,
        x.rc, x.pos == NPOS ? -1 : (int)x.pos);
  if (x.rc == MDBX_ENODATA && (rc == MDBX_ENODATA || rc == MDBX_NOTFOUND))
    return NPOS;
  if (rc != x.rc) {
    if (rc != MDBX_SUCCESS && rc != MDBX_NOTFOUND && rc != MDBX_RESULT_TRUE && rc != MDBX_CORRUPTED && faults_fired()) {
      stop = true;
      return NPOS;
    }
    if (gone_dbi(rc) && dbi_volatile() && *who == 'r') {
      probe(40);
      stop = true;
      return NPOS;
    }
    trace_table(tb);
    violation("cursor", "%s: table %s: MDBX_%s(%u.%u) at %s%u.%u returned %d (%s), expected %d", who, tb.spec.name.c_str(),
              curop_name(op), k, d, pos == NPOS ? "unset " : "", pos == NPOS ? 0 : tb.v[pos].k, pos == NPOS ? 0 : tb.v[pos].d, rc,
              mdbx_strerror(rc), x.rc);
  }
  if (rc == MDBX_NOTFOUND)
    return NPOS;
  std::string why;
  bool nokey = op == MDBX_FIRST_DUP || op == MDBX_LAST_DUP; // may leave the key untouched
  if (nokey && !kv.iov_base) {
    enc_key(tb.spec, tb.v[x.pos].k, kb);
    kv = kb.val();
  }
  if (op == MDBX_SET && kv.iov_base != k0.iov_base) {
  }
  if (!ent_at(tb, x.pos, kv, dv, why))
    trace_table(tb), violation("cursor", "%s: table %s: MDBX_%s(%u.%u) at %s%u.%u gave %s", who, tb.spec.name.c_str(), curop_name(op), k, d,
              pos == NPOS ? "unset " : "", pos == NPOS ? 0 : tb.v[pos].k, pos == NPOS ? 0 : tb.v[pos].d, why.c_str());
  return x.pos;
}

void walk_cursor(MDBX_txn *txn, const Table &tb, Rng &g, int steps, const char *who) {
  MDBX_dbi dbi;
  int rc = open_tab(txn, tb.spec.name, false, &dbi);
  if (rc) {
    fail_ok(rc, "mdbx_dbi_open");
    return;
  }
  MDBX_cursor *c;
  rc = API("mdbx_cursor_open", mdbx_cursor_open(txn, dbi, &c));
  if (rc) {
    fail_ok(rc, "mdbx_cursor_open");
    return;
  }
  size_t pos = NPOS;
  bool stop = false;
  for (int i = 0; i < steps && !stop; ++i)
    pos = cursor_op(c, tb, pos, g, who, stop);
  if (!stop && pos != NPOS && tb.spec.dup() && g.chance(1, 2)) {
    size_t n = 0;
    rc = API("mdbx_cursor_count", mdbx_cursor_count(c, &n));
    size_t want = tb.upper_key(tb.v[pos].k) - tb.lower(tb.v[pos].k);
    if (rc || n != want)
      if (!rc || fail_ok(rc, "mdbx_cursor_count"))
        if (!rc)
          violation("cursor", "%s: mdbx_cursor_count gave %zu instead of %zu", who, n, want);
  }
  APIV("mdbx_cursor_close", mdbx_cursor_close(c));
}

static void check_get(MDBX_txn *txn, MDBX_dbi dbi, const Table &tb, Rng &g, const char *cls, const char *who) {
  u32 k, d;
  near_item(tb, g, k, d);
  Bytes kb;
  enc_key(tb.spec, k, kb);
  MDBX_val kv = kb.val(), dv{nullptr, 0};
  std::string why;
  unsigned how = (unsigned)g.below(4);
  int rc;
  size_t i = tb.lower(k);
  bool has = i < tb.v.size() && tb.v[i].k == k;
  if (how == 0) {
    rc = API("mdbx_get_equal_or_great", mdbx_get_equal_or_great(txn, dbi, &kv, &dv));
    // compares pairs when a value is given; with an empty one the first pair of the key qualifies
    Ent e;
    if (tb.spec.dup()) {
      // only check that the result is an existing pair with a key not less than the given one
      if (rc == MDBX_SUCCESS || rc == MDBX_RESULT_TRUE) {
        if (!decode(tb.spec, kv, dv, e) || e.k < k || !tb.has(e.k, e.d))
          violation(cls, "%s: mdbx_get_equal_or_great(%u) gave a wrong pair", who, k);
        return;
      }
    } else if (rc == MDBX_SUCCESS || rc == MDBX_RESULT_TRUE) {
      if (!ent_at(tb, i, kv, dv, why))
        violation(cls, "%s: table %s: mdbx_get_equal_or_great(%u) gave %s", who, tb.spec.name.c_str(), k, why.c_str());
      return;
    }
    if (rc == MDBX_NOTFOUND && i < tb.v.size())
      violation(cls, "%s: table %s: mdbx_get_equal_or_great(%u) found nothing", who, tb.spec.name.c_str(), k);
    if (rc != MDBX_NOTFOUND)
      fail_ok(rc, "mdbx_get_equal_or_great");
    return;
  }
  size_t cnt = 0;
  if (how == 1)
    rc = API("mdbx_get_ex", mdbx_get_ex(txn, dbi, &kv, &dv, &cnt));
  else
    rc = API("mdbx_get", mdbx_get(txn, dbi, &kv, &dv));
  if (rc == MDBX_SUCCESS) {
    if (!has)
      violation(cls, "%s: table %s: mdbx_get(%u) found a value for an absent key", who, tb.spec.name.c_str(), k);
    if (!ent_at(tb, i, kv, dv, why))
      violation(cls, "%s: table %s: mdbx_get(%u) gave %s", who, tb.spec.name.c_str(), k, why.c_str());
    if (how == 1 && cnt != tb.upper_key(k) - i)
      violation(cls, "%s: table %s: mdbx_get_ex(%u) counts %zu values instead of %zu", who, tb.spec.name.c_str(), k, cnt,
                tb.upper_key(k) - i);
  } else if (rc == MDBX_NOTFOUND) {
    if (has)
      violation(cls, "%s: table %s: mdbx_get(%u) does not find the key", who, tb.spec.name.c_str(), k);
  } else
    fail_ok(rc, "mdbx_get");
}

// ------------------------------------------------------------------------------- readers
static void observe(u64 T) {
  SH->state_hash = mix64(SH->state_hash ^ T) + cur->id;
}
// lo: the newest transaction known to be committed when the call was made; seen: newest one seen by anybody
void bind_reader(RTxn &r, u64 lo, u64 seen_before, const char *how) {
  r.T = mdbx_txn_id(r.txn);
  r.begun_ns = now_ns();
  observe(r.T);
  if (r.T < lo)
    violation("recency", "%s: a read transaction started after commit of txn %llu sees only txn %llu", how,
              (unsigned long long)lo, (unsigned long long)r.T);
  if (r.T < seen_before)
    violation("recency", "%s: a read transaction sees txn %llu after another one had seen txn %llu", how,
              (unsigned long long)r.T, (unsigned long long)seen_before);
  r.snap = snap_for(r.T);
  if (!r.snap)
    violation("snapshot", "%s: a read transaction got the unknown txn %llu", how, (unsigned long long)r.T);
  const bool interrupted = r.snap->status == SN_UNCERTAIN || (r.snap->status == SN_INFLIGHT && !r.snap->owner->alive);
  // the commit may be about to fail, and a change of the geometry may have taken its id meanwhile
  const bool doubtful = r.snap->status == SN_INFLIGHT && (r.snap->failed || G.rc.small_map || G.geom_changed || faults_fired());
  if (interrupted || doubtful) {
    // outcome of an interrupted commit: settle by content
    // (a writer may settle it meanwhile and drop it from the history)
    SnapP s = r.snap;
    size_t i = 0;
    while (i < G.hist.size() && G.hist[i] != s)
      ++i;
    SnapP prev = i && i < G.hist.size() ? G.hist[i - 1] : nullptr;
    State got;
    std::string why;
    int rc;
    if (!read_stable(r.txn, got, why, rc)) {
      if (gone_dbi(rc) && fail_ok(rc, how)) {
        r.snap = nullptr;
        return;
      }
      if (rc == MDBX_RESULT_TRUE || rc == MDBX_CORRUPTED || !faults_fired())
        violation("snapshot", "%s: txn %llu after an interrupted commit: %s (rc %d)", how, (unsigned long long)r.T, why.c_str(), rc);
      r.snap = nullptr;
      return;
    }
    if (got.hash() == s->hash) {
      if (s->status != SN_DROPPED && !s->failed && interrupted)
        s->status = SN_COMMITTED;
    } else if (prev && got.hash() == prev->hash) {
      r.snap = prev;
    } else
      violation("atomicity", "%s: txn %llu is neither the state before nor after the interrupted commit: %s", how,
                (unsigned long long)r.T, diff_state(s->st, got).c_str());
  }
  r.snap->seen = true;
  if (!r.snap->failed && r.T > G.seen_txnid)
    G.seen_txnid = r.T;
}

int begin_read(Thr &t, RTxn &r) {
  u64 lo = head()->txnid, seen = G.seen_txnid;
  SnapP lo_snap = head();
  int rc = API("mdbx_txn_begin", mdbx_txn_begin_ex(t.p->env, nullptr, MDBX_TXN_RDONLY, &r.txn, nullptr));
  if (rc)
    return rc;
  r.owner = cur;
  if (lo_snap->status == SN_DROPPED)
    lo = 0;
  bind_reader(r, lo, seen, "begin");
  SH->reads++;
  return 0;
}

void check_read(Thr &t, RTxn &r, Rng &g) {
  if (!r.snap)
    return;
  (void)t;
  const State &st = r.snap->st;
  unsigned how = (unsigned)g.below(10);
  if (how < 3 || st.t.empty()) {
    expect_state(r.txn, st, "snapshot", "reader", r.T);
    return;
  }
  auto it = st.t.begin();
  std::advance(it, g.below(st.t.size()));
  const Table &tb = *it->second;
  TabSpec named = tb.spec;
  named.name = it->first;
  if (how < 7) {
    MDBX_dbi dbi;
    int rc = open_tab(r.txn, it->first, false, &dbi);
    if (rc) {
      fail_ok(rc, "mdbx_dbi_open in a reader");
      return;
    }
    for (int i = 0, n = (int)g.range(1, 8); i < n; ++i)
      check_get(r.txn, dbi, tb, g, "snapshot", "reader");
  } else if (how < 9) {
    walk_cursor(r.txn, tb, g, (int)g.range(2, 20), "reader");
  } else if (g.chance(2, 3)) {
    cursor_ext(r.txn, tb, g, "reader");
  } else
    txn_inspect(r.txn, st, g, "reader", r.T, false);
  if (mdbx_txn_id(r.txn) != r.T)
    violation("snapshot", "the id of a read transaction changed from %llu to %llu", (unsigned long long)r.T,
              (unsigned long long)mdbx_txn_id(r.txn));
}
void end_read(Thr &t, RTxn &r, Rng &g) {
  (void)t;
  int rc;
  if (g.chance(1, 2))
    rc = API("mdbx_txn_abort", mdbx_txn_abort(r.txn));
  else
    rc = API("mdbx_txn_commit", mdbx_txn_commit(r.txn));
  r.txn = nullptr;
  if (rc)
    fail_ok(rc, "ending a read transaction");
}

// ------------------------------------------------------------------------------- writers
static void settle_interrupted(WTxn &w, const char *how) {
  // called by a writer right after it got the write lock
  for (;;) {
    if (G.hist.empty())
      internal_error("empty history");
    SnapP last = G.hist.back();
    bool dead = last->status == SN_INFLIGHT && !last->owner->alive;
    if (last->status == SN_COMMITTED) {
      if (w.id <= last->txnid) {
        SnapP prev = G.hist.size() > 1 ? G.hist[G.hist.size() - 2] : nullptr;
        if (prev && prev->hash == last->hash) {
          // a commit without effect does not have to consume a transaction id
          if (G.floor_seq >= last->seq)
            G.floor_seq = prev->seq;
          drop_snap(last);
          continue;
        }
        violation("lost-update", "%s: the write transaction got id %llu, but txn %llu has already been committed", how,
                  (unsigned long long)w.id, (unsigned long long)last->txnid);
      }
      return;
    }
    if (last->status == SN_INFLIGHT && !dead) {
      // its commit call has not returned yet, but the write lock was passed on
      if (w.id > last->txnid) {
        if (!(G.rc.small_map || G.geom_changed || faults_fired()))
          return; // it can't fail
        goto look;
      }
      SnapP prev = G.hist.size() > 1 ? G.hist[G.hist.size() - 2] : nullptr;
      if (prev && prev->hash == last->hash) {
        drop_snap(last);
        continue;
      }
      // the commit must be about to fail, which is checked when it returns
      if (last->seen && !last->failed)
        violation("lost-update", "%s: txn %llu being committed has been seen by a reader, but is not in the base of the next writer",
                  how, (unsigned long long)last->txnid);
      drop_snap(last);
      continue;
    }
    // uncertain
    if (w.id <= last->txnid) {
      if (last->seen && !last->failed && last->status != SN_UNCERTAIN)
        violation("lost-update", "%s: txn %llu has been seen by a reader, but is not in the base of the next writer", how,
                  (unsigned long long)last->txnid);
      drop_snap(last);
      continue;
    }
    if (last->status == SN_UNCERTAIN && !last->failed && G.hist.size() > 1 && G.hist[G.hist.size() - 2]->hash == last->hash) {
      last->status = SN_COMMITTED;
      continue;
    }
  look:
    State got;
    std::string why;
    int rc;
    if (!read_state(w.txn, got, why, rc)) {
      if (rc == MDBX_RESULT_TRUE || rc == MDBX_CORRUPTED || rc == MDBX_PAGE_NOTFOUND || !faults_fired())
        violation("atomicity", "%s: after an interrupted commit: %s (rc %d %s)", how, why.c_str(), rc, mdbx_strerror(rc));
      w.broken = w.nobase = true;
      return;
    }
    if (got.hash() == last->hash) {
      last->status = SN_COMMITTED;
      continue;
    }
    SnapP prev = G.hist.size() > 1 ? G.hist[G.hist.size() - 2] : nullptr;
    if (prev && got.hash() == prev->hash) {
      drop_snap(last);
      continue;
    }
    violation("atomicity", "%s: base of txn %llu is neither the state before nor after the interrupted commit of txn %llu: %s", how,
              (unsigned long long)w.id, (unsigned long long)last->txnid, diff_state(last->st, got).c_str());
  }
}

bool writer_begun(WTxn &w, const char *how) {
  if (G.wproc && G.wproc->alive && !task_done(G.wtask))
    violation("exclusion", "%s: a second write transaction runs concurrently with the one of process %s", how,
              G.wproc->name.c_str());
  G.wproc = cur->vp;
  G.wtask = cur;
  G.wacq++;
  w.id = mdbx_txn_id(w.txn);
  w.t->p->freed.clear();
  observe(w.id | 1ull << 60);
  settle_interrupted(w, how);
  w.base = G.hist.back();
  w.cur = w.base->st;
  return !w.broken;
}
static void writer_gone() {
  G.wproc = nullptr;
  G.wtask = nullptr;
}

bool commit_model_begin(WTxn &w, SnapP &sn) {
  writer_gone();
  sn = nullptr;
  if (!w.mutated)
    return false;
  sn = std::make_shared<Snap>();
  sn->seq = G.next_seq++;
  sn->txnid = w.id;
  sn->st = w.cur;
  sn->hash = sn->st.hash();
  sn->status = SN_INFLIGHT;
  sn->owner = cur->vp;
  unsigned m = (unsigned)G.rc.sync;
  unsigned env_m = w.t && w.t->p ? w.t->p->envflags : 0;
  bool weak = m >= SM_SAFE_NOSYNC || (w.flags & MDBX_TXN_NOSYNC) || (env_m & MDBX_SAFE_NOSYNC);
  sn->steady = !weak;
  G.hist.push_back(sn);
  w.commit_ns = now_ns();
  w.commit_bytes = cur->lazy_bytes;
  return true;
}
static void floor_raise(SnapP s) {
  if (s->status != SN_DROPPED && s->seq > G.floor_seq) {
    G.floor_seq = s->seq;
    trace("durable floor: txn %llu (seq %llu)", (unsigned long long)s->txnid, (unsigned long long)s->seq);
  }
  prune_history();
}
// Auto-sync: what was committed without syncing earlier than the period ago, or before more than the given volume of
// changes, must be durable after a commit or a poll. The volume and the time are judged by their lower bounds.
static void autosync_floor(Proc &p, SnapP last, u64 start, u64 pages) {
  if (G.rc.sync != SM_SAFE_NOSYNC || G.rc.mix_modes || G.rc.w[O_SETFLAGS] || faults_fired() || G.need_recovery || p.panic)
    return;
  if (!p.as_bytes && !p.as_ns)
    return;
  size_t i = G.hist.size();
  while (i > 0 && G.hist[i - 1] != last)
    --i;
  if (!i)
    return;
  u64 vol = (p.as_bytes + G.rc.ps - 1) / G.rc.ps;
  for (--i; i > 0; --i) {
    SnapP s = G.hist[i];
    if (s->steady || s->status != SN_COMMITTED || s->failed || s->seq < G.lck_seq || s->seq <= G.floor_seq)
      return;
    if (s != last)
      pages += s->pages;
    if (s == last && s->done_ns == 0)
      continue; // the one being committed
    if ((p.as_ns && s->done_ns && s->done_ns + p.as_ns <= start) || (vol && pages >= vol)) {
      probe(49);
      return floor_raise(s);
    }
  }
}
void commit_model_end(WTxn &w, SnapP sn, int rc) {
  if (!sn)
    return;
  if (rc == MDBX_SUCCESS) {
    if (sn->status == SN_DROPPED) {
      // dropped because the next writer reused the id
      SnapP b = w.base;
      if (b->hash != sn->hash)
        violation("lost-update", "mdbx_txn_commit of txn %llu succeeded, but the next writer did not see it",
                  (unsigned long long)sn->txnid);
      return;
    }
    sn->status = SN_COMMITTED;
    SH->commits++;
    bool changed = sn->hash != w.base->hash;
    if (!changed && G.hist.back() == sn) {
      // a commit without effect does not have to produce a new snapshot
      sn->status = SN_UNCERTAIN;
      return;
    }
    bool weak = !sn->steady;
    bool nometa = G.rc.sync == SM_NOMETA || (w.flags & MDBX_TXN_NOMETASYNC) || (w.t->p->envflags & MDBX_NOMETASYNC);
    if (changed && !weak) {
      if (!nometa)
        floor_raise(sn);
      else if (w.base->steady && w.base->status == SN_COMMITTED)
        floor_raise(w.base);
    }
    if (changed && weak && w.t && w.t->p) {
      u64 n = G.rc.writemap ? 1 : (cur->lazy_bytes - w.commit_bytes) / G.rc.ps;
      autosync_floor(*w.t->p, sn, w.commit_ns, n);
      sn->done_ns = now_ns();
      sn->pages = n;
    }
    return;
  }
  if (sn->status == SN_DROPPED)
    return;
  if (rc == MDBX_RESULT_TRUE) {
    drop_snap(sn);
    return;
  }
  if (sn->status == SN_INFLIGHT || sn->status == SN_COMMITTED) {
    sn->failed = true;
    if (G.hist.back() == sn)
      sn->status = SN_UNCERTAIN;
    // else: a later writer has already been based on it
  }
}

static MDBX_txn_flags_t pick_wflags(Rng &r, unsigned &flags) {
  flags = 0;
  if (G.rc.weak_txn_pct && r.below(100) < G.rc.weak_txn_pct)
    flags |= r.chance(1, 2) ? MDBX_TXN_NOSYNC : MDBX_TXN_NOMETASYNC;
  unsigned f = flags;
  if (r.chance(1, 10))
    f |= MDBX_TXN_TRY;
  return (MDBX_txn_flags_t)f;
}

static Table *pick_table(WTxn &w, Rng &r) {
  if (w.cur.t.empty())
    return nullptr;
  auto it = w.cur.t.begin();
  std::advance(it, r.below(w.cur.t.size()));
  Table &t = w.cur.mut(it->first);
  t.spec.name = it->first;
  return &t;
}

static void close_tracked(WTxn &w) {
  for (auto &c : w.tc)
    if (c.c) {
      w.zombies |= c.depth < w.depth(); // such a cursor exists in the outer transaction(s) until their ends
      APIV("mdbx_cursor_close", mdbx_cursor_close(c.c));
    }
  w.tc.clear();
}
static void tracked_forget(WTxn &w, const std::string &tab) {
  for (auto &c : w.tc)
    if (c.tab == tab)
      c.st = 0;
}
static void tracked_forget_all(WTxn &w) {
  for (auto &c : w.tc)
    c.st = 0;
}
// after deletion of items: cursors standing at vanished items are no longer predictable
static void tracked_recheck(WTxn &w, const Table &tb) {
  for (auto &c : w.tc)
    if (c.tab == tb.spec.name && c.st && !tb.has(c.k, c.d))
      c.st = 0;
    else if (c.tab == tb.spec.name && c.st == 2)
      c.st = 0;
}

// before an insertion: the position of a cursor standing at the last item (of the table or of its key) is either "at the
// end" or "before the new item", and a cursor at a key whose values are replaced at once may lose its place
static void tracked_insert(WTxn &w, const Table &tb, u32 k, bool cleardups) {
  for (auto &c : w.tc)
    if (c.tab == tb.spec.name && c.st) {
      size_t p = tb.lower(c.k, c.d);
      if (c.st == 2 || p + 1 >= tb.v.size() || (c.k == k && (cleardups || p + 1 >= tb.upper_key(k))))
        c.st = 0;
    }
}

static u64 new_tag(WTxn &w) { return op_hash(w.opid, w.step * 1000ull + w.id) | 1; }
static u32 pick_len(Rng &r) {
  u32 mx = G.rc.max_val;
  switch (r.below(8)) {
  case 0:
    return (u32)r.below(9);
  case 1:
    return mx;
  case 2:
    return (u32)r.logu(1, mx);
  default:
    return (u32)r.below(std::min<u32>(mx, 120) + 1);
  }
}

static void w_fail(WTxn &w, int rc, const char *what) {
  if ((rc == MDBX_BAD_DBI || (rc == MDBX_DANGLING_DBI && !w.zombies)) && !faults_fired())
    violation("handles", "%s in the write transaction %llu returned %s", what, (unsigned long long)w.id,
              rc == MDBX_BAD_DBI ? "MDBX_BAD_DBI" : "MDBX_DANGLING_DBI");
  if (rc != MDBX_DANGLING_DBI)
    fail_ok(rc, what);
  w.broken = true;
}

static void step_put(WTxn &w, Rng &r, Table &tb, u32 k, u32 d, int how = -1) {
  const TabSpec &s = tb.spec;
  MDBX_dbi dbi;
  int rc = open_tab(w.txn, s.name, false, &dbi);
  if (rc)
    return w_fail(w, rc, "mdbx_dbi_open");
  Bytes kb, db;
  enc_key(s, k, kb);
  MDBX_val kv = kb.val(), dv;
  static std::vector<u8> buf(1 << 20);
  u32 len = pick_len(r);
  u64 tag = tag_for_len(new_tag(w), len);
  if (s.dup()) {
    enc_dup(s, d, db);
    dv = db.val();
    tag = 0, len = 0;
  } else {
    d = 0;
    put_val(tag, len, buf.data());
    dv = MDBX_val{buf.data(), len};
  }
  Ent e{k, d, tag, len};
  unsigned f = 0;
  int want = MDBX_SUCCESS;
  bool haskey = tb.has_key(k), has = tb.has(k, d);
  bool apply = true;
  if (how < 0)
    how = (int)r.below(10);
  bool cleardups = false;
  switch (how) {
  default:
    f = MDBX_UPSERT;
    break;
  case 1:
    f = MDBX_NOOVERWRITE;
    if (haskey)
      want = MDBX_KEYEXIST, apply = false;
    break;
  case 2:
    if (s.dup()) {
      f = MDBX_NODUPDATA;
      if (has)
        want = MDBX_KEYEXIST, apply = false;
    }
    break;
  case 3:
    if (s.dup()) {
      f = MDBX_ALLDUPS;
      cleardups = true;
    }
    break;
  case 4:
    if (!s.dup())
      f = MDBX_RESERVE;
    break;
  case 5:
    if (tb.v.empty() || k > tb.v.back().k)
      f = MDBX_APPEND;
    else if (k < tb.v.back().k) {
      f = MDBX_APPEND;
      want = MDBX_EKEYMISMATCH, apply = false;
    }
    break;
  case 6:
    if (s.dup()) {
      size_t u = tb.upper_key(k);
      if (haskey && d > tb.v[u - 1].d)
        f = MDBX_APPENDDUP;
    }
    break;
  }
  w.mutated = true;
  rc = API("mdbx_put", mdbx_put(w.txn, dbi, &kv, &dv, (MDBX_put_flags_t)f));
  if (rc == MDBX_SUCCESS && f == MDBX_RESERVE) {
    if (dv.iov_len != len)
      violation("map", "MDBX_RESERVE gave %zu bytes instead of %u", dv.iov_len, len);
    put_val(tag, len, (u8 *)dv.iov_base);
  }
  trace("put %s %u.%u f=%x len=%u -> %d", s.name.c_str(), k, d, f, len, rc);
  if (rc != want) {
    if (rc == MDBX_SUCCESS || rc == MDBX_KEYEXIST || rc == MDBX_NOTFOUND || rc == MDBX_EKEYMISMATCH)
      violation("map", "mdbx_put(%s, %u.%u, flags 0x%x) returned %d, expected %d (key %spresent, pair %spresent)", s.name.c_str(), k, d, f,
                rc, want, haskey ? "" : "not ", has ? "" : "not ");
    return w_fail(w, rc, "mdbx_put");
  }
  if (rc == MDBX_KEYEXIST && f == MDBX_NOOVERWRITE) {
    std::string why;
    if (!ent_at(tb, tb.lower(k), kv, dv, why))
      violation("map", "mdbx_put(%s, %u, NOOVERWRITE) reported a wrong present value: %s", s.name.c_str(), k, why.c_str());
  }
  if (apply) {
    tracked_insert(w, tb, k, cleardups);
    if (cleardups)
      tb.erase_range(tb.lower(k), tb.upper_key(k));
    tb.put(e);
    tracked_recheck(w, tb);
  }
}

static void step_del(WTxn &w, Rng &r, Table &tb, u32 k, u32 d) {
  const TabSpec &s = tb.spec;
  MDBX_dbi dbi;
  int rc = open_tab(w.txn, s.name, false, &dbi);
  if (rc)
    return w_fail(w, rc, "mdbx_dbi_open");
  Bytes kb, db;
  enc_key(s, k, kb);
  MDBX_val kv = kb.val(), dv;
  bool exact = s.dup() && r.chance(2, 3);
  if (exact) {
    enc_dup(s, d, db);
    dv = db.val();
  }
  bool has = exact ? tb.has(k, d) : tb.has_key(k);
  w.mutated = true;
  rc = API("mdbx_del", mdbx_del(w.txn, dbi, &kv, exact ? &dv : nullptr));
  trace("del %s %u.%u exact=%d -> %d", s.name.c_str(), k, d, exact, rc);
  if (rc != (has ? MDBX_SUCCESS : MDBX_NOTFOUND)) {
    if (rc == MDBX_SUCCESS || rc == MDBX_NOTFOUND)
      violation("map", "mdbx_del(%s, %u.%u%s) returned %d, but the item was %spresent", s.name.c_str(), k, d, exact ? " exact" : "", rc,
                has ? "" : "not ");
    return w_fail(w, rc, "mdbx_del");
  }
  if (has) {
    if (exact)
      tb.erase_range(tb.lower(k, d), tb.lower(k, d) + 1);
    else
      tb.erase_range(tb.lower(k), tb.upper_key(k));
    tracked_recheck(w, tb);
  }
}

static void step_replace(WTxn &w, Rng &r, Table &tb) {
  const TabSpec &s = tb.spec;
  if (s.dup())
    return;
  u32 k, d;
  near_item(tb, r, k, d);
  MDBX_dbi dbi;
  int rc = open_tab(w.txn, s.name, false, &dbi);
  if (rc)
    return w_fail(w, rc, "mdbx_dbi_open");
  Bytes kb;
  enc_key(s, k, kb);
  static std::vector<u8> nb(1 << 20), ob(1 << 20);
  u32 len = pick_len(r);
  u64 tag = tag_for_len(new_tag(w), len);
  put_val(tag, len, nb.data());
  MDBX_val kv = kb.val(), nv{nb.data(), len}, ov{ob.data(), ob.size()};
  bool del = r.chance(1, 4);
  size_t i = tb.lower(k);
  bool has = tb.has_key(k);
  w.mutated = true;
  rc = API("mdbx_replace", mdbx_replace(w.txn, dbi, &kv, del ? nullptr : &nv, &ov, has || del ? MDBX_CURRENT : MDBX_UPSERT));
  trace("replace %s %u del=%d has=%d -> %d", s.name.c_str(), k, del, has, rc);
  if (del && !has) {
    if (rc != MDBX_NOTFOUND && rc != MDBX_SUCCESS)
      w_fail(w, rc, "mdbx_replace");
    return;
  }
  if (rc) {
    if (rc == MDBX_NOTFOUND || rc == MDBX_KEYEXIST)
      violation("map", "mdbx_replace(%s, %u) returned %d, the key was %spresent", s.name.c_str(), k, rc, has ? "" : "not ");
    return w_fail(w, rc, "mdbx_replace");
  }
  if (has) {
    std::string why;
    kv = kb.val();
    if (!ent_at(tb, i, kv, ov, why))
      violation("map", "mdbx_replace(%s, %u) returned a wrong previous value: %s", s.name.c_str(), k, why.c_str());
  }
  if (del) {
    tb.erase_range(i, i + 1);
    tracked_recheck(w, tb);
  } else {
    tracked_insert(w, tb, k, false);
    tb.put(Ent{k, 0, tag, len});
  }
}

// operations through long-lived cursors of the write transaction
static void step_cursor(WTxn &w, Rng &r) {
  if (w.tc.size() < G.rc.max_tc && (w.tc.empty() || r.chance(1, 3))) {
    Table *tb = pick_table(w, r);
    if (!tb)
      return;
    MDBX_dbi dbi;
    int rc = open_tab(w.txn, tb->spec.name, false, &dbi);
    if (rc)
      return w_fail(w, rc, "mdbx_dbi_open");
    WTxn::TC c;
    c.tab = tb->spec.name;
    c.depth = w.depth();
    rc = API("mdbx_cursor_open", mdbx_cursor_open(w.txn, dbi, &c.c));
    if (rc)
      return w_fail(w, rc, "mdbx_cursor_open");
    w.tc.push_back(c);
  }
  WTxn::TC &c = w.tc[r.below(w.tc.size())];
  if (c.depth != w.depth())
    return;
  auto it = w.cur.t.find(c.tab);
  if (it == w.cur.t.end())
    return;
  Table &tb = w.cur.mut(c.tab);
  tb.spec.name = c.tab;
  const TabSpec &s = tb.spec;
  for (int n = (int)r.range(1, 4); n-- && !w.broken;) {
    size_t pos = c.st == 1 ? tb.lower(c.k, c.d) : NPOS;
    if (c.st == 1 && !tb.has(c.k, c.d))
      internal_error("tracked cursor lost");
    unsigned act = (unsigned)r.below(10);
    if (c.st == 2 && c.th != tb.hash())
      c.st = 0; // the table has been changed by others since the deletion
    if (c.st == 2) {
      // after deletion through this cursor both NEXT and GET_CURRENT give the successor
      MDBX_val kv{nullptr, 0}, dv{nullptr, 0};
      size_t nx = tb.lower(c.k, c.d);
      MDBX_cursor_op op = r.chance(1, 2) ? MDBX_NEXT : MDBX_GET_CURRENT;
      int rc = API("mdbx_cursor_get", mdbx_cursor_get(c.c, &kv, &dv, op));
      if (rc == MDBX_SUCCESS) {
        std::string why;
        if (op == MDBX_GET_CURRENT && nx > 0 && (nx >= tb.v.size() || (tb.v[nx].k != c.k && tb.v[nx - 1].k == c.k)) &&
            ent_at(tb, nx - 1, kv, dv, why)) {
          // behind the last item (of a key); the library lets the last one be read there
          c.st = 0;
          continue;
        }
        if (!ent_at(tb, nx, kv, dv, why))
          violation("cursor", "table %s: MDBX_%s after deletion of %u.%u gave %s", s.name.c_str(), curop_name(op), c.k, c.d,
                    why.c_str());
        c.st = 1;
        c.k = tb.v[nx].k, c.d = tb.v[nx].d;
      } else if (rc == MDBX_NOTFOUND || rc == MDBX_ENODATA) {
        if (nx < tb.v.size())
          violation("cursor", "table %s: MDBX_%s after deletion of %u.%u found nothing, but %u.%u follows", s.name.c_str(),
                    curop_name(op), c.k, c.d, tb.v[nx].k, tb.v[nx].d);
        c.st = 0;
      } else
        return w_fail(w, rc, "mdbx_cursor_get");
      continue;
    }
    if (act < 6 || pos == NPOS) {
      bool stop = false;
      size_t np = cursor_op(c.c, tb, pos, r, "writer's cursor", stop);
      if (stop) {
        w.broken = true;
        return;
      }
      c.st = np == NPOS ? 0 : 1;
      if (np != NPOS)
        c.k = tb.v[np].k, c.d = tb.v[np].d;
      continue;
    }
    if (act < 8) {
      // delete at the cursor
      bool all = s.dup() && r.chance(1, 4);
      w.mutated = true;
      int rc = API("mdbx_cursor_del", mdbx_cursor_del(c.c, all ? MDBX_ALLDUPS : MDBX_CURRENT));
      trace("cursor_del %s %u.%u all=%d -> %d", s.name.c_str(), c.k, c.d, all, rc);
      if (rc)
        return rc == MDBX_NOTFOUND || rc == MDBX_ENODATA
                   ? violation("cursor", "mdbx_cursor_del at %u.%u returned %d", c.k, c.d, rc)
                   : w_fail(w, rc, "mdbx_cursor_del");
      u32 k = c.k, d = c.d;
      if (all)
        tb.erase_range(tb.lower(k), tb.upper_key(k));
      else
        tb.erase_range(pos, pos + 1);
      tracked_recheck(w, tb);
      c.st = 2;
      c.k = k, c.d = d;
      if (all)
        c.d = ~0u - 1;
      c.th = tb.hash();
      continue;
    }
    // put through the cursor
    u32 k, d;
    near_item(tb, r, k, d);
    Bytes kb, db;
    static std::vector<u8> buf(1 << 20);
    u32 len = pick_len(r);
    u64 tag = tag_for_len(new_tag(w), len);
    bool current = act == 9 && !s.dup();
    if (current)
      k = c.k, d = c.d;
    enc_key(s, k, kb);
    MDBX_val kv = kb.val(), dv;
    if (s.dup()) {
      enc_dup(s, d, db);
      dv = db.val();
      tag = 0, len = 0;
    } else {
      put_val(tag, len, buf.data());
      dv = MDBX_val{buf.data(), len};
      d = 0;
    }
    w.mutated = true;
    int rc = API("mdbx_cursor_put", mdbx_cursor_put(c.c, &kv, &dv, current ? MDBX_CURRENT : MDBX_UPSERT));
    trace("cursor_put %s %u.%u current=%d len=%u -> %d", s.name.c_str(), k, d, current, len, rc);
    if (rc)
      return w_fail(w, rc, "mdbx_cursor_put");
    tracked_insert(w, tb, k, false);
    tb.put(Ent{k, d, tag, len});
    c.st = 1;
    c.k = k, c.d = d;
  }
}

// whatever else the transaction did, its cursors stay where they were
static void tracked_verify(WTxn &w, Rng &r) {
  for (auto &c : w.tc) {
    if (c.st != 1 || c.depth != w.depth())
      continue;
    auto it = w.cur.t.find(c.tab);
    if (it == w.cur.t.end())
      continue;
    const Table &tb = *it->second;
    size_t pos = tb.lower(c.k, c.d);
    MDBX_val kv{nullptr, 0}, dv{nullptr, 0};
    std::string why;
    int rc = API("mdbx_cursor_get", mdbx_cursor_get(c.c, &kv, &dv, MDBX_GET_CURRENT));
    if (rc && !faults_fired())
      violation("cursor", "table %s: a cursor at %u.%u lost its place, MDBX_GET_CURRENT returned %d", c.tab.c_str(), c.k, c.d, rc);
    if (rc)
      return w_fail(w, rc, "mdbx_cursor_get");
    if (!ent_at(tb, pos, kv, dv, why))
      violation("cursor", "table %s: a cursor at %u.%u lost its place: %s", c.tab.c_str(), c.k, c.d, why.c_str());
    if (tb.spec.dup() && r.chance(1, 2)) {
      const bool fwd = r.chance(1, 2);
      const size_t lo = tb.lower(c.k), hi = tb.upper_key(c.k), to = fwd ? pos + 1 : pos - 1;
      if (fwd ? to >= hi : pos <= lo)
        continue;
      rc = API("mdbx_cursor_get", mdbx_cursor_get(c.c, &kv, &dv, fwd ? MDBX_NEXT_DUP : MDBX_PREV_DUP));
      if (rc && !faults_fired())
        violation("cursor", "table %s: MDBX_%s from %u.%u returned %d", c.tab.c_str(), fwd ? "NEXT_DUP" : "PREV_DUP", c.k, c.d, rc);
      if (rc)
        return w_fail(w, rc, "mdbx_cursor_get");
      if (!ent_at(tb, to, kv, dv, why))
        violation("cursor", "table %s: MDBX_%s from %u.%u: %s", c.tab.c_str(), fwd ? "NEXT_DUP" : "PREV_DUP", c.k, c.d, why.c_str());
      c.d = tb.v[to].d;
    }
  }
}

static void step_multi(WTxn &w, Rng &r) {
  // MDBX_MULTIPLE for DUPFIXED tables, bunch deletion otherwise
  Table *tb = pick_table(w, r);
  if (!tb)
    return;
  const TabSpec &s = tb->spec;
  MDBX_dbi dbi;
  int rc = open_tab(w.txn, s.name, false, &dbi);
  if (rc)
    return w_fail(w, rc, "mdbx_dbi_open");
  MDBX_cursor *c;
  rc = API("mdbx_cursor_open", mdbx_cursor_open(w.txn, dbi, &c));
  if (rc)
    return w_fail(w, rc, "mdbx_cursor_open");
  u32 k, d;
  near_item(*tb, r, k, d);
  Bytes kb;
  enc_key(s, k, kb);
  MDBX_val kv = kb.val();
  if ((s.flags & MDBX_DUPFIXED) && r.chance(1, 2)) {
    unsigned n = (unsigned)r.range(1, 12);
    Bytes b;
    std::vector<u8> arr;
    std::vector<u32> ds;
    for (unsigned i = 0; i < n; ++i) {
      u32 x = d + i * (u32)r.range(0, 3);
      enc_dup(s, x, b);
      arr.insert(arr.end(), b.b, b.b + b.n);
      ds.push_back(x);
    }
    MDBX_val args[2] = {{arr.data(), b.n}, {nullptr, n}};
    w.mutated = true;
    rc = API("mdbx_cursor_put(MULTIPLE)", mdbx_cursor_put(c, &kv, args, MDBX_MULTIPLE));
    trace("put-multiple %s %u x%u -> %d", s.name.c_str(), k, n, rc);
    if (rc == MDBX_SUCCESS) {
      if (args[1].iov_len != n)
        violation("map", "MDBX_MULTIPLE stored %zu of %u items", args[1].iov_len, n);
      for (u32 x : ds)
        tb->put(Ent{k, x, 0, 0});
    }
  } else {
    rc = API("mdbx_cursor_get", mdbx_cursor_get(c, &kv, &kv, MDBX_SET_RANGE));
    size_t pos = tb->lower(k);
    if (rc == MDBX_NOTFOUND) {
      if (pos < tb->v.size())
        violation("cursor", "MDBX_SET_RANGE(%u) found nothing in %s", k, s.name.c_str());
      rc = 0;
    } else if (rc == 0) {
      if (pos >= tb->v.size())
        violation("cursor", "MDBX_SET_RANGE(%u) found an unexpected item in %s", k, s.name.c_str());
      static const MDBX_bunch_action_t acts[] = {MDBX_DELETE_CURRENT_VALUE, MDBX_DELETE_CURRENT_MULTIVAL_BEFORE_EXCLUDING,
                                                 MDBX_DELETE_CURRENT_MULTIVAL_BEFORE_INCLUDING, MDBX_DELETE_CURRENT_MULTIVAL_AFTER_INCLUDING,
                                                 MDBX_DELETE_CURRENT_MULTIVAL_AFTER_EXCLUDING, MDBX_DELETE_CURRENT_MULTIVAL_ALL};
      MDBX_bunch_action_t a = acts[r.below(sizeof acts / sizeof *acts)];
      if (s.dup() && r.chance(1, 2)) {
        // move inside of the multi-value
        size_t last = tb->upper_key(tb->v[pos].k);
        unsigned steps = (unsigned)r.below(last - pos);
        MDBX_val a1, a2;
        for (unsigned i = 0; i < steps && rc == 0; ++i)
          rc = API("mdbx_cursor_get", mdbx_cursor_get(c, &a1, &a2, MDBX_NEXT_DUP));
        if (rc == 0)
          pos += steps;
      }
      if (rc == 0) {
        size_t lo = tb->lower(tb->v[pos].k), hi = tb->upper_key(tb->v[pos].k), x = pos, y = pos + 1;
        switch (a) {
        case MDBX_DELETE_CURRENT_VALUE:
          break;
        case MDBX_DELETE_CURRENT_MULTIVAL_BEFORE_EXCLUDING:
          x = lo, y = pos;
          break;
        case MDBX_DELETE_CURRENT_MULTIVAL_BEFORE_INCLUDING:
          x = lo, y = pos + 1;
          break;
        case MDBX_DELETE_CURRENT_MULTIVAL_AFTER_INCLUDING:
          x = pos, y = hi;
          break;
        case MDBX_DELETE_CURRENT_MULTIVAL_AFTER_EXCLUDING:
          x = pos + 1, y = hi;
          break;
        default:
          x = lo, y = hi;
        }
        uint64_t n = 0;
        w.mutated = true;
        rc = API("mdbx_cursor_bunch_delete", mdbx_cursor_bunch_delete(c, a, &n));
        trace("bunch-delete %s %u.%u action %d -> %d, %llu items", s.name.c_str(), tb->v[pos].k, tb->v[pos].d, (int)a, rc,
              (unsigned long long)n);
        if (rc == MDBX_SUCCESS) {
          if (n != y - x)
            violation("map", "mdbx_cursor_bunch_delete(%s, action %d) at %u.%u deleted %llu items instead of %zu", s.name.c_str(), (int)a,
                      tb->v[pos].k, tb->v[pos].d, (unsigned long long)n, y - x);
          tb->erase_range(x, y);
        } else if (x == y && (rc == MDBX_NOTFOUND || rc == MDBX_RESULT_TRUE))
          rc = 0;
      }
    }
  }
  tracked_forget(w, s.name);
  if (rc)
    w_fail(w, rc, "multi-item operation");
  APIV("mdbx_cursor_close", mdbx_cursor_close(c));
}


static void made_forget(WTxn &w, const std::string &n) {
  for (size_t i = 0; i < w.made.size();)
    if (w.made[i].tab == n)
      w.made.erase(w.made.begin() + i);
    else
      ++i;
}
static void step_nested(WTxn &w, Rng &r) {
  if ((w.t->p->envflags & MDBX_WRITEMAP) || w.depth() >= 3)
    return; // nested transactions are not supported in the write-map mode
  MDBX_txn *parent = w.txn, *child = nullptr;
  bool ro = r.chance(1, 6);
  int rc = API("mdbx_txn_begin(nested)", mdbx_txn_begin_ex(w.t->p->env, parent, ro ? MDBX_TXN_RDONLY : MDBX_TXN_READWRITE, &child, nullptr));
  if (rc)
    return w_fail(w, rc, "mdbx_txn_begin(nested)");
  auto saved = w.tc;
  w.stack.push_back(w.cur);
  w.txn = child;
  trace("nested begin depth %zu%s", w.depth(), ro ? " ro" : "");
  int n = (int)r.logu(1, G.rc.max_sub / 2 + 1);
  for (int i = 0; i < n && !w.broken; ++i) {
    Rng q(hash2(r.next(), i));
    if (ro) {
      Table *tb = pick_table(w, q);
      if (tb)
        walk_cursor(w.txn, *tb, q, 4, "nested reader");
    } else
      writer_step(w, q);
  }
  // cursors opened inside of the nested transaction must not outlive it
  for (size_t i = 0; i < w.tc.size();)
    if (w.tc[i].depth == w.depth()) {
      APIV("mdbx_cursor_close", mdbx_cursor_close(w.tc[i].c));
      w.tc.erase(w.tc.begin() + i);
    } else
      ++i;
  bool commit = !w.broken && !r.chance(2, 5);
  if (commit && !ro) {
    rc = API("mdbx_txn_commit(nested)", mdbx_txn_commit(child));
    trace("nested commit -> %d", rc);
    State st = w.cur;
    State back = w.stack.back();
    w.stack.pop_back();
    w.txn = parent;
    if (rc) {
      w.cur = back;
      w_fail(w, rc, "mdbx_txn_commit(nested)");
    }
    tracked_forget_all(w);
    for (auto &m : w.made)
      m.depth = std::min(m.depth, w.depth());
  } else {
    std::vector<WTxn::Made> undone;
    for (size_t i = 0; i < w.made.size();)
      if (w.made[i].depth == w.depth()) {
        undone.push_back(w.made[i]);
        w.made.erase(w.made.begin() + i);
      } else
        ++i;
    const u64 opens = w.t->p->dopen;
    const bool quiet = w.t->p->dopened == opens;
    rc = API("mdbx_txn_abort(nested)", mdbx_txn_abort(child));
    if (w.tabs_changed)
      forget_handles();
    if (quiet && rc == MDBX_SUCCESS)
      check_undone(w.t->p, parent, undone, opens, "nested");
    trace("nested abort -> %d", rc);
    w.cur = w.stack.back();
    w.stack.pop_back();
    w.txn = parent;
    if (rc)
      w_fail(w, rc, "mdbx_txn_abort(nested)");
    // positions of the parent's cursors come back, cursors closed inside stay closed
    std::vector<MDBX_cursor *> still;
    for (auto &c : w.tc)
      still.push_back(c.c);
    w.tc.clear();
    for (auto &c : saved)
      if (std::find(still.begin(), still.end(), c.c) != still.end())
        w.tc.push_back(c);
  }
}

static void step_fill(WTxn &w, Rng &r) {
  Table *tb = pick_table(w, r);
  if (!tb)
    return;
  u32 n = (u32)r.logu(4, 120), k = (u32)r.below(tb->spec.kspace), st = (u32)r.range(1, 4);
  bool seq = r.chance(1, 2);
  u32 d0 = tb->spec.dup() ? (u32)r.below(tb->spec.dspace) : 0;
  bool dups = tb->spec.dup() && r.chance(1, 3);
  for (u32 i = 0; i < n && !w.broken; ++i) {
    w.step++;
    u32 kk = seq ? k + i * st : (u32)r.below(tb->spec.kspace);
    u32 dd = d0;
    if (dups)
      kk = k, dd = d0 + i;
    else if (tb->spec.dup())
      dd = (u32)r.below(tb->spec.dspace);
    if (kk >= tb->spec.kspace * 2)
      break;
    step_put(w, r, *tb, kk, dd, 0);
    if (tb->v.size() > 6000)
      break;
  }
}
static void step_erase(WTxn &w, Rng &r) {
  Table *tb = pick_table(w, r);
  if (!tb || tb->v.empty())
    return;
  u32 n = (u32)r.logu(2, 120);
  size_t from = r.below(tb->v.size());
  bool back = r.chance(1, 3);
  for (u32 i = 0; i < n && !w.broken && !tb->v.empty(); ++i) {
    w.step++;
    if (from >= tb->v.size())
      from = tb->v.size() - 1;
    Ent e = tb->v[from];
    step_del(w, r, *tb, e.k, e.d);
    if (back && from)
      --from;
  }
}

static std::string rename_target(const std::string &n, Rng &r) {
  std::string o = n.substr(0, 2);
  o += (char)('a' + r.below(3));
  return o;
}

static void step_any(WTxn &w, Rng &r) {
  w.step++;
  u32 total = 0;
  for (u32 x : G.rc.s)
    total += x;
  u64 pick = r.below(total);
  int kind = 0;
  for (; kind < S_COUNT; ++kind) {
    if (pick < G.rc.s[kind])
      break;
    pick -= G.rc.s[kind];
  }
  switch (kind) {
  case S_PUT: {
    Table *tb = pick_table(w, r);
    if (!tb)
      break;
    u32 k = (u32)r.below(tb->spec.kspace), d = (u32)r.below(tb->spec.dspace);
    if (r.chance(1, 3))
      near_item(*tb, r, k, d);
    if (tb->v.size() > 6000)
      break;
    step_put(w, r, *tb, k, d);
    break;
  }
  case S_DEL: {
    Table *tb = pick_table(w, r);
    if (!tb)
      break;
    u32 k, d;
    near_item(*tb, r, k, d);
    step_del(w, r, *tb, k, d);
    break;
  }
  case S_GET: {
    Table *tb = pick_table(w, r);
    MDBX_dbi dbi;
    if (!tb)
      break;
    int rc = open_tab(w.txn, tb->spec.name, false, &dbi);
    if (rc)
      return w_fail(w, rc, "mdbx_dbi_open");
    check_get(w.txn, dbi, *tb, r, "map", "writer");
    break;
  }
  case S_WALK: {
    Table *tb = pick_table(w, r);
    if (tb)
      walk_cursor(w.txn, *tb, r, (int)r.range(2, 16), "writer");
    break;
  }
  case S_CUR:
    step_cursor(w, r);
    break;
  case S_MULTI:
    step_multi(w, r);
    break;
  case S_NEST:
    step_nested(w, r);
    break;
  case S_CLEAR: {
    Table *tb = pick_table(w, r);
    MDBX_dbi dbi;
    if (!tb)
      break;
    int rc = open_tab(w.txn, tb->spec.name, false, &dbi);
    if (rc)
      return w_fail(w, rc, "mdbx_dbi_open");
    w.mutated = true;
    tracked_forget(w, tb->spec.name);
    rc = API("mdbx_drop(clear)", mdbx_drop(w.txn, dbi, false));
    trace("clear %s -> %d", tb->spec.name.c_str(), rc);
    if (rc)
      return w_fail(w, rc, "mdbx_drop(clear)");
    tb->clear();
    tb->seq = 0;
    // clearing re-creates the record of the table: the sequence starts anew (see below)
    uint64_t seq = 0;
    rc = API("mdbx_dbi_sequence", mdbx_dbi_sequence(w.txn, dbi, &seq, 0));
    if (rc)
      return w_fail(w, rc, "mdbx_dbi_sequence");
    tb->seq = seq;
    break;
  }
  case S_DROP: {
    // create an absent table or delete a present one
    if (w.tc.size())
      close_tracked(w);
    std::string n = "t";
    n += (char)('0' + r.below(G.specs.size()));
    n += (char)('a' + r.below(3));
    MDBX_dbi dbi;
    if (w.cur.get(n) && (!r.chance(1, 2) || w.depth()))
      break;
    if (w.cur.get(n)) {
      int rc = open_tab(w.txn, n, false, &dbi);
      if (rc)
        return w_fail(w, rc, "mdbx_dbi_open");
      w.mutated = true;
      {
        DbiUse u(w.t->p, true);
        rc = API("mdbx_drop(delete)", mdbx_drop(w.txn, dbi, true));
        forget_handles(n);
        w.t->p->freed.insert(dbi);
        w.tabs_changed = true;
      }
      trace("drop %s -> %d", n.c_str(), rc);
      if (rc)
        return w_fail(w, rc, "mdbx_drop(delete)");
      w.cur.t.erase(n);
      made_forget(w, n);
    } else {
      int rc = open_tab(w.txn, n, false, &dbi, true);
      if (rc != MDBX_NOTFOUND) {
        if (rc == MDBX_SUCCESS)
          violation("tables", "mdbx_dbi_open(%s) succeeds for an absent table", n.c_str());
        return w_fail(w, rc, "mdbx_dbi_open(absent)");
      }
      w.mutated = w.tabs_changed = true;
      const bool known = w.t->p->known.count(n) != 0;
      rc = open_tab(w.txn, n, true, &dbi);
      trace("create %s -> %d", n.c_str(), rc);
      if (rc == MDBX_DANGLING_DBI && w.zombies)
        break; // the free slot belonged to a table whose cursor isn't gone yet
      if (rc)
        return w_fail(w, rc, "mdbx_dbi_open(create)");
      auto t = std::make_shared<Table>();
      t->spec = *spec_of(n);
      t->spec.name = n;
      w.cur.t[n] = t;
      unsigned fl, st = 0;
      if (API("mdbx_dbi_flags_ex", mdbx_dbi_flags_ex(w.txn, dbi, &fl, &st)) == 0 && (!known || (st & MDBX_DBI_CREAT)))
        w.made.push_back({n, dbi, w.depth()});
    }
    break;
  }
  case S_RENAME: {
    Table *tb = pick_table(w, r);
    if (!tb || w.depth())
      break;
    close_tracked(w);
    std::string from = tb->spec.name, to = rename_target(from, r);
    MDBX_dbi dbi;
    int rc = open_tab(w.txn, from, false, &dbi);
    if (rc)
      return w_fail(w, rc, "mdbx_dbi_open");
    w.mutated = true;
    {
      DbiUse u(w.t->p, true);
      rc = API("mdbx_dbi_rename", mdbx_dbi_rename(w.txn, dbi, to.c_str()));
      if (to != from) {
        forget_handles(from), forget_handles(to);
        w.t->p->known.insert(to);
        w.tabs_changed = true;
      }
    }
    trace("rename %s -> %s: %d", from.c_str(), to.c_str(), rc);
    bool exists = w.cur.get(to) != nullptr;
    if (exists) {
      if (rc == MDBX_SUCCESS && to != from)
        violation("tables", "mdbx_dbi_rename(%s to %s) succeeds though the target exists", from.c_str(), to.c_str());
      if (rc != MDBX_KEYEXIST && rc != MDBX_SUCCESS)
        return w_fail(w, rc, "mdbx_dbi_rename");
      break;
    }
    if (rc == MDBX_DANGLING_DBI && w.depth())
      break; // a table of that name was deleted in this nested transaction, but changed by the outer one
    if (rc)
      return w_fail(w, rc, "mdbx_dbi_rename");
    TableP p = w.cur.t[from];
    w.cur.t.erase(from);
    w.cur.t[to] = p;
    w.cur.mut(to).spec.name = to;
    made_forget(w, from);
    break;
  }
  case S_SEQ: {
    Table *tb = pick_table(w, r);
    if (!tb)
      break;
    MDBX_dbi dbi;
    int rc = open_tab(w.txn, tb->spec.name, false, &dbi);
    if (rc)
      return w_fail(w, rc, "mdbx_dbi_open");
    u64 inc = r.chance(1, 12) ? ~0ull - r.below(4) : r.logu(1, 1000);
    uint64_t got = 0xdead;
    bool over = tb->seq + inc < tb->seq;
    w.mutated = true;
    rc = API("mdbx_dbi_sequence", mdbx_dbi_sequence(w.txn, dbi, &got, inc));
    trace("sequence %s +%llu -> %d, %llu", tb->spec.name.c_str(), (unsigned long long)inc, rc, (unsigned long long)got);
    if (over) {
      if (rc == MDBX_SUCCESS)
        violation("sequence", "mdbx_dbi_sequence overflowed silently from %llu by %llu", (unsigned long long)tb->seq,
                  (unsigned long long)inc);
      if (rc != MDBX_RESULT_TRUE)
        return w_fail(w, rc, "mdbx_dbi_sequence");
      break;
    }
    if (rc)
      return w_fail(w, rc, "mdbx_dbi_sequence");
    if (got != tb->seq)
      violation("sequence", "mdbx_dbi_sequence(%s) returned %llu instead of %llu", tb->spec.name.c_str(), (unsigned long long)got,
                (unsigned long long)tb->seq);
    tb->seq += inc;
    break;
  }
  case S_CANARY: {
    MDBX_canary c;
    c.x = r.next(), c.y = r.next(), c.z = r.next(), c.v = 12345;
    if (r.chance(1, 2)) { // some of the markers are kept
      unsigned keep = (unsigned)r.below(8);
      if (keep & 1)
        c.x = w.cur.can[0];
      if (keep & 2)
        c.y = w.cur.can[1];
      if (keep & 4)
        c.z = w.cur.can[2];
    }
    bool touch_only = r.chance(1, 5);
    const bool same = !touch_only && c.x == w.cur.can[0] && c.y == w.cur.can[1] && c.z == w.cur.can[2];
    if (!same)
      w.mutated = true;
    int rc = API("mdbx_canary_put", mdbx_canary_put(w.txn, touch_only ? nullptr : &c));
    if (rc)
      return w_fail(w, rc, "mdbx_canary_put");
    if (!touch_only)
      w.cur.can[0] = c.x, w.cur.can[1] = c.y, w.cur.can[2] = c.z;
    MDBX_canary q;
    rc = API("mdbx_canary_get", mdbx_canary_get(w.txn, &q));
    if (rc)
      return w_fail(w, rc, "mdbx_canary_get");
    if (q.x != w.cur.can[0] || q.y != w.cur.can[1] || q.z != w.cur.can[2])
      violation("canary", "mdbx_canary_get does not return what mdbx_canary_put stored");
    if (q.v != w.id && !same)
      violation("canary", "the canary's v is %llu instead of the id of the transaction %llu", (unsigned long long)q.v,
                (unsigned long long)w.id);
    break;
  }
  case S_SCAN:
    if (!expect_state(w.txn, w.cur, "map", "writer", w.id))
      w.broken = true;
    break;
  case S_REPLACE: {
    Table *tb = pick_table(w, r);
    if (tb)
      step_replace(w, r, *tb);
    break;
  }
  case S_FILL:
    step_fill(w, r);
    break;
  case S_ERASE:
    step_erase(w, r);
    break;
  case S_CHECKPOINT: {
    if (w.depth())
      break;
    close_tracked(w);
    SnapP sn;
    unsigned keep = w.flags;
    unsigned weak = 0;
    if (G.rc.weak_txn_pct && r.below(100) < G.rc.weak_txn_pct)
      weak = r.chance(1, 2) ? MDBX_TXN_NOSYNC : MDBX_TXN_NOMETASYNC;
    w.flags |= weak;
    bool mutated = w.mutated;
    bool real = commit_model_begin(w, sn);
    G.wproc = cur->vp, G.wtask = cur; // the lock is kept
    int rc = API("mdbx_txn_checkpoint", mdbx_txn_checkpoint(w.txn, (MDBX_txn_flags_t)weak, nullptr));
    trace("checkpoint txn %llu -> %d", (unsigned long long)w.id, rc);
    if (rc == MDBX_RESULT_TRUE) {
      if (real && sn->hash != w.base->hash)
        violation("lost-update", "mdbx_txn_checkpoint reports nothing to commit for a changed transaction");
      if (sn)
        drop_snap(sn);
      w.mutated = mutated;
      w.flags = keep;
      break;
    }
    if (rc == MDBX_SUCCESS) {
      if (!sn)
        violation("checkpoint", "mdbx_txn_checkpoint of an unchanged transaction returned success instead of MDBX_RESULT_TRUE");
      commit_model_end(w, sn, 0);
      u64 old = w.id;
      w.id = mdbx_txn_id(w.txn);
      w.flags = keep; // weakening applies to this commit... the started transaction has its own flags
      w.mutated = w.tabs_changed = false;
      w.made.clear();
      if (w.id <= old)
        violation("checkpoint", "the transaction after a checkpoint has id %llu, not above %llu", (unsigned long long)w.id,
                  (unsigned long long)old);
      w.base = sn;
      w.cur = sn->st;
      if (r.chance(1, 3))
        expect_state(w.txn, w.cur, "checkpoint", "after checkpoint", w.id);
      break;
    }
    fail_ok(rc, "mdbx_txn_checkpoint");
    commit_model_end(w, sn, rc);
    w.broken = true;
    w.ambiguous = true; // the commit may have happened
    break;
  }
  case S_ROLLBACK: {
    if (w.depth())
      break;
    close_tracked(w);
    const u64 opens = w.t->p->dopen;
    const bool quiet = w.t->p->dopened == opens;
    int rc = API("mdbx_txn_rollback", mdbx_txn_rollback(w.txn));
    trace("rollback -> %d", rc);
    if (rc) {
      w_fail(w, rc, "mdbx_txn_rollback");
      break;
    }
    w.cur = w.base->st;
    w.mutated = false;
    if (w.tabs_changed)
      forget_handles();
    if (quiet)
      check_undone(w.t->p, w.txn, w.made, opens, "rollback");
    w.made.clear();
    w.tabs_changed = false;
    u64 id = mdbx_txn_id(w.txn);
    if (id != w.id)
      violation("rollback", "mdbx_txn_rollback changed the id of the transaction from %llu to %llu", (unsigned long long)w.id,
                (unsigned long long)id);
    if (r.chance(1, 2))
      expect_state(w.txn, w.cur, "rollback", "after rollback", w.id);
    break;
  }
  case S_BAD:
    if (!w.depth())
      bad_step(w, r);
    break;
  case S_INSPECT:
    txn_inspect(w.txn, w.cur, r, "writer", w.id, true);
    break;
  case S_EXT: {
    Table *tb = pick_table(w, r);
    if (tb)
      cursor_ext(w.txn, *tb, r, "writer");
    break;
  }
  case S_RANGE: {
    Table *tb = pick_table(w, r);
    if (!tb || tb->v.empty())
      break;
    w.mutated = true;
    int rc = delete_range(w.txn, *tb, r);
    tracked_forget(w, tb->spec.name);
    if (rc)
      return w_fail(w, rc, "mdbx_cursor_delete_range");
    break;
  }
  case S_CACHEGET:
    cache_probe(*w.t, w.txn, w.cur, r, true, w.id);
    break;
  default:
    break;
  }
}
void writer_step(WTxn &w, Rng &r) {
  step_any(w, r);
  if (G.rc.tc_check && !w.broken && !w.tc.empty() && r.below(100) < G.rc.tc_check)
    tracked_verify(w, r);
}

void finish_write(WTxn &w, Rng &r, bool embark) {
  if (G.wproc == cur->vp && G.wtask == cur && w.ambiguous) {
    // a failed checkpoint: the transaction is only to be aborted
    writer_gone();
    if (w.tabs_changed)
      forget_handles();
    int rc = API("mdbx_txn_abort", mdbx_txn_abort(w.txn));
    if (w.tabs_changed)
      forget_handles();
    trace("abort after failed checkpoint -> %d", rc);
    return;
  }
  bool commit = w.nobase ? false : w.broken ? r.chance(1, 5) : r.below(100) >= G.rc.abort_pct;
  if (!w.broken && r.chance(1, 6))
    expect_state(w.txn, w.cur, "map", "writer before commit", w.id);
  if (r.chance(1, 2) || !commit)
    close_tracked(w);
  if (!commit) {
    writer_gone();
    const u64 opens = w.t->p->dopen;
    const bool quiet = w.t->p->dopened == opens;
    if (w.tabs_changed)
      forget_handles(); // the lock is released inside of the call, then other writers go on at once
    int rc = API("mdbx_txn_abort", mdbx_txn_abort(w.txn));
    trace("abort txn %llu -> %d", (unsigned long long)w.id, rc);
    if (rc)
      fail_ok(rc, "mdbx_txn_abort");
    for (auto &c : w.tc)
      APIV("mdbx_cursor_close", mdbx_cursor_close(c.c));
    w.tc.clear();
    if (w.tabs_changed)
      forget_handles();
    if (w.made.size() && quiet && !rc && (G.rc.nosticky || w.t->rd.empty())) {
      MDBX_txn *txn;
      rc = API("mdbx_txn_begin", mdbx_txn_begin_ex(w.t->p->env, nullptr, MDBX_TXN_RDONLY, &txn, nullptr));
      if (fail_ok(rc, "mdbx_txn_begin") && rc == MDBX_SUCCESS) {
        check_undone(w.t->p, txn, w.made, opens, "abort");
        API("mdbx_txn_abort", mdbx_txn_abort(txn));
      }
    }
    return;
  }
  SnapP sn;
  if (w.broken)
    w.mutated = true;
  bool broken = w.broken;
  commit_model_begin(w, sn);
  if (broken)
    sn->failed = true;
  embark = embark && (G.rc.nosticky ? w.t->rd.size() < G.rc.max_rd : w.t->rd.empty());
  SnapP base = w.base;
  MDBX_txn *etxn = w.txn;
  DbiUse u(w.t->p, false);
  if (w.tabs_changed && broken)
    forget_handles();
  int rc = embark ? API("mdbx_txn_commit_embark_read", mdbx_txn_commit_embark_read(&etxn, nullptr))
                  : API("mdbx_txn_commit", mdbx_txn_commit(w.txn));
  if (embark) {
    trace("commit-embark txn %llu -> %d", (unsigned long long)w.id, rc);
    probe(42);
    if (rc == MDBX_RESULT_TRUE && etxn == w.txn && !broken) {
      // nothing to commit, the transaction goes on
      if (sn && sn->hash != base->hash)
        violation("lost-update", "mdbx_txn_commit_embark_read reports nothing to commit for a changed transaction");
      if (sn && sn->status != SN_DROPPED)
        drop_snap(sn);
      probe(43);
      if (mdbx_txn_flags(etxn) & MDBX_TXN_RDONLY)
        violation("embark", "mdbx_txn_commit_embark_read returned MDBX_RESULT_TRUE, but the transaction became a reader");
      for (auto &c : w.tc)
        APIV("mdbx_cursor_close", mdbx_cursor_close(c.c));
      w.tc.clear();
      int rc2 = API("mdbx_txn_abort", mdbx_txn_abort(w.txn));
      if (rc2)
        fail_ok(rc2, "mdbx_txn_abort");
      return;
    }
    if (rc == MDBX_SUCCESS) {
      for (auto &c : w.tc)
        APIV("mdbx_cursor_close", mdbx_cursor_close(c.c));
      w.tc.clear();
      if (!broken)
        commit_model_end(w, sn, rc);
      else if (sn->status != SN_DROPPED)
        sn->status = SN_UNCERTAIN, sn->failed = true;
      RTxn x;
      x.txn = etxn;
      x.owner = cur;
      if (!etxn || !(mdbx_txn_flags(etxn) & MDBX_TXN_RDONLY))
        violation("embark", "mdbx_txn_commit_embark_read succeeded, but gave no read transaction");
      // (a commit may take several ids at once, if a lot of pages are retired)
      const u64 least = sn && sn->hash != base->hash ? w.id : base->txnid; // without changes there is nothing to be committed
      if (mdbx_txn_id(etxn) < least || mdbx_txn_id(etxn) > w.id + 1000)
        violation("embark", "mdbx_txn_commit_embark_read of txn %llu gave a reader of txn %llu", (unsigned long long)w.id,
                  (unsigned long long)mdbx_txn_id(etxn));
      bind_reader(x, 0, 0, "embark");
      if (!broken && sn && x.snap && x.snap->hash != sn->hash)
        violation("embark", "the reader after mdbx_txn_commit_embark_read has another state");
      check_read(*w.t, x, r);
      w.t->rd.push_back(x);
      return;
    }
  }
  if (embark && rc && etxn) {
    // refused before anything was done, e.g. after a fatal error: the transaction is still to be ended by the user
    int rc2 = API("mdbx_txn_abort", mdbx_txn_abort(etxn));
    if (rc2)
      fail_ok(rc2, "mdbx_txn_abort");
  }
  if (rc && w.tabs_changed)
    forget_handles();
  trace("commit txn %llu -> %d (seq %llu, %zu items)", (unsigned long long)w.id, rc, sn ? (unsigned long long)sn->seq : 0ull,
        w.cur.items());
  if (broken && rc == MDBX_SUCCESS) {
    // an operation had failed without poisoning the transaction: what is committed must be the state without it,
    // or an unmodified one; settled by the next reader of it
    if (sn->status != SN_DROPPED) {
      sn->status = SN_UNCERTAIN;
      sn->failed = true;
    }
  } else
    commit_model_end(w, sn, rc);
  if (rc == MDBX_RESULT_TRUE && !broken && !faults_fired())
    violation("lost-update", "mdbx_txn_commit reported an aborted transaction though nothing failed");
  // (becoming a reader is refused for a transaction that has had an error, which is then aborted above)
  if (rc && rc != MDBX_RESULT_TRUE && !(embark && broken && rc == MDBX_BAD_TXN))
    fail_ok(rc, "mdbx_txn_commit");
  if (rc == MDBX_PANIC)
    w.t->p->panic = true;
  for (auto &c : w.tc)
    APIV("mdbx_cursor_close", mdbx_cursor_close(c.c));
  w.tc.clear();
}

static void release_readers(Thr &t, Rng &r) {
  for (auto &x : t.rd)
    if (x.txn) {
      if (x.parked || x.reset) {
        int rc = API("mdbx_txn_abort", mdbx_txn_abort(x.txn));
        if (rc)
          fail_ok(rc, "mdbx_txn_abort");
      } else
        end_read(t, x, r);
    }
  G.rd_ends += t.rd.size();
  t.rd.clear();
}

void run_steps(WTxn &w, Rng &r, u64 opid) {
  int n = (int)r.logu(1, G.rc.max_sub);
  for (int i = 0; i < n && !w.broken; ++i) {
    Rng q(hash2(hash2(G.seed, opid), 1000 + i));
    if (is_skipped(op_hash(opid, 1 + i)))
      continue;
    note_op(op_hash(opid, 1 + i));
    writer_step(w, q);
  }
}

void op_write(Thr &t, Rng &r, u64 opid, bool embark) {
  if (!G.rc.nosticky) {
    DbiUse u(t.p, false);
    release_readers(t, r);
  }
  WTxn w;
  w.t = &t;
  w.opid = opid;
  MDBX_txn_flags_t f = pick_wflags(r, w.flags);
  int rc = API("mdbx_txn_begin", mdbx_txn_begin_ex(t.p->env, nullptr, f, &w.txn, nullptr));
  if (rc == MDBX_BUSY && (f & MDBX_TXN_TRY))
    return;
  if (rc) {
    fail_ok(rc, "mdbx_txn_begin");
    if (env_level(rc))
      t.p->panic = true;
    return;
  }
  bool ok = writer_begun(w, "begin");
  trace("write txn %llu begun", (unsigned long long)w.id);
  if (ok)
    run_steps(w, r, opid);
  finish_write(w, r, embark);
}

// ------------------------------------------------------------------------------- opening and closing
static unsigned env_flags(unsigned extra) {
  unsigned f = MDBX_NOSUBDIR | extra;
  const RunCfg &c = G.rc;
  if (c.writemap)
    f |= MDBX_WRITEMAP;
  if (c.nosticky)
    f |= MDBX_NOSTICKYTHREADS;
  if (c.lifo)
    f |= MDBX_LIFORECLAIM;
  if (c.nomeminit)
    f |= MDBX_NOMEMINIT;
  if (c.pagepert)
    f |= MDBX_PAGEPERTURB;
  if (c.exclusive)
    f |= MDBX_EXCLUSIVE;
  static const unsigned m[] = {MDBX_SYNC_DURABLE, MDBX_NOMETASYNC, MDBX_SAFE_NOSYNC, MDBX_UTTERLY_NOSYNC};
  f |= m[c.sync];
  return f;
}
static int hsr_cb(const MDBX_env *, const MDBX_txn *, mdbx_pid_t, mdbx_tid_t, uint64_t laggard, unsigned gap, size_t space, int retry) noexcept {
  trace("HSR laggard %llu gap %u space %zu retry %d", (unsigned long long)laggard, gap, space, retry);
  probe(44);
  if (retry < 0)
    return 0;
  if (retry > 6)
    return -1;
  sleep_ns(100000);
  return 0;
}

static void logger_cb(MDBX_log_level_t level, const char *function, int line, const char *fmt, va_list args) noexcept {
  if (cur && (strstr(fmt, "lock region has") || strstr(fmt, "lck-file has invalid size")))
    cur->lck_bad = true;
  if (cur && strstr(fmt, "failed, error") && dbi_volatile()) {
    va_list a2;
    va_copy(a2, args);
    char b[300];
    vsnprintf(b, sizeof b, fmt, a2);
    va_end(a2);
    if (strstr(b, "BAD_DBI"))
      cur->chk_bad_dbi = true;
  }
  if (!SH->trace_on)
    return;
  char buf[512];
  vsnprintf(buf, sizeof buf, fmt, args);
  size_t n = strlen(buf);
  while (n && buf[n - 1] == '\n')
    buf[--n] = 0;
  trace("log %d %s:%d %s", (int)level, function, line, buf);
}
int open_env(Proc &p, unsigned extra, bool creator) {
  mdbx_setup_debug(MDBX_LOG_WARN, MDBX_DBG_DONTCHANGE, logger_cb);
  p.handles.clear();
  p.known.clear();
  int rc = API("mdbx_env_create", mdbx_env_create(&p.env));
  if (rc)
    return rc;
  const RunCfg &c = G.rc;
  auto chk = [&](int r, const char *w) {
    if (r)
      fail_ok(r, w);
    return r;
  };
  if ((rc = chk(API("set maxdbs", mdbx_env_set_option(p.env, MDBX_opt_max_db, 16)), "set max_db")))
    return rc;
  if (c.maxreaders && (rc = chk(API("set maxreaders", mdbx_env_set_option(p.env, MDBX_opt_max_readers, c.maxreaders)), "set max_readers")))
    return rc;
  for (auto &o : c.options)
    if ((rc = chk(API("mdbx_env_set_option", mdbx_env_set_option(p.env, (MDBX_option_t)o.first, o.second)), "mdbx_env_set_option")))
      return rc;
  if (c.dp_limit && (rc = chk(API("set dp_limit", mdbx_env_set_option(p.env, MDBX_opt_txn_dp_limit, c.dp_limit)), "set dp_limit")))
    return rc;
  unsigned f = env_flags(extra);
  if (extra & MDBX_RDONLY)
    f &= ~(MDBX_WRITEMAP | MDBX_LIFORECLAIM | MDBX_NOMEMINIT | MDBX_PAGEPERTURB | MDBX_UTTERLY_NOSYNC | MDBX_NOMETASYNC);
  if (!(extra & MDBX_RDONLY) && creator) {
    rc = API("mdbx_env_set_geometry", mdbx_env_set_geometry(p.env, c.glower ? (intptr_t)c.glower : -1, -1, c.gupper, c.ggrow, c.gshrink, c.ps));
    if (rc) {
      fail_ok(rc, "mdbx_env_set_geometry");
      return rc;
    }
  }
  if (c.hsr)
    mdbx_env_set_hsr(p.env, hsr_cb);
  p.envflags = f;
  p.ro = (extra & MDBX_RDONLY) != 0;
  cur->lck_bad = false;
  G.opens++;
  p.as_bytes = p.as_ns = 0;
  std::vector<Proc *> with;
  for (Proc *q : G.procs)
    if (q != &p && q->opened && q->vp && q->vp->alive)
      with.push_back(q);
  rc = API("mdbx_env_open", mdbx_env_open(p.env, DBPATH, (MDBX_env_flags_t)f, 0644));
  trace("env_open flags %x -> %d", f, rc);
  if (cur->lck_bad && (rc == MDBX_INVALID || rc == MDBX_PROBLEM) && SH->kills && !faults_fired() && p.env)
    violation("lck-init-race", "mdbx_env_open returned %d %s since the lck-file is not initialised: its initialiser was killed, and those waiting "
              "for it hold it shared", rc, mdbx_strerror(rc));
  if (rc)
    return rc;
  bool alone = true;
  for (Proc *q : with)
    if (q->opened && q->vp && q->vp->alive)
      alone = false;
  if (alone)
    G.lck_seq = G.next_seq;
  p.opened = true;
  p.open_gen++;
  if (!p.ro && c.sync != SM_DURABLE) {
    if (c.sync_bytes && (rc = chk(API("set sync_bytes", mdbx_env_set_option(p.env, MDBX_opt_sync_bytes, c.sync_bytes)), "sync_bytes")))
      return rc;
    if (c.sync_period && (rc = chk(API("set sync_period", mdbx_env_set_option(p.env, MDBX_opt_sync_period, c.sync_period)), "sync_period")))
      return rc;
    p.as_bytes = c.sync_bytes;
    p.as_ns = c.sync_period ? ((u64)c.sync_period + 2) * 1000000000ull / 65536 + 1000 : 0;
  }
  if (!p.ro)
    G.created = true;
  MDBX_envinfo ei;
  if (API("mdbx_env_info", mdbx_env_info_ex(p.env, nullptr, &ei, sizeof ei)) == 0)
    p.maxreaders = ei.mi_maxreaders;
  return 0;
}

static bool odd_around() { // somebody opens or holds the database in another mode
  for (Proc *q : G.procs)
    if (q->odd && q->vp && q->vp->alive)
      return true;
  return false;
}
// An opening in a mode other than that of the rest. Beside a user of the database it must be refused, or adopt the mode in
// use if it asks to do so. Returns true if the environment has been opened in a mode which agrees with that of the rest.
static bool odd_open(Proc &p, Rng &r) {
  const unsigned lazy = MDBX_UTTERLY_NOSYNC | MDBX_NOMETASYNC;
  const unsigned base = env_flags(0);
  unsigned f = base;
  enum { LAZY, WMAP, ACCEDE, EXCL, MIXED } kind = (decltype(kind))r.below(5);
  static const unsigned m[] = {MDBX_SYNC_DURABLE, MDBX_NOMETASYNC, MDBX_SAFE_NOSYNC, MDBX_UTTERLY_NOSYNC};
  const unsigned strict = MDBX_UTTERLY_NOSYNC;
  if (kind == MIXED && (base & lazy))
    kind = WMAP;
  if (kind == WMAP && !(base & lazy))
    kind = MIXED;
  switch (kind) {
  case LAZY:
    do
      f = (f & ~lazy) | m[r.below(4)];
    while ((f & strict) == (base & strict));
    if (r.chance(1, 2))
      f ^= MDBX_WRITEMAP;
    break;
  case ACCEDE:
    f = (f & ~lazy) | m[r.below(4)] | MDBX_ACCEDE;
    if (r.chance(1, 2))
      f ^= MDBX_WRITEMAP;
    if (r.chance(1, 2))
      f ^= MDBX_LIFORECLAIM;
    break;
  case EXCL:
    f |= MDBX_EXCLUSIVE;
    break;
  case WMAP:
  case MIXED:
    f ^= MDBX_WRITEMAP;
    break;
  }
  const RunCfg &c = G.rc;
  p.handles.clear();
  p.known.clear();
  if (API("mdbx_env_create", mdbx_env_create(&p.env)))
    return false;
  API("set maxdbs", mdbx_env_set_option(p.env, MDBX_opt_max_db, 16));
  if (c.maxreaders)
    API("set maxreaders", mdbx_env_set_option(p.env, MDBX_opt_max_readers, c.maxreaders));
  for (auto &o : c.options)
    API("mdbx_env_set_option", mdbx_env_set_option(p.env, (MDBX_option_t)o.first, o.second));
  if (c.dp_limit)
    API("set dp_limit", mdbx_env_set_option(p.env, MDBX_opt_txn_dp_limit, c.dp_limit));
  if (c.hsr)
    mdbx_env_set_hsr(p.env, hsr_cb);
  std::vector<std::pair<Proc *, u64>> with; // those which use the database in the regular mode
  for (Proc *q : G.procs)
    if (q != &p && q->opened && !q->ro && !q->odd && q->vp && q->vp->alive)
      with.push_back({q, q->open_gen});
  const bool foreign = odd_around();
  p.odd = true;
  G.odd_gen++;
  G.opens++;
  const u64 gen = G.odd_gen;
  int rc = API("mdbx_env_open(odd)", mdbx_env_open(p.env, DBPATH, (MDBX_env_flags_t)f, 0644));
  bool stable = false;
  for (auto &q : with)
    stable |= q.first->opened && q.first->open_gen == q.second && q.first->vp->alive;
  trace("odd env_open kind %d flags %x -> %d, %s", (int)kind, f, rc, stable ? "beside others" : "maybe alone");
  bool member = false;
  if (rc == 0) {
    probe(52);
    unsigned got = 0;
    API("mdbx_env_get_flags", mdbx_env_get_flags(p.env, &got));
    const bool same = ((got ^ base) & lazy) == 0 && (!(base & lazy) || ((got ^ base) & MDBX_WRITEMAP) == 0);
    // without syncing of meta-pages is compatible with being durable, so either of them may be the mode in force
    if (stable && (kind == LAZY || kind == EXCL || (kind == WMAP && (base & MDBX_SAFE_NOSYNC))))
      violation("mode", "the database has been opened with flags 0x%x beside a process which uses it with flags 0x%x", f, base);
    if (stable && (((got ^ base) & strict) != 0 || ((base & MDBX_SAFE_NOSYNC) && ((got ^ base) & MDBX_WRITEMAP))))
      violation("mode", "the database has been opened with flags 0x%x beside a process which uses it with flags 0x%x, and now it has the mode 0x%x",
                f, base, got);
    member = stable && same;
    if (member) {
      p.envflags = got | MDBX_NOSUBDIR;
      p.ro = false;
      p.opened = true;
      p.open_gen++;
      p.odd = false;
      p.as_bytes = p.as_ns = 0;
      MDBX_envinfo ei;
      if (API("mdbx_env_info", mdbx_env_info_ex(p.env, nullptr, &ei, sizeof ei)) == 0)
        p.maxreaders = ei.mi_maxreaders;
      return true;
    }
    if (r.chance(1, 2))
      sleep_ns(r.below(100000));
  } else {
    probe(53);
    if (rc == MDBX_INCOMPATIBLE && (kind == ACCEDE || (stable && (kind == EXCL || (kind == MIXED && gen == 1)))))
      violation("mode", "opening with flags 0x%x beside a process which uses the database with flags 0x%x -> MDBX_INCOMPATIBLE", f, base);
    if (rc == MDBX_INCOMPATIBLE && with.empty() && !foreign && gen == G.odd_gen && G.procs.size() == 1)
      violation("mode", "opening with flags 0x%x, while nobody uses the database -> MDBX_INCOMPATIBLE", f);
    if (rc != MDBX_INCOMPATIBLE && rc != MDBX_BUSY)
      fail_ok(rc, "mdbx_env_open in another mode");
  }
  API("mdbx_env_close", mdbx_env_close_ex(p.env, false));
  p.env = nullptr;
  p.odd = false;
  return false;
}

static char chk_text[2000];
static void chk_issue(MDBX_chk_context_t *, const char *object, uint64_t n, const char *issue, const char *extra_fmt, va_list ap) {
  size_t l = strlen(chk_text);
  if (l > 1500)
    return;
  l += snprintf(chk_text + l, 300, "[%s #%llu: %s ", object, (unsigned long long)n, issue);
  if (extra_fmt)
    l += std::min(300, vsnprintf(chk_text + l, 300, extra_fmt, ap));
  snprintf(chk_text + strlen(chk_text), 4, "] ");
}
void check_env(MDBX_env *env, const char *where, MDBX_txn *txn) {
  MDBX_chk_callbacks_t cb;
  memset(&cb, 0, sizeof cb);
  cb.issue = chk_issue;
  MDBX_chk_context_t ctx;
  memset(&ctx, 0, sizeof ctx);
  ctx.txn = txn;
  chk_text[0] = 0;
  u64 nf = cur->nfaults;
  cur->chk_bad_dbi = false;
  int rc = API("mdbx_env_chk", mdbx_env_chk(env, &cb, &ctx, MDBX_CHK_DEFAULTS, MDBX_chk_processing, 0));
  G.chks++;
  probe(41);
  if (rc || ctx.result.total_problems) {
    if (cur->chk_bad_dbi && dbi_volatile() && ctx.result.total_problems <= 1)
      return;
    if (rc == MDBX_PANIC && faults_fired() && !chk_text[0])
      return; // the environment refuses to work because of a failure of an earlier commit
    if (rc && rc != MDBX_CORRUPTED && cur->nfaults != nf && strstr(chk_text, "invalid") == nullptr) {
      trace("tolerated: mdbx_env_chk -> %d", rc);
      return;
    }
    violation("structure", "%s: mdbx_env_chk returned %d with %zu problems: %s", where, rc, ctx.result.total_problems, chk_text);
  }
}

// finds the state in the history which has survived, it must be neither older than the durable one nor made up
static SnapP survived_state(MDBX_txn *txn, u64 T, const char *how, u64 &h) {
  State got;
  std::string why;
  int rc;
  if (!read_state(txn, got, why, rc))
    violation("durability", "after power loss: %s: txn %llu: %s (rc %d %s)", how, (unsigned long long)T, why.c_str(), rc,
              rc == MDBX_RESULT_TRUE ? "" : mdbx_strerror(rc));
  h = got.hash();
  SnapP best;
  bool older = false;
  for (size_t i = G.hist.size(); i-- > 0;) {
    if (G.hist[i]->hash == h) {
      if (G.hist[i]->seq >= G.floor_seq) {
        best = G.hist[i];
        if (best->txnid == T)
          break;
      } else
        older = true;
    }
  }
  if (!best) {
    SnapP fl;
    for (auto &s : G.hist)
      if (s->seq <= G.floor_seq)
        fl = s;
    if (older)
      violation("durability", "%s: after power loss a state older than the durable one (txn %llu) is found, txn %llu: %s", how,
                fl ? (unsigned long long)fl->txnid : 0ull, (unsigned long long)T, fl ? diff_state(fl->st, got).c_str() : "");
    violation("durability", "%s: after power loss the database (txn %llu) is in a state which has never been committed; vs txn %llu: %s", how,
              (unsigned long long)T, fl ? (unsigned long long)fl->txnid : 0ull, fl ? diff_state(fl->st, got).c_str() : "");
  }
  return best;
}

static void settle_recovery(MDBX_txn *txn, u64 T, const char *how) {
  u64 h;
  SnapP best = survived_state(txn, T, how, h);
  // the surviving state becomes the only history
  auto s = std::make_shared<Snap>(*best);
  s->status = SN_COMMITTED;
  s->failed = false;
  s->steady = true;
  s->txnid = T;
  s->seen = false;
  G.hist.clear();
  G.hist.push_back(s);
  G.floor_seq = s->seq;
  G.seen_txnid = 0;
  G.need_recovery = false;
  SH->recoveries++;
  logev(0x77, T, h);
  trace("recovered to seq %llu txn %llu", (unsigned long long)s->seq, (unsigned long long)T);
}

// first use of the database by a process: make the tables exist
static bool setup_tables(Proc &p) {
  Thr t(&p, -1, 0);
  p.lazy = false;
  if (p.ro) { // open all handles beforehand, since mdbx_env_chk() closes those it was the first to open
    p.lazy = true;
    MDBX_txn *txn;
    int rc = API("mdbx_txn_begin", mdbx_txn_begin_ex(p.env, nullptr, MDBX_TXN_RDONLY, &txn, nullptr));
    if (rc)
      return fail_ok(rc, "mdbx_txn_begin (read-only process)"), true;
    p.lazy = false;
    for (auto &s : G.specs) {
      MDBX_dbi dbi;
      if (open_tab(txn, s.name, false, &dbi))
        p.lazy = true; // not created yet
    }
    API("mdbx_txn_abort", mdbx_txn_abort(txn));
    return true;
  }
  WTxn w;
  w.t = &t;
  w.opid = op_hash(p.slot * 100 + p.inc, 77);
  int rc = API("mdbx_txn_begin", mdbx_txn_begin_ex(p.env, nullptr, MDBX_TXN_READWRITE, &w.txn, nullptr));
  if (rc) {
    fail_ok(rc, "mdbx_txn_begin (first)");
    return false;
  }
  if (!writer_begun(w, "first")) {
    Rng r(1);
    finish_write(w, r);
    return false;
  }
  for (auto &s : G.specs) {
    std::string n = s.name;
    bool have = w.cur.get(n) != nullptr;
    if (!have && G.rc.dyn_tables && w.base->txnid > 0)
      continue;
    MDBX_dbi dbi;
    rc = open_tab(w.txn, n, !have, &dbi);
    if (rc) {
      fail_ok(rc, "mdbx_dbi_open (first)");
      w.broken = true;
      break;
    }
    if (!have) {
      w.mutated = true;
      auto t2 = std::make_shared<Table>();
      t2->spec = s;
      w.cur.t[n] = t2;
    }
  }
  bool broken = w.broken;
  SnapP sn;
  if (broken) {
    writer_gone();
    API("mdbx_txn_abort", mdbx_txn_abort(w.txn));
    return false;
  }
  commit_model_begin(w, sn);
  rc = API("mdbx_txn_commit", mdbx_txn_commit(w.txn));
  trace("first commit txn %llu -> %d", (unsigned long long)w.id, rc);
  commit_model_end(w, sn, rc);
  if (rc) {
    fail_ok(rc, "mdbx_txn_commit (first)");
    return false;
  }
  return true;
}

void do_sync(Proc &p, bool force, bool nonblock) {
  SnapP h = head();
  const u64 start = now_ns();
  int rc = API("mdbx_env_sync", mdbx_env_sync_ex(p.env, force, nonblock));
  trace("sync force=%d nonblock=%d -> %d", force, nonblock, rc);
  if ((rc == MDBX_SUCCESS && force) || rc == MDBX_RESULT_TRUE) {
    if (G.rc.sync != SM_UTTERLY && h->status == SN_COMMITTED && !G.need_recovery)
      floor_raise(h);
    return;
  }
  if (rc == MDBX_SUCCESS) {
    if (h->done_ns)
      autosync_floor(p, h, start, h->pages);
    return;
  }
  if (rc == MDBX_BUSY && nonblock)
    return;
  if (rc == MDBX_EACCESS && p.ro)
    return;
  fail_ok(rc, "mdbx_env_sync");
  if (env_level(rc))
    p.panic = true;
}

static void close_env(Proc &p, bool dont_sync) {
  SnapP h = head();
  bool faulty_before = faults_fired() > 0;
  // the final sync is skipped when a transaction of another process holds the write lock
  auto others = [&p]() {
    for (Proc *q : G.procs)
      if (q != &p && q->env && q->vp && q->vp->alive)
        return true;
    return false;
  };
  bool alone = !others();
  u64 opens = G.opens;
  p.opened = false;
  int rc = API("mdbx_env_close", mdbx_env_close_ex(p.env, dont_sync));
  alone = alone && opens == G.opens;
  trace("env_close dont_sync=%d -> %d", dont_sync, rc);
  p.env = nullptr;
  if (rc == MDBX_SUCCESS && alone && !dont_sync && !p.ro && !G.need_recovery && G.rc.sync != SM_UTTERLY && h->status == SN_COMMITTED && !faulty_before && !p.panic)
    floor_raise(h);
  if (rc)
    fail_ok(rc, "mdbx_env_close");
}

// ------------------------------------------------------------------------------- threads and processes
static Op pick_op(Rng &r) {
  u32 total = 0;
  for (u32 x : G.rc.w)
    total += x;
  u64 pick = r.below(total);
  for (int k = 0; k < O_COUNT; ++k) {
    if (pick < G.rc.w[k])
      return (Op)k;
    pick -= G.rc.w[k];
  }
  return O_WRITE;
}

static void thread_ops(Thr &t) {
  if (G.rc.scenario) {
    Rng r(hash2(G.seed, t.base));
    return scenario_run(t, r);
  }
  for (int i = 0; i < G.rc.ops && !t.stop && !t.p->panic; ++i) {
    u64 id = op_hash(t.base, i);
    Rng r(hash2(G.seed, id));
    Op k = pick_op(r);
    if (is_skipped(id))
      continue;
    t.opid = id;
    note_op(id);
    logev(0xA0 + k, id);
    generic_op(t, r, k, id);
  }
  Rng r(hash2(t.base, 9999));
  DbiUse u(t.p, false);
  release_readers(t, r);
}

static void proc_main(Proc *p) {
  p->vp = cur->vp;
  Rng r(hash2(hash2(G.seed, p->slot), 555 + p->inc));
  bool ro = G.rc.ro_slot && p->slot == 0;
  int rc = 0;
  for (int round = 0; round < 1 + (int)r.below(G.rc.reopen_max); ++round) {
    for (int attempt = 0;; ++attempt) {
      const bool created = G.created;
      if (G.rc.mix_modes && created && !ro && !G.need_recovery) {
        Rng q(hash2(hash2(G.seed, p->slot * 1000 + p->inc), 700 + round * 64 + attempt));
        if (q.chance(1, 2) && odd_open(*p, q)) {
          rc = 0;
          break;
        }
      }
      rc = open_env(*p, ro ? MDBX_RDONLY : 0, true);
      if (rc == 0)
        break;
      trace("open failed: %d", rc);
      if (p->env) {
        p->opened = false, API("mdbx_env_close", mdbx_env_close_ex(p->env, false));
        p->env = nullptr;
      }
      if (rc == MDBX_BUSY || rc == EAGAIN || 
          // the mode persists while readers and those being refused hold the lck-file
          (rc == MDBX_INCOMPATIBLE && G.odd_gen) || (ro && rc == MDBX_ENOFILE) ||
          (ro && (rc == MDBX_ENODATA || rc == MDBX_INVALID) && (!created || (G.need_recovery && G.floor_seq == 0))) || // not created yet, or half of it
          (ro && rc == MDBX_WANNA_RECOVERY && (SH->kills || SH->powerlosses || G.rc.exit_pct || G.rc.sync != SM_DURABLE || G.rc.weak_txn_pct))) {
        if (attempt > 50) {
          if (rc == MDBX_INCOMPATIBLE && !G.rc.ro_slot)
            violation("mode", "mdbx_env_open has been refused 50 times, though those who used another mode left");
          return;
        }
        sleep_ns(1000000);
        continue;
      }
      fail_ok(rc, "mdbx_env_open");
      return;
    }
    if (G.need_recovery) {
      MDBX_txn *txn;
      rc = API("mdbx_txn_begin", mdbx_txn_begin_ex(p->env, nullptr, MDBX_TXN_RDONLY, &txn, nullptr));
      if (rc == 0) {
        if (G.need_recovery)
          settle_recovery(txn, mdbx_txn_id(txn), "first reader");
        API("mdbx_txn_abort", mdbx_txn_abort(txn));
      } else
        fail_ok(rc, "mdbx_txn_begin after recovery");
    }
    if (!G.need_recovery && setup_tables(*p)) {
      p->running = G.rc.threads;
      p->threads.clear();
      for (int i = 1; i < G.rc.threads; ++i) {
        u64 base = op_hash(op_hash(p->slot * 1000 + p->inc, round), i);
        p->threads.push_back(spawn_task(
            cur->vp,
            [p, i, base]() {
              Thr t(p, i, base);
              thread_ops(t);
            },
            "worker"));
      }
      Thr t(p, 0, op_hash(op_hash(p->slot * 1000 + p->inc, round), 0));
      thread_ops(t);
      for (Task *x : p->threads)
        wait_until([](void *a) { return task_done((Task *)a); }, x);
    }
    if (r.below(100) < G.rc.exit_pct && !p->panic)
      exit_process_abruptly();
    close_env(*p, r.below(100) < G.rc.dontsync_pct);
    if (p->panic || G.need_recovery)
      return;
  }
}

struct Slot {
  int slot, inc;
  Vproc *vp;
};
static bool any_slot_dead(void *a) {
  for (Slot &s : *(std::vector<Slot> *)a)
    if (s.vp && !s.vp->alive)
      return true;
  return false;
}
static int g_inc_counter;
static Vproc *start_slot(int slot, int inc) {
  Proc *p = new Proc;
  p->slot = slot;
  p->inc = inc;
  G.procs.push_back(p);
  char n[32];
  snprintf(n, sizeof n, "P%d.%d", slot, inc);
  return spawn_process(n, [p]() { proc_main(p); });
}
// restarts killed processes until their budget is over
static void supervisor() {
  std::vector<Slot> slots;
  for (int i = 0; i < G.rc.slots; ++i)
    slots.push_back({i, g_inc_counter, start_slot(i, g_inc_counter)});
  ++g_inc_counter;
  std::vector<int> left(G.rc.slots, G.rc.incs - 1);
  for (;;) {
    bool live = false;
    for (Slot &s : slots)
      live |= s.vp != nullptr;
    if (!live)
      return;
    wait_until(any_slot_dead, &slots);
    for (Slot &s : slots)
      if (s.vp && !s.vp->alive) {
        if (left[s.slot]-- > 0) {
          s.inc = g_inc_counter++;
          s.vp = start_slot(s.slot, s.inc);
        } else
          s.vp = nullptr;
      }
  }
}

// Before anything has been committed durably a power loss may leave a file that is no database at all
// (its creation is not atomic): nothing promised is lost, the user has to create the database again.
static int open_recovering(Proc &p) {
  int rc = open_env(p, 0, false);
  if (rc && G.need_recovery && G.floor_seq == 0 &&
      (rc == MDBX_INVALID || rc == MDBX_CORRUPTED || rc == MDBX_ENODATA || rc == MDBX_VERSION_MISMATCH)) {
    trace("half-created database: %d %s", rc, mdbx_strerror(rc));
    probe(1);
    if (p.env)
      p.opened = false, API("mdbx_env_close_ex", mdbx_env_close_ex(p.env, false));
    p.env = nullptr;
    int e = API("mdbx_env_delete", mdbx_env_delete(DBPATH, MDBX_ENV_JUST_DELETE));
    if (e)
      violation("recovery", "mdbx_env_delete of a half-created database failed: %d %s", e, mdbx_strerror(e));
    rc = open_env(p, 0, false);
  }
  return rc;
}

// the database must be fine when nobody interferes any more
static void verifier() {
  cur->vp->killable = false;
  Proc p;
  p.vp = cur->vp;
  auto save = G.rc;
  int rc = open_recovering(p);
  if (rc) {
    violation("recovery", "the database does not open after the run: %d %s", rc, mdbx_strerror(rc));
  }
  MDBX_txn *txn;
  rc = API("mdbx_txn_begin", mdbx_txn_begin_ex(p.env, nullptr, MDBX_TXN_RDONLY, &txn, nullptr));
  if (rc)
    violation("recovery", "a read transaction does not start after the run: %d %s", rc, mdbx_strerror(rc));
  if (G.need_recovery)
    settle_recovery(txn, mdbx_txn_id(txn), "verifier");
  API("mdbx_txn_abort", mdbx_txn_abort(txn));
  // writer: settles interrupted commits and compares everything
  Thr t(&p, -2, 0);
  WTxn w;
  w.t = &t;
  rc = API("mdbx_txn_begin", mdbx_txn_begin_ex(p.env, nullptr, MDBX_TXN_READWRITE, &w.txn, nullptr));
  if (rc)
    violation("recovery", "a write transaction does not start after the run: %d %s", rc, mdbx_strerror(rc));
  writer_begun(w, "verifier");
  expect_state(w.txn, w.cur, "final-state", "verifier", w.id);
  writer_gone();
  rc = API("mdbx_txn_abort", mdbx_txn_abort(w.txn));
  if (rc)
    violation("recovery", "mdbx_txn_abort failed after the run: %d", rc);
  if ((u32)(hash2(G.seed, 4242 + SH->epochs) % 100) < G.rc.chk_pct)
    check_env(p.env, "after the run");
  // the environment must be able to commit
  WTxn w2;
  w2.t = &t;
  rc = API("mdbx_txn_begin", mdbx_txn_begin_ex(p.env, nullptr, MDBX_TXN_READWRITE, &w2.txn, nullptr));
  if (rc)
    violation("recovery", "a write transaction does not start: %d %s", rc, mdbx_strerror(rc));
  writer_begun(w2, "verifier");
  MDBX_canary c = {hash2(G.seed, G.next_seq), 2, 3, 4};
  rc = API("mdbx_canary_put", mdbx_canary_put(w2.txn, &c));
  if (rc)
    violation("recovery", "mdbx_canary_put failed after the run: %d %s", rc, mdbx_strerror(rc));
  w2.mutated = true;
  w2.cur.can[0] = c.x, w2.cur.can[1] = c.y, w2.cur.can[2] = c.z;
  SnapP sn;
  commit_model_begin(w2, sn);
  rc = API("mdbx_txn_commit", mdbx_txn_commit(w2.txn));
  if (rc)
    violation("recovery", "a commit fails after the run: %d %s", rc, mdbx_strerror(rc));
  commit_model_end(w2, sn, rc);
  close_env(p, false);
  (void)save;
}

// Looks into the database in a few ways while nobody uses it, before its recovery (if the latter is needed at all):
// nothing of that may change the data file, and what is found inside must be a committed state.
static void inspector(u64 salt) {
  cur->vp->killable = false;
  if (!vfs_exists(DBPATH))
    return;
  Rng r(hash2(G.seed, salt));
  const std::vector<u8> before = vfs_content(DBPATH);
  const bool unclean = SH->kills || SH->powerlosses || G.rc.exit_pct || G.rc.sync != SM_DURABLE || G.rc.weak_txn_pct || G.odd_gen;
  int known = -1; // the steady meta-page which is used by a regular opening
  int recent = -1; // the one with the biggest id of transaction
  bool weak = false;
  for (int i = (int)r.range(1, 6); i--;) {
    Proc p;
    p.vp = cur->vp;
    const u32 kind = (u32)r.below(4);
    const bool regular = kind < 2;
    const bool rw = kind == 3;
    const int target = (regular || known < 0 || r.chance(1, 2)) ? (int)r.below(3) : known;
    if (rw && (recent < 0 || (weak && target == recent)))
      continue; // a weak one is made steady by the closing, as requested
    const char *how = regular ? "read-only opening" : rw ? "opening for recovery (writeable)" : "opening for recovery";
    int rc;
    if (regular)
      rc = open_env(p, MDBX_RDONLY | (r.chance(1, 3) ? MDBX_EXCLUSIVE : 0), false);
    else {
      rc = API("mdbx_env_create", mdbx_env_create(&p.env));
      if (rc == 0) {
        API("set maxdbs", mdbx_env_set_option(p.env, MDBX_opt_max_db, 16));
        if (r.chance(1, 3))
          API("mdbx_env_set_geometry", mdbx_env_set_geometry(p.env, -1, r.chance(1, 2) ? -1 : (intptr_t)r.range(1, 16) << 18, 64 << 20, 1 << 20, 1 << 20, -1));
        rc = API("mdbx_env_open_for_recovery", mdbx_env_open_for_recovery(p.env, DBPATH, (unsigned)target, rw));
        p.opened = rc == 0;
      } else
        p.env = nullptr;
    }
    trace("inspection: %s, meta %d of %d -> %d", how, target, known, rc);
    logev(0x79, kind, (u64)rc);
    probe(54);
    if (rc == 0) {
      probe(regular ? 55 : rw ? 57 : 56);
      MDBX_txn *txn;
      rc = API("mdbx_txn_begin", mdbx_txn_begin_ex(p.env, nullptr, MDBX_TXN_RDONLY, &txn, nullptr));
      if (rc == 0) {
        const u64 T = mdbx_txn_id(txn);
        MDBX_envinfo ei;
        if (API("mdbx_env_info", mdbx_env_info_ex(p.env, txn, &ei, sizeof ei)) == 0) {
          if (!regular && ei.mi_meta_txnid[target] != T)
            violation("inspection", "%s by meta-page %d with txn %llu gives a snapshot of txn %llu", how, target,
                      (unsigned long long)ei.mi_meta_txnid[target], (unsigned long long)T);
          u64 most = 0;
          for (int n = 0; n < 3; ++n) {
            if (regular && ei.mi_meta_txnid[n] == T && ei.mi_meta_sign[n] > 1)
              known = n;
            if (ei.mi_meta_txnid[n] > most) {
              most = ei.mi_meta_txnid[n];
              recent = n;
              weak = ei.mi_meta_sign[n] <= 1;
            }
          }
        }
        if (regular || target == known) {
          u64 h;
          const bool fe = faults_enabled();
          faults_enable(false);
          SnapP hd = head();
          survived_state(txn, T, how, h);
          faults_enable(fe);
          bool fresh = G.need_recovery; // the effects of those which have been killed within a commit may be seen or not
          for (auto &q : G.hist)
            fresh |= q->seq >= hd->seq && q->hash == h;
          if (!fresh)
            violation("inspection", "%s shows another state (txn %llu) than the last committed one (txn %llu)", how, (unsigned long long)T,
                      (unsigned long long)hd->txnid);
        }
        API("mdbx_txn_abort", mdbx_txn_abort(txn));
        if ((regular || target == known) && r.chance(1, 3) && !faults_enabled())
          check_env(p.env, how);
        if (r.chance(1, 4))
          API("mdbx_env_warmup", mdbx_env_warmup(p.env, nullptr, r.chance(1, 2) ? MDBX_warmup_default : MDBX_warmup_force, 0));
      } else if (regular || target == known)
        fail_ok(rc, "mdbx_txn_begin (inspection)");
    } else if (regular || target == known) {
      const bool virgin = !G.created || (G.need_recovery && G.floor_seq == 0);
      if (!(rc == MDBX_WANNA_RECOVERY && unclean && regular) &&
          !(virgin && (rc == MDBX_INVALID || rc == MDBX_CORRUPTED || rc == MDBX_ENODATA || rc == MDBX_VERSION_MISMATCH)) &&
          !(regular && cur->lck_bad))
        fail_ok(rc, how);
    }
    if (p.env) {
      p.opened = false;
      rc = API("mdbx_env_close", mdbx_env_close_ex(p.env, r.chance(1, 4)));
      if (rc)
        fail_ok(rc, "mdbx_env_close (inspection)");
    }
    const std::vector<u8> after = vfs_content(DBPATH);
    if (after != before) {
      size_t at = 0;
      while (at < before.size() && at < after.size() && before[at] == after[at])
        ++at;
      violation("inspection", "%s has modified the data file: its size was %zu, now %zu, the first difference is at %zu", how, before.size(),
                after.size(), at);
    }
  }
}

static void run_phase(const char *what, std::function<void()> setup, bool faults, bool crashes) {
  faults_enable(faults);
  crashes_enable(crashes);
  setup();
  RunResult rr = run_scheduler();
  cur = nullptr;
  switch (rr) {
  case RUN_DONE:
    return;
  case RUN_DEADLOCK:
    violation("deadlock", "%s: nobody can run: %s", what, describe_tasks().c_str());
  case RUN_CAP:
    // a large run may reach the cap while its calls still return: then it is only cut short
    if (G.rc.cap_is_violation && points_now() - G.last_api_end > G.sc.point_cap / 4)
      violation("livelock", "%s: no call has returned for %llu points: %s", what, (unsigned long long)(points_now() - G.last_api_end), describe_tasks().c_str());
    SH->truncated = 1;
    SH->status = 1;
    _exit(0);
  case RUN_POWERLOSS:
    reboot_after_powerloss();
    G.wproc = nullptr;
    G.need_recovery = true;
    G.boots++;
    return;
  }
}

static u64 total_faults_before_verify;
void harness_run() {
  // the initial history: an empty database
  SnapP s = std::make_shared<Snap>();
  s->seq = 0;
  s->txnid = 0;
  s->hash = s->st.hash();
  G.hist.push_back(s);
  for (int e = 0; e < G.rc.epochs; ++e) {
    run_phase("run", []() {
      Vproc *sv = spawn_process("super", []() { supervisor(); });
      sv->killable = false;
    }, true, true);
    if (!G.need_recovery && G.rc.final_power && hash2(G.seed, e * 7 + 3) % 3 != 0) {
      // cut the power at rest: everything promised must be on the disk
      run_phase("power cut at rest", []() {
        Vproc *sv = spawn_process("power", []() { request_powerloss(); });
        sv->killable = false;
      }, false, false);
    }
    set_quota(0);
    if (G.rc.inspect)
      run_phase("inspection", [e]() { spawn_process("inspect", [e]() { inspector(0x1f00 + e); }); }, hash2(G.seed, e * 13 + 5) % 4 == 0, false);
    for (int guard = 0;; ++guard) {
      // recovery may itself be interrupted
      if (G.need_recovery && CFG.max_powers && guard < 2 && hash2(G.seed, e * 31 + guard) % 3 == 0) {
        run_phase("recovery", []() {
          spawn_process("recover", []() {
            Proc p;
            p.vp = cur->vp;
            int rc = open_recovering(p);
            if (rc == 0) {
              close_env(p, false);
            } else if (faults_fired() == 0)
              violation("recovery", "the database does not open after power loss: %d %s", rc, mdbx_strerror(rc));
          });
        }, false, true);
        continue;
      }
      break;
    }
    run_phase("verification", []() { spawn_process("verify", []() { verifier(); }); }, false, false);
    if (G.need_recovery)
      internal_error("power loss in verification");
    SH->epochs++;
    set_quota(CFG.disk_quota);
  }
}
} // namespace sim
