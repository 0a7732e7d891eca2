// Operations of simulated threads (other than write transactions themselves).
#include "harness.h"
#include <cerrno>
#include <cstdlib>

namespace sim {

static const char *DBPATH = "/db/data.mdbx";

static RTxn *pick_rd(Thr &t, Rng &r, int kind /*0 active,1 parked,2 reset,3 any*/) {
  std::vector<RTxn *> v;
  for (auto &x : t.rd)
    if (x.txn && (kind == 3 || (kind == 0 && !x.parked && !x.reset) || (kind == 1 && x.parked) || (kind == 2 && x.reset)))
      v.push_back(&x);
  return v.empty() ? nullptr : v[r.below(v.size())];
}
static void forget_ended(Thr &t) {
  for (size_t i = 0; i < t.rd.size();)
    if (!t.rd[i].txn) {
      t.rd.erase(t.rd.begin() + i);
      G.rd_ends++;
    } else
      ++i;
}
static bool may_begin(Thr &t) { return G.rc.nosticky ? t.rd.size() < G.rc.max_rd : t.rd.empty(); }
static bool new_reader(Thr &t) {
  if (!may_begin(t))
    return false;
  RTxn x;
  int rc = begin_read(t, x);
  if (rc) {
    fail_ok(rc, "mdbx_txn_begin(RDONLY)");
    return false;
  }
  trace("reader begins at txn %llu", (unsigned long long)x.T);
  t.p->registered = true;
  t.rd.push_back(x);
  return true;
}
static void drop_reader(RTxn &x) {
  int rc = API("mdbx_txn_abort", mdbx_txn_abort(x.txn));
  if (rc)
    fail_ok(rc, "mdbx_txn_abort(reader)");
  x.txn = nullptr;
}
// after the library put the reader onto the current state
static void rebind(RTxn &x, u64 lo, u64 seen, const SnapP &lo_snap, const char *how) {
  if (lo_snap->status == SN_DROPPED)
    lo = 0;
  x.parked = x.reset = false;
  bind_reader(x, lo, seen, how);
}

// ------------------------------------------------------------------------------- parking
static void op_park(Thr &t, Rng &r) {
  RTxn *x = pick_rd(t, r, 0);
  if (!x) {
    if (!new_reader(t))
      return;
    x = &t.rd.back();
  }
  bool a = r.chance(1, 2);
  int rc = API("mdbx_txn_park", mdbx_txn_park(x->txn, a));
  trace("park txn %llu auto=%d -> %d", (unsigned long long)x->T, a, rc);
  if (rc) {
    fail_ok(rc, "mdbx_txn_park");
    return;
  }
  x->parked = true;
  x->autounpark = a;
}
static void op_rdlist(Thr &t, Rng &r);
static void op_unpark(Thr &t, Rng &r) {
  RTxn *x = pick_rd(t, r, 1);
  if (!x)
    return;
  if (r.chance(1, 8)) {
    drop_reader(*x);
    return forget_ended(t);
  }
  if (x->autounpark && r.chance(1, 2) && x->snap && !x->snap->st.t.empty()) {
    // an implicit return to the snapshot by a reading call
    auto it = x->snap->st.t.begin();
    std::advance(it, r.below(x->snap->st.t.size()));
    MDBX_dbi dbi;
    int rc;
    auto h = t.p->handles.find(it->first);
    if (!G.rc.dyn_tables && h != t.p->handles.end() && r.chance(1, 2)) {
      Bytes kb;
      enc_key(it->second->spec, (u32)r.below(it->second->spec.kspace), kb);
      MDBX_val kv = kb.val(), dv = {nullptr, 0};
      switch (it->second->spec.dup() ? r.below(2) * 2 : r.below(3)) {
      case 0: {
        MDBX_stat st;
        rc = API("mdbx_dbi_stat(parked)", mdbx_dbi_stat(x->txn, h->second, &st, sizeof st));
        break;
      }
      case 1:
        rc = API("mdbx_get_equal_or_great(parked)", mdbx_get_equal_or_great(x->txn, h->second, &kv, &dv));
        break;
      default:
        rc = API("mdbx_get(parked)", mdbx_get(x->txn, h->second, &kv, &dv));
      }
      if (rc == MDBX_NOTFOUND || rc == MDBX_RESULT_TRUE)
        rc = MDBX_SUCCESS;
    } else
      rc = open_tab(x->txn, it->first, false, &dbi, true);
    trace("auto-unpark txn %llu -> %d", (unsigned long long)x->T, rc);
    probe(10);
    if (rc == MDBX_OUSTED) {
      probe(11);
      x->parked = false, x->reset = true;
      return;
    }
    if (rc) {
      fail_ok(rc, "use of a parked transaction");
      drop_reader(*x);
      return forget_ended(t);
    }
    x->parked = false;
    check_read(t, *x, r);
    return;
  }
  bool restart = r.chance(1, 2);
  u64 seen = G.seen_txnid;
  SnapP h = head();
  int rc = API("mdbx_txn_unpark", mdbx_txn_unpark(x->txn, restart));
  trace("unpark txn %llu restart=%d -> %d", (unsigned long long)x->T, restart, rc);
  probe(12);
  if (rc == MDBX_SUCCESS) {
    x->parked = false;
    if (mdbx_txn_id(x->txn) != x->T)
      violation("parking", "mdbx_txn_unpark succeeded, but the snapshot changed from txn %llu to %llu", (unsigned long long)x->T,
                (unsigned long long)mdbx_txn_id(x->txn));
    if (r.chance(1, 3)) // a running transaction must hold its snapshot
      op_rdlist(t, r);
    check_read(t, *x, r);
  } else if (rc == MDBX_RESULT_TRUE) {
    probe(13);
    if (!restart)
      violation("parking", "mdbx_txn_unpark restarted an ousted transaction though not asked to");
    rebind(*x, h->txnid, seen, h, "unpark with restart");
    if (r.chance(1, 3))
      op_rdlist(t, r);
    check_read(t, *x, r);
  } else if (rc == MDBX_OUSTED) {
    probe(14);
    x->parked = false;
    x->reset = true;
    if (restart && !faults_fired())
      violation("parking", "mdbx_txn_unpark with restart returned MDBX_OUSTED");
  } else {
    fail_ok(rc, "mdbx_txn_unpark");
    drop_reader(*x);
    forget_ended(t);
  }
}

// ------------------------------------------------------------------------------- clone, refresh, amend
static void op_clone(Thr &t, Rng &r) {
  if (!G.rc.nosticky || t.rd.size() >= G.rc.max_rd + 1)
    return;
  RTxn *x = pick_rd(t, r, r.chance(1, 6) ? 1 : 0);
  if (!x) {
    new_reader(t);
    return;
  }
  bool was_parked = x->parked;
  RTxn y;
  RTxn *old = pick_rd(t, r, 2);
  bool reuse = old && r.chance(1, 2);
  MDBX_txn *h = reuse ? old->txn : nullptr;
  int rc = API("mdbx_txn_clone", mdbx_txn_clone(x->txn, &h, nullptr));
  trace("clone txn %llu parked=%d reuse=%d -> %d", (unsigned long long)x->T, was_parked, reuse, rc);
  probe(15);
  if (rc) {
    if (was_parked && (rc == MDBX_OUSTED || rc == MDBX_MVCC_RETARDED || rc == MDBX_BAD_TXN || rc == MDBX_EACCESS))
      return;
    fail_ok(rc, "mdbx_txn_clone");
    return;
  }
  RTxn &z = reuse ? *old : y;
  z.txn = h;
  z.T = x->T;
  z.snap = x->snap;
  z.reset = false;
  z.parked = false;
  z.begun_ns = now_ns();
  if (was_parked) {
    // the state of the clone of a parked transaction follows its flags
    z.parked = (mdbx_txn_flags(h) & MDBX_TXN_PARKED) != 0;
    z.autounpark = (mdbx_txn_flags(h) & MDBX_TXN_AUTOUNPARK) != 0;
  }
  if (!z.parked) {
    if (mdbx_txn_id(h) != x->T)
      violation("clone", "the clone of txn %llu reads txn %llu", (unsigned long long)x->T, (unsigned long long)mdbx_txn_id(h));
    check_read(t, z, r);
  }
  if (!reuse)
    t.rd.push_back(y);
}
static void op_refresh(Thr &t, Rng &r) {
  RTxn *x = pick_rd(t, r, 0);
  if (!x) {
    new_reader(t);
    return;
  }
  SnapP h = head();
  u64 lo = h->txnid, seen = G.seen_txnid;
  int rc = API("mdbx_txn_refresh", mdbx_txn_refresh(x->txn));
  trace("refresh txn %llu -> %d", (unsigned long long)x->T, rc);
  probe(16);
  if (rc == MDBX_RESULT_TRUE) {
    if (h->status == SN_DROPPED)
      lo = 0;
    if (mdbx_txn_id(x->txn) != x->T)
      violation("refresh", "mdbx_txn_refresh reports no change, but the snapshot moved");
    if (x->T < lo)
      violation("refresh", "mdbx_txn_refresh reports txn %llu as the most recent, but txn %llu had been committed",
                (unsigned long long)x->T, (unsigned long long)lo);
    check_read(t, *x, r);
    return;
  }
  if (rc == MDBX_SUCCESS) {
    u64 old = x->T;
    rebind(*x, lo, seen, h, "refresh");
    if (x->T < old || (x->T == old && G.boots == 0))
      violation("refresh", "mdbx_txn_refresh moved from txn %llu to %llu", (unsigned long long)old, (unsigned long long)x->T);
    check_read(t, *x, r);
    return;
  }
  fail_ok(rc, "mdbx_txn_refresh");
  drop_reader(*x);
  forget_ended(t);
}
static void op_amend(Thr &t, Rng &r, u64 opid) {
  if (t.p->ro)
    return;
  RTxn *x = pick_rd(t, r, 0);
  if (!x) {
    if (!new_reader(t))
      return;
    x = &t.rd.back();
  }
  if (!G.rc.nosticky && t.rd.size() > 1)
    return;
  unsigned f = 0;
  bool keep = r.chance(1, 3), tr = r.chance(1, 3);
  if (keep)
    f |= MDBX_TXN_RDONLY_PREPARE;
  if (tr)
    f |= MDBX_TXN_TRY;
  WTxn w;
  w.t = &t;
  w.opid = opid;
  if (G.rc.weak_txn_pct && r.below(100) < G.rc.weak_txn_pct)
    w.flags = r.chance(1, 2) ? MDBX_TXN_NOSYNC : MDBX_TXN_NOMETASYNC;
  SnapP snap = x->snap;
  u64 T = x->T;
  int rc = API("mdbx_txn_amend", mdbx_txn_amend(x->txn, &w.txn, (MDBX_txn_flags_t)(f | w.flags), nullptr));
  trace("amend txn %llu flags %x -> %d", (unsigned long long)T, f, rc);
  probe(17);
  if (rc == MDBX_SUCCESS) {
    probe(18);
    if (keep)
      x->reset = true;
    else
      x->txn = nullptr;
    forget_ended(t);
    // (x is invalid from here on)
    if (writer_begun(w, "amend")) {
      if (snap && snap->status != SN_DROPPED && w.base->hash != snap->hash)
        violation("amend", "mdbx_txn_amend of txn %llu started a write transaction with another base (txn %llu): %s", (unsigned long long)T,
                  (unsigned long long)w.base->txnid, diff_state(snap->st, w.base->st).c_str());
      if (snap && r.chance(1, 2))
        expect_state(w.txn, w.cur, "amend", "writer started by amend", w.id);
      run_steps(w, r, opid);
    }
    finish_write(w, r);
    return;
  }
  if (rc == MDBX_RESULT_TRUE) {
    // something newer has to exist, and the reader is untouched, unless it was ousted while waiting for the lock
    if (!tr && (mdbx_txn_flags(x->txn) & MDBX_TXN_FINISHED)) {
      if (!(mdbx_txn_flags(x->txn) & MDBX_TXN_OUSTED))
        violation("amend", "mdbx_txn_amend returned MDBX_RESULT_TRUE but finished the reader");
      probe(19);
      x->reset = true;
      return;
    }
    if (mdbx_txn_flags(x->txn) & MDBX_TXN_PARKED)
      violation("amend", "mdbx_txn_amend returned MDBX_RESULT_TRUE but left the reader parked");
    if (mdbx_txn_id(x->txn) != T)
      violation("amend", "mdbx_txn_amend returned MDBX_RESULT_TRUE but touched the reader");
    check_read(t, *x, r);
    if (G.rc.nosticky && t.rd.size() < 6) {
      RTxn y;
      rc = begin_read(t, y);
      if (rc == 0) {
        if (y.T == T)
          violation("amend", "mdbx_txn_amend refused txn %llu as outdated, but it is the most recent", (unsigned long long)T);
        drop_reader(y);
      } else
        fail_ok(rc, "mdbx_txn_begin");
    }
    return;
  }
  if (rc == MDBX_BUSY && tr)
    return;
  fail_ok(rc, "mdbx_txn_amend");
  // the reader has to be still usable or at least abortable
  drop_reader(*x);
  forget_ended(t);
  if (rc == MDBX_PANIC)
    t.p->panic = true;
}

// ------------------------------------------------------------------------------- reader table
struct RdList {
  struct E {
    mdbx_pid_t pid;
    mdbx_tid_t tid;
    u64 txnid;
    size_t used;
  };
  std::vector<E> v;
};
static int rdlist_cb(void *ctx, int, int, mdbx_pid_t pid, mdbx_tid_t tid, uint64_t txnid, uint64_t, size_t used, size_t) noexcept {
  ((RdList *)ctx)->v.push_back({pid, tid, txnid, used});
  return 0;
}
static void op_rdlist(Thr &t, Rng &r) {
  (void)r;
  RdList l;
  auto own = [&]() {
    std::map<Thr *, size_t> m;
    for (Thr *o : t.p->thrs)
      m[o] = o->rd.size() + 3;
    return m;
  };
  auto before = own();
  const bool registered = t.p->registered;
  int rc = API("mdbx_reader_list", mdbx_reader_list(t.p->env, rdlist_cb, &l));
  if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE) {
    fail_ok(rc, "mdbx_reader_list");
    return;
  }
  // neither more slots are taken by this process than it has readers
  size_t mine = 0, cap = 3 + (size_t)(G.rd_ends - cur->api_ends); // readers may have moved during the walk
  for (auto &e : l.v)
    mine += (u64)e.pid == (u64)cur->vp->pid;
  for (auto &o : own()) {
    auto it = before.find(o.first);
    cap += std::max(o.second, it == before.end() ? 0 : it->second);
    before.erase(o.first);
  }
  for (auto &o : before)
    cap += o.second;
  if (mine > cap && registered)
    violation("reader-table", "%zu slots are taken by this process, which has at most %zu read transactions", mine, cap);
  // every running reader of this thread must hold its slot
  std::vector<bool> used(l.v.size());
  for (auto &x : t.rd) {
    if (!x.txn || x.reset || x.parked)
      continue;
    bool found = false;
    for (size_t i = 0; i < l.v.size() && !found; ++i)
      if (!used[i] && (u64)l.v[i].pid == (u64)cur->vp->pid && l.v[i].txnid == x.T) {
        MDBX_txn_info ti;
        if (mdbx_txn_info(x.txn, &ti, false) == 0 && ti.txn_space_used != l.v[i].used)
          continue;
        found = used[i] = true;
      }
    if (!found)
      violation("reader-table", "a running read transaction of txn %llu is not in the reader table (%zu entries)", (unsigned long long)x.T,
                l.v.size());
  }
}
static void op_rdcheck(Thr &t, Rng &r) {
  (void)r;
  int dead = -1;
  std::set<u64> gone;
  for (Proc *q : G.procs)
    if (q->vp && !q->vp->alive)
      gone.insert((u64)q->vp->pid);
  const auto live = [&](size_t since) { // a pid may be used again
    for (size_t i = 0; i < G.procs.size(); ++i)
      if (G.procs[i]->vp && (G.procs[i]->vp->alive || i >= since))
        gone.erase((u64)G.procs[i]->vp->pid);
    return G.procs.size();
  };
  const size_t nprocs = live(G.procs.size());
  int rc = API("mdbx_reader_check", mdbx_reader_check(t.p->env, &dead));
  trace("reader_check -> %d, dead %d", rc, dead);
  if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE) {
    fail_ok(rc, "mdbx_reader_check");
    return;
  }
  if (dead > 0)
    probe(20, dead);
  if (dead > 0 && SH->kills == 0 && SH->faults[F_EXIT_NOCLOSE] == 0 && SH->powerlosses == 0)
    violation("reader-table", "mdbx_reader_check removed %d readers as dead, but no process died", dead);
  for (auto &x : t.rd)
    if (x.txn && !x.reset && !x.parked && mdbx_txn_id(x.txn) != x.T)
      violation("reader-table", "mdbx_reader_check affected a live reader");
  if (gone.empty() || faults_fired())
    return;
  RdList l;
  if (API("mdbx_reader_list", mdbx_reader_list(t.p->env, rdlist_cb, &l)) > 0)
    return;
  live(nprocs);
  probe(50);
  for (auto &e : l.v)
    if (gone.count((u64)e.pid))
      violation("reader-table", "a slot of dead process %llu (txn %llu) is still taken after mdbx_reader_check", (unsigned long long)e.pid,
                (unsigned long long)e.txnid);
}
static void op_txninfo(Thr &t, Rng &r) {
  RTxn *x = pick_rd(t, r, 0);
  if (!x)
    return;
  MDBX_txn_info i;
  memset(&i, 0, sizeof i);
  SnapP h = head();
  int rc = API("mdbx_txn_info", mdbx_txn_info(x->txn, &i, r.chance(1, 2)));
  if (rc) {
    fail_ok(rc, "mdbx_txn_info");
    return;
  }
  if (i.txn_id != x->T)
    violation("info", "mdbx_txn_info gives txn %llu instead of %llu", (unsigned long long)i.txn_id, (unsigned long long)x->T);
  if (h->status != SN_DROPPED && x->T + i.txn_reader_lag < h->txnid)
    violation("info", "mdbx_txn_info gives lag %llu for txn %llu though txn %llu had been committed", (unsigned long long)i.txn_reader_lag,
              (unsigned long long)x->T, (unsigned long long)h->txnid);
}
static void op_info(Thr &t, Rng &r) {
  MDBX_envinfo i;
  memset(&i, 0, sizeof i);
  SnapP h = head();
  RTxn *x = r.chance(1, 2) ? pick_rd(t, r, 0) : nullptr;
  int rc = API("mdbx_env_info", mdbx_env_info_ex(x ? nullptr : t.p->env, x ? x->txn : nullptr, &i, sizeof i));
  if (rc) {
    fail_ok(rc, "mdbx_env_info");
    return;
  }
  if (!x && h->status == SN_COMMITTED && !h->failed && i.mi_recent_txnid < h->txnid)
    violation("info", "mdbx_env_info gives txn %llu as the recent one, but txn %llu had been committed", (unsigned long long)i.mi_recent_txnid,
              (unsigned long long)h->txnid);
  if (!x /* for a transaction the limits may be of a newer snapshot */ && (i.mi_geo.current > i.mi_geo.upper || i.mi_geo.current < i.mi_geo.lower))
    violation("geometry", "the size %llu is outside of the limits %llu..%llu", (unsigned long long)i.mi_geo.current,
              (unsigned long long)i.mi_geo.lower, (unsigned long long)i.mi_geo.upper);
  if ((i.mi_last_pgno + 1) * i.mi_dxb_pagesize > i.mi_geo.current && !x)
    violation("geometry", "the last page %llu is behind the end of the data file of %llu bytes", (unsigned long long)i.mi_last_pgno,
              (unsigned long long)i.mi_geo.current);
  // at opening the size is rounded up to the allocation granularity (64K)
  if (vfs_size(DBPATH) > (i.mi_geo.upper + 65535) / 65536 * 65536 && !G.geom_changed)
    violation("geometry", "the data file has %llu bytes, more than the upper limit of %llu", (unsigned long long)vfs_size(DBPATH),
              (unsigned long long)i.mi_geo.upper);
  for (auto &y : t.rd)
    if (y.txn && !y.reset && !y.parked && i.mi_latter_reader_txnid > y.T)
      violation("info", "mdbx_env_info gives txn %llu as the oldest used one, but this thread reads txn %llu",
                (unsigned long long)i.mi_latter_reader_txnid, (unsigned long long)y.T);
  MDBX_stat st;
  if (G.rc.nosticky || t.rd.empty() || x) { // without a transaction it starts one of its own
    rc = API("mdbx_env_stat", mdbx_env_stat_ex(x ? nullptr : t.p->env, x ? x->txn : nullptr, &st, sizeof st));
    if (rc)
      fail_ok(rc, "mdbx_env_stat");
  }
  if (r.chance(1, 4)) {
    MDBX_envinfo pi;
    rc = API("mdbx_preopen_snapinfo", mdbx_preopen_snapinfo(DBPATH, &pi, sizeof pi));
    if (rc)
      trace("preopen_snapinfo -> %d", rc);
  }
}

// ------------------------------------------------------------------------------- geometry
static void op_geom(Thr &t, Rng &r) {
  if (t.p->ro)
    return;
  const RunCfg &c = G.rc;
  intptr_t lower = -1, now = -1, upper = -1, grow = -1, shrink = -1;
  u64 pg = c.ps;
  u64 cap = c.gupper;
  if (r.chance(1, 3))
    lower = (intptr_t)(pg * r.logu(4, 64));
  if (r.chance(1, 2))
    upper = (intptr_t)std::min<u64>(cap, std::max<u64>(pg * 64, cap / (1ull << r.below(4))));
  if (r.chance(1, 3))
    now = (intptr_t)(pg * r.logu(8, std::min<u64>(cap, 32u << 20) / pg)); // the simulator keeps whole files in memory
  if (r.chance(1, 3))
    grow = (intptr_t)(pg * r.logu(1, 64));
  if (r.chance(1, 3))
    shrink = (intptr_t)(pg * r.logu(1, 128));
  if (r.chance(1, 8))
    shrink = 0;
  if (lower > 0 && upper > 0 && lower > upper)
    lower = upper;
  if (now > 0 && upper > 0 && now > upper)
    now = upper;
  if (now > 0 && lower > 0 && now < lower)
    now = lower;
  G.geom_changed = true;
  G.maint++;
  int rc = API("mdbx_env_set_geometry", mdbx_env_set_geometry(t.p->env, lower, now, upper, grow, shrink, -1));
  trace("set_geometry %zd %zd %zd %zd %zd -> %d", lower, now, upper, grow, shrink, rc);
  probe(21);
  if (rc == MDBX_EINVAL || rc == MDBX_TOO_LARGE || rc == MDBX_MAP_FULL || rc == MDBX_EPERM || rc == MDBX_UNABLE_EXTEND_MAPSIZE) {
    probe(22);
    return; // limits which do not fit are refused
  }
  if (rc == MDBX_RESULT_TRUE || rc == MDBX_BUSY)
    return;
  if (rc) {
    fail_ok(rc, "mdbx_env_set_geometry");
    return;
  }
}

// ------------------------------------------------------------------------------- backups
static int copy_counter;
static void verify_copy(Thr &t, const std::string &path, SnapP lo, bool lo_valid, RTxn *src, unsigned flags, u64 size_bound) {
  MDBX_env *env;
  (void)size_bound;
  int rc = API("mdbx_env_create(copy)", mdbx_env_create(&env));
  if (rc) {
    fail_ok(rc, "mdbx_env_create");
    return;
  }
  auto bad = [&](int e, const char *what) {
    if (e && e != MDBX_CORRUPTED && e != MDBX_INVALID && e != MDBX_VERSION_MISMATCH && e != MDBX_PAGE_NOTFOUND && e != MDBX_WANNA_RECOVERY &&
        faults_fired() && faults_enabled()) {
      trace("tolerated: copy: %s: %d", what, e);
      return;
    }
    violation("copy", "the copy (flags 0x%x): %s: %d %s", flags, what, e, mdbx_strerror(e));
  };
  rc = API("set max_db", mdbx_env_set_option(env, MDBX_opt_max_db, 16));
  if (!rc)
    rc = API("mdbx_env_open(copy)", mdbx_env_open(env, path.c_str(), (MDBX_env_flags_t)(MDBX_NOSUBDIR | MDBX_RDONLY | MDBX_EXCLUSIVE | (G.rc.nosticky ? MDBX_NOSTICKYTHREADS : 0)), 0));
  if (rc) {
    bad(rc, "mdbx_env_open");
    API("mdbx_env_close(copy)", mdbx_env_close_ex(env, true));
    return;
  }
  MDBX_txn *txn;
  rc = API("mdbx_txn_begin(copy)", mdbx_txn_begin_ex(env, nullptr, MDBX_TXN_RDONLY, &txn, nullptr));
  if (rc) {
    bad(rc, "mdbx_txn_begin");
    API("mdbx_env_close(copy)", mdbx_env_close_ex(env, true));
    return;
  }
  State got;
  std::string why;
  if (!read_state(txn, got, why, rc)) {
    if (rc == MDBX_RESULT_TRUE)
      violation("copy", "the copy (flags 0x%x): %s", flags, why.c_str());
    bad(rc, why.c_str());
  } else {
    u64 h = got.hash();
    bool ok = false, older = false;
    if (src)
      ok = src->snap && src->snap->hash == h;
    else
      for (auto &s : G.hist)
        if (s->hash == h) {
          if (!lo_valid || s->seq >= lo->seq)
            ok = true;
          else
            older = true;
        }
    if (lo_valid && !src && lo->hash == h)
      ok = true;
    if (src && !src->snap)
      ok = true;
    if (!ok)
      violation("copy", "the copy (flags 0x%x) %s: %s", flags,
                older ? "is older than the state committed before it began" : src ? "differs from the snapshot of its transaction" : "is not any committed state",
                diff_state(src ? src->snap->st : lo->st, got).c_str());
  }
  API("mdbx_txn_abort(copy)", mdbx_txn_abort(txn));
  check_env(env, "copy");
  rc = API("mdbx_env_close(copy)", mdbx_env_close_ex(env, true));
  (void)t;
}
static void op_copy(Thr &t, Rng &r) {
  char name[64];
  snprintf(name, sizeof name, "/tmp/copy%d", ++copy_counter);
  std::string path = name;
  unsigned f = 0;
  if (r.chance(1, 2))
    f |= MDBX_CP_COMPACT;
  if (r.chance(1, 4))
    f |= MDBX_CP_FORCE_DYNAMIC_SIZE;
  bool dont_flush = r.chance(1, 4);
  if (dont_flush)
    f |= MDBX_CP_DONT_FLUSH;
  if (r.chance(1, 4))
    f |= MDBX_CP_THROTTLE_MVCC;
  unsigned how = (unsigned)r.below(4);
  RTxn *x = pick_rd(t, r, 0);
  if (!x && (how & 1)) {
    if (!new_reader(t))
      how &= ~1u;
    else
      x = &t.rd.back();
  }
  if (!G.rc.nosticky && !(how & 1) && !t.rd.empty()) {
    // the environment-level functions start a reader of their own
    if (!x)
      return;
    how |= 1;
  }
  int fd = -1;
  SnapP lo = head();
  int rc;
  u64 parked_f = f & MDBX_CP_THROTTLE_MVCC;
  if (how & 2) {
    fd = vfs_open_stream(name);
    if (fd < 0)
      return;
    rc = how & 1 ? API("mdbx_txn_copy2fd", mdbx_txn_copy2fd(x->txn, fd, (MDBX_copy_flags_t)f))
                 : API("mdbx_env_copy2fd", mdbx_env_copy2fd(t.p->env, fd, (MDBX_copy_flags_t)f));
  } else
    rc = how & 1 ? API("mdbx_txn_copy2pathname", mdbx_txn_copy2pathname(x->txn, name, (MDBX_copy_flags_t)f))
                 : API("mdbx_env_copy", mdbx_env_copy(t.p->env, name, (MDBX_copy_flags_t)f));
  trace("copy flags %x how %u -> %d", f, how, rc);
  probe(23);
  if (rc == 0)
    probe(24);
  if (fd >= 0)
    vfs_close_fd(fd);
  G.copies++;
  if (rc == MDBX_OUSTED && parked_f) {
    probe(25);
    if (how & 1) {
      x->reset = true;
    }
    rc = 0;
    vfs_remove(name);
    return;
  }
  if (rc) {
    fail_ok(rc, "copying");
    vfs_remove(name);
    if ((how & 1) && x) {
      drop_reader(*x);
      forget_ended(t);
    }
    return;
  }
  if ((how & 1) && parked_f) { // such copying leaves the transaction parked
    x->parked = x->autounpark = true;
    if (mdbx_txn_flags(x->txn) & MDBX_TXN_FINISHED)
      x->parked = false, x->reset = true;
  }
  if ((how & 1) && !parked_f && mdbx_txn_id(x->txn) != x->T)
    violation("copy", "copying by a transaction moved it from txn %llu to %llu", (unsigned long long)x->T, (unsigned long long)mdbx_txn_id(x->txn));
  verify_copy(t, path, lo, lo->status != SN_DROPPED, how & 1 ? x : nullptr, f, 0);
  vfs_remove(name);
  vfs_remove((path + "-lck").c_str());
  if ((how & 1) && !parked_f)
    check_read(t, *x, r);
}

// ------------------------------------------------------------------------------- defragmentation
static int defrag_cb(void *ctx, const MDBX_defrag_result_t *p) noexcept {
  u64 *s = (u64 *)ctx;
  (void)p;
  if (*s == 0)
    return 0;
  if (--*s == 0)
    return 1;
  return 0;
}
static void op_defrag(Thr &t, Rng &r) {
  if (t.p->ro || (!G.rc.nosticky && !t.rd.empty()))
    return;
  MDBX_defrag_result_t res;
  memset(&res, 0, sizeof res);
  u64 stop = r.chance(1, 4) ? r.range(1, 20) : 0;
  size_t batch = r.chance(1, 2) ? 0 : r.logu(1, 64);
  size_t enough = r.chance(1, 3) ? r.logu(1, 50) : 0;
  size_t tl = r.chance(1, 4) ? r.logu(1, 65536) : 0;
  int others = 0; // running defragmentations, besides those of the dead
  for (Proc *q : G.procs)
    if (q->vp && q->vp->alive)
      others += q->defrags;
  t.p->defrags++;
  const u64 acq = G.wacq, maint = ++G.maint, kills = SH->kills;
  int rc = API("mdbx_env_defrag", mdbx_env_defrag(t.p->env, 0, 0, enough, tl, r.chance(1, 2) ? -1 : (intptr_t)r.below(8), batch, defrag_cb, &stop, &res));
  t.p->defrags--;
  trace("defrag -> %d: shrinked %zd moved %zu cycles %u reasons %x", rc, (ssize_t)res.pages_shrinked, res.pages_moved, res.cycles,
        res.stopping_reasons);
  probe(26);
  if (rc == MDBX_SUCCESS || rc == MDBX_RESULT_TRUE || rc == MDBX_LAGGARD_READER) {
    if (res.pages_moved)
      probe(27);
    // the report must agree with the database, unless someone else changed it meanwhile
    MDBX_envinfo inf;
    if (API("mdbx_env_info_ex", mdbx_env_info_ex(t.p->env, nullptr, &inf, sizeof inf)) == MDBX_SUCCESS && !others && G.wacq == acq && G.maint == maint &&
        SH->kills == kills) {
      const u64 now = inf.mi_last_pgno + 1, said = res.pages_whole - res.pages_shrinked;
      trace("defrag: whole %zu now %llu said %llu", res.pages_whole, (unsigned long long)now, (unsigned long long)said);
      probe(51);
      if (now != said)
        violation("defrag", "mdbx_env_defrag reported %zu pages before and %zd released, but %llu pages are in use (returned %d, cycles %u, reasons %x)",
                  res.pages_whole, (ssize_t)res.pages_shrinked, (unsigned long long)now, rc, res.cycles, res.stopping_reasons);
      if (now > res.pages_whole + (rc == MDBX_SUCCESS ? 0 : 16 + res.pages_whole / 64)) // a stopped one may spend some pages for bookkeeping
        violation("defrag", "the database grew from %zu to %llu pages by mdbx_env_defrag (returned %d, cycles %u, reasons %x)", res.pages_whole,
                  (unsigned long long)now, rc, res.cycles, res.stopping_reasons);
    }
    return;
  }
  if (rc == MDBX_BUSY)
    return;
  fail_ok(rc, "mdbx_env_defrag");
  if (rc == MDBX_PANIC)
    t.p->panic = true;
}

// ------------------------------------------------------------------------------- cached gets
void cache_probe(Thr &t, MDBX_txn *txn, const State &st, Rng &r, bool writer, u64 T) {
  if (st.t.empty() || !G.rc.use_cache)
    return;
  Proc &p = *t.p;
  if (p.cache.empty()) {
    p.cache.resize(12);
    Rng q(hash2(G.seed, 31337));
    for (auto &c : p.cache) {
      memset((void *)&c.e, 0, sizeof c.e);
      c.ti = q.below(G.specs.size());
      c.k = (u32)q.below(G.specs[c.ti].kspace);
    }
  }
  // keys drawn from a small common set so that entries meet every kind of history
  for (int n = (int)r.range(1, 4); n--;) {
    auto &c = p.cache[r.below(p.cache.size())];
    const TabSpec &s0 = G.specs[c.ti];
    auto it = st.t.find(s0.name);
    if (it == st.t.end())
      continue;
    const Table &tb = *it->second;
    MDBX_dbi dbi;
    int rc = open_tab(txn, s0.name, false, &dbi);
    if (rc) {
      fail_ok(rc, "mdbx_dbi_open");
      return;
    }
    Bytes kb;
    enc_key(s0, c.k, kb);
    MDBX_val kv = kb.val(), dv{nullptr, 0};
    bool single = G.rc.threads == 1 && r.chance(1, 2);
    u64 fo = faults_fired();
    MDBX_cache_result_t res = single ? API("mdbx_cache_get_SingleThreaded", mdbx_cache_get_SingleThreaded(txn, dbi, &kv, &dv, &c.e))
                                     : API("mdbx_cache_get", mdbx_cache_get(txn, dbi, &kv, &dv, &c.e));
    probe(100 + (u32)(res.status + 3));
    size_t i = tb.lower(c.k);
    bool has = i < tb.v.size() && tb.v[i].k == c.k;
    if (res.status == MDBX_CACHE_ERROR || (res.errcode != MDBX_SUCCESS && res.errcode != MDBX_NOTFOUND)) {
      if (s0.dup() && res.errcode == MDBX_INCOMPATIBLE)
        continue;
      if (s0.dup() && res.errcode == MDBX_EMULTIVAL)
        continue;
      (void)fo;
      fail_ok(res.errcode ? (int)res.errcode : (int)MDBX_PROBLEM, "mdbx_cache_get");
      continue;
    }
    if (s0.dup() && has) {
      // the first value of the key
    }
    if (res.errcode == MDBX_NOTFOUND) {
      if (has)
        violation("cache", "mdbx_cache_get (status %d) does not find key %u of %s in txn %llu", (int)res.status, c.k, s0.name.c_str(),
                  (unsigned long long)T);
      continue;
    }
    Ent e;
    if (!has)
      violation("cache", "mdbx_cache_get (status %d) finds the absent key %u of %s in txn %llu", (int)res.status, c.k, s0.name.c_str(),
                (unsigned long long)T);
    if (!decode(s0, kv, dv, e) || !(e == tb.v[i])) {
      // a cached value must be equal to a plain one
      violation("cache", "mdbx_cache_get (status %d) gives a wrong value of key %u of %s in txn %llu: %zu bytes instead of %u%s", (int)res.status,
                c.k, s0.name.c_str(), (unsigned long long)T, dv.iov_len, tb.v[i].len, writer ? " (write transaction)" : "");
    }
    if (writer && res.status == MDBX_CACHE_REFRESHED) {
    }
  }
}

// ------------------------------------------------------------------------------- misuse
struct MisuseCtx {
  Thr *t;
  MDBX_txn *txn;
  bool writer;
  u64 seed;
  bool done;
  bool breaks; // the transaction may have been broken
};
static void expect_rc(int rc, std::initializer_list<int> want, const char *what) {
  for (int x : want)
    if (rc == x)
      return;
  if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE && rc != MDBX_CORRUPTED && faults_fired())
    return;
  violation("misuse", "%s returned %d (%s), expected %d", what, rc, mdbx_strerror(rc), *want.begin());
}
// calls with somebody else's transaction
static void foreign_calls(MisuseCtx *m) {
  Rng r(m->seed);
  Thr &t = *m->t;
  const int TM = MDBX_THREAD_MISMATCH;
  MDBX_txn *txn = m->txn;
  const bool sticky = !G.rc.nosticky;
  for (int n = (int)r.range(1, 4); n--;) {
    MDBX_dbi dbi = 2;
    u8 key[8] = {0}, val[8] = {0};
    MDBX_val kv{key, 8}, dv{val, 8};
    if (m->writer) {
      // Finishing is bound to the thread in both modes. When transactions aren't bound to threads, an attempt to finish one
      // by another thread is refused as well, but the transaction is broken deliberately: it can only be aborted then.
      const int TB = sticky ? TM : MDBX_BAD_TXN;
      switch (sticky ? r.below(14) : r.below(5)) {
      case 0:
        expect_rc(API("mdbx_txn_commit(foreign)", mdbx_txn_commit(txn)), {TM, TB}, "mdbx_txn_commit of a write transaction of another thread");
        m->breaks |= !sticky;
        break;
      case 1:
        expect_rc(API("mdbx_txn_abort(foreign)", mdbx_txn_abort(txn)), {TM, TB}, "mdbx_txn_abort of a write transaction of another thread");
        m->breaks |= !sticky;
        break;
      case 2:
        expect_rc(API("mdbx_txn_checkpoint(foreign)", mdbx_txn_checkpoint(txn, (MDBX_txn_flags_t)0, nullptr)), {TM, TB},
                  "mdbx_txn_checkpoint of a write transaction of another thread");
        m->breaks |= !sticky;
        break;
      case 3:
        expect_rc(API("mdbx_env_close(foreign)", mdbx_env_close_ex(t.p->env, r.chance(1, 2))), {MDBX_BUSY},
                  "mdbx_env_close while another thread runs a write transaction");
        break;
      case 4: {
        MDBX_txn *x = nullptr;
        int rc = API("mdbx_txn_begin(foreign try)", mdbx_txn_begin_ex(t.p->env, nullptr, MDBX_TXN_TRY, &x, nullptr));
        expect_rc(rc, {MDBX_BUSY}, "a write transaction begun in the try mode while another thread runs one");
        break;
      }
      case 12:
        expect_rc(API("mdbx_txn_rollback(foreign)", mdbx_txn_rollback(txn)), {TM}, "mdbx_txn_rollback of a write transaction of another thread");
        break;
      case 13:
        expect_rc(API("mdbx_put(foreign)", mdbx_put(txn, dbi, &kv, &dv, MDBX_UPSERT)), {TM}, "mdbx_put by another thread");
        break;
      case 5:
        expect_rc(API("mdbx_del(foreign)", mdbx_del(txn, dbi, &kv, nullptr)), {TM}, "mdbx_del by another thread");
        break;
      case 6:
        expect_rc(API("mdbx_get(foreign)", mdbx_get(txn, dbi, &kv, &dv)), {TM}, "mdbx_get by another thread");
        break;
      case 7: {
        MDBX_cursor *c = nullptr;
        expect_rc(API("mdbx_cursor_open(foreign)", mdbx_cursor_open(txn, dbi, &c)), {TM}, "mdbx_cursor_open by another thread");
        break;
      }
      case 8:
        expect_rc(API("mdbx_dbi_open(foreign)", mdbx_dbi_open(txn, "t0a", MDBX_DB_ACCEDE, &dbi)), {TM}, "mdbx_dbi_open by another thread");
        break;
      case 9:
        expect_rc(API("mdbx_drop(foreign)", mdbx_drop(txn, dbi, r.chance(1, 2))), {TM}, "mdbx_drop by another thread");
        break;
      case 10: {
        uint64_t s;
        expect_rc(API("mdbx_dbi_sequence(foreign)", mdbx_dbi_sequence(txn, dbi, &s, 1)), {TM}, "mdbx_dbi_sequence by another thread");
        break;
      }
      case 11: {
        MDBX_txn *c = nullptr;
        int rc = API("mdbx_txn_begin(foreign parent)", mdbx_txn_begin_ex(t.p->env, txn, MDBX_TXN_READWRITE, &c, nullptr));
        expect_rc(rc, {TM, MDBX_INCOMPATIBLE}, "a nested transaction begun by another thread");
        break;
      }
      }
    } else if (sticky) {
      switch (r.below(6)) {
      case 0:
        expect_rc(API("mdbx_get(foreign)", mdbx_get(txn, dbi, &kv, &dv)), {TM}, "mdbx_get with a reader of another thread");
        break;
      case 1: {
        MDBX_cursor *c = nullptr;
        expect_rc(API("mdbx_cursor_open(foreign)", mdbx_cursor_open(txn, dbi, &c)), {TM}, "mdbx_cursor_open with a reader of another thread");
        break;
      }
      case 2:
        expect_rc(API("mdbx_dbi_open(foreign)", mdbx_dbi_open(txn, "t0a", MDBX_DB_ACCEDE, &dbi)), {TM}, "mdbx_dbi_open with a reader of another thread");
        break;
      case 3:
        expect_rc(API("mdbx_txn_park(foreign)", mdbx_txn_park(txn, false)), {TM}, "mdbx_txn_park with a reader of another thread");
        break;
      case 4:
        expect_rc(API("mdbx_txn_commit(foreign)", mdbx_txn_commit(txn)), {TM}, "mdbx_txn_commit with a reader of another thread");
        break;
      case 5:
        expect_rc(API("mdbx_txn_reset(foreign)", mdbx_txn_reset(txn)), {TM}, "mdbx_txn_reset with a reader of another thread");
        break;
      }
    } else {
      // allowed: use by another thread, one at a time
      uint64_t id = mdbx_txn_id(txn);
      if (!id)
        violation("misuse", "mdbx_txn_id gives zero for a running transaction");
    }
  }
  m->done = true;
}
static bool foreign(Thr &t, MDBX_txn *txn, bool writer, Rng &r) {
  MisuseCtx m{&t, txn, writer, r.next(), false, false};
  Task *h = spawn_task(cur->vp, [&m]() { foreign_calls(&m); }, "foreign");
  wait_until([](void *a) { return task_done((Task *)a); }, h);
  probe(30);
  return m.breaks;
}
void bad_step(WTxn &w, Rng &r) {
  // calls which must be refused and must not change anything
  Thr &t = *w.t;
  if (w.cur.t.empty())
    return;
  auto it = w.cur.t.begin();
  std::advance(it, r.below(w.cur.t.size()));
  const Table &tb = *it->second;
  MDBX_dbi dbi;
  int rc = open_tab(w.txn, it->first, false, &dbi);
  if (rc) {
    fail_ok(rc, "mdbx_dbi_open");
    w.broken = true;
    return;
  }
  u8 big[70000];
  memset(big, 7, sizeof big);
  u8 small[8] = {1, 2, 3, 4, 5, 6, 7, 8};
  MDBX_val kv{small, 8}, dv{small, 8};
  u64 gone = SH->ops;
  (void)gone;
  switch (r.below(15)) {
  case 0: {
    kv.iov_base = big, kv.iov_len = sizeof big;
    rc = API("mdbx_put(huge key)", mdbx_put(w.txn, dbi, &kv, &dv, MDBX_UPSERT));
    expect_rc(rc, {MDBX_BAD_VALSIZE}, "mdbx_put with an oversized key");
    break;
  }
  case 1:
    expect_rc(API("mdbx_put(null)", mdbx_put(w.txn, dbi, nullptr, &dv, MDBX_UPSERT)), {MDBX_EINVAL}, "mdbx_put without key");
    break;
  case 2:
    expect_rc(API("mdbx_put(bad dbi)", mdbx_put(w.txn, 4000, &kv, &dv, MDBX_UPSERT)), {MDBX_BAD_DBI}, "mdbx_put with a wrong handle");
    break;
  case 3: {
    MDBX_txn *x = nullptr;
    rc = API("mdbx_txn_begin(second writer)", mdbx_txn_begin_ex(t.p->env, nullptr, MDBX_TXN_TRY, &x, nullptr));
    expect_rc(rc, {MDBX_BUSY, MDBX_TXN_OVERLAPPING}, "a second write transaction in the same thread");
    break;
  }
  case 4:
    if (tb.spec.ks == KS_INT8 || tb.spec.ks == KS_INT4) {
      kv.iov_len = 7;
      rc = API("mdbx_put(bad int key)", mdbx_put(w.txn, dbi, &kv, &dv, MDBX_UPSERT));
      expect_rc(rc, {MDBX_BAD_VALSIZE}, "mdbx_put with a malformed integer key");
    }
    break;
  case 5:
    if (tb.spec.dup() && (tb.spec.flags & MDBX_DUPFIXED) && !tb.v.empty()) {
      Bytes kb;
      enc_key(tb.spec, tb.v[0].k, kb);
      kv = kb.val();
      dv.iov_base = big;
      dv.iov_len = 33;
      rc = API("mdbx_put(bad dup)", mdbx_put(w.txn, dbi, &kv, &dv, MDBX_UPSERT));
      expect_rc(rc, {MDBX_BAD_VALSIZE}, "mdbx_put with a value of wrong size into a DUPFIXED table");
    }
    break;
  case 6:
    expect_rc(API("mdbx_put(flags)", mdbx_put(w.txn, dbi, &kv, &dv, (MDBX_put_flags_t)0x1000000)), {MDBX_EINVAL, MDBX_BAD_VALSIZE, MDBX_EKEYMISMATCH},
              "mdbx_put with unknown flags");
    break;
  case 7: {
    MDBX_dbi d2;
    rc = API("mdbx_dbi_open(incompatible)", mdbx_dbi_open(w.txn, it->first.c_str(), (MDBX_db_flags_t)(tb.spec.flags ^ MDBX_REVERSEKEY), &d2));
    expect_rc(rc, {MDBX_INCOMPATIBLE, MDBX_EINVAL}, "mdbx_dbi_open with other flags");
    break;
  }
  case 8: {
    MDBX_dbi d2;
    rc = API("mdbx_dbi_open(absent)", mdbx_dbi_open(w.txn, "absent-table", MDBX_DB_DEFAULTS, &d2));
    expect_rc(rc, {MDBX_NOTFOUND, MDBX_DBS_FULL}, "mdbx_dbi_open of an absent table");
    break;
  }
  case 9: // the main table's records of tables are not data
    expect_rc(API("mdbx_txn_renew(writer)", mdbx_txn_renew(w.txn)), {MDBX_EINVAL, MDBX_BAD_TXN}, "mdbx_txn_renew of a write transaction");
    break;
  case 10:
    expect_rc(API("mdbx_txn_park(writer)", mdbx_txn_park(w.txn, true)), {MDBX_TXN_INVALID, MDBX_EINVAL, MDBX_BAD_TXN}, "mdbx_txn_park of a write transaction");
    break;
  case 11: {
    MDBX_cursor *c = API("mdbx_cursor_create", mdbx_cursor_create(nullptr));
    if (!c)
      break;
    rc = API("mdbx_cursor_get(unbound)", mdbx_cursor_get(c, &kv, &dv, MDBX_FIRST));
    expect_rc(rc, {MDBX_EINVAL, MDBX_EBADSIGN, MDBX_BAD_TXN}, "use of an unbound cursor");
    rc = API("mdbx_cursor_del(unbound)", mdbx_cursor_del(c, MDBX_CURRENT));
    expect_rc(rc, {MDBX_EINVAL, MDBX_EBADSIGN, MDBX_BAD_TXN}, "mdbx_cursor_del with an unbound cursor");
    APIV("mdbx_cursor_close", mdbx_cursor_close(c));
    break;
  }
  default:
    if (G.rc.nosticky && w.depth())
      break; // a nested transaction may be finished by any thread then
    if (foreign(t, w.txn, true, r)) {
      rc = API("mdbx_put(broken)", mdbx_put(w.txn, dbi, &kv, &dv, MDBX_UPSERT));
      expect_rc(rc, {MDBX_BAD_TXN}, "mdbx_put in a transaction broken by an attempt to finish it by another thread");
      w.broken = true;
    }
  }
  probe(31);
}
static void op_misuse(Thr &t, Rng &r) {
  u8 small[8] = {1, 2, 3, 4, 5, 6, 7, 8};
  MDBX_val kv{small, 8}, dv{small, 8};
  RTxn *x = pick_rd(t, r, 0);
  if (!x) {
    if (!new_reader(t))
      return;
    x = &t.rd.back();
  }
  MDBX_dbi dbi = 0;
  int rc;
  if (!x->snap || x->snap->st.t.empty())
    return;
  rc = open_tab(x->txn, x->snap->st.t.begin()->first, false, &dbi, true);
  if (rc) {
    fail_ok(rc, "mdbx_dbi_open");
    return;
  }
  probe(32);
  switch (r.below(12)) {
  case 0:
    expect_rc(API("mdbx_put(reader)", mdbx_put(x->txn, dbi, &kv, &dv, MDBX_UPSERT)), {MDBX_EACCESS}, "mdbx_put in a read transaction");
    break;
  case 1:
    expect_rc(API("mdbx_del(reader)", mdbx_del(x->txn, dbi, &kv, nullptr)), {MDBX_EACCESS}, "mdbx_del in a read transaction");
    break;
  case 2:
    expect_rc(API("mdbx_drop(reader)", mdbx_drop(x->txn, dbi, false)), {MDBX_EACCESS}, "mdbx_drop in a read transaction");
    break;
  case 3: {
    uint64_t s;
    expect_rc(API("mdbx_dbi_sequence(reader)", mdbx_dbi_sequence(x->txn, dbi, &s, 1)), {MDBX_EACCESS}, "mdbx_dbi_sequence in a read transaction");
    break;
  }
  case 4: {
    MDBX_canary c = {1, 2, 3, 4};
    expect_rc(API("mdbx_canary_put(reader)", mdbx_canary_put(x->txn, &c)), {MDBX_EACCESS}, "mdbx_canary_put in a read transaction");
    break;
  }
  case 5: {
    MDBX_dbi d2;
    expect_rc(API("mdbx_dbi_open(create in reader)", mdbx_dbi_open(x->txn, "zzz", MDBX_CREATE, &d2)), {MDBX_EACCESS}, "creating a table in a read transaction");
    break;
  }
  case 6:
    if (!G.rc.nosticky) {
      MDBX_txn *y = nullptr;
      rc = API("mdbx_txn_begin(second reader)", mdbx_txn_begin_ex(t.p->env, nullptr, MDBX_TXN_RDONLY, &y, nullptr));
      expect_rc(rc, {MDBX_BAD_RSLOT}, "a second read transaction of the same thread");
    }
    break;
  case 7:
    if (!G.rc.nosticky && !t.p->ro) {
      MDBX_txn *y = nullptr;
      rc = API("mdbx_txn_begin(writer over reader)", mdbx_txn_begin_ex(t.p->env, nullptr, MDBX_TXN_TRY, &y, nullptr));
      expect_rc(rc, {MDBX_TXN_OVERLAPPING, MDBX_BUSY}, "a write transaction over a reader in the same thread");
    }
    break;
  case 8:
    if (t.p->ro) {
      MDBX_txn *y = nullptr;
      rc = API("mdbx_txn_begin(writer in RO)", mdbx_txn_begin_ex(t.p->env, nullptr, MDBX_TXN_READWRITE, &y, nullptr));
      expect_rc(rc, {MDBX_EACCESS}, "a write transaction in a read-only environment");
    }
    break;
  case 9: {
    // the same database must not be opened twice by a process
    MDBX_env *e2 = nullptr;
    rc = API("mdbx_env_create(second)", mdbx_env_create(&e2));
    if (rc)
      break;
    rc = API("mdbx_env_open(second)", mdbx_env_open(e2, DBPATH, (MDBX_env_flags_t)(MDBX_NOSUBDIR | (G.rc.nosticky ? MDBX_NOSTICKYTHREADS : 0)), 0644));
    expect_rc(rc, {MDBX_BUSY}, "opening the database a second time in the same process");
    API("mdbx_env_close(second)", mdbx_env_close_ex(e2, true));
    break;
  }
  default:
    foreign(t, x->txn, false, r);
  }
  check_read(t, *x, r);
}

// ------------------------------------------------------------------------------- flags and options
static void op_setflags(Thr &t, Rng &r) {
  if (t.p->ro || G.rc.sync == SM_UTTERLY)
    return;
  unsigned f = r.chance(1, 2) ? MDBX_NOMETASYNC : MDBX_NOMEMINIT;
  if (G.rc.toggle_nosync && r.chance(1, 2))
    f = MDBX_SAFE_NOSYNC;
  bool on = r.chance(1, 2);
  if (f == MDBX_NOMETASYNC || f == MDBX_SAFE_NOSYNC) {
    // be conservative while the mode is being changed
    if (on)
      t.p->envflags |= f;
    int rc = API("mdbx_env_set_flags", mdbx_env_set_flags(t.p->env, (MDBX_env_flags_t)f, on));
    if (rc) {
      fail_ok(rc, "mdbx_env_set_flags");
      return;
    }
  } else {
    int rc = API("mdbx_env_set_flags", mdbx_env_set_flags(t.p->env, (MDBX_env_flags_t)f, on));
    if (rc)
      fail_ok(rc, "mdbx_env_set_flags");
  }
}
static void op_option(Thr &t, Rng &r) {
  static const MDBX_option_t opts[] = {MDBX_opt_rp_augment_limit, MDBX_opt_txn_dp_initial, MDBX_opt_spill_max_denominator,
                                       MDBX_opt_spill_min_denominator, MDBX_opt_spill_parent4child_denominator, MDBX_opt_dp_reserve_limit,
                                       MDBX_opt_loose_limit, MDBX_opt_merge_threshold, MDBX_opt_writethrough_threshold};
  MDBX_option_t o = opts[r.below(sizeof opts / sizeof *opts)];
  u64 v = r.chance(1, 4) ? ~0ull : r.logu(1, 40000);
  int rc = API("mdbx_env_set_option", mdbx_env_set_option(t.p->env, o, v));
  trace("set_option %d = %llu -> %d", (int)o, (unsigned long long)v, rc);
  if (rc && rc != MDBX_EINVAL && rc != MDBX_EPERM && rc != MDBX_EACCESS)
    fail_ok(rc, "mdbx_env_set_option");
}
static void op_warmup(Thr &t, Rng &r) {
  unsigned f = 0;
  if (r.chance(1, 2))
    f |= MDBX_warmup_force;
  if (r.chance(1, 4))
    f |= MDBX_warmup_lock;
  if (r.chance(1, 4))
    f |= MDBX_warmup_touchlimit;
  if (r.chance(1, 6))
    f |= MDBX_warmup_release;
  RTxn *x = pick_rd(t, r, 0);
  if (!G.rc.nosticky && !x && !t.rd.empty())
    return;
  int rc = API("mdbx_env_warmup", mdbx_env_warmup(t.p->env, x ? x->txn : nullptr, (MDBX_warmup_flags_t)f, r.chance(1, 3) ? 65536 : 0));
  trace("warmup %x -> %d", f, rc);
  if (rc && rc != MDBX_RESULT_TRUE && rc != MDBX_ENOSYS)
    fail_ok(rc, "mdbx_env_warmup");
}

// Handles: the same name gives the same handle in the process, whoever asks.
static void op_dbi(Thr &t, Rng &r) {
  RTxn *x = pick_rd(t, r, 0);
  if (!x) {
    if (!new_reader(t))
      return;
    x = &t.rd.back();
  }
  if (!x->snap)
    return;
  probe(33);
  for (int n = (int)r.range(1, 5); n--;) {
    std::string name = "t";
    name += (char)('0' + r.below(G.specs.size()));
    name += (char)('a' + r.below(3));
    MDBX_dbi d = 0;
    int rc = open_tab(x->txn, name, false, &d, true);
    const Table *tb = x->snap->st.get(name);
    if (rc == MDBX_NOTFOUND) {
      if (tb)
        violation("tables", "mdbx_dbi_open(%s) does not find the table of the reader's snapshot txn %llu", name.c_str(), (unsigned long long)x->T);
      continue;
    }
    if (rc == MDBX_SUCCESS) {
      if (!tb)
        violation("tables", "mdbx_dbi_open(%s) opens a table which is absent in the reader's snapshot txn %llu", name.c_str(),
                  (unsigned long long)x->T);
      unsigned fl = 0, stt = 0;
      rc = API("mdbx_dbi_flags", mdbx_dbi_flags_ex(x->txn, d, &fl, &stt));
      if (rc)
        fail_ok(rc, "mdbx_dbi_flags");
      else if ((fl & 0x7f) != (spec_of(name)->flags & 0x7f))
        violation("tables", "mdbx_dbi_flags(%s) gives 0x%x instead of 0x%x", name.c_str(), fl, spec_of(name)->flags);
      MDBX_stat st;
      rc = API("mdbx_dbi_stat", mdbx_dbi_stat(x->txn, d, &st, sizeof st));
      if (rc)
        fail_ok(rc, "mdbx_dbi_stat");
      else if (st.ms_entries != tb->v.size())
        violation("snapshot", "mdbx_dbi_stat(%s) gives %llu entries instead of %zu in txn %llu", name.c_str(), (unsigned long long)st.ms_entries,
                  tb->v.size(), (unsigned long long)x->T);
      continue;
    }
    fail_ok(rc, "mdbx_dbi_open");
  }
}

// With MDBX_NOSTICKYTHREADS the library takes any thread for the owner of the write transaction, thus a call which
// works with the environment belongs to that transaction and, as documented, must not be made concurrently with its
// use by another thread of the process. Writers of a process still compete with each other.
static bool no_envops(void *a) { return ((Proc *)a)->envops == 0; }
static bool env_idle(void *a) { return ((Proc *)a)->envops == 0 && ((Proc *)a)->writers == 0; }
struct EnvUse {
  Proc *p;
  bool writer, on;
  EnvUse(Proc *p, bool writer) : p(p), writer(writer), on(G.rc.nosticky) {
    if (!on)
      return;
    if (writer) {
      while (p->envops)
        wait_until(no_envops, p);
      p->writers++;
    } else {
      while (!env_idle(p))
        wait_until(env_idle, p);
      p->envops++;
    }
  }
  ~EnvUse() {
    if (on)
      writer ? p->writers-- : p->envops--;
  }
};

// ------------------------------------------------------------------------------- dispatch
static void generic_op_raw(Thr &t, Rng &r, Op kind, u64 opid);
void generic_op(Thr &t, Rng &r, Op kind, u64 opid) {
  switch (kind) {
  case O_WRITE:
  case O_EMBARK:
  case O_AMEND: {
    EnvUse u(t.p, true);
    generic_op_raw(t, r, kind, opid);
    break;
  }
  case O_SYNC:
  case O_POLL:
  case O_GEOM:
  case O_COPY:
  case O_CHK:
  case O_INFO:
  case O_DEFRAG:
  case O_SETFLAGS:
  case O_WARMUP:
  case O_OPT: {
    if (kind == O_CHK && G.rc.dyn_tables && !G.rc.nosticky && G.rc.threads > 1)
      break; // the checker uses handles of tables
    if (kind == O_CHK && !G.rc.dyn_tables && t.p->lazy && G.rc.threads > 1)
      break;
    EnvUse u(t.p, false);
    DbiUse du(t.p, true, kind == O_CHK && G.rc.threads > 1);
    generic_op_raw(t, r, kind, opid);
    break;
  }
  case O_RDCHECK:
  case O_RDLIST:
  case O_SLEEP:
    generic_op_raw(t, r, kind, opid);
    break;
  default:
    DbiUse u(t.p, false);
    generic_op_raw(t, r, kind, opid);
  }
}
static void generic_op_raw(Thr &t, Rng &r, Op kind, u64 opid) {
  switch (kind) {
  case O_WRITE:
    if (!t.p->ro)
      op_write(t, r, opid);
    break;
  case O_RBEGIN:
    new_reader(t);
    break;
  case O_RCHECK: {
    RTxn *x = pick_rd(t, r, 0);
    if (!x && new_reader(t))
      x = &t.rd.back();
    if (x) {
      check_read(t, *x, r);
      if (G.rc.use_cache && x->snap)
        cache_probe(t, x->txn, x->snap->st, r, false, x->T);
    }
    break;
  }
  case O_REND: {
    RTxn *x = pick_rd(t, r, 3);
    if (!x)
      break;
    if (x->parked || x->reset)
      drop_reader(*x);
    else {
      if (r.chance(1, 2))
        check_read(t, *x, r);
      end_read(t, *x, r);
    }
    forget_ended(t);
    break;
  }
  case O_RRENEW: {
    RTxn *x = pick_rd(t, r, 3);
    if (!x)
      break;
    if (!x->reset) {
      int rc = API("mdbx_txn_reset", mdbx_txn_reset(x->txn));
      if (rc) {
        fail_ok(rc, "mdbx_txn_reset");
        break;
      }
      x->parked = false;
      x->reset = true;
      if (r.chance(1, 2))
        break;
    }
    SnapP h = head();
    u64 lo = h->txnid, seen = G.seen_txnid;
    int rc = API("mdbx_txn_renew", mdbx_txn_renew(x->txn));
    trace("renew -> %d", rc);
    if (rc) {
      fail_ok(rc, "mdbx_txn_renew");
      drop_reader(*x);
      forget_ended(t);
      break;
    }
    rebind(*x, lo, seen, h, "renew");
    break;
  }
  case O_SYNC:
    do_sync(*t.p, true, r.chance(1, 3));
    break;
  case O_POLL:
    do_sync(*t.p, false, r.chance(1, 2));
    break;
  case O_GEOM:
    if (G.rc.nosticky || t.rd.empty())
      op_geom(t, r);
    break;
  case O_COPY:
    op_copy(t, r);
    break;
  case O_CHK:
    if (G.rc.nosticky || t.rd.empty())
      check_env(t.p->env, "concurrent check");
    break;
  case O_INFO:
    op_info(t, r);
    break;
  case O_RDCHECK:
    op_rdcheck(t, r);
    break;
  case O_RDLIST:
    op_rdlist(t, r);
    break;
  case O_DEFRAG:
    op_defrag(t, r);
    break;
  case O_PARK:
    op_park(t, r);
    break;
  case O_UNPARK:
    op_unpark(t, r);
    break;
  case O_REFRESH:
    op_refresh(t, r);
    break;
  case O_CLONE:
    op_clone(t, r);
    break;
  case O_AMEND:
    op_amend(t, r, opid);
    break;
  case O_EMBARK: // a write transaction that becomes a reader, see finish_write()
    if (!t.p->ro)
      op_write(t, r, opid, true);
    break;
  case O_CACHE: {
    RTxn *x = pick_rd(t, r, 0);
    if (!x && new_reader(t))
      x = &t.rd.back();
    if (x && x->snap)
      cache_probe(t, x->txn, x->snap->st, r, false, x->T);
    break;
  }
  case O_MISUSE:
    op_misuse(t, r);
    break;
  case O_SETFLAGS:
    op_setflags(t, r);
    break;
  case O_WARMUP:
    op_warmup(t, r);
    break;
  case O_SLEEP:
    sleep_ns(r.logu(1000, 3000000000ull));
    break;
  case O_TXNINFO:
    op_txninfo(t, r);
    break;
  case O_DBI:
    op_dbi(t, r);
    break;
  case O_STALLREAD: {
    // a reader which does nothing for long
    if (!new_reader(t))
      break;
    RTxn &x = t.rd.back();
    for (int i = (int)r.range(1, 6); i--;) {
      sleep_ns(r.logu(1000, 1000000000));
      check_read(t, x, r);
    }
    break;
  }
  case O_OPT:
    op_option(t, r);
    break;
  default:
    break;
  }
}
} // namespace sim
