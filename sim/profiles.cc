// Configuration of a run per property: everything is drawn from the seed (swarm testing).
#include "harness.h"

namespace sim {

static void set_w(RunCfg &rc, std::initializer_list<std::pair<int, u32>> l) {
  for (auto &p : l)
    rc.w[p.first] = p.second;
}
static void set_s(RunCfg &rc, std::initializer_list<std::pair<int, u32>> l) {
  for (auto &p : l)
    rc.s[p.first] = p.second;
}

static TabSpec mk_spec(Rng &r, int i, u32 ps, bool allow_dup) {
  TabSpec s;
  char n[8];
  snprintf(n, sizeof n, "t%da", i);
  s.name = n;
  static const int kss[] = {KS_BE_PAD, KS_PREFIX, KS_GROW, KS_INT8, KS_INT4, KS_REV, KS_LONG};
  s.ks = kss[r.below(7)];
  s.vs = allow_dup && r.chance(1, 2) ? (int)r.range(VS_DUP_PAD, VS_DUP_FIXREV) : VS_BYTES;
  u32 kmax = s.dup() ? std::min<u32>(100, ps / 256 * 24) : std::min<u32>(400, ps / 256 * 40);
  if (s.ks == KS_LONG && !s.dup() && r.chance(1, 2))
    kmax = std::min<u32>(1500, ps / 256 * 60);
  s.keylen = (u32)r.logu(8, kmax);
  s.duplen = (u32)r.logu(6, std::min<u32>(300, ps / 256 * 40));
  s.kspace = (u32)r.logu(8, 1500);
  s.dspace = (u32)r.logu(2, 200);
  if (s.dup() && s.kspace > 400)
    s.kspace = 400;
  unsigned f = 0;
  if (s.ks == KS_INT8 || s.ks == KS_INT4)
    f |= MDBX_INTEGERKEY;
  if (s.ks == KS_REV)
    f |= MDBX_REVERSEKEY;
  switch (s.vs) {
  case VS_BYTES:
    break;
  case VS_DUP_PAD:
    f |= MDBX_DUPSORT;
    break;
  case VS_DUP_FIX8:
  case VS_DUP_FIX16:
    f |= MDBX_DUPSORT | MDBX_DUPFIXED;
    break;
  case VS_DUP_INT8:
  case VS_DUP_INT4:
    f |= MDBX_DUPSORT | MDBX_DUPFIXED | MDBX_INTEGERDUP;
    break;
  case VS_DUP_REV:
    f |= MDBX_DUPSORT | MDBX_REVERSEDUP;
    break;
  case VS_DUP_FIXREV:
    f |= MDBX_DUPSORT | MDBX_DUPFIXED | MDBX_REVERSEDUP;
    break;
  }
  s.flags = f;
  return s;
}

static void mk_tables(Rng &r, RunCfg &rc, int lo, int hi, bool allow_dup = true) {
  rc.ntabs = (int)r.range(lo, hi);
  G.specs.clear();
  for (int i = 0; i < rc.ntabs; ++i)
    G.specs.push_back(mk_spec(r, i, rc.ps, allow_dup));
}

static void random_options(Rng &r, RunCfg &rc) {
  auto add = [&](MDBX_option_t o, u64 v) { rc.options.push_back({(int)o, v}); };
  if (r.chance(1, 4))
    add(MDBX_opt_rp_augment_limit, r.logu(1, 300000));
  if (r.chance(1, 4))
    add(MDBX_opt_loose_limit, r.below(256));
  if (r.chance(1, 4))
    add(MDBX_opt_dp_reserve_limit, r.logu(1, 1000) - 1);
  if (r.chance(1, 4))
    add(MDBX_opt_txn_dp_initial, r.logu(128, 2000));
  if (r.chance(1, 3))
    add(MDBX_opt_spill_min_denominator, r.below(256));
  if (r.chance(1, 3))
    add(MDBX_opt_spill_max_denominator, r.below(256));
  if (r.chance(1, 3))
    add(MDBX_opt_spill_parent4child_denominator, r.below(256));
  if (r.chance(1, 3))
    add(MDBX_opt_merge_threshold, r.range(8192, 32768));
  if (r.chance(1, 4))
    add(MDBX_opt_writethrough_threshold, r.chance(1, 2) ? 0 : r.below(1000));
  if (r.chance(1, 4))
    add(MDBX_opt_prefault_write_enable, r.below(2));
  if (r.chance(1, 5))
    add(MDBX_opt_prefer_waf_insteadof_balance, r.below(2));
  if (r.chance(1, 4))
    add(MDBX_opt_subpage_limit, r.below(65536));
  if (r.chance(1, 4))
    add(MDBX_opt_subpage_room_threshold, r.below(65536));
  if (r.chance(1, 4))
    add(MDBX_opt_subpage_reserve_prereq, r.below(65536));
  if (r.chance(1, 4))
    add(MDBX_opt_subpage_reserve_limit, r.below(65536));
  if (r.chance(1, 4))
    add(MDBX_opt_split_reserve, r.below(32769));
  if (r.chance(1, 6))
    add(MDBX_opt_gc_time_limit, r.logu(1, 1 << 20) - 1);
}

static void fault_swarm(Rng &r, Config &sc, std::initializer_list<int> kinds, u32 lo = 300, u32 hi = 20000) {
  bool any = false;
  for (int guard = 0; guard < 10 && !any; ++guard)
    for (int k : kinds)
      if (r.chance(1, 3)) {
        sc.fault_ppm[k] = (u32)r.logu(lo, hi);
        any = true;
      }
  sc.max_faults = (u32)r.logu(1, 30);
}
// kinds which are harmless by contract
static void benign_swarm(Rng &r, Config &sc) {
  if (r.chance(1, 3))
    sc.fault_ppm[F_MINCORE_COLD] = (u32)r.logu(1000, 300000);
  if (r.chance(1, 4))
    sc.fault_ppm[F_COND_SPURIOUS] = (u32)r.logu(1000, 100000);
}

static void base_cfg(Rng &r, RunCfg &rc, Config &sc) {
  static const u32 pss[] = {256, 256, 512, 1024, 4096, 4096, 8192};
  rc.ps = pss[r.below(7)];
  rc.writemap = r.chance(1, 3);
  rc.nosticky = r.chance(1, 2);
  rc.lifo = r.chance(1, 3);
  rc.nomeminit = r.chance(1, 4);
  rc.pagepert = r.chance(1, 6);
  rc.sync = SM_DURABLE;
  rc.slots = (int)r.range(1, 3);
  rc.threads = (int)r.range(1, 3);
  rc.ops = (int)r.logu(4, 40);
  rc.incs = 1;
  rc.max_sub = (int)r.logu(3, 60);
  rc.max_val = r.chance(1, 5) ? rc.ps * 5 : r.chance(1, 2) ? rc.ps / 2 : 60;
  rc.glower = r.chance(1, 4) ? 0 : 64u << 10;
  rc.gupper = (u64)r.range(32, 96) << 20;
  if (rc.max_val > 1024)
    rc.gupper <<= 3; // MDBX_MAP_FULL must not be legitimate
  rc.ggrow = (u64)r.logu(16, 1024) << 10;
  rc.gshrink = r.chance(1, 4) ? 0 : (u64)r.logu(16, 1024) << 10;
  rc.epochs = 1;
  rc.abort_pct = r.chance(1, 3) ? 0 : (u32)r.below(30);
  rc.dyn_tables = r.chance(1, 4);
  rc.max_rd = (u32)r.range(1, 4);
  rc.reopen_max = (u32)r.range(1, 2);
  random_options(r, rc);
  if (r.chance(1, 3))
    rc.options.clear();
  set_w(rc, {{O_WRITE, 40}, {O_RBEGIN, 14}, {O_RCHECK, 20}, {O_REND, 8}, {O_RRENEW, 4}, {O_INFO, 1}, {O_SLEEP, 1}});
  set_s(rc, {{S_PUT, 30}, {S_DEL, 10}, {S_GET, 5}, {S_WALK, 2}, {S_CUR, 8}, {S_NEST, 3}, {S_CLEAR, 1}, {S_SEQ, 1}, {S_CANARY, 1},
             {S_SCAN, 1}, {S_REPLACE, 3}, {S_FILL, 3}, {S_ERASE, 3}, {S_MULTI, 1}, {S_INSPECT, 1}, {S_EXT, 2}, {S_RANGE, 1}});
  if (rc.dyn_tables)
    set_s(rc, {{S_DROP, 1}, {S_RENAME, 1}});
  if (r.chance(1, 4))
    rc.s[S_FILL] = 15;
  if (r.chance(1, 5))
    rc.s[S_ERASE] = 15;
  sc.mean_switch = r.logu(30, 20000);
  sc.stall_ppm = r.chance(1, 3) ? (u32)r.logu(1000, 200000) : 0;
  sc.stall_max = r.logu(1000, 200000);
  sc.mean_race = r.chance(1, 2) ? r.logu(10, 3000) : 0;
  sc.race_maps = r.chance(2, 3);
  sc.kernel = (u32)r.below(3);
  sc.map_gap = r.chance(2, 3);
  sc.fsync_ns = r.chance(1, 4) ? 0 : r.logu(1000, 20000000);
  sc.pid_reuse = r.chance(1, 2);
  sc.copy_range_works = r.chance(1, 2);
  sc.sendfile_works = r.chance(1, 2);
  sc.mean_writeback = r.chance(1, 2) ? r.logu(500, 100000) : 0;
  benign_swarm(r, sc);
}
static void finish_cfg(RunCfg &rc, Config &) {
  if (!rc.dyn_tables)
    rc.s[S_DROP] = rc.s[S_RENAME] = 0;
  if (rc.writemap) {
    rc.s[S_NEST] = 0;
  }
  if (rc.slots * rc.threads > 1 && rc.slots == 1 && false)
    rc.threads = 1;
}
static void power(Rng &r, RunCfg &rc, Config &sc) {
  rc.epochs = (int)r.range(2, 4);
  rc.final_power = true;
  sc.max_powers = (u32)r.range(2, 6);
  if (r.chance(2, 3))
    sc.power_io_ppm = (u32)r.logu(1000, 60000);
  else
    sc.mean_power = r.logu(20000, 2000000);
  if (r.chance(1, 3)) {
    sc.max_kills = (u32)r.range(1, 4);
    sc.kill_io_ppm = (u32)r.logu(1000, 20000);
    rc.incs = 3;
  }
}
static void kills(Rng &r, RunCfg &rc, Config &sc) {
  rc.incs = (int)r.range(2, 4);
  rc.slots = (int)r.range(2, 3);
  sc.max_kills = (u32)r.range(1, 8);
  switch (r.below(3)) {
  case 0:
    sc.kill_io_ppm = (u32)r.logu(2000, 60000);
    break;
  case 1:
    sc.mean_kill = r.logu(3000, 300000);
    break;
  default:
    sc.kill_io_ppm = (u32)r.logu(2000, 30000);
    sc.mean_kill = r.logu(10000, 1000000);
  }
}
static void weak_sync(Rng &r, RunCfg &rc, bool power) {
  static const SyncMode m[] = {SM_NOMETA, SM_SAFE_NOSYNC, SM_SAFE_NOSYNC, SM_UTTERLY};
  rc.sync = m[r.below(power ? 3 : 4)]; // nothing survives a power loss for sure with MDBX_UTTERLY_NOSYNC
  rc.weak_txn_pct = r.chance(1, 3) ? (u32)r.range(10, 60) : 0;
  if (r.chance(1, 3))
    rc.sync_bytes = r.logu(1, 256) * 1024;
  if (r.chance(1, 3))
    rc.sync_period = (u32)r.logu(100, 65536 * 4);
  rc.w[O_SYNC] = (u32)r.range(1, 8);
  rc.w[O_POLL] = (u32)r.range(1, 8);
  rc.w[O_SLEEP] = 3;
  rc.dontsync_pct = r.chance(1, 2) ? 30 : 0;
}

// transactions which do not fit into memory
static void spilling(Rng &r, RunCfg &rc) {
  rc.writemap = r.chance(1, 8);
  rc.dp_limit = (u32)r.logu(128, 400);
  rc.ps = r.chance(1, 2) ? 256 : rc.ps;
  rc.s[S_FILL] = 15;
  rc.max_sub = (int)r.logu(10, 80);
  if (r.chance(1, 3)) { // large pages as well
    if (rc.max_val <= 1024)
      rc.gupper <<= 3;
    rc.max_val = rc.ps * 5;
  }
}

void configure(const std::string &prop, u64 seed, RunCfg &rc, Config &sc) {
  Rng r(hash2(seed, 0xC0F16));
  base_cfg(r, rc, sc);
  int p = atoi(prop.c_str() + 1);
  switch (p) {
  case 1:
    power(r, rc, sc);
    if (r.chance(1, 4))
      spilling(r, rc);
    mk_tables(r, rc, 1, 3);
    if (r.chance(1, 4))
      rc.w[O_GEOM] = 2;
    break;
  case 2:
    weak_sync(r, rc, true);
    power(r, rc, sc);
    if (r.chance(1, 8))
      spilling(r, rc);
    mk_tables(r, rc, 1, 3);
    if (!rc.dp_limit && r.chance(1, 3)) {
      // syncs of a lot of pages concurrent with commits
      rc.slots = (int)r.range(1, 3);
      rc.threads = (int)r.range(rc.slots == 1 ? 2 : 1, 3);
      rc.w[O_SYNC] = (u32)r.range(4, 10);
      rc.s[S_FILL] = 12;
      rc.max_sub = (int)r.logu(5, 30);
      sc.mean_switch = r.logu(30, 3000);
      sc.mean_writeback = r.chance(1, 4) ? sc.mean_writeback : 0;
    }
    break;
  case 3:
    kills(r, rc, sc);
    if (r.chance(1, 2))
      weak_sync(r, rc, false);
    rc.exit_pct = r.chance(1, 3) ? 40 : 0;
    mk_tables(r, rc, 1, 3);
    break;
  case 4: // frozen snapshots
    mk_tables(r, rc, 1, 4);
    rc.slots = (int)r.range(1, 3);
    rc.threads = (int)r.range(rc.slots == 1 ? 2 : 1, 3);
    set_w(rc, {{O_WRITE, 40}, {O_RBEGIN, 15}, {O_RCHECK, 35}, {O_REND, 8}, {O_RRENEW, 4}, {O_STALLREAD, 4}});
    if (r.chance(1, 2))
      rc.w[O_GEOM] = 3;
    if (r.chance(1, 3))
      rc.w[O_DEFRAG] = 3;
    if (r.chance(1, 3)) {
      weak_sync(r, rc, false);
      rc.w[O_SYNC] = 4;
    }
    if (r.chance(1, 3))
      rc.w[O_CLONE] = 3;
    rc.max_rd = 4;
    break;
  case 5: // serialised writers
    mk_tables(r, rc, 1, 3);
    rc.slots = (int)r.range(1, 3);
    rc.threads = (int)r.range(rc.slots == 1 ? 2 : 1, 3);
    rc.max_sub = (int)r.logu(1, 12);
    set_w(rc, {{O_WRITE, 60}, {O_RBEGIN, 25}, {O_RCHECK, 15}, {O_REND, 15}, {O_RRENEW, 15}, {O_REFRESH, 5}, {O_INFO, 5}});
    sc.mean_switch = r.logu(5, 5000);
    if (r.chance(1, 4)) {
      kills(r, rc, sc);
    }
    if (r.chance(1, 3))
      weak_sync(r, rc, false);
    break;
  case 6: // page accounting
    mk_tables(r, rc, 1, 4);
    rc.ops = (int)r.logu(10, 80);
    rc.w[O_CHK] = 8;
    if (r.chance(1, 4))
      rc.dp_limit = (u32)r.logu(128, 1000);
    if (r.chance(1, 3)) {
      rc.churn = true; // bounded live data must not fill a generous map
      rc.slots = 1;
      rc.threads = (int)r.range(1, 2);
      rc.ops = (int)r.logu(50, 250);
      rc.max_val = 60;
      rc.dp_limit = 0;
      if (r.chance(2, 3)) { // there is room for several copies of all what may be stored, so MDBX_MAP_FULL means that pages were not reused
        u64 bytes = 0;
        mk_tables(r, rc, 1, 2);
        for (auto &t : G.specs) {
          t.keylen = std::min<u32>(t.keylen, 40);
          t.kspace = std::min<u32>(t.kspace, t.dup() ? 6 : 100);
          t.duplen = std::min<u32>(t.duplen, 16);
          t.dspace = std::min<u32>(t.dspace, 8);
          bytes += 2ull * t.kspace * (t.dup() ? t.keylen + 20 + 130 * (t.duplen + 12) : t.keylen + 80);
        }
        rc.glower = 0;
        rc.gupper = rc.ps * (bytes * 2 / rc.ps * 3 + 130) & ~4095ull;
        set_w(rc, {{O_RBEGIN, 0}, {O_RCHECK, 0}, {O_REND, 0}, {O_RRENEW, 0}, {O_INFO, 1}, {O_CHK, 0}, {O_COPY, 0}});
        if (r.chance(1, 2)) {
          weak_sync(r, rc, false);
          if (r.chance(1, 2))
            rc.options.clear();
        }
      }
    } else if (r.chance(1, 5)) {
      spilling(r, rc);
      mk_tables(r, rc, 1, 3);
    }
    break;
  case 7: // abort and nesting
    mk_tables(r, rc, 1, 4);
    rc.abort_pct = (u32)r.range(20, 70);
    rc.writemap = r.chance(1, 5);
    set_s(rc, {{S_NEST, 14}, {S_SEQ, 3}, {S_CANARY, 3}, {S_CLEAR, 3}});
    rc.dyn_tables = r.chance(1, 2);
    if (rc.dyn_tables)
      set_s(rc, {{S_DROP, 3}, {S_RENAME, 3}});
    if (r.chance(1, 2))
      set_s(rc, {{S_ROLLBACK, 2}, {S_CHECKPOINT, 2}});
    if (r.chance(1, 4))
      rc.dp_limit = (u32)r.logu(128, 1000);
    if (r.chance(1, 4)) {
      spilling(r, rc);
      mk_tables(r, rc, 1, 3);
      rc.writemap = false;
      rc.s[S_NEST] = (u32)r.range(5, 20);
      rc.ops = (int)r.logu(10, 60);
    }
    if (r.chance(1, 3)) {
      rc.max_tc = (u32)r.range(3, 10);
      rc.tc_check = (u32)r.range(10, 60);
      rc.s[S_CUR] = (u32)r.range(10, 30);
    }
    break;
  case 8: { // failing calls
    mk_tables(r, rc, 1, 3);
    switch (r.below(4)) {
    case 0: // writing
      fault_swarm(r, sc, {F_PWRITE_EIO, F_PWRITE_ENOSPC, F_PWRITE_SHORT, F_PWRITE_EINTR, F_FSYNC_EIO, F_FSYNC_EINTR, F_MSYNC_EIO});
      break;
    case 1: // memory and mappings
      fault_swarm(r, sc, {F_MALLOC, F_MMAP_ENOMEM, F_MREMAP_ENOMEM, F_FTRUNC_ENOSPC, F_FTRUNC_EIO}, 100, 10000);
      break;
    case 2: // the rest
      fault_swarm(r, sc, {F_PREAD_EIO, F_PREAD_SHORT, F_OPEN_FAIL, F_FSTAT_EIO, F_LOCK_ERR, F_LOCK_EINTR, F_THREAD_EAGAIN, F_STREAM_EIO, F_STREAM_SHORT, F_COPYRANGE_ERR}, 1000, 50000);
      rc.w[O_COPY] = 4;
      break;
    default:
      fault_swarm(r, sc, {F_PWRITE_EIO, F_PWRITE_ENOSPC, F_PWRITE_SHORT, F_FSYNC_EIO, F_MSYNC_EIO, F_FTRUNC_ENOSPC, F_MALLOC, F_MMAP_ENOMEM, F_LOCK_EINTR, F_FSTAT_EIO}, 100, 5000);
    }
    if (r.chance(1, 4))
      rc.w[O_GEOM] = 3;
    if (r.chance(1, 5))
      rc.dp_limit = (u32)r.logu(128, 1000);
    if (r.chance(1, 3))
      weak_sync(r, rc, false);
    if (r.chance(1, 4)) {
      rc.final_power = true;
      sc.max_powers = 1;
      if (rc.sync == SM_UTTERLY)
        rc.sync = SM_SAFE_NOSYNC;
    }
    rc.epochs = (int)r.range(1, 2);
    break;
  }
  case 9:
    mk_tables(r, rc, 1, 4);
    rc.dp_limit = r.chance(1, 3) ? (u32)r.logu(128, 1000) : 0;
    if (rc.dp_limit) {
      set_s(rc, {{S_FILL, 15}});
      rc.max_sub = (int)r.logu(20, 120);
    }
    if (r.chance(1, 2)) { // a lot of cursors
      rc.max_tc = (u32)r.range(4, 20);
      rc.tc_check = (u32)r.range(10, 60);
      set_s(rc, {{S_CUR, (u32)r.range(15, 40)}, {S_ERASE, (u32)r.range(3, 15)}, {S_FILL, (u32)r.range(3, 15)}, {S_CLEAR, 0}, {S_MULTI, 0}});
      rc.max_sub = (int)r.logu(20, 150);
    }
    break;
  case 10: // backups
    mk_tables(r, rc, 1, 3);
    rc.slots = (int)r.range(1, 3);
    rc.threads = (int)r.range(rc.slots == 1 ? 2 : 1, 3);
    rc.w[O_COPY] = (u32)r.range(5, 30);
    if (r.chance(1, 4))
      rc.w[O_GEOM] = 3;
    if (r.chance(1, 3))
      fault_swarm(r, sc, {F_STREAM_EIO, F_STREAM_SHORT, F_COPYRANGE_ERR, F_THREAD_EAGAIN, F_MALLOC, F_OPEN_FAIL, F_FSYNC_EIO, F_PWRITE_EIO, F_PWRITE_SHORT}, 1000, 100000);
    break;
  case 11:
    mk_tables(r, rc, 1, 3);
    weak_sync(r, rc, true);
    if (rc.sync == SM_UTTERLY)
      rc.sync = SM_SAFE_NOSYNC;
    power(r, rc, sc);
    rc.slots = (int)r.range(1, 2);
    if (r.chance(2, 3)) {
      rc.sync_bytes = r.chance(1, 2) ? rc.ps * r.range(1, 40) : 0;
      rc.sync_period = r.chance(1, 2) ? (u32)r.logu(100, 65536 * 4) : 0;
    }
    rc.w[O_SYNC] = (u32)r.range(1, 15);
    rc.w[O_POLL] = (u32)r.range(1, 15);
    rc.w[O_SLEEP] = 10;
    break;
  case 12: // geometry
    mk_tables(r, rc, 1, 3);
    rc.slots = (int)r.range(1, 3);
    rc.small_map = r.chance(1, 2);
    if (rc.small_map)
      rc.gupper = std::max<u64>(rc.ps * 64, (u64)r.logu(16, 1024) << 10);
    rc.glower = r.chance(1, 2) ? 0 : std::min<u64>(rc.gupper, 64u << 10);
    rc.w[O_GEOM] = (u32)r.range(0, 12);
    rc.w[O_INFO] = 6;
    set_s(rc, {{S_FILL, 12}, {S_ERASE, 10}, {S_CLEAR, 3}});
    if (r.chance(1, 3))
      fault_swarm(r, sc, {F_FTRUNC_ENOSPC, F_MREMAP_ENOMEM, F_MMAP_ENOMEM}, 1000, 100000);
    if (r.chance(1, 4))
      kills(r, rc, sc);
    break;
  case 13: // parking and slow readers
    mk_tables(r, rc, 1, 3);
    rc.slots = (int)r.range(1, 2);
    rc.threads = (int)r.range(2, 3);
    rc.hsr = r.chance(1, 2);
    set_w(rc, {{O_PARK, 15}, {O_UNPARK, 15}, {O_STALLREAD, 3}, {O_CLONE, 2}, {O_REFRESH, 2}});
    rc.small_map = r.chance(1, 2);
    if (rc.small_map)
      rc.gupper = std::max<u64>(rc.ps * 128, (u64)r.logu(64, 2048) << 10);
    set_s(rc, {{S_FILL, 8}, {S_ERASE, 8}});
    if (r.chance(1, 2)) { // ousting over and over: hardly any room beside the data
      mk_tables(r, rc, 1, 1);
      G.specs[0].kspace = (u32)r.range(20, 200);
      rc.small_map = true;
      rc.gupper = std::max<u64>(rc.ps * r.range(48, 128), 32u << 10);
      rc.glower = rc.gupper / 2;
      rc.max_rd = (u32)r.range(1, 2);
      rc.max_sub = (int)r.logu(3, 20);
      rc.ops = (int)r.logu(40, 200);
      set_w(rc, {{O_WRITE, 12}, {O_RBEGIN, 10}, {O_PARK, 30}, {O_UNPARK, 40}, {O_RCHECK, 2}, {O_REND, 3}, {O_RRENEW, 5}, {O_RDLIST, 15}});
      set_s(rc, {{S_FILL, 2}, {S_ERASE, 4}, {S_CLEAR, 2}});
      sc.mean_race = r.logu(3, 100);
    }
    if (r.chance(1, 4))
      kills(r, rc, sc);
    break;
  case 14: // reader table
    mk_tables(r, rc, 1, 2);
    rc.slots = (int)r.range(1, 3);
    rc.threads = (int)r.range(2, 3);
    rc.maxreaders = r.chance(1, 2) ? (u32)r.range(1, 6) : 0;
    rc.max_rd = (u32)r.range(2, 40);
    rc.max_sub = 5;
    rc.ops = (int)r.logu(10, 80);
    set_w(rc, {{O_WRITE, 10}, {O_RBEGIN, 40}, {O_RCHECK, 5}, {O_REND, 15}, {O_RRENEW, 10}, {O_RDLIST, 15}, {O_RDCHECK, 10}, {O_TXNINFO, 10}});
    sc.mean_switch = r.logu(5, 5000);
    if (r.chance(1, 2))
      kills(r, rc, sc);
    rc.exit_pct = r.chance(1, 3) ? 40 : 0;
    if (r.chance(1, 4)) { // dead readers
      kills(r, rc, sc);
      rc.exit_pct = 50;
      rc.nosticky = true;
      rc.max_rd = (u32)r.range(2, 6);
      rc.incs = (int)r.range(3, 5);
    } else
    if (r.chance(1, 3)) { // crowded
      rc.nosticky = true;
      rc.max_rd = (u32)r.range(30, 80);
      rc.ops = (int)r.logu(60, 250);
      set_w(rc, {{O_WRITE, 4}, {O_RBEGIN, 80}, {O_REND, 5}, {O_RCHECK, 2}, {O_RRENEW, 3}});
    }
    break;
  case 15: // opening and closing
    mk_tables(r, rc, 1, 2);
    rc.slots = (int)r.range(2, 4);
    rc.threads = (int)r.range(1, 2);
    rc.ops = (int)r.logu(1, 8);
    rc.max_sub = 6;
    rc.reopen_max = (u32)r.range(2, 8);
    rc.ro_slot = r.chance(1, 3);
    sc.mean_switch = r.logu(5, 5000);
    rc.mix_modes = r.chance(1, 2);
    if (rc.mix_modes && r.chance(1, 2))
      weak_sync(r, rc, false);
    rc.exit_pct = r.chance(1, 3) ? 30 : 0;
    rc.w[O_SYNC] = 2;
    rc.w[O_INFO] = 3;
    if (r.chance(1, 3))
      kills(r, rc, sc);
    break;
  case 16: // handles
    mk_tables(r, rc, 1, 4);
    rc.dyn_tables = true;
    rc.slots = (int)r.range(1, 3);
    rc.threads = (int)r.range(1, 3);
    set_w(rc, {{O_DBI, 25}});
    set_s(rc, {{S_DROP, 5}, {S_RENAME, 5}, {S_NEST, 5}, {S_CLEAR, 3}});
    rc.abort_pct = (u32)r.range(5, 50);
    if (r.chance(1, 128)) { // changes of tables within nested transactions, see known-findings.txt
      rc.scenario = (int)r.range(1, 2);
      rc.slots = rc.threads = 1;
      rc.writemap = false;
      sc.map_gap = true;
    }
    break;
  case 17: // defragmentation
    mk_tables(r, rc, 1, 4);
    rc.w[O_DEFRAG] = (u32)r.range(4, 20);
    set_s(rc, {{S_FILL, 12}, {S_ERASE, 15}, {S_CLEAR, 2}});
    rc.max_sub = (int)r.logu(10, 80);
    rc.w[O_CHK] = 3;
    switch (r.below(4)) {
    case 0:
      kills(r, rc, sc);
      break;
    case 1:
      power(r, rc, sc);
      break;
    case 2:
      fault_swarm(r, sc, {F_PWRITE_EIO, F_MALLOC, F_FSYNC_EIO, F_FTRUNC_EIO, F_MSYNC_EIO}, 300, 10000);
      break;
    }
    break;
  case 18: // chained transactions
    if (r.chance(1, 8))
      spilling(r, rc);
    mk_tables(r, rc, 1, 3);
    rc.slots = (int)r.range(1, 3);
    set_w(rc, {{O_AMEND, 15}, {O_EMBARK, 15}, {O_REFRESH, 10}, {O_CLONE, 8}});
    set_s(rc, {{S_CHECKPOINT, 8}, {S_ROLLBACK, 4}});
    if (!rc.dp_limit)
      rc.max_sub = (int)r.logu(2, 25);
    sc.mean_switch = r.logu(10, 5000);
    if (r.chance(1, 4))
      rc.w[O_PARK] = rc.w[O_UNPARK] = 5;
    switch (r.below(4)) {
    case 0:
      power(r, rc, sc);
      rc.weak_txn_pct = (u32)r.range(20, 60);
      if (r.chance(1, 4))
        weak_sync(r, rc, true);
      break;
    case 1:
      kills(r, rc, sc);
      break;
    }
    break;
  case 19: // cache
    mk_tables(r, rc, 1, 3);
    for (auto &s : G.specs)
      s.kspace = std::min<u32>(s.kspace, 60);
    rc.use_cache = true;
    rc.slots = (int)r.range(1, 2);
    rc.threads = (int)r.range(1, 3);
    set_w(rc, {{O_CACHE, 40}, {O_RCHECK, 5}, {O_RBEGIN, 20}});
    set_s(rc, {{S_CACHEGET, 15}, {S_CLEAR, 2}});
    rc.max_sub = (int)r.logu(1, 12);
    rc.abort_pct = (u32)r.range(5, 50);
    if (r.chance(1, 3))
      rc.w[O_DEFRAG] = 3;
    if (r.chance(1, 3))
      rc.dyn_tables = true, set_s(rc, {{S_DROP, 3}});
    rc.s[S_RENAME] = 0; // an entry belongs to a table, which must not be replaced by another one under its name
    break;
  case 20: // progress
    mk_tables(r, rc, 1, 3);
    rc.slots = (int)r.range(1, 3);
    rc.threads = (int)r.range(1, 3);
    sc.stall_ppm = (u32)r.logu(1000, 200000);
    set_w(rc, {{O_SYNC, 3}, {O_POLL, 2}, {O_COPY, 2}, {O_REFRESH, 2}, {O_DEFRAG, 1}, {O_RDCHECK, 2}, {O_PARK, 2}, {O_UNPARK, 2}, {O_AMEND, 6}, {O_EMBARK, 3}, {O_CLONE, 2}});
    if (r.chance(1, 2))
      kills(r, rc, sc);
    if (r.chance(1, 3))
      weak_sync(r, rc, false);
    if (r.chance(1, 3))
      fault_swarm(r, sc, {F_PWRITE_EIO, F_FSYNC_EIO, F_MALLOC, F_LOCK_EINTR, F_STREAM_EIO, F_THREAD_EAGAIN, F_FTRUNC_ENOSPC, F_LOCK_ERR}, 300, 20000);
    rc.reopen_max = 3;
    break;
  case 21: // misuse
    mk_tables(r, rc, 1, 3);
    rc.w[O_MISUSE] = 25;
    rc.s[S_BAD] = 10;
    rc.threads = (int)r.range(1, 3);
    break;
  case 22: // sequences and canary
    mk_tables(r, rc, 1, 3);
    set_s(rc, {{S_SEQ, 20}, {S_CANARY, 15}, {S_NEST, 6}});
    rc.max_sub = (int)r.logu(3, 20);
    rc.abort_pct = (u32)r.range(5, 50);
    switch (r.below(3)) {
    case 0:
      kills(r, rc, sc);
      break;
    case 1:
      power(r, rc, sc);
      break;
    }
    break;
  case 23: // inspection
    mk_tables(r, rc, 1, 3);
    rc.slots = (int)r.range(2, 3);
    rc.ro_slot = true;
    set_w(rc, {{O_CHK, 6}, {O_INFO, 8}, {O_WARMUP, 6}, {O_RDLIST, 4}, {O_COPY, 1}});
    rc.reopen_max = 4;
    rc.inspect = true;
    if (r.chance(1, 2))
      kills(r, rc, sc);
    else if (r.chance(1, 2))
      power(r, rc, sc);
    if (r.chance(1, 3))
      weak_sync(r, rc, sc.max_powers > 0);
    break;
  default:
    mk_tables(r, rc, 1, 4);
    break;
  }
  // a bit of everything else, for combinations not thought of
  if (!rc.churn && !rc.scenario && r.chance(1, 6)) {
    static const Op extra[] = {O_AMEND, O_EMBARK, O_REFRESH, O_CLONE,  O_PARK,    O_UNPARK,
                               O_SYNC,  O_POLL,   O_INFO,    O_RDLIST, O_RDCHECK, O_WARMUP, O_TXNINFO};
    for (Op o : extra)
      if (rc.w[o] < 5 && r.chance(1, 3))
        rc.w[o] += (u32)r.range(1, 8);
  }
  // lock-free protocols: more preemptions right between their steps
  if ((p == 4 || p == 5 || p == 12 || p == 14 || p == 16 || p == 19 || p == 20) && r.chance(1, 2))
    sc.mean_race = r.logu(3, 600);
  finish_cfg(rc, sc);
}
} // namespace sim
