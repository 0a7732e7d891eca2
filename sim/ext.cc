// Further calls which read: batches, scans, scrolling, distances, enumeration of tables, summary of the GC; deletion of ranges
#include "harness.h"

namespace sim {

static bool ext_fail(int rc, const char *what, const char *who) {
  if (rc == MDBX_SUCCESS)
    return false;
  (void)who;
  fail_ok(rc, what);
  return true;
}
static int seek_to(MDBX_cursor *c, const Table &tb, size_t i) {
  Bytes kb, db;
  enc_key(tb.spec, tb.v[i].k, kb);
  MDBX_val kv = kb.val(), dv{nullptr, 0};
  if (tb.spec.dup()) {
    enc_dup(tb.spec, tb.v[i].d, db);
    dv = db.val();
  }
  return API("mdbx_cursor_get", mdbx_cursor_get(c, &kv, &dv, tb.spec.dup() ? MDBX_GET_BOTH : MDBX_SET_KEY));
}
static void must_be_at(MDBX_cursor *c, const Table &tb, size_t i, const char *who, const char *what) {
  MDBX_val kv{nullptr, 0}, dv{nullptr, 0};
  int rc = API("mdbx_cursor_get", mdbx_cursor_get(c, &kv, &dv, MDBX_GET_CURRENT));
  std::string why;
  if (rc) {
    if (faults_fired() && rc != MDBX_NOTFOUND && rc != MDBX_ENODATA && rc != MDBX_CORRUPTED)
      return;
    if (gone_dbi(rc) && *who == 'r' && fail_ok(rc, what))
      return; // the table was dropped or renamed by another thread
    violation("cursor", "%s: table %s: MDBX_GET_CURRENT after %s returned %d instead of %u.%u", who, tb.spec.name.c_str(), what, rc, tb.v[i].k,
              tb.v[i].d);
  }
  if (!ent_at(tb, i, kv, dv, why))
    violation("cursor", "%s: table %s: %s leads to %s", who, tb.spec.name.c_str(), what, why.c_str());
}

struct ScanCtx {
  const Table *tb;
  size_t i, n, stop;
  bool back;
  std::string why;
};
static int scan_pred(void *ctx, MDBX_val *key, MDBX_val *value, void *) noexcept {
  ScanCtx &x = *(ScanCtx *)ctx;
  if (!ent_at(*x.tb, x.i, *key, *value, x.why))
    return MDBX_EPERM;
  if (x.n++ == x.stop)
    return MDBX_RESULT_TRUE;
  x.i += x.back ? -1 : 1;
  return MDBX_RESULT_FALSE;
}

// pos: where the cursors stand; all the calls are compared with the model
void cursor_ext(MDBX_txn *txn, const Table &tb, Rng &g, const char *who) {
  MDBX_dbi dbi;
  int rc = open_tab(txn, tb.spec.name, false, &dbi);
  if (ext_fail(rc, "mdbx_dbi_open", who))
    return;
  const size_t n = tb.v.size();
  MDBX_cursor *c[3] = {nullptr, nullptr, nullptr};
  for (auto &x : c)
    if (ext_fail(rc = API("mdbx_cursor_open", mdbx_cursor_open(txn, dbi, &x)), "mdbx_cursor_open", who)) {
      x = nullptr;
      break;
    }
  probe(45);
  do {
    if (rc)
      break;
    unsigned what = (unsigned)g.below(7);
    trace("ext %s %s kind %u, %zu items", who, tb.spec.name.c_str(), what, n);
    if (what == 0 && !tb.spec.dup()) {
      // batches
      MDBX_val pairs[40];
      size_t limit = 4 + g.below(36), i = 0;
      MDBX_cursor_op op = MDBX_FIRST;
      for (;;) {
        size_t cnt = 777;
        rc = API("mdbx_cursor_get_batch", mdbx_cursor_get_batch(c[0], &cnt, pairs, limit, op));
        if (rc && rc != MDBX_RESULT_TRUE && rc != MDBX_NOTFOUND && rc != MDBX_ENODATA) {
          ext_fail(rc, "mdbx_cursor_get_batch", who);
          break;
        }
        if (rc == MDBX_NOTFOUND || rc == MDBX_ENODATA) {
          if (i != n)
            violation("cursor", "%s: table %s: mdbx_cursor_get_batch ended with %d after %zu of %zu items", who, tb.spec.name.c_str(), rc, i, n);
          break;
        }
        std::string why;
        if (cnt > limit || (cnt & 1) || (!cnt && rc == 0))
          violation("cursor", "%s: table %s: mdbx_cursor_get_batch gave %zu values with limit %zu", who, tb.spec.name.c_str(), cnt, limit);
        for (size_t j = 0; j < cnt; j += 2, ++i)
          if (!ent_at(tb, i, pairs[j], pairs[j + 1], why))
            violation("cursor", "%s: table %s: item %zu of mdbx_cursor_get_batch is %s", who, tb.spec.name.c_str(), i, why.c_str());
        if (rc == MDBX_RESULT_TRUE) {
          if (i != n)
            violation("cursor", "%s: table %s: mdbx_cursor_get_batch says it was the last one after %zu of %zu items", who, tb.spec.name.c_str(),
                      i, n);
          break;
        }
        op = MDBX_NEXT;
      }
      break;
    }
    if (what == 1) {
      // a scan by a predicate
      ScanCtx x{&tb, 0, 0, g.chance(1, 2) ? ~(size_t)0 : g.below(n + 1), g.chance(1, 2), ""};
      x.i = x.back && n ? n - 1 : 0;
      rc = API("mdbx_cursor_scan", mdbx_cursor_scan(c[0], scan_pred, &x, x.back ? MDBX_LAST : MDBX_FIRST, x.back ? MDBX_PREV : MDBX_NEXT, nullptr));
      if (rc == MDBX_EPERM)
        violation("cursor", "%s: table %s: mdbx_cursor_scan met %s", who, tb.spec.name.c_str(), x.why.c_str());
      if (rc == MDBX_RESULT_TRUE) {
        if (x.n != x.stop + 1)
          violation("cursor", "%s: table %s: mdbx_cursor_scan returned true after %zu items", who, tb.spec.name.c_str(), x.n);
        must_be_at(c[0], tb, x.i, who, "mdbx_cursor_scan");
      } else if (rc == MDBX_RESULT_FALSE || rc == MDBX_NOTFOUND || rc == MDBX_ENODATA) {
        if (x.n != n)
          violation("cursor", "%s: table %s: mdbx_cursor_scan met %zu of %zu items", who, tb.spec.name.c_str(), x.n, n);
      } else
        ext_fail(rc, "mdbx_cursor_scan", who);
      break;
    }
    if (what == 2) {
      // an estimation must work, whatever it gives
      ptrdiff_t est = -1;
      Bytes a, b;
      u32 ka = (u32)g.below(tb.spec.kspace), kb2 = (u32)g.below(tb.spec.kspace);
      enc_key(tb.spec, std::min(ka, kb2), a), enc_key(tb.spec, std::max(ka, kb2), b);
      MDBX_val av = a.val(), bv = b.val();
      bool na = g.chance(1, 3), nb = g.chance(1, 3);
      rc = API("mdbx_estimate_range", mdbx_estimate_range(txn, dbi, na ? nullptr : &av, nullptr, nb ? nullptr : &bv, nullptr, &est));
      if (ext_fail(rc, "mdbx_estimate_range", who))
        break;
      trace("estimate %td", est);
      if (n == 0 && est != 0)
        violation("cursor", "%s: table %s: the size of a range of an empty table is estimated as %td", who, tb.spec.name.c_str(), est);
      break;
    }
    if (n == 0)
      break;
    size_t i = g.below(n), j = g.chance(1, 6) ? i : g.below(n);
    if (ext_fail(rc = seek_to(c[0], tb, i), "mdbx_cursor_get", who) || ext_fail(rc = seek_to(c[1], tb, j), "mdbx_cursor_get", who))
      break;
    if (what == 3 || what == 0) {
      // scrolling
      intptr_t a = g.chance(1, 4) ? (intptr_t)g.below(2 * n + 2) - (intptr_t)n : (intptr_t)g.below(9) - 4;
      rc = API("mdbx_cursor_scroll", mdbx_cursor_scroll(c[0], a, 42));
      intptr_t to = (intptr_t)i + a;
      bool in = to >= 0 && to < (intptr_t)n;
      if (rc == MDBX_SUCCESS) {
        if (!in)
          violation("cursor", "%s: table %s: mdbx_cursor_scroll by %td from item %zu of %zu succeeded", who, tb.spec.name.c_str(), a, i, n);
        must_be_at(c[0], tb, (size_t)to, who, "mdbx_cursor_scroll");
      } else if (rc == MDBX_NOTFOUND || rc == MDBX_ENODATA || rc == MDBX_RESULT_TRUE) {
        if (in)
          violation("cursor", "%s: table %s: mdbx_cursor_scroll by %td from item %zu of %zu returned %d", who, tb.spec.name.c_str(), a, i, n, rc);
      } else
        ext_fail(rc, "mdbx_cursor_scroll", who);
      break;
    }
    if (what == 4) {
      // distances
      unsigned z = (unsigned)g.below(4);
      intptr_t dist = 99999, want = z == 0 ? (intptr_t)j : z == 1 ? (intptr_t)(n - 1) - (intptr_t)i : (intptr_t)j - (intptr_t)i;
      rc = API("mdbx_cursor_distance", mdbx_cursor_distance(z == 0 ? nullptr : c[0], z == 1 ? nullptr : c[1], &dist, 42));
      if (ext_fail(rc, "mdbx_cursor_distance", who))
        break;
      if (dist != want)
        violation("cursor", "%s: table %s: mdbx_cursor_distance(%s,%s) of items %zu and %zu of %zu is %td instead of %td", who,
                  tb.spec.name.c_str(), z == 0 ? "null" : "first", z == 1 ? "null" : "last", i, j, n, dist, want);
      must_be_at(c[0], tb, i, who, "mdbx_cursor_distance");
      must_be_at(c[1], tb, j, who, "mdbx_cursor_distance");
      break;
    }
    if (what == 5) {
      // comparison and copying of positions
      int cmp = mdbx_cursor_compare(c[0], c[1], false);
      int want = i < j ? -1 : i > j;
      if ((cmp > 0) - (cmp < 0) != want)
        violation("cursor", "%s: table %s: mdbx_cursor_compare of items %zu and %zu gave %d", who, tb.spec.name.c_str(), i, j, cmp);
      if (tb.spec.dup()) {
        cmp = mdbx_cursor_compare(c[0], c[1], true);
        want = tb.v[i].k < tb.v[j].k ? -1 : tb.v[i].k > tb.v[j].k;
        if ((cmp > 0) - (cmp < 0) != want)
          violation("cursor", "%s: table %s: mdbx_cursor_compare by keys of items %zu and %zu gave %d", who, tb.spec.name.c_str(), i, j, cmp);
      }
      if (ext_fail(rc = API("mdbx_cursor_copy", mdbx_cursor_copy(c[0], c[2])), "mdbx_cursor_copy", who))
        break;
      must_be_at(c[2], tb, i, who, "mdbx_cursor_copy");
      MDBX_val kv, dv;
      rc = API("mdbx_cursor_get", mdbx_cursor_get(c[2], &kv, &dv, MDBX_NEXT)); // the copy is independent
      if (rc && rc != MDBX_NOTFOUND && ext_fail(rc, "mdbx_cursor_get", who))
        break;
      rc = 0;
      must_be_at(c[0], tb, i, who, "moving a copy of the cursor");
      break;
    }
    // statistics of a multi-value, being the first and last
    size_t cnt = 0, lo = tb.lower(tb.v[i].k), hi = tb.upper_key(tb.v[i].k);
    MDBX_stat st;
    if (ext_fail(rc = API("mdbx_cursor_count_ex", mdbx_cursor_count_ex(c[0], &cnt, &st, sizeof st)), "mdbx_cursor_count_ex", who))
      break;
    if (cnt != hi - lo)
      violation("cursor", "%s: table %s: mdbx_cursor_count_ex gave %zu instead of %zu", who, tb.spec.name.c_str(), cnt, hi - lo);
    auto yes = [&](int r, bool want, const char *name) {
      if (r != (want ? MDBX_RESULT_TRUE : MDBX_RESULT_FALSE) && !(faults_fired() && r != MDBX_RESULT_TRUE && r != MDBX_RESULT_FALSE))
        violation("cursor", "%s: table %s: %s at item %zu of %zu gave %d", who, tb.spec.name.c_str(), name, i, n, r);
    };
    yes(API("mdbx_cursor_on_first", mdbx_cursor_on_first(c[0])), tb.lower(tb.v[i].k) == 0, "mdbx_cursor_on_first");
    yes(API("mdbx_cursor_on_last", mdbx_cursor_on_last(c[0])), hi == n, "mdbx_cursor_on_last");
    yes(API("mdbx_cursor_on_first_dup", mdbx_cursor_on_first_dup(c[0])), i == lo, "mdbx_cursor_on_first_dup");
    yes(API("mdbx_cursor_on_last_dup", mdbx_cursor_on_last_dup(c[0])), i + 1 == hi, "mdbx_cursor_on_last_dup");
    yes(API("mdbx_cursor_eof", mdbx_cursor_eof(c[0])), false, "mdbx_cursor_eof");
    must_be_at(c[0], tb, i, who, "a look");
  } while (0);
  for (auto &x : c)
    if (x)
      APIV("mdbx_cursor_close", mdbx_cursor_close(x));
}

struct EnumCtx {
  const State *st;
  std::vector<std::string> names;
  std::string why;
};
static int enum_cb(void *ctx, const MDBX_txn *, const MDBX_val *name, MDBX_db_flags_t flags, const MDBX_stat *stat, MDBX_dbi) noexcept {
  EnumCtx &x = *(EnumCtx *)ctx;
  std::string n((const char *)name->iov_base, name->iov_len);
  char b[200];
  const Table *tb = x.st->get(n);
  if (!tb)
    x.why = "lists table '" + n + "' which does not exist";
  else if (stat->ms_entries != tb->v.size()) {
    snprintf(b, sizeof b, "gives %llu items in table %s instead of %zu", (unsigned long long)stat->ms_entries, n.c_str(), tb->v.size());
    x.why = b;
  } else if (((flags ^ tb->spec.flags) & 0xff & ~(unsigned)MDBX_DB_ACCEDE) != 0) {
    snprintf(b, sizeof b, "gives flags %x of table %s instead of %x", (unsigned)flags, n.c_str(), tb->spec.flags);
    x.why = b;
  }
  x.names.push_back(n);
  return MDBX_RESULT_FALSE;
}
struct GcCtx {
  std::vector<std::pair<u64, u64>> spans;
  u64 sum = 0, recl = 0, maxid = 0;
  size_t stop = ~(size_t)0;
};
static int gc_cb(void *ctx, const MDBX_txn *, uint64_t id, size_t pgno, size_t len, bool recl) noexcept {
  GcCtx &x = *(GcCtx *)ctx;
  x.spans.emplace_back(pgno, len);
  x.sum += len;
  if (recl)
    x.recl += len;
  if (id > x.maxid)
    x.maxid = id;
  return x.spans.size() > x.stop ? MDBX_EINTR : MDBX_RESULT_FALSE;
}

// What the calls about a transaction tell must fit to its state; in a reader no page may be both free and outside of the snapshot
void txn_inspect(MDBX_txn *txn, const State &st, Rng &g, const char *who, u64 T, bool writer) {
  probe(46);
  unsigned what = (unsigned)g.below(4);
  trace("inspect %s txn %llu kind %u", who, (unsigned long long)T, what);
  if (what == 0) {
    EnumCtx x{&st, {}, ""};
    int rc = API("mdbx_enumerate_tables", mdbx_enumerate_tables(txn, enum_cb, &x));
    if (ext_fail(rc, "mdbx_enumerate_tables", who))
      return;
    if (!x.why.empty())
      violation("inspect", "%s: mdbx_enumerate_tables %s", who, x.why.c_str());
    if (x.names.size() != st.t.size())
      violation("inspect", "%s: mdbx_enumerate_tables lists %zu tables instead of %zu", who, x.names.size(), st.t.size());
    return;
  }
  if (what == 1) {
    for (auto &kv : st.t) {
      MDBX_dbi dbi;
      MDBX_stat s;
      unsigned f = 0, state = 0;
      if (ext_fail(open_tab(txn, kv.first, false, &dbi), "mdbx_dbi_open", who) ||
          ext_fail(API("mdbx_dbi_stat", mdbx_dbi_stat(txn, dbi, &s, sizeof s)), "mdbx_dbi_stat", who) ||
          ext_fail(API("mdbx_dbi_flags_ex", mdbx_dbi_flags_ex(txn, dbi, &f, &state)), "mdbx_dbi_flags_ex", who))
        return;
      if (s.ms_entries != kv.second->v.size())
        violation("inspect", "%s: mdbx_dbi_stat gives %llu items in %s instead of %zu", who, (unsigned long long)s.ms_entries, kv.first.c_str(),
                  kv.second->v.size());
      uint64_t q = 0xabcdef;
      if (ext_fail(API("mdbx_dbi_sequence", mdbx_dbi_sequence(txn, dbi, &q, 0)), "mdbx_dbi_sequence", who))
        return;
      if (q != kv.second->seq)
        violation("inspect", "%s: the sequence of %s is %llu instead of %llu", who, kv.first.c_str(), (unsigned long long)q,
                  (unsigned long long)kv.second->seq);
    }
    return;
  }
  if (what == 2) {
    MDBX_txn_info i;
    memset(&i, 0, sizeof i);
    if (ext_fail(API("mdbx_txn_info", mdbx_txn_info(txn, &i, g.chance(1, 2))), "mdbx_txn_info", who))
      return;
    if (i.txn_id != T)
      violation("inspect", "%s: mdbx_txn_info gives id %llu instead of %llu", who, (unsigned long long)i.txn_id, (unsigned long long)T);
    return;
  }
  MDBX_gc_info_t i;
  GcCtx x;
  if (g.chance(1, 3))
    x.stop = g.below(6);
  int rc = API("mdbx_gc_info", mdbx_gc_info(txn, &i, sizeof i, gc_cb, &x));
  trace("gc_info -> %d, %zu spans", rc, x.spans.size());
  if (rc == MDBX_NOTFOUND) // no rows in the GC
    return;
  if (x.spans.size() > x.stop) {
    if (rc != MDBX_EINTR || x.spans.size() != x.stop + 1)
      violation("inspect", "%s: mdbx_gc_info went on and returned %d though the visitor had stopped it", who, rc);
    return;
  }
  if (ext_fail(rc, "mdbx_gc_info", who))
    return;
  std::sort(x.spans.begin(), x.spans.end());
  u64 edge = 3;
  for (auto &s : x.spans) {
    if (s.first < edge || s.first + s.second > i.pages_allocated)
      violation("pages", "%s: pages %llu..%llu of the GC of txn %llu overlap others or are outside of the snapshot of %llu pages", who,
                (unsigned long long)s.first, (unsigned long long)(s.first + s.second), (unsigned long long)T, (unsigned long long)i.pages_allocated);
    edge = s.first + s.second;
  }
  if (i.pages_gc > i.pages_allocated || i.gc_reclaimable.pages > i.pages_gc || (!writer && x.recl != i.gc_reclaimable.pages) ||
      x.sum > i.pages_gc || x.maxid > T)
    violation("inspect", "%s: mdbx_gc_info is inconsistent: %zu allocated, %zu in GC, %zu reclaimable, %llu listed (%llu reclaimable)", who,
              i.pages_allocated, i.pages_gc, i.gc_reclaimable.pages, (unsigned long long)x.sum, (unsigned long long)x.recl);
}

// returns an error code of the library
int delete_range(MDBX_txn *txn, Table &tb, Rng &g) {
  MDBX_dbi dbi;
  int rc = open_tab(txn, tb.spec.name, false, &dbi);
  if (rc)
    return rc;
  const size_t n = tb.v.size();
  if (n == 0)
    return 0;
  MDBX_cursor *c[2] = {nullptr, nullptr};
  for (auto &x : c)
    if ((rc = API("mdbx_cursor_open", mdbx_cursor_open(txn, dbi, &x)))) {
      x = nullptr;
      break;
    }
  if (!rc) {
    size_t i = g.below(n), j = i + (g.chance(1, 3) ? g.below(n - i) : std::min<u64>(g.below(12), n - 1 - i));
    unsigned z = (unsigned)g.below(8);
    bool incl = g.chance(1, 2);
    if (z == 0 && i > 40 && g.chance(3, 4))
      z = 2;
    if (z == 1 && n - i > 40 && g.chance(3, 4))
      z = 2;
    rc = seek_to(c[0], tb, i);
    if (!rc)
      rc = seek_to(c[1], tb, j);
    if (!rc) {
      size_t a = z == 0 ? 0 : i, b = (z == 1 ? n - 1 : j) + incl;
      uint64_t cnt = 9999;
      rc = API("mdbx_cursor_delete_range", mdbx_cursor_delete_range(z == 0 ? nullptr : c[0], z == 1 ? nullptr : c[1], incl, &cnt));
      trace("delete-range %s %zu..%zu of %zu -> %d, %llu", tb.spec.name.c_str(), a, b, n, rc, (unsigned long long)cnt);
      probe(47);
      if (rc == 0) {
        if (cnt != b - a)
          violation("map", "mdbx_cursor_delete_range(%s) of items %zu..%zu of %zu deleted %llu", tb.spec.name.c_str(), a, b, n,
                    (unsigned long long)cnt);
        tb.erase_range(a, b);
      } else if (a == b && (rc == MDBX_NOTFOUND || rc == MDBX_ENODATA || rc == MDBX_RESULT_TRUE))
        rc = 0;
    }
  }
  for (auto &x : c)
    if (x)
      APIV("mdbx_cursor_close", mdbx_cursor_close(x));
  return rc;
}
// Deletion (1) or renaming (2) of a changed table within a nested transaction which is aborted: the table and its handle
// must be as they were.
void scenario_run(Thr &t, Rng &r) {
  const bool drop = G.rc.scenario == 1;
  const char *cls = drop ? "nested-drop" : "nested-rename";
  MDBX_env *env = t.p->env;
  MDBX_txn *txn, *nested;
  const TabSpec *spec = nullptr;
  for (auto &s : G.specs)
    if (!s.dup())
      spec = &s;
  if (!spec)
    return;
  if (ext_fail(API("mdbx_txn_begin", mdbx_txn_begin_ex(env, nullptr, MDBX_TXN_READWRITE, &txn, nullptr)), "mdbx_txn_begin", "scenario"))
    return;
  MDBX_dbi dbi;
  if (ext_fail(open_tab(txn, spec->name, false, &dbi), "mdbx_dbi_open", "scenario"))
    return;
  MDBX_stat before, after;
  for (u32 n = (u32)r.range(1, 9); n--;) {
    Bytes k;
    enc_key(*spec, n, k);
    MDBX_val kv = k.val(), dv = {(void *)"scenario", 8};
    if (ext_fail(API("mdbx_put", mdbx_put(txn, dbi, &kv, &dv, MDBX_UPSERT)), "mdbx_put", "scenario"))
      return;
  }
  if (ext_fail(API("mdbx_dbi_stat", mdbx_dbi_stat(txn, dbi, &before, sizeof before)), "mdbx_dbi_stat", "scenario") ||
      ext_fail(API("mdbx_txn_begin(nested)", mdbx_txn_begin_ex(env, txn, MDBX_TXN_READWRITE, &nested, nullptr)), "mdbx_txn_begin", "scenario"))
    return;
  std::string to = spec->name;
  to.back() = 'c';
  int rc = drop ? API("mdbx_drop", mdbx_drop(nested, dbi, true)) : API("mdbx_dbi_rename", mdbx_dbi_rename(nested, dbi, to.c_str()));
  if (ext_fail(rc, "change of a table", "scenario") || ext_fail(API("mdbx_txn_abort(nested)", mdbx_txn_abort(nested)), "mdbx_txn_abort", "scenario"))
    return;
  MDBX_dbi again;
  rc = API("mdbx_dbi_open", mdbx_dbi_open(txn, spec->name.c_str(), (MDBX_db_flags_t)spec->flags, &again));
  if (rc)
    violation(cls, "mdbx_dbi_open of a table with uncommitted items returns %d after the nested transaction, in which the table was %s, has been aborted",
              rc, drop ? "deleted" : "renamed");
  rc = API("mdbx_dbi_stat", mdbx_dbi_stat(txn, again, &after, sizeof after));
  if (rc || after.ms_entries != before.ms_entries)
    violation(cls, "a table has %llu items (rc %d) instead of %llu after the nested transaction, in which the table was %s, has been aborted",
              (unsigned long long)after.ms_entries, rc, (unsigned long long)before.ms_entries, drop ? "deleted" : "renamed");
  API("mdbx_txn_abort", mdbx_txn_abort(txn));
}

} // namespace sim
