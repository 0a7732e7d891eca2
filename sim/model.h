// Reference model: tables are ordered maps/multimaps of small numbers; the bytes seen by the library
// are an order-preserving encoding of these numbers, so that content is decoded and compared exactly.
#pragma once
#include "sim.h"
#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "mdbx.h"

namespace sim {

enum KeyScheme { KS_BE_PAD = 0, KS_PREFIX, KS_GROW, KS_INT8, KS_INT4, KS_REV, KS_LONG };
enum ValScheme { VS_BYTES = 0, /* dup schemes: */ VS_DUP_PAD, VS_DUP_FIX8, VS_DUP_FIX16, VS_DUP_INT8, VS_DUP_INT4, VS_DUP_REV, VS_DUP_FIXREV };

struct TabSpec {
  std::string name;
  unsigned flags = 0;
  int ks = 0, vs = 0;
  u32 kspace = 256, dspace = 16;
  u32 keylen = 16; // bound for paddings
  u32 duplen = 16;
  bool dup() const { return vs != VS_BYTES; }
};

struct Ent {
  u32 k, d;
  u64 tag;
  u32 len;
  bool operator==(const Ent &o) const { return k == o.k && d == o.d && tag == o.tag && len == o.len; }
};
inline u64 ent_hash(const Ent &e) { return hash2(hash2(e.k, e.d), hash2(e.tag, e.len)); }
inline bool ent_less(const Ent &a, const Ent &b) { return a.k != b.k ? a.k < b.k : a.d < b.d; }

struct Table {
  TabSpec spec;
  std::vector<Ent> v;
  u64 xh = 0; // xor of entry hashes
  u64 seq = 0;
  size_t lower(u32 k, u32 d = 0) const {
    Ent e{k, d, 0, 0};
    return std::lower_bound(v.begin(), v.end(), e, ent_less) - v.begin();
  }
  size_t upper_key(u32 k) const { return k == ~0u ? v.size() : lower(k + 1, 0); }
  bool has_key(u32 k) const {
    size_t i = lower(k);
    return i < v.size() && v[i].k == k;
  }
  bool has(u32 k, u32 d) const {
    size_t i = lower(k, d);
    return i < v.size() && v[i].k == k && v[i].d == d;
  }
  void put(const Ent &e) {
    size_t i = lower(e.k, e.d);
    if (i < v.size() && v[i].k == e.k && v[i].d == e.d) {
      xh ^= ent_hash(v[i]);
      v[i] = e;
    } else
      v.insert(v.begin() + i, e);
    xh ^= ent_hash(e);
  }
  void erase_range(size_t a, size_t b) {
    for (size_t i = a; i < b; ++i)
      xh ^= ent_hash(v[i]);
    v.erase(v.begin() + a, v.begin() + b);
  }
  void clear() { v.clear(), xh = 0; }
  u64 hash() const { return hash2(xh, hash2(v.size(), seq)); }
};
typedef std::shared_ptr<Table> TableP;

struct State {
  std::map<std::string, TableP> t;
  u64 can[3] = {0, 0, 0};
  Table &mut(const std::string &n) {
    TableP &p = t[n];
    if (p.use_count() > 1)
      p = std::make_shared<Table>(*p);
    return *p;
  }
  const Table *get(const std::string &n) const {
    auto it = t.find(n);
    return it == t.end() ? nullptr : it->second.get();
  }
  u64 hash() const {
    u64 h = hash2(can[0], hash2(can[1], can[2]));
    for (auto &kv : t) {
      u64 nh = 7;
      for (char c : kv.first)
        nh = nh * 131 + c;
      h += hash2(nh, kv.second->hash());
    }
    return h;
  }
  size_t items() const {
    size_t n = 0;
    for (auto &kv : t)
      n += kv.second->v.size();
    return n;
  }
};

// ------------------------------------------------------------------ encoding
struct Bytes {
  u8 b[2100];
  size_t n = 0;
  MDBX_val val() { return MDBX_val{b, n}; }
};
inline void be32(u8 *p, u32 v) { p[0] = v >> 24, p[1] = v >> 16, p[2] = v >> 8, p[3] = v; }
inline u32 rbe32(const u8 *p) { return (u32)p[0] << 24 | (u32)p[1] << 16 | (u32)p[2] << 8 | p[3]; }
inline void fill_bytes(u8 *p, size_t n, u64 tag) {
  for (size_t i = 0; i < n; i += 8) {
    u64 x = mix64(tag + (i >> 3) * 0x9E37u);
    memcpy(p + i, &x, n - i < 8 ? n - i : 8);
  }
}
// order-preserving key encodings
inline void enc_num(int scheme, u32 k, u32 maxlen, Bytes &o) {
  switch (scheme) {
  default:
  case KS_BE_PAD: {
    be32(o.b, k);
    size_t pad = maxlen > 4 ? mix64(k * 77ull + 5) % (maxlen - 4 + 1) : 0;
    fill_bytes(o.b + 4, pad, k);
    o.n = 4 + pad;
    break;
  }
  case KS_PREFIX: {
    size_t pre = maxlen > 6 ? maxlen - 6 : 0;
    memset(o.b, 'p', pre);
    be32(o.b + pre, k);
    size_t pad = mix64(k + 9ull) % 3;
    memset(o.b + pre + 4, 0, pad);
    o.n = pre + 4 + pad;
    break;
  }
  case KS_GROW: {
    // a key may be a prefix of its successors; number 0 is the empty key
    if (k == 0) {
      o.n = 0;
      break;
    }
    u32 base = k >> 2, z = k & 3;
    o.b[0] = 1;
    be32(o.b + 1, base);
    memset(o.b + 5, 0, z);
    o.n = 5 + z;
    break;
  }
  case KS_INT8: {
    u64 v = (u64)k << (k & 1 ? 0 : 0);
    v |= (u64)k << 33;
    memcpy(o.b, &v, 8);
    o.n = 8;
    break;
  }
  case KS_INT4:
    memcpy(o.b, &k, 4);
    o.n = 4;
    break;
  case KS_REV: {
    size_t pad = maxlen > 4 ? mix64(k * 31ull + 3) % (maxlen - 4 + 1) : 0;
    fill_bytes(o.b, pad, k + 1);
    memcpy(o.b + pad, &k, 4);
    o.n = pad + 4;
    break;
  }
  case KS_LONG: {
    be32(o.b, k);
    fill_bytes(o.b + 4, maxlen - 4, k);
    o.n = maxlen;
    break;
  }
  }
}
inline bool dec_num(int scheme, const MDBX_val &v, u32 maxlen, u32 &k) {
  const u8 *p = (const u8 *)v.iov_base;
  switch (scheme) {
  default:
  case KS_BE_PAD:
  case KS_LONG:
    if (v.iov_len < 4)
      return false;
    k = rbe32(p);
    break;
  case KS_PREFIX: {
    size_t pre = maxlen > 6 ? maxlen - 6 : 0;
    if (v.iov_len < pre + 4)
      return false;
    k = rbe32(p + pre);
    break;
  }
  case KS_GROW:
    if (v.iov_len == 0) {
      k = 0;
      return true;
    }
    if (v.iov_len < 5)
      return false;
    k = rbe32(p + 1) << 2 | (u32)(v.iov_len - 5);
    break;
  case KS_INT8:
    if (v.iov_len != 8)
      return false;
    memcpy(&k, p, 4);
    break;
  case KS_INT4:
    if (v.iov_len != 4)
      return false;
    memcpy(&k, p, 4);
    break;
  case KS_REV:
    if (v.iov_len < 4)
      return false;
    memcpy(&k, p + v.iov_len - 4, 4);
    break;
  }
  Bytes e;
  enc_num(scheme, k, maxlen, e);
  return e.n == v.iov_len && (e.n == 0 || memcmp(e.b, p, e.n) == 0);
}
inline int dup_scheme(int vs) {
  switch (vs) {
  case VS_DUP_PAD:
    return KS_BE_PAD;
  case VS_DUP_FIX8:
  case VS_DUP_FIX16:
    return KS_LONG;
  case VS_DUP_INT8:
    return KS_INT8;
  case VS_DUP_INT4:
    return KS_INT4;
  case VS_DUP_REV:
    return KS_REV;
  case VS_DUP_FIXREV:
    return 100;
  }
  return KS_BE_PAD;
}
inline u32 dup_len(const TabSpec &s) { return s.vs == VS_DUP_FIX8 ? 8 : s.vs == VS_DUP_FIX16 ? 16 : s.duplen; }
inline void enc_key(const TabSpec &s, u32 k, Bytes &o) { enc_num(s.ks, k, s.keylen, o); }
inline bool dec_key(const TabSpec &s, const MDBX_val &v, u32 &k) { return dec_num(s.ks, v, s.keylen, k); }
inline void enc_dup(const TabSpec &s, u32 d, Bytes &o) {
  if (s.vs == VS_DUP_FIXREV) { // fixed size, compared backwards
    fill_bytes(o.b, 8, d);
    memcpy(o.b + 8, &d, 4);
    o.n = 12;
    return;
  }
  enc_num(dup_scheme(s.vs), d, dup_len(s), o);
}
inline bool dec_dup(const TabSpec &s, const MDBX_val &v, u32 &d) {
  if (s.vs == VS_DUP_FIXREV) {
    if (v.iov_len != 12)
      return false;
    memcpy(&d, (const u8 *)v.iov_base + 8, 4);
    Bytes e;
    enc_dup(s, d, e);
    return memcmp(e.b, v.iov_base, 12) == 0;
  }
  return dec_num(dup_scheme(s.vs), v, dup_len(s), d);
}
// single values: 8 bytes of the tag when long enough, then derived bytes
inline void enc_val(u64 tag, u32 len, u8 *p) {
  if (len >= 8) {
    memcpy(p, &tag, 8);
    fill_bytes(p + 8, len - 8, tag);
  } else {
    u8 t[8];
    fill_bytes(t, 8, tag);
    memcpy(p, t, len);
  }
}
// checks every byte of a value against its own tag
inline bool self_consistent(const MDBX_val &v, u64 &tag) {
  const u8 *p = (const u8 *)v.iov_base;
  if (v.iov_len < 8)
    return false;
  memcpy(&tag, p, 8);
  size_t n = v.iov_len - 8;
  p += 8;
  for (size_t i = 0; i < n; i += 8) {
    u64 x = mix64(tag + (i >> 3) * 0x9E37u), y = 0;
    size_t c = n - i < 8 ? n - i : 8;
    memcpy(&y, p + i, c);
    if (c < 8)
      x &= (1ull << (c * 8)) - 1;
    if (x != y)
      return false;
  }
  return true;
}
// short values carry the low bits of their tag directly (tags of short values are truncated)
inline u64 tag_for_len(u64 tag, u32 len) {
  if (len >= 8)
    return tag;
  return len == 0 ? 0 : tag & ((1ull << (len * 8)) - 1);
}
inline void put_val(u64 tag, u32 len, u8 *p) {
  if (len >= 8)
    enc_val(tag, len, p);
  else
    memcpy(p, &tag, len);
}
inline bool get_val(const MDBX_val &v, u64 &tag) {
  if (v.iov_len >= 8)
    return self_consistent(v, tag);
  tag = 0;
  memcpy(&tag, v.iov_base, v.iov_len);
  return true;
}
inline bool decode(const TabSpec &s, const MDBX_val &k, const MDBX_val &v, Ent &e) {
  if (!dec_key(s, k, e.k))
    return false;
  if (s.dup()) {
    e.tag = 0;
    e.len = 0;
    return dec_dup(s, v, e.d);
  }
  e.d = 0;
  e.len = (u32)v.iov_len;
  return get_val(v, e.tag);
}

} // namespace sim
