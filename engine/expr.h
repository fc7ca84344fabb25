// Hash-consed bit-vector expression DAG with eager simplification.
// Widths 1..128.  Width-1 expressions double as booleans.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;
typedef int64_t s64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8 {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT
};

struct E {
  Op op; u8 w; u8 nk;
  u32 id;
  u32 lo;              // EXTRACT low bit / VAR index
  E *k[3];
  u128 c;              // CONST value
  u128 mn, mx;         // unsigned range
  u128 kz, ko;         // known zero / known one bits
  u64 vm[4];           // variable-support mask (var index mod 256)
  u64 stamp; u128 ev;  // evaluation memo
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sx(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 m = (u128)1 << (w - 1); v &= maskw(w);
  return (s128)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; u128 lo, hi; E *e; };
static std::vector<VarInfo> g_vars;

struct Key { Op op; u8 w; u32 lo; E *k[3]; u128 c;
  bool operator==(const Key &o) const { return op == o.op && w == o.w && lo == o.lo && k[0] == o.k[0] && k[1] == o.k[1] && k[2] == o.k[2] && c == o.c; } };
struct KeyH { size_t operator()(const Key &k) const {
  u64 h = k.op * 0x9E3779B97F4A7C15ull ^ k.w * 0xC2B2AE3D27D4EB4Full ^ ((u64)k.lo << 32);
  for (int i = 0; i < 3; i++) h = (h ^ (u64)(k.k[i] ? k.k[i]->id + 1 : 0)) * 0x9FB21C651E98DF25ull, h ^= h >> 29;
  h = (h ^ (u64)k.c) * 0x9FB21C651E98DF25ull; h ^= h >> 32; h = (h ^ (u64)(k.c >> 64)) * 0x9FB21C651E98DF25ull; return h ^ (h >> 31); } };
static std::unordered_map<Key, E *, KeyH> g_tab;
static u32 g_next_id = 1;
static u64 g_nodes = 0;

static E *arena_new() {
  static E *blk = nullptr; static size_t left = 0;
  if (!left) { left = 8192; blk = (E *)malloc(sizeof(E) * left); if (!blk) { fprintf(stderr, "oom\n"); exit(3); } }
  left--; g_nodes++; E *r = blk++; memset((void *)r, 0, sizeof(E)); return r;
}

static unsigned clz128(u128 v) { // number of leading zeros in 128
  u64 h = (u64)(v >> 64); if (h) return __builtin_clzll(h); u64 l = (u64)v; return l ? 64 + __builtin_clzll(l) : 128; }
static unsigned ctz128(u128 v) { u64 l = (u64)v; if (l) return __builtin_ctzll(l); u64 h = (u64)(v >> 64); return h ? 64 + __builtin_ctzll(h) : 128; }
static unsigned bitlen(u128 v) { return 128 - clz128(v); }

static u128 evalop(Op op, unsigned w, u32 lo, const u128 *a, const unsigned *aw) {
  u128 m = maskw(w);
  switch (op) {
  case O_ADD: return (a[0] + a[1]) & m;
  case O_SUB: return (a[0] - a[1]) & m;
  case O_MUL: return (a[0] * a[1]) & m;
  case O_UDIV: return a[1] ? a[0] / a[1] : m;
  case O_UREM: return a[1] ? a[0] % a[1] : a[0];
  case O_SDIV: { s128 x = sx(a[0], w), y = sx(a[1], w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
  case O_SREM: { s128 x = sx(a[0], w), y = sx(a[1], w); if (!y) return a[0]; if (y == -1) return 0; return (u128)(x % y) & m; }
  case O_AND: return a[0] & a[1];
  case O_OR: return a[0] | a[1];
  case O_XOR: return a[0] ^ a[1];
  case O_SHL: return a[1] >= w ? 0 : (a[0] << (unsigned)a[1]) & m;
  case O_LSHR: return a[1] >= w ? 0 : a[0] >> (unsigned)a[1];
  case O_ASHR: { s128 x = sx(a[0], w); unsigned s = a[1] >= w ? w - 1 : (unsigned)a[1]; return (u128)(x >> s) & m; }
  case O_EQ: return a[0] == a[1];
  case O_ULT: return a[0] < a[1];
  case O_ULE: return a[0] <= a[1];
  case O_SLT: return sx(a[0], aw[0]) < sx(a[1], aw[0]);
  case O_SLE: return sx(a[0], aw[0]) <= sx(a[1], aw[0]);
  case O_ITE: return a[0] ? a[1] : a[2];
  case O_CONCAT: return (a[0] << aw[1]) | a[1];
  case O_EXTRACT: return (a[0] >> lo) & m;
  case O_ZEXT: return a[0];
  case O_SEXT: return (u128)sx(a[0], aw[0]) & m;
  default: return 0;
  }
}

static void infer(E *e) {
  unsigned w = e->w; u128 m = maskw(w);
  e->mn = 0; e->mx = m; e->kz = 0; e->ko = 0;
  E *a = e->k[0], *b = e->k[1], *c = e->k[2];
  switch (e->op) {
  case O_CONST: e->mn = e->mx = e->c; e->ko = e->c; e->kz = ~e->c & m; return;
  case O_VAR: { VarInfo &v = g_vars[e->lo]; e->mn = v.lo; e->mx = v.hi; break; }
  case O_ADD: {
    u128 s = a->mx + b->mx; if (s >= a->mx && s <= m) { e->mn = a->mn + b->mn; e->mx = s; }
    else if (w < 128 && a->mn + b->mn > m && s - m - 1 <= m) { e->mn = a->mn + b->mn - m - 1; e->mx = s - m - 1; } // wraps for all values
    // trailing known bits
    unsigned t = std::min(ctz128(~(a->kz | a->ko)), ctz128(~(b->kz | b->ko))); if (t > w) t = w;
    u128 tm = maskw(t); if (!t) tm = 0; u128 v = (a->ko + b->ko) & tm; e->ko |= v; e->kz |= ~v & tm; break; }
  case O_SUB: {
    if (a->mn >= b->mx) { e->mn = a->mn - b->mx; e->mx = a->mx - b->mn; }
    unsigned t = std::min(ctz128(~(a->kz | a->ko)), ctz128(~(b->kz | b->ko))); if (t > w) t = w;
    u128 tm = t ? maskw(t) : 0; u128 v = (a->ko - b->ko) & tm; e->ko |= v; e->kz |= ~v & tm; break; }
  case O_MUL: {
    if (bitlen(a->mx) + bitlen(b->mx) <= w || (bitlen(a->mx) + bitlen(b->mx) <= 128 && a->mx * b->mx <= m)) { e->mn = a->mn * b->mn; e->mx = a->mx * b->mx; }
    unsigned t = std::min<unsigned>(w, ctz128(~a->kz) + ctz128(~b->kz)); if (t) e->kz |= maskw(t); break; }
  case O_UDIV: if (b->mn > 0) { e->mn = a->mn / b->mx; e->mx = a->mx / b->mn; } break;
  case O_UREM: if (b->mn > 0) { e->mx = std::min(a->mx, b->mx - 1); } break;
  case O_AND: e->kz = a->kz | b->kz; e->ko = a->ko & b->ko; e->mx = std::min(a->mx, b->mx); break;
  case O_OR: e->kz = a->kz & b->kz; e->ko = a->ko | b->ko; e->mn = std::max(a->mn, b->mn);
    e->mx = std::min(m, maskw(std::max(1u, std::max(bitlen(a->mx), bitlen(b->mx))))); break;
  case O_XOR: e->kz = (a->kz & b->kz) | (a->ko & b->ko); e->ko = (a->kz & b->ko) | (a->ko & b->kz);
    e->mx = std::min(m, maskw(std::max(1u, std::max(bitlen(a->mx), bitlen(b->mx))))); break;
  case O_SHL: if (b->op == O_CONST) { unsigned s = (unsigned)b->c; e->kz = ((a->kz << s) | maskw(s)) & m; if (!s) e->kz = a->kz; e->ko = (a->ko << s) & m;
      if (bitlen(a->mx) + s <= w) { e->mn = a->mn << s; e->mx = a->mx << s; } }
    else { unsigned t = ctz128(~a->kz); if (t > w) t = w; if (t) e->kz = maskw(t);
      if (b->mx < 128 && bitlen(a->mx) + (unsigned)b->mx <= w) { e->mn = a->mn << (unsigned)b->mn; e->mx = a->mx << (unsigned)b->mx; } } break;
  case O_LSHR: if (b->op == O_CONST) { unsigned s = (unsigned)b->c; e->kz = (a->kz >> s) | (m & ~(m >> s)); e->ko = a->ko >> s; e->mn = a->mn >> s; e->mx = a->mx >> s; }
    else { e->mx = b->mn >= w ? 0 : a->mx >> (unsigned)b->mn; e->mn = b->mx >= w ? 0 : a->mn >> (unsigned)b->mx; } break;
  case O_ASHR: if (b->op == O_CONST) { unsigned s = (unsigned)b->c; u128 sb = (u128)1 << (w - 1); u128 hi = m & ~(m >> s);
      e->kz = ((a->kz >> s) & ~hi) | ((a->kz & sb) ? hi : 0); e->ko = ((a->ko >> s) & ~hi) | ((a->ko & sb) ? hi : 0);
      if (a->mx < sb) { e->mn = a->mn >> s; e->mx = a->mx >> s; } } break;
  case O_ITE: e->mn = std::min(b->mn, c->mn); e->mx = std::max(b->mx, c->mx); e->kz = b->kz & c->kz; e->ko = b->ko & c->ko; break;
  case O_CONCAT: e->mn = (a->mn << b->w) | b->mn; e->mx = (a->mx << b->w) | b->mx; e->kz = (a->kz << b->w) | b->kz; e->ko = (a->ko << b->w) | b->ko; break;
  case O_EXTRACT: e->kz = (a->kz >> e->lo) & m; e->ko = (a->ko >> e->lo) & m;
    if ((a->mx >> e->lo) <= m) { e->mn = a->mn >> e->lo; e->mx = a->mx >> e->lo; } break;
  case O_ZEXT: e->mn = a->mn; e->mx = a->mx; e->kz = a->kz | (m & ~maskw(a->w)); e->ko = a->ko; break;
  case O_SEXT: { u128 sb = (u128)1 << (a->w - 1), hi = m & ~maskw(a->w);
    e->kz = a->kz | ((a->kz & sb) ? hi : 0); e->ko = a->ko | ((a->ko & sb) ? hi : 0);
    if (a->mx < sb) { e->mn = a->mn; e->mx = a->mx; } else if (a->mn >= sb) { e->mn = a->mn | hi; e->mx = a->mx | hi; } break; }
  default: break;
  }
  // cross-refine
  e->kz &= m; e->ko &= m;
  if (e->ko > e->mn) e->mn = e->ko;
  if ((m & ~e->kz) < e->mx) e->mx = m & ~e->kz;
  if (e->mn <= e->mx) {
    u128 d = e->mn ^ e->mx; unsigned bl = bitlen(d); u128 pm = m & ~(bl ? maskw(bl) : 0);
    e->ko |= e->mn & pm; e->kz |= ~e->mn & pm;
  }
}

static E *mkraw(Op op, unsigned w, E *a, E *b, E *c, u32 lo, u128 cv) {
  Key key{op, (u8)w, lo, {a, b, c}, cv};
  auto it = g_tab.find(key); if (it != g_tab.end()) return it->second;
  E *e = arena_new(); e->op = op; e->w = (u8)w; e->lo = lo; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->c = cv;
  e->nk = a ? (b ? (c ? 3 : 2) : 1) : 0; e->id = g_next_id++;
  for (int i = 0; i < e->nk; i++) for (int j = 0; j < 4; j++) e->vm[j] |= e->k[i]->vm[j];
  if (op == O_VAR) e->vm[(lo >> 6) & 3] |= (u64)1 << (lo & 63);
  infer(e); g_tab.emplace(key, e); return e;
}
static E *mkc(u128 v, unsigned w) { return mkraw(O_CONST, w, 0, 0, 0, 0, v & maskw(w)); }
static inline bool isc(E *e) { return e->op == O_CONST; }
static E *mk(Op op, unsigned w, E *a, E *b = 0, E *c = 0, u32 lo = 0);
static E *mknot(E *a) { // boolean / bitwise not
  return mk(O_XOR, a->w, a, mkc(~(u128)0, a->w)); }
static E *mkextract(E *a, unsigned hi, unsigned lo) { return mk(O_EXTRACT, hi - lo + 1, a, 0, 0, lo); }
static E *mkzext(E *a, unsigned w) { return w == a->w ? a : w < a->w ? mkextract(a, w - 1, 0) : mk(O_ZEXT, w, a); }
static E *mksext(E *a, unsigned w) { return w == a->w ? a : mk(O_SEXT, w, a); }
static E *mkconcat(E *a, E *b) { return mk(O_CONCAT, a->w + b->w, a, b); }
static E *mkite(E *c, E *a, E *b) { return mk(O_ITE, a->w, c, a, b); }
static E *mkeq(E *a, E *b) { return mk(O_EQ, 1, a, b); }
static bool isnot(E *e, E *&in) { if (e->w == 1 && e->op == O_XOR && isc(e->k[1])) { in = e->k[0]; return true; } return false; }
static E *TRUE_() { static E *t = mkc(1, 1); return t; }
static E *FALSE_() { static E *t = mkc(0, 1); return t; }

static E *mk1(Op op, unsigned w, E *a, E *b, E *c, u32 lo);
static E *mk(Op op, unsigned w, E *a, E *b, E *c, u32 lo) {
  E *r = mk1(op, w, a, b, c, lo);
  if (r->op != O_CONST && (r->mn == r->mx || (r->kz | r->ko) == maskw(r->w))) return mkc(r->mn == r->mx ? r->mn : r->ko, r->w);
  return r;
}

static bool commut(Op o) { return o == O_ADD || o == O_MUL || o == O_AND || o == O_OR || o == O_XOR || o == O_EQ; }

static E *mk1(Op op, unsigned w, E *a, E *b, E *c, u32 lo) {
  u128 m = maskw(w);
  { // constant folding
    bool all = isc(a) && (!b || isc(b)) && (!c || isc(c));
    if (all) { u128 v[3] = {a->c, b ? b->c : 0, c ? c->c : 0}; unsigned aw[3] = {a->w, b ? b->w : 0u, c ? c->w : 0u}; return mkc(evalop(op, w, lo, v, aw), w); }
  }
  if (commut(op)) { if (isc(a) || (!isc(b) && a->id > b->id)) std::swap(a, b); }
  switch (op) {
  case O_ADD:
    if (isc(b) && b->c == 0) return a;
    if (isc(b) && a->op == O_ADD && isc(a->k[1])) return mk(O_ADD, w, a->k[0], mkc(a->k[1]->c + b->c, w));
    if (isc(b) && a->op == O_SUB && isc(a->k[0])) return mk(O_SUB, w, mkc(a->k[0]->c + b->c, w), a->k[1]);
    if (a->op == O_SUB && a->k[1] == b) return a->k[0];
    if (b->op == O_SUB && b->k[1] == a) return b->k[0];
    if (isc(b) && a->op == O_OR && isc(a->k[1]) && (a->k[0]->kz & a->k[1]->c) == a->k[1]->c) return mk(O_ADD, w, a->k[0], mkc(a->k[1]->c + b->c, w));
    if (a->op == O_ADD && isc(a->k[1]) && !isc(b)) return mk(O_ADD, w, mk(O_ADD, w, a->k[0], b), a->k[1]);
    if (b->op == O_ADD && isc(b->k[1])) return mk(O_ADD, w, mk(O_ADD, w, a, b->k[0]), b->k[1]);
    if (w == 1) return mk(O_XOR, 1, a, b);
    if ((~a->kz & ~b->kz & m) == 0 && !isc(b)) return mk(O_OR, w, a, b);
    if (isc(b) && a->op == O_ITE && isc(a->k[1]) && isc(a->k[2])) return mkite(a->k[0], mkc(a->k[1]->c + b->c, w), mkc(a->k[2]->c + b->c, w));
    break;
  case O_SUB:
    if (a == b) return mkc(0, w);
    if (isc(b)) return mk(O_ADD, w, a, mkc(-b->c, w));
    if (isc(a) && a->c == 0 && b->op == O_ZEXT && b->k[0]->w == 1) return mksext(b->k[0], w);
    if (a->op == O_ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
    if (b->op == O_SUB && b->k[0] == a) return b->k[1];
    if (a->op == O_SUB && a->k[0] == b) return mk(O_SUB, w, mkc(0, w), a->k[1]);
    if (a->op == O_ADD && isc(a->k[1])) return mk(O_ADD, w, mk(O_SUB, w, a->k[0], b), a->k[1]);
    if (b->op == O_ADD && isc(b->k[1])) return mk(O_ADD, w, mk(O_SUB, w, a, b->k[0]), mkc(-b->k[1]->c, w));
    if (b->op == O_SUB && isc(b->k[0]) && !isc(a)) return mk(O_ADD, w, mk(O_ADD, w, a, b->k[1]), mkc(-b->k[0]->c, w));
    if (w == 1) return mk(O_XOR, 1, a, b);
    break;
  case O_MUL:
    if (isc(b)) {
      if (b->c == 0) return b; if (b->c == 1) return a;
      if ((b->c & (b->c - 1)) == 0) return mk(O_SHL, w, a, mkc(ctz128(b->c), w));
      if (a->op == O_MUL && isc(a->k[1])) return mk(O_MUL, w, a->k[0], mkc(a->k[1]->c * b->c, w));
    }
    if (w == 1) return mk(O_AND, 1, a, b);
    // keep shifts outside products
    if (a->op == O_SHL && isc(a->k[1])) return mk(O_SHL, w, mk(O_MUL, w, a->k[0], b), a->k[1]);
    if (b->op == O_SHL && isc(b->k[1])) return mk(O_SHL, w, mk(O_MUL, w, a, b->k[0]), b->k[1]);
    break;
  case O_UDIV:
    if (isc(b)) { if (b->c == 1) return a; if (b->c && (b->c & (b->c - 1)) == 0) return mk(O_LSHR, w, a, mkc(ctz128(b->c), w)); }
    if (a->mx < b->mn) return mkc(0, w);
    { unsigned n = std::max(bitlen(a->mx), bitlen(b->mx)); if (n < w && n >= 1 && (isc(b) || b->mn > 0)) return mkzext(mk(O_UDIV, n, mkextract(a, n - 1, 0), mkextract(b, n - 1, 0)), w); }
    break;
  case O_UREM:
    if (isc(b)) { if (b->c == 1) return mkc(0, w); if (b->c && (b->c & (b->c - 1)) == 0) return mk(O_AND, w, a, mkc(b->c - 1, w)); }
    if (a->mx < b->mn) return a;
    break;
  case O_SDIV: case O_SREM: {
    u128 sb = (u128)1 << (w - 1);
    if (a->mx < sb && b->mx < sb) return mk(op == O_SDIV ? O_UDIV : O_UREM, w, a, b);
    break; }
  case O_AND:
    if (a == b) return a;
    if (isc(b)) {
      if (b->c == 0) return b; if (b->c == m) return a;
      if (a->op == O_SEXT && a->k[0]->w == 1) return mkite(a->k[0], b, mkc(0, w));
      u128 pot = ~a->kz & m; // possibly-one bits
      if ((pot & ~b->c) == 0) return a;
      if ((pot & b->c) != b->c) return mk(O_AND, w, a, mkc(pot & b->c, w));
      if (a->op == O_AND && isc(a->k[1])) return mk(O_AND, w, a->k[0], mkc(a->k[1]->c & b->c, w));
      unsigned t = ctz128(~b->c); // trailing ones
      if (t < w && (b->c >> t) == 0) return mkzext(mkextract(a, t - 1, 0), w);
      unsigned z = ctz128(b->c); u128 sh = b->c >> z; // contiguous run
      if (z > 0 && ((sh + 1) & sh) == 0) { unsigned l = bitlen(sh); E *x = mkextract(a, z + l - 1, z); return mk(O_SHL, w, mkzext(x, w), mkc(z, w)); }
    }
    if (w == 1) { E *i; if ((isnot(a, i) && i == b) || (isnot(b, i) && i == a)) return FALSE_(); }
    break;
  case O_OR:
    if (a == b) return a;
    if (isc(b)) { if (b->c == 0) return a; if (b->c == m) return b;
      if (a->op == O_OR && isc(a->k[1])) return mk(O_OR, w, a->k[0], mkc(a->k[1]->c | b->c, w)); }
    if (w == 1) { E *i; if ((isnot(a, i) && i == b) || (isnot(b, i) && i == a)) return TRUE_(); }
    { // disjoint high/low parts -> CONCAT
      u128 pa = ~a->kz & m, pb = ~b->kz & m; if (w > 1 && (pa & pb) == 0) {
        E *h = a, *l = b; u128 ph = pa, pl = pb; if (bitlen(pa) < bitlen(pb)) { std::swap(h, l); std::swap(ph, pl); }
        unsigned cut = ctz128(ph); if (cut < w && cut > 0 && bitlen(pl) <= cut) return mkconcat(mkextract(h, w - 1, cut), mkextract(l, cut - 1, 0)); } }
    break;
  case O_XOR:
    if (a == b) return mkc(0, w);
    if (isc(b)) { if (b->c == 0) return a;
      if (a->op == O_XOR && isc(a->k[1])) return mk(O_XOR, w, a->k[0], mkc(a->k[1]->c ^ b->c, w));
      if (w == 1) { // not
        switch (a->op) { case O_ULT: return mk(O_ULE, 1, a->k[1], a->k[0]); case O_ULE: return mk(O_ULT, 1, a->k[1], a->k[0]);
          case O_SLT: return mk(O_SLE, 1, a->k[1], a->k[0]); case O_SLE: return mk(O_SLT, 1, a->k[1], a->k[0]);
          default: break; } }
      if (a->op == O_ITE && (isc(a->k[1]) || isc(a->k[2]))) return mkite(a->k[0], mk(O_XOR, w, a->k[1], b), mk(O_XOR, w, a->k[2], b));
    }
    break;
  case O_SHL:
    if (isc(b)) { if (b->c == 0) return a; if (b->c >= w) return mkc(0, w); unsigned s = (unsigned)b->c;
      if (a->op == O_SHL && isc(a->k[1])) { u128 t = a->k[1]->c + s; return t >= w ? mkc(0, w) : mk(O_SHL, w, a->k[0], mkc(t, w)); }
      return mkconcat(mkextract(a, w - 1 - s, 0), mkc(0, s)); }
    break;
  case O_LSHR:
    if (isc(b)) { if (b->c == 0) return a; if (b->c >= w) return mkc(0, w); unsigned s = (unsigned)b->c; return mkzext(mkextract(a, w - 1, s), w); }
    break;
  case O_ASHR:
    if (isc(b)) { if (b->c == 0) return a; unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; return mksext(mkextract(a, w - 1, s), w); }
    if (a->mx < ((u128)1 << (w - 1))) return mk(O_LSHR, w, a, b);
    break;
  case O_EQ: {
    if (a == b) return TRUE_();
    if (a->mx < b->mn || b->mx < a->mn) return FALSE_();
    if ((a->kz & b->ko) || (a->ko & b->kz)) return FALSE_();
    if (a->w == 1) { if (isc(b)) return b->c ? a : mknot(a); }
    if (isc(b)) {
      u128 v = b->c; unsigned aw = a->w;
      switch (a->op) {
      case O_ADD: if (isc(a->k[1])) return mkeq(a->k[0], mkc(v - a->k[1]->c, aw)); break;
      case O_SUB: if (isc(a->k[0])) return mkeq(a->k[1], mkc(a->k[0]->c - v, aw)); if (v == 0) return mkeq(a->k[0], a->k[1]); break;
      case O_XOR: if (isc(a->k[1])) return mkeq(a->k[0], mkc(v ^ a->k[1]->c, aw)); if (v == 0) return mkeq(a->k[0], a->k[1]); if (aw > 1 && (v & (v - 1)) == 0 && !isc(a->k[0])) return mkeq(a->k[0], mk(O_XOR, aw, a->k[1], b)); break;
      case O_ZEXT: return (v >> a->k[0]->w) ? FALSE_() : mkeq(a->k[0], mkc(v, a->k[0]->w));
      case O_SEXT: { unsigned kw = a->k[0]->w; return ((u128)sx(v, kw) & maskw(aw)) == v ? mkeq(a->k[0], mkc(v, kw)) : FALSE_(); }
      case O_CONCAT: { E *h = a->k[0], *l = a->k[1]; E *eh = mkeq(h, mkc(v >> l->w, h->w)), *el = mkeq(l, mkc(v, l->w)); return mk(O_AND, 1, eh, el); }
      case O_ITE: if (isc(a->k[1]) || isc(a->k[2])) { E *x = mkeq(a->k[1], b), *y = mkeq(a->k[2], b); return mkite(a->k[0], x, y); } break;
      case O_EXTRACT: if (v == 0 && a->k[0]->op == O_XOR && !isc(a->k[0]->k[1])) { E *x = a->k[0]; return mkeq(mkextract(x->k[0], a->lo + aw - 1, a->lo), mkextract(x->k[1], a->lo + aw - 1, a->lo)); } break;
      case O_AND: if (v == 0 && aw > 1 && isc(a->k[1]) && a->k[0]->op == O_XOR && !isc(a->k[0]->k[1])) { E *x = a->k[0]; return mkeq(mk(O_AND, aw, x->k[0], a->k[1]), mk(O_AND, aw, x->k[1], a->k[1])); } break;
      case O_OR: if (v == 0) return mk(O_AND, 1, mkeq(a->k[0], mkc(0, aw)), mkeq(a->k[1], mkc(0, aw))); break;
      default: break;
      }
    } else {
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkeq(a->k[0], b->k[0]);
      if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkeq(a->k[0], b->k[0]);
      if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[1]->w == b->k[1]->w) return mk(O_AND, 1, mkeq(a->k[0], b->k[0]), mkeq(a->k[1], b->k[1]));
      if (a->op == O_ADD && b->op == O_ADD) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (a->k[i] == b->k[j]) return mkeq(a->k[1 - i], b->k[1 - j]); }
      if (a->op == O_ADD) for (int i = 0; i < 2; i++) if (a->k[i] == b) return mkeq(a->k[1 - i], mkc(0, a->w));
      if (b->op == O_ADD) for (int i = 0; i < 2; i++) if (b->k[i] == a) return mkeq(b->k[1 - i], mkc(0, a->w));
    }
    break; }
  case O_ULT:
    if (a == b) return FALSE_();
    if (a->mx < b->mn) return TRUE_(); if (a->mn >= b->mx) return FALSE_();
    if (isc(b) && b->c == 1) return mkeq(a, mkc(0, a->w));
    if (isc(a) && a->c == maskw(a->w) - 1) return mkeq(b, mkc(maskw(a->w), a->w));
    if (isc(a) && a->c == 0) return mknot(mkeq(b, mkc(0, a->w)));
    if (isc(b) && b->c == maskw(a->w)) return mknot(mkeq(a, b));
    if (a->w == 1) return mk(O_AND, 1, mknot(a), b);
    goto ucmp;
  case O_ULE:
    if (a == b) return TRUE_();
    if (a->mx <= b->mn) return TRUE_(); if (a->mn > b->mx) return FALSE_();
    if (isc(b) && b->c == 0) return mkeq(a, b);
    if (isc(a) && a->c == maskw(a->w)) return mkeq(b, a);
    if (isc(a) && a->c >= 1) return mk(O_ULT, 1, mkc(a->c - 1, a->w), b);
    if (isc(b) && b->c < maskw(a->w)) return mk(O_ULT, 1, a, mkc(b->c + 1, a->w));
    if (a->w == 1) return mk(O_OR, 1, mknot(a), b);
  ucmp: {
    unsigned n = std::max(1u, std::max(bitlen(a->mx), bitlen(b->mx)));
    if (n < a->w && (a->op == O_ZEXT || b->op == O_ZEXT || a->op == O_CONCAT || b->op == O_CONCAT)) return mk(op, 1, mkextract(a, n - 1, 0), mkextract(b, n - 1, 0));
    if (a->op == O_ITE && isc(b) && isc(a->k[1]) && isc(a->k[2])) return mkite(a->k[0], mk(op, 1, a->k[1], b), mk(op, 1, a->k[2], b));
    if (b->op == O_ITE && isc(a) && isc(b->k[1]) && isc(b->k[2])) return mkite(b->k[0], mk(op, 1, a, b->k[1]), mk(op, 1, a, b->k[2]));
    break; }
  case O_SLT: case O_SLE: {
    if (a == b) return op == O_SLE ? TRUE_() : FALSE_();
    unsigned aw = a->w; u128 sb = (u128)1 << (aw - 1);
    bool an = a->mn >= sb, ap = a->mx < sb, bn = b->mn >= sb, bp = b->mx < sb;
    if (an && bp) return TRUE_(); if (ap && bn) return FALSE_();
    if ((ap && bp) || (an && bn)) return mk(op == O_SLT ? O_ULT : O_ULE, 1, a, b);
    if (op == O_SLT && isc(b) && b->c == 0) return mkextract(a, aw - 1, aw - 1);
    if (op == O_SLE && isc(b) && b->c == maskw(aw)) return mkextract(a, aw - 1, aw - 1);
    if (op == O_SLE && isc(a) && a->c == 0) return mknot(mkextract(b, aw - 1, aw - 1));
    if (op == O_SLT && isc(a) && a->c == maskw(aw)) return mknot(mkextract(b, aw - 1, aw - 1));
    if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mk(op, 1, a->k[0], b->k[0]);
    break; }
  case O_ITE: {
    if (isc(a)) return a->c ? b : c;
    if (b == c) return b;
    E *i; if (isnot(a, i)) return mkite(i, c, b);
    if (w == 1) {
      if (isc(b) && isc(c)) return b->c ? a : mknot(a);
      if (isc(b)) return b->c ? mk(O_OR, 1, a, c) : mk(O_AND, 1, mknot(a), c);
      if (isc(c)) return c->c ? mk(O_OR, 1, mknot(a), b) : mk(O_AND, 1, a, b);
    }
    if (a->op == O_EQ && isc(a->k[1]) && b == a->k[1] && c == a->k[0]) return c;
    if (a->op == O_EQ && isc(a->k[1]) && isc(b) && c->op == O_ZEXT && c->k[0] == a->k[0] && b->c == a->k[1]->c) return c;
    if (a->op == O_EQ && isc(a->k[1]) && b == a->k[0]) return mkite(a, a->k[1], c);
    if (b->op == O_ITE && b->k[0] == a) return mkite(a, b->k[1], c);
    if (c->op == O_ITE && c->k[0] == a) return mkite(a, b, c->k[2]);
    if (c->op == O_ITE && c->k[1] == b) return mkite(mk(O_OR, 1, a, c->k[0]), b, c->k[2]);
    if (b->op == O_ITE && b->k[2] == c) return mkite(mk(O_AND, 1, a, b->k[0]), b->k[1], c);
    if (isc(b) && isc(c) && w > 1) {
      if (b->c == 1 && c->c == 0) return mkzext(a, w);
      if (b->c == 0 && c->c == 1) return mkzext(mknot(a), w);
      if (b->c == m && c->c == 0) return mksext(a, w);
      if (b->c == 0 && c->c == m) return mksext(mknot(a), w);
    }
    break; }
  case O_CONCAT: {
    if (isc(a) && a->c == 0) return mkzext(b, w);
    if (a->op == O_ZEXT) return mkzext(mkconcat(a->k[0], b), w);
    if (a->op == O_EXTRACT && b->op == O_EXTRACT && a->k[0] == b->k[0] && a->lo == b->lo + b->w) return mkextract(a->k[0], a->lo + a->w - 1, b->lo);
    if (b->op == O_CONCAT && b->k[0]->op == O_EXTRACT && a->op == O_EXTRACT && a->k[0] == b->k[0]->k[0] && a->lo == b->k[0]->lo + b->k[0]->w)
      return mkconcat(mkextract(a->k[0], a->lo + a->w - 1, b->k[0]->lo), b->k[1]);
    if (a->op == O_CONCAT) return mkconcat(a->k[0], mkconcat(a->k[1], b));
    if (isc(a) && b->op == O_CONCAT && isc(b->k[0])) return mkconcat(mkconcat(a, b->k[0]), b->k[1]);
    if (b->op == O_ZEXT && isc(a)) { unsigned zw = b->w - b->k[0]->w; return mkconcat(mkconcat(a, mkc(0, zw)), b->k[0]); }
    // sign/zero extension rejoin: EXTRACT(x hi part) of zext handled elsewhere
    if (b->op == O_ITE && isc(a) && isc(b->k[1]) && isc(b->k[2])) return mkite(b->k[0], mkconcat(a, b->k[1]), mkconcat(a, b->k[2]));
    if (a->op == O_ITE && b->op == O_ITE && a->k[0] == b->k[0]) return mkite(a->k[0], mkconcat(a->k[1], b->k[1]), mkconcat(a->k[2], b->k[2]));
    if (a->op == O_ITE && b->op == O_CONCAT && b->k[0]->op == O_ITE && a->k[0] == b->k[0]->k[0]) return mkconcat(mkconcat(a, b->k[0]), b->k[1]);
    break; }
  case O_EXTRACT: {
    if (w == a->w) return a;
    unsigned hi = lo + w - 1;
    switch (a->op) {
    case O_EXTRACT: return mkextract(a->k[0], a->lo + hi, a->lo + lo);
    case O_CONCAT: { E *h = a->k[0], *l = a->k[1]; if (hi < l->w) return mkextract(l, hi, lo); if (lo >= l->w) return mkextract(h, hi - l->w, lo - l->w);
      return mkconcat(mkextract(h, hi - l->w, 0), mkextract(l, l->w - 1, lo)); }
    case O_ZEXT: { E *x = a->k[0]; if (hi < x->w) return mkextract(x, hi, lo); if (lo >= x->w) return mkc(0, w); return mkzext(mkextract(x, x->w - 1, lo), w); }
    case O_SEXT: { E *x = a->k[0]; if (hi < x->w) return mkextract(x, hi, lo); if (lo < x->w) return mksext(mkextract(x, x->w - 1, lo), w); return mksext(mkextract(x, x->w - 1, x->w - 1), w); }
    case O_AND: case O_OR: case O_XOR: return mk(a->op, w, mkextract(a->k[0], hi, lo), mkextract(a->k[1], hi, lo));
    case O_ADD: case O_SUB: case O_MUL:
      if (lo == 0) return mk(a->op, w, mkextract(a->k[0], hi, 0), mkextract(a->k[1], hi, 0)); 
      break;
    case O_ITE: if (isc(a->k[1]) || isc(a->k[2]) || w <= 8 || a->k[1]->op == O_CONCAT || a->k[2]->op == O_CONCAT || a->k[1]->op == O_EXTRACT || a->k[1]->op==O_ITE || a->k[2]->op==O_ITE) return mkite(a->k[0], mkextract(a->k[1], hi, lo), mkextract(a->k[2], hi, lo)); break;
    default: break;
    }
    break; }
  case O_ZEXT:
    if (a->op == O_ZEXT) return mkzext(a->k[0], w);
    if (a->op == O_ITE && isc(a->k[1]) && isc(a->k[2])) return mkite(a->k[0], mkc(a->k[1]->c, w), mkc(a->k[2]->c, w));
    break;
  case O_SEXT: {
    if (a->op == O_SEXT) return mksext(a->k[0], w);
    if (a->kz >> (a->w - 1) & 1) return mkzext(a, w);
    if (a->op == O_ITE && isc(a->k[1]) && isc(a->k[2])) return mkite(a->k[0], mkc((u128)sx(a->k[1]->c, a->w), w), mkc((u128)sx(a->k[2]->c, a->w), w));
    break; }
  default: break;
  }
  if (commut(op) && (isc(a) || (!isc(b) && a->id > b->id))) std::swap(a, b);
  return mkraw(op, w, a, b, c, lo, 0);
}

static E *mkvar(const std::string &name, unsigned w, u128 lo, u128 hi) {
  u32 idx = g_vars.size(); g_vars.push_back({name, w, lo, hi, nullptr});
  E *e = mkraw(O_VAR, w, 0, 0, 0, idx, 0); g_vars[idx].e = e; return e;
}

struct Model { std::vector<u128> v; u64 uid; };
static u64 g_stamp = 0;
static u128 evalE(E *e, const Model &mo, u64 st) {
  if (e->op == O_CONST) return e->c;
  if (e->stamp == st) return e->ev;
  u128 r;
  if (e->op == O_VAR) r = e->lo < mo.v.size() ? mo.v[e->lo] : g_vars[e->lo].lo;
  else if (e->op == O_ITE) { r = evalE(e->k[0], mo, st) ? evalE(e->k[1], mo, st) : evalE(e->k[2], mo, st); }
  else { u128 a[3]; unsigned aw[3]; for (int i = 0; i < e->nk; i++) { a[i] = evalE(e->k[i], mo, st); aw[i] = e->k[i]->w; } r = evalop(e->op, e->w, e->lo, a, aw); }
  e->stamp = st; e->ev = r; return r;
}
