#pragma once
#include <functional>
// Integer (linear-arithmetic) encoding of bit-vector queries with exact mod-2^k semantics.
// Every bit-vector expression is a linear form over integer atoms that is congruent to its value mod 2^w;
// division / truncation introduces a quotient atom q with 0 <= L - d*q < d.
#pragma once
typedef __int128 i128;
static std::string show(E *e, int d);
struct LiaBail { const char *why; };
struct LF { std::vector<std::pair<u32, i128>> t; i128 c = 0, lo = 0, hi = 0; };
static const i128 LIM = (i128)1 << 118;
struct Lia {
  std::unordered_map<u32, std::pair<LF, i128>> qdef;
  struct Atom { Z3_ast z; i128 lo, hi; };
  std::vector<Atom> at; std::vector<Z3_ast> side, keep; std::unordered_map<u32, LF> memo; std::unordered_map<u32, Z3_ast> bmemo; std::map<std::pair<std::vector<std::pair<u32, i128>>, std::pair<i128, i128>>, LF> qmemo;
  std::vector<std::pair<u32, u32>> varAtoms; bool nonlinear = false; std::vector<Z3_ast> hard; typedef std::pair<std::vector<std::pair<u32, i128>>, i128> LK; std::map<std::pair<LK, LK>, LF> pmemo; Z3_sort IS;
  Lia() { IS = Z3_mk_int_sort(Z); }
  ~Lia() { for (auto a : keep) Z3_dec_ref(Z, a); }
  Z3_ast K(Z3_ast a) { Z3_inc_ref(Z, a); keep.push_back(a); return a; }
  Z3_ast num(i128 v) { bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : v; char b[48]; int p = 47; b[p] = 0; if (!u) b[--p] = '0'; while (u) { b[--p] = '0' + (int)(u % 10); u /= 10; } if (neg) b[--p] = '-'; return K(Z3_mk_numeral(Z, b + p, IS)); }
  static i128 ck(i128 v) { if (v > LIM || v < -LIM) throw LiaBail{"range"}; return v; }
  static i128 mulc(i128 a, i128 b) { i128 r; if (__builtin_mul_overflow(a, b, &r)) throw LiaBail{"range"}; return ck(r); }
  static i128 fdiv(i128 a, i128 d) { i128 q = a / d; if (a % d != 0 && a < 0) q--; return q; }
  LF kon(i128 c) { LF r; r.c = r.lo = r.hi = c; return r; }
  void rng(LF &f) { i128 lo = f.c, hi = f.c; for (auto &x : f.t) { i128 a = mulc(x.second, at[x.first].lo), b = mulc(x.second, at[x.first].hi); lo = ck(lo + std::min(a, b)); hi = ck(hi + std::max(a, b)); } f.lo = lo; f.hi = hi; }
  LF atom(Z3_ast z, i128 lo, i128 hi) { if (lo == hi) { side.push_back(K(Z3_mk_eq(Z, z, num(lo)))); return kon(lo); } u32 i = at.size(); at.push_back({z, lo, hi}); side.push_back(K(Z3_mk_ge(Z, z, num(lo)))); side.push_back(K(Z3_mk_le(Z, z, num(hi)))); LF r; r.t.push_back({i, 1}); r.lo = lo; r.hi = hi; return r; }
  Z3_ast fresh(const char *p) { return K(Z3_mk_fresh_const(Z, p, IS)); }
  LF add(const LF &a, const LF &b, i128 k) { // a + k*b
    LF r; r.c = ck(a.c + mulc(b.c, k)); size_t i = 0, j = 0; while (i < a.t.size() || j < b.t.size()) { if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]); else if (i >= a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({b.t[j].first, mulc(b.t[j].second, k)}); j++; } else { i128 c = ck(a.t[i].second + mulc(b.t[j].second, k)); if (c) r.t.push_back({a.t[i].first, c}); i++; j++; } }
    rng(r); i128 x = mulc(b.lo, k), y = mulc(b.hi, k); r.lo = std::max(r.lo, ck(a.lo + std::min(x, y))); r.hi = std::min(r.hi, ck(a.hi + std::max(x, y))); return r; }
  LF scale(const LF &b, i128 k) { if (!k) return kon(0); return add(kon(0), b, k); }
  Z3_ast zt(const LF &f) { std::vector<Z3_ast> v; for (auto &x : f.t) { if (x.second == 1) v.push_back(at[x.first].z); else { Z3_ast m[2] = {num(x.second), at[x.first].z}; v.push_back(K(Z3_mk_mul(Z, 2, m))); } } if (f.c || v.empty()) v.push_back(num(f.c)); if (v.size() == 1) return v[0]; return K(Z3_mk_add(Z, v.size(), v.data())); }
  // floor(f / d)
  LF quo(const LF &f, i128 d) {
    i128 ql = fdiv(f.lo, d), qh = fdiv(f.hi, d); if (ql == qh) return kon(ql);
    LF red, out; for (auto &x : f.t) { i128 q = fdiv(x.second, d), m = x.second - q * d; if (m == 0) { out.t.push_back({x.first, q}); } else { red.t.push_back(x); } }
    i128 cq = fdiv(f.c, d); red.c = f.c - cq * d; out.c = cq; rng(out); if (red.t.empty()) { out.lo = std::max(out.lo, ql); out.hi = std::min(out.hi, qh); return out; } rng(red);
    if (out.t.empty()) { red.lo = std::max(red.lo, f.lo - cq * d); red.hi = std::min(red.hi, f.hi - cq * d); }
    { i128 g = d; for (auto &x : red.t) { i128 p = x.second, q2 = g; while (p) { i128 m = q2 % p; q2 = p; p = m; } g = q2; } if (g > 1) { for (auto &x : red.t) x.second /= g; red.c = fdiv(red.c, g); i128 l0 = red.lo, h0 = red.hi; d /= g; rng(red); red.lo = std::max(red.lo, fdiv(l0, g)); red.hi = std::min(red.hi, fdiv(h0, g)); if (d == 1) { out = add(out, red, 1); out.lo = std::max(out.lo, ql); out.hi = std::min(out.hi, qh); return out; } } }
    // floor((floor(n/e) + c) / d) = floor((n + c*e) / (e*d))
    if (red.t.size() == 1 && red.t[0].second == 1) { auto di = qdef.find(red.t[0].first); if (di != qdef.end()) { i128 e2 = di->second.second, dd; if (!__builtin_mul_overflow(e2, d, &dd) && dd < LIM) { bool okr = true; LF n2; try { n2 = add(di->second.first, kon(mulc(red.c, e2)), 1); } catch (LiaBail &) { okr = false; } if (okr) { n2.lo = std::max(n2.lo, mulc(red.lo, e2)); n2.hi = std::min(n2.hi, ck(mulc(red.hi, e2) + e2 - 1)); LF q2 = quo(n2, dd); LF r2 = add(out, q2, 1); r2.lo = std::max(r2.lo, ql); r2.hi = std::min(r2.hi, qh); return r2; } } } }
    auto key = std::make_pair(red.t, std::make_pair(red.c, d)); auto it = qmemo.find(key); LF q;
    if (it != qmemo.end()) q = it->second; else { i128 a = fdiv(red.lo, d), b = fdiv(red.hi, d); if (a == b) q = kon(a); else { q = atom(fresh("q"), a, b); qdef[q.t[0].first] = {red, d}; LF rem = add(red, q, -d); Z3_ast rz = zt(rem); side.push_back(K(Z3_mk_ge(Z, rz, num(0)))); side.push_back(K(Z3_mk_lt(Z, rz, num(d)))); } qmemo[key] = q; }
    LF r = add(out, q, 1); r.lo = std::max(r.lo, ql); r.hi = std::min(r.hi, qh); return r; }
  LF U(const LF &f, unsigned w) { if (w > 118) { if (f.lo >= 0) return f; throw LiaBail{"width"}; } i128 M = (i128)1 << w; if (w > 110) throw LiaBail{"width"}; if (f.lo >= 0 && f.hi < M) return f; LF q = quo(f, M); LF r = add(f, q, -M); r.lo = std::max<i128>(r.lo, 0); r.hi = std::min<i128>(r.hi, M - 1); return r; }
  LF S(const LF &f, unsigned w) { if (w > 119) return f; i128 H = (i128)1 << (w - 1); if (f.lo >= -H && f.hi < H) return f; LF g = add(f, kon(H), 1); g = U(g, w); return add(g, kon(-H), 1); }
  LF iteF(Z3_ast c, int cs, const LF &a, const LF &b) { if (cs == 1) return a; if (cs == 0) return b; if (a.t == b.t && a.c == b.c) return a; LF r = atom(fresh("t"), std::min(a.lo, b.lo), std::max(a.hi, b.hi)); Z3_ast z = zt(r);
    side.push_back(K(Z3_mk_implies(Z, c, K(Z3_mk_eq(Z, z, zt(a)))))); side.push_back(K(Z3_mk_implies(Z, K(Z3_mk_not(Z, c)), K(Z3_mk_eq(Z, z, zt(b)))))); return r; }
  Z3_ast T() { return K(Z3_mk_true(Z)); } Z3_ast Fa() { return K(Z3_mk_false(Z)); }
  Z3_ast leF(const LF &a, const LF &b) { LF d = add(b, a, -1); if (d.lo >= 0) return T(); if (d.hi < 0) return Fa(); return K(Z3_mk_ge(Z, zt(d), num(0))); }
  Z3_ast ltF(const LF &a, const LF &b) { LF d = add(b, a, -1); if (d.lo > 0) return T(); if (d.hi <= 0) return Fa(); return K(Z3_mk_gt(Z, zt(d), num(0))); }
  int cst(Z3_ast b) { Z3_lbool v = Z3_get_bool_value(Z, b); return v == Z3_L_TRUE ? 1 : v == Z3_L_FALSE ? 0 : -1; }
  static int pow2(u128 c) { if (!c || (c & (c - 1))) return -1; int k = 0; while (!(c & 1)) { c >>= 1; k++; } return k; }
  // bounds that top-level constraints put on expressions (asserted as side constraints when they are used)
  struct RB { i128 ulo, uhi, slo, shi; bool u, s; }; std::unordered_map<u32, RB> rb;
  RB &bnd(E *e) { auto it = rb.find(e->id); if (it != rb.end()) return it->second; i128 H = (i128)1 << (e->w - 1); RB b{0, 2 * H - 1, -H, H - 1, false, false}; return rb[e->id] = b; }
  void learn(E *c, bool pos) {
    E *i; if (isnot(c, i)) return learn(i, !pos); E *a = c->k[0], *b = c->k[1];
    if (c->op == O_AND && c->w == 1 && pos) { learn(a, true); learn(b, true); return; } if (c->op == O_OR && c->w == 1 && !pos) { learn(a, false); learn(b, false); return; }
    if (c->op != O_ULT && c->op != O_ULE && c->op != O_SLT && c->op != O_SLE && !(c->op == O_EQ && pos)) return;
    if (a->w < 2 || a->w > 64) return; bool sgn = c->op == O_SLT || c->op == O_SLE; auto val = [&](E *k) { i128 v = (i128)k->c; if (sgn && ((k->c >> (k->w - 1)) & 1)) v -= (i128)1 << k->w; return v; };
    auto up = [&](E *e, i128 v) { RB &r = bnd(e); if (sgn) { r.shi = std::min(r.shi, v); r.s = true; } else { r.uhi = std::min(r.uhi, v); r.u = true; } };
    auto dn = [&](E *e, i128 v) { RB &r = bnd(e); if (sgn) { r.slo = std::max(r.slo, v); r.s = true; } else { r.ulo = std::max(r.ulo, v); r.u = true; } };
    if (c->op == O_EQ) { if (isc(a)) std::swap(a, b); if (isc(b)) { up(a, val(b)); dn(a, val(b)); } return; }
    bool strict = c->op == O_ULT || c->op == O_SLT;
    if (pos) { if (isc(b)) up(a, val(b) - strict); else if (isc(a)) dn(b, val(a) + strict); } else { if (isc(b)) dn(a, val(b) + !strict); else if (isc(a)) up(b, val(a) - !strict); } }
  void tighten(LF &r, i128 lo, i128 hi) { if (lo <= r.lo && hi >= r.hi) return; if (std::max(lo, r.lo) > std::min(hi, r.hi)) { side.push_back(Fa()); return; } Z3_ast z = zt(r); if (lo > r.lo) { side.push_back(K(Z3_mk_ge(Z, z, num(lo)))); r.lo = lo; } if (hi < r.hi) { side.push_back(K(Z3_mk_le(Z, z, num(hi)))); r.hi = hi; } }
  LF tr(E *e) { auto it = memo.find(e->id); if (it != memo.end()) return it->second; LF r = tr0(e);
    if (e->w >= 2 && e->w <= 64) { auto b = rb.find(e->id); if (b != rb.end()) { RB k = b->second; i128 M = (i128)1 << e->w, H = M >> 1; if (k.u && k.uhi < H && !k.s) { k.s = true; k.slo = k.ulo; k.shi = k.uhi; } if (k.s && k.slo >= 0) { k.u = true; k.ulo = std::max(k.ulo, k.slo); k.uhi = std::min(k.uhi, k.shi); }
      if (k.u && r.lo >= 0 && r.hi < M) tighten(r, k.ulo, k.uhi); else if (k.s && r.lo >= -H && r.hi < H) tighten(r, k.slo, k.shi); else if (k.u) { r = U(r, e->w); tighten(r, k.ulo, k.uhi); } else if (k.s) { r = S(r, e->w); tighten(r, k.slo, k.shi); } } }
    memo[e->id] = r; return r; }
  LF un(E *e) { LF r = U(tr(e), e->w); if (e->mx < (u128)LIM) { r.lo = std::max<i128>(r.lo, (i128)e->mn); r.hi = std::min<i128>(r.hi, (i128)e->mx); } return r; }
  LF sg(E *e) { return S(tr(e), e->w); }
  LF bool01(E *e) { Z3_ast b = bo(e); int k = cst(b); if (k >= 0) return kon(k); LF r = atom(fresh("b"), 0, 1); side.push_back(K(Z3_mk_iff(Z, b, K(Z3_mk_eq(Z, zt(r), num(1)))))); return r; }
  LF tr0(E *e) {
    if (e->w == 1) return bool01(e);
    E *a = e->k[0], *b = e->k[1]; unsigned w = e->w;
    switch (e->op) {
    case O_CONST: if (w > 110) { if (e->c <= (u128)LIM) return kon((i128)e->c); u128 ng = ((~e->c) + 1) & maskw(w); if (ng <= (u128)LIM) return kon(-(i128)ng); } if (w <= 110) { return kon((e->c >> (w - 1)) & 1 && w >= 8 && e->c > maskw(w) - ((u128)1 << (w - 2)) ? (i128)e->c - ((i128)1 << w) : (i128)e->c); } throw LiaBail{"wide const"};
    case O_VAR: { VarInfo &vi = g_vars[e->lo]; if (vi.hi > (u128)LIM) throw LiaBail{"wide var"}; char nm[32]; snprintf(nm, 32, "i%u", e->lo); Z3_ast z = K(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), IS)); varAtoms.push_back({e->lo, 0}); vz[e->lo] = z; return atom(z, (i128)vi.lo, (i128)vi.hi); }
    case O_ADD: return add(tr(a), tr(b), 1); case O_SUB: return add(tr(a), tr(b), -1);
    case O_MUL: { LF x = tr(a), y = tr(b); if (y.t.empty()) return scale(x, y.c); if (x.t.empty()) return scale(y, x.c);
      // keep operands in their natural small representation
      auto small = [&](E *q, LF &f) { i128 M = (i128)1 << std::min<int>(q->w, 110); if ((f.lo >= 0 && f.hi < M) || (f.lo >= -(M >> 1) && f.hi < (M >> 1))) return; if (q->mx < (u128)(M >> 1)) { f = un(q); return; } LF u = un(q), s = sg(q); i128 m1 = u.hi, m2 = std::max(-s.lo, s.hi); f = (f.lo >= -m1 && f.hi <= m1 && f.t.size() == 1) ? f : m1 <= m2 ? u : s; }; small(a, x); small(b, y);
      i128 p[4] = {mulc(x.lo, y.lo), mulc(x.lo, y.hi), mulc(x.hi, y.lo), mulc(x.hi, y.hi)}; nonlinear = true; i128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
      auto key = std::make_pair(std::make_pair(x.t, x.c), std::make_pair(y.t, y.c)); auto pit = pmemo.find(key); if (pit != pmemo.end()) return pit->second; std::swap(key.first, key.second); pit = pmemo.find(key); if (pit != pmemo.end()) return pit->second;
      Z3_ast m[2] = {zt(x), zt(y)}; Z3_ast v = fresh("p"); hard.push_back(K(Z3_mk_eq(Z, v, K(Z3_mk_mul(Z, 2, m))))); LF P = atom(v, lo, hi);
      // McCormick: (x-xl)(y-yl)>=0, (xh-x)(yh-y)>=0, (x-xl)(yh-y)>=0, (xh-x)(y-yl)>=0
      try { auto G = [&](i128 sp, i128 cx, i128 cy, i128 c) { LF f = add(add(add(kon(c), P, sp), x, cx), y, cy); if (f.lo < 0) side.push_back(K(Z3_mk_ge(Z, zt(f), num(0)))); };
        G(1, -y.lo, -x.lo, mulc(x.lo, y.lo)); G(1, -y.hi, -x.hi, mulc(x.hi, y.hi)); G(-1, y.hi, x.lo, -mulc(x.lo, y.hi)); G(-1, y.lo, x.hi, -mulc(x.hi, y.lo)); } catch (LiaBail &) { }
      pmemo[key] = P; return P; }
    case O_SHL: if (!isc(b)) throw LiaBail{"shl"}; if (b->c >= w) return kon(0); if (b->c > 100) throw LiaBail{"shl"}; return scale(tr(a), (i128)1 << (int)b->c);
    case O_LSHR: if (!isc(b) || b->c >= 110) throw LiaBail{"lshr"}; if (b->c >= w) return kon(0); return quo(un(a), (i128)1 << (int)b->c);
    case O_ASHR: if (!isc(b) || b->c >= 110) throw LiaBail{"ashr"}; return quo(sg(a), (i128)1 << std::min<int>((int)b->c, w - 1));
    case O_ZEXT: if (a->w == 1) return bool01(a); return un(a);
    case O_SEXT: if (a->w == 1) return scale(bool01(a), -1); return sg(a);
    case O_EXTRACT: if (e->lo == 0) return tr(a); if (e->lo + w == a->w) return quo(un(a), (i128)1 << e->lo); { LF f = tr(a); i128 M = (i128)1 << (e->lo + w); if (e->lo + w > 110) throw LiaBail{"width"}; (void)M; return quo(U(f, e->lo + w), (i128)1 << e->lo); }
    case O_CONCAT: { LF lo = b->w == 1 ? bool01(b) : un(b); LF hi = a->w == 1 ? bool01(a) : tr(a); if (b->w > 100) throw LiaBail{"concat"}; return add(lo, hi, (i128)1 << b->w); }
    case O_ITE: { Z3_ast c = bo(a); LF x = tr(b), y = tr(e->k[2]); return iteF(c, cst(c), x, y); }
    case O_AND: { if (isc(a)) std::swap(a, b); if (isc(b)) { u128 m = b->c; LF x; if (m == 0) return kon(0); if (((m + 1) & m) == 0) { int k = pow2(m + 1); return U(tr(a), k); } u128 inv = maskw(w) & ~m; if (((inv + 1) & inv) == 0) { int k = pow2(inv + 1); LF f = tr(a); return scale(quo(f, (i128)1 << k), (i128)1 << k); } int z = 0; while (!((m >> z) & 1)) z++; u128 mm = m >> z; if (((mm + 1) & mm) == 0) { int k = pow2(mm + 1); return scale(quo(U(tr(a), k + z), (i128)1 << z), (i128)1 << z); } } throw LiaBail{"and"}; }
    case O_OR: case O_XOR: { if ((a->kz | b->kz | ~maskw(w)) == ~(u128)0) return add(un(a), un(b), 1); if (e->op == O_XOR && isc(b) && b->c == maskw(w)) return add(kon(-1), tr(a), -1); if (e->op == O_XOR && isc(b) && b->c == (u128)1 << (w - 1) && w <= 100) return add(tr(a), kon((i128)1 << (w - 1)), -1);
      if (e->op == O_XOR && isc(b) && (b->c & (b->c - 1)) == 0 && w <= 100) { int k = pow2(b->c); LF x = tr(a), q = quo(x, (i128)1 << k), h = quo(q, 2), bit = add(q, h, -2); bit.lo = std::max<i128>(bit.lo, 0); bit.hi = std::min<i128>(bit.hi, 1); return add(add(x, kon((i128)1 << k), 1), bit, -((i128)2 << k)); }
      if (w <= 100) { // operands that do not overlap: one a multiple of 2^k, the other below 2^k
        LF x = un(a), y = un(b); for (int s2 = 0; s2 < 2; s2++) { int k = 0; while (k < 100 && ((i128)1 << k) <= y.hi) k++; i128 g = (i128)1 << k; bool ok = x.c % g == 0; for (auto &t : x.t) if (t.second % g != 0) ok = false; if (ok) return add(x, y, 1); std::swap(x, y); } }
      if (getenv("DSYM_SLOWQ")) fprintf(stderr, "or/xor %d: %s\n", (int)e->op, show(e, 6).c_str());
      throw LiaBail{"or/xor"}; }
    case O_UDIV: if (!isc(b) || !b->c) throw LiaBail{"udiv"}; return quo(un(a), (i128)b->c);
    case O_UREM: { if (!isc(b) || !b->c) throw LiaBail{"urem"}; LF x = un(a), q = quo(x, (i128)b->c); LF r = add(x, q, -(i128)b->c); r.lo = std::max<i128>(r.lo, 0); r.hi = std::min<i128>(r.hi, (i128)b->c - 1); return r; }
    case O_SDIV: case O_SREM: { if (!isc(b)) throw LiaBail{"sdiv"}; i128 d = (i128)b->c; if ((b->c >> (w - 1)) & 1) d -= (i128)1 << w; if (d == 0) throw LiaBail{"sdiv"}; LF x = sg(a), q; i128 ad = d < 0 ? -d : d;
      if (x.lo >= 0) q = quo(x, ad); else if (x.hi <= 0) q = scale(quo(scale(x, -1), ad), -1); else { LF p = quo(x, ad), n = scale(quo(scale(x, -1), ad), -1); Z3_ast c = leF(kon(0), x); q = iteF(c, cst(c), p, n); q.lo = std::max(q.lo, -fdiv(-x.lo, ad)); q.hi = std::min(q.hi, fdiv(x.hi, ad)); }
      if (d < 0) q = scale(q, -1); if (e->op == O_SDIV) return q; return add(x, q, -d); }
    default: throw LiaBail{"op"};
    }
  }
  std::unordered_map<u32, Z3_ast> vz;
  Z3_ast bo(E *e) { auto it = bmemo.find(e->id); if (it != bmemo.end()) return it->second; Z3_ast r = bo0(e); bmemo[e->id] = r; return r; }
  Z3_ast bo0(E *e) {
    E *a = e->k[0], *b = e->k[1];
    switch (e->op) {
    case O_CONST: return e->c ? T() : Fa();
    case O_VAR: { char nm[32]; snprintf(nm, 32, "i%u", e->lo); Z3_ast z = K(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), Z3_mk_bool_sort(Z))); vz[e->lo] = z; return z; }
    case O_EQ: { if (a->w == 1) return K(Z3_mk_iff(Z, bo(a), bo(b))); LF x = tr(a), y = tr(b); if (isc(a)) { std::swap(a, b); std::swap(x, y); } if (isc(b) && a->w <= 100) { i128 N = (i128)1 << a->w; if (x.lo >= 0 && x.hi < N) y = kon((i128)b->c); else if (x.lo >= -(N >> 1) && x.hi < (N >> 1)) y = kon((b->c >> (a->w - 1)) & 1 ? (i128)b->c - N : (i128)b->c); else if (!isc(a)) { x = a->kz >> (a->w - 1) & 1 ? un(a) : sg(a); if (x.lo < 0) y = kon((b->c >> (a->w - 1)) & 1 ? (i128)b->c - N : (i128)b->c); else y = kon((i128)b->c); } LF d = add(x, y, -1); if (d.lo > 0 || d.hi < 0) return Fa(); if (d.lo == 0 && d.hi == 0) return T(); return K(Z3_mk_eq(Z, zt(d), num(0))); } i128 M = (i128)1 << std::min<int>(a->w, 120); LF d = add(x, y, -1); if (a->w <= 118 && !(d.lo > -M && d.hi < M)) { LF d1 = add(un(a), un(b), -1), d2 = add(sg(a), sg(b), -1); d = d1.hi - d1.lo <= d2.hi - d2.lo ? d1 : d2; } if (d.lo > 0 || d.hi < 0) return Fa(); if (d.lo == 0 && d.hi == 0) return T(); return K(Z3_mk_eq(Z, zt(d), num(0))); }
    case O_ULT: return ltF(un1(a), un1(b)); case O_ULE: return leF(un1(a), un1(b)); case O_SLT: return ltF(sg1(a), sg1(b)); case O_SLE: return leF(sg1(a), sg1(b));
    case O_ITE: return K(Z3_mk_ite(Z, bo(a), bo(b), bo(e->k[2])));
    case O_AND: { Z3_ast x[2] = {bo(a), bo(b)}; int p = cst(x[0]), q = cst(x[1]); if (p == 0 || q == 0) return Fa(); if (p == 1) return x[1]; if (q == 1) return x[0]; return K(Z3_mk_and(Z, 2, x)); }
    case O_OR: { Z3_ast x[2] = {bo(a), bo(b)}; int p = cst(x[0]), q = cst(x[1]); if (p == 1 || q == 1) return T(); if (p == 0) return x[1]; if (q == 0) return x[0]; return K(Z3_mk_or(Z, 2, x)); }
    case O_XOR: { Z3_ast x = bo(a), y = bo(b); int p = cst(x), q = cst(y); if (q == 0) return x; if (p == 0) return y; if (q == 1) return p >= 0 ? (p ? Fa() : T()) : K(Z3_mk_not(Z, x)); if (p == 1) return K(Z3_mk_not(Z, y)); return K(Z3_mk_xor(Z, x, y)); }
    case O_EXTRACT: { // one bit of a wider value
      LF f = tr(a); if (e->lo + 1u == a->w) { LF s = sg(a); return ltF(s, kon(0)); } LF x = U(f, e->lo + 1); return leF(kon((i128)1 << e->lo), x); }
    case O_ADD: case O_SUB: { Z3_ast x = bo(a), y = bo(b); return K(Z3_mk_xor(Z, x, y)); }
    case O_MUL: { Z3_ast x[2] = {bo(a), bo(b)}; return K(Z3_mk_and(Z, 2, x)); }
    default: throw LiaBail{"bool op"};
    }
  }
  LF un1(E *e) { return e->w == 1 ? bool01(e) : un(e); }
  LF sg1(E *e) { return e->w == 1 ? scale(bool01(e), -1) : sg(e); }
};
static u64 g_lia_relaxed = 0;
static R relaxed(std::string t, unsigned ms) {
  size_t p = 0; while ((p = t.find(" () Int)", p)) != std::string::npos) t.replace(p, 8, " () Real)");
  if (t.find("set-logic") != std::string::npos) return UNKNOWN;
  t = "(set-logic QF_LRA)\n" + t;
  Z3_ast_vector v = Z3_parse_smtlib2_string(Z, t.c_str(), 0, 0, 0, 0, 0, 0); if (Z3_get_error_code(Z) != Z3_OK) return UNKNOWN; Z3_ast_vector_inc_ref(Z, v);
  Z3_solver s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_LRA")); Z3_solver_inc_ref(Z, s);
  Z3_params q = Z3_mk_params(Z); Z3_params_inc_ref(Z, q); Z3_params_set_uint(Z, q, Z3_mk_string_symbol(Z, "timeout"), ms); Z3_solver_set_params(Z, s, q); Z3_params_dec_ref(Z, q);
  for (unsigned i = 0; i < Z3_ast_vector_size(Z, v); i++) Z3_solver_assert(Z, s, Z3_ast_vector_get(Z, v, i));
  Z3_lbool r = Z3_solver_check(Z, s); Z3_solver_dec_ref(Z, s); Z3_ast_vector_dec_ref(Z, v); return r == Z3_L_FALSE ? UNSAT : UNKNOWN;
}
static std::string g_lia_smt; static u64 g_lia_ok = 0, g_lia_tried = 0, g_lia_bail = 0;
static R solveLia(const std::vector<E *> &cs, const std::set<u32> &vs, std::vector<std::pair<u32, u128>> &model, unsigned tmo_ms, std::function<bool()> valid) {
  g_lia_tried++; g_lia_smt.clear();
  try {
    Lia L; std::vector<Z3_ast> as; bool fls = false; for (E *c : cs) L.learn(c, true); for (E *c : cs) { Z3_ast b = L.bo(c); int k = L.cst(b); if (k == 0) { fls = true; break; } if (k < 0) as.push_back(b); }
    if (fls) { g_lia_ok++; return UNSAT; }
    for (int phase = L.nonlinear ? 0 : 1; phase < 2; phase++) {
      bool nl = L.nonlinear && phase == 1;
      Z3_solver s = nl ? Z3_mk_simple_solver(Z) : Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_LIA")); Z3_solver_inc_ref(Z, s);
      Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), phase == 0 ? std::min(tmo_ms, 3000u) : tmo_ms); Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p);
      for (auto a : as) Z3_solver_assert(Z, s, a); for (auto a : L.side) Z3_solver_assert(Z, s, a); if (nl) for (auto a : L.hard) Z3_solver_assert(Z, s, a);
      if (const char *d = getenv("DSYM_DUMPLIA")) { static int n = 0; char fn[200]; snprintf(fn, 200, "%s/lia_%d_%d.smt2", d, getpid(), n++); FILE *f = fopen(fn, "w"); if (f) { fprintf(f, "%s(check-sat)\n", Z3_solver_to_string(Z, s)); fclose(f); } }
      // a short attempt first, then the relaxation to the reals (no integrality: unsatisfiable there means unsatisfiable)
      auto limit = [&](unsigned ms) { Z3_params q = Z3_mk_params(Z); Z3_params_inc_ref(Z, q); Z3_params_set_uint(Z, q, Z3_mk_string_symbol(Z, "timeout"), ms); Z3_solver_set_params(Z, s, q); Z3_params_dec_ref(Z, q); };
      Z3_lbool r; if (!nl && !L.nonlinear && tmo_ms > 1200) { limit(1200); r = Z3_solver_check(Z, s); if (r == Z3_L_UNDEF) { Z3_solver s3 = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, s3); for (auto a : as) Z3_solver_assert(Z, s3, a); for (auto a : L.side) Z3_solver_assert(Z, s3, a); std::string text = Z3_solver_to_string(Z, s3); Z3_solver_dec_ref(Z, s3);
        if (relaxed(text, 3000) == UNSAT) { g_lia_relaxed++; r = Z3_L_FALSE; } else { limit(tmo_ms); r = Z3_solver_check(Z, s); } } } else r = Z3_solver_check(Z, s);
      R res = UNKNOWN; model.clear();
      if (r == Z3_L_FALSE) res = UNSAT;
      else if (r == Z3_L_TRUE) { res = SAT; Z3_model m = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, m);
        for (u32 v : vs) { u128 val = g_vars[v].lo; auto it = L.vz.find(v); Z3_ast o; if (it != L.vz.end() && Z3_model_eval(Z, m, it->second, true, &o)) { if (g_vars[v].w == 1) val = Z3_get_bool_value(Z, o) == Z3_L_TRUE; else { const char *str = Z3_get_numeral_string(Z, o); val = 0; for (; *str >= '0' && *str <= '9'; str++) val = val * 10 + (*str - '0'); } } model.push_back({v, val}); }
        Z3_model_dec_ref(Z, m); }
      Z3_solver_dec_ref(Z, s);
      if (res == SAT && !nl && L.nonlinear && !valid()) continue;
      if (res == UNKNOWN && phase == 0) continue;
      if (res == UNKNOWN && nl) { Z3_solver s2 = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, s2); for (auto a : as) Z3_solver_assert(Z, s2, a); for (auto a : L.side) Z3_solver_assert(Z, s2, a); for (auto a : L.hard) Z3_solver_assert(Z, s2, a); g_lia_smt = std::string("(set-logic QF_NIA)\n") + Z3_solver_to_string(Z, s2) + "(check-sat)\n"; Z3_solver_dec_ref(Z, s2); }
      if (res != UNKNOWN) g_lia_ok++; return res;
    }
    return UNKNOWN;
  } catch (LiaBail &b) { g_lia_bail++; if (getenv("DSYM_SLOWQ")) { fprintf(stderr, "lia bail: %s\n", b.why); if (getenv("DSYM_BAILQ")) for (E *c : cs) fprintf(stderr, "   %s\n", show(c, 7).c_str()); } return UNKNOWN; }
}
static bool hasMul(E *e, std::set<u32> &seen) { if (!seen.insert(e->id).second) return false; if (e->op == O_UDIV || e->op == O_SDIV || e->op == O_UREM || e->op == O_SREM) return true; if (e->op == O_MUL) return true; for (int i = 0; i < e->nk; i++) if (hasMul(e->k[i], seen)) return true; return false; }
