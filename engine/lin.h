#pragma once
// Bit-level normal form over GF(2): every bit of an expression is an exclusive-or of atomic bits; non-linear
// operations are atoms identified by the normal forms of their operands (bit i of a sum or product by the low
// i+1 bits of its operands). Two expressions with the same normal form are equal for every assignment.
struct LinNF {
  typedef std::vector<u32> Set; // sorted atom numbers; atom 0 is the constant 1
  std::vector<Set> sets; std::map<Set, u32> setid; std::unordered_map<u64, u32> xm; std::map<std::vector<u32>, u32> atoms; std::map<std::pair<u32, u32>, u32> pre; u32 natoms = 1, npre = 1; std::unordered_map<u32, std::vector<u32>> memo; size_t work = 0, limit;
  LinNF(size_t l = 200000000) : limit(l) { intern(Set()); intern(Set{0}); }
  struct Bail {};
  u32 intern(const Set &s) { auto it = setid.find(s); if (it != setid.end()) return it->second; work += s.size() + 1; if (work > limit) throw Bail(); u32 i = sets.size(); sets.push_back(s); setid[s] = i; return i; }
  u32 xr(u32 a, u32 b) { if (a == b) return 0; if (!a) return b; if (!b) return a; if (a > b) std::swap(a, b); u64 k = ((u64)a << 32) | b; auto it = xm.find(k); if (it != xm.end()) return it->second; Set r; std::set_symmetric_difference(sets[a].begin(), sets[a].end(), sets[b].begin(), sets[b].end(), std::back_inserter(r)); u32 i = intern(r); xm[k] = i; return i; }
  u32 atom(std::vector<u32> k) { auto it = atoms.find(k); u32 n; if (it != atoms.end()) n = it->second; else { n = natoms++; atoms[k] = n; } return intern(Set{n}); }
  u32 prefix(const std::vector<u32> &v, size_t n, u32 start = 0) { u32 p = start; for (size_t i = 0; i < n; i++) { auto k = std::make_pair(p, v[i]); auto it = pre.find(k); if (it != pre.end()) p = it->second; else { u32 q = npre++; pre[k] = q; p = q; } } return p; }
  u32 band(u32 a, u32 b) { if (a > b) std::swap(a, b); if (a == 0) return 0; if (a == 1) return b; if (a == b) return a; return atom({1001, a, b}); }
  std::vector<u32> nf(E *root) {
    std::vector<E *> st{root};
    while (!st.empty()) { E *e = st.back(); if (memo.count(e->id)) { st.pop_back(); continue; } bool ready = true; for (int i = 0; i < e->nk; i++) if (!memo.count(e->k[i]->id)) { st.push_back(e->k[i]); ready = false; } if (!ready) continue; st.pop_back(); memo[e->id] = nf0(e); }
    return memo[root->id]; }
  std::vector<u32> nf0(E *e) {
    unsigned w = e->w; std::vector<u32> r(w, 0); auto K = [&](int i) -> const std::vector<u32> & { return memo[e->k[i]->id]; };
    work += w; if (work > limit) throw Bail();
    if (e->nk && e->op != O_XOR && e->op != O_EXTRACT && e->op != O_ZEXT && e->op != O_SEXT && e->op != O_CONCAT) { // operands that depend on one bit only
      u32 s = 0; bool one = true; for (int i = 0; i < e->nk && one; i++) for (u32 b : K(i)) if (b > 1) { if (!s) s = b; else if (b != s && b != xr(s, 1)) { one = false; break; } }
      if (one && s) { u32 ns = xr(s, 1); u128 v[2]; for (int t = 0; t < 2; t++) { u128 a[3] = {0, 0, 0}; unsigned aw[3] = {0, 0, 0}; for (int i = 0; i < e->nk; i++) { aw[i] = e->k[i]->w; const auto &q = K(i); for (size_t j = 0; j < q.size(); j++) { bool bit = q[j] == 1 || (q[j] == s && t) || (q[j] == ns && !t); if (bit) a[i] |= (u128)1 << j; } } v[t] = evalop(e->op, w, e->lo, a, aw); }
        for (unsigned i = 0; i < w; i++) { bool b0 = (v[0] >> i) & 1, b1 = (v[1] >> i) & 1; r[i] = b0 == b1 ? (b0 ? 1 : 0) : b1 ? s : ns; } return r; } }
    switch (e->op) {
    case O_CONST: for (unsigned i = 0; i < w; i++) r[i] = (e->c >> i) & 1 ? 1 : 0; return r;
    case O_VAR: for (unsigned i = 0; i < w; i++) r[i] = atom({O_VAR, e->lo, i}); return r;
    case O_XOR: for (unsigned i = 0; i < w; i++) r[i] = xr(K(0)[i], K(1)[i]); return r;
    case O_AND: for (unsigned i = 0; i < w; i++) r[i] = band(K(0)[i], K(1)[i]); return r;
    case O_OR: for (unsigned i = 0; i < w; i++) r[i] = xr(xr(K(0)[i], K(1)[i]), band(K(0)[i], K(1)[i])); return r;
    case O_EXTRACT: for (unsigned i = 0; i < w; i++) r[i] = K(0)[e->lo + i]; return r;
    case O_ZEXT: for (unsigned i = 0; i < e->k[0]->w; i++) r[i] = K(0)[i]; return r;
    case O_SEXT: for (unsigned i = 0; i < w; i++) r[i] = K(0)[std::min<unsigned>(i, e->k[0]->w - 1)]; return r;
    case O_CONCAT: { unsigned lw = e->k[1]->w; for (unsigned i = 0; i < w; i++) r[i] = i < lw ? K(1)[i] : K(0)[i - lw]; return r; }
    case O_SHL: if (isc(e->k[1])) { u128 s = e->k[1]->c; for (unsigned i = 0; i < w; i++) r[i] = s <= i ? K(0)[i - (unsigned)s] : 0; return r; } break;
    case O_LSHR: if (isc(e->k[1])) { u128 s = e->k[1]->c; for (unsigned i = 0; i < w; i++) r[i] = s < w && i + (unsigned)s < w ? K(0)[i + (unsigned)s] : 0; return r; } break;
    case O_ASHR: if (isc(e->k[1])) { unsigned s = e->k[1]->c >= w ? w - 1 : (unsigned)e->k[1]->c; for (unsigned i = 0; i < w; i++) r[i] = K(0)[std::min(i + s, w - 1)]; return r; } break;
    case O_ITE: for (unsigned i = 0; i < w; i++) r[i] = xr(K(2)[i], band(K(0)[0], xr(K(1)[i], K(2)[i]))); return r;
    case O_ADD: case O_SUB: case O_MUL: { const std::vector<u32> *x = &K(0), *y = &K(1); u32 p = 0, q = 0; auto step = [&](u32 p0, u32 v) { auto k = std::make_pair(p0, v); auto it = pre.find(k); if (it != pre.end()) return it->second; u32 n = npre++; pre[k] = n; return n; };
      bool zx = true, zy = true; // the low bits of one operand so far are all zero
      for (unsigned i = 0; i < w; i++) { zx = zx && !(*x)[i]; zy = zy && !(*y)[i]; if (e->op == O_MUL ? zx || zy : zy || (zx && e->op == O_ADD)) { p = step(p, (*x)[i]); q = step(q, (*y)[i]); r[i] = e->op == O_MUL ? 0 : zy ? (*x)[i] : (*y)[i]; continue; }
        p = step(p, (*x)[i]); q = step(q, (*y)[i]); u32 a = p, b = q; if (e->op != O_SUB && a > b) std::swap(a, b); if (i == 0) r[0] = e->op == O_MUL ? band((*x)[0], (*y)[0]) : xr((*x)[0], (*y)[0]); else r[i] = atom({(u32)e->op, i, a, b}); } return r; }
    case O_ULT: case O_ULE: { E *x = e->k[0], *y = e->k[1]; bool neg = false, le = e->op == O_ULE; if (isc(x)) { std::swap(x, y); neg = true; le = !le; } if (!isc(y)) break; u128 c = y->c + (le ? 1 : 0); if (!c || (c & (c - 1))) break; // x < 2^k
      const auto &v = memo[x->id]; std::set<u32> d; for (size_t i = ctz128(c); i < v.size(); i++) if (v[i]) d.insert(v[i]); u32 q; if (d.count(1)) q = 0; else if (d.empty()) q = 1; else if (d.size() == 1) q = xr(1, *d.begin()); else { std::vector<u32> key{O_EQ}; key.insert(key.end(), d.begin(), d.end()); q = atom(key); } r[0] = neg ? xr(1, q) : q; return r; }
    case O_EQ: { std::set<u32> d; for (size_t i = 0; i < K(0).size(); i++) { u32 x = xr(K(0)[i], K(1)[i]); if (x) d.insert(x); } if (d.count(1)) return r; if (d.empty()) { r[0] = 1; return r; } if (d.size() == 1) { r[0] = xr(1, *d.begin()); return r; } std::vector<u32> key{O_EQ}; key.insert(key.end(), d.begin(), d.end()); r[0] = atom(key); return r; }
    default: break;
    }
    std::vector<u32> key{(u32)e->op, e->lo}; for (int i = 0; i < e->nk; i++) { key.push_back(e->k[i]->w); key.push_back(prefix(K(i), K(i).size())); }
    for (unsigned i = 0; i < w; i++) { auto k = key; k.push_back(i); r[i] = atom(k); } return r;
  }
};
// is some constraint identically false?
static bool linRefutes(const std::vector<E *> &cs) {
  for (E *c : cs) { E *i; if (isnot(c, i) ? i->op != O_EQ || i->k[0]->w < 2 : c->op == O_VAR) continue;
    for (int t = 0; t < 2; t++) { static LinNF *L = nullptr; if (!L) L = new LinNF(); try { if (L->nf(c)[0] == 0) return true; break; } catch (LinNF::Bail &) { delete L; L = nullptr; } } }
  return false; }
