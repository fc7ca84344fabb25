// dsym: symbolic executor for LLVM IR produced by rustc.
#include "ir.h"
#include "solver.h"
#include <deque>
#include <cmath>
#include <sys/mman.h>
#include <sys/resource.h>

// ------------------------------------------------------------ memory
static const unsigned PG = 512;
struct Page { int rc; bool sym; u8 d[PG]; E **s; };
static Page *zeropage() { static Page *z = nullptr; if (!z) { z = (Page *)calloc(1, sizeof(Page)); z->rc = 1 << 30; } return z; }
struct Obj { int rc = 1; u64 size = 0; bool alive = true, ro = false; std::vector<Page *> pg; const char *kind = "heap"; };
static void pgunref(Page *p) { if (p->rc >= (1 << 29)) return; if (--p->rc == 0) { free(p->s); free(p); } }
static Obj *newObj(u64 size, const char *kind) { Obj *o = new Obj; o->size = size; o->kind = kind; o->pg.assign((size + PG - 1) / PG, zeropage()); return o; }
static void unrefObj(Obj *o) { if (--o->rc == 0) { for (Page *p : o->pg) pgunref(p); delete o; } }
static Obj *cloneObj(Obj *o) { Obj *n = new Obj(*o); n->rc = 1; for (Page *p : n->pg) if (p->rc < (1 << 29)) p->rc++; return n; }
static Page *wpage(Obj *o, u64 i) { Page *p = o->pg[i]; if (p->rc == 1) return p; Page *n = (Page *)malloc(sizeof(Page)); memcpy(n, p, sizeof(Page)); n->rc = 1; n->s = nullptr; if (p->s) { n->s = (E **)malloc(sizeof(E *) * PG); memcpy(n->s, p->s, sizeof(E *) * PG); } pgunref(p); o->pg[i] = n; return n; }

static std::vector<Global *> g_globlist; static std::vector<Obj *> g_gobjs(1, nullptr); // immutable constant objects, ids 1..
static std::vector<std::pair<u32, Func *>> g_faddr;
static std::unordered_map<u64, Func *> g_fbyaddr;
static const u64 FUNC_ID0 = 0x40000000ull; // function "object ids"
static const u64 HEAP_ID0 = 0x00100000ull; // per-state objects
static std::vector<Global *> g_mutglobs;

static u64 addrOf(const std::string &n0) {
  std::string n = n0; auto al_ = g_aliases.find(n); if (al_ != g_aliases.end()) n = al_->second;
  auto f = g_funcs.find(n); if (f != g_funcs.end()) { if (!f->second->addr) { f->second->addr = (FUNC_ID0 + g_fbyaddr.size()) << 32; g_fbyaddr[f->second->addr] = f->second; } return f->second->addr; }
  auto g = g_globals.find(n); if (g == g_globals.end()) throw std::runtime_error("unknown symbol @" + n);
  Global *G = g->second; if (G->addr) return G->addr;
  // parse definition
  Lex L(G->def); bool ext = false;
  while (L.t.k == Tok::ID && L.t.s != "global" && L.t.s != "constant") { if (L.is("external") || L.is("extern_weak")) ext = true; if (L.is("thread_local")) G->tls = true; L.next(); if (L.is("(")) skipParens(L); }
  G->constant = L.is("constant"); L.next(); G->t = ptype(L); G->external = ext;
  if (ext) { G->objid = g_gobjs.size(); g_gobjs.push_back(newObj(std::max<u64>(G->t->size, 8), "external")); G->addr = (u64)G->objid << 32; return G->addr; }
  if (G->constant) { G->objid = g_gobjs.size(); Obj *o = newObj(G->t->size, "const"); o->ro = true; g_gobjs.push_back(o); }
  else { G->objid = HEAP_ID0 + g_mutglobs.size(); g_mutglobs.push_back(G); }
  G->addr = (u64)G->objid << 32; G->initText = std::string(L.t.k == Tok::CSTR ? "" : "", 0);
  // remaining text (initializer) - re-lex from the type end
  std::vector<Val> vals; pconst(L, G->t, vals); std::vector<Leaf> lv; leaves(G->t, 0, lv);
  static std::vector<std::pair<int, Obj *>> pend;
  Obj *o = G->constant ? g_gobjs[G->objid] : newObj(G->t->size, "global");
  for (size_t i = 0; i < lv.size() && i < vals.size(); i++) { u64 n = (lv[i].t->bits + 7) / 8; u128 c = vals[i].e ? vals[i].e->c : vals[i].c; for (u64 b = 0; b < n; b++) wpage(o, (lv[i].off + b) / PG)->d[(lv[i].off + b) % PG] = (u8)(c >> (8 * b)); }
  if (!G->constant) { extern std::unordered_map<int, Obj *> g_mutinit; g_mutinit[G->objid] = o; }
  return G->addr;
}
std::unordered_map<int, Obj *> g_mutinit;

// ------------------------------------------------------------ state
struct Frame { Func *f; int pc; std::vector<Val> r; std::vector<int> allocas; int dst; };
struct State {
  std::vector<Frame> st; std::vector<Obj *> ob; std::vector<E *> pc; std::unordered_map<u32, u64> known; // expr id -> constant value
  Model model; std::vector<u32> vars; std::map<std::string, int> vcount; int expectPanic = 0; std::string expectLabel; u64 trace = 1469598103934665603ull; std::vector<u64> traces; u64 steps = 0; int depth = 0; bool symTouched = false;
  State() { }
  State(const State &o) : st(o.st), ob(o.ob), pc(o.pc), known(o.known), model(o.model), vars(o.vars), vcount(o.vcount), expectPanic(o.expectPanic), expectLabel(o.expectLabel), trace(o.trace), traces(o.traces), steps(o.steps), depth(o.depth) { for (Obj *x : ob) if (x) x->rc++; }
  ~State() { for (Obj *x : ob) if (x) unrefObj(x); }
};

struct Viol { std::string kind, label, where; std::vector<std::pair<std::string, std::pair<unsigned, u128>>> in; };
struct Result { std::vector<Viol> viol; std::map<std::string, u64> reach, checks, checksUnknown; std::map<std::string, u64> errors; u64 paths = 0, killed = 0, panics_expected = 0, instr = 0, syminstr = 0, forks = 0; bool incomplete = false; std::set<u32> dbgs; u64 unfinished = 0; std::vector<u64> traces; std::map<std::string,u64> samples; };
static Result RS; static std::vector<State *> g_work; static std::deque<State *> g_bfs; static bool g_forked = false;
static double g_deadline = 1e18; static u64 g_maxviol = 1; static std::string g_entry = "dsym_main";
static std::vector<u64> g_replay; static bool g_concrete = false; static size_t g_rpos = 0; static bool g_showtrace=false;
static std::map<std::string, u64> g_params;
static u64 g_maxsteps = 4000000000ull;

struct PathEnd { std::string why; bool ok; };
struct Retry { };
struct EngineError { std::string msg; };

static void pushState(State *s) { RS.forks++; g_forked = true; if (g_phase1) g_bfs.push_back(s); else g_work.push_back(s); }

static std::string dbgWhere(u32 id);
static std::string whereNow(State *s) { std::string r; int n = 0; for (int i = (int)s->st.size() - 1; i >= 0 && n < 6; i--, n++) { Frame &f = s->st[i]; const Inst &I = f.f->code[std::max(0, std::min<int>(f.pc, f.f->code.size() - 1))]; std::string w = I.dbg ? dbgWhere(I.dbg) : f.f->name; r += (n ? " < " : "") + w; } return r; }

static void addc(State *s, E *c) { if (isc(c)) return; s->pc.push_back(c); s->known[c->id] = 1; E *n; if (isnot(c, n)) s->known[n->id] = 0; else { E *nc = mknot(c); s->known[nc->id] = 0; }
  if (c->op == O_EQ && isc(c->k[1]) && c->k[0]->w <= 64) s->known[c->k[0]->id] = (u64)c->k[1]->c;
  if (c->op == O_AND) { for (int i = 0; i < 2; i++) { E *x = c->k[i]; s->known[x->id] = 1; if (x->op == O_EQ && isc(x->k[1]) && x->k[0]->w <= 64) s->known[x->k[0]->id] = (u64)x->k[1]->c; } } }
static bool lookup(State *s, E *e, u64 &v) { if (isc(e)) { v = (u64)e->c; return true; } auto it = s->known.find(e->id); if (it != s->known.end()) { v = it->second; return true; } return false; }
static u128 evalS(State *s, E *e) { return evalE(e, s->model, s->model.uid); }
static void setModel(State *s, const std::vector<std::pair<u32, u128>> &m) { for (auto &x : m) { if (s->model.v.size() <= x.first) { size_t o = s->model.v.size(); s->model.v.resize(g_vars.size()); for (size_t i = o; i < g_vars.size(); i++) s->model.v[i] = g_vars[i].lo; } s->model.v[x.first] = x.second; } s->model.uid = g_modeluid++; }

static R query(State *s, E *q, std::vector<std::pair<u32, u128>> *m) { if (isc(q)) return q->c ? SAT : UNSAT; std::vector<E *> cs; slice(s->pc, q, cs); cs.push_back(q); return solve(cs, m); }

// branch on symbolic condition: returns the side taken by this state; forks the other when feasible
static std::string show(E *e, int d) { static const char *nm[] = {0}; (void)nm; char b[64]; if (isc(e)) { snprintf(b, 64, "%llx:%u", (unsigned long long)e->c, (unsigned)e->w); return b; } if (e->op == O_VAR) return g_vars[e->lo].name; snprintf(b, 64, "(op%d.%u", (int)e->op, (unsigned)e->w); std::string r = b; if (d == 0) return r + "..)"; for (int i = 0; i < e->nk; i++) r += " " + show(e->k[i], d - 1); return r + ")"; }
static bool g_forksel = false, g_forkix = false;
static bool branch(State *s, E *c) {
  u64 kv; if (lookup(s, c, kv)) return kv & 1;
  s->symTouched = true;
  bool b = (bool)evalS(s, c); ST.modelhits++; E *other = b ? mknot(c) : c; std::vector<std::pair<u32, u128>> m;
  R r = query(s, other, &m);
  static bool fl = getenv("DSYM_FORKLOC"); if (fl && r == SAT) fprintf(stderr, "fork %s\n   %s\n", whereNow(s).c_str(), show(c, 9).c_str());
  if (r == SAT) { State *o = new State(*s); setModel(o, m); addc(o, other); o->depth++; addc(s, b ? c : mknot(c)); s->depth++; pushState(o); }
  else if (r == UNKNOWN) { RS.incomplete = true; RS.errors["solver: undecided branch at " + whereNow(s)]++; addc(s, b ? c : mknot(c)); }
  else { s->known[c->id] = b; E *n = mknot(c); s->known[n->id] = !b; if (c->op == O_EQ && b && isc(c->k[1]) && c->k[0]->w <= 64) s->known[c->k[0]->id] = (u64)c->k[1]->c; }
  return b;
}
// fork-free concretisation: returns a value for e, forking siblings for the other values
static u64 concretize(State *s, E *e) {
  u64 kv; if (lookup(s, e, kv)) return kv;
  s->symTouched = true;
  E *x = e; while (x->op == O_ZEXT) x = x->k[0];
  if (x->op == O_VAR && x->w <= 64) { bool touched = false; for (E *c : s->pc) if (inter(c->vm, x->vm)) { touched = true; break; }
    VarInfo &vi = g_vars[x->lo];
    if (!touched && vi.hi - vi.lo < 70000) { u64 cur = (u64)evalS(s, x); for (u64 v = (u64)vi.lo; v <= (u64)vi.hi; v++) if (v != cur) { State *o = new State(*s); setModel(o, {{x->lo, v}}); addc(o, mkeq(x, mkc(v, x->w))); o->depth++; pushState(o); } addc(s, mkeq(x, mkc(cur, x->w))); s->depth++; return cur; } }
  u64 v = (u64)evalS(s, e); E *eq = mkeq(e, mkc(v, e->w)); branch(s, eq); s->known[e->id] = v; return v;
}

static void addInputs(State *s, Viol &v) { for (u32 x : s->vars) v.in.push_back({g_vars[x].name, {g_vars[x].w, x < s->model.v.size() ? s->model.v[x] : g_vars[x].lo}}); }
static void report(State *s, const std::string &kind, const std::string &label) { Viol v; v.kind = kind; v.label = label; v.where = whereNow(s); addInputs(s, v); RS.viol.push_back(v); }

static Obj *getObj(State *s, u64 id) { if (id < g_gobjs.size()) return id ? g_gobjs[id] : nullptr; if (id >= HEAP_ID0 && id - HEAP_ID0 < s->ob.size()) return s->ob[id - HEAP_ID0]; return nullptr; }
static Obj *wObj(State *s, u64 id) { if (id < HEAP_ID0) { return nullptr; } Obj *&o = s->ob[id - HEAP_ID0]; if (o->rc > 1) { Obj *n = cloneObj(o); o->rc--; o = n; } return o; }
static u64 allocObj(State *s, u64 size, const char *kind) { s->ob.push_back(newObj(size, kind)); return (HEAP_ID0 + s->ob.size() - 1) << 32; }

static void memviol(State *s, const std::string &what) { report(s, "memory", what); throw PathEnd{"memory violation", false}; }
static Obj *chk(State *s, u64 a, u64 n, bool wr) { Obj *o = getObj(s, a >> 32); if (!o || !o->alive || (a & 0xffffffff) + n > o->size) { if (n == 0) return nullptr; char b[200]; snprintf(b, 200, "%s of %llu bytes at invalid address %#llx (object %s size %llu)", wr ? "write" : "read", (unsigned long long)n, (unsigned long long)a, o ? (o->alive ? o->kind : "freed") : "none", o ? (unsigned long long)o->size : 0ull); memviol(s, b); } if (wr && (o->ro || a >> 32 < HEAP_ID0)) memviol(s, "write to constant memory"); return o; }

// resolve pointer value to concrete address (may fork: throws Retry after constraining)
static u64 resolve(State *s, Val p, bool wr, u64 n) {
  if (!p.e) return p.c;
  u64 kv; if (lookup(s, p.e, kv)) return kv;
  E *e = p.e;
  if (e->op == O_ITE) { branch(s, e->k[0]); u64 c; if (lookup(s, e->k[0], c)) return resolve(s, c ? (isc(e->k[1]) ? cv((u64)e->k[1]->c) : Val{0, e->k[1]}) : (isc(e->k[2]) ? cv((u64)e->k[2]->c) : Val{0, e->k[2]}), wr, n); }
  return concretize(s, e);
}

static Val ldc(State *s, u64 a, Type *t) {
  u32 bits = t->bits, n = (bits + 7) / 8; Obj *o = chk(s, a, n, false); u64 off = a & 0xffffffff; Page *p = o->pg[off / PG]; u64 po = off % PG;
  if (po + n <= PG && !p->s) { if (n <= 8) { u64 v = 0; memcpy(&v, p->d + po, n); if (bits & 7 || bits < 8) v &= (u64)maskw(bits); return cv(v); } u128 v = 0; memcpy(&v, p->d + po, n); return mkval(v, bits); }
  // general
  bool anys = false; E *bs[16]; for (u32 i = 0; i < n; i++) { Page *q = o->pg[(off + i) / PG]; u64 x = (off + i) % PG; E *e = q->s ? q->s[x] : nullptr; if (e) anys = true; bs[i] = e; if (!e) bs[i] = nullptr; }
  if (!anys) { u128 v = 0; for (u32 i = 0; i < n; i++) v |= (u128)o->pg[(off + i) / PG]->d[(off + i) % PG] << (8 * i); return mkval(v & maskw(bits), bits); }
  E *r = nullptr; for (int i = n - 1; i >= 0; i--) { E *b = bs[i] ? bs[i] : mkc(o->pg[(off + i) / PG]->d[(off + i) % PG], 8); r = r ? mkconcat(r, b) : b; }
  // rebuild pairs low-first so that adjacent extracts merge
  if (n > 1) { r = bs[0] ? bs[0] : mkc(o->pg[off / PG]->d[off % PG], 8); for (u32 i = 1; i < n; i++) { E *b = bs[i] ? bs[i] : mkc(o->pg[(off + i) / PG]->d[(off + i) % PG], 8); r = mkconcat(b, r); } }
  if (bits < n * 8) r = mkextract(r, bits - 1, 0);
  if (isc(r) && bits <= 64) return cv((u64)r->c); return Val{0, r};
}
static void stc(State *s, u64 a, Type *t, Val v) {
  u32 bits = t->bits, n = (bits + 7) / 8; chk(s, a, n, true); Obj *o = wObj(s, a >> 32); u64 off = a & 0xffffffff;
  if (!v.e || isc(v.e)) { u128 c = v.e ? v.e->c : v.c; u64 po = off % PG; if (po + n <= PG) { Page *p = wpage(o, off / PG); memcpy(p->d + po, &c, n); if (p->s) for (u32 i = 0; i < n; i++) p->s[po + i] = nullptr; return; }
    for (u32 i = 0; i < n; i++) { Page *p = wpage(o, (off + i) / PG); p->d[(off + i) % PG] = (u8)(c >> (8 * i)); if (p->s) p->s[(off + i) % PG] = nullptr; } return; }
  E *e = v.e; if (e->w < n * 8) e = mkzext(e, n * 8);
  for (u32 i = 0; i < n; i++) { Page *p = wpage(o, (off + i) / PG); u64 x = (off + i) % PG; E *b = mkextract(e, 8 * i + 7, 8 * i); if (isc(b)) { p->d[x] = (u8)b->c; if (p->s) p->s[x] = nullptr; } else { if (!p->s) p->s = (E **)calloc(PG, sizeof(E *)); p->s[x] = b; } }
}
static Val evOr(E *e) { if (isc(e) && e->w <= 64) return cv((u64)e->c); return Val{0, e}; }
static inline E *toE(Val v, unsigned w) { return v.e ? v.e : mkc(v.c, w); }

// load through a symbolic address: multiplex over candidate cells
static Val loadSym(State *s, E *a, const Inst &I, std::vector<Val> *multi) {
  u64 kv; u64 v0; E *x = a; 
  if (lookup(s, a, kv)) { if (multi) { for (auto &l : I.lv) multi->push_back(ldc(s, kv + l.off, l.t)); return cv(0); } return ldc(s, kv, I.lv[0].t); }
  while (x->op == O_ITE) { bool b = branch(s, x->k[0]); x = b ? x->k[1] : x->k[2]; if (isc(x) || lookup(s, x, kv)) { if (isc(x)) kv = (u64)x->c; if (multi) { for (auto &l : I.lv) multi->push_back(ldc(s, kv + l.off, l.t)); return cv(0); } return ldc(s, kv, I.lv[0].t); } }
  a = x; v0 = (u64)evalS(s, a); u64 n = 0; for (auto &l : I.lv) n = std::max<u64>(n, l.off + (l.t->bits + 7) / 8);
  Obj *o = getObj(s, v0 >> 32); u64 base = v0 >> 32 << 32; u64 fin = o && o->alive && o->size >= n ? base + o->size - n : 0;
  if (!o || !o->alive || v0 > fin) { chk(s, v0, n, false); }
  // does the address stay inside this object?
  if (!(a->mn >= base && a->mx <= fin)) { E *in = mk(O_AND, 1, mk(O_ULE, 1, mkc(base, 64), a), mk(O_ULE, 1, a, mkc(fin, 64))); branch(s, in); }
  // candidate addresses
  u64 lo = (u64)std::max<u128>(a->mn, base), hi = (u64)std::min<u128>(a->mx, fin); u64 stride = 1; { u128 k = a->kz | a->ko; unsigned t = ctz128(~k); if (t > 20) t = 20; stride = 1ull << t; lo = lo + ((v0 - lo) % stride); }
  std::vector<u64> cand;
  if ((hi - lo) / stride > 48) { // enumerate feasible values by solver when the static range is wide
    std::vector<E *> ex; State tmp(*s); u64 lim = 24; bool full = false; E *acc = TRUE_(); u64 v = v0; std::vector<u64> got;
    while (true) { got.push_back(v); acc = mk(O_AND, 1, acc, mknot(mkeq(a, mkc(v, 64)))); if (got.size() > lim) { full = true; break; } std::vector<std::pair<u32, u128>> m; R r = query(&tmp, acc, &m); if (r == UNSAT) break; if (r == UNKNOWN) { full = true; break; } State t2(tmp); setModel(&t2, m); v = (u64)evalS(&t2, a); }
    if (!full) { cand = got; std::sort(cand.begin(), cand.end()); }
  }
  if (cand.empty() || g_forkix) { if (g_forkix || (hi - lo) / stride > 4096) { u64 v = concretize(s, a); if (multi) { for (auto &l : I.lv) multi->push_back(ldc(s, v + l.off, l.t)); return cv(0); } return ldc(s, v, I.lv[0].t); } for (u64 v = lo; v <= hi; v += stride) cand.push_back(v); }
  struct B { static E *go(State *s, E *a, const std::vector<u64> &c, size_t l, size_t r, Type *t, u64 off) { if (r - l == 1) { Val v = ldc(s, c[l] + off, t); return toE(v, t->bits); } size_t m = (l + r) / 2; E *x = go(s, a, c, l, m, t, off), *y = go(s, a, c, m, r, t, off); if (x == y) return x; return mkite(mk(O_ULT, 1, a, mkc(c[m], 64)), x, y); } };
  if (multi) { for (auto &l : I.lv) multi->push_back(evOr(B::go(s, a, cand, 0, cand.size(), l.t, l.off))); return cv(0); }
  return evOr(B::go(s, a, cand, 0, cand.size(), I.lv[0].t, 0));
}

static void copyBytes(State *s, u64 d, u64 a, u64 n) {
  if (!n) return; Obj *so = chk(s, a, n, false); chk(s, d, n, true); Obj *dо = wObj(s, d >> 32); so = getObj(s, a >> 32); u64 so_ = a & 0xffffffff, do_ = d & 0xffffffff;
  if (so == dо && so_ < do_ + n && do_ < so_ + n) { // overlap: temp
    std::vector<u8> t(n); std::vector<E *> te(n, nullptr); for (u64 i = 0; i < n; i++) { Page *p = so->pg[(so_ + i) / PG]; t[i] = p->d[(so_ + i) % PG]; if (p->s) te[i] = p->s[(so_ + i) % PG]; }
    for (u64 i = 0; i < n; i++) { Page *p = wpage(dо, (do_ + i) / PG); u64 x = (do_ + i) % PG; p->d[x] = t[i]; if (te[i] && !p->s) p->s = (E **)calloc(PG, sizeof(E *)); if (p->s) p->s[x] = te[i]; } return; }
  u64 i = 0; while (i < n) { Page *sp = so->pg[(so_ + i) / PG]; u64 sx_ = (so_ + i) % PG, dx = (do_ + i) % PG; 
    if (sx_ == 0 && dx == 0 && n - i >= PG && so != dо) { Page *&dp = dо->pg[(do_ + i) / PG]; if (sp->rc < (1 << 29)) { if (g_gobjs.size() && 0) {} sp->rc++; } pgunref(dp); dp = sp; i += PG; continue; }
    u64 k = std::min(std::min(PG - sx_, PG - dx), n - i); Page *dp = wpage(dо, (do_ + i) / PG); sp = so->pg[(so_ + i) / PG]; memcpy(dp->d + dx, sp->d + sx_, k); if (sp->s) { if (!dp->s) dp->s = (E **)calloc(PG, sizeof(E *)); memcpy(dp->s + dx, sp->s + sx_, k * sizeof(E *)); } else if (dp->s) memset(dp->s + dx, 0, k * sizeof(E *)); i += k; }
}

// ------------------------------------------------------------ builtins
enum BI { B_NONE = -1, B_SYM, B_ASSUME, B_CHECK, B_REACH, B_CONCR, B_EXPECT, B_TRACE, B_ISSYM, B_FORK, B_STOP, B_TESTPATH,
  B_NOP, B_MEMCPY, B_MEMSET, B_WITHOV, B_SAT, B_MINMAX, B_ABS, B_CTLZ, B_CTTZ, B_CTPOP, B_BSWAP, B_FSH, B_CMP3, B_EXPECTV, B_LASSUME, B_TRAP, B_FPUN, B_FPTOSAT, B_FMA, B_ALLOC, B_ALLOCZ, B_DEALLOC, B_REALLOC, B_BCMP, B_MEMCMP, B_STRLEN, B_ISCONST, B_TLS, B_REDUCE, B_RET0, B_FPBIN, B_HASHKEYS, B_BITREV, B_PMOVMSKB, B_SHIM1, B_GETENV, B_OBJSIZE, B_CALLOC, B_CREALLOC, B_PMEMALIGN, B_FREE, B_PARAM };
static int builtinId(const std::string &n) {
  static std::unordered_map<std::string, int> ex = {{"dsym_sym", B_SYM}, {"dsym_assume", B_ASSUME}, {"dsym_check", B_CHECK}, {"dsym_reach", B_REACH}, {"dsym_concretize", B_CONCR}, {"dsym_expect_panic", B_EXPECT}, {"dsym_trace", B_TRACE}, {"dsym_is_sym", B_ISSYM}, {"dsym_fork", B_FORK}, {"dsym_stop", B_STOP}, {"dsym_param", B_PARAM},
    {"bcmp", B_BCMP}, {"memcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"log", B_FPUN}, {"exp", B_FPUN}, {"log2", B_FPUN}, {"exp2", B_FPUN}, {"pow", B_FPBIN}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"getenv", B_RET0}, {"malloc", B_ALLOC}, {"calloc", B_CALLOC}, {"realloc", B_CREALLOC}, {"posix_memalign", B_PMEMALIGN}, {"free", B_FREE}, {"floor", B_FPUN}, {"ceil", B_FPUN}, {"round", B_FPUN}, {"trunc", B_FPUN}, {"sqrt", B_FPUN}, {"fabs", B_FPUN}};
  auto it = ex.find(n); if (it != ex.end()) return it->second;
  auto pre = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  if (pre("llvm.")) {
    if (pre("llvm.lifetime") || pre("llvm.experimental.noalias") || pre("llvm.dbg") || pre("llvm.invariant") || pre("llvm.donothing") || pre("llvm.prefetch") || pre("llvm.sideeffect")) return B_NOP;
    if (pre("llvm.memcpy") || pre("llvm.memmove")) return B_MEMCPY; if (pre("llvm.memset")) return B_MEMSET;
    if (n.find(".with.overflow") != std::string::npos) return B_WITHOV;
    if (pre("llvm.fptosi.sat") || pre("llvm.fptoui.sat")) return B_FPTOSAT;
    if (pre("llvm.uadd.sat") || pre("llvm.sadd.sat") || pre("llvm.usub.sat") || pre("llvm.ssub.sat") || pre("llvm.ushl.sat")) return B_SAT;
    if (pre("llvm.umin") || pre("llvm.umax") || pre("llvm.smin") || pre("llvm.smax")) return B_MINMAX;
    if (pre("llvm.abs")) return B_ABS; if (pre("llvm.ctlz")) return B_CTLZ; if (pre("llvm.cttz")) return B_CTTZ; if (pre("llvm.ctpop")) return B_CTPOP; if (pre("llvm.bswap")) return B_BSWAP; if (pre("llvm.bitreverse")) return B_BITREV;
    if (pre("llvm.fshl") || pre("llvm.fshr")) return B_FSH; if (pre("llvm.scmp") || pre("llvm.ucmp")) return B_CMP3; if (pre("llvm.expect")) return B_EXPECTV; if (pre("llvm.assume")) return B_LASSUME; if (pre("llvm.trap") || pre("llvm.ubsantrap")) return B_TRAP;
    if (pre("llvm.fmuladd") || pre("llvm.fma")) return B_FMA; if (pre("llvm.is.constant")) return B_ISCONST; if (pre("llvm.threadlocal.address")) return B_TLS; if (pre("llvm.vector.reduce")) return B_REDUCE;
    if (pre("llvm.objectsize")) return B_OBJSIZE;
    if (pre("llvm.minnum") || pre("llvm.maxnum") || pre("llvm.pow") || pre("llvm.copysign")|| pre("llvm.minimum") || pre("llvm.maximum")) return B_FPBIN;
    if (pre("llvm.fabs") || pre("llvm.log") || pre("llvm.exp") || pre("llvm.floor") || pre("llvm.ceil") || pre("llvm.trunc") || pre("llvm.sqrt") || pre("llvm.round") || pre("llvm.rint") || pre("llvm.nearbyint")) return B_FPUN;
    if (pre("llvm.x86.sse2.pmovmskb")) return B_PMOVMSKB;
    return B_NONE;
  }
  auto has = [&](const char *p) { return n.find(p) != std::string::npos; };
  if (has("___rust_alloc_zeroed")) return B_ALLOCZ; if (has("___rust_dealloc")) return B_DEALLOC; if (has("___rust_realloc")) return B_REALLOC; if (has("___rust_no_alloc_shim")) return B_NOP; if (has("___rust_alloc") && !has("error")) return B_ALLOC;
  if (has("hashmap_random_keys")) return B_HASHKEYS;
  return B_NONE;
}

static std::string cstr(State *s, u64 a, u64 n) { std::string r; if (n > 4096) n = 4096; for (u64 i = 0; i < n; i++) { Val v = ldc(s, a + i, tint(8)); r += v.e ? '?' : (char)v.c; } return r; }
static Val binop(Op op, unsigned w, Val a, Val b) {
  if (!a.e && !b.e && w <= 64) { u128 v[2] = {a.c, b.c}; unsigned aw[2] = {w, w}; return cv((u64)evalop(op, w, 0, v, aw)); }
  return evOr(mk(op, (op >= O_EQ && op <= O_SLE) ? 1 : w, toE(a, w), toE(b, w)));
}
static Val ite(Val c, Val a, Val b, unsigned w) { if (!c.e) return c.c & 1 ? a : b; if (!a.e && !b.e && a.c == b.c) return a; return evOr(mkite(c.e, toE(a, w), toE(b, w))); }
static Val notv(Val a) { return a.e ? evOr(mknot(a.e)) : cv(!(a.c & 1)); }
static Val ext(Val a, unsigned w, unsigned nw, bool sg) { if (!a.e && nw <= 64) return cv((u64)((sg ? (u128)sx(a.c, w) : (u128)a.c) & maskw(nw))); E *e = toE(a, w); return evOr(sg ? mksext(e, nw) : mkzext(e, nw)); }
static Val trunc(Val a, unsigned w, unsigned nw) { if (!a.e) return cv(a.c & (u64)maskw(nw)); return evOr(mkextract(a.e, nw - 1, 0)); }

static double bitsF(u64 c, Type *t) { if (t->k == T_FLOAT) { u32 b = (u32)c; float f; memcpy(&f, &b, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static u64 fbits(double d, Type *t) { if (t->k == T_FLOAT) { float f = (float)d; u32 b; memcpy(&b, &f, 4); return b; } u64 c; memcpy(&c, &d, 8); return c; }
static double needF(State *s, Val v, Type *t) { if (v.e) { u64 c = concretize(s, v.e); return bitsF(c, t); } return bitsF(v.c, t); }

static bool g_trace_calls = false;
static Val makeSym(State *s, const std::string &name, unsigned w, u64 lo, u64 hi) {
  int n = s->vcount[name]++; std::string full = n ? name + "." + std::to_string(n) : name;
  static std::map<std::string, u32> byName; std::string key = full + "/" + std::to_string(w) + "/" + std::to_string(lo) + "/" + std::to_string(hi);
  if (g_concrete) { u64 v = g_rpos < g_replay.size() ? g_replay[g_rpos++] : lo; return cv(v); }
  if (lo == hi) { }
  auto it = byName.find(key); u32 idx; if (it != byName.end()) idx = it->second; else { mkvar(full, w, lo, hi); idx = g_vars.size() - 1; byName[key] = idx; }
  s->vars.push_back(idx); if (s->model.v.size() <= idx) { size_t o = s->model.v.size(); s->model.v.resize(g_vars.size()); for (size_t i = o; i < g_vars.size(); i++) s->model.v[i] = g_vars[i].lo; s->model.uid = g_modeluid++; }
  E *e = g_vars[idx].e; return e->mn == e->mx ? cv((u64)e->mn) : Val{0, e};
}

static void panicHere(State *s, const std::string &what) {
  if (s->expectPanic) { RS.panics_expected++; RS.reach["panic:" + s->expectLabel]++; throw PathEnd{"expected panic", true}; }
  report(s, "panic", what); throw PathEnd{"panic", false};
}

// ------------------------------------------------------------ interpreter
static inline Val *slots(Frame &f, const Opnd &o) { return o.reg >= 0 ? &f.r[o.reg] : o.cst->data(); }
static inline Val get(Frame &f, const Opnd &o) { return o.reg >= 0 ? f.r[o.reg] : (*o.cst)[0]; }
static void take(Frame &f, const Edge &e) {
  size_t n = e.moves.size();
  if (n == 1) { auto &m = e.moves[0]; Val *v = slots(f, m.second); u32 k = m.second.t->slots; if (k == 1) f.r[m.first] = *v; else std::copy(v, v + k, &f.r[m.first]); }
  else if (n) { static std::vector<Val> tmp; tmp.clear(); for (auto &m : e.moves) { Val *v = slots(f, m.second); tmp.insert(tmp.end(), v, v + m.second.t->slots); } size_t p = 0; for (auto &m : e.moves) { u32 k = m.second.t->slots; std::copy(&tmp[p], &tmp[p] + k, &f.r[m.first]); p += k; } }
  f.pc = e.target;
}
static void enter(State *s, Func *fn, std::vector<Val> &args, int dst) {
  parseFunc(fn); if (s->st.size() > 400) throw EngineError{"call depth exceeded in " + fn->name};
  s->st.emplace_back(); Frame &f = s->st.back(); f.f = fn; f.pc = 0; f.r.assign(fn->nslots, cv(0)); f.dst = dst; size_t p = 0;
  for (size_t i = 0; i < fn->params.size(); i++) for (u32 k = 0; k < fn->params[i]->slots; k++) f.r[fn->pslots[i] + k] = p < args.size() ? args[p++] : cv(0);
}
static Val cmpv(u8 pred, unsigned w, Val a, Val b) {
  if (!a.e && !b.e) { u64 x = a.c, y = b.c; s64 p = w >= 64 ? (s64)x : (s64)sx(x, w), q = w >= 64 ? (s64)y : (s64)sx(y, w); bool r = false; switch (pred) { case P_EQ: r = x == y; break; case P_NE: r = x != y; break; case P_UGT: r = x > y; break; case P_UGE: r = x >= y; break; case P_ULT: r = x < y; break; case P_ULE: r = x <= y; break; case P_SGT: r = p > q; break; case P_SGE: r = p >= q; break; case P_SLT: r = p < q; break; default: r = p <= q; } return cv(r); }
  E *x = toE(a, w), *y = toE(b, w);
  switch (pred) { case P_EQ: return evOr(mkeq(x, y)); case P_NE: return evOr(mknot(mkeq(x, y))); case P_UGT: return evOr(mk(O_ULT, 1, y, x)); case P_UGE: return evOr(mk(O_ULE, 1, y, x)); case P_ULT: return evOr(mk(O_ULT, 1, x, y)); case P_ULE: return evOr(mk(O_ULE, 1, x, y)); case P_SGT: return evOr(mk(O_SLT, 1, y, x)); case P_SGE: return evOr(mk(O_SLE, 1, y, x)); case P_SLT: return evOr(mk(O_SLT, 1, x, y)); default: return evOr(mk(O_SLE, 1, x, y)); }
}
static Val ctz_clz(Val a, unsigned w, bool lead) {
  if (!a.e) { u64 v = a.c; if (!v) return cv(w); return cv(lead ? w - (64 - __builtin_clzll(v)) : __builtin_ctzll(v)); }
  E *r = mkc(w, w); E *x = a.e; // chain from least significant decision
  if (lead) { for (unsigned i = 0; i < w; i++) r = mkite(mkextract(x, i, i), mkc(w - 1 - i, w), r); } else for (int i = w - 1; i >= 0; i--) r = mkite(mkextract(x, i, i), mkc(i, w), r);
  return evOr(r);
}

static bool builtin(State *s, Frame &F, const Inst &I) {
  auto A = [&](int i) { return get(F, I.a[i]); };
  auto W = [&](int i) { return I.a[i].t->k == T_VECTOR ? I.a[i].t->el[0]->bits : I.a[i].t->bits; };
  auto ret = [&](Val v) { if (I.dst >= 0) F.r[I.dst] = v; };
  auto conc = [&](int i) -> u64 { Val v = A(i); return v.e ? concretize(s, v.e) : v.c; };
  unsigned nl = (I.t && I.t->k == T_VECTOR) ? I.t->slots : 1;
  switch (I.bi) {
  case B_NOP: case B_ISCONST: if (I.bi == B_ISCONST) ret(cv(0)); return true;
  case B_SYM: { std::string n = cstr(s, conc(0), conc(1)); unsigned w = conc(2); u64 lo = conc(3), hi = conc(4); Val v = makeSym(s, n, w, lo, hi); ret(v.e && w < 64 ? Val{0, mkzext(v.e, 64)} : v); return true; }
  case B_ISSYM: ret(cv(g_concrete ? 0 : 1)); return true;
  case B_ASSUME: { Val c = A(0); if (!c.e) { if (!(c.c & 1)) { RS.killed++; throw PathEnd{"assume false", true}; } return true; }
    u64 kv; if (lookup(s, c.e, kv)) { if (!(kv & 1)) { RS.killed++; throw PathEnd{"assume false", true}; } return true; }
    if (!evalS(s, c.e)) { std::vector<std::pair<u32, u128>> m; R r = query(s, c.e, &m); if (r == UNSAT) { RS.killed++; throw PathEnd{"assume unsat", true}; } if (r == UNKNOWN) { RS.incomplete = true; RS.errors["solver: undecided assume"]++; throw PathEnd{"unknown", true}; } setModel(s, m); }
    addc(s, c.e); return true; }
  case B_CHECK: { Val c = A(0); std::string l = cstr(s, conc(1), conc(2));
    if (!c.e) { if (c.c & 1) { RS.checks[l]++; return true; } report(s, "check", l); throw PathEnd{"check failed", false}; }
    u64 kv; if (lookup(s, c.e, kv) && (kv & 1)) { RS.checks[l]++; return true; }
    std::vector<std::pair<u32, u128>> m; E *n = mknot(c.e); R r; if (!evalS(s, c.e)) { report(s, "check", l); throw PathEnd{"check failed", false}; }
    r = query(s, n, &m); if (r == SAT) { setModel(s, m); report(s, "check", l); throw PathEnd{"check failed", false}; }
    if (r == UNKNOWN) { RS.checksUnknown[l]++; RS.incomplete = true; } else { RS.checks[l]++; s->known[c.e->id] = 1; } return true; }
  case B_REACH: { std::string l = cstr(s, conc(0), conc(1)); RS.reach[l]++; return true; }
  case B_CONCR: ret(cv(conc(0))); return true;
  case B_FORK: { Val c = A(0); if (c.e) { bool b = branch(s, c.e); ret(cv(b)); } else ret(c); return true; }
  case B_EXPECT: { u64 on = conc(0); s->expectPanic = on; if (on) s->expectLabel = cstr(s, conc(1), conc(2)); return true; }
  case B_TRACE: { if (g_concrete) { u64 v = conc(0); s->traces.push_back(v); } return true; }
  case B_PARAM: { std::string n = cstr(s, conc(0), conc(1)); auto it = g_params.find(n); ret(cv(it == g_params.end() ? conc(2) : it->second)); return true; }
  case B_STOP: if (s->expectPanic) { report(s, "accepted", s->expectLabel); throw PathEnd{"not refused", false}; } throw PathEnd{"stop", true};
  case B_MEMCPY: { Val n = A(2); u64 len = n.e ? concretize(s, n.e) : n.c; u64 d = resolve(s, A(0), true, len), a = resolve(s, A(1), false, len); copyBytes(s, d, a, len); if (I.dst >= 0) ret(cv(d)); return true; }
  case B_MEMSET: { u64 n = conc(2); u64 d = resolve(s, A(0), true, n); Val v = A(1); if (!n) return true; chk(s, d, n, true); if (v.e) { for (u64 i = 0; i < n; i++) stc(s, d + i, tint(8), v); return true; }
    Obj *o = wObj(s, d >> 32); u64 off = d & 0xffffffff, i = 0; while (i < n) { u64 x = (off + i) % PG; u64 k = std::min<u64>(PG - x, n - i); if (k == PG && v.c == 0) { Page *&p = o->pg[(off + i) / PG]; pgunref(p); p = zeropage(); i += k; continue; } Page *p = wpage(o, (off + i) / PG); memset(p->d + x, (int)v.c, k); if (p->s) memset(p->s + x, 0, k * sizeof(E *)); i += k; } return true; }
  case B_WITHOV: { unsigned w = W(0); Val a = A(0), b = A(1); bool sg = I.cname[5] == 's'; char k = I.cname[6]; Op op = k == 'a' ? O_ADD : k == 's' ? O_SUB : O_MUL; Val r = binop(op, w, a, b), o;
    if (!a.e && !b.e && w <= 64) { if (sg) { s128 x = sx(a.c, w), y = sx(b.c, w), z = op == O_ADD ? x + y : op == O_SUB ? x - y : x * y; o = cv(z != sx((u128)z, w)); } else { u128 x = a.c, y = b.c; if (op == O_SUB) o = cv(y > x); else { u128 z = op == O_ADD ? x + y : x * y; o = cv(z > maskw(w)); } } }
    else { E *x = toE(a, w), *y = toE(b, w), *z = toE(r, w);
      if (op == O_ADD && !sg) o = evOr(x->mx + y->mx <= maskw(w) && x->mx + y->mx >= x->mx ? FALSE_() : mk(O_ULT, 1, z, isc(y) ? x : x));
      else if (op == O_SUB && !sg) o = evOr(mk(O_ULT, 1, x, y));
      else if (op == O_ADD) { E *sx_ = mkextract(x, w - 1, w - 1), *sy = mkextract(y, w - 1, w - 1), *sz = mkextract(z, w - 1, w - 1); o = evOr(mk(O_AND, 1, mknot(mk(O_XOR, 1, sx_, sy)), mk(O_XOR, 1, sx_, sz))); }
      else if (op == O_SUB) { E *sx_ = mkextract(x, w - 1, w - 1), *sy = mkextract(y, w - 1, w - 1), *sz = mkextract(z, w - 1, w - 1); o = evOr(mk(O_AND, 1, mk(O_XOR, 1, sx_, sy), mk(O_XOR, 1, sx_, sz))); }
      else { if (2 * w > 128) throw EngineError{"mul overflow width"}; 
        if (!sg && bitlen(x->mx) + bitlen(y->mx) <= w) o = cv(0); else {
        E *p = mk(O_MUL, 2 * w, sg ? mksext(x, 2 * w) : mkzext(x, 2 * w), sg ? mksext(y, 2 * w) : mkzext(y, 2 * w)); E *q = sg ? mksext(mkextract(p, w - 1, 0), 2 * w) : mkzext(mkextract(p, w - 1, 0), 2 * w); o = evOr(mknot(mkeq(p, q))); } } }
    F.r[I.dst] = r; F.r[I.dst + 1] = o; return true; }
  case B_SAT: { unsigned w = W(0); bool sg = I.cname[5] == 's'; bool add = I.cname[6] == 'a'; if (I.cname.compare(5, 4, "ushl") == 0) throw EngineError{"ushl.sat"}; Val *pa = slots(F, I.a[0]), *pb = slots(F, I.a[1]); std::vector<Val> out(nl);
    for (unsigned i = 0; i < nl; i++) { Val a = pa[i], b = pb[i];
      if (!sg) { if (add) { Val x = ext(a, w, w + 1, false), y = ext(b, w, w + 1, false), z = binop(O_ADD, w + 1, x, y); Val ov = evOr(mkextract(toE(z, w + 1), w, w)); out[i] = ite(ov, cv((u64)maskw(w)), trunc(z, w + 1, w), w); } else { Val lt = binop(O_ULT, w, a, b); out[i] = ite(lt, cv(0), binop(O_SUB, w, a, b), w); } }
      else { Val x = ext(a, w, w + 1, true), y = ext(b, w, w + 1, true), z = binop(add ? O_ADD : O_SUB, w + 1, x, y); E *ze = toE(z, w + 1); E *ov = mk(O_XOR, 1, mkextract(ze, w, w), mkextract(ze, w - 1, w - 1)); E *neg = mkextract(ze, w, w); out[i] = ite(evOr(ov), ite(evOr(neg), cv((u64)1 << (w - 1)), cv((u64)maskw(w - 1)), w), trunc(z, w + 1, w), w); } }
    std::copy(out.begin(), out.end(), &F.r[I.dst]); return true; }
  case B_MINMAX: { unsigned w = W(0); bool sg = I.cname[5] == 's', mx = I.cname[7] == 'a'; Val *pa = slots(F, I.a[0]), *pb = slots(F, I.a[1]); std::vector<Val> out(nl); for (unsigned i = 0; i < nl; i++) { Val lt = cmpv(sg ? P_SLT : P_ULT, w, pa[i], pb[i]); out[i] = mx ? ite(lt, pb[i], pa[i], w) : ite(lt, pa[i], pb[i], w); } std::copy(out.begin(), out.end(), &F.r[I.dst]); return true; }
  case B_ABS: { unsigned w = W(0); Val *pa = slots(F, I.a[0]); std::vector<Val> out(nl); for (unsigned i = 0; i < nl; i++) { Val ng = cmpv(P_SLT, w, pa[i], cv(0)); out[i] = ite(ng, binop(O_SUB, w, cv(0), pa[i]), pa[i], w); } std::copy(out.begin(), out.end(), &F.r[I.dst]); return true; }
  case B_CTLZ: case B_CTTZ: { Val *pa = slots(F, I.a[0]); unsigned w = W(0); std::vector<Val> out(nl); for (unsigned i = 0; i < nl; i++) out[i] = ctz_clz(pa[i], w, I.bi == B_CTLZ); std::copy(out.begin(), out.end(), &F.r[I.dst]); return true; }
  case B_CTPOP: { Val *pa = slots(F, I.a[0]); unsigned w = W(0); std::vector<Val> out(nl); for (unsigned i = 0; i < nl; i++) { if (!pa[i].e) out[i] = cv(__builtin_popcountll(pa[i].c)); else { E *r = mkc(0, w); for (unsigned k = 0; k < w; k++) r = mk(O_ADD, w, r, mkzext(mkextract(pa[i].e, k, k), w)); out[i] = evOr(r); } } std::copy(out.begin(), out.end(), &F.r[I.dst]); return true; }
  case B_BSWAP: { unsigned w = W(0); E *x = toE(A(0), w), *r = nullptr; for (unsigned k = 0; k < w; k += 8) { E *b = mkextract(x, k + 7, k); r = r ? mkconcat(r, b) : b; } ret(evOr(r)); return true; }
  case B_BITREV: { unsigned w = W(0); E *x = toE(A(0), w), *r = nullptr; for (unsigned k = 0; k < w; k++) { E *b = mkextract(x, k, k); r = r ? mkconcat(r, b) : b; } ret(evOr(r)); return true; }
  case B_FSH: { unsigned w = W(0); bool left = I.cname[8] == 'l'; Val *pa = slots(F, I.a[0]), *pb = slots(F, I.a[1]), *pc = slots(F, I.a[2]); std::vector<Val> out(nl); for (unsigned i = 0; i < nl; i++) { Val c = pc[i]; E *x = mkconcat(toE(pa[i], w), toE(pb[i], w)); if (2 * w > 128) throw EngineError{"fsh width"}; E *sh = mkzext(toE(binop(O_UREM, w, c, cv(w)), w), 2 * w); E *r = left ? mkextract(mk(O_SHL, 2 * w, x, sh), 2 * w - 1, w) : mkextract(mk(O_LSHR, 2 * w, x, sh), w - 1, 0); out[i] = evOr(r); } std::copy(out.begin(), out.end(), &F.r[I.dst]); return true; }
  case B_CMP3: { unsigned w = W(0); bool sg = I.cname[5] == 's'; Val lt = cmpv(sg ? P_SLT : P_ULT, w, A(0), A(1)), gt = cmpv(sg ? P_SGT : P_UGT, w, A(0), A(1)); unsigned rw = I.t->bits; ret(ite(lt, cv((u64)maskw(rw)), ite(gt, cv(1), cv(0), rw), rw)); return true; }
  case B_EXPECTV: ret(A(0)); return true;
  case B_LASSUME: { return true; }
  case B_TRAP: panicHere(s, "trap");
  case B_FMA: { Type *t = I.t; double a = needF(s, A(0), t), b = needF(s, A(1), t), c = needF(s, A(2), t); double r = I.cname.find("fmuladd") != std::string::npos ? a * b + c : fma(a, b, c); ret(cv(fbits(r, t))); return true; }
  case B_FPUN: { Type *t = I.t; double a = needF(s, A(0), t), r; std::string n = I.cname; if (n.compare(0, 5, "llvm.") == 0) { n = n.substr(5); n = n.substr(0, n.find('.')); } if (n == "log") r = log(a); else if (n == "exp") r = exp(a); else if (n == "log2") r = log2(a); else if (n == "exp2") r = exp2(a); else if (n == "log10") r = log10(a); else if (n == "fabs") r = fabs(a); else if (n == "floor") r = floor(a); else if (n == "ceil") r = ceil(a); else if (n == "trunc") r = ::trunc(a); else if (n == "sqrt") r = sqrt(a); else if (n == "round") r = ::round(a); else if (n == "roundeven" || n == "rint" || n == "nearbyint") r = rint(a); else throw EngineError{"fp fn " + n}; ret(cv(fbits(r, t))); return true; }
  case B_FPBIN: { Type *t = I.t; double a = needF(s, A(0), t), b = needF(s, A(1), t), r; const std::string &n = I.cname; if (n.find("minnum") != std::string::npos || n.find("minimum") != std::string::npos) r = fmin(a, b); else if (n.find("maxnum") != std::string::npos || n.find("maximum") != std::string::npos) r = fmax(a, b); else if (n.find("pow") != std::string::npos) r = pow(a, b); else r = copysign(a, b); ret(cv(fbits(r, t))); return true; }
  case B_FPTOSAT: { Type *t = I.a[0].t; double a = needF(s, A(0), t); unsigned w = I.t->bits; bool sg = I.cname[9] == 's' || I.cname.find("fptosi") != std::string::npos; if (a != a) { ret(cv(0)); return true; } long double x = truncl(a); if (sg) { long double hi = powl(2, w - 1) - 1, lo = -powl(2, w - 1); if (x > hi) x = hi; if (x < lo) x = lo; ret(cv((u64)(s64)x & (u64)maskw(w))); } else { long double hi = powl(2, w) - 1; if (x < 0) x = 0; if (x > hi) x = hi; ret(cv((u64)x & (u64)maskw(w))); } return true; }
  case B_ALLOC: case B_ALLOCZ: { u64 n = conc(0); if (n > 0xf0000000ull) throw EngineError{"huge allocation"}; ret(cv(allocObj(s, n, "heap"))); return true; }
  case B_CALLOC: { u64 n = conc(0) * conc(1); if (n > 0xf0000000ull) throw EngineError{"huge allocation"}; ret(cv(allocObj(s, n, "heap"))); return true; }
  case B_PMEMALIGN: { u64 pp = conc(0), n = conc(2); if (n > 0xf0000000ull) throw EngineError{"huge allocation"}; u64 q = allocObj(s, n, "heap"); stc(s, pp, tptr(), cv(q)); s->st.back().r[I.dst] = cv(0); return true; }
  case B_CREALLOC: { u64 p = conc(0), ns = conc(1); u64 q = allocObj(s, ns, "heap"); if (p) { Obj *o = getObj(s, p >> 32); if (!o || !o->alive || (p & 0xffffffff) || p >> 32 < HEAP_ID0) memviol(s, "invalid realloc"); copyBytes(s, q, p, std::min(o->size, ns)); Obj *n = newObj(0, "heap"); n->alive = false; Obj *&slot = s->ob[(p >> 32) - HEAP_ID0]; unrefObj(slot); slot = n; } ret(cv(q)); return true; }
  case B_FREE: if (!conc(0)) return true; // fall through
  case B_DEALLOC: { u64 p = conc(0); Obj *o = getObj(s, p >> 32); if (!o || !o->alive || (p & 0xffffffff) || p >> 32 < HEAP_ID0) memviol(s, "invalid free"); Obj *n = newObj(0, "heap"); n->alive = false; Obj *&slot = s->ob[(p >> 32) - HEAP_ID0]; unrefObj(slot); slot = n; return true; }
  case B_REALLOC: { u64 p = conc(0), os = conc(1), ns = conc(3); u64 q = allocObj(s, ns, "heap"); copyBytes(s, q, p, std::min(os, ns)); Obj *n = newObj(0, "heap"); n->alive = false; Obj *&slot = s->ob[(p >> 32) - HEAP_ID0]; unrefObj(slot); slot = n; ret(cv(q)); return true; }
  case B_BCMP: case B_MEMCMP: { u64 n = conc(2); u64 a = n ? resolve(s, A(0), false, n) : 0, b = n ? resolve(s, A(1), false, n) : 0; E *r = mkc(0, 32); for (s64 i = (s64)n - 1; i >= 0; i--) { E *x = toE(ldc(s, a + i, tint(8)), 8), *y = toE(ldc(s, b + i, tint(8)), 8); if (I.bi == B_BCMP) { r = mkite(mkeq(x, y), r, mkc(1, 32)); } else r = mkite(mkeq(x, y), r, mk(O_SUB, 32, mkzext(x, 32), mkzext(y, 32))); } ret(evOr(r)); return true; }
  case B_STRLEN: { u64 a = conc(0), n = 0; while (true) { Val v = ldc(s, a + n, tint(8)); if (v.e) throw EngineError{"strlen sym"}; if (!v.c) break; n++; } ret(cv(n)); return true; }
  case B_TLS: ret(A(0)); return true;
  case B_RET0: ret(cv(0)); return true;
  case B_OBJSIZE: ret(cv(~0ull)); return true;
  case B_HASHKEYS: F.r[I.dst] = cv(0x0123456789abcdefull); if (I.t->slots > 1) F.r[I.dst + 1] = cv(0xfedcba9876543210ull); return true;
  case B_PMOVMSKB: { Val *p = slots(F, I.a[0]); E *r = mkc(0, 32); bool sym = false; u64 c = 0; for (int i = 0; i < 16; i++) { if (p[i].e) sym = true; else c |= ((p[i].c >> 7) & 1) << i; } if (!sym) { ret(cv(c)); return true; } for (int i = 0; i < 16; i++) { E *b = mkextract(toE(p[i], 8), 7, 7); r = mk(O_OR, 32, r, mk(O_SHL, 32, mkzext(b, 32), mkc(i, 32))); } ret(evOr(r)); return true; }
  case B_REDUCE: { Val *p = slots(F, I.a[0]); unsigned n = I.a[0].t->slots, w = W(0); std::string k = I.cname.substr(19); k = k.substr(0, k.find('.')); Val r = p[0]; for (unsigned i = 1; i < n; i++) { if (k == "add") r = binop(O_ADD, w, r, p[i]); else if (k == "or") r = binop(O_OR, w, r, p[i]); else if (k == "and") r = binop(O_AND, w, r, p[i]); else if (k == "xor") r = binop(O_XOR, w, r, p[i]); else if (k == "mul") r = binop(O_MUL, w, r, p[i]); else if (k == "umax") r = ite(cmpv(P_ULT, w, r, p[i]), p[i], r, w); else if (k == "umin") r = ite(cmpv(P_ULT, w, r, p[i]), r, p[i], w); else if (k == "smax") r = ite(cmpv(P_SLT, w, r, p[i]), p[i], r, w); else if (k == "smin") r = ite(cmpv(P_SLT, w, r, p[i]), r, p[i], w); else throw EngineError{"reduce " + k}; } ret(r); return true; }
  }
  return false;
}

static void run(State *s) { // runs until path end, or (phase1) until a fork happened
  u64 steps = 0;
  try {
    while (true) {
      Frame &F = s->st.back(); const Inst &I = F.f->code[F.pc];
      if ((++steps & 0xfffff) == 0) { if (now_s() > g_deadline) { RS.incomplete = true; RS.unfinished++; throw PathEnd{"deadline", true}; } if (steps > g_maxsteps) throw EngineError{"step limit (unbounded loop?) at " + whereNow(s)}; }
      s->symTouched = false;
      switch (I.op) {
      case I_BIN: { Val *a = slots(F, I.a[0]), *b = slots(F, I.a[1]); unsigned w = I.t2->bits;
        if (I.nl == 1) { if (!a->e && !b->e && w <= 64) { u64 x = a->c, y = b->c, m = w == 64 ? ~0ull : (1ull << w) - 1, r; switch (I.sub) { case O_ADD: r = x + y; break; case O_SUB: r = x - y; break; case O_MUL: r = x * y; break; case O_AND: r = x & y; break; case O_OR: r = x | y; break; case O_XOR: r = x ^ y; break; case O_SHL: r = y >= w ? 0 : x << y; break; case O_LSHR: r = y >= w ? 0 : x >> y; break; case O_UDIV: r = y ? x / y : 0; break; case O_UREM: r = y ? x % y : 0; break; default: { u128 v[2] = {x, y}; unsigned aw[2] = {w, w}; r = (u64)evalop((Op)I.sub, w, 0, v, aw); } } F.r[I.dst] = cv(r & m); }
          else { RS.syminstr++; if (g_forkix && b->e && w <= 64 && (I.sub == O_SHL || I.sub == O_LSHR || I.sub == O_ASHR)) { u64 k = concretize(s, b->e); Frame &G = s->st.back(); a = slots(G, I.a[0]); G.r[I.dst] = binop((Op)I.sub, w, *a, cv(k)); if (I.dbg) RS.dbgs.insert(I.dbg); G.pc++; break; } F.r[I.dst] = binop((Op)I.sub, w, *a, *b); if (I.dbg) RS.dbgs.insert(I.dbg); } }
        else { std::vector<Val> o(I.nl); for (u32 i = 0; i < I.nl; i++) o[i] = binop((Op)I.sub, w, a[i], b[i]); std::copy(o.begin(), o.end(), &F.r[I.dst]); }
        F.pc++; break; }
      case I_ICMP: { Val *a = slots(F, I.a[0]), *b = slots(F, I.a[1]); unsigned w = I.t2->bits; if (I.nl == 1) { F.r[I.dst] = cmpv(I.sub, w, *a, *b); if (I.dbg && (a->e || b->e)) RS.dbgs.insert(I.dbg); } else { std::vector<Val> o(I.nl); for (u32 i = 0; i < I.nl; i++) o[i] = cmpv(I.sub, w, a[i], b[i]); std::copy(o.begin(), o.end(), &F.r[I.dst]); } F.pc++; break; }
      case I_CONDBR: { Val c = get(F, I.a[0]); bool b; if (c.e) { if (I.dbg) RS.dbgs.insert(I.dbg); b = branch(s, c.e); if (g_phase1 && g_forked) { /* siblings re-execute this branch */ } } else b = c.c & 1; take(s->st.back(), I.edges[b ? 0 : 1]); break; }
      case I_BR: take(F, I.edges[0]); break;
      case I_SWITCH: { Val c = get(F, I.a[0]); u64 v; if (c.e) { E *e = c.e; u64 kv; if (lookup(s, e, kv)) v = kv; else { // try each case as a branch
            u64 mv = (u64)evalS(s, e); bool isCase = false; for (auto x : I.cases) if ((u64)x == mv) isCase = true; if (isCase) { branch(s, mkeq(e, mkc(mv, e->w))); v = mv; } else { E *any = FALSE_(); for (auto x : I.cases) any = mk(O_OR, 1, any, mkeq(e, mkc(x, e->w))); branch(s, mknot(any)); take(s->st.back(), I.edges[0]); break; } } }
        else v = c.c; size_t k = 0; for (size_t i = 0; i < I.cases.size(); i++) if ((u64)I.cases[i] == v) { k = i + 1; break; } take(s->st.back(), I.edges[k]); break; }
      case I_LOAD: { Val p = get(F, I.a[0]); if (!p.e) { if (I.nl == 1) F.r[I.dst] = ldc(s, p.c, I.lv[0].t); else for (u32 i = 0; i < I.nl; i++) F.r[I.dst + i] = ldc(s, p.c + I.lv[i].off, I.lv[i].t); }
        else { RS.syminstr++; if (I.dbg) RS.dbgs.insert(I.dbg); if (I.nl == 1) { Val v = loadSym(s, p.e, I, nullptr); s->st.back().r[I.dst] = v; } else { std::vector<Val> m; loadSym(s, p.e, I, &m); std::copy(m.begin(), m.end(), &s->st.back().r[I.dst]); } }
        s->st.back().pc++; break; }
      case I_STORE: { Val p = get(F, I.a[1]); u64 a = p.e ? resolve(s, p, true, I.t->size) : p.c; Frame &G = s->st.back(); Val *v = slots(G, I.a[0]); for (u32 i = 0; i < I.nl; i++) stc(s, a + I.lv[i].off, I.lv[i].t, v[i]); G.pc++; break; }
      case I_GEP: { Val b = get(F, I.a[0]); u64 off = I.goff; if (!b.e) { bool sym = false; for (auto &g : I.gi) { Val v = get(F, g.o); if (v.e) { sym = true; break; } off += (u64)sx(v.c, g.o.t->bits) * g.scale; } if (!sym) { F.r[I.dst] = cv(b.c + off); F.pc++; break; } }
        E *e = mk(O_ADD, 64, toE(b, 64), mkc(I.goff, 64)); for (auto &g : I.gi) { Val v = get(F, g.o); E *x = mksext(toE(v, g.o.t->bits), 64); e = mk(O_ADD, 64, e, mk(O_MUL, 64, x, mkc(g.scale, 64))); } F.r[I.dst] = evOr(e); F.pc++; break; }
      case I_ALLOCA: { u64 n = I.t2->size; if (!I.a.empty()) { Val c = get(F, I.a[0]); n *= c.e ? concretize(s, c.e) : c.c; } u64 a = allocObj(s, n, "stack"); Frame &G = s->st.back(); G.allocas.push_back((int)((a >> 32) - HEAP_ID0)); G.r[I.dst] = cv(a); G.pc++; break; }
      case I_COPY: { Val *a = slots(F, I.a[0]); std::copy(a, a + I.nl, &F.r[I.dst]); F.pc++; break; }
      case I_CAST: {
        Val *a = slots(F, I.a[0]); Type *st = I.a[0].t, *dt = I.t; Type *se = st->k == T_VECTOR ? st->el[0] : st, *de = I.t2; unsigned sw = se->bits, dw = de->bits;
        if (I.sub == C_BITCAST) { if (st->slots == dt->slots) { std::copy(a, a + st->slots, &F.r[I.dst]); } else { unsigned sn = st->slots, dn = dt->slots; std::vector<E *> bits; E *all = nullptr; if (sn * sw <= 128) { for (unsigned i = 0; i < sn; i++) { E *x = toE(a[i], sw); all = all ? mkconcat(x, all) : x; } for (unsigned i = 0; i < dn; i++) F.r[I.dst + i] = evOr(mkextract(all, (i + 1) * dw - 1, i * dw)); } else throw EngineError{"wide bitcast"}; } F.pc++; break; }
        std::vector<Val> o(I.nl);
        for (u32 i = 0; i < I.nl; i++) { Val v = a[i]; Val r; switch (I.sub) {
          case C_TRUNC: r = trunc(v, sw, dw); break; case C_ZEXT: r = ext(v, sw, dw, false); break; case C_SEXT: r = ext(v, sw, dw, true); break;
          case C_PTRTOINT: r = dw < 64 ? trunc(v, 64, dw) : v; break; case C_INTTOPTR: r = sw < 64 ? ext(v, sw, 64, false) : v; break;
          case C_UITOFP: { u64 c = v.e ? concretize(s, v.e) : v.c; if (de->k == T_FLOAT) { float f = (float)c; u32 b; memcpy(&b, &f, 4); r = cv(b); } else { double d = (double)c; r = cv(fbits(d, de)); } break; }
          case C_SITOFP: { u64 c = v.e ? concretize(s, v.e) : v.c; s64 x = (s64)sx(c, sw); if (de->k == T_FLOAT) { float f = (float)x; u32 b; memcpy(&b, &f, 4); r = cv(b); } else { double d = (double)x; r = cv(fbits(d, de)); } break; }
          case C_FPTOUI: { double d = needF(s, v, se); r = cv((u64)d & (u64)maskw(dw)); break; } case C_FPTOSI: { double d = needF(s, v, se); r = cv((u64)(s64)d & (u64)maskw(dw)); break; }
          default: { double d = needF(s, v, se); r = cv(fbits(d, de)); } } o[i] = r; }
        std::copy(o.begin(), o.end(), &s->st.back().r[I.dst]); s->st.back().pc++; break; }
      case I_SELECT: { Val c = get(F, I.a[0]); Val *a = slots(F, I.a[1]), *b = slots(F, I.a[2]); if (I.a[0].t->k == T_VECTOR) { Val *cc = slots(F, I.a[0]); std::vector<Val> o(I.nl); for (u32 i = 0; i < I.nl; i++) o[i] = ite(cc[i], a[i], b[i], I.lv[i].t->bits); std::copy(o.begin(), o.end(), &F.r[I.dst]); F.pc++; break; }
        if (!c.e) { Val *p = c.c & 1 ? a : b; std::copy(p, p + I.nl, &F.r[I.dst]); F.pc++; break; }
        bool isf = false, isp = false; for (auto &l : I.lv) { if (l.t->k == T_DOUBLE || l.t->k == T_FLOAT) isf = true; if (l.t->k == T_PTR) isp = true; }
        u64 kv; bool b0; if (lookup(s, c.e, kv)) { Val *p = kv & 1 ? a : b; std::copy(p, p + I.nl, &F.r[I.dst]); F.pc++; break; }
        if (isf || isp || g_forksel) { b0 = branch(s, c.e); Frame &G = s->st.back(); Val *p = slots(G, b0 ? I.a[1] : I.a[2]); std::copy(p, p + I.nl, &G.r[I.dst]); G.pc++; break; }
        if (I.dbg) RS.dbgs.insert(I.dbg);
        std::vector<Val> o(I.nl); for (u32 i = 0; i < I.nl; i++) o[i] = ite(c, a[i], b[i], I.lv[i].t->bits); std::copy(o.begin(), o.end(), &F.r[I.dst]); F.pc++; break; }
      case I_EXTRACTVALUE: { Val *a = slots(F, I.a[0]) + I.idx; if (I.nl == 1) F.r[I.dst] = *a; else { std::vector<Val> o(a, a + I.nl); std::copy(o.begin(), o.end(), &F.r[I.dst]); } F.pc++; break; }
      case I_INSERTVALUE: { Val *a = slots(F, I.a[0]); std::vector<Val> o(a, a + I.nl); Val *v = slots(F, I.a[1]); std::copy(v, v + I.cnt, o.begin() + I.idx); std::copy(o.begin(), o.end(), &F.r[I.dst]); F.pc++; break; }
      case I_EXTRACTELEM: { Val ix = get(F, I.a[1]); u64 i = ix.e ? concretize(s, ix.e) : ix.c; Frame &G = s->st.back(); G.r[I.dst] = slots(G, I.a[0])[i]; G.pc++; break; }
      case I_INSERTELEM: { Val ix = get(F, I.a[2]); u64 i = ix.e ? concretize(s, ix.e) : ix.c; Frame &G = s->st.back(); Val *a = slots(G, I.a[0]); std::vector<Val> o(a, a + I.nl); o[i] = get(G, I.a[1]); std::copy(o.begin(), o.end(), &G.r[I.dst]); G.pc++; break; }
      case I_SHUFFLE: { Val *a = slots(F, I.a[0]), *b = slots(F, I.a[1]); int n = I.a[0].t->slots; std::vector<Val> o; for (int m : I.mask) o.push_back(m < n ? a[m] : b[m - n]); std::copy(o.begin(), o.end(), &F.r[I.dst]); F.pc++; break; }
      case I_FBIN: { Val *a = slots(F, I.a[0]), *b = slots(F, I.a[1]); std::vector<Val> o(I.nl); for (u32 i = 0; i < I.nl; i++) { double x = needF(s, a[i], I.t2), y = needF(s, b[i], I.t2), r; if (I.t2->k == T_FLOAT) { float p = x, q = y, z; switch (I.sub) { case F_ADD: z = p + q; break; case F_SUB: z = p - q; break; case F_MUL: z = p * q; break; case F_DIV: z = p / q; break; default: z = fmodf(p, q); } r = z; } else switch (I.sub) { case F_ADD: r = x + y; break; case F_SUB: r = x - y; break; case F_MUL: r = x * y; break; case F_DIV: r = x / y; break; default: r = fmod(x, y); } o[i] = cv(fbits(r, I.t2)); } std::copy(o.begin(), o.end(), &s->st.back().r[I.dst]); s->st.back().pc++; break; }
      case I_FNEG: { Val *a = slots(F, I.a[0]); for (u32 i = 0; i < I.nl; i++) { double x = needF(s, a[i], I.t2); F.r[I.dst + i] = cv(fbits(-x, I.t2)); } F.pc++; break; }
      case I_FCMP: { Val *a = slots(F, I.a[0]), *b = slots(F, I.a[1]); std::vector<Val> o(I.nl); for (u32 i = 0; i < I.nl; i++) { double x = needF(s, a[i], I.t2), y = needF(s, b[i], I.t2); bool un = x != x || y != y, r = false; switch (I.sub) { case F_FALSE: r = false; break; case F_OEQ: r = !un && x == y; break; case F_OGT: r = !un && x > y; break; case F_OGE: r = !un && x >= y; break; case F_OLT: r = !un && x < y; break; case F_OLE: r = !un && x <= y; break; case F_ONE: r = !un && x != y; break; case F_ORD: r = !un; break; case F_UNO: r = un; break; case F_UEQ: r = un || x == y; break; case F_UGT: r = un || x > y; break; case F_UGE: r = un || x >= y; break; case F_ULT: r = un || x < y; break; case F_ULE: r = un || x <= y; break; case F_UNE: r = un || x != y; break; default: r = true; } o[i] = cv(r); } std::copy(o.begin(), o.end(), &s->st.back().r[I.dst]); s->st.back().pc++; break; }
      case I_RMW: { Val p = get(F, I.a[0]); u64 a = p.e ? resolve(s, p, true, 8) : p.c; Val v = get(F, I.a[1]); Type *t = I.a[1].t; Val old = ldc(s, a, t); Val nv = I.cname == "add" ? binop(O_ADD, t->bits, old, v) : I.cname == "sub" ? binop(O_SUB, t->bits, old, v) : I.cname == "xchg" ? v : I.cname == "and" ? binop(O_AND, t->bits, old, v) : I.cname == "or" ? binop(O_OR, t->bits, old, v) : throw EngineError{"rmw " + I.cname}; stc(s, a, t, nv); F.r[I.dst] = old; F.pc++; break; }
      case I_CMPXCHG: { u64 a = get(F, I.a[0]).c; Val c = get(F, I.a[1]), v = get(F, I.a[2]); Type *t = I.a[1].t; Val old = ldc(s, a, t); Val eq = cmpv(P_EQ, t->bits, old, c); bool b = eq.e ? branch(s, eq.e) : eq.c; if (b) stc(s, a, t, v); F.r[I.dst] = old; F.r[I.dst + 1] = cv(b); F.pc++; break; }
      case I_NOP: F.pc++; break;
      case I_LANDINGPAD: F.pc++; break;
      case I_RET: {
        std::vector<Val> rv; if (!I.a.empty()) { Val *v = slots(F, I.a[0]); rv.assign(v, v + I.nl); }
        for (int id : F.allocas) { Obj *&o = s->ob[id]; unrefObj(o); static Obj *dead = [] { Obj *d = newObj(0, "stack"); d->alive = false; d->rc = 1 << 29; return d; }(); dead->rc++; o = dead; }
        // shrink the object table when trailing stack objects died
        int dst = F.dst; if (s->st.size() == 1 && s->expectPanic) { report(s, "accepted", s->expectLabel); throw PathEnd{"not refused", false}; } s->st.pop_back(); if (s->st.empty()) throw PathEnd{"done", true};
        while (!s->ob.empty() && !s->ob.back()->alive && !strcmp(s->ob.back()->kind, "stack")) { unrefObj(s->ob.back()); s->ob.pop_back(); }
        Frame &G = s->st.back(); if (dst >= 0) std::copy(rv.begin(), rv.end(), &G.r[dst]); G.pc++; break; }
      case I_UNREACHABLE: panicHere(s, "unreachable code reached");
      case I_CALL: {
        if (I.bi != B_NONE && I.bi != -1) { if (!builtin(s, F, I)) throw EngineError{"builtin " + I.cname}; s->st.back().pc++; break; }
        const std::string &cn = I.cname; Func *callee = I.callee; size_t na = I.a.size();
        bool diverges = (size_t)F.pc + 1 < F.f->code.size() && F.f->code[F.pc + 1].op == I_UNREACHABLE;
        if (I.cnt) { na--; Val p = get(F, I.a.back()); u64 a = p.e ? resolve(s, p, false, 0) : p.c; auto it = g_fbyaddr.find(a); if (it == g_fbyaddr.end()) memviol(s, "call through invalid function pointer"); callee = it->second; 
          int bi = builtinId(callee->name); if (bi >= 0) { Inst J = I; J.bi = bi; J.cname = callee->name; J.a.pop_back(); if (!builtin(s, s->st.back(), J)) throw EngineError{"builtin ptr"}; s->st.back().pc++; break; } }
        if (diverges) { std::string what = callee ? callee->name : cn; panicHere(s, what); }
        if (cn == "asm") { F.pc++; break; }
        if (!callee || callee->decl) throw EngineError{"call to unmodelled function " + (callee ? callee->name : cn) + " at " + whereNow(s)};
        std::vector<Val> args; for (size_t i = 0; i < na; i++) { Val *v = slots(s->st.back(), I.a[i]); args.insert(args.end(), v, v + I.a[i].t->slots); }
        enter(s, callee, args, I.dst); break; }
      default: throw EngineError{"opcode"};
      }
      if (g_phase1 && g_forked) { g_forked = false; RS.instr += steps; g_bfs.push_back(s); return; }
    }
  } catch (PathEnd &p) { if (p.why != "deadline") RS.paths++; if (g_concrete) { RS.traces = s->traces; } if (!p.ok) RS.samples["violating"]++; }
  catch (EngineError &e) { RS.errors[e.msg]++; RS.incomplete = true; RS.paths++; }
  catch (std::runtime_error &e) { RS.errors[std::string("runtime: ") + e.what()]++; RS.incomplete = true; }
  RS.instr += steps; delete s;
}

// ------------------------------------------------------------ debug info
static std::string mdField(const std::string &s, const char *f) { std::string k = std::string(f) + ": "; size_t p = s.find(k); if (p == std::string::npos) return ""; p += k.size(); if (s[p] == '"') { size_t e = s.find('"', p + 1); return s.substr(p + 1, e - p - 1); } size_t e = s.find_first_of(",)", p); return s.substr(p, e - p); }
static void dbgInfo(u32 id, std::string &fn, std::string &file, int &line) {
  fn = file = ""; line = 0; auto it = g_md.find(id); if (it == g_md.end()) return; const std::string &s = it->second; line = atoi(mdField(s, "line").c_str()); std::string sc = mdField(s, "scope");
  for (int i = 0; i < 50 && !sc.empty() && sc[0] == '!'; i++) { auto j = g_md.find(atoi(sc.c_str() + 1)); if (j == g_md.end()) break; const std::string &t = j->second; if (file.empty()) { std::string fl = mdField(t, "file"); if (!fl.empty() && fl[0] == '!') { auto k = g_md.find(atoi(fl.c_str() + 1)); if (k != g_md.end()) file = mdField(k->second, "filename"); } } if (t.find("DISubprogram") != std::string::npos) { fn = mdField(t, "linkageName"); if (fn.empty()) fn = mdField(t, "name"); std::string nm = mdField(t, "name"); 
      // qualified by scope namespaces
      std::string q = nm; std::string s2 = mdField(t, "scope"); for (int d = 0; d < 20 && !s2.empty() && s2[0] == '!'; d++) { auto m = g_md.find(atoi(s2.c_str() + 1)); if (m == g_md.end()) break; std::string n2 = mdField(m->second, "name"); if (n2.empty() || m->second.find("DIFile") != std::string::npos) break; q = n2 + "::" + q; s2 = mdField(m->second, "scope"); } fn = q; break; } sc = mdField(t, "scope"); }
}
static std::string dbgWhere(u32 id) { std::string fn, fl; int ln; dbgInfo(id, fn, fl, ln); size_t p = fl.find("/src/"); return fn + "(" + (p == std::string::npos ? fl : fl.substr(p + 1)) + ":" + std::to_string(ln) + ")"; }

static std::string js(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string u128s(u128 v) { if (!v) return "0"; std::string s; while (v) { s = char('0' + (int)(v % 10)) + s; v /= 10; } return s; }
static void writeResult(FILE *f) {
  fprintf(f, "{\"paths\":%llu,\"killed\":%llu,\"expected_panics\":%llu,\"instr\":%llu,\"syminstr\":%llu,\"forks\":%llu,\"incomplete\":%s,\"unfinished\":%llu,", (unsigned long long)RS.paths, (unsigned long long)RS.killed, (unsigned long long)RS.panics_expected, (unsigned long long)RS.instr, (unsigned long long)RS.syminstr, (unsigned long long)RS.forks, RS.incomplete ? "true" : "false", (unsigned long long)RS.unfinished);
  fprintf(f, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cachehits\":%llu,\"ext\":%llu,\"ext_ok\":%llu,\"solver_s\":%.3f,\"maxq\":%.3f,\"nodes\":%llu,", (unsigned long long)ST.queries, (unsigned long long)ST.sat, (unsigned long long)ST.unsat, (unsigned long long)ST.unknown, (unsigned long long)ST.cachehits, (unsigned long long)ST.ext, (unsigned long long)ST.ext_ok, ST.time, ST.maxq, (unsigned long long)g_nodes);
  auto mp = [&](const char *n, std::map<std::string, u64> &m) { fprintf(f, "\"%s\":{", n); bool c = false; for (auto &x : m) { fprintf(f, "%s%s:%llu", c ? "," : "", js(x.first).c_str(), (unsigned long long)x.second); c = true; } fprintf(f, "},"); };
  mp("reach", RS.reach); mp("checks", RS.checks); mp("checks_unknown", RS.checksUnknown); mp("errors", RS.errors);
  std::map<std::string, std::set<int>> fl; for (u32 d : RS.dbgs) { std::string fn, file; int ln; dbgInfo(d, fn, file, ln); if (file.find("library/") != std::string::npos || file.find("rustc") != std::string::npos) continue; fl[fn].insert(ln); }
  fprintf(f, "\"functions\":{"); bool c = false; for (auto &x : fl) { fprintf(f, "%s%s:%zu", c ? "," : "", js(x.first).c_str(), x.second.size()); c = true; } fprintf(f, "},");
  fprintf(f, "\"traces\":["); for (size_t i = 0; i < RS.traces.size(); i++) fprintf(f, "%s\"%llu\"", i ? "," : "", (unsigned long long)RS.traces[i]); fprintf(f, "],");
  fprintf(f, "\"violations\":["); c = false; for (auto &v : RS.viol) { fprintf(f, "%s{\"kind\":%s,\"label\":%s,\"where\":%s,\"inputs\":[", c ? "," : "", js(v.kind).c_str(), js(v.label).c_str(), js(v.where).c_str()); c = true; for (size_t i = 0; i < v.in.size(); i++) fprintf(f, "%s[%s,%u,\"%s\"]", i ? "," : "", js(v.in[i].first).c_str(), v.in[i].second.first, u128s(v.in[i].second.second).c_str()); fprintf(f, "]}"); } fprintf(f, "]}\n");
}

int main(int argc, char **argv) {
  { struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30) && !getenv("DSYM_STK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (4ull << 30) : std::min<rlim_t>(rl.rlim_max, 4ull << 30); setrlimit(RLIMIT_STACK, &rl); setenv("DSYM_STK", "1", 1); execv("/proc/self/exe", argv); } }
  const char *mod = nullptr, *out = nullptr; int workers = 8; double tmo = 600; u64 maxstates = 0;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return argv[++i]; };
    if (a == "--entry") g_entry = nx(); else if (a == "--out") out = nx(); else if (a == "--workers") workers = atoi(nx()); else if (a == "--timeout") tmo = atof(nx()); else if (a == "--qtimeout") g_qtimeout_ms = atof(nx()) * 1000; else if (a == "--exttimeout") g_ext_timeout_s = atoi(nx()); else if (a == "--nolia") g_uselia = false; else if (a == "--liatimeout") g_liatimeout_ms = atof(nx()) * 1000; else if (a == "--forksel") g_forksel = true; else if (a == "--forkix") g_forkix = true;
    else if (a == "--noext") g_useext = false; else if (a == "--maxviol") g_maxviol = atoi(nx()); else if (a == "--workdir") g_workdir = nx(); else if (a == "--split") maxstates = atoi(nx()); else if (a == "--maxsteps") g_maxsteps = strtoull(nx(), 0, 10);
    else if (a == "--param") { std::string x = nx(); size_t p = x.find('='); g_params[x.substr(0, p)] = strtoull(x.c_str() + p + 1, 0, 0); } else if (a == "--concrete") { g_concrete = true; FILE *f = fopen(nx(), "r"); char nm[512]; unsigned w; char v[64]; while (f && fscanf(f, "%511s %u %63s", nm, &w, v) == 3) g_replay.push_back((u64)parseInt(v)); if (f) fclose(f); }
    else mod = argv[i]; }
  if (!mod) { fprintf(stderr, "usage: dsym module.ll --entry f --out res.json\n"); return 2; }
  double t0 = now_s(); g_deadline = t0 + tmo; loadModule(mod); zinit();
  State *s = new State; s->model.uid = g_modeluid++;
  FILE *of = out ? fopen(out, "w") : stdout;
  try {
    auto it = g_funcs.find(g_entry); if (it == g_funcs.end() || it->second->decl) { fprintf(of, "{\"fatal\":%s}\n", js("no entry " + g_entry).c_str()); return 2; }
    // make every global reachable up front so that object ids are stable
    for (auto &g : g_globals) { try { addrOf(g.first); } catch (std::exception &e) { g_globals[g.first]->addr = 0; } }
    s->ob.resize(g_mutglobs.size()); for (size_t i = 0; i < g_mutglobs.size(); i++) { auto f = g_mutinit.find(HEAP_ID0 + i); s->ob[i] = f == g_mutinit.end() ? newObj(8, "global") : f->second; s->ob[i]->rc = 1 << 20; }
    std::vector<Val> no; enter(s, it->second, no, -1);
  } catch (std::exception &e) { fprintf(of, "{\"fatal\":%s}\n", js(e.what()).c_str()); return 2; }
  int nw = workers; size_t target = maxstates ? maxstates : (size_t)nw * 48;
  g_phase1 = nw > 1; g_bfs.push_back(s);
  if (g_phase1) { while (!g_bfs.empty() && g_bfs.size() < target && now_s() < g_deadline && RS.viol.size() < g_maxviol) { State *x = g_bfs.front(); g_bfs.pop_front(); g_forked = false; run(x); } }
  g_phase1 = false;
  std::vector<State *> init(g_bfs.begin(), g_bfs.end()); g_bfs.clear();
  auto drain = [&](State *x) { g_work.push_back(x); while (!g_work.empty() && RS.viol.size() < g_maxviol) { State *y = g_work.back(); g_work.pop_back(); if (now_s() > g_deadline) { RS.incomplete = true; RS.unfinished++; delete y; continue; } run(y); } if (RS.viol.size() >= g_maxviol && !g_work.empty()) { RS.unfinished += g_work.size(); } };
  if (init.empty() || nw <= 1) { for (State *x : init) drain(x); }
  else if (RS.viol.size() < g_maxviol) {
    // hand the frontier to forked workers through a shared counter
    struct Slot { volatile double beat; volatile u64 item; }; struct Sh { volatile u64 next; volatile u64 stop; Slot slot[64]; }; Sh *sh = (Sh *)mmap(0, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->next = 0; sh->stop = 0;
    std::vector<pid_t> pids; std::vector<std::string> files; if ((size_t)nw > init.size()) nw = init.size(); if (nw > 64) nw = 64; u64 respawned = 0, lost = 0;
    fflush(of);
    // a worker keeps its results in its file, so that they survive when it has to be replaced
    auto start = [&](int w, u64 redo) { std::string fn = g_workdir + "/w" + std::to_string(getpid()) + "_" + std::to_string(w) + "_" + std::to_string(files.size()); files.push_back(fn); sh->slot[w].beat = 0; pid_t p = fork();
      if (p == 0) { RS = Result(); ST = Stats(); u64 i; double saved = 0; auto save = [&] { std::string t = fn + ".t"; FILE *f = fopen(t.c_str(), "w"); if (f) { writeResult(f); fclose(f); rename(t.c_str(), fn.c_str()); } saved = now_s(); };
        g_heartbeat = &sh->slot[w].beat;
        if (redo != ~(u64)0) { g_safe = true; if (getenv("DSYM_SLOWQ")) fprintf(stderr, "redo %d\n", (int)getpid()); sh->slot[w].item = redo; drain(init[redo]); g_safe = false; save(); }
        while (!sh->stop && (i = __sync_fetch_and_add(&sh->next, 1)) < init.size()) { sh->slot[w].item = i; drain(init[i]); if (RS.viol.size() >= g_maxviol) { sh->stop = 1; } save(); } save(); _exit(0); }
      return p; };
    for (int w = 0; w < nw; w++) pids.push_back(start(w, ~(u64)0));
    bool bad = false; int i = 0; fprintf(of, "{\"parts\":[");
    for (int live = nw; live > 0;) { usleep(20000);
      for (int w = 0; w < nw; w++) { if (pids[w] <= 0) continue; int stt; pid_t r = waitpid(pids[w], &stt, WNOHANG);
        if (r == pids[w]) { pids[w] = 0; live--; if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { bad = true; RS.errors["worker process died"]++; RS.incomplete = true; } continue; }
        double b = sh->slot[w].beat; if (b > 0 && now_s() > b) { kill(pids[w], SIGKILL); waitpid(pids[w], &stt, 0); if (getenv("DSYM_SLOWQ")) fprintf(stderr, "worker %d pid %d replaced at item %llu at %.1f\n", w, (int)pids[w], (unsigned long long)sh->slot[w].item, now_s() - t0); respawned++; if (respawned > 200 || now_s() > g_deadline + 5) { pids[w] = 0; live--; lost++; } else pids[w] = start(w, sh->slot[w].item); } } }
    if (lost) fprintf(of, "{\"unfinished\":%llu,\"incomplete\":true},", (unsigned long long)lost);
    writeResult(of); for (auto &fn : files) { FILE *f = fopen(fn.c_str(), "r"); if (f) { fprintf(of, ","); char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) fwrite(buf, 1, n, of); fclose(f); unlink(fn.c_str()); } unlink((fn + ".t").c_str()); i++; }
    if (sh->next < init.size()) fprintf(of, ",{\"unfinished\":%llu,\"incomplete\":true}", (unsigned long long)(init.size() - sh->next));
    fprintf(of, "],\"wall_s\":%.3f}\n", now_s() - t0); (void)bad; fclose(of); return 0;
  }
  fprintf(of, "{\"parts\":["); writeResult(of); fprintf(of, "],\"wall_s\":%.3f}\n", now_s() - t0); fclose(of); return 0;
}
