// z3 back end, counterexample / unsat caching, independence slicing, external portfolio for hard queries.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <set>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>

static double now_s() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
static bool g_safe = false, g_phase1 = false; static volatile double *g_heartbeat = nullptr;
struct Stats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cachehits = 0, modelhits = 0, ext = 0, ext_ok = 0, probed = 0, lin = 0; double time = 0, maxq = 0; };
static Stats ST;
enum R { UNSAT, SAT, UNKNOWN };

static Z3_context Z; static std::vector<Z3_ast> zmemo;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void zinit() { Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_set_error_handler(Z, zerr); Z3_del_config(cfg); }
static Z3_ast zkeep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_ast znum(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(Z, (u64)v, Z3_mk_bv_sort(Z, w));
  return Z3_mk_concat(Z, Z3_mk_unsigned_int64(Z, (u64)(v >> 64), Z3_mk_bv_sort(Z, w - 64)), Z3_mk_unsigned_int64(Z, (u64)v, Z3_mk_bv_sort(Z, 64)));
}
static Z3_ast zx(E *e);
static Z3_ast zbv(E *e) { Z3_ast a = zx(e); if (e->w == 1) return Z3_mk_ite(Z, a, znum(1, 1), znum(0, 1)); return a; }
static Z3_ast zx(E *e) { // bool for w==1, bv otherwise
  if (e->id < zmemo.size() && zmemo[e->id]) return zmemo[e->id];
  Z3_ast r; E *a = e->k[0], *b = e->k[1]; bool B = e->w == 1;
  switch (e->op) {
  case O_CONST: r = B ? (e->c ? Z3_mk_true(Z) : Z3_mk_false(Z)) : znum(e->c, e->w); break;
  case O_VAR: { char nm[32]; snprintf(nm, 32, "v%u", e->lo); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), B ? Z3_mk_bool_sort(Z) : Z3_mk_bv_sort(Z, e->w)); break; }
  case O_EQ: r = Z3_mk_eq(Z, zx(a), zx(b)); break;
  case O_ULT: r = Z3_mk_bvult(Z, zbv(a), zbv(b)); break;
  case O_ULE: r = Z3_mk_bvule(Z, zbv(a), zbv(b)); break;
  case O_SLT: r = Z3_mk_bvslt(Z, zbv(a), zbv(b)); break;
  case O_SLE: r = Z3_mk_bvsle(Z, zbv(a), zbv(b)); break;
  case O_ITE: r = Z3_mk_ite(Z, zx(a), zx(b), zx(e->k[2])); break;
  case O_AND: if (B) { Z3_ast x[2] = {zx(a), zx(b)}; r = Z3_mk_and(Z, 2, x); } else r = Z3_mk_bvand(Z, zx(a), zx(b)); break;
  case O_OR: if (B) { Z3_ast x[2] = {zx(a), zx(b)}; r = Z3_mk_or(Z, 2, x); } else r = Z3_mk_bvor(Z, zx(a), zx(b)); break;
  case O_XOR: if (B) { if (isc(b)) r = b->c ? Z3_mk_not(Z, zx(a)) : zx(a); else r = Z3_mk_xor(Z, zx(a), zx(b)); } else r = Z3_mk_bvxor(Z, zx(a), zx(b)); break;
  case O_CONCAT: r = Z3_mk_concat(Z, zbv(a), zbv(b)); break;
  case O_ZEXT: r = Z3_mk_zero_ext(Z, e->w - a->w, zbv(a)); break;
  case O_SEXT: r = Z3_mk_sign_ext(Z, e->w - a->w, zbv(a)); break;
  case O_EXTRACT: r = Z3_mk_extract(Z, e->lo + e->w - 1, e->lo, zbv(a)); if (B) r = Z3_mk_eq(Z, r, znum(1, 1)); break;
  default: {
    Z3_ast x = zbv(a), y = zbv(b);
    switch (e->op) {
    case O_ADD: r = Z3_mk_bvadd(Z, x, y); break; case O_SUB: r = Z3_mk_bvsub(Z, x, y); break; case O_MUL: r = Z3_mk_bvmul(Z, x, y); break;
    case O_UDIV: r = Z3_mk_bvudiv(Z, x, y); break; case O_SDIV: r = Z3_mk_bvsdiv(Z, x, y); break; case O_UREM: r = Z3_mk_bvurem(Z, x, y); break;
    case O_SREM: r = Z3_mk_bvsrem(Z, x, y); break; case O_SHL: r = Z3_mk_bvshl(Z, x, y); break; case O_LSHR: r = Z3_mk_bvlshr(Z, x, y); break;
    default: r = Z3_mk_bvashr(Z, x, y); break; }
    if (B) r = Z3_mk_eq(Z, r, znum(1, 1)); } }
  if (zmemo.size() <= e->id) zmemo.resize(std::max<size_t>(g_next_id + 1024, zmemo.size() * 2));
  zkeep(r); zmemo[e->id] = r; return r;
}
static void varsOf(E *e, std::set<u32> &vs, std::set<u32> &seen) { if (!seen.insert(e->id).second) return; if (e->op == O_VAR) vs.insert(e->lo); for (int i = 0; i < e->nk; i++) varsOf(e->k[i], vs, seen); }
static bool inter(const u64 *a, const u64 *b) { return (a[0] & b[0]) | (a[1] & b[1]) | (a[2] & b[2]) | (a[3] & b[3]); }

static void slice(const std::vector<E *> &pc, E *q, std::vector<E *> &out) {
  u64 m[4]; memcpy(m, q->vm, 32); std::vector<char> used(pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i] && inter(pc[i]->vm, m)) { used[i] = 1; ch = true; for (int j = 0; j < 4; j++) m[j] |= pc[i]->vm[j]; } }
  for (size_t i = 0; i < pc.size(); i++) if (used[i]) out.push_back(pc[i]);
}
static u64 g_modeluid = 1;
struct QKeyH { size_t operator()(const std::vector<u32> &v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 31; } return h; } };
struct QRes { R r; std::vector<std::pair<u32, u128>> m; };
static std::unordered_map<std::vector<u32>, QRes, QKeyH> g_qcache;
static unsigned g_qtimeout_ms = 20000, g_ext_timeout_s = 60; static bool g_useext = true; static bool g_uselia = true; static unsigned g_liatimeout_ms = 5000;
static std::string g_workdir = "/tmp"; static std::vector<std::string> g_dumped;
static u128 parseBits(const char *s) { u128 v = 0; if (s[0] == '#' && s[1] == 'x') { for (s += 2; isxdigit(*s); s++) v = v * 16 + (*s <= '9' ? *s - '0' : (*s | 32) - 'a' + 10); } else if (s[0] == '#' && s[1] == 'b') { for (s += 2; *s == '0' || *s == '1'; s++) v = v * 2 + (*s - '0'); } return v; }

// ---- external portfolio -------------------------------------------------
struct ExtCmd { const char *name; std::vector<const char *> argv; };
static std::string g_lia_smt_copy;
static R external(const std::vector<E *> &cs, const std::set<u32> &vs, std::vector<std::pair<u32, u128>> &model, double tmo, std::string &who) {
  // own SMT-LIB printer with let-free DAG (define-fun per shared node)
  char fn[256]; static int ctr = 0; snprintf(fn, 256, "%s/q_%d_%d.smt2", g_workdir.c_str(), (int)getpid(), ctr++);
  FILE *f = fopen(fn, "w"); if (!f) return UNKNOWN;
  fprintf(f, "(set-logic QF_BV)\n(set-option :produce-models true)\n");
  for (u32 v : vs) { if (g_vars[v].w == 1) fprintf(f, "(declare-fun v%u () Bool)\n", v); else fprintf(f, "(declare-fun v%u () (_ BitVec %u))\n", v, g_vars[v].w); }
  std::unordered_map<u32, int> done; std::vector<E *> order;
  struct Rec { static void go(E *e, std::unordered_map<u32, int> &d, std::vector<E *> &o) { if (isc(e) || e->op == O_VAR || d.count(e->id)) return; d[e->id] = 1; for (int i = 0; i < e->nk; i++) go(e->k[i], d, o); o.push_back(e); } };
  for (E *c : cs) Rec::go(c, done, order);
  auto bin = [](u128 v, unsigned w) { std::string s = "#b"; for (int i = w - 1; i >= 0; i--) s += ((v >> i) & 1) ? '1' : '0'; return s; };
  auto ref = [&](E *e, bool bv) -> std::string { std::string s; if (isc(e)) { if (e->w == 1 && !bv) return e->c ? "true" : "false"; return bin(e->c, e->w); } s = (e->op == O_VAR ? "v" + std::to_string(e->lo) : "n" + std::to_string(e->id)); if (e->w == 1 && bv) return "(ite " + s + " #b1 #b0)"; return s; };
  for (E *e : order) {
    std::string s; E *a = e->k[0], *b = e->k[1]; bool B = e->w == 1;
    auto two = [&](const char *o, bool bv) { return std::string("(") + o + " " + ref(a, bv) + " " + ref(b, bv) + ")"; };
    switch (e->op) {
    case O_EQ: s = two("=", false); break; case O_ULT: s = two("bvult", true); break; case O_ULE: s = two("bvule", true); break; case O_SLT: s = two("bvslt", true); break; case O_SLE: s = two("bvsle", true); break;
    case O_ITE: s = "(ite " + ref(a, false) + " " + ref(b, false) + " " + ref(e->k[2], false) + ")"; break;
    case O_AND: s = two(B ? "and" : "bvand", false); break; case O_OR: s = two(B ? "or" : "bvor", false); break; case O_XOR: s = two(B ? "xor" : "bvxor", false); break;
    case O_CONCAT: s = two("concat", true); break;
    case O_ZEXT: s = "((_ zero_extend " + std::to_string(e->w - a->w) + ") " + ref(a, true) + ")"; break;
    case O_SEXT: s = "((_ sign_extend " + std::to_string(e->w - a->w) + ") " + ref(a, true) + ")"; break;
    case O_EXTRACT: s = "((_ extract " + std::to_string(e->lo + e->w - 1) + " " + std::to_string(e->lo) + ") " + ref(a, true) + ")"; if (B) s = "(= " + s + " #b1)"; break;
    default: { static const std::map<int, const char *> n = {{O_ADD, "bvadd"}, {O_SUB, "bvsub"}, {O_MUL, "bvmul"}, {O_UDIV, "bvudiv"}, {O_SDIV, "bvsdiv"}, {O_UREM, "bvurem"}, {O_SREM, "bvsrem"}, {O_SHL, "bvshl"}, {O_LSHR, "bvlshr"}, {O_ASHR, "bvashr"}}; s = two(n.at(e->op), true); if (B) s = "(= " + s + " #b1)"; } }
    if (B) fprintf(f, "(define-fun n%u () Bool %s)\n", e->id, s.c_str()); else fprintf(f, "(define-fun n%u () (_ BitVec %u) %s)\n", e->id, (unsigned)e->w, s.c_str());
  }
  for (E *c : cs) fprintf(f, "(assert %s)\n", ref(c, false).c_str());
  for (u32 v : vs) { VarInfo &vi = g_vars[v]; if (vi.w == 1) continue; if (vi.lo) fprintf(f, "(assert (bvule %s v%u))\n", bin(vi.lo, vi.w).c_str(), v); if (vi.hi != maskw(vi.w)) fprintf(f, "(assert (bvule v%u %s))\n", v, bin(vi.hi, vi.w).c_str()); }
  fprintf(f, "(check-sat)\n"); if (!vs.empty()) { fprintf(f, "(get-value ("); for (u32 v : vs) fprintf(f, "v%u ", v); fprintf(f, "))\n"); } fclose(f);
  char T[32]; snprintf(T, 32, "%d", (int)tmo); char T1[32]; snprintf(T1, 32, "-T:%d", (int)tmo); char T2[48]; snprintf(T2, 48, "--tlimit=%d", (int)(tmo * 1000));
  size_t outs_n = 4; std::vector<ExtCmd> cmds = {{"cvc5-int", {"cvc5", "--solve-bv-as-int=sum", "--produce-models", T2, fn}}, {"cvc5-bv", {"cvc5", "--produce-models", T2, fn}}, {"z3-new", {"z3-new", T1, fn}}, {"z3", {"z3", T1, fn}}};
  std::string lf; if (!g_lia_smt_copy.empty()) { lf = std::string(fn) + ".nia.smt2"; if (FILE *g = fopen(lf.c_str(), "w")) { fwrite(g_lia_smt_copy.data(), 1, g_lia_smt_copy.size(), g); fclose(g); cmds.push_back({"cvc5-nia", {"cvc5", T2, lf.c_str()}}); cmds.push_back({"z3-nia", {"z3-new", T1, lf.c_str()}}); outs_n = cmds.size(); } }
  std::vector<pid_t> pids; std::vector<int> fds; std::vector<std::string> outs(cmds.size());
  for (auto &c : cmds) { int pp[2]; if (pipe(pp)) { pids.push_back(-1); fds.push_back(-1); continue; } pid_t p = fork(); if (p == 0) { setpgid(0, 0); dup2(pp[1], 1); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); close(pp[0]); close(pp[1]); std::vector<char *> av; for (auto x : c.argv) av.push_back((char *)x); av.push_back(nullptr); execvp(av[0], av.data()); _exit(127); } close(pp[1]); pids.push_back(p); fds.push_back(pp[0]); }
  R res = UNKNOWN; double t0 = now_s(); int live = cmds.size();
  while (live > 0 && res == UNKNOWN && now_s() - t0 < tmo + 3) {
    std::vector<pollfd> pf; std::vector<int> ix; for (size_t i = 0; i < fds.size(); i++) if (fds[i] >= 0) { pf.push_back({fds[i], POLLIN, 0}); ix.push_back(i); }
    if (pf.empty()) break; poll(pf.data(), pf.size(), 200);
    for (size_t j = 0; j < pf.size(); j++) if (pf[j].revents) { char buf[65536]; ssize_t n = read(pf[j].fd, buf, sizeof buf); int i = ix[j]; if (n > 0) outs[i].append(buf, n); else { close(fds[i]); fds[i] = -1; live--; 
        std::string &o = outs[i]; size_t le = o.find('\n'); std::string first = o.substr(0, le); if (o.find("(error") != std::string::npos && first != "unsat") continue;
        if (first == "unsat") { res = UNSAT; who = cmds[i].name; }
        else if (first == "sat" && i < 4) { res = SAT; who = cmds[i].name; const char *s = o.c_str() + le; while ((s = strstr(s, "(v"))) { char *e2; u32 v = strtoul(s + 2, &e2, 10); while (*e2 == ' ') e2++; u128 val = *e2 == '#' ? parseBits(e2) : (!strncmp(e2, "true", 4) ? 1 : 0); model.push_back({v, val}); s = e2; } }
        if (res != UNKNOWN) break; } }
  }
  for (size_t i = 0; i < pids.size(); i++) { if (pids[i] > 0) { kill(-pids[i], SIGKILL); kill(pids[i], SIGKILL); waitpid(pids[i], nullptr, 0); } if (fds[i] >= 0) close(fds[i]); }
  unlink(fn); if (!lf.empty()) unlink(lf.c_str()); (void)outs_n; return res;
}

#include "lia.h"
#include "lin.h"
// ask whether  /\cs  is satisfiable (cs already sliced)
static R solve(std::vector<E *> cs, std::vector<std::pair<u32, u128>> *model, bool hard = false) {
  std::sort(cs.begin(), cs.end(), [](E *a, E *b) { return a->id < b->id; }); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::vector<u32> key; for (E *c : cs) { if (isc(c)) { if (!c->c) return UNSAT; continue; } key.push_back(c->id); }
  auto it = g_qcache.find(key); if (it != g_qcache.end() && it->second.r != UNKNOWN) { ST.cachehits++; if (model) *model = it->second.m; return it->second.r; }
  std::set<u32> vs, seen; for (E *c : cs) varsOf(c, vs, seen);
  double t0 = now_s(); ST.queries++;
  QRes q; q.r = UNKNOWN; std::set<u32> seen2; bool mul = false; for (E *c : cs) if (hasMul(c, seen2)) { mul = true; break; }
  auto valid = [&] { Model mo; mo.v.assign(g_vars.size(), 0); for (size_t i = 0; i < g_vars.size(); i++) mo.v[i] = g_vars[i].lo; for (auto &x : q.m) mo.v[x.first] = x.second; u64 st = ++g_stamp + ((u64)1 << 62);
    for (u32 v : vs) if (mo.v[v] < g_vars[v].lo || mo.v[v] > g_vars[v].hi) return false;
    for (E *c : cs) if (!evalE(c, mo, st)) return false; return true; };
  // cheap witnesses first: a few corner and random assignments
  { static u64 rs = 0x9e3779b97f4a7c15ull; auto rnd = [&] { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }; int N = mul ? 12 : seen.size() > 400 ? 8 : 0;
    for (int t = 0; t < N && q.r == UNKNOWN; t++) { q.m.clear(); for (u32 v : vs) { VarInfo &vi = g_vars[v]; u128 span = vi.hi - vi.lo, x; unsigned k = t < 3 ? t : rnd() % 8; u128 r128 = ((u128)rnd() << 64) | rnd();
        if (k == 0) x = 0; else if (k == 1) x = span; else if (k == 2) x = span / 2; else if (k == 3) x = std::min<u128>(span, r128 % 16); else if (k == 4) x = span - std::min<u128>(span, r128 % 16); else x = span == ~(u128)0 ? r128 : r128 % (span + 1); q.m.push_back({v, vi.lo + x}); }
      if (valid()) q.r = SAT; }
    if (q.r != SAT) q.m.clear(); else ST.probed++; }
  if (q.r == UNKNOWN && seen.size() > 60 && linRefutes(cs)) { q.r = UNSAT; ST.lin++; }
  // the in-process solvers do not always obey their time limit: the parent ends a worker that stays in here
  // for too long, and its replacement (g_safe) runs this part in a child process that can be ended
  double allowed = ((g_uselia ? g_liatimeout_ms + 4200 : 0) + g_qtimeout_ms) / 1000. * 1.5 + 10; if (getenv("DSYM_ALLOWED")) allowed = atof(getenv("DSYM_ALLOWED"));
  auto inprocess = [&] {
  g_lia_smt.clear(); if (q.r == UNKNOWN && mul && g_uselia) q.r = solveLia(cs, vs, q.m, g_liatimeout_ms, valid);
  if (q.r == SAT && !valid()) { fprintf(stderr, "dsym: internal: integer model does not satisfy the encoding\n"); q.r = UNKNOWN; q.m.clear(); }
  if (q.r == UNKNOWN) { q.m.clear();
  Z3_solver s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, s);
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), hard ? g_qtimeout_ms : g_qtimeout_ms); Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p);
  for (E *c : cs) Z3_solver_assert(Z, s, zx(c));
  for (u32 v : vs) { VarInfo &vi = g_vars[v]; if (vi.w == 1) continue; if (vi.lo) Z3_solver_assert(Z, s, Z3_mk_bvule(Z, znum(vi.lo, vi.w), zx(vi.e))); if (vi.hi != maskw(vi.w)) Z3_solver_assert(Z, s, Z3_mk_bvule(Z, zx(vi.e), znum(vi.hi, vi.w))); }
  Z3_lbool r = Z3_solver_check(Z, s);
  if (r == Z3_L_TRUE) { q.r = SAT; Z3_model m = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, m);
    for (u32 v : vs) { Z3_ast o; if (Z3_model_eval(Z, m, zx(g_vars[v].e), true, &o)) { u128 val = 0; if (g_vars[v].w == 1) val = Z3_get_bool_value(Z, o) == Z3_L_TRUE; else if (g_vars[v].w <= 64) { uint64_t x = 0; Z3_get_numeral_uint64(Z, o, &x); val = x; } else { const char *str = Z3_get_numeral_string(Z, o); for (; *str; str++) val = val * 10 + (*str - '0'); } q.m.push_back({v, val}); } }
    Z3_model_dec_ref(Z, m); }
  else q.r = r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  Z3_solver_dec_ref(Z, s); }
  if (q.r == UNKNOWN && !mul && g_uselia) { q.r = solveLia(cs, vs, q.m, g_liatimeout_ms, valid); if (q.r == SAT && !valid()) { q.r = UNKNOWN; q.m.clear(); } }
  };
  if (q.r == UNKNOWN) {
    if (g_safe || (g_phase1 && mul)) {
      int pp[2]; pid_t p = pipe(pp) ? -1 : fork();
      if (p == 0) { inprocess(); FILE *f = fdopen(pp[1], "w"); int r = q.r; u64 nm = q.m.size(), nt = g_lia_smt.size(); fwrite(&r, sizeof r, 1, f); fwrite(&nm, sizeof nm, 1, f); for (auto &x : q.m) fwrite(&x, sizeof x, 1, f); fwrite(&nt, sizeof nt, 1, f); fwrite(g_lia_smt.data(), 1, nt, f); fclose(f); _exit(0); }
      else if (p > 0) { close(pp[1]); std::string in; double t1 = now_s(); for (;;) { double left = allowed - (now_s() - t1); if (left <= 0) break; pollfd pf{pp[0], POLLIN, 0}; if (poll(&pf, 1, std::min(1000., left * 1000 + 1)) <= 0) continue; char buf[65536]; ssize_t n = read(pp[0], buf, sizeof buf); if (n <= 0) break; in.append(buf, n); }
        close(pp[0]); kill(p, SIGKILL); waitpid(p, nullptr, 0); g_lia_smt.clear(); q.m.clear();
        const char *c = in.data(), *e = c + in.size(); auto get = [&](void *d, size_t n) { if ((size_t)(e - c) < n) return false; memcpy(d, c, n); c += n; return true; };
        int r; u64 nm, nt; if (get(&r, sizeof r) && get(&nm, sizeof nm)) { bool ok = true; std::vector<std::pair<u32, u128>> m(nm); for (auto &x : m) ok &= get(&x, sizeof x); if (ok && get(&nt, sizeof nt) && (size_t)(e - c) == nt) { g_lia_smt.assign(c, nt); q.r = (R)r; q.m = m; if (q.r == SAT && !valid()) { q.r = UNKNOWN; q.m.clear(); } } } }
    } else { if (g_heartbeat) *g_heartbeat = now_s() + allowed; inprocess(); if (g_heartbeat) *g_heartbeat = 0; }
  }
  if (q.r == UNKNOWN && g_useext) { ST.ext++; std::string who; q.m.clear(); g_lia_smt_copy = g_lia_smt; q.r = external(cs, vs, q.m, g_ext_timeout_s, who); if (q.r != UNKNOWN) ST.ext_ok++; }
  if (q.r == SAT && !valid()) { fprintf(stderr, "dsym: internal: solver model does not satisfy the encoding\n"); q.r = UNKNOWN; }
  double dt = now_s() - t0; ST.time += dt; if (dt > ST.maxq) ST.maxq = dt; if (q.r == SAT) ST.sat++; else if (q.r == UNSAT) ST.unsat++; else ST.unknown++;
  if (getenv("DSYM_SLOWQ") && dt > atof(getenv("DSYM_SLOWQ"))) fprintf(stderr, "slow query %.2fs result %d, %zu constraints %zu vars (lia %llu/%llu bail %llu)\n", dt, q.r, cs.size(), vs.size(), (unsigned long long)g_lia_ok, (unsigned long long)g_lia_tried, (unsigned long long)g_lia_bail);
  if (model) *model = q.m; if (g_qcache.size() > 200000) g_qcache.clear(); g_qcache[key] = q; return q.r;
}
