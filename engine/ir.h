// Parser for textual LLVM IR (LLVM >= 15, opaque pointers) -> compact instruction form.
#pragma once
#include "expr.h"
#include <map>
#include <memory>
#include <stdexcept>
#include <fstream>
#include <sstream>

struct Val { u64 c; E *e; };           // e==null -> concrete value c (width<=64)
static inline Val cv(u64 c) { return Val{c, nullptr}; }

enum TK : u8 { T_VOID, T_INT, T_FLOAT, T_DOUBLE, T_PTR, T_ARRAY, T_STRUCT, T_VECTOR, T_LABEL, T_META };
struct Type {
  TK k; u32 bits = 0; u64 n = 0; std::vector<Type *> el; bool packed = false;
  u64 size = 0; u32 align = 1; std::vector<u64> off; u32 slots = 1;
  bool scalar() const { return k == T_INT || k == T_FLOAT || k == T_DOUBLE || k == T_PTR; }
};
static std::map<std::string, Type *> g_types; static std::map<std::string, std::string> g_namedtypes;
static u64 al(u64 v, u64 a) { return (v + a - 1) / a * a; }
static void layout(Type *t) {
  switch (t->k) {
  case T_INT: { u64 s = (t->bits + 7) / 8; u64 a = 1; while (a < s && a < 16) a *= 2; t->align = a; t->size = al(s, a); t->slots = 1; break; }
  case T_FLOAT: t->bits = 32; t->size = 4; t->align = 4; break;
  case T_DOUBLE: t->bits = 64; t->size = 8; t->align = 8; break;
  case T_PTR: t->bits = 64; t->size = 8; t->align = 8; break;
  case T_ARRAY: t->size = t->n * t->el[0]->size; t->align = t->el[0]->align; t->slots = t->n * t->el[0]->slots; break;
  case T_VECTOR: t->size = (t->n * t->el[0]->bits + 7) / 8; t->align = 1; while (t->align < t->size) t->align *= 2; t->size = al(t->size, t->align); t->slots = t->n; break;
  case T_STRUCT: { u64 o = 0; u32 A = 1; t->slots = 0; for (Type *e : t->el) { u32 a = t->packed ? 1 : e->align; if (a > A) A = a; o = al(o, a); t->off.push_back(o); o += e->size; t->slots += e->slots; } t->align = A; t->size = al(o, A); break; }
  default: t->slots = 0; break;
  }
}
// leaves: scalar leaf types with byte offsets
struct Leaf { Type *t; u64 off; };
static void leaves(Type *t, u64 o, std::vector<Leaf> &out) {
  switch (t->k) {
  case T_ARRAY: for (u64 i = 0; i < t->n; i++) leaves(t->el[0], o + i * t->el[0]->size, out); break;
  case T_STRUCT: for (size_t i = 0; i < t->el.size(); i++) leaves(t->el[i], o + t->off[i], out); break;
  case T_VECTOR: for (u64 i = 0; i < t->n; i++) out.push_back({t->el[0], o + i * t->el[0]->bits / 8}); break;
  case T_VOID: break;
  default: out.push_back({t, o});
  }
}

enum IOp : u8 {
  I_RET, I_BR, I_CONDBR, I_SWITCH, I_UNREACHABLE, I_CALL, I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_SELECT, I_ALLOCA, I_LOAD, I_STORE, I_GEP,
  I_CAST, I_EXTRACTVALUE, I_INSERTVALUE, I_EXTRACTELEM, I_INSERTELEM, I_SHUFFLE, I_COPY, I_RMW, I_CMPXCHG, I_NOP, I_LANDINGPAD
};
enum Cast : u8 { C_TRUNC, C_ZEXT, C_SEXT, C_BITCAST, C_PTRTOINT, C_INTTOPTR, C_FPTOUI, C_FPTOSI, C_UITOFP, C_SITOFP, C_FPEXT, C_FPTRUNC };
enum FB : u8 { F_ADD, F_SUB, F_MUL, F_DIV, F_REM };
enum Pred : u8 { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE,
  F_FALSE, F_OEQ, F_OGT, F_OGE, F_OLT, F_OLE, F_ONE, F_ORD, F_UNO, F_UEQ, F_UGT, F_UGE, F_ULT, F_ULE, F_UNE, F_TRUE };

struct Opnd { int reg; Type *t; std::vector<Val> *cst; };  // reg>=0: slots start; else constant slots

struct Func;
struct Edge { int target; std::vector<std::pair<int, Opnd>> moves; };  // phi moves
struct GepIdx { Opnd o; u64 scale; };
struct Intr;
struct Inst {
  IOp op; u8 sub = 0; Type *t = nullptr; Type *t2 = nullptr; int dst = -1; u32 nl = 1;
  std::vector<Opnd> a;
  std::vector<Edge> edges; std::vector<u128> cases;
  std::vector<GepIdx> gi; u64 goff = 0;
  Func *callee = nullptr; std::string cname; int bi = -1; // builtin index
  std::vector<int> mask; u32 idx = 0; u32 cnt = 0;
  std::vector<Leaf> lv; u32 dbg = 0; bool hits = false;
};
struct Func {
  std::string name; std::string header; std::vector<std::string> lines; bool decl = false, parsed = false, failed = false, noret = false;
  Type *ret = nullptr; std::vector<Type *> params; std::vector<int> pslots; int nslots = 0, unnamed = 0; std::vector<Inst> code; u64 addr = 0; int kind = 0; u32 sp = 0;
};
struct Global { std::string name, def; u64 addr = 0; bool constant = false, init = false, tls = false, external = false; Type *t = nullptr; int objid = 0; std::string initText; };

static std::unordered_map<std::string, Func *> g_funcs; static std::vector<Func *> g_funclist;
static std::unordered_map<std::string, Global *> g_globals;
static std::unordered_map<u32, std::string> g_md;   // metadata lines
static std::unordered_map<std::string, std::string> g_aliases;

struct Tok { enum K { END, ID, LOCAL, GLOBAL, NUM, STR, CSTR, P, META, ATTR } k; std::string s; };
static std::string unq(const std::string &s) { return s; }
struct Lex {
  const char *p, *e; Tok t;
  std::string own; Lex(std::string s0) : own(std::move(s0)) { p = own.data(); e = p + own.size(); next(); } Lex(const Lex &) = delete;
  static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
  void next() {
    while (p < e && (*p == ' ' || *p == '\t' || *p == '\n')) p++;
    t.s.clear();
    if (p >= e || *p == ';') { t.k = Tok::END; return; }
    char c = *p;
    if (c == '%' || c == '@') { t.k = c == '%' ? Tok::LOCAL : Tok::GLOBAL; p++;
      if (p < e && *p == '"') { p++; while (p < e && *p != '"') t.s += *p++; p++; } else while (p < e && idc(*p)) t.s += *p++; return; }
    if (c == '"') { t.k = Tok::STR; p++; while (p < e && *p != '"') t.s += *p++; p++; return; }
    if (c == 'c' && p + 1 < e && p[1] == '"') { t.k = Tok::CSTR; p += 2;
      while (p < e && *p != '"') { if (*p == '\\') { if (p[1] == '\\') { t.s += '\\'; p += 2; } else { auto h = [](char x) { return x <= '9' ? x - '0' : (x | 32) - 'a' + 10; }; t.s += (char)(h(p[1]) * 16 + h(p[2])); p += 3; } } else t.s += *p++; } p++; return; }
    if (c == '!') { t.k = Tok::META; p++; while (p < e && idc(*p)) t.s += *p++; return; }
    if (c == '#') { t.k = Tok::ATTR; p++; while (p < e && idc(*p)) t.s += *p++; return; }
    if (isdigit((unsigned char)c) || ((c == '-' || c == '+') && p + 1 < e && (isdigit((unsigned char)p[1])))) { t.k = Tok::NUM; t.s += *p++;
      while (p < e && (isalnum((unsigned char)*p) || *p == '.' || ((*p == '-' || *p == '+') && (p[-1] == 'e' || p[-1] == 'E')))) t.s += *p++; return; }
    if (isalpha((unsigned char)c) || c == '_' || c == '$') { t.k = Tok::ID; while (p < e && idc(*p)) t.s += *p++; return; }
    if (c == '.' && p + 2 < e && p[1] == '.' && p[2] == '.') { t.k = Tok::P; t.s = "..."; p += 3; return; }
    t.k = Tok::P; t.s = c; p++;
  }
  bool is(const char *s) const { return (t.k == Tok::P || t.k == Tok::ID) && t.s == s; }
  bool eat(const char *s) { if (is(s)) { next(); return true; } return false; }
  void need(const char *s) { if (!eat(s)) throw std::runtime_error(std::string("parse: expected ") + s + " got '" + t.s + "' near: " + std::string(p, std::min<size_t>(e - p, 60))); }
};

static Type *intern(const std::string &key, Type tt) { auto it = g_types.find(key); if (it != g_types.end()) return it->second; Type *t = new Type(tt); layout(t); g_types[key] = t; return t; }
static Type *tint(u32 b) { Type t; t.k = T_INT; t.bits = b; return intern("i" + std::to_string(b), t); }
static Type *tptr() { Type t; t.k = T_PTR; return intern("ptr", t); }
static Type *tvoid() { Type t; t.k = T_VOID; return intern("void", t); }
static bool isTypeStart(Lex &L) {
  if (L.t.k == Tok::ID) { const std::string &s = L.t.s; if (s == "ptr" || s == "void" || s == "float" || s == "double" || s == "label" || s == "metadata" || s == "x86_fp80" || s == "half" || s == "fp128") return true; return s.size() > 1 && s[0] == 'i' && std::all_of(s.begin() + 1, s.end(), ::isdigit); }
  return L.is("[") || L.is("{") || L.is("<") || L.t.k == Tok::LOCAL;
}
static std::map<Type *, int> g_tid;
static int tid(Type *t) { auto it = g_tid.find(t); if (it != g_tid.end()) return it->second; int n = g_tid.size(); return g_tid[t] = n; }
static Type *ptype(Lex &L) {
  Type t;
  if (L.t.k == Tok::ID) {
    std::string s = L.t.s; L.next();
    if (s == "void") return tvoid();
    if (s == "ptr") { if (L.is("addrspace")) { L.next(); L.need("("); L.next(); L.need(")"); } return tptr(); }
    if (s == "float") { t.k = T_FLOAT; return intern(s, t); }
    if (s == "double") { t.k = T_DOUBLE; return intern(s, t); }
    if (s == "label") { t.k = T_LABEL; return intern(s, t); }
    if (s == "metadata") { t.k = T_META; return intern(s, t); }
    if (s == "x86_fp80" || s == "fp128") { t.k = T_INT; t.bits = 128; return intern(s, t); }
    if (s == "half") { t.k = T_INT; t.bits = 16; return intern(s, t); }
    if (s[0] == 'i') return tint(atoi(s.c_str() + 1));
    throw std::runtime_error("type? " + s);
  }
  if (L.t.k == Tok::LOCAL) { std::string n = L.t.s; L.next(); auto it = g_namedtypes.find(n); if (it == g_namedtypes.end()) throw std::runtime_error("named type " + n); Lex M(it->second); return ptype(M); }
  if (L.eat("[")) { t.k = T_ARRAY; t.n = strtoull(L.t.s.c_str(), 0, 10); L.next(); L.need("x"); t.el.push_back(ptype(L)); L.need("]"); return intern("[" + std::to_string(t.n) + "x" + std::to_string(tid(t.el[0])), t); }
  bool pk = false;
  if (L.eat("<")) {
    if (L.is("{")) { pk = true; } else { t.k = T_VECTOR; if (L.is("vscale")) throw std::runtime_error("vscale"); t.n = strtoull(L.t.s.c_str(), 0, 10); L.next(); L.need("x"); t.el.push_back(ptype(L)); L.need(">"); return intern("<" + std::to_string(t.n) + "x" + std::to_string(tid(t.el[0])), t); }
  }
  if (L.eat("{")) { t.k = T_STRUCT; t.packed = pk; std::string key = pk ? "<{" : "{"; while (!L.is("}")) { Type *e = ptype(L); t.el.push_back(e); key += std::to_string(tid(e)) + ","; if (!L.eat(",")) break; } L.need("}"); if (pk) L.need(">"); return intern(key, t); }
  throw std::runtime_error("type? '" + L.t.s + "'");
}

static u64 addrOf(const std::string &g);   // resolved by the machine
static u128 parseInt(const std::string &s) { bool n = s[0] == '-'; u128 v = 0; size_t i = n || s[0] == '+' ? 1 : 0; for (; i < s.size(); i++) v = v * 10 + (s[i] - '0'); return n ? -v : v; }
static Val mkval(u128 v, unsigned bits) { if (bits <= 64) return cv((u64)(v & maskw(bits))); return Val{0, mkc(v, bits)}; }

struct CE { u64 v; };
static void pconst(Lex &L, Type *t, std::vector<Val> &out);
static u64 pconstexprInt(Lex &L);
static u64 ptypedScalar(Lex &L) { Type *t = ptype(L); std::vector<Val> o; pconst(L, t, o); return o.at(0).c; }
static u64 pconstexpr(Lex &L) { // at identifier
  std::string op = L.t.s; L.next();
  if (op == "getelementptr") {
    while (L.t.k == Tok::ID && !isTypeStart(L)) { bool par = L.is("inrange"); L.next(); if (par || L.is("(")) { if (L.is("(")) { // inrange(...) or paren start
          if (par) { int d = 0; do { if (L.is("(")) d++; if (L.is(")")) d--; L.next(); } while (d); } else break; } } }
    L.need("("); Type *t = ptype(L); L.need(","); u64 base = ptypedScalar(L); bool first = true; u64 off = 0; Type *cur = t;
    while (L.eat(",")) { if (L.is("inrange")) L.next(); u64 i = ptypedScalar(L); if (first) { off += i * t->size; first = false; } else if (cur->k == T_STRUCT) { off += cur->off[i]; cur = cur->el[i]; } else { off += i * cur->el[0]->size; cur = cur->el[0]; } }
    L.need(")"); return base + off;
  }
  if (op == "ptrtoint" || op == "inttoptr" || op == "bitcast" || op == "trunc" || op == "zext" || op == "addrspacecast" || op == "ptrtoaddr") { L.need("("); u64 v = ptypedScalar(L); L.need("to"); Type *t = ptype(L); L.need(")"); return v & (u64)maskw(t->bits); }
  if (op == "add" || op == "sub" || op == "xor" || op == "and" || op == "or" || op == "mul" || op=="shl" || op=="lshr") { while (L.t.k == Tok::ID && !isTypeStart(L)) L.next(); L.need("("); Type *t = ptype(L); std::vector<Val> o; pconst(L, t, o); u64 a = o[0].c; L.need(","); u64 b = ptypedScalar(L); L.need(")");
    u64 r = op == "add" ? a + b : op == "sub" ? a - b : op == "xor" ? a ^ b : op == "and" ? a & b : op == "or" ? a | b : op=="mul" ? a * b : op=="shl" ? a<<b : a>>b; return r & (u64)maskw(t->bits); }
  throw std::runtime_error("constexpr " + op);
}
static void pconst(Lex &L, Type *t, std::vector<Val> &out) {
  if (L.is("undef") || L.is("poison") || L.is("zeroinitializer") || L.is("null") || L.is("none")) { L.next(); std::vector<Leaf> lv; leaves(t, 0, lv); for (auto &l : lv) out.push_back(mkval(0, l.t->bits)); return; }
  if (t->k == T_VECTOR && L.is("splat")) { L.next(); L.need("("); Type *et = ptype(L); std::vector<Val> o; pconst(L, et, o); L.need(")"); for (u64 i = 0; i < t->n; i++) out.push_back(o[0]); return; }
  switch (t->k) {
  case T_INT: if (L.is("true")) { L.next(); out.push_back(cv(1)); return; } if (L.is("false")) { L.next(); out.push_back(cv(0)); return; }
    if (L.t.k == Tok::NUM) { u128 v = parseInt(L.t.s); L.next(); out.push_back(mkval(v, t->bits)); return; }
    if (L.t.k == Tok::ID && L.t.s.size() > 3 && (L.t.s[1]=='0') ) { }
    out.push_back(mkval(pconstexpr(L), t->bits)); return;
  case T_FLOAT: case T_DOUBLE: {
    std::string s = L.t.s; L.next(); u64 bits;
    if (s.compare(0, 3, "f0x") == 0) bits = strtoull(s.c_str() + 3, 0, 16);
    else if (s.compare(0, 2, "0x") == 0) { u64 d = strtoull(s.c_str() + 2, 0, 16); if (t->k == T_FLOAT) { double dd; memcpy(&dd, &d, 8); float f = dd; u32 b; memcpy(&b, &f, 4); bits = b; } else bits = d; }
    else if (s == "inf" || s == "+inf" || s == "-inf" || s == "nan" || s == "+nan" || s=="qnan" || s=="pinf" || s=="ninf") { double d = s.find("inf")!=std::string::npos ? (s[0]=='-'||s[0]=='n' ? -1.0/0.0 : 1.0/0.0) : 0.0/0.0; if (t->k==T_FLOAT){float f=d;u32 b;memcpy(&b,&f,4);bits=b;} else memcpy(&bits,&d,8); }
    else { double d = strtod(s.c_str(), 0); if (t->k == T_FLOAT) { float f = d; u32 b; memcpy(&b, &f, 4); bits = b; } else memcpy(&bits, &d, 8); }
    out.push_back(cv(bits)); return; }
  case T_PTR: if (L.t.k == Tok::GLOBAL) { out.push_back(cv(addrOf(L.t.s))); L.next(); return; } out.push_back(cv(pconstexpr(L))); return;
  case T_ARRAY: case T_VECTOR:
    if (L.t.k == Tok::CSTR) { for (unsigned char c : L.t.s) out.push_back(cv(c)); L.next(); return; }
    { const char *o = t->k == T_ARRAY ? "[" : "<", *cl = t->k == T_ARRAY ? "]" : ">"; L.need(o); while (!L.is(cl)) { Type *et = ptype(L); pconst(L, et, out); if (!L.eat(",")) break; } L.need(cl); } return;
  case T_STRUCT: { bool pk = L.eat("<"); L.need("{"); while (!L.is("}")) { Type *et = ptype(L); pconst(L, et, out); if (!L.eat(",")) break; } L.need("}"); if (pk) L.need(">"); return; }
  default: throw std::runtime_error("const of type");
  }
}

static void loadModule(const char *path) {
  FILE *f = fopen(path, "r"); if (!f) { fprintf(stderr, "cannot open %s\n", path); exit(2); }
  char *line = nullptr; size_t cap = 0; ssize_t n; Func *cur = nullptr;
  while ((n = getline(&line, &cap, f)) >= 0) {
    while (n && (line[n - 1] == '\n' || line[n - 1] == '\r')) line[--n] = 0;
    if (cur) { if (line[0] == '}') { cur = nullptr; continue; } cur->lines.emplace_back(line, n); continue; }
    if (!strncmp(line, "define ", 7) || !strncmp(line, "declare ", 8)) {
      Func *fn = new Func; fn->header = line; const char *at = strchr(line, '@'); Lex L(std::string(at, std::min<size_t>(strlen(at), 2000))); fn->name = L.t.s; fn->decl = line[2] == 'c';
      if (!g_funcs.count(fn->name)) { g_funcs[fn->name] = fn; g_funclist.push_back(fn); } 
      if (!fn->decl) cur = fn;
    } else if (line[0] == '@') { Lex L(std::string(line, std::min<ssize_t>(n, 4000))); Global *g = new Global; g->name = L.t.s; std::string s(line, n); size_t eq = s.find(" = "); g->def = s.substr(eq + 3);
      if (g->def.find(" alias ") != std::string::npos && g->def.find(" alias ") < 60) { size_t at = g->def.rfind('@'); Lex M(g->def.substr(at)); g_aliases[g->name] = M.t.s; delete g; }
      else g_globals[g->name] = g;
    } else if (line[0] == '%') { Lex L(line); std::string nme = L.t.s; std::string s(line, n); size_t eq = s.find(" = type "); if (eq != std::string::npos) g_namedtypes[nme] = s.substr(eq + 8); }
    else if (line[0] == '!' && isdigit((unsigned char)line[1])) { char *e; u32 id = strtoul(line + 1, &e, 10); g_md[id] = std::string(e); }
  }
  free(line); fclose(f);
}

static bool constStart(Lex &L) { const Tok &t = L.t; if (t.k == Tok::LOCAL || t.k == Tok::GLOBAL || t.k == Tok::NUM || t.k == Tok::CSTR || t.k == Tok::META) return true;
  if (t.k == Tok::P) return t.s == "[" || t.s == "{" || t.s == "<";
  if (t.k == Tok::ID) { static const char *k[] = {"true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr", "ptrtoint", "ptrtoaddr", "inttoptr", "bitcast", "trunc", "zext", "add", "sub", "xor", "and", "or", "mul", "shl","lshr","splat", "inf", "nan", "qnan","pinf","ninf","asm"}; for (auto x : k) if (t.s == x) return true; if (t.s.compare(0, 3, "f0x") == 0) return true; }
  return false; }
static void skipParens(Lex &L) { int d = 0; do { if (L.is("(")) d++; else if (L.is(")")) d--; L.next(); } while (d > 0 && L.t.k != Tok::END); }
static void skipAttrs(Lex &L) { while (!constStart(L) && !L.is(",") && !L.is(")") && L.t.k != Tok::END) { bool al_ = L.is("align"); L.next(); if (L.is("(")) skipParens(L); else if (al_ && L.t.k == Tok::NUM) L.next(); else if (L.is("=")) { L.next(); L.next(); } } }
static void skipPreType(Lex &L) { while (!isTypeStart(L) && L.t.k != Tok::END) { if (L.t.k==Tok::GLOBAL) return; bool al_ = L.is("align") ; L.next(); if (L.is("(")) skipParens(L); else if (al_ && L.t.k == Tok::NUM) L.next(); } }

static int builtinId(const std::string &n);
static int funcKind(Func *f);
struct FP { // function parser
  Func *f; std::unordered_map<std::string, std::pair<int, Type *>> regs; std::unordered_map<std::string, int> bbs; int ns = 0;
  std::map<std::string, Type *> pre;
  int reg(const std::string &n, Type *t) { auto it = regs.find(n); if (it != regs.end()) { if (it->second.second == nullptr) it->second.second = t; return it->second.first; } int r = ns; ns += std::max(1u, t->slots); regs[n] = {r, t}; return r; }
  Opnd opnd(Lex &L, Type *t) {
    Opnd o; o.t = t; o.cst = nullptr; o.reg = -1;
    if (L.t.k == Tok::LOCAL) { o.reg = reg(L.t.s, t); L.next(); return o; }
    if (t->k == T_META || t->k == T_LABEL) { o.cst = new std::vector<Val>; while (!L.is(",") && !L.is(")") && L.t.k != Tok::END) { if (L.is("(")||0) skipParens(L); else L.next(); } return o; }
    o.cst = new std::vector<Val>; if (L.is("asm")) throw std::runtime_error("asm"); pconst(L, t, *o.cst); return o;
  }
  Opnd topnd(Lex &L) { Type *t = ptype(L); skipAttrs(L); return opnd(L, t); }
};

static void parseHeader(Func *f, FP *fp) {
  const std::string &h = f->header; size_t at = h.find(" @"); std::string pre = h.substr(0, at); 
  // return type: last type before @name
  { Lex L(pre); L.next(); while (L.t.k != Tok::END) { if (isTypeStart(L)) { f->ret = ptype(L); } else { L.next(); if (L.is("(")) skipParens(L); } } if (!f->ret) f->ret = tvoid(); }
  Lex L(h.substr(at + 1)); L.next(); L.need("(");
  int unnamed = 0;
  while (!L.is(")")) { if (L.is("...")) { L.next(); break; } Type *t = ptype(L); while (!L.is(",") && !L.is(")") && L.t.k != Tok::LOCAL && L.t.k != Tok::END) { bool al_ = L.is("align"); L.next(); if (L.is("(")) skipParens(L); else if (al_ && L.t.k == Tok::NUM) L.next(); }
    std::string nm; if (L.t.k == Tok::LOCAL) { nm = L.t.s; L.next(); if (!nm.empty() && nm.find_first_not_of("0123456789") == std::string::npos) unnamed = std::stoi(nm) + 1; } else nm = std::to_string(unnamed++);
    f->params.push_back(t); if (fp) f->pslots.push_back(fp->reg(nm, t)); if (!L.eat(",")) break; }
  L.need(")"); f->unnamed = unnamed;
  size_t dp = h.rfind("!dbg !"); if (dp != std::string::npos) f->sp = atoi(h.c_str() + dp + 6);
}

static void parseFunc(Func *f) {
  if (f->parsed) return; if (f->failed) throw std::runtime_error("function could not be parsed"); f->failed = true; FP P; P.f = f; parseHeader(f, &P);
  // join multi-line instructions, record block labels
  std::vector<std::string> ins; std::vector<int> bbOf; std::vector<std::string> labels; std::string entry;
  bool firstLabelSeen = false; std::vector<int> bstart;
  for (size_t i = 0; i < f->lines.size(); i++) {
    std::string s = f->lines[i]; if (s.empty()) continue;
    if (s[0] != ' ' && s[0] != ';') { // label
      std::string lab; if (s[0] == '"') lab = s.substr(1, s.find('"', 1) - 1); else lab = s.substr(0, s.find(':'));
      P.bbs[lab] = bstart.size(); labels.push_back(lab); bstart.push_back(ins.size()); firstLabelSeen = true; continue; }
    size_t k = s.find_first_not_of(" \t"); if (k == std::string::npos || s[k] == ';') continue;
    if (s.compare(k, 5, "#dbg_") == 0) continue;
    if (bstart.empty()) { labels.push_back("<entry>"); bstart.push_back(0); }
    if (s.compare(k, 7, "switch ") == 0) { while (s.find(']') == std::string::npos) s += f->lines[++i]; }
    if (s.find("= invoke ") != std::string::npos || s.compare(k, 7, "invoke ") == 0) s += f->lines[++i];
    if (s.find("= landingpad ") != std::string::npos) { while (i + 1 < f->lines.size()) { size_t q = f->lines[i + 1].find_first_not_of(" "); const std::string &nl = f->lines[i + 1]; if (q != std::string::npos && (nl.compare(q, 7, "cleanup") == 0 || nl.compare(q, 5, "catch") == 0 || nl.compare(q, 6, "filter") == 0)) i++; else break; } }
    ins.push_back(s.substr(k));
  }
  if (!firstLabelSeen || labels[0] == "<entry>") { std::string n = std::to_string(f->unnamed); P.bbs[n] = 0; }
  (void)entry; bstart.push_back(ins.size());
  int nb = bstart.size() - 1; std::vector<int> codeStart(nb);
  struct Phi { int dst; Type *t; std::vector<std::pair<int, Opnd>> in; }; std::vector<std::vector<Phi>> phis(nb);
  auto label = [&](Lex &L) { L.need("label"); int b = P.bbs.at(L.t.s); L.next(); return b; };
  std::vector<std::pair<int, int>> blkOfInst;
  for (int b = 0; b < nb; b++) {
    codeStart[b] = f->code.size();
    for (int q = bstart[b]; q < bstart[b + 1]; q++) {
      const std::string &S = ins[q]; 
      try {
      Lex L(S); Inst I; std::string dst; bool hasdst = false;
      if (L.t.k == Tok::LOCAL) { dst = L.t.s; hasdst = true; L.next(); L.need("="); }
      std::string op = L.t.s; L.next();
      auto setdst = [&](Type *t) { if (hasdst && t->k != T_VOID) I.dst = P.reg(dst, t); I.t = t; };
      if (op == "tail" || op == "musttail" || op == "notail") { op = L.t.s; L.next(); }
      { size_t d = S.rfind("!dbg !"); if (d != std::string::npos) I.dbg = atoi(S.c_str() + d + 6); }
      static const std::map<std::string, int> bins = {{"add", O_ADD}, {"sub", O_SUB}, {"mul", O_MUL}, {"udiv", O_UDIV}, {"sdiv", O_SDIV}, {"urem", O_UREM}, {"srem", O_SREM}, {"and", O_AND}, {"or", O_OR}, {"xor", O_XOR}, {"shl", O_SHL}, {"lshr", O_LSHR}, {"ashr", O_ASHR}};
      static const std::map<std::string, int> fbins = {{"fadd", F_ADD}, {"fsub", F_SUB}, {"fmul", F_MUL}, {"fdiv", F_DIV}, {"frem", F_REM}};
      static const std::map<std::string, int> casts = {{"trunc", C_TRUNC}, {"zext", C_ZEXT}, {"sext", C_SEXT}, {"bitcast", C_BITCAST}, {"ptrtoint", C_PTRTOINT}, {"ptrtoaddr", C_PTRTOINT}, {"inttoptr", C_INTTOPTR}, {"fptoui", C_FPTOUI}, {"fptosi", C_FPTOSI}, {"uitofp", C_UITOFP}, {"sitofp", C_SITOFP}, {"fpext", C_FPEXT}, {"fptrunc", C_FPTRUNC}};
      static const std::map<std::string, int> ip = {{"eq", P_EQ}, {"ne", P_NE}, {"ugt", P_UGT}, {"uge", P_UGE}, {"ult", P_ULT}, {"ule", P_ULE}, {"sgt", P_SGT}, {"sge", P_SGE}, {"slt", P_SLT}, {"sle", P_SLE}};
      static const std::map<std::string, int> fpd = {{"false", F_FALSE}, {"oeq", F_OEQ}, {"ogt", F_OGT}, {"oge", F_OGE}, {"olt", F_OLT}, {"ole", F_OLE}, {"one", F_ONE}, {"ord", F_ORD}, {"uno", F_UNO}, {"ueq", F_UEQ}, {"ugt", F_UGT}, {"uge", F_UGE}, {"ult", F_ULT}, {"ule", F_ULE}, {"une", F_UNE}, {"true", F_TRUE}};
      if (bins.count(op)) { skipPreType(L); Opnd a = P.topnd(L); L.need(","); Opnd b2 = P.opnd(L, a.t); I.op = I_BIN; I.sub = bins.at(op); setdst(a.t); I.nl = a.t->slots; I.t2 = a.t->k == T_VECTOR ? a.t->el[0] : a.t; I.a = {a, b2}; }
      else if (fbins.count(op)) { skipPreType(L); Opnd a = P.topnd(L); L.need(","); Opnd b2 = P.opnd(L, a.t); I.op = I_FBIN; I.sub = fbins.at(op); setdst(a.t); I.nl = a.t->slots; I.t2 = a.t->k == T_VECTOR ? a.t->el[0] : a.t; I.a = {a, b2}; }
      else if (op == "fneg") { skipPreType(L); Opnd a = P.topnd(L); I.op = I_FNEG; setdst(a.t); I.nl = a.t->slots; I.t2 = a.t->k == T_VECTOR ? a.t->el[0] : a.t; I.a = {a}; }
      else if (casts.count(op)) { skipPreType(L); Opnd a = P.topnd(L); L.need("to"); Type *t = ptype(L); I.op = I_CAST; I.sub = casts.at(op); setdst(t); I.a = {a}; I.nl = t->slots; I.t2 = t->k == T_VECTOR ? t->el[0] : t; }
      else if (op == "icmp" || op == "fcmp") { while (!(op == "icmp" ? ip : fpd).count(L.t.s)) L.next(); int p = (op == "icmp" ? ip : fpd).at(L.t.s); L.next(); Opnd a = P.topnd(L); L.need(","); Opnd b2 = P.opnd(L, a.t); I.op = op == "icmp" ? I_ICMP : I_FCMP; I.sub = p; I.nl = a.t->slots; Type *rt = tint(1); if (a.t->k == T_VECTOR) { Type vt; vt.k = T_VECTOR; vt.n = a.t->n; vt.el = {tint(1)}; rt = intern("<" + std::to_string(vt.n) + "x" + std::to_string(tid(tint(1))), vt); } setdst(rt); I.t2 = a.t->k == T_VECTOR ? a.t->el[0] : a.t; I.a = {a, b2}; }
      else if (op == "select") { skipPreType(L); Opnd c = P.topnd(L); L.need(","); Opnd a = P.topnd(L); L.need(","); Opnd b2 = P.topnd(L); I.op = I_SELECT; setdst(a.t); I.nl = a.t->slots; I.a = {c, a, b2}; leaves(a.t, 0, I.lv); }
      else if (op == "freeze") { Opnd a = P.topnd(L); I.op = I_COPY; setdst(a.t); I.nl = a.t->slots; I.a = {a}; }
      else if (op == "phi") { skipPreType(L); Type *t = ptype(L); Phi ph; ph.t = t; ph.dst = P.reg(dst, t); while (L.eat("[")) { Opnd o = P.opnd(L, t); L.need(","); int pb = P.bbs.at(L.t.s); L.next(); L.need("]"); ph.in.push_back({pb, o}); if (!L.eat(",")) break; } phis[b].push_back(ph); continue; }
      else if (op == "ret") { I.op = I_RET; if (L.is("void")) { I.t = tvoid(); } else { Opnd a = P.topnd(L); I.t = a.t; I.nl = a.t->slots; I.a = {a}; } }
      else if (op == "br") { if (L.is("label")) { I.op = I_BR; I.edges.push_back({label(L), {}}); } else { Opnd c = P.topnd(L); I.op = I_CONDBR; I.a = {c}; L.need(","); I.edges.push_back({label(L), {}}); L.need(","); I.edges.push_back({label(L), {}}); } }
      else if (op == "switch") { Opnd c = P.topnd(L); I.op = I_SWITCH; I.a = {c}; L.need(","); I.edges.push_back({label(L), {}}); L.need("["); while (!L.is("]")) { Type *t = ptype(L); u128 v = parseInt(L.t.s == "true" ? "1" : L.t.s == "false" ? "0" : L.t.s) & maskw(t->bits); L.next(); L.need(","); I.cases.push_back(v); I.edges.push_back({label(L), {}}); } }
      else if (op == "unreachable") { I.op = I_UNREACHABLE; }
      else if (op == "resume" ) { I.op = I_UNREACHABLE; }
      else if (op == "landingpad") { Type *t = ptype(L); I.op = I_LANDINGPAD; setdst(t); }
      else if (op == "fence") { I.op = I_NOP; }
      else if (op == "alloca") { skipPreType(L); if (L.is("inalloca")) L.next(); Type *t = ptype(L); I.op = I_ALLOCA; setdst(tptr()); I.t2 = t; I.cnt = 1; if (L.eat(",")) { if (isTypeStart(L)) { Opnd o = P.topnd(L); I.a = {o}; } } }
      else if (op == "load") { while (!isTypeStart(L)) L.next(); Type *t = ptype(L); L.need(","); Opnd p = P.topnd(L); I.op = I_LOAD; setdst(t); I.a = {p}; leaves(t, 0, I.lv); I.nl = I.lv.size(); }
      else if (op == "store") { while (!isTypeStart(L)) L.next(); Opnd v = P.topnd(L); L.need(","); Opnd p = P.topnd(L); I.op = I_STORE; I.t = v.t; I.a = {v, p}; leaves(v.t, 0, I.lv); I.nl = I.lv.size(); }
      else if (op == "getelementptr") { skipPreType(L); Type *t = ptype(L); L.need(","); Opnd base = P.topnd(L); I.op = I_GEP; if (base.t->k == T_VECTOR) throw std::runtime_error("vector gep"); setdst(tptr()); I.a = {base}; Type *cur = t; bool first = true;
        while (L.eat(",")) { if (L.t.k == Tok::META) break; Opnd ix = P.topnd(L); u64 sc; if (first) { sc = t->size; first = false; } else if (cur->k == T_STRUCT) { u64 i = ix.cst->at(0).c; I.goff += cur->off[i]; cur = cur->el[i]; continue; } else { sc = cur->el[0]->size; cur = cur->el[0]; }
          if (ix.reg < 0) I.goff += (u64)sx(ix.cst->at(0).c, ix.t->bits) * sc; else I.gi.push_back({ix, sc}); } }
      else if (op == "extractvalue") { Opnd a = P.topnd(L); Type *cur = a.t; u32 so = 0; while (L.eat(",")) { if (L.t.k == Tok::META) break; u64 i = strtoull(L.t.s.c_str(), 0, 10); L.next(); if (cur->k == T_STRUCT) { for (u64 j = 0; j < i; j++) so += cur->el[j]->slots; cur = cur->el[i]; } else { so += i * cur->el[0]->slots; cur = cur->el[0]; } } I.op = I_EXTRACTVALUE; setdst(cur); I.a = {a}; I.idx = so; I.nl = cur->slots; }
      else if (op == "insertvalue") { Opnd a = P.topnd(L); L.need(","); Opnd v = P.topnd(L); Type *cur = a.t; u32 so = 0; while (L.eat(",")) { if (L.t.k == Tok::META) break; u64 i = strtoull(L.t.s.c_str(), 0, 10); L.next(); if (cur->k == T_STRUCT) { for (u64 j = 0; j < i; j++) so += cur->el[j]->slots; cur = cur->el[i]; } else { so += i * cur->el[0]->slots; cur = cur->el[0]; } } I.op = I_INSERTVALUE; setdst(a.t); I.a = {a, v}; I.idx = so; I.cnt = cur->slots; I.nl = a.t->slots; }
      else if (op == "extractelement") { Opnd a = P.topnd(L); L.need(","); Opnd i = P.topnd(L); I.op = I_EXTRACTELEM; setdst(a.t->el[0]); I.a = {a, i}; }
      else if (op == "insertelement") { Opnd a = P.topnd(L); L.need(","); Opnd v = P.topnd(L); L.need(","); Opnd i = P.topnd(L); I.op = I_INSERTELEM; setdst(a.t); I.a = {a, v, i}; I.nl = a.t->slots; }
      else if (op == "shufflevector") { Opnd a = P.topnd(L); L.need(","); Opnd b2 = P.topnd(L); L.need(","); Opnd mk_ = P.topnd(L); I.op = I_SHUFFLE; Type vt; vt.k = T_VECTOR; vt.n = mk_.t->n; vt.el = {a.t->el[0]}; setdst(intern("<" + std::to_string(vt.n) + "x" + std::to_string(tid(a.t->el[0])), vt)); I.a = {a, b2}; for (auto &v : *mk_.cst) I.mask.push_back((int)v.c); I.nl = vt.n; }
      else if (op == "atomicrmw") { while (L.is("volatile")) L.next(); I.cname = L.t.s; L.next(); Opnd p = P.topnd(L); L.need(","); Opnd v = P.topnd(L); I.op = I_RMW; setdst(v.t); I.a = {p, v}; }
      else if (op == "cmpxchg") { while (L.is("weak") || L.is("volatile")) L.next(); Opnd p = P.topnd(L); L.need(","); Opnd c = P.topnd(L); L.need(","); Opnd v = P.topnd(L); I.op = I_CMPXCHG; Type st; st.k = T_STRUCT; st.el = {v.t, tint(1)}; setdst(intern("{" + std::to_string(tid(v.t)) + "," + std::to_string(tid(tint(1))) + ",", st)); I.a = {p, c, v}; }
      else if (op == "call" || op == "invoke") {
        skipPreType(L); Type *rt = ptype(L); if (L.is("(")) skipParens(L);
        skipAttrs(L);
        I.op = I_CALL; setdst(rt); Opnd callee; callee.reg = -1; callee.cst = nullptr; callee.t = tptr();
        if (L.t.k == Tok::GLOBAL) { I.cname = L.t.s; L.next(); auto al2 = g_aliases.find(I.cname); if (al2 != g_aliases.end()) I.cname = al2->second; auto it = g_funcs.find(I.cname); I.callee = it == g_funcs.end() ? nullptr : it->second; I.bi = builtinId(I.cname); }
        else if (L.t.k == Tok::LOCAL) { callee = P.opnd(L, tptr()); }
        else if (L.is("asm")) { I.cname = "asm"; while (!L.is("(")) L.next(); }
        else { callee = P.opnd(L, tptr()); }
        L.need("("); 
        while (!L.is(")")) { Type *t = ptype(L); if (t->k == T_META) { int d = 0; while (L.t.k != Tok::END && !(d == 0 && (L.is(",") || L.is(")")))) { if (L.is("(")) d++; if (L.is(")")) d--; L.next(); } I.a.push_back(Opnd{-1, t, new std::vector<Val>}); } else { skipAttrs(L); if (I.cname == "asm" && !constStart(L)) { L.next(); } else I.a.push_back(P.opnd(L, t)); } if (!L.eat(",")) break; }
        L.need(")"); I.cnt = I.cname.empty() ? 1 : 0; if (I.cnt) I.a.push_back(callee);
        if (op == "invoke") { while (!L.is("to")) L.next(); L.next(); int nbk = label(L); f->code.push_back(I); blkOfInst.push_back({b, 0}); Inst J; J.op = I_BR; J.edges.push_back({nbk, {}}); J.dbg = I.dbg; f->code.push_back(J); continue; }
      }
      else throw std::runtime_error("unsupported instruction " + op);
      f->code.push_back(std::move(I));
      } catch (std::exception &ex) { throw std::runtime_error(std::string(ex.what()) + " in @" + f->name + ": " + S.substr(0, 300)); }
    }
  }
  // resolve edges
  std::vector<int> blk(f->code.size()); { int b = 0; for (size_t i = 0; i < f->code.size(); i++) { while (b + 1 < nb && codeStart[b + 1] <= (int)i) b++; blk[i] = b; } }
  for (size_t i = 0; i < f->code.size(); i++) for (auto &e : f->code[i].edges) { int tb = e.target; for (auto &ph : phis[tb]) { for (auto &in : ph.in) if (in.first == blk[i]) { e.moves.push_back({ph.dst, in.second}); break; } } e.target = codeStart[tb]; }
  f->nslots = P.ns; f->lines.clear(); f->parsed = true;
}
