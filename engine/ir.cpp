#include "ir.h"
#include <fstream>
#include <sstream>
Module M; uint64_t gbrk = ARENA + 4096;
static inline bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
void Module::fail(const std::string &m) { size_t b = p > 60 ? p - 60 : 0; throw ParseError{m + " near: ..." + t.substr(b, p - b) + "<<HERE>>" + t.substr(p, 80)}; }
void Module::ws() { for (;;) { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n')) p++; if (p < t.size() && t[p] == ';') { while (p < t.size() && t[p] != '\n') p++; } else break; } }
bool Module::peek(const char *s) { ws(); return t.compare(p, strlen(s), s) == 0; }
bool Module::lit(const char *s) { ws(); size_t n = strlen(s); if (t.compare(p, n, s) != 0) return false;
  if (isalpha((unsigned char)s[n - 1]) && idc(t[p + n])) return false; p += n; return true; }
std::string Module::word() { ws(); size_t b = p; while (p < t.size() && idc(t[p])) p++; return t.substr(b, p - b); }
std::string Module::ident() { // after % or @
  if (t[p] == '"') { size_t b = ++p; while (t[p] != '"') p++; std::string s = t.substr(b, p - b); p++; return s; }
  size_t b = p; while (p < t.size() && idc(t[p])) p++; return t.substr(b, p - b); }
std::string Module::gname() { ws(); if (t[p] != '@') fail("expected @"); p++; return ident(); }
void Module::skipParen() { ws(); if (t[p] != '(') return; int d = 0; do { if (t[p] == '"') { p++; while (t[p] != '"') p++; } if (t[p] == '(') d++; if (t[p] == ')') d--; p++; } while (d); }
static std::map<int, Type *> ints;
Type *finish(Type *t) {
  switch (t->k) {
  case T_VOID: case T_OTHER: t->size = 0; t->slots = 0; break;
  case T_INT: { int b = (t->bits + 7) / 8; uint64_t s = 1; while (s < (uint64_t)b) s *= 2; t->size = s; t->align = s > 16 ? 16 : s; t->slots = t->bits <= 64 ? 1 : (t->bits + 63) / 64; break; }
  case T_PTR: t->bits = 64; t->size = t->align = 8; t->slots = 1; break;
  case T_FLOAT: t->bits = 32; t->size = t->align = 4; t->slots = 1; break;
  case T_DOUBLE: t->bits = 64; t->size = t->align = 8; t->slots = 1; break;
  case T_ARR: t->size = t->n * t->el->size; t->align = t->el->align; t->slots = t->n * t->el->slots; break;
  case T_VEC: { uint64_t bits = t->n * (t->el->k == T_INT ? t->el->bits : t->el->size * 8); t->size = (bits + 7) / 8; t->align = t->size ? t->size : 1; t->slots = t->n * t->el->slots; break; }
  case T_STRUCT: { uint64_t o = 0; int so = 0; t->align = 1; for (Type *f : t->f) { if (!t->packed) { o = (o + f->align - 1) / f->align * f->align; if (f->align > t->align) t->align = f->align; } t->off.push_back(o); t->soff.push_back(so); o += f->size; so += f->slots; }
    if (!t->packed) o = (o + t->align - 1) / t->align * t->align; t->size = o; t->slots = so; break; }
  }
  return t;
}
Type *intTy(int b) { auto &r = ints[b]; if (!r) { r = new Type; r->k = T_INT; r->bits = b; finish(r); } return r; }
static Type *simple(TK k) { static std::map<int, Type *> m; auto &r = m[k]; if (!r) { r = new Type; r->k = k; finish(r); } return r; }
bool Module::atType() { ws(); char c = t[p]; if (c == '[' || c == '{' || c == '<' || c == '%') return true;
  if (c == 'i' && isdigit((unsigned char)t[p + 1])) return true;
  for (const char *s : {"ptr", "void", "float", "double", "metadata", "label", "token", "half", "fp128", "x86_fp80", "opaque"}) { size_t n = strlen(s); if (t.compare(p, n, s) == 0 && !idc(t[p + n])) return true; }
  return false; }
uint64_t Module::integer() { ws(); bool neg = false; if (t[p] == '-') { neg = true; p++; } if (!isdigit((unsigned char)t[p])) fail("integer"); uint64_t v = 0; while (isdigit((unsigned char)t[p])) v = v * 10 + (t[p++] - '0'); return neg ? 0 - v : v; }
Type *Module::type() {
  ws(); char c = t[p];
  if (c == '[') { p++; uint64_t n = integer(); if (!lit("x")) fail("x"); Type *e = type(); if (!lit("]")) fail("]"); Type *r = new Type; r->k = T_ARR; r->n = n; r->el = e; return finish(r); }
  if (c == '{' || (c == '<' && t[p + 1] == '{')) { bool pk = c == '<'; p += pk ? 2 : 1; Type *r = new Type; r->k = T_STRUCT; r->packed = pk; ws(); while (t[p] != '}') { r->f.push_back(type()); ws(); if (t[p] == ',') p++; ws(); } p++; if (pk) { ws(); p++; } return finish(r); }
  if (c == '<') { p++; uint64_t n = integer(); if (!lit("x")) fail("x"); Type *e = type(); if (!lit(">")) fail(">"); Type *r = new Type; r->k = T_VEC; r->n = n; r->el = e; return finish(r); }
  if (c == '%') { p++; std::string s = ident(); auto it = named.find(s); if (it != named.end()) return it->second; auto jt = namedpos.find(s); if (jt == namedpos.end()) fail("type " + s); size_t sv = p; p = jt->second; Type *r = type(); p = sv; named[s] = r; return r; }
  std::string w = word();
  if (w == "ptr") { ws(); if (t.compare(p, 9, "addrspace") == 0) { word(); skipParen(); } return simple(T_PTR); }
  if (w == "void") return simple(T_VOID); if (w == "float") return simple(T_FLOAT); if (w == "double") return simple(T_DOUBLE);
  if (w[0] == 'i' && isdigit((unsigned char)w[1])) return intTy(atoi(w.c_str() + 1));
  if (w == "label" || w == "metadata" || w == "token" || w == "opaque" || w == "half" || w == "fp128" || w == "x86_fp80") return simple(T_OTHER);
  fail("unknown type " + w); return nullptr;
}
Function *Module::func(const std::string &n) { auto &f = fn[n]; if (!f) { f = new Function; f->name = n; f->idx = fns.size(); f->addr = FNBASE + 16ull * fns.size(); fns.push_back(f); } return f; }
Function *Module::byAddr(uint64_t a) { if (a < FNBASE || (a - FNBASE) % 16) return nullptr; uint64_t i = (a - FNBASE) / 16; return i < fns.size() ? fns[i] : nullptr; }
uint64_t Module::addrOf(const std::string &n) {
  auto g = gl.find(n); if (g != gl.end()) return g->second->ext ? 0 : g->second->addr;
  auto f = fn.find(n); if (f != fn.end()) { if (!f->second->defined && f->second->weak) return 0; return f->second->addr; }
  auto a = aliaspos.find(n); if (a != aliaspos.end()) { size_t sv = p; p = a->second; std::vector<Val> o; Type pt; pt.k = T_PTR; finish(&pt); constant(&pt, o); p = sv; return o[0].c; }
  fail("unknown global " + n); return 0;
}
static bool fconst(const std::string &w, Type *ty, uint64_t &out) {
  if (w.compare(0, 2, "0x") == 0) { uint64_t b = strtoull(w.c_str() + 2, 0, 16); if (ty->k == T_FLOAT) { double d; memcpy(&d, &b, 8); float f = (float)d; uint32_t u; memcpy(&u, &f, 4); out = u; } else out = b; return true; }
  double d = strtod(w.c_str(), 0); if (ty->k == T_FLOAT) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); out = u; } else memcpy(&out, &d, 8); return true; }
bool Module::constant(Type *ty, std::vector<Val> &out) {
  ws(); char c = t[p];
  auto zero = [&]() { for (int i = 0; i < ty->slots; i++) out.push_back({0, nullptr}); };
  if (c == '@') { p++; std::string n = ident(); out.push_back({addrOf(n), nullptr}); return true; }
  if (c == 'c' && t[p + 1] == '"') { p += 2; for (uint64_t i = 0; i < ty->n; i++) { uint8_t b; if (t[p] == '\\' && t[p + 1] == '\\') { b = '\\'; p += 2; } else if (t[p] == '\\') { b = strtoul(t.substr(p + 1, 2).c_str(), 0, 16); p += 3; } else b = t[p++]; out.push_back({b, nullptr}); } p++; return true; }
  if (c == '[' || c == '{' || c == '<') { bool pk = c == '<' && t[p + 1] == '{'; p += pk ? 2 : 1; char end = c == '[' ? ']' : c == '{' ? '}' : pk ? '}' : '>'; ws(); while (t[p] != end) { Type *et = type(); if (!constant(et, out)) fail("const elem"); ws(); if (t[p] == ',') p++; ws(); } p++; if (pk) { ws(); p++; } return true; }
  if (ty->k == T_FLOAT || ty->k == T_DOUBLE) { if (isdigit((unsigned char)c) || c == '-' || c == '+') { size_t b = p; while (idc(t[p]) || t[p] == '+') p++; uint64_t v; fconst(t.substr(b, p - b), ty, v); out.push_back({v, nullptr}); return true; } }
  if (isdigit((unsigned char)c) || c == '-') {
    if (ty->slots > 1) { bool neg = c == '-'; if (neg) p++; unsigned __int128 v = 0; while (isdigit((unsigned char)t[p])) v = v * 10 + (t[p++] - '0'); if (neg) v = 0 - v; out.push_back({(uint64_t)v, nullptr}); out.push_back({(uint64_t)(v >> 64), nullptr}); for (int i = 2; i < ty->slots; i++) out.push_back({0, nullptr}); return true; }
    uint64_t v = integer(); out.push_back({v & maskb(ty->bits), nullptr}); return true; }
  size_t save = p; std::string w = word();
  if (w == "true") { out.push_back({1, nullptr}); return true; }
  if (w == "false") { out.push_back({0, nullptr}); return true; }
  if (w == "null" || w == "undef" || w == "poison" || w == "zeroinitializer" || w == "none") { zero(); return true; }
  if (w == "splat") { lit("("); Type *et = type(); std::vector<Val> o; constant(et, o); lit(")"); for (uint64_t i = 0; i < ty->n; i++) for (auto &v : o) out.push_back(v); return true; }
  if (w == "getelementptr") { while (!peek("(")) { word(); ws(); if (t[p] == '(' && t[p + 1] == '-') {} ; if (peek("(") && t.compare(p, 2, "(-") == 0) skipParen(); }
    lit("("); Type *bt = type(); lit(","); Type *pt = type(); std::vector<Val> o; constant(pt, o); uint64_t a = o[0].c; Type *cur = nullptr; bool first = true; ws();
    while (t[p] == ',') { p++; while (!atType()) word(); Type *it = type(); std::vector<Val> iv; constant(it, iv); int64_t ix = sxt(iv[0].c, it->bits); if (first) { a += ix * (int64_t)bt->size; cur = bt; first = false; } else if (cur->k == T_STRUCT) { a += cur->off[ix]; cur = cur->f[ix]; } else { cur = cur->el; a += ix * (int64_t)cur->size; } ws(); }
    lit(")"); out.push_back({a, nullptr}); return true; }
  if (w == "ptrtoint" || w == "inttoptr" || w == "bitcast" || w == "trunc" || w == "addrspacecast") { lit("("); Type *st = type(); std::vector<Val> o; constant(st, o); lit("to"); Type *dt = type(); lit(")"); out.push_back({o[0].c & maskb(dt->bits), nullptr}); return true; }
  if (w == "add" || w == "sub" || w == "mul" || w == "xor") { while (!peek("(")) word(); lit("("); Type *st = type(); std::vector<Val> o; constant(st, o); lit(","); type(); constant(st, o); lit(")"); uint64_t v = w == "add" ? o[0].c + o[1].c : w == "sub" ? o[0].c - o[1].c : w == "mul" ? o[0].c * o[1].c : o[0].c ^ o[1].c; out.push_back({v & maskb(st->bits), nullptr}); return true; }
  p = save; return false;
}
// write an initialiser into guest memory
static void put(uint64_t a, Type *ty, const std::vector<Val> &v, size_t &i) {
  switch (ty->k) {
  case T_INT: if (ty->slots > 1) { memcpy((void *)a, &v[i].c, 8); memcpy((void *)(a + 8), &v[i + 1].c, ty->size - 8); i += ty->slots; break; }
  case T_PTR: case T_FLOAT: case T_DOUBLE: memcpy((void *)a, &v[i].c, ty->size); i++; break;
  case T_ARR: case T_VEC: for (uint64_t k = 0; k < ty->n; k++) put(a + k * ty->el->size, ty->el, v, i); break;
  case T_STRUCT: for (size_t k = 0; k < ty->f.size(); k++) put(a + ty->off[k], ty->f[k], v, i); break;
  default: break; }
}
void Module::load(const std::string &path) {
  std::ifstream f(path, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); t = ss.str();
  // pass 1: index the top level
  size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size();
    char c = t[i];
    if (c == '%') { p = i + 1; std::string n = ident(); ws(); if (lit("=") && lit("type")) { namedpos[n] = p; } }
    else if (c == '@') {
      p = i + 1; std::string n = ident(); lit("="); Global *g = new Global; g->name = n; bool alias = false, ext = false;
      for (;;) { ws(); size_t sv = p; std::string w = word(); if (w == "global" || w == "constant") break; if (w == "alias" || w == "ifunc") { alias = true; break; } if (w == "extern_weak") ext = true; if (w == "external") g->nodef = true; if (w.empty()) { p = sv; if (t[p] == '(') { skipParen(); continue; } fail("global"); } if (p >= e) fail("global"); }
      { std::string ln = t.substr(p, e - p); size_t q = ln.rfind(", section \""); if (q != std::string::npos) { size_t q2 = ln.find('"', q + 11); g->section = ln.substr(q + 11, q2 - q - 11); } }
      if (alias) { type(); lit(","); type(); aliaspos[n] = p; delete g; }
      else { g->initpos = p; g->ext = ext; gl[n] = g; globals.push_back(g); }
    } else if (c == 'd' && (t.compare(i, 7, "define ") == 0 || t.compare(i, 8, "declare ") == 0)) {
      bool def = t[i + 2] == 'f'; size_t at = t.find('@', i); p = at + 1; std::string n = ident(); Function *fu = func(n); fu->defined = def; fu->pos = i; if (t.substr(i, at - i).find("extern_weak") != std::string::npos) fu->weak = true;
      if (def) { size_t cl = t.find("\n}\n", e); e = cl == std::string::npos ? t.size() : cl + 2; }
    }
    i = e + 1;
  }
}
void Module::initGlobals() {
  for (Global *g : globals) { p = g->initpos; g->ty = type(); g->initpos = p; uint64_t al = std::max<uint64_t>(16, g->ty->align); gbrk = (gbrk + al - 1) / al * al; g->addr = gbrk; gbrk += std::max<uint64_t>(g->ty->size, 1) + 32; }
  for (Global *g : globals) { if (g->ext || g->nodef) continue; if (g->section == "llvm.metadata") continue; p = g->initpos; std::vector<Val> v; if (!constant(g->ty, v)) fail("initializer of " + g->name); size_t i = 0; put(g->addr, g->ty, v, i); }
}
static bool isConstKw(const std::string &w) { static std::set<std::string> s = {"true", "false", "null", "undef", "poison", "zeroinitializer", "none", "splat", "getelementptr", "ptrtoint", "inttoptr", "bitcast", "trunc", "add", "sub", "mul", "xor", "asm", "addrspacecast", "c"}; return s.count(w); }
void Module::skipAttrs() { for (;;) { ws(); if (!isalpha((unsigned char)t[p]) || atType()) return; size_t sv = p; std::string w = word(); if (isConstKw(w)) { p = sv; return; } ws(); if (t[p] == '(') skipParen(); else if (w == "align" || w == "dereferenceable" || w == "cc") { if (isdigit((unsigned char)t[p])) integer(); } } }
static std::map<std::string, int> binops = {{"add", E_ADD}, {"sub", E_SUB}, {"mul", E_MUL}, {"udiv", E_UDIV}, {"sdiv", E_SDIV}, {"urem", E_UREM}, {"srem", E_SREM}, {"shl", E_SHL}, {"lshr", E_LSHR}, {"ashr", E_ASHR}, {"and", E_AND}, {"or", E_OR}, {"xor", E_XOR}};
struct FP { // function parser context
  Module &m; Function *f; std::unordered_map<std::string, int> slot; std::unordered_map<std::string, int> bidx;
  int get(const std::string &n, Type *ty) { auto it = slot.find(n); if (it != slot.end()) return it->second; int s = f->nslots; f->nslots += std::max(1, ty->slots); slot[n] = s; return s; }
  int operand(Type *ty) { m.ws(); if (m.t[m.p] == '%') { m.p++; return get(m.ident(), ty); } if (m.peek("asm")) m.fail("asm operand"); std::vector<Val> v; if (!m.constant(ty, v)) m.fail("operand"); int s = f->consts.size(); for (auto &x : v) f->consts.push_back(x); if (v.empty()) f->consts.push_back({0, nullptr}); return -1 - s; }
};
// multi-slot constants: operand o<0 at consts[-1-o]; slot k is consts[-1-o+k]
void Module::parseFunction(Function *f) {
  f->parsed = true; FP P{*this, f}; p = f->pos; word(); // define
  for (;;) { skipAttrs(); if (atType()) break; if (t[p] == '@') break; fail("define header"); }
  f->ret = type(); skipAttrs(); p = t.find('@', p) + 1; ident(); lit("("); int an = 0, un = 0; ws();
  while (t[p] != ')') { if (lit("...")) { f->vararg = true; ws(); continue; } Type *ty = type(); skipAttrs(); ws(); std::string n; if (t[p] == '%') { p++; n = ident(); if (isdigit((unsigned char)n[0])) un++; } else { n = std::to_string(un); un++; } an++; f->params.push_back(ty); f->pslot.push_back(P.get(n, ty)); ws(); if (t[p] == ',') p++; ws(); }
  p++;
  size_t endl = t.find('\n', p); p = endl + 1; // rest of header line
  size_t fend = t.find("\n}\n", p - 1); if (fend == std::string::npos) fend = t.size(); fend += 1;
  struct Phi { int blk; int dst; Type *ty; std::vector<std::pair<std::string, int>> in; }; std::vector<Phi> phis;
  bool first = true;
  while (true) {
    // line oriented
    while (p < fend && (t[p] == '\n')) p++;
    if (p >= fend || t[p] == '}') break;
    size_t le = t.find('\n', p); if (t[p] == ';') { p = le + 1; continue; }
    if (t[p] != ' ') { // label
      std::string n; if (t[p] == '"') { p++; size_t b = p; while (t[p] != '"') p++; n = t.substr(b, p - b); } else { size_t b = p; while (t[p] != ':') p++; n = t.substr(b, p - b); }
      P.bidx[n] = f->blocks.size(); f->blocks.push_back({n, {}}); first = false; p = le + 1; continue; }
    if (first) { f->blocks.push_back({std::to_string(un), {}}); P.bidx[std::to_string(un)] = 0; first = false; }
    Inst I; I.op = O_NOP; size_t ls = p; ws(); std::string dn; bool hasd = false;
    if (t[p] == '%') { p++; dn = ident(); lit("="); hasd = true; }
    std::string w = word();
    if (w == "tail" || w == "musttail" || w == "notail") w = word();
    auto setd = [&](Type *ty) { if (hasd) { I.dst = P.get(dn, ty); } I.ty = ty; };
    bool ph = false;
    try {
      if (w == "phi") { skipAttrs(); Type *ty = type(); Phi x; x.blk = f->blocks.size() - 1; x.ty = ty; setd(ty); x.dst = I.dst; do { lit("["); int o = P.operand(ty); lit(","); ws(); p++; std::string bn = ident(); lit("]"); x.in.push_back({bn, o}); ws(); } while (t[p] == ',' && ({ p++; ws(); t[p] == '['; })); phis.push_back(x); ph = true; }
      else if (binops.count(w)) { I.op = O_BIN; I.sub = binops[w]; while (!atType()) { word(); } Type *ty = type(); I.ops.push_back(P.operand(ty)); lit(","); I.ops.push_back(P.operand(ty)); setd(ty); if (ty->k == T_VEC) { I.bits = ty->el->bits; I.n = ty->n; } else { I.bits = ty->bits; if (ty->slots > 1) I.n = -ty->slots; } }
      else if (w == "icmp") { I.op = O_ICMP; std::string pr = word(); while (pr == "samesign") pr = word(); Type *ty = type(); I.ops.push_back(P.operand(ty)); lit(","); I.ops.push_back(P.operand(ty)); static std::map<std::string, int> pm = {{"eq", 0}, {"ne", 1}, {"ult", 2}, {"ule", 3}, {"ugt", 4}, {"uge", 5}, {"slt", 6}, {"sle", 7}, {"sgt", 8}, {"sge", 9}}; I.sub = pm.at(pr); Type *rt = intTy(1); if (ty->k == T_VEC) { I.bits = ty->el->bits; I.n = ty->n; rt = new Type; rt->k = T_VEC; rt->n = ty->n; rt->el = intTy(1); finish(rt); } else { I.bits = ty->bits; if (ty->slots > 1) I.n = -ty->slots; } setd(rt); }
      else if (w == "trunc" || w == "zext" || w == "sext" || w == "bitcast" || w == "ptrtoint" || w == "inttoptr" || w == "freeze" || w == "addrspacecast" || w == "ptrtoaddr") {
        while (!atType()) word(); Type *st = type(); I.ops.push_back(P.operand(st)); Type *dt = st; if (w != "freeze") { lit("to"); dt = type(); } setd(dt); I.ty2 = st;
        Type *se = st->k == T_VEC ? st->el : st, *de = dt->k == T_VEC ? dt->el : dt; I.bits = se->bits; I.bits2 = de->bits; I.n = st->k == T_VEC ? st->n : 1; if (st->k != T_VEC && (st->slots > 1 || dt->slots > 1)) I.n = -2;
        if (w == "freeze") { I.op = O_COPY; I.n = st->slots; } else if (w == "bitcast") { I.op = O_BITCAST; }
        else if (w == "trunc") I.op = OP_TRUNC; else if (w == "zext") I.op = O_ZEXT; else if (w == "sext") I.op = O_SEXT; else I.op = se->bits > de->bits ? OP_TRUNC : O_ZEXT; }
      else if (w == "getelementptr") { I.op = O_GEP; while (!atType()) { word(); ws(); if (t[p] == '(') skipParen(); } Type *bt = type(); lit(","); Type *pt = type(); if (pt->k == T_VEC) fail("vec gep"); I.ops.push_back(P.operand(pt)); setd(pt); bool fi = true; Type *cur = bt; ws();
        while (t[p] == ',') { size_t sv = p; p++; ws(); if (t[p] == '!') { p = sv; break; } Type *it = type(); int o = P.operand(it); bool isc = o < 0; int64_t cv = isc ? sxt(f->consts[-1 - o].c, it->bits) : 0;
          if (fi) { fi = false; if (isc) I.gepc += cv * bt->size; else I.steps.push_back({o, it->bits, bt->size}); }
          else if (cur->k == T_STRUCT) { I.gepc += cur->off[cv]; cur = cur->f[cv]; } else { cur = cur->el; if (isc) I.gepc += cv * cur->size; else I.steps.push_back({o, it->bits, cur->size}); } ws(); } }
      else if (w == "load") { I.op = O_LOAD; while (!atType()) word(); Type *ty = type(); lit(","); Type *pt = type(); I.ops.push_back(P.operand(pt)); setd(ty); }
      else if (w == "store") { I.op = O_STORE; while (!atType()) word(); Type *ty = type(); I.ops.push_back(P.operand(ty)); lit(","); Type *pt = type(); I.ops.push_back(P.operand(pt)); I.ty = ty; }
      else if (w == "alloca") { I.op = O_ALLOCA; while (!atType()) word(); Type *ty = type(); I.imm = ty->size; I.ops.push_back(-1 - (int)f->consts.size()); f->consts.push_back({1, nullptr}); uint64_t al = ty->align; ws(); while (t[p] == ',') { p++; ws(); if (lit("align")) al = integer(); else if (t[p] == '!') break; else if (atType()) { Type *nt = type(); I.ops[0] = P.operand(nt); } ws(); } I.bits = al; Type pt; pt.k = T_PTR; finish(&pt); setd(simple(T_PTR)); }
      else if (w == "select") { I.op = O_SELECT; while (!atType()) word(); Type *ct = type(); I.ops.push_back(P.operand(ct)); lit(","); Type *ty = type(); I.ops.push_back(P.operand(ty)); lit(","); type(); I.ops.push_back(P.operand(ty)); setd(ty); I.n = ct->k == T_VEC ? -1 : 1; I.ty2 = ct; }
      else if (w == "br") { if (lit("label")) { ws(); p++; I.op = O_BR; Edge e; e.name = ident(); I.edges.push_back(e); } else { I.op = O_CONDBR; Type *ct = type(); I.ops.push_back(P.operand(ct)); lit(","); lit("label"); ws(); p++; Edge e; e.name = ident(); I.edges.push_back(e); lit(","); lit("label"); ws(); p++; Edge e2; e2.name = ident(); I.edges.push_back(e2); } }
      else if (w == "switch") { I.op = O_SWITCH; Type *ty = type(); I.bits = ty->bits; I.n = ty->slots; I.ops.push_back(P.operand(ty)); lit(","); lit("label"); ws(); p++; Edge e; e.name = ident(); I.edges.push_back(e); lit("["); ws(); while (t[p] != ']') { type(); std::vector<Val> v; constant(ty, v); I.cases.push_back(v[0].c); if (v.size() > 1 && v[1].c) fail("wide switch"); lit(","); lit("label"); ws(); p++; Edge e3; e3.name = ident(); I.edges.push_back(e3); ws(); } p++; le = t.find('\n', p); }
      else if (w == "ret") { I.op = O_RET; Type *ty = type(); I.ty = ty; if (ty->slots) I.ops.push_back(P.operand(ty)); }
      else if (w == "unreachable") I.op = O_UNREACH;
      else if (w == "extractvalue") { Type *ty = type(); int o = P.operand(ty); int so = 0; ws(); Type *cur = ty; while (t[p] == ',') { size_t sv = p; p++; ws(); if (t[p] == '!') { p = sv; break; } uint64_t ix = integer(); if (cur->k == T_STRUCT) { so += cur->soff[ix]; cur = cur->f[ix]; } else { so += ix * cur->el->slots; cur = cur->el; } ws(); } I.op = O_EXTRACTV; I.ops.push_back(o); I.imm = so; I.n = cur->slots; setd(cur); }
      else if (w == "insertvalue") { Type *ty = type(); int o = P.operand(ty); lit(","); Type *vt = type(); int v = P.operand(vt); int so = 0; ws(); Type *cur = ty; while (t[p] == ',') { size_t sv = p; p++; ws(); if (t[p] == '!') { p = sv; break; } uint64_t ix = integer(); if (cur->k == T_STRUCT) { so += cur->soff[ix]; cur = cur->f[ix]; } else { so += ix * cur->el->slots; cur = cur->el; } ws(); } I.op = O_INSERTV; I.ops = {o, v}; I.imm = so; I.n = cur->slots; setd(ty); }
      else if (w == "extractelement") { Type *ty = type(); int o = P.operand(ty); lit(","); Type *it = type(); int ix = P.operand(it); I.op = O_EXTRACTE; I.ops = {o, ix}; I.n = ty->n; setd(ty->el); }
      else if (w == "insertelement") { Type *ty = type(); int o = P.operand(ty); lit(","); Type *et = type(); int v = P.operand(et); lit(","); Type *it = type(); int ix = P.operand(it); I.op = O_INSERTE; I.ops = {o, v, ix}; I.n = ty->n; setd(ty); }
      else if (w == "shufflevector") { Type *ty = type(); int a = P.operand(ty); lit(","); type(); int b = P.operand(ty); lit(","); Type *mt = type(); std::vector<Val> mv; constant(mt, mv); for (auto &v : mv) I.mask.push_back((int)(uint32_t)v.c); I.op = O_SHUFFLE; I.ops = {a, b}; I.imm = ty->n; Type *rt = new Type; rt->k = T_VEC; rt->n = mt->n; rt->el = ty->el; finish(rt); setd(rt); }
      else if (w == "cmpxchg") { while (!atType()) word(); Type *pt = type(); int q = P.operand(pt); lit(","); Type *vt = type(); int c1 = P.operand(vt); lit(","); type(); int c2 = P.operand(vt); I.op = O_CMPXCHG; I.ops = {q, c1, c2}; I.ty2 = vt; Type *rt = new Type; rt->k = T_STRUCT; rt->f = {vt, intTy(1)}; finish(rt); setd(rt); }
      else if (w == "atomicrmw") { std::string o = word(); if (o == "volatile") o = word(); Type *pt = type(); int q = P.operand(pt); lit(","); Type *vt = type(); int v = P.operand(vt); static std::map<std::string, int> rm = {{"xchg", 0}, {"add", 1}, {"sub", 2}, {"and", 3}, {"or", 4}, {"xor", 5}, {"umax", 6}, {"umin", 7}, {"max", 8}, {"min", 9}, {"nand", 10}}; I.op = O_RMW; I.sub = rm.at(o); I.ops = {q, v}; I.ty2 = vt; setd(vt); }
      else if (w == "fence") I.op = O_NOP;
      else if (w == "fadd" || w == "fsub" || w == "fmul" || w == "fdiv" || w == "frem") { I.op = O_FBIN; I.sub = w == "fadd" ? 0 : w == "fsub" ? 1 : w == "fmul" ? 2 : w == "fdiv" ? 3 : 4; while (!atType()) word(); Type *ty = type(); if (ty->k == T_VEC) fail("vec float"); I.ops.push_back(P.operand(ty)); lit(","); I.ops.push_back(P.operand(ty)); setd(ty); }
      else if (w == "fcmp") { std::string pr = word(); while (!atType()) pr = word(); I.op = O_FCMP; I.text = pr; Type *ty = type(); if (ty->k == T_VEC) fail("vec float"); I.ops.push_back(P.operand(ty)); lit(","); I.ops.push_back(P.operand(ty)); I.ty2 = ty; setd(intTy(1)); }
      else if (w == "fneg") { I.op = O_FNEG; while (!atType()) word(); Type *ty = type(); I.ops.push_back(P.operand(ty)); setd(ty); }
      else if (w == "sitofp" || w == "uitofp" || w == "fptosi" || w == "fptoui" || w == "fpext" || w == "fptrunc") { I.op = O_FCVT; I.text = w; while (!atType()) word(); Type *st = type(); I.ops.push_back(P.operand(st)); lit("to"); Type *dt = type(); I.ty2 = st; setd(dt); if (st->k == T_VEC || st->slots > 1 || dt->slots > 1) fail("vec fcvt"); }
      else if (w == "call" || w == "invoke") {
        I.op = O_CALL; skipAttrs(); Type *rt = type(); skipAttrs(); ws(); if (t[p] == '(') { skipParen(); ws(); }
        int cal = 0; bool direct = false; if (t[p] == '@') { p++; std::string n = ident(); direct = true; if (!fn.count(n)) { auto a = aliaspos.find(n); if (a == aliaspos.end()) fail("callee " + n); uint64_t ad = addrOf(n); I.callee = byAddr(ad); } else I.callee = func(n); } else if (peek("asm")) { fail("inline asm"); } else { cal = P.operand(simple(T_PTR)); }
        I.n = direct ? 1 : 0; lit("("); ws();
        while (t[p] != ')') { Type *ty = type(); size_t q0 = p; skipAttrs(); ws(); size_t bv = t.substr(q0, p - q0).find("byval("); if (bv != std::string::npos) { size_t pe = p; p = q0 + bv + 6; Type *bt = type(); p = pe; I.byval.resize(I.argtys.size()); I.byval.push_back(bt->size); } if (ty->k == T_OTHER) { // metadata
              int d = 0; while (!(d == 0 && (t[p] == ',' || t[p] == ')'))) { if (t[p] == '(') d++; if (t[p] == ')') d--; p++; } } else { I.argtys.push_back(ty); I.ops.push_back(P.operand(ty)); } ws(); if (t[p] == ',') p++; ws(); }
        p++; if (!direct) I.ops.push_back(cal); setd(rt);
        if (w == "invoke") fail("invoke");
        if (I.callee) { const std::string &cn = I.callee->name; for (const char *q : {"llvm.lifetime.", "llvm.experimental.noalias", "llvm.assume", "llvm.dbg.", "llvm.donothing", "llvm.x86.sse2.pause"}) if (cn.compare(0, strlen(q), q) == 0) I.op = O_NOP; } }
      else { I.op = O_UNSUP; I.text = t.substr(ls, le - ls); }
    } catch (ParseError &e) {
      p = ls; I = Inst(); I.op = O_UNSUP; I.text = e.m; ph = false; le = t.find('\n', ls);
      if (w == "switch") { size_t q = t.find("\n  ]", ls); le = t.find('\n', q + 1); }
    }
    if (!ph) f->blocks.back().ins.push_back(std::move(I));
    p = le + 1;
  }
  // resolve edges + phis
  for (size_t b = 0; b < f->blocks.size(); b++) for (auto &I : f->blocks[b].ins) for (auto &e : I.edges) {
    auto it = P.bidx.find(e.name); if (it == P.bidx.end()) throw ParseError{"no block " + e.name + " in " + f->name}; e.target = it->second;
    for (auto &x : phis) if (x.blk == e.target) { bool ok = false; for (auto &in : x.in) if (P.bidx.count(in.first) && P.bidx[in.first] == (int)b) { e.copies.push_back({x.dst, in.second, std::max(1, x.ty->slots)}); ok = true; break; } if (!ok) throw ParseError{"phi edge missing"}; }
  }
}
