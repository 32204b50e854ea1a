// Symbolic executor for LLVM IR: forks (with fork(2)) at every branch whose two sides Z3 finds feasible.
#include "ir.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <semaphore.h>
#include <time.h>
#include <math.h>
#include <fstream>
#include <sstream>
#include <iostream>
using std::string; using std::vector;

// ---------------------------------------------------------------- shared state across forked processes
struct Shared { sem_t sem; volatile uint64_t queries, sat, unsat, unknown, forks, paths, insts, aborted, asserts; volatile double solver_s; volatile uint64_t solver_us; uint8_t fnused[1 << 16]; uint64_t maxproc, nproc; volatile int stop; };
static Shared *SH;
static uint64_t now_us() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec * 1000000ull + ts.tv_nsec / 1000; }

// ---------------------------------------------------------------- options
static uint64_t optMaxInst = 60000000, optMaxPaths = 1000000, optDeadline = 0; static string optOut; static bool optHashConst = true; static bool optPC = false; static vector<int> optSplit; static uint64_t optTrace = 0; static int optTimeoutMs = 30000;

// ---------------------------------------------------------------- path state
static Z3_solver S; static vector<Expr *> PC; static std::unordered_map<Expr *, bool> known; static uint32_t epoch = 1; static uint64_t ninst = 0;
static bool holdsToken = true; // this process owns a scheduler token
static vector<string> trace;   // recorded events (spawned commands)

static void finish(const string &st, int code, const string &msg);

static bool allBound(Expr *e) { for (auto s : e->sup) if (!syms[s].bound) return false; return true; }
static void refreshModel() {
  Z3_model m = Z3_solver_get_model(Z, S); Z3_model_inc_ref(Z, m);
  for (auto &s : syms) { Z3_ast v; uint64_t u = 0; if (Z3_model_eval(Z, m, s.z, true, &v) && Z3_get_numeral_uint64(Z, v, &u)) s.model = u; else s.model = 0; }
  Z3_model_dec_ref(Z, m); epoch++;
}
static Z3_lbool check() {
  uint64_t t0 = now_us(); Z3_lbool r = Z3_solver_check(Z, S); uint64_t d = now_us() - t0;
  __sync_fetch_and_add(&SH->solver_us, d); __sync_fetch_and_add(&SH->queries, 1);
  if (r == Z3_L_TRUE) __sync_fetch_and_add(&SH->sat, 1); else if (r == Z3_L_FALSE) __sync_fetch_and_add(&SH->unsat, 1); else __sync_fetch_and_add(&SH->unknown, 1);
  return r;
}
static void addPC(Expr *c, bool v) {
  known[c] = v; PC.push_back(v ? c : mkNot1(c)); Z3_ast a = toZ3Bool(c); Z3_solver_assert(Z, S, v ? a : Z3_mk_not(Z, a));
  // equality with a constant binds a symbol
  if (v && c->op == E_EQ && c->a->op == E_SYM && c->b->op == E_CONST) { auto &s = syms[c->a->aux]; s.bound = true; s.boundv = c->b->c; epoch++; }
}
// After a fork decision, see whether small symbols became uniquely determined.
static void tryBind(Expr *c) {
  for (auto si : c->sup) if (!syms[si].bound) {
    auto &s = syms[si]; Z3_solver_push(Z, S); Z3_solver_assert(Z, S, Z3_mk_not(Z, Z3_mk_eq(Z, s.z, Z3_mk_unsigned_int64(Z, s.model, Z3_mk_bv_sort(Z, s.bits)))));
    Z3_lbool r = check(); Z3_solver_pop(Z, S, 1); if (r == Z3_L_FALSE) { s.bound = true; s.boundv = s.model; epoch++; }
  }
}
static void waitChild(pid_t pid) { int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { __sync_fetch_and_add(&SH->aborted, 1); } }
static vector<pid_t> kids;
static void reap(bool block) { for (size_t i = 0; i < kids.size();) { int st; pid_t r = waitpid(kids[i], &st, block ? 0 : WNOHANG); if (r == kids[i]) { if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) __sync_fetch_and_add(&SH->aborted, 1); kids[i] = kids.back(); kids.pop_back(); } else i++; } }
// returns true in child
static bool forkPath() {
  __sync_fetch_and_add(&SH->forks, 1);
  bool tok = sem_trywait(&SH->sem) == 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { finish("error", 0, "fork failed"); }
  if (pid == 0) { kids.clear(); holdsToken = tok; return true; }
  if (tok) { kids.push_back(pid); reap(false); } else waitChild(pid);
  return false;
}
// Decide a 1-bit condition under the path condition; may fork.
static bool decide(Expr *c) {
  if (c->op == E_CONST) return c->c;
  if (c->op == E_XOR && c->b->op == E_CONST && c->b->c == 1) return !decide(c->a);
  if (allBound(c)) { epoch++; return evalExpr(c, epoch, true); }
  auto it = known.find(c); if (it != known.end()) return it->second;
  bool d = evalExpr(c, ++epoch, false);
  Z3_ast a = toZ3Bool(c); Z3_solver_push(Z, S); Z3_solver_assert(Z, S, d ? Z3_mk_not(Z, a) : a); Z3_lbool r = check();
  if (r == Z3_L_UNDEF) finish("unknown", 0, "solver gave no answer");
  if (r == Z3_L_FALSE) { Z3_solver_pop(Z, S, 1); known[c] = d; return d; }
  vector<uint64_t> old; for (auto &s : syms) old.push_back(s.model);
  refreshModel(); vector<uint64_t> nw; for (auto &s : syms) nw.push_back(s.model);
  for (size_t i = 0; i < syms.size(); i++) syms[i].model = old[i]; epoch++;
  Z3_solver_pop(Z, S, 1);
  if (optDeadline && now_us() > optDeadline) finish("deadline", 0, "time budget exhausted");
  bool child = forkPath();
  if (child) { for (size_t i = 0; i < syms.size(); i++) syms[i].model = nw[i]; epoch++; addPC(c, !d); tryBind(c); return !d; }
  addPC(c, d); tryBind(c); return d;
}
static uint64_t concretize(Expr *e) {
  if (e->op == E_CONST) return e->c;
  for (;;) {
    if (allBound(e)) { epoch++; return evalExpr(e, epoch, true); }
    uint64_t v = evalExpr(e, ++epoch, false);
    if (decide(mkBin(E_EQ, e, mkConst(v, e->bits)))) return v;
  }
}
static uint64_t C(Val v) { return v.e ? concretize(v.e) : v.c; }

// ---------------------------------------------------------------- guest memory
static uint8_t *symflag; static std::unordered_map<uint64_t, Expr *> symbytes;
static uint64_t sp, spEnd, heap, heapEnd; static std::unordered_map<uint64_t, uint64_t> blkSize; static std::map<uint64_t, vector<uint64_t>> freeList;
// mem mode (`memcheck`): one validity bit per byte; blocks have red zones, freed blocks are not used again
static bool optMem = false; static uint8_t *validb; static uint64_t nlive = 0, nextFill = 0; static std::set<uint64_t> freed;
static void setValid(uint64_t a, uint64_t n, bool v) { for (uint64_t i = a - ARENA; i < a - ARENA + n; i++) if (v) validb[i >> 3] |= 1 << (i & 7); else validb[i >> 3] &= ~(1 << (i & 7)); }
static inline bool isValid(uint64_t a, uint64_t n) { for (uint64_t i = a - ARENA; i < a - ARENA + n; i++) if (!(validb[i >> 3] >> (i & 7) & 1)) return false; return true; }
static inline bool inArena(uint64_t a, uint64_t n) { return a >= ARENA + 4096 && a + n <= ARENA + ARENA_SZ && a + n >= a && (!optMem || isValid(a, n)); }
static inline void chk(uint64_t a, uint64_t n) { if (__builtin_expect(!inArena(a, n), 0)) { char b[96]; snprintf(b, 96, "bad memory access at %llx size %llu%s", (unsigned long long)a, (unsigned long long)n, a < 4096 ? " (null)" : ""); finish("segv", 0, b); } }
static inline bool flagged(uint64_t a, uint64_t n) { uint64_t i = (a - ARENA) >> 3, j = (a + n - 1 - ARENA) >> 3; if (i == j) return symflag[i]; if (j == i + 1) return symflag[i] | symflag[j]; for (; i <= j; i++) if (symflag[i]) return true; return false; }
static inline Val ldByte(uint64_t a) { if (symflag[(a - ARENA) >> 3]) { auto it = symbytes.find(a); if (it != symbytes.end()) return {0, it->second}; } return {*(uint8_t *)a, nullptr}; }
static inline void stByte(uint64_t a, Val v) { uint64_t i = (a - ARENA) >> 3; if (v.e && v.e->op == E_CONST) v = {v.e->c, nullptr}; if (v.e) { symflag[i] = 1; symbytes[a] = v.e; *(uint8_t *)a = 0; } else { if (symflag[i]) symbytes.erase(a); *(uint8_t *)a = (uint8_t)v.c; } }
static void clearSym(uint64_t a, uint64_t n) { if (!n) return; if (flagged(a, n)) for (uint64_t i = 0; i < n; i++) if (symflag[(a + i - ARENA) >> 3]) symbytes.erase(a + i); }
static Val loadInt(uint64_t a, int bits) {
  int n = (bits + 7) / 8; chk(a, n);
  if (__builtin_expect(!flagged(a, n), 1)) { uint64_t v = 0; switch (n) { case 1: v = *(uint8_t *)a; break; case 2: v = *(uint16_t *)a; break; case 4: v = *(uint32_t *)a; break; case 8: v = *(uint64_t *)a; break; default: memcpy(&v, (void *)a, n); } return {v & maskb(bits), nullptr}; }
  Expr *e = nullptr; bool any = false;
  for (int i = 0; i < n; i++) { Val b = ldByte(a + i); if (b.e) any = true; Expr *x = b.e ? b.e : mkConst(b.c, 8); e = e ? mkConcat(x, e) : x; }
  if (!any) { return {e->c & maskb(bits), nullptr}; }
  if (bits < n * 8) e = mkExtract(e, 0, bits);
  if (e->op == E_CONST) return {e->c, nullptr};
  return {0, e};
}
static void storeInt(uint64_t a, int bits, Val v) {
  int n = (bits + 7) / 8; chk(a, n);
  if (v.e && v.e->op == E_CONST) v = {v.e->c, nullptr};
  if (__builtin_expect(!v.e, 1)) { if (__builtin_expect(flagged(a, n), 0)) clearSym(a, n); uint64_t c = v.c & maskb(bits); switch (n) { case 1: *(uint8_t *)a = c; break; case 2: *(uint16_t *)a = c; break; case 4: *(uint32_t *)a = c; break; case 8: *(uint64_t *)a = c; break; default: memcpy((void *)a, &c, n); } return; }
  Expr *e = v.e; if (bits < n * 8) e = mkExt(E_ZEXT, e, n * 8);
  for (int i = 0; i < n; i++) { Expr *x = mkExtract(e, i * 8, 8); stByte(a + i, {0, x}); }
}
static void loadTy(uint64_t a, Type *ty, Val *out) {
  switch (ty->k) {
  case T_INT: if (ty->slots > 1) { out[0] = loadInt(a, 64); out[1] = loadInt(a + 8, std::min(64, ty->bits - 64)); return; }
  case T_PTR: case T_FLOAT: case T_DOUBLE: out[0] = loadInt(a, ty->bits); return;
  case T_ARR: for (uint64_t i = 0; i < ty->n; i++) loadTy(a + i * ty->el->size, ty->el, out + i * ty->el->slots); return;
  case T_VEC: if (ty->el->k == T_INT && ty->el->bits < 8) { Val v = loadInt(a, ty->n); for (uint64_t i = 0; i < ty->n; i++) out[i] = v.e ? Val{0, mkExtract(v.e, i, 1)} : Val{(v.c >> i) & 1, nullptr}; return; }
    for (uint64_t i = 0; i < ty->n; i++) loadTy(a + i * ty->el->size, ty->el, out + i * ty->el->slots); return;
  case T_STRUCT: for (size_t i = 0; i < ty->f.size(); i++) loadTy(a + ty->off[i], ty->f[i], out + ty->soff[i]); return;
  default: return; }
}
static void storeTy(uint64_t a, Type *ty, const Val *v) {
  switch (ty->k) {
  case T_INT: if (ty->slots > 1) { storeInt(a, 64, v[0]); storeInt(a + 8, std::min(64, ty->bits - 64), v[1]); return; }
  case T_PTR: case T_FLOAT: case T_DOUBLE: storeInt(a, ty->bits, v[0]); return;
  case T_ARR: case T_VEC: for (uint64_t i = 0; i < ty->n; i++) storeTy(a + i * ty->el->size, ty->el, v + i * ty->el->slots); return;
  case T_STRUCT: for (size_t i = 0; i < ty->f.size(); i++) storeTy(a + ty->off[i], ty->f[i], v + ty->soff[i]); return;
  default: return; }
}
static void memMove(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return; chk(d, n); chk(s, n);
  bool fs = flagged(s, n), fd = flagged(d, n);
  if (!fs && !fd) { memmove((void *)d, (void *)s, n); return; }
  vector<Val> tmp(n); for (uint64_t i = 0; i < n; i++) tmp[i] = ldByte(s + i);
  for (uint64_t i = 0; i < n; i++) stByte(d + i, tmp[i]);
}
static uint64_t galloc(uint64_t n, uint64_t al = 16) {
  if (optMem) { heap = (heap + 63) / 32 * 32; if (n > (1 << 28) || heap + n > heapEnd) finish("oom", 0, "guest heap exhausted"); uint64_t a = heap; heap += n ? n : 1; blkSize[a] = n; setValid(a, n, true); memset((void *)a, 0xbe, n); nlive++; return a; }
  if (n == 0) n = 1; uint64_t cls = (n + 15) & ~15ull; if (cls > 4096) cls = (cls + 4095) & ~4095ull;
  if (al <= 16) { auto it = freeList.find(cls); if (it != freeList.end() && !it->second.empty()) { uint64_t a = it->second.back(); it->second.pop_back(); blkSize[a] = n; clearSym(a, cls); return a; } }
  heap = (heap + al - 1) / al * al; if (heap + cls > heapEnd) finish("oom", 0, "guest heap exhausted"); uint64_t a = heap; heap += cls; blkSize[a] = n; return a;
}
static void gfree(uint64_t a) { if (!a) return; auto it = blkSize.find(a); if (it == blkSize.end()) finish("segv", 0, freed.count(a) ? "double free" : "bad free"); if (optMem) { setValid(a, it->second, false); freed.insert(a); blkSize.erase(it); nlive--; return; } uint64_t cls = (it->second + 15) & ~15ull; if (it->second == 0) cls = 16; if (cls > 4096) cls = (cls + 4095) & ~4095ull; blkSize.erase(it); freeList[cls].push_back(a); }
static string cstr(uint64_t a) { string s; for (;;) { chk(a, 1); Val v = ldByte(a); uint8_t c = v.e ? concretize(v.e) : v.c; if (v.e) stByte(a, {c, nullptr}); if (!c) return s; s += (char)c; a++; } }

// ---------------------------------------------------------------- virtual file system
struct VFile { vector<Val> data; bool written = false; };
static std::map<string, VFile> files; static std::set<string> dirs; static string cwd = "/w"; static std::map<string, string> envv; static vector<string> args;
struct FD { int kind = 0; string path; uint64_t pos = 0; int flags = 0; vector<string> ents; size_t ei = 0; vector<Val> *data = nullptr; }; // kind 1 file 2 dir 3 std 4 pipe
static std::map<int, FD> fds; static int nextfd = 3; static vector<Val> outb[3]; static uint64_t errnoAddr; static int nspawn = 0;
struct Fault { string call; int sym; }; static std::map<string, vector<int>> faults; static std::map<string, size_t> faultPos; // injected failures: per call kind a queue of symbols
static std::map<string, int> statusSyms; static std::map<int, int> dupTo; // pipe write end -> descriptor in the child
static string norm(const string &p0) { string p = p0[0] == '/' ? p0 : cwd + "/" + p0; vector<string> parts; std::stringstream ss(p); string x; while (std::getline(ss, x, '/')) { if (x.empty() || x == ".") continue; if (x == "..") { if (!parts.empty()) parts.pop_back(); } else parts.push_back(x); } string r; for (auto &q : parts) r += "/" + q; return r.empty() ? "/" : r; }
// every path prefix must exist (a/../b needs a)
static bool walk(const string &p0) { string p = p0[0] == '/' ? p0 : cwd + "/" + p0; string cur; std::stringstream ss(p); string x; vector<string> comps; while (std::getline(ss, x, '/')) if (!x.empty()) comps.push_back(x); string acc = ""; for (size_t i = 0; i + 1 < comps.size(); i++) { acc += "/" + comps[i]; string n = norm(acc); if (!dirs.count(n)) return false; } return true; }
static int64_t err(int e) { *(int *)errnoAddr = e; return -1; }
static bool faulty(const string &call) { auto it = faults.find(call); if (it == faults.end()) return false; size_t &i = faultPos[call]; if (i >= it->second.size()) return false; int s = it->second[i++]; return decide(mkBin(E_EQ, mkSym(s), mkConst(1, syms[s].bits))); }
static void writeStat(uint64_t a, bool dir, uint64_t size) { chk(a, 144); clearSym(a, 144); memset((void *)a, 0, 144); struct stat st; memset(&st, 0, sizeof st); st.st_mode = dir ? S_IFDIR | 0755 : S_IFREG | 0644; st.st_size = size; st.st_nlink = 1; memcpy((void *)a, &st, sizeof st); }
static int64_t doWrite(int fd, uint64_t buf, uint64_t n) {
  auto it = fds.find(fd); if (it == fds.end()) return err(EBADF); FD &f = it->second; chk(buf, n ? n : 1);
  if (f.kind == 3) { for (uint64_t i = 0; i < n; i++) outb[fd == 2 ? 2 : 1].push_back(ldByte(buf + i)); return n; }
  if (f.kind != 1) return err(EBADF);
  if (faulty("write")) return err(ENOSPC);
  if (n > 1 && faulty("short")) n /= 2;
  VFile &vf = files[f.path]; vf.written = true; if (f.flags & O_APPEND) f.pos = vf.data.size(); for (uint64_t i = 0; i < n; i++) { Val v = ldByte(buf + i); if (f.pos < vf.data.size()) vf.data[f.pos] = v; else vf.data.push_back(v); f.pos++; } return n;
}
static int64_t doRead(int fd, uint64_t buf, uint64_t n) {
  auto it = fds.find(fd); if (it == fds.end()) return err(EBADF); FD &f = it->second; if (f.kind == 4) return 0; if (f.kind == 3) return 0; if (f.kind == 2) return err(EISDIR);
  if (faulty("read")) return err(EIO);
  VFile &vf = files[f.path]; uint64_t k = 0; if (n) chk(buf, n); while (k < n && f.pos < vf.data.size()) { stByte(buf + k, vf.data[f.pos]); k++; f.pos++; } return k;
}
static std::map<string, int> truncs; static std::map<string, std::pair<int, int>> muts;
static int64_t doOpen(const string &path, int flags) {
  string p = norm(path); if (path.empty() || (p != "/dev/null" && !walk(path))) return err(ENOENT);
  { auto t = muts.find(p); if (t != muts.end() && files.count(p)) { uint64_t i = concretize(mkSym(t->second.first)); files[p].data[i] = {0, mkSym(t->second.second)}; muts.erase(p); } }
  { auto t = truncs.find(p); if (t != truncs.end() && files.count(p)) { uint64_t L = concretize(mkSym(t->second)); auto &d = files[p].data; if (d.size() > L) d.resize(L); truncs.erase(p); } }
  if (flags & O_CREAT) { if (faulty("create")) return err(EACCES); } else if (faulty("open")) return err(EACCES);
  if (p == "/dev/null") { int fd = nextfd++; FD f; f.kind = 4; fds[fd] = f; return fd; }
  if (dirs.count(p)) { if (flags & (O_WRONLY | O_RDWR)) return err(EISDIR); int fd = nextfd++; FD f; f.kind = 2; f.path = p; fds[fd] = f; return fd; }
  if (!files.count(p)) { if (!(flags & O_CREAT)) return err(ENOENT); files[p]; files[p].written = true; }
  else if (flags & O_TRUNC) { files[p].data.clear(); files[p].written = true; }
  int fd = nextfd++; FD f; f.kind = 1; f.path = p; f.flags = flags; fds[fd] = f; return fd;
}

// ---------------------------------------------------------------- results
static string jesc(const string &s) { string r; for (unsigned char c : s) { char b[8]; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static string bytesJson(vector<Val> &v) {
  string h, sy; char b[4]; bool first = true; epoch++;
  for (size_t i = 0; i < v.size(); i++) { uint64_t c = v[i].e ? evalExpr(v[i].e, epoch, false) : v[i].c; snprintf(b, 4, "%02x", (unsigned)(c & 255)); h += b;
    if (v[i].e && !allBound(v[i].e)) { sy += (first ? "\"" : ",\"") + std::to_string(i) + "\":\"" + jesc(Z3_ast_to_string(Z, Z3_simplify(Z, toZ3(v[i].e)))) + "\""; first = false; } }
  return "{\"hex\":\"" + h + "\",\"sym\":{" + sy + "}}";
}
static string where();
static void finish(const string &st0, int code, const string &msg0) {
  string st = st0, msg = msg0; if (st != "exit" && st != "exec") msg += where();
  if (st == "exit" || st == "abort") for (int s : optSplit) { static bool in = false; (void)in; concretize(mkSym(s)); }
  string j = "{\"st\":\"" + st + "\",\"code\":" + std::to_string(code) + ",\"msg\":\"" + jesc(msg) + "\",\"ninst\":" + std::to_string(ninst) + ",\"model\":{"; bool f = true;
  // the stored model satisfies the path condition
  for (auto &s : syms) { j += (f ? "\"" : ",\"") + s.name + "\":" + std::to_string(s.bound ? s.boundv : s.model); f = false; }
  j += "},\"free\":["; f = true; for (auto &s : syms) if (!s.bound) { j += (f ? "\"" : ",\"") + s.name + "\""; f = false; }
  j += "],\"out\":" + bytesJson(outb[1]) + ",\"err\":" + bytesJson(outb[2]) + ",\"files\":{"; f = true;
  for (auto &kv : files) if (kv.second.written) { j += (f ? "\"" : ",\"") + jesc(kv.first) + "\":" + bytesJson(kv.second.data); f = false; }
  j += "},\"events\":["; f = true; for (auto &t : trace) { j += (f ? "\"" : ",\"") + jesc(t) + "\""; f = false; } j += "]";
  if (optPC) { j += ",\"pc\":["; f = true; for (auto e : PC) { j += (f ? "\"" : ",\"") + jesc(Z3_ast_to_string(Z, toZ3Bool(e))) + "\""; f = false; } j += "]"; }
  j += "}\n";
  int fd = open(optOut.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644); flock(fd, LOCK_EX); size_t o = 0; while (o < j.size()) { ssize_t w = write(fd, j.data() + o, j.size() - o); if (w <= 0) break; o += w; } flock(fd, LOCK_UN); close(fd);
  __sync_fetch_and_add(&SH->paths, 1); __sync_fetch_and_add(&SH->insts, ninst);
  // release our token before waiting for children that run concurrently
  if (holdsToken) { sem_post(&SH->sem); holdsToken = false; }
  reap(true);
  _exit(0);
}

// ---------------------------------------------------------------- interpreter
struct Frame { Function *f; int base; int bb; size_t ip; uint64_t spSave; int retDst; int retN; vector<Val> va; vector<int> vaBits; };
static Val *stackV; static int stackTop = 0; static const int STACKV = 1 << 22; static vector<Frame> frames;
static string where() { string r; for (size_t i = frames.size(); i-- > 0 && i + 6 > frames.size();) r += (r.empty() ? " in " : " < ") + frames[i].f->name + (r.empty() ? ":" + frames[i].f->blocks[frames[i].bb].name + ":" + std::to_string(frames[i].ip) : ""); return r; }
// hash of a string key: a constant, or a symbolic number for the keys named by `hashsym` (so that every iteration order is explored)
static std::map<string, int> hashSyms;
static Val hashOf(const string &fn, vector<Val> &av) {
  Val k = {0x1234567812345678ull, nullptr}; if (hashSyms.empty()) return k;
  uint64_t p, n; if (fn.find("hash_oneReE") != string::npos) { p = C(av[1]); n = C(av[2]); } else if (fn.find("hash_oneRReE") != string::npos) { uint64_t a = C(av[1]); p = C(loadInt(a, 64)); n = C(loadInt(a + 8, 64)); } else if (fn.find("6String") != string::npos) { uint64_t a = C(av[1]); p = C(loadInt(a + 8, 64)); n = C(loadInt(a + 16, 64)); } else return k;
  string s; for (uint64_t i = 0; i < n; i++) s += (char)C(ldByte(p + i));
  for (auto &h : hashSyms) if (s.find(h.first) != string::npos) return {0, mkExt(E_ZEXT, mkSym(h.second), 64)};
  return k;
}
#define OPV(o, k) ((o) >= 0 ? V[(o) + (k)] : K[-1 - (o) + (k)])
static inline Expr *X(Val v, int bits) { return v.e ? v.e : mkConst(v.c, bits); }
static inline Val W(Expr *e) { if (e->op == E_CONST) return {e->c, nullptr}; return {0, e}; }
static Val binop(int op, int bits, Val a, Val b) { if (!a.e && !b.e) return {concBin((EOp)op, a.c, b.c, bits), nullptr}; return W(mkBin((EOp)op, X(a, bits), X(b, bits))); }
static Val icmp(int pr, int bits, Val a, Val b) {
  if (!a.e && !b.e) { uint64_t x = a.c, y = b.c; switch (pr) { case 0: return {x == y, 0}; case 1: return {x != y, 0}; case 2: return {x < y, 0}; case 3: return {x <= y, 0}; case 4: return {x > y, 0}; case 5: return {x >= y, 0}; } int64_t s = sxt(x, bits), t = sxt(y, bits); switch (pr) { case 6: return {s < t, 0}; case 7: return {s <= t, 0}; case 8: return {s > t, 0}; case 9: return {s >= t, 0}; } }
  Expr *x = X(a, bits), *y = X(b, bits), *r = nullptr;
  switch (pr) { case 0: r = mkBin(E_EQ, x, y); break; case 1: r = mkNot1(mkBin(E_EQ, x, y)); break; case 2: r = mkBin(E_ULT, x, y); break; case 3: r = mkBin(E_ULE, x, y); break; case 4: r = mkBin(E_ULT, y, x); break; case 5: r = mkBin(E_ULE, y, x); break; case 6: r = mkBin(E_SLT, x, y); break; case 7: r = mkBin(E_SLE, x, y); break; case 8: r = mkBin(E_SLT, y, x); break; case 9: r = mkBin(E_SLE, y, x); break; }
  return W(r);
}
static Val iteV(Expr *c, Val a, Val b, int bits) { return W(mkIte(c, X(a, bits), X(b, bits))); }
static int slotBits(Type *ty, int k) { switch (ty->k) { case T_ARR: case T_VEC: return slotBits(ty->el, k % std::max(1, ty->el->slots)); case T_STRUCT: for (size_t i = ty->f.size(); i-- > 0;) if (k >= ty->soff[i] && ty->f[i]->slots) return slotBits(ty->f[i], k - ty->soff[i]); return 64; case T_INT: return ty->slots > 1 ? 64 : ty->bits; default: return ty->bits; } }

typedef std::function<Val(vector<Val> &, Frame &)> NativeFn;
static std::unordered_map<string, NativeFn> natives;
static bool intrinsic(const string &n, Inst &I, Val *V, Val *K, vector<Val> &a, Val *res); // returns false if unknown
static uint64_t exitAddr;
static void enter(Function *f, const vector<Val> &a, const vector<Type *> &tys, int retDst, int retN) {
  if (!f->parsed) { try { M.parseFunction(f); } catch (ParseError &e) { finish("unsupported", 0, "parse " + f->name + ": " + e.m); } if (f->name.find("hash_one") != string::npos && f->name.find("BuildHasher") != string::npos) f->hashstub = 1; }
  SH->fnused[f->idx & 0xffff] = 1;
  Frame fr; fr.f = f; fr.base = stackTop; fr.bb = 0; fr.ip = 0; fr.spSave = sp; fr.retDst = retDst; fr.retN = retN;
  if (stackTop + f->nslots + 16 > STACKV || frames.size() > 20000) finish("stack", 0, "guest stack exhausted");
  stackTop += f->nslots;
  size_t ai = 0; for (size_t i = 0; i < f->params.size(); i++) for (int k = 0; k < f->params[i]->slots; k++) stackV[fr.base + f->pslot[i] + k] = a[ai++];
  if (ai < a.size()) { size_t k = 0; for (size_t i = 0; i < tys.size() && ai < a.size(); i++) for (int j = 0; j < tys[i]->slots; j++, k++) if (k >= ai) { fr.va.push_back(a[k]); fr.vaBits.push_back(tys[i]->k == T_INT ? std::min(64, tys[i]->bits) : 64); } }
  frames.push_back(std::move(fr));
}
static string backtrace() { string s; for (size_t i = frames.size(); i-- > 0 && frames.size() - i < 12;) s += frames[i].f->name + " < "; return s; }
static unsigned __int128 W128(const Val *v) { return ((unsigned __int128)C(v[1]) << 64) | C(v[0]); }
static double asD(Val v, Type *t) { uint64_t c = C(v); if (t->k == T_FLOAT) { float f; uint32_t u = c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static Val fromD(double d, Type *t) { if (t->k == T_FLOAT) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return {u, nullptr}; } uint64_t u; memcpy(&u, &d, 8); return {u, nullptr}; }

static void run() {
  vector<Val> tmp;
  for (;;) {
    Frame &F = frames.back(); Val *V = stackV + F.base; Val *K = F.f->consts.data();
    Inst &I = F.f->blocks[F.bb].ins[F.ip++];
    if (optTrace && ninst + optTrace > optMaxInst && F.ip == 1) fprintf(stderr, "%s %s\n", F.f->name.c_str(), F.f->blocks[F.bb].name.c_str());
    if (++ninst > optMaxInst) finish("cap", 0, backtrace());
    if ((ninst & 0xfffff) == 0 && optDeadline && now_us() > optDeadline) finish("deadline", 0, "time budget exhausted");
    auto jump = [&](Edge &e) { if (!e.copies.empty()) { if (e.copies.size() == 1) { auto &c = e.copies[0]; for (int k = 0; k < c.n; k++) V[c.dst + k] = OPV(c.src, k); } else { tmp.clear(); for (auto &c : e.copies) for (int k = 0; k < c.n; k++) tmp.push_back(OPV(c.src, k)); size_t j = 0; for (auto &c : e.copies) for (int k = 0; k < c.n; k++) V[c.dst + k] = tmp[j++]; } } F.bb = e.target; F.ip = 0; };
    switch (I.op) {
    case O_NOP: break;
    case O_BIN:
      if (I.n == 1) { Val a = OPV(I.ops[0], 0), b = OPV(I.ops[1], 0); V[I.dst] = binop(I.sub, I.bits, a, b); }
      else if (I.n > 1) for (int k = 0; k < I.n; k++) { Val r = binop(I.sub, I.bits, OPV(I.ops[0], k), OPV(I.ops[1], k)); tmp.resize(I.n); tmp[k] = r; if (k == I.n - 1) for (int q = 0; q < I.n; q++) V[I.dst + q] = tmp[q]; }
      else { Val a[2] = {OPV(I.ops[0], 0), OPV(I.ops[0], 1)}, b[2] = {OPV(I.ops[1], 0), OPV(I.ops[1], 1)}; unsigned __int128 x = W128(a), y = W128(b), r = 0; if (I.n != -2) finish("unsupported", 0, "wide int"); if ((I.sub == E_SDIV || I.sub == E_SREM)) finish("unsupported", 0, "i128 sdiv");
        switch (I.sub) { case E_ADD: r = x + y; break; case E_SUB: r = x - y; break; case E_MUL: r = x * y; break; case E_UDIV: r = x / y; break; case E_UREM: r = x % y; break; case E_SHL: r = y >= 128 ? 0 : x << (int)y; break; case E_LSHR: r = y >= 128 ? 0 : x >> (int)y; break; case E_ASHR: r = (unsigned __int128)((__int128)x >> (int)y); break; case E_AND: r = x & y; break; case E_OR: r = x | y; break; case E_XOR: r = x ^ y; break; }
        if (I.bits < 128) r &= (((unsigned __int128)1 << I.bits) - 1); V[I.dst] = {(uint64_t)r, 0}; V[I.dst + 1] = {(uint64_t)(r >> 64), 0}; }
      break;
    case O_ICMP:
      if (I.n == 1) V[I.dst] = icmp(I.sub, I.bits, OPV(I.ops[0], 0), OPV(I.ops[1], 0));
      else if (I.n > 1) { tmp.resize(I.n); for (int k = 0; k < I.n; k++) tmp[k] = icmp(I.sub, I.bits, OPV(I.ops[0], k), OPV(I.ops[1], k)); for (int q = 0; q < I.n; q++) V[I.dst + q] = tmp[q]; }
      else { Val a[2] = {OPV(I.ops[0], 0), OPV(I.ops[0], 1)}, b[2] = {OPV(I.ops[1], 0), OPV(I.ops[1], 1)}; unsigned __int128 x = W128(a), y = W128(b); bool r = false; __int128 s = x, t = y; switch (I.sub) { case 0: r = x == y; break; case 1: r = x != y; break; case 2: r = x < y; break; case 3: r = x <= y; break; case 4: r = x > y; break; case 5: r = x >= y; break; case 6: r = s < t; break; case 7: r = s <= t; break; case 8: r = s > t; break; case 9: r = s >= t; break; } V[I.dst] = {r, 0}; }
      break;
    case OP_TRUNC: case O_ZEXT: case O_SEXT:
      if (I.n == -2) { Type *st = I.ty2; unsigned __int128 x; if (st->slots > 1) { Val a[2] = {OPV(I.ops[0], 0), OPV(I.ops[0], 1)}; if (I.op == OP_TRUNC && I.ty->slots == 1) { Val v = a[0]; if (I.bits2 < 64) { if (v.e) v = W(mkExtract(v.e, 0, I.bits2)); else v.c &= maskb(I.bits2); } V[I.dst] = v; break; } x = W128(a); } else { Val v = OPV(I.ops[0], 0); if (I.op == O_ZEXT) { if (v.e && st->bits < 64) v = W(mkExt(E_ZEXT, v.e, 64)); V[I.dst] = v; V[I.dst + 1] = {0, 0}; break; } x = (unsigned __int128)(__int128)sxt(C(v), st->bits); } V[I.dst] = {(uint64_t)x, 0}; if (I.ty->slots > 1) V[I.dst + 1] = {(uint64_t)(x >> 64), 0}; break; }
      for (int k = 0; k < I.n; k++) { Val v = OPV(I.ops[0], k); Val r; if (!v.e) { if (I.op == OP_TRUNC) r = {v.c & maskb(I.bits2), 0}; else if (I.op == O_ZEXT) r = {v.c, 0}; else r = {(uint64_t)sxt(v.c, I.bits) & maskb(I.bits2), 0}; } else r = W(I.op == OP_TRUNC ? mkExtract(v.e, 0, I.bits2) : mkExt(I.op == O_ZEXT ? E_ZEXT : E_SEXT, v.e, I.bits2)); V[I.dst + k] = r; }
      break;
    case O_COPY: for (int k = 0; k < I.n; k++) V[I.dst + k] = OPV(I.ops[0], k); break;
    case O_BITCAST: { // via bit string
      Type *st = I.ty2, *dt = I.ty; if (st->slots == dt->slots && st->k != T_VEC && dt->k != T_VEC) { for (int k = 0; k < st->slots; k++) V[I.dst + k] = OPV(I.ops[0], k); break; }
      int sn = st->slots, sb = slotBits(st, 0), dn = dt->slots, db = slotBits(dt, 0); if (sb * sn != db * dn) finish("unsupported", 0, "bitcast sizes");
      vector<Val> src(sn); for (int k = 0; k < sn; k++) src[k] = OPV(I.ops[0], k);
      if (sb == db) { for (int k = 0; k < sn; k++) V[I.dst + k] = src[k]; break; }
      if (sb < db) { int r = db / sb; for (int j = 0; j < dn; j++) { bool sy = false; for (int k = 0; k < r; k++) if (src[j * r + k].e) sy = true; if (!sy) { uint64_t x = 0; for (int k = 0; k < r; k++) x |= (src[j * r + k].c & maskb(sb)) << (k * sb); V[I.dst + j] = {x, 0}; } else { Expr *e = X(src[j * r], sb); for (int k = 1; k < r; k++) e = mkConcat(X(src[j * r + k], sb), e); V[I.dst + j] = W(e); } } }
      else { int r = sb / db; for (int j = 0; j < sn; j++) for (int k = 0; k < r; k++) V[I.dst + j * r + k] = src[j].e ? W(mkExtract(src[j].e, k * db, db)) : Val{(src[j].c >> (k * db)) & maskb(db), 0}; }
      break; }
    case O_GEP: { Val b = OPV(I.ops[0], 0); Val r = b; if (!r.e) r.c += I.gepc; else r = W(mkBin(E_ADD, r.e, mkConst(I.gepc, 64)));
      for (auto &s : I.steps) { Val x = OPV(s.op, 0); if (!x.e && !r.e) r.c += (uint64_t)(sxt(x.c, s.bits) * (int64_t)s.scale); else { Expr *e = X(x, s.bits); if (s.bits < 64) e = mkExt(E_SEXT, e, 64); e = mkBin(E_MUL, e, mkConst(s.scale, 64)); r = W(mkBin(E_ADD, X(r, 64), e)); } } V[I.dst] = r; break; }
    case O_LOAD: { Val a = OPV(I.ops[0], 0);
      if (a.e && a.e->op != E_CONST && !allBound(a.e) && I.ty->slots == 1) { // table lookup at a symbolic address: enumerate feasible addresses, build an if-then-else
        vector<std::pair<uint64_t, Val>> opts; Z3_solver_push(Z, S); bool full = false; vector<uint64_t> old; for (auto &s : syms) old.push_back(s.model);
        for (int k = 0; k < 300; k++) { Z3_lbool r = check(); if (r == Z3_L_FALSE) { full = true; break; } if (r == Z3_L_UNDEF) finish("unknown", 0, "address"); refreshModel(); uint64_t v = evalExpr(a.e, epoch, false); Z3_solver_assert(Z, S, Z3_mk_not(Z, toZ3Bool(mkBin(E_EQ, a.e, mkConst(v, 64))))); opts.push_back({v, {0, 0}}); }
        Z3_solver_pop(Z, S, 1); for (size_t i = 0; i < syms.size(); i++) syms[i].model = old[i]; epoch++;
        bool ok = full; if (ok) for (auto &o : opts) if (!inArena(o.first, I.ty->size)) ok = false;
        if (ok && I.ty->k == T_PTR) ok = false; // fork on pointers
        if (ok) { Expr *r = nullptr; for (auto &o : opts) { Val x = loadInt(o.first, I.ty->bits); Expr *xe = X(x, I.ty->bits); r = r ? mkIte(mkBin(E_EQ, a.e, mkConst(o.first, 64)), xe, r) : xe; } V[I.dst] = W(r); break; }
      }
      uint64_t ad = C(a);
      if (I.ty->k == T_INT && I.ty->slots == 1) V[I.dst] = loadInt(ad, I.ty->bits); else if (I.ty->k == T_PTR) V[I.dst] = loadInt(ad, 64); else loadTy(ad, I.ty, V + I.dst); break; }
    case O_STORE: { uint64_t ad = C(OPV(I.ops[1], 0)); if ((I.ty->k == T_INT && I.ty->slots == 1) || I.ty->k == T_PTR) { storeInt(ad, I.ty->bits, OPV(I.ops[0], 0)); break; } vector<Val> v(std::max(1, I.ty->slots)); for (int k = 0; k < I.ty->slots; k++) v[k] = OPV(I.ops[0], k); storeTy(ad, I.ty, v.data()); break; }
    case O_ALLOCA: { uint64_t n = I.imm * C(OPV(I.ops[0], 0)); uint64_t al = std::max<uint64_t>(I.bits, 8); sp = (sp - n) / al * al; if (optMem) sp -= 32; if (sp < spEnd) finish("stack", 0, "guest stack exhausted"); if (n) clearSym(sp, n); if (optMem && n) { setValid(sp, n, true); memset((void *)sp, 0xbe, n); } V[I.dst] = {sp, 0}; break; }
    case O_SELECT: {
      int n = I.ty->slots; if (I.n == -1) { tmp.resize(n); for (int k = 0; k < n; k++) { Val c = OPV(I.ops[0], k); Val a = OPV(I.ops[1], k), b = OPV(I.ops[2], k); tmp[k] = c.e ? iteV(c.e, a, b, slotBits(I.ty, k)) : (c.c ? a : b); } for (int k = 0; k < n; k++) V[I.dst + k] = tmp[k]; break; }
      Val c = OPV(I.ops[0], 0); if (c.e && I.ty->k == T_INT && n == 1) { V[I.dst] = iteV(c.e, OPV(I.ops[1], 0), OPV(I.ops[2], 0), I.ty->bits); break; }
      bool d = c.e ? decide(c.e) : (c.c & 1); int o = d ? I.ops[1] : I.ops[2]; for (int k = 0; k < n; k++) V[I.dst + k] = OPV(o, k); break; }
    case O_BR: jump(I.edges[0]); break;
    case O_CONDBR: { Val c = OPV(I.ops[0], 0); bool d = c.e ? decide(c.e) : (c.c & 1); jump(I.edges[d ? 0 : 1]); break; }
    case O_SWITCH: { Val v = OPV(I.ops[0], 0); if (I.n > 1) { Val a[2] = {v, OPV(I.ops[0], 1)}; unsigned __int128 x = W128(a); if (x >> 64) { jump(I.edges[0]); break; } v = {(uint64_t)x, 0}; }
      if (!v.e) { size_t k = 0; for (; k < I.cases.size(); k++) if (I.cases[k] == v.c) break; jump(I.edges[k < I.cases.size() ? k + 1 : 0]); break; }
      for (;;) { uint64_t mv = allBound(v.e) ? evalExpr(v.e, ++epoch, true) : evalExpr(v.e, ++epoch, false); size_t k = 0; for (; k < I.cases.size(); k++) if (I.cases[k] == mv) break; int ei = k < I.cases.size() ? k + 1 : 0;
        // condition "v goes to the same target by the same edge contents"
        Expr *c; int tgt = I.edges[ei].target; auto same = [&](Edge &x, Edge &y) { if (x.target != y.target || x.copies.size() != y.copies.size()) return false; return true; };
        bool defSame = same(I.edges[0], I.edges[ei]) && I.edges[0].target == tgt;
        if (defSame) { c = mkConst(1, 1); for (size_t q = 0; q < I.cases.size(); q++) if (!same(I.edges[q + 1], I.edges[0])) c = mkBin(E_AND, c, mkNot1(mkBin(E_EQ, v.e, mkConst(I.cases[q], I.bits)))); }
        else { c = mkConst(0, 1); for (size_t q = 0; q < I.cases.size(); q++) if (same(I.edges[q + 1], I.edges[ei])) c = mkBin(E_OR, c, mkBin(E_EQ, v.e, mkConst(I.cases[q], I.bits))); }
        if (decide(c)) { jump(I.edges[ei]); break; } }
      break; }
    case O_UNREACH: finish("unreachable", 0, backtrace()); break;
    case O_RET: {
      int n = I.ty->slots; Val r[8]; vector<Val> big; Val *rp = r; if (n > 8) { big.resize(n); rp = big.data(); } for (int k = 0; k < n; k++) rp[k] = OPV(I.ops[0], k);
      if (optMem && sp != F.spSave) setValid(sp, F.spSave - sp, false);
      sp = F.spSave; stackTop = F.base; int dst = F.retDst; uint64_t isTop = frames.size() == 1; frames.pop_back(); if (isTop) { stackV[0] = n ? rp[0] : Val{0, 0}; return; }
      if (frames.back().f == nullptr) { return; }
      if (dst >= 0) { Val *V2 = stackV + frames.back().base; for (int k = 0; k < n; k++) V2[dst + k] = rp[k]; } break; }
    case O_EXTRACTV: for (int k = 0; k < I.n; k++) V[I.dst + k] = OPV(I.ops[0], (int)I.imm + k); break;
    case O_INSERTV: { int n = I.ty->slots; tmp.resize(n); for (int k = 0; k < n; k++) tmp[k] = OPV(I.ops[0], k); for (int k = 0; k < I.n; k++) tmp[I.imm + k] = OPV(I.ops[1], k); for (int k = 0; k < n; k++) V[I.dst + k] = tmp[k]; break; }
    case O_EXTRACTE: { uint64_t ix = C(OPV(I.ops[1], 0)); V[I.dst] = OPV(I.ops[0], (int)ix); break; }
    case O_INSERTE: { uint64_t ix = C(OPV(I.ops[2], 0)); tmp.resize(I.n); for (int k = 0; k < I.n; k++) tmp[k] = OPV(I.ops[0], k); tmp[ix] = OPV(I.ops[1], 0); for (int k = 0; k < I.n; k++) V[I.dst + k] = tmp[k]; break; }
    case O_SHUFFLE: { int n = I.mask.size(); tmp.resize(n); for (int k = 0; k < n; k++) { int m = I.mask[k]; tmp[k] = m < (int)I.imm ? OPV(I.ops[0], m) : OPV(I.ops[1], m - (int)I.imm); } for (int k = 0; k < n; k++) V[I.dst + k] = tmp[k]; break; }
    case O_CMPXCHG: { uint64_t a = C(OPV(I.ops[0], 0)); int b = I.ty2->bits; Val cur = loadInt(a, b); Val eq = icmp(0, b, cur, OPV(I.ops[1], 0)); bool d = eq.e ? decide(eq.e) : eq.c; if (d) storeInt(a, b, OPV(I.ops[2], 0)); V[I.dst] = cur; V[I.dst + 1] = {d, 0}; break; }
    case O_RMW: { uint64_t a = C(OPV(I.ops[0], 0)); int b = I.ty2->bits; Val cur = loadInt(a, b), v = OPV(I.ops[1], 0), nw; switch (I.sub) { case 0: nw = v; break; case 1: nw = binop(E_ADD, b, cur, v); break; case 2: nw = binop(E_SUB, b, cur, v); break; case 3: nw = binop(E_AND, b, cur, v); break; case 4: nw = binop(E_OR, b, cur, v); break; case 5: nw = binop(E_XOR, b, cur, v); break; default: finish("unsupported", 0, "rmw"); } storeInt(a, b, nw); V[I.dst] = cur; break; }
    case O_FBIN: { double x = asD(OPV(I.ops[0], 0), I.ty), y = asD(OPV(I.ops[1], 0), I.ty), r = 0; switch (I.sub) { case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x * y; break; case 3: r = x / y; break; case 4: r = fmod(x, y); break; } V[I.dst] = fromD(r, I.ty); break; }
    case O_FCMP: { double x = asD(OPV(I.ops[0], 0), I.ty2), y = asD(OPV(I.ops[1], 0), I.ty2); bool un = std::isnan(x) || std::isnan(y); const string &t = I.text; bool r; string o = t.substr(1); bool b = o == "eq" ? x == y : o == "ne" ? x != y : o == "lt" ? x < y : o == "le" ? x <= y : o == "gt" ? x > y : o == "ge" ? x >= y : false; if (t == "ord") r = !un; else if (t == "uno") r = un; else if (t == "true") r = true; else if (t == "false") r = false; else if (t[0] == 'o') r = !un && b; else r = un || b; V[I.dst] = {r, 0}; break; }
    case O_FNEG: V[I.dst] = fromD(-asD(OPV(I.ops[0], 0), I.ty), I.ty); break;
    case O_FCVT: { const string &t = I.text; Val v = OPV(I.ops[0], 0); if (t == "sitofp") V[I.dst] = fromD((double)sxt(C(v), I.ty2->bits), I.ty); else if (t == "uitofp") V[I.dst] = fromD((double)C(v), I.ty); else if (t == "fptosi") V[I.dst] = {(uint64_t)(int64_t)asD(v, I.ty2) & maskb(I.ty->bits), 0}; else if (t == "fptoui") V[I.dst] = {(uint64_t)asD(v, I.ty2) & maskb(I.ty->bits), 0}; else V[I.dst] = fromD(asD(v, I.ty2), I.ty); break; }
    case O_UNSUP: finish("unsupported", 0, F.f->name + ": " + I.text); break;
    case O_CALL: {
      Function *f = I.callee; size_t na = I.argtys.size();
      if (!f) { uint64_t a = C(OPV(I.ops[na], 0)); f = M.byAddr(a); if (!f) finish("segv", 0, "call to bad address in " + F.f->name); }
      static vector<Val> av; av.clear(); for (size_t i = 0; i < na; i++) for (int k = 0; k < I.argtys[i]->slots; k++) av.push_back(OPV(I.ops[i], k));
      if (f->intr < 0) f->intr = f->name.compare(0, 5, "llvm.") == 0;
      if (f->intr) { Val res[32]; if (!intrinsic(f->name, I, V, K, av, res)) finish("unsupported", 0, f->name + " in " + F.f->name); if (I.dst >= 0) for (int k = 0; k < I.ty->slots; k++) V[I.dst + k] = res[k]; break; }
      if (f->native == -1) { f->native = natives.count(f->name) ? 1 : 0; if (f->native) f->nat = &natives[f->name]; }
      if (f->native == 1) { Val r = (*(NativeFn *)f->nat)(av, F); if (frames.empty()) return; if (I.dst >= 0 && I.ty->slots) V[I.dst] = r; break; }
      if (!f->defined) finish("unsupported", 0, "external " + f->name + " called from " + F.f->name);
      if (!f->parsed || f->hashstub) { if (!f->parsed) { try { M.parseFunction(f); } catch (ParseError &e) { finish("unsupported", 0, "parse " + f->name + ": " + e.m); } if (f->name.find("hash_one") != string::npos && f->name.find("BuildHasher") != string::npos) f->hashstub = 1; } if (f->hashstub && optHashConst) { SH->fnused[f->idx & 0xffff] = 1; V[I.dst] = hashOf(f->name, av); break; } }
      uint64_t sp0 = sp; for (size_t i = 0; i < I.byval.size(); i++) if (I.byval[i]) { uint64_t s = C(av[i]), n = I.byval[i]; sp = (sp - n) / 16 * 16; if (optMem) sp -= 32; if (sp < spEnd) finish("stack", 0, "guest stack exhausted"); clearSym(sp, n); if (optMem) setValid(sp, n, true); memMove(sp, s, n); av[i] = {sp, 0}; } // structs by value (every argument before one takes one slot)
      enter(f, av, I.argtys, I.dst, I.ty->slots); frames.back().spSave = sp0; break; }
    }
  }
}
static int lastInt(const string &n) { size_t q = n.rfind(".i"); return q == string::npos ? 64 : atoi(n.c_str() + q + 2); }
static bool intrinsic(const string &n, Inst &I, Val *V, Val *K, vector<Val> &a, Val *res) {
  auto is = [&](const char *s) { size_t l = strlen(s); return n.compare(5, l, s) == 0 && (n.size() == 5 + l || n[5 + l] == '.'); };
  if (is("lifetime") || is("experimental.noalias.scope.decl") || is("assume") || is("dbg") || is("x86.sse2.pause") || is("donothing") || is("prefetch") || is("stackrestore") || is("var.annotation")) return true;
  if (is("stacksave")) { res[0] = {sp, 0}; return true; }
  if (is("memcpy") || is("memmove")) { uint64_t d = C(a[0]), s = C(a[1]), l = C(a[2]); memMove(d, s, l); return true; }
  if (is("memset")) { uint64_t d = C(a[0]), l = C(a[2]); if (l) { chk(d, l); if (a[1].e) for (uint64_t i = 0; i < l; i++) stByte(d + i, a[1]); else { clearSym(d, l); memset((void *)d, (int)a[1].c, l); } } return true; }
  if (is("threadlocal.address")) { res[0] = a[0]; return true; }
  if (is("is.constant")) { res[0] = {0, 0}; return true; }
  if (is("expect")) { res[0] = a[0]; return true; }
  if (is("launder.invariant.group") || is("strip.invariant.group")) { res[0] = a[0]; return true; }
  if (is("trap") || is("ubsantrap") || is("debugtrap")) { finish(optMem ? "ub" : "abort", 134, "trap " + backtrace()); }
  if (is("objectsize")) { res[0] = {~0ull, 0}; return true; }
  if (is("va_end")) return true;
  if (is("va_copy")) { memMove(C(a[0]), C(a[1]), 24); return true; }
  if (is("va_start")) { Frame &F = frames.back(); uint64_t l = C(a[0]), nl = nlive, m = galloc(8 * F.va.size() + 8); nlive = nl; for (size_t i = 0; i < F.va.size(); i++) { Val v = F.va[i]; int b = F.vaBits[i]; if (v.e && b < 64) v = W(mkExt(E_ZEXT, v.e, 64)); storeInt(m + 8 * i, 64, v); } storeInt(l, 32, {48, 0}); storeInt(l + 4, 32, {304, 0}); storeInt(l + 8, 64, {m, 0}); storeInt(l + 16, 64, {0, 0}); return true; }
  if (n.find(".v") != string::npos && n.find(".p0") == string::npos) { size_t q = n.rfind(".v"); if (q != string::npos && isdigit((unsigned char)n[q + 2])) return false; }
  int b = lastInt(n); uint64_t m = maskb(b);
  if (b > 64) { if (is("fshl") || is("fshr")) return false; }
  if (is("umax") || is("umin") || is("smax") || is("smin")) { int pr = is("umax") ? 4 : is("umin") ? 2 : is("smax") ? 8 : 6; Val c = icmp(pr, b, a[0], a[1]); res[0] = c.e ? iteV(c.e, a[0], a[1], b) : (c.c ? a[0] : a[1]); return true; }
  if (is("ucmp") || is("scmp")) { // llvm.ucmp.iR.iA
    size_t q = n.find(".i"); int rb = atoi(n.c_str() + q + 2); bool s = is("scmp"); Val lt = icmp(s ? 6 : 2, b, a[0], a[1]), eq = icmp(0, b, a[0], a[1]); if (!lt.e && !eq.e) { res[0] = {(lt.c ? ~0ull : eq.c ? 0 : 1) & maskb(rb), 0}; return true; } res[0] = W(mkIte(X(lt, 1), mkConst(~0ull, rb), mkIte(X(eq, 1), mkConst(0, rb), mkConst(1, rb)))); return true; }
  if (is("fshl") || is("fshr")) { if (!a[0].e && !a[1].e && !a[2].e) { uint64_t s = a[2].c % b; uint64_t x = a[0].c & m, y = a[1].c & m; if (is("fshl")) res[0] = {s ? ((x << s) | (y >> (b - s))) & m : x, 0}; else res[0] = {s ? ((x << (b - s)) | (y >> s)) & m : y, 0}; return true; }
    uint64_t s = C(a[2]) % b; Expr *x = X(a[0], b), *y = X(a[1], b); if (!s) { res[0] = W(is("fshl") ? x : y); return true; } int k = is("fshl") ? s : b - s; res[0] = W(mkBin(E_OR, mkBin(E_SHL, x, mkConst(k, b)), mkBin(E_LSHR, y, mkConst(b - k, b)))); return true; }
  if (is("usub.sat")) { Val c = icmp(2, b, a[0], a[1]); Val d = binop(E_SUB, b, a[0], a[1]); res[0] = c.e ? iteV(c.e, {0, 0}, d, b) : (c.c ? Val{0, 0} : d); return true; }
  if (is("uadd.sat")) { Val s = binop(E_ADD, b, a[0], a[1]); Val c = icmp(2, b, s, a[0]); res[0] = c.e ? iteV(c.e, {m, 0}, s, b) : (c.c ? Val{m, 0} : s); return true; }
  if (is("uadd.with.overflow")) { Val s = binop(E_ADD, b, a[0], a[1]); res[0] = s; res[1] = icmp(2, b, s, a[0]); return true; }
  if (is("usub.with.overflow")) { res[0] = binop(E_SUB, b, a[0], a[1]); res[1] = icmp(2, b, a[0], a[1]); return true; }
  if (is("sadd.with.overflow") || is("ssub.with.overflow")) { bool add = is("sadd.with.overflow"); Val s = binop(add ? E_ADD : E_SUB, b, a[0], a[1]); res[0] = s; Expr *x = X(a[0], b), *y = X(a[1], b), *r = X(s, b); Expr *z = mkConst(0, b); Expr *ov = add ? mkBin(E_SLT, mkBin(E_AND, mkBin(E_XOR, x, r), mkBin(E_XOR, y, r)), z) : mkBin(E_SLT, mkBin(E_AND, mkBin(E_XOR, x, y), mkBin(E_XOR, x, r)), z); res[1] = W(ov); return true; }
  if ((is("umul.with.overflow") || is("smul.with.overflow")) && b <= 32 && (a[0].e || a[1].e)) { EOp x = is("smul") ? E_SEXT : E_ZEXT; Expr *w = mkBin(E_MUL, mkExt(x, X(a[0], b), 64), mkExt(x, X(a[1], b), 64)), *lo = mkExtract(w, 0, b); res[0] = W(lo); res[1] = W(mkNot1(mkBin(E_EQ, mkExt(x, lo, 64), w))); return true; }
  if (is("umul.with.overflow")) { uint64_t x = C(a[0]), y = C(a[1]); unsigned __int128 r = (unsigned __int128)x * y; res[0] = {(uint64_t)r & m, 0}; res[1] = {(r >> b) != 0, 0}; return true; }
  if (is("smul.with.overflow")) { int64_t x = sxt(C(a[0]), b), y = sxt(C(a[1]), b); __int128 r = (__int128)x * y; res[0] = {(uint64_t)r & m, 0}; res[1] = {r != (__int128)sxt((uint64_t)r, b), 0}; return true; }
  if (is("cttz")) { if (a[0].e) { Expr *r = mkConst(b, b); for (int i = b - 1; i >= 0; i--) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(i, b), r); res[0] = W(r); return true; } uint64_t x = a[0].c & m; res[0] = {x ? (uint64_t)__builtin_ctzll(x) : (uint64_t)b, 0}; return true; }
  if (is("ctlz")) { if (a[0].e) { Expr *r = mkConst(b, b); for (int i = 0; i < b; i++) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(b - 1 - i, b), r); res[0] = W(r); return true; } uint64_t x = a[0].c & m; res[0] = {x ? (uint64_t)__builtin_clzll(x) - (64 - b) : (uint64_t)b, 0}; return true; }
  if (is("ctpop")) { uint64_t x = C(a[0]) & m; res[0] = {(uint64_t)__builtin_popcountll(x), 0}; return true; }
  if (is("bswap")) { if (a[0].e) { Expr *e = nullptr; for (int i = 0; i < b; i += 8) { Expr *x = mkExtract(a[0].e, i, 8); e = e ? mkConcat(e, x) : x; } res[0] = W(e); return true; } uint64_t r = 0, x = a[0].c; for (int i = 0; i < b; i += 8) r |= ((x >> i) & 255) << (b - 8 - i); res[0] = {r, 0}; return true; }
  if (is("bitreverse")) { uint64_t r = 0, x = C(a[0]); for (int i = 0; i < b; i++) if (x >> i & 1) r |= 1ull << (b - 1 - i); res[0] = {r, 0}; return true; }
  if (is("abs")) { int64_t x = sxt(C(a[0]), b); res[0] = {(uint64_t)(x < 0 ? -x : x) & m, 0}; return true; }
  return false;
}
static Val memcmpV(uint64_t a, uint64_t b, uint64_t n, bool ordered) {
  if (n) { chk(a, n); chk(b, n); }
  bool sy = n && (flagged(a, n) || flagged(b, n));
  if (!sy) { int r = n ? memcmp((void *)a, (void *)b, n) : 0; return {(uint64_t)(uint32_t)(r < 0 ? -1 : r > 0 ? 1 : 0), 0}; }
  Expr *r = mkConst(0, 32);
  for (uint64_t i = n; i-- > 0;) { Val x = ldByte(a + i), y = ldByte(b + i); Expr *ex = X(x, 8), *ey = X(y, 8); Expr *eq = mkBin(E_EQ, ex, ey); r = mkIte(eq, r, ordered ? mkIte(mkBin(E_ULT, ex, ey), mkConst(0xffffffff, 32), mkConst(1, 32)) : mkConst(1, 32)); }
  return W(r);
}
static int symIdx(const string &n);
static void setupNatives() {
  auto R = [](int64_t v) { return Val{(uint64_t)v, nullptr}; };
  auto R32 = [](int64_t v) { return Val{(uint64_t)(uint32_t)v, nullptr}; };
  natives["malloc"] = [=](vector<Val> &a, Frame &) { return R(galloc(C(a[0]))); };
  natives["calloc"] = [=](vector<Val> &a, Frame &) { uint64_t n = C(a[0]) * C(a[1]); uint64_t p = galloc(n); clearSym(p, n); memset((void *)p, 0, n); return R(p); };
  natives["realloc"] = [=](vector<Val> &a, Frame &) { uint64_t o = C(a[0]), n = C(a[1]); uint64_t p = galloc(n); if (o) { if (!blkSize.count(o)) finish("segv", 0, "bad realloc"); uint64_t os = blkSize[o]; memMove(p, o, std::min(os, n)); gfree(o); } return R(p); };
  natives["free"] = [=](vector<Val> &a, Frame &) { gfree(C(a[0])); return R(0); };
  natives["posix_memalign"] = [=](vector<Val> &a, Frame &) { uint64_t p = galloc(C(a[2]), C(a[1])); storeInt(C(a[0]), 64, {p, 0}); return R32(0); };
  natives["bcmp"] = [=](vector<Val> &a, Frame &) { return memcmpV(C(a[0]), C(a[1]), C(a[2]), false); };
  natives["memcmp"] = [=](vector<Val> &a, Frame &) { return memcmpV(C(a[0]), C(a[1]), C(a[2]), true); };
  natives["strlen"] = [=](vector<Val> &a, Frame &) { uint64_t p = C(a[0]), n = 0; for (;;) { chk(p + n, 1); Val v = ldByte(p + n); if (v.e ? decide(mkBin(E_EQ, v.e, mkConst(0, 8))) : v.c == 0) return R(n); n++; } };
  natives["__errno_location"] = [=](vector<Val> &, Frame &) { return R(errnoAddr); };
  natives["abort"] = [=](vector<Val> &, Frame &) { finish("abort", 134, backtrace()); return R(0); };
  natives["exit"] = [=](vector<Val> &a, Frame &) { finish("exit", (int)(C(a[0]) & 255), ""); return R(0); };
  natives["_exit"] = natives["exit"];
  natives["getenv"] = [=](vector<Val> &a, Frame &) { string n = cstr(C(a[0])); auto it = envv.find(n); if (it == envv.end()) return R(0); uint64_t p = galloc(it->second.size() + 1); memcpy((void *)p, it->second.c_str(), it->second.size() + 1); return R(p); };
  natives["getcwd"] = [=](vector<Val> &a, Frame &) { uint64_t b = C(a[0]), n = C(a[1]); if (cwd.size() + 1 > n) { err(ERANGE); return R(0); } clearSym(b, cwd.size() + 1); memcpy((void *)b, cwd.c_str(), cwd.size() + 1); return R(b); };
  natives["realpath"] = [=](vector<Val> &a, Frame &) { string s = cstr(C(a[0])); string p = norm(s); if (s.empty() || !walk(s) || (!files.count(p) && !dirs.count(p))) { err(ENOENT); return R(0); } uint64_t q = galloc(p.size() + 1); memcpy((void *)q, p.c_str(), p.size() + 1); return R(q); };
  natives["open64"] = [=](vector<Val> &a, Frame &) { return R32(doOpen(cstr(C(a[0])), C(a[1]))); };
  natives["close"] = [=](vector<Val> &a, Frame &) { fds.erase((int)C(a[0])); return R32(0); };
  natives["read"] = [=](vector<Val> &a, Frame &) { return R(doRead((int)C(a[0]), C(a[1]), C(a[2]))); };
  natives["write"] = [=](vector<Val> &a, Frame &) { return R(doWrite((int)C(a[0]), C(a[1]), C(a[2]))); };
  natives["writev"] = [=](vector<Val> &a, Frame &) { int64_t tot = 0; uint64_t v = C(a[1]); int n = (int)C(a[2]); for (int i = 0; i < n; i++) { int64_t r = doWrite((int)C(a[0]), C(loadInt(v + 16 * i, 64)), C(loadInt(v + 16 * i + 8, 64))); if (r < 0) return R(r); tot += r; } return R(tot); };
  natives["lseek64"] = [=](vector<Val> &a, Frame &) { auto it = fds.find((int)C(a[0])); if (it == fds.end()) return R(err(EBADF)); int64_t o = C(a[1]); int w = (int)C(a[2]); FD &f = it->second; if (w == 0) f.pos = o; else if (w == 1) f.pos += o; else f.pos = files[f.path].data.size() + o; return R(f.pos); };
  natives["fstat64"] = [=](vector<Val> &a, Frame &) { auto it = fds.find((int)C(a[0])); if (it == fds.end()) return R32(err(EBADF)); writeStat(C(a[1]), it->second.kind == 2, it->second.kind == 1 ? files[it->second.path].data.size() : 0); return R32(0); };
  natives["stat64"] = [=](vector<Val> &a, Frame &) { string s = cstr(C(a[0])); string p = norm(s); if (s.empty() || !walk(s)) return R32(err(ENOENT)); if (dirs.count(p)) { writeStat(C(a[1]), true, 4096); return R32(0); } if (files.count(p)) { writeStat(C(a[1]), false, files[p].data.size()); return R32(0); } return R32(err(ENOENT)); };
  natives["lstat64"] = natives["stat64"];
  natives["mkdir"] = [=](vector<Val> &a, Frame &) { string s = cstr(C(a[0])); string p = norm(s); if (!walk(s)) return R32(err(ENOENT)); if (dirs.count(p) || files.count(p)) return R32(err(EEXIST)); if (faulty("mkdir")) return R32(err(EACCES)); dirs.insert(p); trace.push_back("mkdir " + p); return R32(0); };
  natives["readlink"] = [=](vector<Val> &, Frame &) { return R(err(EINVAL)); };
  natives["unlink"] = [=](vector<Val> &a, Frame &) { string p = norm(cstr(C(a[0]))); if (!files.count(p)) return R32(err(ENOENT)); files.erase(p); trace.push_back("unlink " + p); return R32(0); };
  natives["opendir"] = [=](vector<Val> &a, Frame &) { string s = cstr(C(a[0])); string p = norm(s); if (!dirs.count(p)) { err(ENOENT); return R(0); } FD f; f.kind = 2; f.path = p; f.ents = {".", ".."}; string pre = p == "/" ? p : p + "/"; auto addn = [&](const string &q) { if (q.size() > pre.size() && q.compare(0, pre.size(), pre) == 0 && q.find('/', pre.size()) == string::npos) f.ents.push_back(q.substr(pre.size())); }; for (auto &kv : files) addn(kv.first); for (auto &d : dirs) addn(d); int fd = nextfd++; fds[fd] = f; uint64_t h = galloc(512); *(int *)h = fd; return R(h); };
  natives["readdir64"] = [=](vector<Val> &a, Frame &) { uint64_t h = C(a[0]); FD &f = fds[*(int *)h]; if (f.ei >= f.ents.size()) return R(0); string n = f.ents[f.ei++]; uint64_t d = h + 64; memset((void *)d, 0, 300); *(uint64_t *)d = f.ei; *(uint64_t *)(d + 8) = f.ei; *(uint16_t *)(d + 16) = 24 + n.size(); string full = norm(f.path + "/" + n); *(uint8_t *)(d + 18) = dirs.count(full) ? 4 : 8; memcpy((void *)(d + 19), n.c_str(), n.size() + 1); return R(d); };
  natives["closedir"] = [=](vector<Val> &a, Frame &) { fds.erase(*(int *)C(a[0])); return R32(0); };
  natives["dirfd"] = [=](vector<Val> &a, Frame &) { return R32(*(int *)C(a[0])); };
  auto zero = [=](vector<Val> &, Frame &) { return R32(0); };
  for (const char *s : {"sigaction", "sigaltstack", "pthread_attr_destroy", "mprotect", "munmap", "pthread_attr_getguardsize", "pthread_setspecific", "pthread_key_delete", "sigemptyset", "sigaddset", "posix_spawnattr_init", "posix_spawn_file_actions_init", "posix_spawnattr_destroy", "posix_spawn_file_actions_destroy", "posix_spawnattr_setpgroup", "posix_spawnattr_setflags", "posix_spawnattr_setsigdefault", "posix_spawnattr_setsigmask", "ioctl", "fcntl", "dup2", "signal", "pthread_mutex_lock", "pthread_mutex_unlock", "fsync", "ftruncate64", "pthread_sigmask"}) natives[s] = zero;
  natives["posix_spawn_file_actions_adddup2"] = [=](vector<Val> &a, Frame &) { dupTo[(int)C(a[1])] = (int)C(a[2]); return R32(0); };
  natives["pthread_key_create"] = [=](vector<Val> &a, Frame &) { storeInt(C(a[0]), 32, {1, 0}); return R32(0); };
  natives["pthread_self"] = [=](vector<Val> &, Frame &) { return R(1); };
  natives["pthread_getattr_np"] = [=](vector<Val> &, Frame &) { return R32(22); };
  natives["poll"] = [=](vector<Val> &a, Frame &) { uint64_t p = C(a[0]), n = C(a[1]); int ready = 0; for (uint64_t i = 0; i < n; i++) { int fd = *(int *)(p + 8 * i); auto it = fds.find(fd); short rev = 0; if (it != fds.end() && it->second.kind == 4) rev = 0x10; else if (it != fds.end() && it->second.kind == 1) rev = 0x11; if (rev) ready++; storeInt(p + 8 * i + 6, 16, {(uint64_t)rev, 0}); } return R32(ready); };
  natives["sysconf"] = [=](vector<Val> &a, Frame &) { int k = (int)C(a[0]); return R(k == 30 ? 4096 : 1024); };
  natives["getauxval"] = [=](vector<Val> &, Frame &) { return R(0); };
  natives["getpid"] = [=](vector<Val> &, Frame &) { return R32(42); };
  natives["gnu_get_libc_version"] = [=](vector<Val> &, Frame &) { uint64_t p = galloc(8); memcpy((void *)p, "2.39", 5); return R(p); };
  natives["mmap64"] = [=](vector<Val> &a, Frame &) { uint64_t n = C(a[1]); uint64_t p = galloc(n, 4096); memset((void *)p, 0, n); return R(p); };
  natives["syscall"] = [=](vector<Val> &a, Frame &) { uint64_t n = C(a[0]); if (n == 318) { uint64_t b = C(a[1]), l = C(a[2]); clearSym(b, l); for (uint64_t i = 0; i < l; i++) *(uint8_t *)(b + i) = (uint8_t)(i * 37 + 11); return R(l); } if (n == 186) return R(42); if (n == 202) return R(0); return R(err(ENOSYS)); };
  natives["getrandom"] = [=](vector<Val> &a, Frame &) { uint64_t b = C(a[0]), l = C(a[1]); clearSym(b, l); for (uint64_t i = 0; i < l; i++) *(uint8_t *)(b + i) = (uint8_t)(i * 37 + 11); return R(l); };
  natives["__xpg_strerror_r"] = [=](vector<Val> &a, Frame &) { int e = (int)C(a[0]); uint64_t b = C(a[1]), n = C(a[2]); string s = strerror(e); if (s.size() + 1 > n) s = s.substr(0, n - 1); clearSym(b, s.size() + 1); memcpy((void *)b, s.c_str(), s.size() + 1); return R32(0); };
  natives["pipe2"] = [=](vector<Val> &a, Frame &) { uint64_t p = C(a[0]); int r = nextfd++, w = nextfd++; FD f; f.kind = 4; fds[r] = f; fds[w] = f; storeInt(p, 32, {(uint64_t)r, 0}); storeInt(p + 4, 32, {(uint64_t)w, 0}); return R32(0); };
  natives["posix_spawnp"] = [=](vector<Val> &a, Frame &) { string prog = cstr(C(a[1])); uint64_t av = C(a[4]); string t = "spawn"; for (int i = 0;; i++) { uint64_t q = C(loadInt(av + 8 * i, 64)); if (!q) break; t += "\x1f" + cstr(q); } int k = nspawn++; trace.push_back(t); for (auto &d : dupTo) { string p = "/child/" + std::to_string(k) + (d.second == 2 ? ".err" : ".out"); auto f = fds.find(d.first - 1); if (f != fds.end() && f->second.kind == 4 && files.count(p) && d.second != 0) { f->second.kind = 1; f->second.path = p; } } dupTo.clear(); if (faulty("spawn")) return R32(ENOENT); storeInt(C(a[0]), 32, {(uint64_t)(1000 + k), 0}); return R32(0); };
  natives["posix_spawn"] = natives["posix_spawnp"];
  // child exit status: symbol "status<k>" when declared, else success. A status value s means wait status s<<8.
  natives["waitpid"] = [=](vector<Val> &a, Frame &) { int pid = (int)C(a[0]); int k = pid - 1000; auto it = statusSyms.find("status" + std::to_string(k)); uint64_t st = 0; if (it != statusSyms.end()) st = concretize(mkSym(it->second)); trace.push_back("wait " + std::to_string(k) + " " + std::to_string(st)); uint64_t w = C(a[1]); if (w) storeInt(w, 32, {st > 128 ? st - 128 : st << 8, 0}); return R32(pid); };
  natives["vf_in"] = [=](vector<Val> &a, Frame &) { int i = symIdx("in" + std::to_string((int)C(a[0]))); if (i < 0) finish("error", 0, "no input"); return W(mkExt(E_ZEXT, mkSym(i), 32)); };
  natives["vf_double"] = [=](vector<Val> &a, Frame &) { uint64_t b = C(a[0]); char cv = (char)C(a[1]); int prec = (int)C(a[2]); uint64_t u = C(a[3]); double d; memcpy(&d, &u, 8); char f[8] = {'%', '.', '*', cv, 0}, o[400]; snprintf(o, 400, f, prec < 0 ? 6 : prec, d); uint64_t n = strlen(o) + 1; chk(b, n); clearSym(b, n); memcpy((void *)b, o, n); return R(0); };
  natives["vf_live"] = [=](vector<Val> &, Frame &) { return R32(nlive); };
  natives["vf_assume"] = [=](vector<Val> &a, Frame &) { Expr *z = a[0].e ? mkBin(E_EQ, a[0].e, mkConst(0, a[0].e->bits)) : nullptr; if (z ? decide(z) : !(a[0].c & 0xffffffff)) finish("skip", 0, ""); return R32(0); };
  natives["vf_assert"] = [=](vector<Val> &a, Frame &) { Expr *z = a[0].e ? mkBin(E_EQ, a[0].e, mkConst(0, a[0].e->bits)) : nullptr; __sync_fetch_and_add(&SH->asserts, 1); if (z ? decide(z) : !(a[0].c & 0xffffffff)) finish("assert", 0, cstr(C(a[1]))); return R32(0); };
  natives["vf_cover"] = [=](vector<Val> &a, Frame &) { trace.push_back("cover " + cstr(C(a[0]))); return R32(0); };
  natives["execvp"] = [=](vector<Val> &a, Frame &) { uint64_t av = C(a[1]); string t = "exec"; for (int i = 0;; i++) { uint64_t q = C(loadInt(av + 8 * i, 64)); if (!q) break; t += "\x1f" + cstr(q); } trace.push_back(t); finish("exec", 0, ""); return R32(-1); };
}
static string unhex(const string &h) { string r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtoul(h.substr(i, 2).c_str(), 0, 16); return r; }
static int symIdx(const string &n) { for (size_t i = 0; i < syms.size(); i++) if (syms[i].name == n) return i; return -1; }
static int newSym(const string &n, int bits) { int i = symIdx(n); if (i >= 0) return i; Sym s; s.name = n; s.bits = bits; s.z = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), Z3_mk_bv_sort(Z, bits)); s.model = 0; s.bound = false; s.boundv = 0; syms.push_back(s); return syms.size() - 1; }

int main(int argc, char **argv) {
  if (argc < 4) { fprintf(stderr, "usage: symx IR SPEC OUT\n"); return 2; }
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void *)SH, 0, sizeof(Shared));
  int procs = getenv("SYMX_PROCS") ? atoi(getenv("SYMX_PROCS")) : 8; sem_init(&SH->sem, 1, procs - 1);
  void *ar = mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (ar != (void *)ARENA) { perror("mmap arena"); return 2; }
  symflag = (uint8_t *)mmap(0, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  stackV = (Val *)mmap(0, sizeof(Val) * STACKV, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); S = Z3_mk_solver(Z); Z3_solver_inc_ref(Z, S);
  if (getenv("SYMX_TRACE")) optTrace = atoll(getenv("SYMX_TRACE")); optOut = argv[3]; string entry = "main";
  try { M.load(argv[1]); M.initGlobals(); } catch (ParseError &e) { fprintf(stderr, "IR parse error: %s\n", e.m.c_str()); return 2; }
  gbrk = (gbrk + 4095) & ~4095ull; spEnd = gbrk; sp = gbrk + (64u << 20); heap = (sp + 4095) & ~4095ull; heapEnd = ARENA + ARENA_SZ; sp -= 64;
  errnoAddr = galloc(16); for (int i = 0; i < 3; i++) { FD f; f.kind = 3; fds[i] = f; }
  // ---- spec
  std::ifstream sf(argv[2]); string line; string curf; vector<string> assumes;
  while (std::getline(sf, line)) {
    std::stringstream ss(line); string k; ss >> k;
    if (k == "arg") { string h; ss >> h; args.push_back(unhex(h)); }
    else if (k == "env") { string n, h; ss >> n >> h; envv[n] = unhex(h); }
    else if (k == "cwd") { ss >> cwd; } else if (k == "dir") { string d; ss >> d; dirs.insert(d); }
    else if (k == "file") { ss >> curf; files[curf]; }
    else if (k == "lit") { string h; ss >> h; for (unsigned char c : unhex(h)) files[curf].data.push_back({c, nullptr}); }
    else if (k == "sym") { string n, h; ss >> n >> h; int i = newSym(n, 8); if (h != "*" && !h.empty()) { Expr *c = mkConst(0, 1); string u = unhex(h); std::sort(u.begin(), u.end(), [](char a, char b) { return (unsigned char)a < (unsigned char)b; }); for (size_t q = 0; q < u.size();) { size_t r = q; while (r + 1 < u.size() && (unsigned char)u[r + 1] == (unsigned char)u[r] + 1) r++; Expr *ge = mkBin(E_ULE, mkConst((unsigned char)u[q], 8), mkSym(i)), *lev = mkBin(E_ULE, mkSym(i), mkConst((unsigned char)u[r], 8)); c = mkBin(E_OR, c, mkBin(E_AND, ge, lev)); q = r + 1; } Z3_solver_assert(Z, S, toZ3Bool(c)); } files[curf].data.push_back({0, mkSym(i)}); }
    else if (k == "mutate") { string n, x, h; ss >> n >> x >> h; auto &d = files[curf].data; int ip = newSym(n, 16), ix = newSym(x, 8); Z3_solver_assert(Z, S, toZ3Bool(mkBin(E_ULT, mkSym(ip), mkConst(d.size(), 16)))); if (h != "*" && !h.empty()) { Expr *c = mkConst(0, 1); for (unsigned char q : unhex(h)) c = mkBin(E_OR, c, mkBin(E_EQ, mkSym(ix), mkConst(q, 8))); Z3_solver_assert(Z, S, toZ3Bool(c)); } muts[curf] = {ip, ix}; }
    else if (k == "trunc") { string n; ss >> n; int i = newSym(n, 16); Z3_solver_assert(Z, S, toZ3Bool(mkBin(E_ULE, mkSym(i), mkConst(files[curf].data.size(), 16)))); truncs[curf] = i; }
    else if (k == "var") { string n; int lim; ss >> n >> lim; int i = newSym(n, 8); if (lim < 256) Z3_solver_assert(Z, S, toZ3Bool(mkBin(E_ULT, mkSym(i), mkConst(lim, 8)))); }
    else if (k == "cho") { string n, h; ss >> n; vector<string> alts; while (ss >> h) alts.push_back(h == "-" ? "" : unhex(h)); int i = newSym(n, 8); size_t L = alts[0].size(); for (auto &x : alts) if (x.size() != L) { fprintf(stderr, "alternative lengths differ for %s\n", n.c_str()); return 2; }
      Z3_solver_assert(Z, S, toZ3Bool(mkBin(E_ULT, mkSym(i), mkConst(alts.size(), 8))));
      for (size_t b = 0; b < L; b++) { std::map<int, Expr *> cond; for (size_t q = 0; q < alts.size(); q++) { Expr *e = mkBin(E_EQ, mkSym(i), mkConst(q, 8)); auto &x = cond[(unsigned char)alts[q][b]]; x = x ? mkBin(E_OR, x, e) : e; } Expr *r = nullptr; for (auto &kv : cond) r = r ? mkIte(kv.second, mkConst(kv.first, 8), r) : mkConst(kv.first, 8); if (r->op == E_CONST) files[curf].data.push_back({r->c, nullptr}); else files[curf].data.push_back({0, r}); } }
    else if (k == "assume") { string r; std::getline(ss, r); assumes.push_back(r); }
    else if (k == "maxinst") ss >> optMaxInst; else if (k == "split") { string n; while (ss >> n) optSplit.push_back(symIdx(n)); }
    else if (k == "memcheck") { optMem = true; validb = (uint8_t *)mmap(0, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    else if (k == "hashsym") { string n; int b; ss >> n >> b; hashSyms[n] = newSym("h_" + n, b); }
    else if (k == "hash") { string h; ss >> h; optHashConst = h == "const"; } else if (k == "pc") optPC = true;
    else if (k == "deadline") { double d; ss >> d; optDeadline = now_us() + (uint64_t)(d * 1e6); }
    else if (k == "fault") { string c, n; ss >> c; while (ss >> n) { int i = newSym(n, 1); faults[c].push_back(i); } }
    else if (k == "status") { string n; int lim; ss >> n >> lim; int i = newSym(n, 8); if (lim < 256) Z3_solver_assert(Z, S, toZ3Bool(mkBin(E_ULT, mkSym(i), mkConst(lim, 8)))); statusSyms[n] = i; }
    else if (k == "entry") ss >> entry;
    else if (k.empty() || k[0] == '#') {} else { fprintf(stderr, "bad spec line: %s\n", line.c_str()); return 2; }
  }
  Z3_params pr = Z3_mk_params(Z); Z3_params_inc_ref(Z, pr); Z3_params_set_uint(Z, pr, Z3_mk_string_symbol(Z, "timeout"), optTimeoutMs); Z3_solver_set_params(Z, S, pr);
  for (auto &as : assumes) { vector<Z3_symbol> dn; vector<Z3_func_decl> dd; for (auto &s : syms) { dn.push_back(Z3_mk_string_symbol(Z, s.name.c_str())); dd.push_back(Z3_get_app_decl(Z, Z3_to_app(Z, s.z))); } Z3_ast_vector v = Z3_parse_smtlib2_string(Z, ("(assert " + as + ")").c_str(), 0, 0, 0, dn.size(), dn.data(), dd.data()); if (Z3_get_error_code(Z) != Z3_OK) { fprintf(stderr, "assume: %s\n", Z3_get_error_msg(Z, Z3_get_error_code(Z))); return 2; } Z3_ast_vector_inc_ref(Z, v); for (unsigned i = 0; i < Z3_ast_vector_size(Z, v); i++) Z3_solver_assert(Z, S, Z3_ast_vector_get(Z, v, i)); }
  if (check() != Z3_L_TRUE) { fprintf(stderr, "assumptions are unsatisfiable\n"); return 3; } refreshModel();
  for (size_t i = 0; i < syms.size(); i++) tryBind(mkSym(i));
  setupNatives(); close(open(optOut.c_str(), O_WRONLY | O_TRUNC | O_CREAT, 0644));
  uint64_t tp = now_us(); for (size_t i = 0; i < M.fns.size(); i++) { Function *f = M.fns[i]; if (f->defined && !f->parsed) { try { M.parseFunction(f); } catch (ParseError &e) { f->parsed = false; f->blocks.clear(); f->consts.clear(); f->params.clear(); f->pslot.clear(); f->nslots = 0; } if (f->parsed && f->name.find("hash_one") != string::npos && f->name.find("BuildHasher") != string::npos) f->hashstub = 1; } }
  if (getenv("SYMX_VERBOSE")) fprintf(stderr, "parsed in %.3f s\n", (now_us() - tp) / 1e6);
  uint64_t t0 = now_us();
  pid_t root = fork();
  if (root == 0) {
    // argv / envp
    uint64_t av = galloc(8 * (args.size() + 1)), ev = galloc(8 * (envv.size() + 1)); size_t i = 0; for (auto &s : args) { uint64_t p = galloc(s.size() + 1); memcpy((void *)p, s.c_str(), s.size() + 1); ((uint64_t *)av)[i++] = p; } ((uint64_t *)av)[i] = 0; i = 0; for (auto &kv : envv) { string s = kv.first + "=" + kv.second; uint64_t p = galloc(s.size() + 1); memcpy((void *)p, s.c_str(), s.size() + 1); ((uint64_t *)ev)[i++] = p; } ((uint64_t *)ev)[i] = 0;
    if (M.gl.count("environ")) { Global *g = M.gl["environ"]; if (!g->ext) *(uint64_t *)g->addr = ev; else { g->ext = false; *(uint64_t *)g->addr = ev; } }
    vector<Val> a = {{args.size(), 0}, {av, 0}, {ev, 0}}; vector<Type *> ty;
    if (optMem) { for (Global *g : M.globals) setValid(g->addr, g->ty->size, true); setValid(errnoAddr, 16, true); nlive = 0; }
    for (Global *g : M.globals) if (g->section.compare(0, 11, ".init_array") == 0) { Function *f = M.byAddr(*(uint64_t *)g->addr); if (!f) continue; enter(f, a, ty, -1, 0); run(); stackTop = 0; frames.clear(); }
    auto it = M.fn.find(entry); if (it == M.fn.end()) finish("error", 0, "no entry"); enter(it->second, a, ty, -1, 1); run(); finish("exit", (int)(C(stackV[0]) & 255), "");
  }
  int st; waitpid(root, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) SH->aborted++;
  // ---- summary
  printf("{\"asserts\":%llu,\"paths\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"insts\":%llu,\"crashed\":%llu,\"wall_s\":%.3f,\"functions\":[", (unsigned long long)SH->asserts, (unsigned long long)SH->paths, (unsigned long long)SH->forks, (unsigned long long)SH->queries, (unsigned long long)SH->sat, (unsigned long long)SH->unsat, (unsigned long long)SH->unknown, SH->solver_us / 1e6, (unsigned long long)SH->insts, (unsigned long long)SH->aborted, (now_us() - t0) / 1e6);
  bool first = true; for (auto f : M.fns) if (SH->fnused[f->idx & 0xffff]) { printf("%s\"%s\"", first ? "" : ",", jesc(f->name).c_str()); first = false; }
  printf("]}\n"); return 0;
}
