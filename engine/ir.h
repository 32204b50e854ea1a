// Parser for textual LLVM IR (the subset rustc/clang emit at -O1 with panic=abort).
#pragma once
#include "expr.h"
enum TK : uint8_t { T_VOID, T_INT, T_PTR, T_FLOAT, T_DOUBLE, T_ARR, T_STRUCT, T_VEC, T_OTHER };
struct Type { TK k; int bits = 0; uint64_t n = 0; Type *el = nullptr; std::vector<Type *> f; bool packed = false;
  uint64_t size = 0, align = 1; int slots = 0; std::vector<uint64_t> off; std::vector<int> soff; bool vararg = false; };

struct Val { uint64_t c; Expr *e; };

enum Op : uint8_t { O_BIN, O_ICMP, OP_TRUNC, O_ZEXT, O_SEXT, O_COPY, O_BITCAST, O_GEP, O_LOAD, O_STORE, O_ALLOCA, O_SELECT, O_CALL,
  O_RET, O_BR, O_CONDBR, O_SWITCH, O_UNREACH, O_EXTRACTV, O_INSERTV, O_EXTRACTE, O_INSERTE, O_SHUFFLE, O_CMPXCHG, O_RMW, O_NOP,
  O_FBIN, O_FCMP, O_FNEG, O_FCVT, O_UNSUP };
struct GepStep { int op; int bits; uint64_t scale; };
struct Copy { int dst, src, n; };
struct Edge { int target = -1; std::vector<Copy> copies; std::string name; };
struct Function;
struct Inst { std::vector<uint64_t> byval;
  Op op; uint8_t sub = 0; int bits = 0, bits2 = 0; int dst = -1; int n = 1; // n: element/slot count
  Type *ty = nullptr, *ty2 = nullptr;
  std::vector<int> ops;
  std::vector<int> mask;         // shuffle mask / alloca etc.
  uint64_t imm = 0; uint64_t gepc = 0; std::vector<GepStep> steps;
  std::vector<Edge> edges; std::vector<uint64_t> cases;
  std::vector<Type *> argtys; Function *callee = nullptr; std::string text;
};
struct Block { std::string name; std::vector<Inst> ins; };
typedef void (*Native)();
struct Function {
  std::string name; uint64_t addr = 0; size_t pos = 0; bool defined = false, parsed = false, weak = false; int idx = 0;
  Type *ret = nullptr; std::vector<Type *> params; bool vararg = false;
  std::vector<int> pslot; int nslots = 0; std::vector<Val> consts; std::vector<Block> blocks;
  int native = -1; void *nat = nullptr; int intr = -1; // resolved libc model, -2: none
  int hashstub = 0;
};
struct Global { std::string name; uint64_t addr = 0; Type *ty = nullptr; size_t initpos = 0; bool ext = false, nodef = false; std::string section; };
struct Module {
  std::string t; size_t p = 0;
  std::map<std::string, Type *> named; std::map<std::string, size_t> namedpos;
  std::unordered_map<std::string, Function *> fn; std::vector<Function *> fns;
  std::unordered_map<std::string, Global *> gl; std::vector<Global *> globals; std::unordered_map<std::string, size_t> aliaspos;
  void load(const std::string &path);
  void initGlobals();
  void parseFunction(Function *f);
  Function *byAddr(uint64_t a);
  // lexing
  void ws(); bool lit(const char *s); bool peek(const char *s); std::string word(); std::string ident(); std::string gname();
  void skipParen(); void skipAttrs(); void fail(const std::string &m); bool atType(); Type *type(); uint64_t integer();
  bool constant(Type *ty, std::vector<Val> &out); // flattened slots
  Function *func(const std::string &n); uint64_t addrOf(const std::string &n);
  void initMem(uint64_t addr, Type *ty);
};
struct ParseError { std::string m; };
extern Module M;
Type *intTy(int bits); Type *finish(Type *t);
// guest memory
static const uint64_t ARENA = 0x100000000ull, ARENA_SZ = 0x40000000ull, FNBASE = 0x10000000ull;
extern uint64_t gbrk; // global bump allocator during load
