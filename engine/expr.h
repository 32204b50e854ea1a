// Hash-consed bit-vector expressions, lowered lazily to Z3.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>

enum EOp : uint8_t { E_CONST, E_SYM, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_SHL, E_LSHR, E_ASHR, E_AND, E_OR, E_XOR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE,
  E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT };

struct Expr {
  EOp op; uint8_t bits; uint16_t aux;   // aux: extract low bit / symbol index
  uint64_t c;                            // constant value
  Expr *a, *b, *d;
  Z3_ast z;
  uint64_t ev; uint32_t epoch;           // evaluation memo
  std::vector<uint16_t> sup;             // support: sorted symbol ids
};

extern Z3_context Z;
struct Sym { std::string name; int bits; Z3_ast z; uint64_t model; bool bound; uint64_t boundv; };
extern std::vector<Sym> syms;

static inline uint64_t maskb(int bits) { return bits >= 64 ? ~0ull : ((1ull << bits) - 1); }
static inline int64_t sxt(uint64_t v, int bits) { if (bits >= 64) return (int64_t)v; uint64_t m = 1ull << (bits - 1); v &= maskb(bits); return (int64_t)((v ^ m) - m); }

Expr *mkConst(uint64_t v, int bits);
Expr *mkSym(int idx);
Expr *mkBin(EOp op, Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkExtract(Expr *a, int lo, int bits);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExt(EOp op, Expr *a, int bits);
static inline Expr *mkNot1(Expr *a) { return mkBin(E_XOR, a, mkConst(1, 1)); }
uint64_t evalExpr(Expr *e, uint32_t epoch, bool useBound);
uint64_t concBin(EOp op, uint64_t a, uint64_t b, int bits);
Z3_ast toZ3(Expr *e);      // bit-vector ast (1-bit for predicates)
Z3_ast toZ3Bool(Expr *e);  // bool ast for 1-bit expr
