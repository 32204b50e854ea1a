#include "expr.h"
Z3_context Z;
std::vector<Sym> syms;

struct KeyHash { size_t operator()(Expr *const &e) const {
  size_t h = e->op * 1315423911u + e->bits * 2654435761u + e->aux * 97u + e->c * 0x9E3779B97F4A7C15ull;
  h ^= (size_t)e->a * 0x100000001B3ull + (h << 6); h ^= (size_t)e->b * 0xC2B2AE3D27D4EB4Full + (h >> 7); h ^= (size_t)e->d * 0x165667B19E3779F9ull + (h << 3);
  return h; } };
struct KeyEq { bool operator()(Expr *const &x, Expr *const &y) const {
  return x->op == y->op && x->bits == y->bits && x->aux == y->aux && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d; } };
#include <unordered_set>
static std::unordered_set<Expr *, KeyHash, KeyEq> table;

static Expr *intern(EOp op, int bits, int aux, uint64_t c, Expr *a, Expr *b, Expr *d) {
  Expr k; k.op = op; k.bits = bits; k.aux = aux; k.c = c; k.a = a; k.b = b; k.d = d;
  auto it = table.find(&k);
  if (it != table.end()) return *it;
  Expr *e = new Expr(); e->op = op; e->bits = bits; e->aux = aux; e->c = c; e->a = a; e->b = b; e->d = d; e->z = nullptr; e->epoch = 0;
  if (op == E_SYM) e->sup.push_back(aux);
  for (Expr *x : {a, b, d}) if (x) {
    std::vector<uint16_t> r; std::set_union(e->sup.begin(), e->sup.end(), x->sup.begin(), x->sup.end(), std::back_inserter(r)); e->sup.swap(r);
  }
  table.insert(e);
  return e;
}
Expr *mkConst(uint64_t v, int bits) { return intern(E_CONST, bits, 0, v & maskb(bits), 0, 0, 0); }
Expr *mkSym(int idx) { return intern(E_SYM, syms[idx].bits, idx, 0, 0, 0, 0); }

uint64_t concBin(EOp op, uint64_t a, uint64_t b, int bits) {
  uint64_t m = maskb(bits); a &= m; b &= m;
  switch (op) {
  case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
  case E_UDIV: return b ? a / b : m; case E_UREM: return b ? a % b : a;
  case E_SDIV: { int64_t x = sxt(a, bits), y = sxt(b, bits); if (!y) return (x < 0 ? 1 : m); if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
  case E_SREM: { int64_t x = sxt(a, bits), y = sxt(b, bits); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case E_SHL: return b >= (uint64_t)bits ? 0 : (a << b) & m; case E_LSHR: return b >= (uint64_t)bits ? 0 : a >> b;
  case E_ASHR: { int64_t x = sxt(a, bits); return (uint64_t)(b >= (uint64_t)bits ? (x < 0 ? -1 : 0) : (x >> b)) & m; }
  case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
  case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
  case E_SLT: return sxt(a, bits) < sxt(b, bits); case E_SLE: return sxt(a, bits) <= sxt(b, bits);
  default: fprintf(stderr, "concBin\n"); abort();
  }
}
static bool isC(Expr *e) { return e->op == E_CONST; }
static bool isPred(EOp op) { return op >= E_EQ && op <= E_SLE; }

Expr *mkBin(EOp op, Expr *a, Expr *b) {
  int bits = a->bits;
  if (a->bits != b->bits) { fprintf(stderr, "width mismatch op %d: %d %d\n", op, a->bits, b->bits); abort(); }
  int rb = isPred(op) ? 1 : bits;
  if (isC(a) && isC(b)) return mkConst(concBin(op, a->c, b->c, bits), rb);
  uint64_t m = maskb(bits);
  // commutative: constant on the right
  if (isC(a) && (op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ)) std::swap(a, b);
  if (op == E_SUB && isC(b)) { op = E_ADD; b = mkConst(0 - b->c, bits); }
  if (isC(b)) {
    uint64_t c = b->c;
    switch (op) {
    case E_ADD: if (!c) return a;
      if (a->op == E_ADD && isC(a->b)) return mkBin(E_ADD, a->a, mkConst(a->b->c + c, bits)); break;
    case E_MUL: if (!c) return b; if (c == 1) return a; break;
    case E_AND: if (!c) return b; if (c == m) return a;
      if (a->op == E_ZEXT && (c & maskb(a->a->bits)) == maskb(a->a->bits)) return a;
      if (a->op == E_ZEXT) return mkExt(E_ZEXT, mkBin(E_AND, a->a, mkConst(c, a->a->bits)), bits);
      break;
    case E_OR: if (!c) return a; if (c == m) return b; break;
    case E_XOR: if (!c) return a;
      if (a->op == E_XOR && isC(a->b)) return mkBin(E_XOR, a->a, mkConst(a->b->c ^ c, bits)); break;
    case E_SHL: case E_LSHR: case E_ASHR: if (!c) return a; break;
    case E_UDIV: if (c == 1) return a; break;
    case E_EQ:
      if (bits == 1) return c ? a : mkNot1(a);
      if (a->op == E_ZEXT) { if (c >> a->a->bits) return mkConst(0, 1); return mkBin(E_EQ, a->a, mkConst(c, a->a->bits)); }
      if (a->op == E_ADD && isC(a->b)) return mkBin(E_EQ, a->a, mkConst(c - a->b->c, bits));
      if (a->op == E_XOR && isC(a->b)) return mkBin(E_EQ, a->a, mkConst(c ^ a->b->c, bits));
      if (a->op == E_ITE && isC(a->b) && isC(a->d)) {
        bool t = a->b->c == c, f = a->d->c == c;
        if (t && f) return mkConst(1, 1); if (!t && !f) return mkConst(0, 1); return t ? a->a : mkNot1(a->a);
      }
      if (a->op == E_ITE && (isC(a->b) || isC(a->d)) && bits <= 64) {
        // push equality through tables of constants
        return mkIte(a->a, mkBin(E_EQ, a->b, b), mkBin(E_EQ, a->d, b));
      }
      break;
    case E_ULT: if (!c) return mkConst(0, 1);
      if (c == 1) return mkBin(E_EQ, a, mkConst(0, bits));
      if (a->op == E_ZEXT) { if (c > maskb(a->a->bits)) return mkConst(1, 1); return mkBin(E_ULT, a->a, mkConst(c, a->a->bits)); } break;
    case E_ULE: if (c == m) return mkConst(1, 1); return mkBin(E_ULT, a, mkConst(c + 1, bits));
    case E_SLT: if (a->op == E_ZEXT && sxt(c, bits) >= 0) return mkBin(E_ULT, a, b);
      if (a->op == E_ZEXT) return mkConst(0, 1); break;
    default: break;
    }
  }
  if (isC(a)) {
    uint64_t c = a->c;
    if ((op == E_SHL || op == E_LSHR) && !c) return a;
    if (op == E_ULT && c == m) return mkConst(0, 1);
    if (op == E_ULT) return mkNot1(mkBin(E_ULT, b, mkConst(c + 1, bits)));  // c<b == !(b<c+1)
    if (op == E_ULE && c == 0) return mkConst(1, 1);
    if (op == E_ULE) return mkNot1(mkBin(E_ULT, b, a));
    if (op == E_SLT && b->op == E_ZEXT) { if (sxt(c, bits) < 0) return mkConst(1, 1); return mkBin(E_ULT, a, b); }
  }
  if (a == b) switch (op) {
    case E_SUB: case E_XOR: return mkConst(0, bits); case E_AND: case E_OR: return a;
    case E_EQ: case E_ULE: case E_SLE: return mkConst(1, 1); case E_ULT: case E_SLT: return mkConst(0, 1); default: break; }
  if (op == E_EQ && a->op == E_ZEXT && b->op == E_ZEXT && a->a->bits == b->a->bits) return mkBin(E_EQ, a->a, b->a);
  if ((op == E_SHL) && isC(b) && a->op == E_ZEXT && b->c + a->a->bits <= (uint64_t)bits && b->c < 64) {
    Expr *lo = b->c ? mkConst(0, (int)b->c) : nullptr; (void)lo;
    int k = (int)b->c; Expr *x = mkConcat(a->a, mkConst(0, k)); return mkExt(E_ZEXT, x, bits);
  }
  return intern(op, rb, 0, 0, a, b, 0);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->bits == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot1(c);
    if (isC(a)) return a->c ? mkBin(E_OR, c, b) : mkBin(E_AND, mkNot1(c), b);
    if (isC(b)) return b->c ? mkBin(E_OR, mkNot1(c), a) : mkBin(E_AND, c, a);
  }
  return intern(E_ITE, a->bits, 0, 0, c, a, b);
}
Expr *mkExtract(Expr *a, int lo, int bits) {
  if (lo == 0 && bits == a->bits) return a;
  if (isC(a)) return mkConst(a->c >> lo, bits);
  switch (a->op) {
  case E_EXTRACT: return mkExtract(a->a, a->aux + lo, bits);
  case E_ZEXT: { int ib = a->a->bits; if (lo >= ib) return mkConst(0, bits);
      if (lo + bits <= ib) return mkExtract(a->a, lo, bits);
      return mkExt(E_ZEXT, mkExtract(a->a, lo, ib - lo), bits); }
  case E_SEXT: { int ib = a->a->bits; if (lo + bits <= ib) return mkExtract(a->a, lo, bits); break; }
  case E_CONCAT: { int lb = a->b->bits; if (lo >= lb) return mkExtract(a->a, lo - lb, bits);
      if (lo + bits <= lb) return mkExtract(a->b, lo, bits);
      return mkConcat(mkExtract(a->a, 0, lo + bits - lb), mkExtract(a->b, lo, lb - lo)); }
  case E_AND: case E_OR: case E_XOR: return mkBin(a->op, mkExtract(a->a, lo, bits), mkExtract(a->b, lo, bits));
  case E_ADD: case E_SUB: if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, bits), mkExtract(a->b, 0, bits)); break;
  case E_ITE: return mkIte(a->a, mkExtract(a->b, lo, bits), mkExtract(a->d, lo, bits));
  case E_LSHR: if (isC(a->b) && lo + (int)a->b->c + bits <= a->bits) return mkExtract(a->a, lo + a->b->c, bits); break;
  default: break;
  }
  return intern(E_EXTRACT, bits, lo, 0, a, 0, 0);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  int bits = hi->bits + lo->bits;
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->bits) | lo->c, bits);
  if (isC(hi) && hi->c == 0) return mkExt(E_ZEXT, lo, bits);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->bits) return mkExtract(hi->a, lo->aux, bits);
  // hi is an extract of x just above the full low part x[lo-1:0] that was simplified
  if (hi->op == E_EXTRACT && hi->aux == lo->bits && mkExtract(hi->a, 0, lo->bits) == lo) return mkExtract(hi->a, 0, bits);
  return intern(E_CONCAT, bits, 0, 0, hi, lo, 0);
}
Expr *mkExt(EOp op, Expr *a, int bits) {
  if (bits == a->bits) return a;
  if (isC(a)) return mkConst(op == E_ZEXT ? a->c : (uint64_t)sxt(a->c, a->bits), bits);
  if (a->op == E_ZEXT) return mkExt(E_ZEXT, a->a, bits);
  if (op == E_SEXT && a->op == E_SEXT) return mkExt(E_SEXT, a->a, bits);
  return intern(op, bits, 0, 0, a, 0, 0);
}
uint64_t evalExpr(Expr *e, uint32_t ep, bool ub) {
  switch (e->op) {
  case E_CONST: return e->c;
  case E_SYM: return ub ? syms[e->aux].boundv : syms[e->aux].model;
  default: break;
  }
  if (e->epoch == ep) return e->ev;
  uint64_t r;
  switch (e->op) {
  case E_ITE: r = evalExpr(e->a, ep, ub) ? evalExpr(e->b, ep, ub) : evalExpr(e->d, ep, ub); break;
  case E_CONCAT: r = (evalExpr(e->a, ep, ub) << e->b->bits) | evalExpr(e->b, ep, ub); break;
  case E_EXTRACT: r = (evalExpr(e->a, ep, ub) >> e->aux) & maskb(e->bits); break;
  case E_ZEXT: r = evalExpr(e->a, ep, ub); break;
  case E_SEXT: r = (uint64_t)sxt(evalExpr(e->a, ep, ub), e->a->bits) & maskb(e->bits); break;
  default: r = concBin(e->op, evalExpr(e->a, ep, ub), evalExpr(e->b, ep, ub), e->a->bits);
  }
  e->ev = r; e->epoch = ep; return r;
}
static Z3_ast b2bv(Z3_ast b) { Z3_sort s = Z3_mk_bv_sort(Z, 1); return Z3_mk_ite(Z, b, Z3_mk_unsigned_int64(Z, 1, s), Z3_mk_unsigned_int64(Z, 0, s)); }
Z3_ast toZ3Bool(Expr *e) {
  switch (e->op) {
  case E_EQ: return Z3_mk_eq(Z, toZ3(e->a), toZ3(e->b));
  case E_ULT: return Z3_mk_bvult(Z, toZ3(e->a), toZ3(e->b));
  case E_ULE: return Z3_mk_bvule(Z, toZ3(e->a), toZ3(e->b));
  case E_SLT: return Z3_mk_bvslt(Z, toZ3(e->a), toZ3(e->b));
  case E_SLE: return Z3_mk_bvsle(Z, toZ3(e->a), toZ3(e->b));
  case E_CONST: return e->c ? Z3_mk_true(Z) : Z3_mk_false(Z);
  case E_XOR: if (isC(e->b) && e->b->c == 1 && e->bits == 1) return Z3_mk_not(Z, toZ3Bool(e->a)); break;
  case E_AND: if (e->bits == 1) { Z3_ast v[2] = {toZ3Bool(e->a), toZ3Bool(e->b)}; return Z3_mk_and(Z, 2, v); } break;
  case E_OR: if (e->bits == 1) { Z3_ast v[2] = {toZ3Bool(e->a), toZ3Bool(e->b)}; return Z3_mk_or(Z, 2, v); } break;
  case E_ITE: if (e->bits == 1) return Z3_mk_ite(Z, toZ3Bool(e->a), toZ3Bool(e->b), toZ3Bool(e->d)); break;
  default: break;
  }
  return Z3_mk_eq(Z, toZ3(e), Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)));
}
Z3_ast toZ3(Expr *e) {
  if (e->z) return e->z;
  Z3_ast r = nullptr;
  switch (e->op) {
  case E_CONST: r = Z3_mk_unsigned_int64(Z, e->c, Z3_mk_bv_sort(Z, e->bits)); break;
  case E_SYM: r = syms[e->aux].z; break;
  case E_ADD: r = Z3_mk_bvadd(Z, toZ3(e->a), toZ3(e->b)); break;
  case E_SUB: r = Z3_mk_bvsub(Z, toZ3(e->a), toZ3(e->b)); break;
  case E_MUL: r = Z3_mk_bvmul(Z, toZ3(e->a), toZ3(e->b)); break;
  case E_UDIV: r = Z3_mk_bvudiv(Z, toZ3(e->a), toZ3(e->b)); break;
  case E_SDIV: r = Z3_mk_bvsdiv(Z, toZ3(e->a), toZ3(e->b)); break;
  case E_UREM: r = Z3_mk_bvurem(Z, toZ3(e->a), toZ3(e->b)); break;
  case E_SREM: r = Z3_mk_bvsrem(Z, toZ3(e->a), toZ3(e->b)); break;
  case E_SHL: r = Z3_mk_bvshl(Z, toZ3(e->a), toZ3(e->b)); break;
  case E_LSHR: r = Z3_mk_bvlshr(Z, toZ3(e->a), toZ3(e->b)); break;
  case E_ASHR: r = Z3_mk_bvashr(Z, toZ3(e->a), toZ3(e->b)); break;
  case E_AND: r = e->bits == 1 ? b2bv(toZ3Bool(e)) : Z3_mk_bvand(Z, toZ3(e->a), toZ3(e->b)); break;
  case E_OR: r = e->bits == 1 ? b2bv(toZ3Bool(e)) : Z3_mk_bvor(Z, toZ3(e->a), toZ3(e->b)); break;
  case E_XOR: r = Z3_mk_bvxor(Z, toZ3(e->a), toZ3(e->b)); break;
  case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: r = b2bv(toZ3Bool(e)); break;
  case E_ITE: r = Z3_mk_ite(Z, toZ3Bool(e->a), toZ3(e->b), toZ3(e->d)); break;
  case E_CONCAT: r = Z3_mk_concat(Z, toZ3(e->a), toZ3(e->b)); break;
  case E_EXTRACT: r = Z3_mk_extract(Z, e->aux + e->bits - 1, e->aux, toZ3(e->a)); break;
  case E_ZEXT: r = Z3_mk_zero_ext(Z, e->bits - e->a->bits, toZ3(e->a)); break;
  case E_SEXT: r = Z3_mk_sign_ext(Z, e->bits - e->a->bits, toZ3(e->a)); break;
  }
  Z3_inc_ref(Z, r); e->z = r; return r;
}
