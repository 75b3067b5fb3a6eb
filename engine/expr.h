// Hash-consed bit-vector expressions (width <= 64) over symbolic bytes, with constant folding,
// and their translation to Z3.
#pragma once
#include <z3.h>

#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

enum Op : uint8_t {
  XVar, XConst, XAdd, XSub, XMul, XUDiv, XSDiv, XURem, XSRem, XAnd, XOr, XXor, XShl, XLShr, XAShr,
  XEq, XUlt, XUle, XSlt, XSle, XIte, XZExt, XSExt, XExtract, XConcat
};

typedef std::vector<uint64_t> VarSet;  // bitset over variable indices

struct Expr {
  Op op;
  uint8_t w;       // width in bits
  uint32_t id;
  uint64_t c;      // constant / variable index / extract offset
  const Expr *k[3];
  mutable std::shared_ptr<VarSet> vars;
  mutable Z3_ast z3 = nullptr;
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

struct ExprKey {
  Op op; uint8_t w; uint64_t c; const Expr *k0, *k1, *k2;
  bool operator==(const ExprKey &o) const {
    return op == o.op && w == o.w && c == o.c && k0 == o.k0 && k1 == o.k1 && k2 == o.k2;
  }
};
struct ExprKeyHash {
  size_t operator()(const ExprKey &k) const {
    uint64_t h = k.op * 0x9E3779B97F4A7C15ull + k.w;
    auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
    mix(k.c); mix((uint64_t)k.k0); mix((uint64_t)k.k1); mix((uint64_t)k.k2);
    return h;
  }
};

extern Z3_context Z;
const Expr *mkRaw(Op op, unsigned w, uint64_t c, const Expr *a = 0, const Expr *b = 0, const Expr *d = 0);
const Expr *mkConst(uint64_t v, unsigned w);
const Expr *mkVar(uint32_t idx);
const Expr *mkBin(Op op, const Expr *a, const Expr *b);
const Expr *mkIte(const Expr *c, const Expr *a, const Expr *b);
const Expr *mkZExt(const Expr *a, unsigned w);
const Expr *mkSExt(const Expr *a, unsigned w);
const Expr *mkExtract(const Expr *a, unsigned off, unsigned w);
const Expr *mkConcat(const Expr *hi, const Expr *lo);
const Expr *mkNot(const Expr *a);
uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w, bool &ok);
const VarSet &varsOf(const Expr *e);
uint64_t evalExpr(const Expr *e, const std::vector<uint8_t> &model);
Z3_ast toZ3(const Expr *e);
std::string exprStr(const Expr *e, int depth = 4);
static inline bool isC(const Expr *e) { return e->op == XConst; }
