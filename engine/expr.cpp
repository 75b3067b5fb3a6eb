#include "expr.h"

Z3_context Z;
static std::unordered_map<ExprKey, Expr *, ExprKeyHash> tab;
static uint32_t nextId = 1;

const Expr *mkRaw(Op op, unsigned w, uint64_t c, const Expr *a, const Expr *b, const Expr *d) {
  ExprKey key{op, (uint8_t)w, c, a, b, d};
  auto it = tab.find(key);
  if (it != tab.end()) return it->second;
  Expr *e = new Expr();
  e->op = op; e->w = (uint8_t)w; e->c = c; e->id = nextId++;
  e->k[0] = a; e->k[1] = b; e->k[2] = d;
  tab.emplace(key, e);
  return e;
}
const Expr *mkConst(uint64_t v, unsigned w) { return mkRaw(XConst, w, v & maskw(w)); }
const Expr *mkVar(uint32_t idx) { return mkRaw(XVar, 8, idx); }

uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w, bool &ok) {
  ok = true;
  uint64_t m = maskw(w);
  a &= m; b &= m;
  switch (op) {
    case XAdd: return (a + b) & m;
    case XSub: return (a - b) & m;
    case XMul: return (a * b) & m;
    case XUDiv: if (!b) { ok = false; return 0; } return a / b;
    case XURem: if (!b) { ok = false; return 0; } return a % b;
    case XSDiv: { int64_t y = sx(b, w), x = sx(a, w); if (!y || (y == -1 && a == (1ull << (w - 1)))) { ok = false; return 0; } return (uint64_t)(x / y) & m; }
    case XSRem: { int64_t y = sx(b, w), x = sx(a, w); if (!y || (y == -1 && a == (1ull << (w - 1)))) { ok = false; return 0; } return (uint64_t)(x % y) & m; }
    case XAnd: return a & b;
    case XOr: return a | b;
    case XXor: return a ^ b;
    case XShl: return b >= w ? 0 : (a << b) & m;
    case XLShr: return b >= w ? 0 : a >> b;
    case XAShr: { int64_t x = sx(a, w); return (uint64_t)(x >> (b >= w ? (w - 1 > 63 ? 63 : w - 1) : b)) & m; }
    case XEq: return a == b;
    case XUlt: return a < b;
    case XUle: return a <= b;
    case XSlt: return sx(a, w) < sx(b, w);
    case XSle: return sx(a, w) <= sx(b, w);
    default: abort();
  }
}
static bool isCmp(Op op) { return op >= XEq && op <= XSle; }
static bool isComm(Op op) { return op == XAdd || op == XMul || op == XAnd || op == XOr || op == XXor || op == XEq; }

const Expr *mkNot(const Expr *a) {
  assert(a->w == 1);
  if (isC(a)) return mkConst(!a->c, 1);
  if (a->op == XXor && isC(a->k[1]) && a->k[1]->c == 1) return a->k[0];
  return mkRaw(XXor, 1, 0, a, mkConst(1, 1));
}

const Expr *mkBin(Op op, const Expr *a, const Expr *b) {
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
  unsigned w = a->w;
  unsigned rw = isCmp(op) ? 1 : w;
  if (isC(a) && isC(b)) {
    bool ok;
    uint64_t v = foldBin(op, a->c, b->c, w, ok);
    if (ok) return mkConst(v, rw);
  }
  if (isComm(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  uint64_t m = maskw(w);
  switch (op) {
    case XAdd:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (a->op == XAdd && isC(a->k[1])) return mkBin(XAdd, a->k[0], mkConst(a->k[1]->c + b->c, w));
      }
      break;
    case XSub:
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(XAdd, a, mkConst(-b->c, w));
      break;
    case XMul:
      if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a; }
      break;
    case XUDiv: if (isC(b) && b->c == 1) return a; break;
    case XAnd:
      if (a == b) return a;
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == m) return a;
        if (a->op == XZExt && (b->c & maskw(a->k[0]->w)) == maskw(a->k[0]->w)) return a;
        if (a->op == XAnd && isC(a->k[1])) return mkBin(XAnd, a->k[0], mkConst(a->k[1]->c & b->c, w));
        if (a->op == XZExt && (b->c >> a->k[0]->w) == 0)
          return mkZExt(mkBin(XAnd, a->k[0], mkConst(b->c, a->k[0]->w)), w);
        if (a->op == XConcat) {
          unsigned lw = a->k[1]->w;
          if ((b->c & ~maskw(lw)) == 0) return mkZExt(mkBin(XAnd, a->k[1], mkConst(b->c, lw)), w);
        }
      }
      break;
    case XOr:
      if (a == b) return a;
      if (isC(b)) { if (b->c == 0) return a; if (b->c == m) return b; }
      break;
    case XXor:
      if (a == b) return mkConst(0, w);
      if (isC(b)) {
        if (b->c == 0) return a;
        if (a->op == XXor && isC(a->k[1])) return mkBin(XXor, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
      }
      break;
    case XShl:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(0, w);
        return mkConcat(mkExtract(a, 0, w - b->c), mkConst(0, b->c));
      }
      break;
    case XLShr:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(0, w);
        return mkZExt(mkExtract(a, b->c, w - b->c), w);
      }
      break;
    case XAShr: if (isC(b) && b->c == 0) return a; break;
    case XEq:
      if (a == b) return mkConst(1, 1);
      if (isC(b)) {
        if (w == 1) return b->c ? a : mkNot(a);
        if (a->op == XZExt) {
          unsigned iw = a->k[0]->w;
          if (b->c >> iw) return mkConst(0, 1);
          return mkBin(XEq, a->k[0], mkConst(b->c, iw));
        }
        if (a->op == XSExt) {
          unsigned iw = a->k[0]->w;
          if (((uint64_t)sx(b->c, iw) & m) != b->c) return mkConst(0, 1);
          return mkBin(XEq, a->k[0], mkConst(b->c, iw));
        }
        if (a->op == XAdd && isC(a->k[1])) return mkBin(XEq, a->k[0], mkConst(b->c - a->k[1]->c, w));
        if (a->op == XXor && isC(a->k[1])) return mkBin(XEq, a->k[0], mkConst(b->c ^ a->k[1]->c, w));
        if (a->op == XIte && isC(a->k[1]) && isC(a->k[2])) {
          bool t = a->k[1]->c == b->c, f = a->k[2]->c == b->c;
          if (t && f) return mkConst(1, 1);
          if (!t && !f) return mkConst(0, 1);
          return t ? a->k[0] : mkNot(a->k[0]);
        }
        if (a->op == XIte && isC(a->k[1]) && a->k[1]->c != b->c)
          return mkBin(XAnd, mkNot(a->k[0]), mkBin(XEq, a->k[2], b));
        if (a->op == XIte && isC(a->k[2]) && a->k[2]->c != b->c)
          return mkBin(XAnd, a->k[0], mkBin(XEq, a->k[1], b));
        if (a->op == XConcat) {
          unsigned lw = a->k[1]->w;
          const Expr *h = mkBin(XEq, a->k[0], mkConst(b->c >> lw, a->k[0]->w));
          const Expr *l = mkBin(XEq, a->k[1], mkConst(b->c, lw));
          return mkBin(XAnd, h, l);
        }
      }
      break;
    case XUlt:
      if (a == b) return mkConst(0, 1);
      if (isC(b) && b->c == 0) return mkConst(0, 1);
      if (isC(b) && b->c == 1) return mkBin(XEq, a, mkConst(0, w));
      if (isC(b) && a->op == XZExt) {
        unsigned iw = a->k[0]->w;
        if (b->c > maskw(iw)) return mkConst(1, 1);
        return mkBin(XUlt, a->k[0], mkConst(b->c, iw));
      }
      if (isC(a) && b->op == XZExt) {
        unsigned iw = b->k[0]->w;
        if (a->c >= maskw(iw)) return mkConst(0, 1);
        return mkBin(XUlt, mkConst(a->c, iw), b->k[0]);
      }
      if (isC(a) && a->c == m) return mkConst(0, 1);
      break;
    case XUle:
      if (a == b) return mkConst(1, 1);
      return mkNot(mkBin(XUlt, b, a));
    case XSle:
      if (a == b) return mkConst(1, 1);
      return mkNot(mkBin(XSlt, b, a));
    case XSlt:
      if (a == b) return mkConst(0, 1);
      if (a->op == XZExt && isC(b) && a->k[0]->w < w) {
        if (sx(b->c, w) <= 0) return mkConst(0, 1);
        return mkBin(XUlt, a, b);
      }
      if (b->op == XZExt && isC(a) && b->k[0]->w < w) {
        if (sx(a->c, w) < 0) return mkConst(1, 1);
        return mkBin(XUlt, a, b);
      }
      break;
    default: break;
  }
  return mkRaw(op, rw, 0, a, b);
}

const Expr *mkIte(const Expr *c, const Expr *a, const Expr *b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkBin(XOr, c, b) : mkBin(XAnd, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(XOr, mkNot(c), a) : mkBin(XAnd, c, a);
  }
  return mkRaw(XIte, a->w, 0, c, a, b);
}
const Expr *mkZExt(const Expr *a, unsigned w) {
  if (a->w == w) return a;
  assert(a->w < w);
  if (isC(a)) return mkConst(a->c, w);
  if (a->op == XZExt) return mkZExt(a->k[0], w);
  return mkRaw(XZExt, w, 0, a);
}
const Expr *mkSExt(const Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst((uint64_t)sx(a->c, a->w), w);
  if (a->op == XZExt) return mkZExt(a->k[0], w);
  return mkRaw(XSExt, w, 0, a);
}
const Expr *mkExtract(const Expr *a, unsigned off, unsigned w) {
  if (off == 0 && a->w == w) return a;
  assert(off + w <= a->w);
  if (isC(a)) return mkConst(a->c >> off, w);
  if (a->op == XExtract) return mkExtract(a->k[0], off + a->c, w);
  if (a->op == XZExt) {
    unsigned iw = a->k[0]->w;
    if (off >= iw) return mkConst(0, w);
    if (off + w <= iw) return mkExtract(a->k[0], off, w);
    return mkZExt(mkExtract(a->k[0], off, iw - off), w);
  }
  if (a->op == XSExt) {
    unsigned iw = a->k[0]->w;
    if (off + w <= iw) return mkExtract(a->k[0], off, w);
  }
  if (a->op == XConcat) {
    unsigned lw = a->k[1]->w;
    if (off >= lw) return mkExtract(a->k[0], off - lw, w);
    if (off + w <= lw) return mkExtract(a->k[1], off, w);
    return mkConcat(mkExtract(a->k[0], 0, off + w - lw), mkExtract(a->k[1], off, lw - off));
  }
  if (a->op == XIte && (isC(a->k[1]) || isC(a->k[2])))
    return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w));
  if (a->op == XAnd || a->op == XOr || a->op == XXor)
    return mkBin(a->op, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
  return mkRaw(XExtract, w, off, a);
}
const Expr *mkConcat(const Expr *hi, const Expr *lo) {
  unsigned w = hi->w + lo->w;
  assert(w <= 64);
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
  if (hi->op == XExtract && lo->op == XExtract && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w)
    return mkExtract(hi->k[0], lo->c, w);
  // Extract(x, k, n) ++ x[0..k) where the low part is not an XExtract node (it covers all of x).
  if (hi->op == XExtract && hi->k[0] == lo && hi->c == lo->w) return mkRaw(XConcat, w, 0, hi, lo);
  if (hi->op == XExtract && lo->op == XConcat && lo->k[0]->op == XExtract &&
      hi->k[0] == lo->k[0]->k[0] && hi->c == lo->k[0]->c + lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0], lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
  if (hi->op == XZExt) {
    // zext(a) ++ lo  ==> zext(a ++ lo)
    return mkZExt(mkConcat(hi->k[0], lo), w);
  }
  return mkRaw(XConcat, w, 0, hi, lo);
}

const VarSet &varsOf(const Expr *e) {
  if (e->vars) return *e->vars;
  if (e->op == XVar) {
    auto v = std::make_shared<VarSet>(e->c / 64 + 1, 0);
    (*v)[e->c / 64] |= 1ull << (e->c % 64);
    e->vars = v;
    return *v;
  }
  std::shared_ptr<VarSet> res;
  for (int i = 0; i < 3 && e->k[i]; i++) {
    const VarSet &s = varsOf(e->k[i]);
    if (s.empty()) continue;
    if (!res) { res = e->k[i]->vars; continue; }
    bool sub = s.size() <= res->size();
    if (sub) for (size_t j = 0; j < s.size(); j++) if (s[j] & ~(*res)[j]) { sub = false; break; }
    if (sub) continue;
    auto n = std::make_shared<VarSet>(*res);
    if (n->size() < s.size()) n->resize(s.size(), 0);
    for (size_t j = 0; j < s.size(); j++) (*n)[j] |= s[j];
    res = n;
  }
  if (!res) res = std::make_shared<VarSet>();
  e->vars = res;
  return *res;
}

static std::unordered_map<const Expr *, uint64_t> evalMemo;
static uint64_t ev(const Expr *e, const std::vector<uint8_t> &m) {
  switch (e->op) {
    case XConst: return e->c;
    case XVar: return e->c < m.size() ? m[e->c] : 0;
    default: break;
  }
  auto it = evalMemo.find(e);
  if (it != evalMemo.end()) return it->second;
  uint64_t r;
  switch (e->op) {
    case XIte: r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m); break;
    case XZExt: r = ev(e->k[0], m); break;
    case XSExt: r = (uint64_t)sx(ev(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
    case XExtract: r = (ev(e->k[0], m) >> e->c) & maskw(e->w); break;
    case XConcat: r = (ev(e->k[0], m) << e->k[1]->w) | ev(e->k[1], m); break;
    default: {
      bool ok;
      uint64_t a = ev(e->k[0], m), b = ev(e->k[1], m);
      unsigned w = e->k[0]->w;
      r = foldBin(e->op, a, b, w, ok);
      if (!ok) {  // SMT-LIB semantics of division by zero
        switch (e->op) {
          case XUDiv: r = maskw(w); break;
          case XURem: r = a; break;
          case XSDiv: r = b == 0 ? (sx(a, w) < 0 ? 1 : maskw(w)) : a; break;
          default: r = b == 0 ? a : 0; break;
        }
      }
    }
  }
  evalMemo[e] = r;
  return r;
}
uint64_t evalExpr(const Expr *e, const std::vector<uint8_t> &model) {
  evalMemo.clear();
  return ev(e, model);
}

Z3_ast toZ3(const Expr *e) {
  if (e->z3) return e->z3;
  Z3_ast r = 0;
  auto b2bv = [&](Z3_ast b) {
    return Z3_mk_ite(Z, b, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)),
        Z3_mk_unsigned_int64(Z, 0, Z3_mk_bv_sort(Z, 1)));
  };
  auto bv2b = [&](Z3_ast v) {
    return Z3_mk_eq(Z, v, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)));
  };
  Z3_ast a[3] = {0, 0, 0};
  for (int i = 0; i < 3 && e->k[i]; i++) a[i] = toZ3(e->k[i]);
  switch (e->op) {
    case XVar: {
      char nm[32];
      snprintf(nm, sizeof nm, "v%lu", (unsigned long)e->c);
      r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), Z3_mk_bv_sort(Z, 8));
      break;
    }
    case XConst: r = Z3_mk_unsigned_int64(Z, e->c, Z3_mk_bv_sort(Z, e->w)); break;
    case XAdd: r = Z3_mk_bvadd(Z, a[0], a[1]); break;
    case XSub: r = Z3_mk_bvsub(Z, a[0], a[1]); break;
    case XMul: r = Z3_mk_bvmul(Z, a[0], a[1]); break;
    case XUDiv: r = Z3_mk_bvudiv(Z, a[0], a[1]); break;
    case XSDiv: r = Z3_mk_bvsdiv(Z, a[0], a[1]); break;
    case XURem: r = Z3_mk_bvurem(Z, a[0], a[1]); break;
    case XSRem: r = Z3_mk_bvsrem(Z, a[0], a[1]); break;
    case XAnd: r = Z3_mk_bvand(Z, a[0], a[1]); break;
    case XOr: r = Z3_mk_bvor(Z, a[0], a[1]); break;
    case XXor: r = Z3_mk_bvxor(Z, a[0], a[1]); break;
    case XShl: r = Z3_mk_bvshl(Z, a[0], a[1]); break;
    case XLShr: r = Z3_mk_bvlshr(Z, a[0], a[1]); break;
    case XAShr: r = Z3_mk_bvashr(Z, a[0], a[1]); break;
    case XEq: r = b2bv(Z3_mk_eq(Z, a[0], a[1])); break;
    case XUlt: r = b2bv(Z3_mk_bvult(Z, a[0], a[1])); break;
    case XUle: r = b2bv(Z3_mk_bvule(Z, a[0], a[1])); break;
    case XSlt: r = b2bv(Z3_mk_bvslt(Z, a[0], a[1])); break;
    case XSle: r = b2bv(Z3_mk_bvsle(Z, a[0], a[1])); break;
    case XIte: r = Z3_mk_ite(Z, bv2b(a[0]), a[1], a[2]); break;
    case XZExt: r = Z3_mk_zero_ext(Z, e->w - e->k[0]->w, a[0]); break;
    case XSExt: r = Z3_mk_sign_ext(Z, e->w - e->k[0]->w, a[0]); break;
    case XExtract: r = Z3_mk_extract(Z, (unsigned)e->c + e->w - 1, (unsigned)e->c, a[0]); break;
    case XConcat: r = Z3_mk_concat(Z, a[0], a[1]); break;
  }
  Z3_inc_ref(Z, r);
  e->z3 = r;
  return r;
}

std::string exprStr(const Expr *e, int depth) {
  static const char *nm[] = {"var", "const", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem",
      "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "zext",
      "sext", "extract", "concat"};
  if (e->op == XConst) return std::to_string(e->c);
  if (e->op == XVar) return "v" + std::to_string(e->c);
  if (depth == 0) return "...";
  std::string s = "(" + std::string(nm[e->op]) + ":" + std::to_string(e->w);
  if (e->op == XExtract) s += "@" + std::to_string(e->c);
  for (int i = 0; i < 3 && e->k[i]; i++) s += " " + exprStr(e->k[i], depth - 1);
  return s + ")";
}
