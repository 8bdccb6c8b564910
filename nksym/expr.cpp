#include "expr.h"
#include "llvm/ADT/SmallString.h"
#include <cassert>
#include <cstdlib>
#include <cstdio>

ExprPool pool;
std::vector<APInt *> wideConsts;
static std::unordered_map<std::string, uint32_t> wideIndex;
std::vector<uint64_t> varModel;
std::vector<uint32_t> varWidth;
uint64_t evalEpoch = 1;

static Expr *node(Op op, uint32_t w, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr,
                  uint32_t aux = 0, uint64_t k = 0) {
  Expr t;
  memset(&t, 0, sizeof t);
  t.op = op; t.width = w; t.a = a; t.b = b; t.c = c; t.aux = aux; t.k = k;
  return pool.intern(t);
}

Expr *mkConst(uint32_t w, uint64_t v) {
  if (w <= 64) return node(CONST, w, nullptr, nullptr, nullptr, 0, v & maskw(w));
  return mkConst(APInt(w, v));
}
Expr *mkConst(const APInt &v) {
  uint32_t w = v.getBitWidth();
  if (w <= 64) return mkConst(w, v.getZExtValue());
  std::string key((const char *)v.getRawData(), v.getNumWords() * 8);
  key += std::to_string(w);
  auto it = wideIndex.find(key);
  uint32_t ix;
  if (it == wideIndex.end()) {
    ix = wideConsts.size();
    wideConsts.push_back(new APInt(v));
    wideIndex[key] = ix;
  } else ix = it->second;
  return node(CONST, w, nullptr, nullptr, nullptr, ix, 0);
}
APInt constVal(const Expr *e) {
  if (e->width <= 64) return APInt(e->width, e->k);
  return *wideConsts[e->aux];
}
Expr *mkVar(uint32_t w, uint32_t id) { return node(VAR, w, nullptr, nullptr, nullptr, id); }

static bool isZero(const Expr *e) { return isConst(e) && (e->width <= 64 ? e->k == 0 : constVal(e).isZero()); }
static bool isOnes(const Expr *e) { return isConst(e) && constVal(e).isAllOnes(); }
static bool isOne(const Expr *e) { return isConst(e) && constVal(e).isOne(); }

// Upper bound on the number of significant bits (unsigned).
static uint32_t activeBits(Expr *e, int depth = 6) {
  if (isConst(e)) return constVal(e).getActiveBits();
  if (depth == 0) return e->width;
  auto rec = [&](Expr *x) { return activeBits(x, depth - 1); };
  uint32_t w = e->width;
  switch (e->op) {
  case ZEXT: return std::min(w, rec(e->a));
  case AND: return std::min(rec(e->a), rec(e->b));
  case OR: case XOR: return std::max(rec(e->a), rec(e->b));
  case ADD: return std::min(w, std::max(rec(e->a), rec(e->b)) + 1);
  case MUL: return std::min(w, rec(e->a) + rec(e->b));
  case UDIV: {
    uint32_t n = rec(e->a);
    if (isConst(e->b) && !isZero(e->b)) {
      uint32_t d = constVal(e->b).getActiveBits();
      return n >= d ? n - d + 1 : 0;
    }
    return w;
  }
  case UREM:
    if (isConst(e->b) && !isZero(e->b)) return std::min(rec(e->a), constVal(e->b).getActiveBits());
    return std::min(w, rec(e->a));
  case LSHR:
    if (isConst(e->b)) {
      uint64_t s = constVal(e->b).getLimitedValue(w);
      uint32_t n = rec(e->a);
      return n > s ? n - s : 0;
    }
    return rec(e->a);
  case SHL:
    if (isConst(e->b)) {
      uint64_t s = constVal(e->b).getLimitedValue(w);
      return (uint32_t)std::min<uint64_t>(w, rec(e->a) + s);
    }
    return w;
  case EXTRACT: {
    uint32_t n = rec(e->a);
    return n > e->aux ? std::min(w, n - e->aux) : 0;
  }
  case CONCAT: {
    uint32_t hi = rec(e->a);
    return hi ? hi + e->b->width : rec(e->b);
  }
  case ITE: return std::max(rec(e->b), rec(e->c));
  default: return w;
  }
}

// Known upper bound on the value (unsigned), when cheap.
static APInt maxVal(Expr *e) {
  uint32_t n = activeBits(e);
  return APInt::getLowBitsSet(e->width, std::min(n, e->width));
}

static APInt foldBin(Op op, const APInt &a, const APInt &b) {
  uint32_t w = a.getBitWidth();
  switch (op) {
  case ADD: return a + b;
  case SUB: return a - b;
  case MUL: return a * b;
  case UDIV: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b);
  case SDIV: return b.isZero() ? APInt::getAllOnes(w) : a.sdiv(b);
  case UREM: return b.isZero() ? a : a.urem(b);
  case SREM: return b.isZero() ? a : a.srem(b);
  case AND: return a & b;
  case OR: return a | b;
  case XOR: return a ^ b;
  case SHL: return b.uge(w) ? APInt(w, 0) : a.shl(b);
  case LSHR: return b.uge(w) ? APInt(w, 0) : a.lshr(b);
  case ASHR: return b.uge(w) ? a.ashr(w - 1) : a.ashr(b);
  case EQ: return APInt(1, a == b);
  case ULT: return APInt(1, a.ult(b));
  case ULE: return APInt(1, a.ule(b));
  case SLT: return APInt(1, a.slt(b));
  case SLE: return APInt(1, a.sle(b));
  default: abort();
  }
}

Expr *mkNot(Expr *a) {
  assert(a->width == 1);
  if (isConst(a)) return mkConst(1, !a->k);
  if (a->op == XOR && isOne(a->a)) return a->b;
  if (a->op == ULT) return node(ULE, 1, a->b, a->a);
  if (a->op == ULE) return node(ULT, 1, a->b, a->a);
  if (a->op == SLT) return node(SLE, 1, a->b, a->a);
  if (a->op == SLE) return node(SLT, 1, a->b, a->a);
  return node(XOR, 1, mkConst(1, 1), a);
}

static bool isCmp(Op o) { return o >= EQ; }

// c * x that cannot wrap, with a constant c that is not zero: x, else null.
static Expr *scaled(Expr *e, APInt &c) {
  if (e->op != MUL || !isConst(e->a) || isZero(e->a)) return nullptr;
  if (activeBits(e->a) + activeBits(e->b) > e->width) return nullptr;
  c = constVal(e->a);
  return e->b;
}
// c + x that cannot wrap, with a constant c: x, else null.
static Expr *shifted(Expr *e, APInt &c) {
  if (e->op != ADD || !isConst(e->a)) return nullptr;
  if (activeBits(e->a) >= e->width || activeBits(e->b) >= e->width) return nullptr;
  c = constVal(e->a);
  return e->b;
}

Expr *mkBin(Op op, Expr *a, Expr *b) {
  assert(a->width == b->width);
  uint32_t w = a->width;
  if (isConst(a) && isConst(b)) return mkConst(foldBin(op, constVal(a), constVal(b)));
  bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
  if (comm) {
    if (isConst(b)) std::swap(a, b);
    else if (!isConst(a) && a->id > b->id) std::swap(a, b);
  }
  // Distribute over ite when that folds to constants on both sides.
  if (isConst(a) && b->op == ITE && isConst(b->b) && isConst(b->c))
    return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
  if (isConst(b) && a->op == ITE && isConst(a->b) && isConst(a->c))
    return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
  switch (op) {
  case ADD:
    if (isZero(a)) return b;
    if (isConst(a) && b->op == ADD && isConst(b->a)) return mkBin(ADD, mkBin(ADD, a, b->a), b->b);
    if (isConst(a) && b->op == SUB && isConst(b->a)) return mkBin(SUB, mkBin(ADD, a, b->a), b->b);
    // (x - y) + y = x
    if (b->op == SUB && b->b == a) return b->a;
    if (a->op == SUB && a->b == b) return a->a;
    if (w == 1) return mkBin(XOR, a, b);
    break;
  case SUB:
    if (a == b) return mkConst(w, 0);
    if (isZero(b)) return a;
    if (isConst(b)) return mkBin(ADD, mkConst(-constVal(b)), a);
    if (a->op == ADD && a->a == b) return a->b;
    if (a->op == ADD && a->b == b) return a->a;
    if (a->op == ADD && b->op == ADD && isConst(a->a) && a->a == b->a) return mkBin(SUB, a->b, b->b);
    if (a->op == MUL && b->op == MUL && isConst(a->a) && a->a == b->a) return mkBin(MUL, a->a, mkBin(SUB, a->b, b->b));
    if (w == 1) return mkBin(XOR, a, b);
    break;
  case MUL:
    if (isZero(a)) return a;
    if (isOne(a)) return b;
    if (isConst(a) && constVal(a).isPowerOf2())
      return mkBin(SHL, b, mkConst(APInt(w, constVal(a).logBase2())));
    if (isConst(a) && b->op == MUL && isConst(b->a)) return mkBin(MUL, mkBin(MUL, a, b->a), b->b);
    break;
  case UDIV:
    if (isOne(b)) return a;
    if (isConst(b) && !isZero(b)) {
      APInt d = constVal(b);
      if (d.isPowerOf2()) return mkBin(LSHR, a, mkConst(APInt(w, d.logBase2())));
      if (maxVal(a).ult(d)) return mkConst(w, 0);
      // (C*x) / D with no overflow and D | C
      if (a->op == MUL && isConst(a->a)) {
        APInt c = constVal(a->a);
        bool ovf = false;
        (void)c.umul_ov(maxVal(a->b), ovf);
        if (!ovf && c.urem(d).isZero()) return mkBin(MUL, mkConst(c.udiv(d)), a->b);
        if (!ovf && !c.isZero() && d.urem(c).isZero()) return mkBin(UDIV, a->b, mkConst(d.udiv(c)));
      }
      // (C1 + C*x) / D, D | C, no overflow
      if (a->op == ADD && isConst(a->a) && a->b->op == MUL && isConst(a->b->a)) {
        APInt c1 = constVal(a->a), c = constVal(a->b->a);
        bool o1 = false, o2 = false;
        APInt m = c.umul_ov(maxVal(a->b->b), o1);
        (void)m.uadd_ov(c1, o2);
        if (!o1 && !o2 && c.urem(d).isZero())
          return mkBin(ADD, mkConst(c1.udiv(d)), mkBin(MUL, mkConst(c.udiv(d)), a->b->b));
      }
      // narrow
      uint32_t n = std::max(activeBits(a), d.getActiveBits());
      if (n < w && n > 0 && a->op != CONST)
        return mkZExt(mkBin(UDIV, mkExtract(a, 0, n), mkConst(d.trunc(n))), w);
    }
    break;
  case UREM:
    if (isOne(b)) return mkConst(w, 0);
    if (isConst(b) && !isZero(b)) {
      APInt d = constVal(b);
      if (d.isPowerOf2()) return mkBin(AND, mkConst(d - 1), a);
      if (maxVal(a).ult(d)) return a;
      if (a->op == MUL && isConst(a->a)) {
        APInt c = constVal(a->a);
        bool ovf = false;
        (void)c.umul_ov(maxVal(a->b), ovf);
        if (!ovf && c.urem(d).isZero()) return mkConst(w, 0);
      }
      if (a->op == ADD && isConst(a->a) && a->b->op == MUL && isConst(a->b->a)) {
        APInt c1 = constVal(a->a), c = constVal(a->b->a);
        bool o1 = false, o2 = false;
        APInt m = c.umul_ov(maxVal(a->b->b), o1);
        (void)m.uadd_ov(c1, o2);
        if (!o1 && !o2 && c.urem(d).isZero()) return mkConst(c1.urem(d));
      }
      uint32_t n = std::max(activeBits(a), d.getActiveBits());
      if (n < w && n > 0)
        return mkZExt(mkBin(UREM, mkExtract(a, 0, n), mkConst(d.trunc(n))), w);
    }
    break;
  case AND:
    if (isZero(a)) return a;
    if (isOnes(a)) return b;
    if (a == b) return a;
    if (isConst(a)) {
      APInt m = constVal(a);
      // low mask => zext(extract)
      if (m.isMask()) {
        uint32_t n = m.getActiveBits();
        if (n < w) return mkZExt(mkExtract(b, 0, n), w);
      }
      if (b->op == AND && isConst(b->a)) return mkBin(AND, mkBin(AND, a, b->a), b->b);
      if (b->op == ZEXT) {
        uint32_t n = b->a->width;
        return mkZExt(mkBin(AND, mkConst(m.trunc(n)), b->a), w);
      }
      if (b->op == CONCAT) {
        uint32_t lw = b->b->width;
        return mkConcat(mkBin(AND, mkConst(m.extractBits(w - lw, lw)), b->a),
                        mkBin(AND, mkConst(m.trunc(lw)), b->b));
      }
    }
    if (w == 1) {
      if (a->op == XOR && isOne(a->a) && a->b == b) return mkConst(1, 0);
      if (b->op == XOR && isOne(b->a) && b->b == a) return mkConst(1, 0);
    }
    break;
  case OR:
    if (isZero(a)) return b;
    if (isOnes(a)) return a;
    if (a == b) return a;
    if (w == 1) {
      if (a->op == XOR && isOne(a->a) && a->b == b) return mkConst(1, 1);
      if (b->op == XOR && isOne(b->a) && b->b == a) return mkConst(1, 1);
    } else {
      // or of disjoint pieces: (zext x) | (y << n)
      Expr *lo = a, *hi = b;
      for (int t = 0; t < 2; t++, std::swap(lo, hi)) {
        if (hi->op == CONCAT && isZero(hi->b)) {
          uint32_t n = hi->b->width;
          if (activeBits(lo) <= n) return mkConcat(hi->a, mkExtract(lo, 0, n));
        }
      }
      if (a->op == CONCAT && b->op == CONCAT && a->b->width == b->b->width)
        return mkConcat(mkBin(OR, a->a, b->a), mkBin(OR, a->b, b->b));
      if (isConst(a) && b->op == CONCAT) {
        APInt m = constVal(a);
        uint32_t lw = b->b->width;
        return mkConcat(mkBin(OR, mkConst(m.extractBits(w - lw, lw)), b->a),
                        mkBin(OR, mkConst(m.trunc(lw)), b->b));
      }
    }
    break;
  case XOR:
    if (isZero(a)) return b;
    if (a == b) return mkConst(w, 0);
    if (w == 1 && isOne(a)) return mkNot(b);
    if (isConst(a) && b->op == XOR && isConst(b->a)) return mkBin(XOR, mkBin(XOR, a, b->a), b->b);
    break;
  case SHL:
    if (isZero(b)) return a;
    if (isConst(b)) {
      uint64_t s = constVal(b).getLimitedValue(w);
      if (s >= w) return mkConst(w, 0);
      return mkConcat(mkExtract(a, 0, w - s), mkConst(APInt(s, 0)));
    }
    break;
  case LSHR:
    if (isZero(b)) return a;
    if (isConst(b)) {
      uint64_t s = constVal(b).getLimitedValue(w);
      if (s >= w) return mkConst(w, 0);
      return mkZExt(mkExtract(a, s, w - s), w);
    }
    break;
  case ASHR:
    if (isZero(b)) return a;
    if (isConst(b)) {
      uint64_t s = constVal(b).getLimitedValue(w);
      if (s >= w) s = w - 1;
      return mkSExt(mkExtract(a, s, w - s), w);
    }
    break;
  case EQ:
    if (a == b) return mkConst(1, 1);
    if (w == 1 && isConst(a)) return a->k ? b : mkNot(b);
    if (isConst(a)) {
      APInt c = constVal(a);
      if (b->op == ZEXT) {
        uint32_t n = b->a->width;
        if (c.getActiveBits() > n) return mkConst(1, 0);
        return mkBin(EQ, mkConst(c.trunc(n)), b->a);
      }
      if (b->op == SEXT) {
        uint32_t n = b->a->width;
        if (c.trunc(n).sext(w) != c) return mkConst(1, 0);
        return mkBin(EQ, mkConst(c.trunc(n)), b->a);
      }
      if (b->op == CONCAT) {
        uint32_t lw = b->b->width;
        Expr *h = mkBin(EQ, mkConst(c.extractBits(w - lw, lw)), b->a);
        if (isFalse(h)) return h;
        Expr *l = mkBin(EQ, mkConst(c.trunc(lw)), b->b);
        return mkBin(AND, h, l);
      }
      if (b->op == ADD && isConst(b->a)) return mkBin(EQ, mkBin(SUB, a, b->a), b->b);
      if (b->op == XOR && isConst(b->a)) return mkBin(EQ, mkBin(XOR, a, b->a), b->b);
      if (b->op == ITE) {
        if (isConst(b->b)) {
          bool e = constVal(b->b) == c;
          if (e) return mkBin(OR, b->a, mkBin(EQ, a, b->c));
          return mkBin(AND, mkNot(b->a), mkBin(EQ, a, b->c));
        }
        if (isConst(b->c)) {
          bool e = constVal(b->c) == c;
          if (e) return mkBin(OR, mkNot(b->a), mkBin(EQ, a, b->b));
          return mkBin(AND, b->a, mkBin(EQ, a, b->b));
        }
      }
      if (c.ugt(maxVal(b))) return mkConst(1, 0);
      APInt m;
      if (Expr *x = scaled(b, m)) {
        if (!c.urem(m).isZero()) return mkConst(1, 0);
        return mkBin(EQ, mkConst(c.udiv(m)), x);
      }
    }
    if (a->op == ZEXT && b->op == ZEXT) {
      uint32_t n = std::max(a->a->width, b->a->width);
      return mkBin(EQ, mkZExt(a->a, n), mkZExt(b->a, n));
    }
    {
      if (a->op == ADD && b->op == ADD && isConst(a->a) && a->a == b->a) return mkBin(EQ, a->b, b->b);
      APInt m, n;
      Expr *x = scaled(a, m), *y = scaled(b, n);
      if (x && y && m == n) return mkBin(EQ, x, y);
      // c x = c y modulo 2^w iff x = y modulo 2^(w-k), where 2^k is the even part of c.
      if (a->op == MUL && b->op == MUL && isConst(a->a) && a->a == b->a && !isZero(a->a)) {
        uint32_t k = constVal(a->a).countr_zero();
        return mkBin(EQ, mkExtract(a->b, 0, w - k), mkExtract(b->b, 0, w - k));
      }
    }
    break;
  case ULT:
    if (a == b) return mkConst(1, 0);
    if (isZero(b)) return mkConst(1, 0);
    if (isZero(a)) return mkNot(mkBin(EQ, a, b));
    if (isConst(b) && maxVal(a).ult(constVal(b))) return mkConst(1, 1);
    if (isConst(a) && maxVal(b).ule(constVal(a))) return mkConst(1, 0);
    if (isOne(b)) return mkBin(EQ, mkConst(w, 0), a);
    if (w == 1) return mkBin(AND, mkNot(a), b);
    if (a->op == ZEXT && b->op == ZEXT) {
      uint32_t n = std::max(a->a->width, b->a->width);
      return mkBin(ULT, mkZExt(a->a, n), mkZExt(b->a, n));
    }
    if (isConst(b) && a->op == ZEXT) return mkBin(ULT, a->a, mkConst(constVal(b).trunc(a->a->width)));
    if (isConst(a) && b->op == ZEXT) return mkBin(ULT, mkConst(constVal(a).trunc(b->a->width)), b->a);
    {
      APInt m, n;
      Expr *x = scaled(a, m), *y = scaled(b, n);
      if (x && y && m == n) return mkBin(ULT, x, y);
      if (x && isConst(b)) { // m x < k iff x < ceil(k / m)
        APInt k = constVal(b), q = k.udiv(m);
        if (!k.urem(m).isZero()) q += 1;
        return mkBin(ULT, x, mkConst(q));
      }
      if (y && isConst(a)) return mkBin(ULT, mkConst(constVal(a).udiv(n)), y); // k < n y iff k / n < y
      x = shifted(a, m), y = shifted(b, n);
      if (x && y && m == n) return mkBin(ULT, x, y);
      if (x && isConst(b)) {
        APInt k = constVal(b);
        if (k.ule(m)) return mkConst(1, 0);
        return mkBin(ULT, x, mkConst(k - m));
      }
      if (y && isConst(a)) {
        APInt k = constVal(a);
        if (k.ult(n)) return mkConst(1, 1);
        return mkBin(ULT, mkConst(k - n), y);
      }
    }
    break;
  case ULE:
    return mkNot(mkBin(ULT, b, a));
  case SLT:
    if (a == b) return mkConst(1, 0);
    if (w > 1 && activeBits(a) < w && activeBits(b) < w) return mkBin(ULT, a, b);
    if (a->op == SEXT && b->op == SEXT && a->a->width == b->a->width) return mkBin(SLT, a->a, b->a);
    break;
  case SLE:
    return mkNot(mkBin(SLT, b, a));
  default: break;
  }
  if (w > 64 && (op == ADD || op == MUL)) {
    // Wide sums and products of small numbers in as few whole bytes as they need.
    uint32_t x = activeBits(a), y = activeBits(b);
    uint32_t n = ((op == ADD ? std::max(x, y) + 1 : x + y) + 7) & ~7u;
    if (n < w && n > 0) return mkZExt(mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
  }
  return node(op, isCmp(op) ? 1 : w, a, b);
}

Expr *mkExtract(Expr *a, uint32_t off, uint32_t w) {
  assert(off + w <= a->width && w > 0);
  if (off == 0 && w == a->width) return a;
  if (isConst(a)) {
    if (a->width <= 64) return mkConst(w, a->k >> off);
    return mkConst(constVal(a).extractBits(w, off));
  }
  switch (a->op) {
  case EXTRACT: return mkExtract(a->a, a->aux + off, w);
  case CONCAT: {
    uint32_t lw = a->b->width;
    if (off + w <= lw) return mkExtract(a->b, off, w);
    if (off >= lw) return mkExtract(a->a, off - lw, w);
    return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off));
  }
  case ZEXT: {
    uint32_t n = a->a->width;
    if (off + w <= n) return mkExtract(a->a, off, w);
    if (off >= n) return mkConst(APInt(w, 0));
    return mkZExt(mkExtract(a->a, off, n - off), w);
  }
  case SEXT: {
    uint32_t n = a->a->width;
    if (off + w <= n) return mkExtract(a->a, off, w);
    if (off < n) return mkSExt(mkExtract(a->a, off, n - off), w);
    break;
  }
  case AND: case OR: case XOR: {
    // Only where the extract disappears: keeping byte extracts of one node intact lets
    // mkConcat put the node back together when the bytes are loaded again.
    for (int side = 0; side < 2; side++) {
      Expr *k = side ? a->b : a->a, *o = side ? a->a : a->b;
      if (!isConst(k)) continue;
      APInt kk = constVal(k).extractBits(w, off);
      if (kk.isZero()) return a->op == AND ? mkConst(kk) : mkExtract(o, off, w);
      if (kk.isAllOnes() && a->op == AND) return mkExtract(o, off, w);
      if (kk.isAllOnes() && a->op == OR) return mkConst(kk);
    }
    break;
  }
  case ADD: case SUB: case MUL: {
    auto simp = [](Expr *x) { return isConst(x) || x->op == ZEXT || x->op == SEXT || x->op == CONCAT || x->op == EXTRACT; };
    if (off == 0 && w >= 32 && simp(a->a) && simp(a->b)) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  }
  case ITE:
    if (isConst(a->b) || isConst(a->c)) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
    break;
  default: break;
  }
  if (off >= 1) {
    uint32_t n = activeBits(a);
    if (off >= n) return mkConst(APInt(w, 0));
  }
  return node(EXTRACT, w, a, nullptr, nullptr, off);
}

Expr *mkConcat(Expr *hi, Expr *lo) {
  uint32_t w = hi->width + lo->width;
  if (isConst(hi) && isConst(lo)) {
    if (w <= 64) return mkConst(w, (hi->k << lo->width) | lo->k);
    return mkConst(constVal(hi).zext(w).shl(lo->width) | constVal(lo).zext(w));
  }
  if (isZero(hi)) return mkZExt(lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->width)
    return mkExtract(hi->a, lo->aux, w);
  if (lo->op == CONCAT) {
    // (h ++ (a ++ b)) : try to merge h with a
    Expr *m = nullptr;
    if (hi->op == EXTRACT && lo->a->op == EXTRACT && hi->a == lo->a->a && hi->aux == lo->a->aux + lo->a->width)
      m = mkExtract(hi->a, lo->a->aux, hi->width + lo->a->width);
    else if (isConst(hi) && isConst(lo->a)) m = mkConcat(hi, lo->a);
    if (m) return mkConcat(m, lo->b);
  }
  if (hi->op == CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo)); // right-assoc
  // zext piece: extract of top bits beyond
  if (hi->op == ZEXT && hi->a->op == EXTRACT && lo->op == EXTRACT && hi->a->a == lo->a &&
      hi->a->aux == lo->aux + lo->width)
    return mkZExt(mkExtract(lo->a, lo->aux, hi->a->width + lo->width), w);
  if (hi->op == ITE && lo->op == ITE && hi->a == lo->a)
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  if (hi->op == ITE && isConst(lo) && isConst(hi->b) && isConst(hi->c))
    return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
  if (lo->op == ITE && isConst(hi) && isConst(lo->b) && isConst(lo->c))
    return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
  return node(CONCAT, w, hi, lo);
}

Expr *mkZExt(Expr *a, uint32_t w) {
  if (a->width == w) return a;
  assert(a->width < w);
  if (isConst(a)) return mkConst(constVal(a).zext(w));
  if (a->op == ZEXT) return mkZExt(a->a, w);
  if (a->op == ITE && isConst(a->b) && isConst(a->c)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return node(ZEXT, w, a);
}
Expr *mkSExt(Expr *a, uint32_t w) {
  if (a->width == w) return a;
  assert(a->width < w);
  if (isConst(a)) return mkConst(constVal(a).sext(w));
  if (a->op == SEXT) return mkSExt(a->a, w);
  if (a->op == ZEXT) return mkZExt(a->a, w);
  if (a->op == ITE && isConst(a->b) && isConst(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  if (activeBits(a) < a->width) return mkZExt(a, w);
  return node(SEXT, w, a);
}
Expr *mkIte(Expr *c, Expr *t, Expr *f) {
  assert(c->width == 1 && t->width == f->width);
  if (isConst(c)) return c->k ? t : f;
  if (t == f) return t;
  if (c->op == XOR && isOne(c->a)) return mkIte(c->b, f, t);
  if (t->width == 1) {
    if (isConst(t)) return t->k ? mkBin(OR, c, f) : mkBin(AND, mkNot(c), f);
    if (isConst(f)) return f->k ? mkBin(OR, mkNot(c), t) : mkBin(AND, c, t);
  }
  if (t->op == ITE && t->a == c) t = t->b;
  if (f->op == ITE && f->a == c) f = f->c;
  if (t == f) return t;
  return node(ITE, t->width, c, t, f);
}

static void evalNode(Expr *e) {
  // children evaluated
  if (e->width <= 64 && (!e->a || e->a->width <= 64) && (!e->b || e->b->width <= 64)) {
    uint64_t r = 0, m = maskw(e->width);
    auto A = [&] { return e->a->evalK; };
    auto B = [&] { return e->b->evalK; };
    uint32_t aw = e->a ? e->a->width : 0;
    auto S = [](uint64_t v, uint32_t w) -> int64_t { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); };
    switch (e->op) {
    case CONST: r = e->k; break;
    case VAR: r = e->aux < varModel.size() ? varModel[e->aux] : 0; break;
    case ADD: r = A() + B(); break;
    case SUB: r = A() - B(); break;
    case MUL: r = A() * B(); break;
    case UDIV: r = B() ? A() / B() : ~0ull; break;
    case UREM: r = B() ? A() % B() : A(); break;
    case AND: r = A() & B(); break;
    case OR: r = A() | B(); break;
    case XOR: r = A() ^ B(); break;
    case SHL: r = B() >= e->width ? 0 : A() << B(); break;
    case LSHR: r = B() >= e->width ? 0 : A() >> B(); break;
    case ASHR: r = (uint64_t)(S(A(), aw) >> (B() >= e->width ? e->width - 1 : B())); break;
    case CONCAT: r = (A() << e->b->width) | B(); break;
    case EXTRACT: r = A() >> e->aux; break;
    case ZEXT: r = A(); break;
    case SEXT: r = (uint64_t)S(A(), aw); break;
    case ITE: r = A() ? B() : e->c->evalK; break;
    case EQ: r = A() == B(); break;
    case ULT: r = A() < B(); break;
    case ULE: r = A() <= B(); break;
    case SLT: r = S(A(), aw) < S(B(), aw); break;
    case SLE: r = S(A(), aw) <= S(B(), aw); break;
    case SDIV: case SREM: r = foldBin(e->op, APInt(aw, A()), APInt(aw, B())).getZExtValue(); break;
    }
    e->evalK = r & m;
    return;
  }
  auto V = [](Expr *x) { return x->width <= 64 ? APInt(x->width, x->evalK) : *x->evalVal; };
  APInt r(e->width, 0);
  switch (e->op) {
  case CONST: r = constVal(e); break;
  case VAR: r = APInt(e->width, e->aux < varModel.size() ? varModel[e->aux] : 0); break;
  case CONCAT: r = V(e->a).zext(e->width).shl(e->b->width) | V(e->b).zext(e->width); break;
  case EXTRACT: r = V(e->a).extractBits(e->width, e->aux); break;
  case ZEXT: r = V(e->a).zext(e->width); break;
  case SEXT: r = V(e->a).sext(e->width); break;
  case ITE: r = V(e->a).isOne() ? V(e->b) : V(e->c); break;
  default: r = foldBin(e->op, V(e->a), V(e->b)); break;
  }
  if (e->width <= 64) e->evalK = r.getZExtValue();
  else {
    if (!e->evalVal) e->evalVal = new APInt(r);
    else *e->evalVal = r;
  }
}

static void evalRec(Expr *e) {
  std::vector<Expr *> st{e};
  while (!st.empty()) {
    Expr *x = st.back();
    if (x->evalEpoch == evalEpoch) { st.pop_back(); continue; }
    bool ready = true;
    for (Expr *k : {x->a, x->b, x->c})
      if (k && k->evalEpoch != evalEpoch) { st.push_back(k); ready = false; }
    if (!ready) continue;
    evalNode(x);
    x->evalEpoch = evalEpoch;
    st.pop_back();
  }
}
APInt evalExpr(Expr *e) {
  evalRec(e);
  return e->width <= 64 ? APInt(e->width, e->evalK) : *e->evalVal;
}
uint64_t evalExpr64(Expr *e) {
  assert(e->width <= 64);
  evalRec(e);
  return e->evalK;
}

static Z3_ast z3Node(Z3_context c, Expr *e) {
  auto A = [&] { return e->a->z; };
  auto B = [&] { return e->b->z; };
  auto boolToBv = [&](Z3_ast p) {
    return Z3_mk_ite(c, p, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)),
                     Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 1)));
  };
  switch (e->op) {
  case CONST: {
    Z3_sort s = Z3_mk_bv_sort(c, e->width);
    if (e->width <= 64) return Z3_mk_unsigned_int64(c, e->k, s);
    llvm::SmallString<128> str;
    constVal(e).toStringUnsigned(str);
    return Z3_mk_numeral(c, str.c_str(), s);
  }
  case VAR: {
    std::string n = "v" + std::to_string(e->aux);
    return Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), Z3_mk_bv_sort(c, e->width));
  }
  case ADD: return Z3_mk_bvadd(c, A(), B());
  case SUB: return Z3_mk_bvsub(c, A(), B());
  case MUL: return Z3_mk_bvmul(c, A(), B());
  case UDIV: return Z3_mk_bvudiv(c, A(), B());
  case SDIV: return Z3_mk_bvsdiv(c, A(), B());
  case UREM: return Z3_mk_bvurem(c, A(), B());
  case SREM: return Z3_mk_bvsrem(c, A(), B());
  case AND: return Z3_mk_bvand(c, A(), B());
  case OR: return Z3_mk_bvor(c, A(), B());
  case XOR: return Z3_mk_bvxor(c, A(), B());
  case SHL: return Z3_mk_bvshl(c, A(), B());
  case LSHR: return Z3_mk_bvlshr(c, A(), B());
  case ASHR: return Z3_mk_bvashr(c, A(), B());
  case CONCAT: return Z3_mk_concat(c, A(), B());
  case EXTRACT: return Z3_mk_extract(c, e->aux + e->width - 1, e->aux, A());
  case ZEXT: return Z3_mk_zero_ext(c, e->width - e->a->width, A());
  case SEXT: return Z3_mk_sign_ext(c, e->width - e->a->width, A());
  case ITE:
    return Z3_mk_ite(c, Z3_mk_eq(c, A(), Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))), B(), e->c->z);
  case EQ: return boolToBv(Z3_mk_eq(c, A(), B()));
  case ULT: return boolToBv(Z3_mk_bvult(c, A(), B()));
  case ULE: return boolToBv(Z3_mk_bvule(c, A(), B()));
  case SLT: return boolToBv(Z3_mk_bvslt(c, A(), B()));
  case SLE: return boolToBv(Z3_mk_bvsle(c, A(), B()));
  }
  abort();
}

Z3_ast toZ3(Z3_context ctx, Expr *e) {
  std::vector<Expr *> st{e};
  while (!st.empty()) {
    Expr *x = st.back();
    if (x->z) { st.pop_back(); continue; }
    bool ready = true;
    for (Expr *k : {x->a, x->b, x->c})
      if (k && !k->z) { st.push_back(k); ready = false; }
    if (!ready) continue;
    x->z = z3Node(ctx, x);
    st.pop_back();
  }
  return e->z;
}

std::string exprStr(Expr *e, int d) {
  static const char *names[] = {"c","v","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","ite","eq","ult","ule","slt","sle"};
  if (isConst(e)) {
    llvm::SmallString<64> s;
    constVal(e).toStringUnsigned(s);
    return std::string(s.c_str()) + ":" + std::to_string(e->width);
  }
  if (e->op == VAR) return "v" + std::to_string(e->aux) + ":" + std::to_string(e->width);
  if (d == 0) return "..";
  std::string r = std::string("(") + names[e->op];
  if (e->op == EXTRACT) r += "@" + std::to_string(e->aux) + ":" + std::to_string(e->width);
  for (Expr *k : {e->a, e->b, e->c})
    if (k) r += " " + exprStr(k, d - 1);
  return r + ")";
}
