// Hash-consed bit-vector expressions, simplifier, evaluation and z3 translation.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <string>
#include <z3.h>
#include "llvm/ADT/APInt.h"

using llvm::APInt;

enum Op : uint8_t {
  CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  CONCAT, EXTRACT, ZEXT, SEXT, ITE, EQ, ULT, ULE, SLT, SLE
};

struct Expr {
  Op op;
  uint32_t width;
  uint32_t id;
  uint32_t aux;      // extract offset / var id / wide const index
  uint64_t k;        // const value (width<=64)
  Expr *a, *b, *c;
  uint64_t hash;
  Z3_ast z;
  uint64_t evalEpoch;
  APInt *evalVal;    // cached evaluation (wide)
  uint64_t evalK;    // cached evaluation (<=64)
};

struct ExprKeyHash { size_t operator()(const Expr *e) const { return e->hash; } };

extern std::vector<APInt *> wideConsts;

struct ExprPool {
  std::vector<Expr *> table; // open addressing
  size_t mask, count = 0;
  std::vector<char *> chunks;
  size_t chunkUsed = 0, chunkCap = 0;
  uint32_t nextId = 1;
  ExprPool() : table(1 << 16, nullptr), mask((1 << 16) - 1) {}
  Expr *alloc() {
    if (chunkUsed == chunkCap) {
      chunkCap = 4096;
      chunkUsed = 0;
      chunks.push_back((char *)calloc(chunkCap, sizeof(Expr)));
    }
    return (Expr *)(chunks.back() + sizeof(Expr) * chunkUsed++);
  }
  static uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdull;
  }
  Expr *intern(const Expr &t) {
    uint64_t h = mix(t.op, t.width);
    h = mix(h, t.aux);
    h = mix(h, t.k);
    h = mix(h, t.a ? t.a->id : 0);
    h = mix(h, t.b ? t.b->id : 0);
    h = mix(h, t.c ? t.c->id : 0);
    size_t i = h & mask;
    while (Expr *e = table[i]) {
      if (e->hash == h && e->op == t.op && e->width == t.width && e->aux == t.aux && e->k == t.k &&
          e->a == t.a && e->b == t.b && e->c == t.c)
        return e;
      i = (i + 1) & mask;
    }
    Expr *e = alloc();
    *e = t;
    e->hash = h;
    e->id = nextId++;
    e->z = nullptr;
    e->evalEpoch = 0;
    e->evalVal = nullptr;
    table[i] = e;
    if (++count * 2 > table.size()) grow();
    return e;
  }
  void grow() {
    std::vector<Expr *> old;
    old.swap(table);
    table.assign(old.size() * 2, nullptr);
    mask = table.size() - 1;
    for (Expr *e : old)
      if (e) {
        size_t i = e->hash & mask;
        while (table[i]) i = (i + 1) & mask;
        table[i] = e;
      }
  }
};
extern ExprPool pool;

inline uint64_t maskw(uint32_t w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

Expr *mkConst(uint32_t w, uint64_t v);
Expr *mkConst(const APInt &v);
Expr *mkVar(uint32_t w, uint32_t id);
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkExtract(Expr *a, uint32_t off, uint32_t w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkZExt(Expr *a, uint32_t w);
Expr *mkSExt(Expr *a, uint32_t w);
Expr *mkIte(Expr *c, Expr *t, Expr *f);
Expr *mkNot(Expr *a); // width 1
inline bool isConst(const Expr *e) { return e->op == CONST; }
APInt constVal(const Expr *e);
inline bool isTrue(const Expr *e) { return e->op == CONST && e->k == 1; }
inline bool isFalse(const Expr *e) { return e->op == CONST && e->width == 1 && e->k == 0; }

// Evaluation under an assignment of the variables.
extern std::vector<uint64_t> varModel; // value per var id
extern std::vector<uint32_t> varWidth;
extern uint64_t evalEpoch;
APInt evalExpr(Expr *e);
uint64_t evalExpr64(Expr *e);

Z3_ast toZ3(Z3_context ctx, Expr *e);
std::string exprStr(Expr *e, int depth = 4);
