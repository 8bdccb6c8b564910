// nksym: a path-exploring symbolic executor for LLVM bitcode (LLVM 18 + z3).
//
// The whole program (the code under test, its dependencies and the standard library) is
// executed from the compiler's IR. Inputs introduced by nk_sym() are bit-vector variables;
// a branch both of whose sides are satisfiable forks the process; every assertion is
// discharged by z3 for all values satisfying the path condition.
#include "expr.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"
#include <atomic>
#include <cmath>
#include <cstdio>
#include <fcntl.h>
#include <functional>
#include <map>
#include <semaphore.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

using namespace llvm;

// ---------------------------------------------------------------- shared stats
struct Shared {
  std::atomic<uint64_t> paths, pruned, panics, violations, errors, forks, queries, unsatQ, satQ, unknownQ,
      checks, checksSym, solverNs, instrs, stop, symVars, maxDepth, limitHit, concretized;
  std::atomic<uint32_t> cover[4096];
  std::atomic<uint64_t> checkHits[4096];
  uint8_t fnSeen[1 << 17];
  sem_t tokens;
  uint64_t deadlineNs;
};
static Shared *sh;
static std::string outDir = ".";
static int logFd = -1;
static bool verbose = false, traceCalls = false;
static uint64_t maxInstr = 2000000000ull;
static uint64_t maxViolations = 1;
static uint64_t maxPaths = 0;
static unsigned solverRlimit = 0;
static bool isRoot = true, holdsToken = false, rootWaiting = false;
static uint64_t myDepth = 0;

static uint64_t nowNs() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000000000ull + t.tv_nsec;
}

// ---------------------------------------------------------------- values / memory
struct Val {
  uint64_t c;
  Expr *e;
};
static inline Val cv(uint64_t c) { return Val{c, nullptr}; }
static inline Expr *toE(const Val &v, uint32_t w) { return v.e ? v.e : mkConst(w, v.c); }
// Expressions known to equal a constant on this path.
static std::unordered_map<Expr *, Expr *> pins;
static inline Val fromE(Expr *e) {
  if (!pins.empty() && e->op != CONST) {
    auto it = pins.find(e);
    if (it != pins.end()) e = it->second;
  }
  if (e->op == CONST && e->width <= 64) return Val{e->k, nullptr};
  return Val{0, e};
}

static const uint64_t BASE = 0x100000000000ull;
static const uint64_t SPAN = 16ull << 30;
static const uint64_t HEAP = BASE + (4ull << 30), STACK = BASE + (12ull << 30);
static uint64_t heapTop = HEAP, stackTop = STACK, globTop = BASE + 0x10000;
static uint8_t *shadow; // one byte per 256-byte page: may contain symbolic bytes
static std::unordered_map<uint64_t, Expr **> symPages;
static const uint64_t FNBASE = 0x1000;
static std::vector<Function *> fnByIx;
static DenseMap<const Function *, uint64_t> fnAddr;

[[noreturn]] static void finish(const char *kind, const std::string &what);
[[noreturn]] static void engineError(const std::string &what) { finish("error", what); }

static inline bool inMem(uint64_t a, uint64_t n) { return a >= BASE && a - BASE <= SPAN - n; }
static inline bool pageSym(uint64_t a, uint64_t n) {
  uint64_t p = (a - BASE) >> 8, q = (a + n - 1 - BASE) >> 8;
  for (; p <= q; p++)
    if (shadow[p]) return true;
  return false;
}
static inline Expr *symAt(uint64_t a) {
  uint64_t p = (a - BASE) >> 8;
  if (!shadow[p]) return nullptr;
  return symPages[p][a & 255];
}
static void setSym(uint64_t a, Expr *e) {
  uint64_t p = (a - BASE) >> 8;
  if (!shadow[p]) {
    if (!e) return;
    auto &pg = symPages[p];
    if (!pg) pg = (Expr **)calloc(256, sizeof(Expr *));
    shadow[p] = 1;
  }
  symPages[p][a & 255] = e;
}
static std::string whereAmI();
static void checkMem(uint64_t a, uint64_t n) {
  if (!inMem(a, n)) {
    char b[64];
    snprintf(b, sizeof b, "bad memory access at 0x%lx", a);
    engineError(std::string(b) + " " + whereAmI());
  }
}
// n bytes, value of width w bits (w <= n*8)
static Val memRead(uint64_t a, uint32_t n, uint32_t w) {
  checkMem(a, n);
  if (n <= 8 && !pageSym(a, n)) {
    uint64_t v = 0;
    memcpy(&v, (void *)a, n);
    return cv(w < 64 ? v & maskw(w) : v);
  }
  Expr *r = nullptr;
  for (int i = n - 1; i >= 0; i--) {
    Expr *b = symAt(a + i);
    if (!b) b = mkConst(8, *(uint8_t *)(a + i));
    r = r ? mkConcat(r, b) : b;
  }
  if (w < n * 8) r = mkExtract(r, 0, w);
  return fromE(r);
}
static void memWrite(uint64_t a, uint32_t n, uint32_t w, const Val &v) {
  checkMem(a, n);
  if (!v.e) {
    uint64_t c = w < 64 ? v.c & maskw(w) : v.c;
    if (n <= 8) memcpy((void *)a, &c, n);
    else {
      memcpy((void *)a, &c, 8);
      memset((void *)(a + 8), 0, n - 8);
    }
    if (pageSym(a, n))
      for (uint32_t i = 0; i < n; i++) setSym(a + i, nullptr);
    return;
  }
  Expr *e = v.e;
  if (e->width < n * 8) e = mkZExt(e, n * 8);
  for (uint32_t i = 0; i < n; i++) {
    Expr *b = mkExtract(e, i * 8, 8);
    if (isConst(b)) {
      *(uint8_t *)(a + i) = (uint8_t)b->k;
      setSym(a + i, nullptr);
    } else setSym(a + i, b);
  }
}
static void memCopy(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  checkMem(d, n);
  checkMem(s, n);
  bool ss = pageSym(s, n), ds = pageSym(d, n);
  if (ss) {
    std::vector<Expr *> tmp(n);
    for (uint64_t i = 0; i < n; i++) tmp[i] = symAt(s + i);
    memmove((void *)d, (void *)s, n);
    for (uint64_t i = 0; i < n; i++) setSym(d + i, tmp[i]);
  } else {
    memmove((void *)d, (void *)s, n);
    if (ds)
      for (uint64_t i = 0; i < n; i++) setSym(d + i, nullptr);
  }
}
static void memSetByte(uint64_t d, const Val &b, uint64_t n) {
  if (!n) return;
  checkMem(d, n);
  if (!b.e) {
    memset((void *)d, (int)b.c, n);
    if (pageSym(d, n))
      for (uint64_t i = 0; i < n; i++) setSym(d + i, nullptr);
  } else
    for (uint64_t i = 0; i < n; i++) setSym(d + i, b.e);
}

static std::vector<uint64_t> freeLists[40];
static int sizeClass(uint64_t n) {
  int k = 4;
  while ((1ull << k) < n) k++;
  return k;
}
static uint64_t heapAlloc(uint64_t n, uint64_t align = 16) {
  if (n == 0) n = 1;
  if (align < 16) align = 16;
  int k = sizeClass(n);
  if (align == 16 && k <= 16 && !freeLists[k].empty()) {
    uint64_t a = freeLists[k].back();
    freeLists[k].pop_back();
    *(uint64_t *)(a - 16) = n;
    memSetByte(a, cv(0), n);
    return a;
  }
  uint64_t cap = k <= 16 ? (1ull << k) : (n + 15) & ~15ull;
  uint64_t a = (heapTop + 16 + align - 1) & ~(align - 1);
  heapTop = a + cap;
  if (heapTop > STACK) engineError("heap exhausted");
  *(uint64_t *)(a - 16) = n;
  *(uint64_t *)(a - 8) = align;
  return a;
}
static void heapFree(uint64_t a) {
  if (!a) return;
  checkMem(a - 16, 16);
  uint64_t n = *(uint64_t *)(a - 16);
  int k = sizeClass(n);
  if (k <= 16 && *(uint64_t *)(a - 8) == 16) freeLists[k].push_back(a);
}

// ---------------------------------------------------------------- decoded program
struct Leaf { uint32_t width; uint32_t bytes; uint64_t off; };
typedef int32_t Opnd; // >=0 register slot, <0 constant pool ~index

enum IOp : uint8_t {
  I_BIN, I_ICMP, I_TRUNC, I_ZEXT, I_SEXT, I_COPY, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH,
  I_CALL, I_RET, I_SELECT, I_EXTRACTELEM, I_INSERTELEM, I_SHUFFLE, I_BITCAST, I_UNREACHABLE, I_NOP, I_CMPXCHG,
  I_RMW, I_FBIN, I_FCMP, I_FCAST, I_FNEG, I_UNSUPPORTED
};
struct PhiCopy { int32_t dst; Opnd src; };
struct Edge { int32_t target; std::vector<PhiCopy> phis; };
struct FnInfo;
typedef void (*Handler)(struct Inst &);
struct Inst {
  IOp op;
  uint8_t sub;        // binop / predicate
  uint32_t width;     // operand width
  uint32_t width2;    // result width
  int32_t dst;
  uint32_t n;         // slots
  Opnd a, b, c;
  std::vector<Opnd> ops;
  std::vector<int64_t> imm;
  std::vector<Leaf> leaves;
  std::vector<Edge> edges;
  Function *callee = nullptr;
  FnInfo *calleeInfo = nullptr;
  Handler handler = nullptr;
  bool isPanic = false;
  std::vector<uint32_t> argWidths;
  Instruction *I = nullptr;
};
struct FnInfo {
  Function *F;
  uint32_t ix;
  bool decoded = false;
  uint32_t nslots = 0;
  std::vector<Inst> code;
  uint32_t nargs = 0; // slots
};
static std::vector<Val> cpool;
static Module *M;
static const DataLayout *DL;
static std::unordered_map<const Function *, FnInfo *> fnInfos;
static DenseMap<const GlobalVariable *, uint64_t> globAddr;
static std::unordered_map<std::string, Handler> handlers;

static std::string demangle(StringRef s) {
  if (!s.starts_with("_ZN")) return s.str();
  std::string out;
  size_t i = 3;
  while (i < s.size() && isdigit(s[i])) {
    size_t n = 0;
    while (i < s.size() && isdigit(s[i])) n = n * 10 + (s[i++] - '0');
    std::string part = s.substr(i, n).str();
    i += n;
    if (part.size() == 17 && part[0] == 'h') break;
    if (!out.empty()) out += "::";
    out += part;
  }
  static const std::pair<const char *, const char *> subs[] = {
      {"$LT$", "<"}, {"$GT$", ">"}, {"$RF$", "&"}, {"$BP$", "*"}, {"$u20$", " "}, {"$u5b$", "["}, {"$u5d$", "]"},
      {"$u7b$", "{"}, {"$u7d$", "}"}, {"$C$", ","}, {"$LP$", "("}, {"$RP$", ")"}, {"$u27$", "'"}, {"$u3b$", ";"}, {"$u2b$", "+"}, {"..", "::"}};
  for (auto &p : subs) {
    size_t pos = 0;
    while ((pos = out.find(p.first, pos)) != std::string::npos) {
      out.replace(pos, strlen(p.first), p.second);
      pos += strlen(p.second);
    }
  }
  if (out.size() && out[0] == '_' && out.size() > 1 && out[1] == '<') out = out.substr(1);
  size_t pos = 0;
  while ((pos = out.find("::_<", pos)) != std::string::npos) { out.erase(pos + 2, 1); }
  return out;
}

static void flatten(Type *T, uint64_t off, std::vector<Leaf> &out) {
  if (T->isVoidTy() || T->isMetadataTy() || T->isTokenTy()) return;
  if (auto *S = dyn_cast<StructType>(T)) {
    const StructLayout *L = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); i++)
      flatten(S->getElementType(i), off + L->getElementOffset(i), out);
    return;
  }
  if (auto *A = dyn_cast<ArrayType>(T)) {
    uint64_t sz = DL->getTypeAllocSize(A->getElementType());
    for (uint64_t i = 0; i < A->getNumElements(); i++) flatten(A->getElementType(), off + i * sz, out);
    return;
  }
  if (auto *V = dyn_cast<FixedVectorType>(T)) {
    uint64_t bits = DL->getTypeSizeInBits(V->getElementType());
    for (unsigned i = 0; i < V->getNumElements(); i++) {
      Leaf l;
      l.width = bits;
      l.bytes = (bits + 7) / 8;
      l.off = off + i * bits / 8;
      out.push_back(l);
    }
    return;
  }
  Leaf l;
  l.width = DL->getTypeSizeInBits(T);
  l.bytes = (l.width + 7) / 8;
  l.off = off;
  out.push_back(l);
}
static uint32_t nLeaves(Type *T) {
  std::vector<Leaf> l;
  flatten(T, 0, l);
  return l.size();
}

static uint64_t constAddr(const Constant *C);
static void flattenConst(const Constant *C, std::vector<Val> &out) {
  Type *T = C->getType();
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    if (CI->getBitWidth() <= 64) out.push_back(cv(CI->getZExtValue()));
    else out.push_back(fromE(mkConst(CI->getValue())));
    return;
  }
  if (isa<ConstantPointerNull>(C)) { out.push_back(cv(0)); return; }
  if (auto *CF = dyn_cast<ConstantFP>(C)) { out.push_back(cv(CF->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
    std::vector<Leaf> l;
    flatten(T, 0, l);
    for (auto &x : l) out.push_back(x.width <= 64 ? cv(0) : fromE(mkConst(APInt(x.width, 0))));
    return;
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
    for (unsigned i = 0; i < CA->getNumOperands(); i++) flattenConst(CA->getOperand(i), out);
    return;
  }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    for (unsigned i = 0; i < CD->getNumElements(); i++) flattenConst(CD->getElementAsConstant(i), out);
    return;
  }
  out.push_back(cv(constAddr(C)));
}
static uint64_t constAddr(const Constant *C) {
  if (auto *G = dyn_cast<GlobalVariable>(C)) {
    if (G->hasExternalWeakLinkage() && G->isDeclaration()) return 0;
    auto it = globAddr.find(G);
    if (it == globAddr.end()) engineError("no address for global " + G->getName().str());
    return it->second;
  }
  if (auto *F = dyn_cast<Function>(C)) return F->hasExternalWeakLinkage() && F->isDeclaration() && !handlers.count(F->getName().str()) ? 0 : fnAddr[F];
  if (auto *A = dyn_cast<GlobalAlias>(C)) return constAddr(A->getAliasee());
  if (auto *CI = dyn_cast<ConstantInt>(C)) return CI->getZExtValue();
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return 0;
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    uint32_t w = DL->getTypeSizeInBits(CE->getType());
    auto o = [&](int i) { return constAddr(CE->getOperand(i)); };
    switch (CE->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) engineError("gep constexpr");
      return o(0) + off.getSExtValue();
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
    case Instruction::Trunc: case Instruction::ZExt:
      return o(0) & maskw(w);
    case Instruction::Add: return (o(0) + o(1)) & maskw(w);
    case Instruction::Sub: return (o(0) - o(1)) & maskw(w);
    case Instruction::Xor: return (o(0) ^ o(1)) & maskw(w);
    case Instruction::Mul: return (o(0) * o(1)) & maskw(w);
    case Instruction::ICmp: {
      uint64_t x = o(0), y = o(1);
      switch (CE->getPredicate()) {
      case CmpInst::ICMP_EQ: return x == y;
      case CmpInst::ICMP_NE: return x != y;
      case CmpInst::ICMP_ULT: return x < y;
      case CmpInst::ICMP_UGT: return x > y;
      case CmpInst::ICMP_ULE: return x <= y;
      case CmpInst::ICMP_UGE: return x >= y;
      default: engineError("constexpr icmp");
      }
    }
    default: engineError(std::string("constexpr ") + CE->getOpcodeName());
    }
  }
  std::string s;
  raw_string_ostream os(s);
  C->print(os);
  engineError("constant " + os.str());
}

static void writeConst(const Constant *C, uint64_t addr) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    StringRef raw = CD->getRawDataValues();
    memcpy((void *)addr, raw.data(), raw.size());
    return;
  }
  if (auto *CS = dyn_cast<ConstantStruct>(C)) {
    const StructLayout *L = DL->getStructLayout(cast<StructType>(T));
    for (unsigned i = 0; i < CS->getNumOperands(); i++) writeConst(CS->getOperand(i), addr + L->getElementOffset(i));
    return;
  }
  if (isa<ConstantArray>(C) || isa<ConstantVector>(C)) {
    auto *CA = cast<ConstantAggregate>(C);
    uint64_t sz = DL->getTypeAllocSize(CA->getOperand(0)->getType());
    for (unsigned i = 0; i < CA->getNumOperands(); i++) writeConst(CA->getOperand(i), addr + i * sz);
    return;
  }
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    APInt v = CI->getValue();
    memcpy((void *)addr, v.getRawData(), (v.getBitWidth() + 7) / 8);
    return;
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) {
    APInt v = CF->getValueAPF().bitcastToAPInt();
    memcpy((void *)addr, v.getRawData(), (v.getBitWidth() + 7) / 8);
    return;
  }
  uint64_t v = constAddr(C);
  memcpy((void *)addr, &v, DL->getTypeStoreSize(T));
}

// ---------------------------------------------------------------- execution state
struct Frame {
  FnInfo *fn;
  uint32_t pc;
  uint32_t base;
  uint64_t sp;
  int32_t retDst;   // slot in the caller frame
  int32_t contEdge; // invoke: edge to take after return, -1 otherwise
};
static std::vector<Val> regs;
static std::vector<Frame> stack;
static uint64_t instrCount = 0;
static std::vector<Expr *> pathCond;
struct Input { uint32_t bits; Expr *e; uint64_t c; };
static std::vector<Input> inputs;
static bool allowPanic = false;
static std::vector<std::string> notes;

static std::string locOf(const Instruction *I) {
  if (!I) return "?";
  if (const DebugLoc &d = I->getDebugLoc()) {
    const DILocation *L = d.get();
    std::string f = (L->getFilename()).str();
    std::string dir = L->getDirectory().str();
    if (!f.empty() && f[0] != '/') f = dir + "/" + f;
    return f + ":" + std::to_string(L->getLine());
  }
  return "?";
}
static std::string stackTrace(size_t lim = 40) {
  std::string s;
  size_t k = 0;
  for (size_t i = stack.size(); i-- > 0 && k < lim; k++) {
    Frame &f = stack[i];
    Instruction *I = f.pc && f.pc <= f.fn->code.size() ? f.fn->code[f.pc - 1].I : nullptr;
    s += demangle(f.fn->F->getName()) + " @ " + locOf(I) + "\n";
  }
  return s;
}
static std::string whereAmI() { return stackTrace(3); }
// Innermost source location outside of the standard library.
static std::string userLoc() {
  for (size_t i = stack.size(); i-- > 0;) {
    Frame &f = stack[i];
    Instruction *I = f.pc && f.pc <= f.fn->code.size() ? f.fn->code[f.pc - 1].I : nullptr;
    if (!I || !I->getDebugLoc()) continue;
    for (const DILocation *L = I->getDebugLoc().get(); L; L = L->getInlinedAt()) {
      std::string file = L->getFilename().str(), dir = L->getDirectory().str();
      if (!file.empty() && file[0] != '/') file = dir + "/" + file;
      if (file.find("/rustc/") == std::string::npos && file.find("/registry/") == std::string::npos && file.find("/vendor/") == std::string::npos && file.size() && file != "/")
        return file + ":" + std::to_string(L->getLine());
    }
  }
  return "?";
}

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if ((unsigned char)c < 32) o += ' ';
    else o += c;
  }
  return o + "\"";
}
static void logLine(const std::string &s) {
  std::string l = s + "\n";
  if (write(logFd, l.data(), l.size()) < 0) {}
}

// ---------------------------------------------------------------- solver
static Z3_context zc;
static Z3_solver zs;
static size_t asserted = 0;
static void z3err(Z3_context c, Z3_error_code e) { engineError(std::string("z3: ") + Z3_get_error_msg(c, e)); }
static void initSolver() {
  Z3_config cfg = Z3_mk_config();
  zc = Z3_mk_context(cfg);
  Z3_set_error_handler(zc, z3err);
  zs = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
  Z3_solver_inc_ref(zc, zs);
  Z3_params p = Z3_mk_params(zc);
  Z3_params_inc_ref(zc, p);
  // A resource limit, not a timeout: z3's timeout uses threads, which do not survive fork().
  if (solverRlimit) Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), solverRlimit);
  Z3_solver_set_params(zc, zs, p);
}
static Z3_ast zbool(Expr *e) {
  return Z3_mk_eq(zc, toZ3(zc, e), Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1)));
}
static void takeModel() {
  Z3_model m = Z3_solver_get_model(zc, zs);
  Z3_model_inc_ref(zc, m);
  for (uint32_t i = 0; i < varWidth.size(); i++) {
    Expr *v = mkVar(varWidth[i], i);
    if (!v->z) { varModel[i] = 0; continue; }
    Z3_ast out;
    if (Z3_model_eval(zc, m, v->z, true, &out)) {
      uint64_t u = 0;
      Z3_get_numeral_uint64(zc, out, &u);
      varModel[i] = u;
    }
  }
  Z3_model_dec_ref(zc, m);
  evalEpoch++;
}
// Is pathCond && e satisfiable? If so and wantModel, varModel satisfies it afterwards.
static bool satisfiable(Expr *e, bool wantModel) {
  if (isConst(e)) return e->k;
  std::vector<uint64_t> saved;
  for (; asserted < pathCond.size(); asserted++) Z3_solver_assert(zc, zs, zbool(pathCond[asserted]));
  uint64_t t0 = nowNs();
  Z3_solver_push(zc, zs);
  Z3_solver_assert(zc, zs, zbool(e));
  Z3_lbool r = Z3_solver_check(zc, zs);
  sh->queries++;
  if (r == Z3_L_TRUE) {
    sh->satQ++;
    if (wantModel) takeModel();
  } else if (r == Z3_L_FALSE) sh->unsatQ++;
  else sh->unknownQ++;
  Z3_solver_pop(zc, zs, 1);
  uint64_t dt = nowNs() - t0;
  sh->solverNs += dt;
  if (verbose && dt > 500000000ull) fprintf(stderr, "slow query %.1fs: %s\n  at %s\n", dt / 1e9, exprStr(e, 5).c_str(), whereAmI().c_str());
  if (r == Z3_L_UNDEF) engineError("solver gave up (timeout) at " + whereAmI());
  return r == Z3_L_TRUE;
}
static void addConstraint(Expr *e) {
  if (isTrue(e)) return;
  if (e->op == AND && e->width == 1) { addConstraint(e->a); addConstraint(e->b); return; }
  pathCond.push_back(e);
  if (e->op == EQ && (isConst(e->a) || isConst(e->b))) {
    Expr *x = isConst(e->a) ? e->b : e->a, *k = isConst(e->a) ? e->a : e->b;
    while (x->op == ZEXT) { x = x->a; k = mkExtract(k, 0, x->width); }
    pins[x] = k;
  } else {
    pins[e] = mkConst(1, 1);
    Expr *ne = mkNot(e);
    if (!isConst(ne)) pins[ne] = mkConst(1, 0);
  }
}
static bool modelSays(Expr *e) { return evalExpr64(e) == 1; }

[[noreturn]] static void endProcess() {
  sh->instrs += instrCount;
  if (myDepth > sh->maxDepth) sh->maxDepth = myDepth;
  if (holdsToken) { holdsToken = false; sem_post(&sh->tokens); }
  if (isRoot) {
    rootWaiting = true;
    // wait for everything that was reparented to us
    while (true) {
      int st;
      pid_t p = waitpid(-1, &st, 0);
      if (p < 0) { if (errno == EINTR) continue; break; }
      if (WIFSIGNALED(st)) { sh->errors++; logLine("{\"kind\":\"error\",\"what\":\"worker killed by signal " + std::to_string(WTERMSIG(st)) + "\"}"); }
    }
    extern void report();
    report();
  }
  _exit(0);
}
static std::string inputsJson() {
  std::string s = "[";
  for (size_t i = 0; i < inputs.size(); i++) {
    if (i) s += ",";
    uint64_t v = inputs[i].e ? evalExpr64(inputs[i].e) : inputs[i].c;
    s += std::to_string(v);
  }
  return s + "]";
}
static void ensureModel() {
  // varModel satisfies pathCond by construction; verify.
  evalEpoch++;
  for (Expr *e : pathCond)
    if (!modelSays(e)) {
      if (!satisfiable(mkConst(1, 1), true)) {}
      for (; asserted < pathCond.size(); asserted++) Z3_solver_assert(zc, zs, zbool(pathCond[asserted]));
      if (Z3_solver_check(zc, zs) == Z3_L_TRUE) takeModel();
      return;
    }
}
static void finish(const char *kind, const std::string &what) {
  std::string k = kind;
  if (k == "ok") {
    // Log the inputs of some paths, for native replay.
    uint64_t n = ++sh->paths;
    if (n <= 4 || (n & (n - 1)) == 0) {
      ensureModel();
      logLine("{\"kind\":\"sample\",\"inputs\":" + inputsJson() + "}");
    }
  }
  else if (k == "pruned") sh->pruned++;
  else if (k == "stopped") {}
  else if (k == "error") {
    sh->errors++;
    logLine("{\"kind\":\"error\",\"what\":" + jstr(what) + ",\"trace\":" + jstr(stackTrace()) + "}");
    sh->stop = 1;
  } else if (k == "limit") {
    sh->limitHit++;
    ensureModel();
    logLine("{\"kind\":\"limit\",\"what\":" + jstr(what) + ",\"inputs\":" + inputsJson() + ",\"trace\":" + jstr(stackTrace()) + "}");
    sh->stop = 1;
  } else {
    // violation: panic or check
    if (k == "panic") sh->panics++;
    uint64_t n = ++sh->violations;
    ensureModel();
    std::string nt = "[";
    for (size_t i = 0; i < notes.size(); i++) nt += (i ? "," : "") + jstr(notes[i]);
    nt += "]";
    logLine("{\"kind\":" + jstr(k) + ",\"what\":" + jstr(what) + ",\"loc\":" + jstr(userLoc()) + ",\"inputs\":" + inputsJson() +
            ",\"notes\":" + nt + ",\"trace\":" + jstr(stackTrace()) + "}");
    if (n >= maxViolations) sh->stop = 1;
  }
  if (maxPaths && sh->paths + sh->pruned >= maxPaths && !sh->stop) {
    sh->limitHit++;
    sh->stop = 1;
    logLine("{\"kind\":\"limit\",\"what\":\"path limit\"}");
  }
  endProcess();
}
static void pollStop() {
  if (sh->stop) finish("stopped", "");
  if (nowNs() > sh->deadlineNs) finish("limit", "time limit");
}

static void armDeadline();
static void onAlarm(int) {
  sh->stop = 1;
  if (isRoot) { armDeadline(); if (rootWaiting) return; }
  sh->limitHit++;
  sh->instrs += instrCount;
  static const char m[] = "{\"kind\":\"limit\",\"what\":\"time limit\"}\n";
  if (write(logFd, m, sizeof m - 1) < 0) {}
  if (holdsToken) sem_post(&sh->tokens);
  holdsToken = false;
  if (!isRoot) _exit(0);
  endProcess();
}
static void armDeadline() {
  uint64_t n = nowNs(), d = sh->deadlineNs + 500000000ull;
  uint64_t left = d > n ? d - n : 200000000ull;
  itimerval t{};
  t.it_value.tv_sec = left / 1000000000ull;
  t.it_value.tv_usec = left % 1000000000ull / 1000;
  setitimer(ITIMER_REAL, &t, nullptr);
}

// Fork the exploration. Returns true in the child.
static bool forkState() {
  pollStop();
  sh->forks++;
  bool par = sem_trywait(&sh->tokens) == 0;
  pid_t p = fork();
  if (p < 0) engineError("fork failed");
  if (p == 0) {
    isRoot = false;
    armDeadline();
    holdsToken = par;
    instrCount = 0;
    myDepth++;
    return true;
  }
  myDepth++;
  if (!par) {
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) engineError("worker killed by signal " + std::to_string(WTERMSIG(st)));
    pollStop();
  }
  return false;
}

// Decide a symbolic condition, forking when both outcomes are possible.
static bool decide(Expr *c) {
  if (isConst(c)) return c->k;
  bool m = modelSays(c);
  Expr *mine = m ? c : mkNot(c), *other = m ? mkNot(c) : c;
  std::vector<uint64_t> saved = varModel;
  if (!satisfiable(other, true)) {
    // implied; keep it as a fact for the simplifier's benefit only
    return m;
  }
  if (forkState()) {
    addConstraint(other);
    return !m;
  }
  varModel = saved;
  evalEpoch++;
  addConstraint(mine);
  return m;
}
static uint64_t concretize(Expr *e) {
  if (isConst(e)) return e->k;
  if (e->width > 64) engineError("concretize wide value");
  for (int i = 0; i < 70000; i++) {
    uint64_t v = evalExpr64(e);
    Expr *eq = mkBin(EQ, e, mkConst(e->width, v));
    std::vector<uint64_t> saved = varModel;
    if (!satisfiable(mkNot(eq), true)) return v;
    sh->concretized++;
    if (forkState()) { // child: the rest, using the new model
      addConstraint(mkNot(eq));
      continue;
    }
    varModel = saved;
    evalEpoch++;
    addConstraint(eq);
    return v;
  }
  engineError("too many values to concretize");
}
static uint64_t conc(const Val &v) { return v.e ? concretize(v.e) : v.c; }

// All feasible values of e, up to lim; empty if more.
static std::vector<uint64_t> feasible(Expr *e, size_t lim) {
  std::vector<uint64_t> out;
  std::vector<uint64_t> saved = varModel;
  Expr *ne = mkConst(1, 1);
  while (true) {
    uint64_t v = evalExpr64(e);
    out.push_back(v);
    if (out.size() > lim) { out.clear(); break; }
    ne = mkBin(AND, ne, mkNot(mkBin(EQ, e, mkConst(e->width, v))));
    if (!satisfiable(ne, true)) break;
  }
  varModel = saved;
  evalEpoch++;
  return out;
}

// ---------------------------------------------------------------- decoding
static FnInfo *infoOf(Function *F) {
  auto &p = fnInfos[F];
  if (!p) {
    p = new FnInfo();
    p->F = F;
    p->ix = (fnAddr[F] - FNBASE) / 16;
  }
  return p;
}
static int32_t pushConst(const std::vector<Val> &vs) {
  int32_t ix = cpool.size();
  for (auto &v : vs) cpool.push_back(v);
  return ~ix;
}
static Handler findHandler(Function *F, bool &panic);
// Functions of third-party crates that are redirected to a model in the harness.
static Function *overrideOf(Function *F) {
  static const std::pair<const char *, const char *> tab[] = {
      {"bitcoin::blockdata::block::BlockHeader::block_hash", "nk_block_hash"},
  };
  StringRef nm = F->getName();
  if (!nm.starts_with("_ZN")) return F;
  if (!nm.contains("block_hash")) return F;
  std::string d = demangle(nm);
  for (auto &p : tab)
    if (d == p.first) {
      Function *G = M->getFunction(p.second);
      if (!G || G->isDeclaration()) return F;
      if (G->arg_size() != F->arg_size()) engineError("signature of " + d);
      return G;
    }
  return F;
}

struct Decoder {
  FnInfo *fi;
  std::unordered_map<const Value *, int32_t> slot;
  std::unordered_map<const Constant *, int32_t> cs;
  std::unordered_map<const BasicBlock *, int32_t> bbPc;
  // operand's first slot; slots i.. are consecutive (for constants: ~(ix+i))
  Opnd op(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) {
      auto it = cs.find(C);
      if (it != cs.end()) return it->second;
      std::vector<Val> vs;
      flattenConst(C, vs);
      int32_t r = pushConst(vs);
      cs[C] = r;
      return r;
    }
    auto it = slot.find(V);
    if (it == slot.end()) {
      if (isa<MetadataAsValue>(V)) return pushConst({cv(0)});
      engineError("operand without slot");
    }
    return it->second;
  }
  static Opnd at(Opnd o, uint32_t i) { return o >= 0 ? o + (int32_t)i : ~(~o + (int32_t)i); }
  void decode(FnInfo *f);
  Edge edge(BasicBlock *from, BasicBlock *to) {
    Edge e;
    e.target = -1;
    for (PHINode &P : to->phis()) {
      Value *in = P.getIncomingValueForBlock(from);
      uint32_t n = nLeaves(P.getType());
      Opnd s = op(in);
      for (uint32_t i = 0; i < n; i++) e.phis.push_back({slot[&P] + (int32_t)i, at(s, i)});
    }
    return e;
  }
};

void Decoder::decode(FnInfo *f) {
  fi = f;
  Function *F = f->F;
  uint32_t ns = 0;
  for (Argument &A : F->args()) {
    slot[&A] = ns;
    ns += nLeaves(A.getType());
  }
  f->nargs = ns;
  for (BasicBlock &B : *F)
    for (Instruction &I : B)
      if (!I.getType()->isVoidTy()) {
        slot[&I] = ns;
        ns += nLeaves(I.getType());
      }
  f->nslots = ns;
  std::vector<std::pair<size_t, std::vector<BasicBlock *>>> fix;
  for (BasicBlock &B : *F) {
    bbPc[&B] = f->code.size();
    for (Instruction &I : B) {
      if (isa<PHINode>(I)) continue;
      Inst in;
      in.op = I_NOP; in.sub = 0; in.width = in.width2 = 0; in.n = 1; in.a = in.b = in.c = 0;
      in.I = &I;
      in.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
      Type *T = I.getType();
      auto scalarW = [&](Type *t) { return (uint32_t)DL->getTypeSizeInBits(t->getScalarType()); };
      if (isa<BinaryOperator>(I)) {
        Type *st = T->getScalarType();
        in.n = nLeaves(T);
        in.a = op(I.getOperand(0));
        in.b = op(I.getOperand(1));
        in.width = scalarW(T);
        if (st->isFloatingPointTy()) {
          in.op = I_FBIN;
          in.sub = I.getOpcode();
        } else {
          in.op = I_BIN;
          switch (I.getOpcode()) {
          case Instruction::Add: in.sub = ADD; break;
          case Instruction::Sub: in.sub = SUB; break;
          case Instruction::Mul: in.sub = MUL; break;
          case Instruction::UDiv: in.sub = UDIV; break;
          case Instruction::SDiv: in.sub = SDIV; break;
          case Instruction::URem: in.sub = UREM; break;
          case Instruction::SRem: in.sub = SREM; break;
          case Instruction::And: in.sub = AND; break;
          case Instruction::Or: in.sub = OR; break;
          case Instruction::Xor: in.sub = XOR; break;
          case Instruction::Shl: in.sub = SHL; break;
          case Instruction::LShr: in.sub = LSHR; break;
          case Instruction::AShr: in.sub = ASHR; break;
          default: in.op = I_UNSUPPORTED;
          }
        }
      } else if (auto *C = dyn_cast<ICmpInst>(&I)) {
        in.op = I_ICMP;
        in.n = nLeaves(T);
        in.a = op(I.getOperand(0));
        in.b = op(I.getOperand(1));
        in.width = scalarW(I.getOperand(0)->getType());
        in.sub = C->getPredicate();
      } else if (auto *C = dyn_cast<FCmpInst>(&I)) {
        in.op = I_FCMP;
        in.n = nLeaves(T);
        in.a = op(I.getOperand(0));
        in.b = op(I.getOperand(1));
        in.width = scalarW(I.getOperand(0)->getType());
        in.sub = C->getPredicate();
      } else if (isa<CastInst>(I)) {
        in.a = op(I.getOperand(0));
        in.n = nLeaves(T);
        in.width = scalarW(I.getOperand(0)->getType());
        in.width2 = scalarW(T);
        switch (I.getOpcode()) {
        case Instruction::Trunc: in.op = I_TRUNC; break;
        case Instruction::ZExt: in.op = I_ZEXT; break;
        case Instruction::SExt: in.op = I_SEXT; break;
        case Instruction::PtrToInt:
        case Instruction::IntToPtr: in.op = in.width2 < in.width ? I_TRUNC : in.width2 > in.width ? I_ZEXT : I_COPY; break;
        case Instruction::AddrSpaceCast: in.op = I_COPY; break;
        case Instruction::BitCast: {
          uint32_t sn = nLeaves(I.getOperand(0)->getType());
          if (sn == in.n) in.op = I_COPY;
          else {
            in.op = I_BITCAST;
            in.imm.push_back(sn);
          }
          break;
        }
        default:
          in.op = I_FCAST;
          in.sub = I.getOpcode();
        }
      } else if (isa<FreezeInst>(I)) {
        in.op = I_COPY;
        in.a = op(I.getOperand(0));
        in.n = nLeaves(T);
      } else if (auto *L = dyn_cast<LoadInst>(&I)) {
        in.op = I_LOAD;
        in.a = op(L->getPointerOperand());
        flatten(T, 0, in.leaves);
      } else if (auto *S = dyn_cast<StoreInst>(&I)) {
        in.op = I_STORE;
        in.a = op(S->getPointerOperand());
        in.b = op(S->getValueOperand());
        flatten(S->getValueOperand()->getType(), 0, in.leaves);
      } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        in.op = I_GEP;
        if (T->isVectorTy()) in.op = I_UNSUPPORTED;
        else {
          in.a = op(G->getPointerOperand());
          int64_t off = 0;
          for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
            Value *ix = gi.getOperand();
            if (StructType *ST = gi.getStructTypeOrNull()) {
              off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            } else {
              int64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
              if (auto *CI = dyn_cast<ConstantInt>(ix)) off += CI->getSExtValue() * sz;
              else {
                in.ops.push_back(op(ix));
                in.imm.push_back(sz);
                in.argWidths.push_back(ix->getType()->getIntegerBitWidth());
              }
            }
          }
          in.imm.push_back(off);
        }
      } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
        in.op = I_ALLOCA;
        uint64_t sz = DL->getTypeAllocSize(A->getAllocatedType());
        in.imm.push_back(sz);
        in.imm.push_back(A->getAlign().value());
        in.a = op(A->getArraySize());
      } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
        if (Br->isUnconditional()) {
          in.op = I_BR;
          in.edges.push_back(edge(&B, Br->getSuccessor(0)));
          fix.push_back({f->code.size(), {Br->getSuccessor(0)}});
        } else {
          in.op = I_CBR;
          in.a = op(Br->getCondition());
          in.edges.push_back(edge(&B, Br->getSuccessor(0)));
          in.edges.push_back(edge(&B, Br->getSuccessor(1)));
          fix.push_back({f->code.size(), {Br->getSuccessor(0), Br->getSuccessor(1)}});
        }
      } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
        in.op = I_SWITCH;
        in.a = op(Sw->getCondition());
        in.width = Sw->getCondition()->getType()->getIntegerBitWidth();
        std::vector<BasicBlock *> t;
        in.edges.push_back(edge(&B, Sw->getDefaultDest()));
        t.push_back(Sw->getDefaultDest());
        for (auto &c : Sw->cases()) {
          if (in.width <= 64) in.imm.push_back((int64_t)c.getCaseValue()->getZExtValue());
          else {
            in.imm.push_back(0);
            in.ops.push_back(op(c.getCaseValue()));
          }
          in.edges.push_back(edge(&B, c.getCaseSuccessor()));
          t.push_back(c.getCaseSuccessor());
        }
        fix.push_back({f->code.size(), t});
      } else if (auto *CB = dyn_cast<CallBase>(&I)) {
        in.op = I_CALL;
        Function *callee = CB->getCalledFunction();
        if (!callee) {
          if (auto *al = dyn_cast<GlobalAlias>(CB->getCalledOperand())) callee = dyn_cast<Function>(al->getAliasee());
        }
        in.callee = callee;
        in.n = T->isVoidTy() ? 0 : nLeaves(T);
        if (CB->isInlineAsm()) in.op = I_NOP;
        else {
          if (callee && callee->isIntrinsic()) {
            StringRef nm = callee->getName();
            if (nm.starts_with("llvm.dbg.") || nm.starts_with("llvm.lifetime.") || nm.starts_with("llvm.assume") ||
                nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.invariant.") || nm == "llvm.donothing" ||
                nm.starts_with("llvm.prefetch") || nm.starts_with("llvm.x86.sse2.pause"))
              in.op = I_NOP;
          }
          if (in.op == I_CALL) {
            for (Value *a : CB->args()) {
              std::vector<Leaf> l;
              flatten(a->getType(), 0, l);
              Opnd o = op(a);
              for (uint32_t i = 0; i < l.size(); i++) {
                in.ops.push_back(at(o, i));
                in.argWidths.push_back(l[i].width);
              }
            }
            if (!T->isVoidTy()) flatten(T, 0, in.leaves);
            if (callee) {
              callee = overrideOf(callee);
              in.callee = callee;
              in.handler = findHandler(callee, in.isPanic);
              if (!in.handler && !in.isPanic) in.calleeInfo = infoOf(callee);
            } else in.a = op(CB->getCalledOperand());
          }
        }
        if (auto *Inv = dyn_cast<InvokeInst>(&I)) {
          in.edges.push_back(edge(&B, Inv->getNormalDest()));
          fix.push_back({f->code.size(), {Inv->getNormalDest()}});
        }
      } else if (auto *R = dyn_cast<ReturnInst>(&I)) {
        in.op = I_RET;
        in.n = 0;
        if (R->getReturnValue()) {
          in.a = op(R->getReturnValue());
          in.n = nLeaves(R->getReturnValue()->getType());
        }
      } else if (isa<SelectInst>(I)) {
        in.op = I_SELECT;
        in.a = op(I.getOperand(0));
        in.b = op(I.getOperand(1));
        in.c = op(I.getOperand(2));
        flatten(T, 0, in.leaves);
        in.width2 = I.getOperand(0)->getType()->isVectorTy();
      } else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
        in.op = I_COPY;
        Type *cur = EV->getAggregateOperand()->getType();
        uint32_t o = 0;
        for (unsigned ix : EV->indices()) {
          if (auto *ST = dyn_cast<StructType>(cur)) {
            for (unsigned k = 0; k < ix; k++) o += nLeaves(ST->getElementType(k));
            cur = ST->getElementType(ix);
          } else {
            auto *AT = cast<ArrayType>(cur);
            o += ix * nLeaves(AT->getElementType());
            cur = AT->getElementType();
          }
        }
        in.a = at(op(EV->getAggregateOperand()), o);
        in.n = nLeaves(T);
      } else if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
        // copy the aggregate, then overwrite: ops = sources per slot
        in.op = I_COPY;
        Type *cur = IV->getAggregateOperand()->getType();
        uint32_t o = 0;
        for (unsigned ix : IV->indices()) {
          if (auto *ST = dyn_cast<StructType>(cur)) {
            for (unsigned k = 0; k < ix; k++) o += nLeaves(ST->getElementType(k));
            cur = ST->getElementType(ix);
          } else {
            auto *AT = cast<ArrayType>(cur);
            o += ix * nLeaves(AT->getElementType());
            cur = AT->getElementType();
          }
        }
        uint32_t n = nLeaves(T), m = nLeaves(IV->getInsertedValueOperand()->getType());
        Opnd ag = op(IV->getAggregateOperand()), iv = op(IV->getInsertedValueOperand());
        for (uint32_t i = 0; i < n; i++) in.ops.push_back(i >= o && i < o + m ? at(iv, i - o) : at(ag, i));
        in.n = n;
      } else if (isa<ExtractElementInst>(I)) {
        in.op = I_EXTRACTELEM;
        in.a = op(I.getOperand(0));
        in.b = op(I.getOperand(1));
        in.n = nLeaves(I.getOperand(0)->getType());
        in.width = scalarW(T);
      } else if (isa<InsertElementInst>(I)) {
        in.op = I_INSERTELEM;
        in.a = op(I.getOperand(0));
        in.b = op(I.getOperand(1));
        in.c = op(I.getOperand(2));
        in.n = nLeaves(T);
      } else if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) {
        in.op = I_COPY;
        uint32_t n1 = nLeaves(SV->getOperand(0)->getType());
        Opnd a = op(SV->getOperand(0)), b = op(SV->getOperand(1));
        for (int m : SV->getShuffleMask()) in.ops.push_back(m < 0 ? a : (uint32_t)m < n1 ? at(a, m) : at(b, m - n1));
        in.n = in.ops.size();
      } else if (isa<UnreachableInst>(I)) in.op = I_UNREACHABLE;
      else if (isa<FenceInst>(I)) in.op = I_NOP;
      else if (auto *CX = dyn_cast<AtomicCmpXchgInst>(&I)) {
        in.op = I_CMPXCHG;
        in.a = op(CX->getPointerOperand());
        in.b = op(CX->getCompareOperand());
        in.c = op(CX->getNewValOperand());
        flatten(CX->getCompareOperand()->getType(), 0, in.leaves);
      } else if (auto *RM = dyn_cast<AtomicRMWInst>(&I)) {
        in.op = I_RMW;
        in.a = op(RM->getPointerOperand());
        in.b = op(RM->getValOperand());
        in.sub = RM->getOperation();
        flatten(T, 0, in.leaves);
      } else if (I.getOpcode() == Instruction::FNeg) {
        in.op = I_FNEG;
        in.a = op(I.getOperand(0));
        in.n = nLeaves(T);
        in.width = scalarW(T);
      } else in.op = I_UNSUPPORTED;
      f->code.push_back(std::move(in));
    }
  }
  for (auto &p : fix)
    for (size_t i = 0; i < p.second.size(); i++) f->code[p.first].edges[i].target = bbPc[p.second[i]];
  f->decoded = true;
}

// ---------------------------------------------------------------- interpreter core
static Val *R; // registers of the current frame
static inline const Val &get(Opnd o) { return o >= 0 ? R[o] : cpool[~o]; }

static Val binop(Op op, const Val &a, const Val &b, uint32_t w) {
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c, m = maskw(w);
    auto S = [&](uint64_t v) -> int64_t { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); };
    switch (op) {
    case ADD: return cv((x + y) & m);
    case SUB: return cv((x - y) & m);
    case MUL: return cv((x * y) & m);
    case UDIV: if (!y) engineError("division by zero"); return cv(x / y);
    case UREM: if (!y) engineError("division by zero"); return cv(x % y);
    case SDIV: if (!y) engineError("division by zero"); if (y == m) return cv((0 - x) & m); return cv((uint64_t)(S(x) / S(y)) & m);
    case SREM: if (!y) engineError("division by zero"); if (y == m) return cv(0); return cv((uint64_t)(S(x) % S(y)) & m);
    case AND: return cv(x & y);
    case OR: return cv(x | y);
    case XOR: return cv(x ^ y);
    case SHL: return cv(y >= w ? 0 : (x << y) & m);
    case LSHR: return cv(y >= w ? 0 : x >> y);
    case ASHR: return cv((uint64_t)(S(x) >> (y >= w ? w - 1 : y)) & m);
    default: break;
    }
  }
  Expr *x = toE(a, w), *y = toE(b, w);
  if (x->width != y->width) engineError("operands of " + std::to_string(x->width) + " and " + std::to_string(y->width) + " bits");
  return fromE(mkBin(op, x, y));
}
static Val icmp(unsigned pred, const Val &a, const Val &b, uint32_t w) {
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c;
    auto S = [&](uint64_t v) -> int64_t { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); };
    switch (pred) {
    case CmpInst::ICMP_EQ: return cv(x == y);
    case CmpInst::ICMP_NE: return cv(x != y);
    case CmpInst::ICMP_UGT: return cv(x > y);
    case CmpInst::ICMP_UGE: return cv(x >= y);
    case CmpInst::ICMP_ULT: return cv(x < y);
    case CmpInst::ICMP_ULE: return cv(x <= y);
    case CmpInst::ICMP_SGT: return cv(S(x) > S(y));
    case CmpInst::ICMP_SGE: return cv(S(x) >= S(y));
    case CmpInst::ICMP_SLT: return cv(S(x) < S(y));
    case CmpInst::ICMP_SLE: return cv(S(x) <= S(y));
    }
  }
  Expr *x = toE(a, w), *y = toE(b, w);
  Expr *r = nullptr;
  switch (pred) {
  case CmpInst::ICMP_EQ: r = mkBin(EQ, x, y); break;
  case CmpInst::ICMP_NE: r = mkNot(mkBin(EQ, x, y)); break;
  case CmpInst::ICMP_UGT: r = mkBin(ULT, y, x); break;
  case CmpInst::ICMP_UGE: r = mkBin(ULE, y, x); break;
  case CmpInst::ICMP_ULT: r = mkBin(ULT, x, y); break;
  case CmpInst::ICMP_ULE: r = mkBin(ULE, x, y); break;
  case CmpInst::ICMP_SGT: r = mkBin(SLT, y, x); break;
  case CmpInst::ICMP_SGE: r = mkBin(SLE, y, x); break;
  case CmpInst::ICMP_SLT: r = mkBin(SLT, x, y); break;
  case CmpInst::ICMP_SLE: r = mkBin(SLE, x, y); break;
  }
  return fromE(r);
}

static Val ite(const Val &c, const Val &a, const Val &b, uint32_t w) {
  if (!c.e) return c.c ? a : b;
  if (!a.e && !b.e && a.c == b.c) return a;
  return fromE(mkIte(c.e, toE(a, w), toE(b, w)));
}

static void takeEdge(Frame &f, Edge &e) {
  size_t n = e.phis.size();
  if (n == 1) R[e.phis[0].dst] = get(e.phis[0].src);
  else if (n) {
    Val tmp[64];
    std::vector<Val> big;
    Val *t = tmp;
    if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) t[i] = get(e.phis[i].src);
    for (size_t i = 0; i < n; i++) R[e.phis[i].dst] = t[i];
  }
  f.pc = e.target;
}

static void pushFrame(FnInfo *fi, int32_t retDst, int32_t contEdge) {
  if (!fi->decoded) {
    if (fi->F->isDeclaration()) engineError("call to external function " + fi->F->getName().str() + "\n" + stackTrace());
    Decoder d;
    d.decode(fi);
  }
  sh->fnSeen[fi->ix] = 1;
  uint32_t base = stack.empty() ? 0 : stack.back().base + stack.back().fn->nslots;
  if (regs.size() < base + fi->nslots + 64) regs.resize((base + fi->nslots + 64) * 2);
  stack.push_back(Frame{fi, 0, base, stackTop, retDst, contEdge});
  if (stack.size() > 20000) engineError("stack overflow");
  if (traceCalls) fprintf(stderr, "%*s> %s\n", (int)std::min<size_t>(stack.size(), 60), "", demangle(fi->F->getName()).c_str());
}

static std::string readStr(uint64_t a, uint64_t n) {
  if (n > 400) n = 400;
  if (!inMem(a, n)) return "";
  return std::string((char *)a, n);
}
static std::string panicMessage(Inst &in) {
  std::string nm = in.callee ? demangle(in.callee->getName()) : "?";
  std::string msg;
  // (&str, ..) style panics
  if (in.ops.size() >= 2) {
    const Val &p = get(in.ops[0]), &n = get(in.ops[1]);
    if (!p.e && !n.e && in.argWidths[0] == 64 && in.argWidths[1] == 64 && n.c > 0 && n.c < 300 && inMem(p.c, n.c) &&
        nm.find("slice") == std::string::npos && nm.find("bounds") == std::string::npos)
      msg = readStr(p.c, n.c);
    // fmt::Arguments { pieces: &[&str] }
    else if (!p.e && inMem(p.c, 48) && nm.find("panic_fmt") != std::string::npos) {
      uint64_t pieces = *(uint64_t *)p.c, cnt = *(uint64_t *)(p.c + 8);
      for (uint64_t i = 0; i < cnt && i < 8; i++)
        if (inMem(pieces + i * 16, 16)) {
          uint64_t sp = *(uint64_t *)(pieces + i * 16), sl = *(uint64_t *)(pieces + i * 16 + 8);
          if (sl < 300 && inMem(sp, sl)) msg += readStr(sp, sl) + "{}";
        }
    }
  }
  return nm + (msg.empty() ? "" : ": " + msg);
}
[[noreturn]] static void doPanic(const std::string &m) {
  if (allowPanic) finish("ok", "");
  finish("panic", m);
}

static Val loadVal(const Val &p, const Leaf &l) {
  if (!p.e) return memRead(p.c + l.off, l.bytes, l.width);
  // symbolic address: merge all feasible loads when there are few
  Expr *pe = p.e;
  std::vector<uint64_t> vs = feasible(pe, 300);
  if (vs.empty() || l.width > 64) return memRead(concretize(pe) + l.off, l.bytes, l.width);
  for (uint64_t v : vs)
    if (!inMem(v + l.off, l.bytes)) return memRead(concretize(pe) + l.off, l.bytes, l.width);
  Expr *r = nullptr;
  for (uint64_t v : vs) {
    Expr *x = toE(memRead(v + l.off, l.bytes, l.width), l.width);
    r = r ? mkIte(mkBin(EQ, pe, mkConst(64, v)), x, r) : x;
  }
  return fromE(r);
}

static double asF(const Val &v, uint32_t w) {
  if (v.e) engineError("symbolic floating point");
  if (w == 32) { float f; uint32_t u = (uint32_t)v.c; memcpy(&f, &u, 4); return f; }
  double d; memcpy(&d, &v.c, 8); return d;
}
static Val fromF(double d, uint32_t w) {
  if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return cv(u); }
  uint64_t u; memcpy(&u, &d, 8); return cv(u);
}

static void doReturn(Inst &in) {
  Frame f = stack.back();
  Val tmp[64];
  std::vector<Val> big;
  Val *t = tmp;
  if (in.n > 64) { big.resize(in.n); t = big.data(); }
  for (uint32_t i = 0; i < in.n; i++) t[i] = get(Decoder::at(in.a, i));
  // clear the symbolic marks of the popped stack area lazily: overwritten on reuse
  stackTop = f.sp;
  stack.pop_back();
  if (stack.empty()) finish("ok", "");
  Frame &c = stack.back();
  R = &regs[c.base];
  if (f.retDst >= 0)
    for (uint32_t i = 0; i < in.n; i++) R[f.retDst + i] = t[i];
  if (f.contEdge >= 0) {
    Inst &call = c.fn->code[c.pc - 1];
    takeEdge(c, call.edges[f.contEdge]);
  }
}

static void run() {
  R = &regs[stack.back().base];
  while (true) {
    Frame &f = stack.back();
    Inst &in = f.fn->code[f.pc++];
    if ((++instrCount & 0xffff) == 0) {
      pollStop();
      if (instrCount > maxInstr) finish("limit", "instruction limit");
    }
    switch (in.op) {
    case I_BIN:
      for (uint32_t i = 0; i < in.n; i++)
        R[in.dst + i] = binop((Op)in.sub, get(Decoder::at(in.a, i)), get(Decoder::at(in.b, i)), in.width);
      break;
    case I_ICMP:
      for (uint32_t i = 0; i < in.n; i++)
        R[in.dst + i] = icmp(in.sub, get(Decoder::at(in.a, i)), get(Decoder::at(in.b, i)), in.width);
      break;
    case I_TRUNC:
      for (uint32_t i = 0; i < in.n; i++) {
        const Val &v = get(Decoder::at(in.a, i));
        R[in.dst + i] = v.e ? fromE(mkExtract(v.e, 0, in.width2)) : cv(v.c & maskw(in.width2));
      }
      break;
    case I_ZEXT:
      for (uint32_t i = 0; i < in.n; i++) {
        const Val &v = get(Decoder::at(in.a, i));
        if (!v.e && in.width2 <= 64) R[in.dst + i] = v;
        else R[in.dst + i] = fromE(mkZExt(toE(v, in.width), in.width2));
      }
      break;
    case I_SEXT:
      for (uint32_t i = 0; i < in.n; i++) R[in.dst + i] = fromE(mkSExt(toE(get(Decoder::at(in.a, i)), in.width), in.width2));
      break;
    case I_COPY:
      if (!in.ops.empty()) {
        Val tmp[64];
        std::vector<Val> big;
        Val *t = tmp;
        if (in.n > 64) { big.resize(in.n); t = big.data(); }
        for (uint32_t i = 0; i < in.n; i++) t[i] = get(in.ops[i]);
        for (uint32_t i = 0; i < in.n; i++) R[in.dst + i] = t[i];
      } else
        for (uint32_t i = 0; i < in.n; i++) R[in.dst + i] = get(Decoder::at(in.a, i));
      break;
    case I_LOAD: {
      Val p = get(in.a);
      for (size_t i = 0; i < in.leaves.size(); i++) R[in.dst + i] = loadVal(p, in.leaves[i]);
      break;
    }
    case I_STORE: {
      uint64_t p = conc(get(in.a));
      for (size_t i = 0; i < in.leaves.size(); i++) {
        const Leaf &l = in.leaves[i];
        memWrite(p + l.off, l.bytes, l.width, get(Decoder::at(in.b, i)));
      }
      break;
    }
    case I_GEP: {
      Val r = get(in.a);
      size_t n = in.ops.size();
      if (in.imm[n]) r = binop(ADD, r, cv((uint64_t)in.imm[n]), 64);
      for (size_t i = 0; i < n; i++) {
        Val ix = get(in.ops[i]);
        if (in.argWidths[i] < 64) ix = fromE(mkSExt(toE(ix, in.argWidths[i]), 64));
        r = binop(ADD, r, binop(MUL, ix, cv((uint64_t)in.imm[i]), 64), 64);
      }
      R[in.dst] = r;
      break;
    }
    case I_ALLOCA: {
      uint64_t cnt = conc(get(in.a));
      uint64_t al = std::max<int64_t>(in.imm[1], 16);
      uint64_t a = (stackTop + al - 1) & ~(al - 1);
      stackTop = a + in.imm[0] * cnt;
      if (stackTop > BASE + SPAN) engineError("stack memory exhausted");
      R[in.dst] = cv(a);
      break;
    }
    case I_BR: takeEdge(f, in.edges[0]); break;
    case I_CBR: {
      Val c = get(in.a);
      bool t = c.e ? decide(c.e) : c.c;
      takeEdge(f, in.edges[t ? 0 : 1]);
      break;
    }
    case I_SWITCH: {
      Val v = get(in.a);
      size_t ne = in.edges.size();
      if (!v.e) {
        size_t k = 0;
        for (size_t i = 1; i < ne; i++)
          if ((uint64_t)in.imm[i - 1] == v.c) { k = i; break; }
        takeEdge(f, in.edges[k]);
      } else {
        // group by target
        std::map<int32_t, std::vector<size_t>> groups;
        std::vector<bool> done(ne, false);
        size_t chosen = 0;
        for (size_t i = 1; i < ne; i++) {
          if (done[i]) continue;
          Expr *c = mkConst(1, 0);
          for (size_t j = i; j < ne; j++)
            if (in.edges[j].target == in.edges[i].target) {
              bool same = in.edges[j].phis.size() == in.edges[i].phis.size();
              for (size_t q = 0; same && q < in.edges[j].phis.size(); q++) same = in.edges[j].phis[q].src == in.edges[i].phis[q].src;
              if (!same) continue;
              done[j] = true;
              Val k = in.width <= 64 ? cv((uint64_t)in.imm[j - 1]) : get(in.ops[j - 1]);
              c = mkBin(OR, c, mkBin(EQ, v.e, toE(k, in.width)));
            }
          if (decide(c)) { chosen = i; break; }
        }
        takeEdge(stack.back(), in.edges[chosen]);
      }
      break;
    }
    case I_CALL: {
      if (in.isPanic) doPanic(panicMessage(in));
      if (in.handler) {
        in.handler(in);
        if (!in.edges.empty()) takeEdge(stack.back(), in.edges[0]);
        break;
      }
      FnInfo *fi = in.calleeInfo;
      if (!fi) {
        uint64_t a = conc(get(in.a));
        uint64_t ix = (a - FNBASE) / 16;
        if (a < FNBASE || ix >= fnByIx.size()) engineError("bad function pointer\n" + stackTrace());
        Function *F = overrideOf(fnByIx[ix]);
        bool panic = false;
        Handler h = findHandler(F, panic);
        if (panic) { in.callee = F; doPanic(panicMessage(in)); }
        if (h) {
          Function *old = in.callee;
          in.callee = F;
          h(in);
          in.callee = old;
          if (!in.edges.empty()) takeEdge(stack.back(), in.edges[0]);
          break;
        }
        fi = infoOf(F);
      }
      size_t n = in.ops.size();
      Val tmp[64];
      std::vector<Val> big;
      Val *t = tmp;
      if (n > 64) { big.resize(n); t = big.data(); }
      for (size_t i = 0; i < n; i++) t[i] = get(in.ops[i]);
      pushFrame(fi, in.dst, in.edges.empty() ? -1 : 0);
      R = &regs[stack.back().base];
      for (size_t i = 0; i < n; i++) R[i] = t[i];
      break;
    }
    case I_RET: doReturn(in); break;
    case I_SELECT: {
      Val c = get(in.a);
      for (size_t i = 0; i < in.leaves.size(); i++) {
        Val ci = in.width2 ? get(Decoder::at(in.a, i)) : c;
        R[in.dst + i] = ite(ci, get(Decoder::at(in.b, i)), get(Decoder::at(in.c, i)), in.leaves[i].width);
      }
      break;
    }
    case I_EXTRACTELEM: {
      uint64_t ix = conc(get(in.b));
      if (ix >= in.n) engineError("extractelement out of range");
      R[in.dst] = get(Decoder::at(in.a, ix));
      break;
    }
    case I_INSERTELEM: {
      uint64_t ix = conc(get(in.c));
      Val v = get(in.b);
      for (uint32_t i = 0; i < in.n; i++) {
        Val x = i == ix ? v : get(Decoder::at(in.a, i));
        R[in.dst + i] = x;
      }
      break;
    }
    case I_BITCAST: {
      uint32_t sn = in.imm[0];
      Expr *r = nullptr;
      for (uint32_t i = 0; i < sn; i++) {
        Expr *x = toE(get(Decoder::at(in.a, i)), in.width);
        r = r ? mkConcat(x, r) : x;
      }
      for (uint32_t i = 0; i < in.n; i++) R[in.dst + i] = fromE(mkExtract(r, i * in.width2, in.width2));
      break;
    }
    case I_NOP:
      if (!in.edges.empty()) takeEdge(f, in.edges[0]);
      break;
    case I_UNREACHABLE: doPanic("unreachable executed");
    case I_CMPXCHG: {
      uint64_t p = conc(get(in.a));
      const Leaf &l = in.leaves[0];
      Val old = memRead(p, l.bytes, l.width);
      Val eq = icmp(CmpInst::ICMP_EQ, old, get(in.b), l.width);
      bool ok = eq.e ? decide(eq.e) : eq.c;
      if (ok) memWrite(p, l.bytes, l.width, get(in.c));
      R[in.dst] = old;
      R[in.dst + 1] = cv(ok);
      break;
    }
    case I_RMW: {
      uint64_t p = conc(get(in.a));
      const Leaf &l = in.leaves[0];
      Val old = memRead(p, l.bytes, l.width), v = get(in.b), nv = v;
      switch (in.sub) {
      case AtomicRMWInst::Xchg: nv = v; break;
      case AtomicRMWInst::Add: nv = binop(ADD, old, v, l.width); break;
      case AtomicRMWInst::Sub: nv = binop(SUB, old, v, l.width); break;
      case AtomicRMWInst::And: nv = binop(AND, old, v, l.width); break;
      case AtomicRMWInst::Or: nv = binop(OR, old, v, l.width); break;
      case AtomicRMWInst::Xor: nv = binop(XOR, old, v, l.width); break;
      default: engineError("atomicrmw");
      }
      memWrite(p, l.bytes, l.width, nv);
      R[in.dst] = old;
      break;
    }
    case I_FBIN:
      for (uint32_t i = 0; i < in.n; i++) {
        double a = asF(get(Decoder::at(in.a, i)), in.width), b = asF(get(Decoder::at(in.b, i)), in.width), r = 0;
        switch (in.sub) {
        case Instruction::FAdd: r = in.width == 32 ? (float)a + (float)b : a + b; break;
        case Instruction::FSub: r = in.width == 32 ? (float)a - (float)b : a - b; break;
        case Instruction::FMul: r = in.width == 32 ? (float)a * (float)b : a * b; break;
        case Instruction::FDiv: r = in.width == 32 ? (float)a / (float)b : a / b; break;
        case Instruction::FRem: r = fmod(a, b); break;
        }
        R[in.dst + i] = fromF(r, in.width);
      }
      break;
    case I_FNEG:
      for (uint32_t i = 0; i < in.n; i++) R[in.dst + i] = fromF(-asF(get(Decoder::at(in.a, i)), in.width), in.width);
      break;
    case I_FCMP:
      for (uint32_t i = 0; i < in.n; i++) {
        double a = asF(get(Decoder::at(in.a, i)), in.width), b = asF(get(Decoder::at(in.b, i)), in.width);
        bool un = std::isnan(a) || std::isnan(b), r = false;
        switch (in.sub) {
        case CmpInst::FCMP_OEQ: r = !un && a == b; break;
        case CmpInst::FCMP_OGT: r = !un && a > b; break;
        case CmpInst::FCMP_OGE: r = !un && a >= b; break;
        case CmpInst::FCMP_OLT: r = !un && a < b; break;
        case CmpInst::FCMP_OLE: r = !un && a <= b; break;
        case CmpInst::FCMP_ONE: r = !un && a != b; break;
        case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = un || a == b; break;
        case CmpInst::FCMP_UGT: r = un || a > b; break;
        case CmpInst::FCMP_UGE: r = un || a >= b; break;
        case CmpInst::FCMP_ULT: r = un || a < b; break;
        case CmpInst::FCMP_ULE: r = un || a <= b; break;
        case CmpInst::FCMP_UNE: r = un || a != b; break;
        case CmpInst::FCMP_TRUE: r = true; break;
        }
        R[in.dst + i] = cv(r);
      }
      break;
    case I_FCAST:
      for (uint32_t i = 0; i < in.n; i++) {
        Val v = get(Decoder::at(in.a, i));
        if (v.e) engineError("symbolic floating point cast");
        switch (in.sub) {
        case Instruction::UIToFP: R[in.dst + i] = fromF((double)v.c, in.width2); break;
        case Instruction::SIToFP: {
          int64_t s = in.width >= 64 ? (int64_t)v.c : ((int64_t)(v.c << (64 - in.width))) >> (64 - in.width);
          R[in.dst + i] = fromF((double)s, in.width2);
          break;
        }
        case Instruction::FPToUI: R[in.dst + i] = cv((uint64_t)asF(v, in.width) & maskw(in.width2)); break;
        case Instruction::FPToSI: R[in.dst + i] = cv((uint64_t)(int64_t)asF(v, in.width) & maskw(in.width2)); break;
        case Instruction::FPExt: case Instruction::FPTrunc: R[in.dst + i] = fromF(asF(v, in.width), in.width2); break;
        default: engineError("fp cast");
        }
      }
      break;
    default: {
      std::string s;
      raw_string_ostream os(s);
      in.I->print(os);
      engineError("unsupported instruction " + os.str() + "\n" + stackTrace());
    }
    }
  }
}

// ---------------------------------------------------------------- intrinsics & externals
static void setRet(Inst &in, const Val &v) { if (in.dst >= 0) R[in.dst] = v; }
static Val arg(Inst &in, int i) { return get(in.ops[i]); }

static void h_memcpy(Inst &in) { memCopy(conc(arg(in, 0)), conc(arg(in, 1)), conc(arg(in, 2))); }
static void h_memcpy_ret(Inst &in) { Val d = arg(in, 0); h_memcpy(in); setRet(in, d); }
static void h_memset(Inst &in) {
  Val b = arg(in, 1);
  if (in.argWidths[1] > 8) b = b.e ? fromE(mkExtract(b.e, 0, 8)) : cv(b.c & 255);
  memSetByte(conc(arg(in, 0)), b, conc(arg(in, 2)));
}
static void h_memset_ret(Inst &in) { Val d = arg(in, 0); h_memset(in); setRet(in, d); }
static void h_memcmp(Inst &in) {
  uint64_t a = conc(arg(in, 0)), b = conc(arg(in, 1)), n = conc(arg(in, 2));
  bool isB = in.callee && in.callee->getName() == "bcmp";
  if (n == 0) { setRet(in, cv(0)); return; }
  checkMem(a, n);
  checkMem(b, n);
  if (!pageSym(a, n) && !pageSym(b, n)) {
    int r = memcmp((void *)a, (void *)b, n);
    setRet(in, cv((uint32_t)(r < 0 ? -1 : r > 0 ? 1 : 0)));
    return;
  }
  if (isB) {
    Expr *eq = mkConst(1, 1);
    for (uint64_t i = 0; i < n && !isFalse(eq); i++) eq = mkBin(AND, eq, mkBin(EQ, toE(memRead(a + i, 1, 8), 8), toE(memRead(b + i, 1, 8), 8)));
    setRet(in, fromE(mkZExt(mkNot(eq), 32)));
    return;
  }
  Expr *r = mkConst(32, 0);
  for (uint64_t i = n; i-- > 0;) {
    Expr *x = toE(memRead(a + i, 1, 8), 8), *y = toE(memRead(b + i, 1, 8), 8);
    r = mkIte(mkBin(EQ, x, y), r, mkIte(mkBin(ULT, x, y), mkConst(32, 0xffffffff), mkConst(32, 1)));
  }
  setRet(in, fromE(r));
}
static void h_strlen(Inst &in) {
  uint64_t a = conc(arg(in, 0)), n = 0;
  while (inMem(a + n, 1) && *(uint8_t *)(a + n)) n++;
  setRet(in, cv(n));
}
static void h_malloc(Inst &in) { setRet(in, cv(heapAlloc(conc(arg(in, 0))))); }
static void h_calloc(Inst &in) {
  uint64_t n = conc(arg(in, 0)) * conc(arg(in, 1));
  uint64_t a = heapAlloc(n);
  memSetByte(a, cv(0), n);
  setRet(in, cv(a));
}
static void h_realloc(Inst &in) {
  uint64_t p = conc(arg(in, 0)), n = conc(arg(in, 1));
  uint64_t a = heapAlloc(n);
  if (p) {
    uint64_t old = *(uint64_t *)(p - 16);
    memCopy(a, p, std::min(old, n));
    heapFree(p);
  }
  setRet(in, cv(a));
}
static void h_free(Inst &in) { heapFree(conc(arg(in, 0))); }
static void h_posix_memalign(Inst &in) {
  uint64_t out = conc(arg(in, 0)), al = conc(arg(in, 1)), n = conc(arg(in, 2));
  memWrite(out, 8, 64, cv(heapAlloc(n, al)));
  setRet(in, cv(0));
}
static void h_zero(Inst &in) { if (in.dst >= 0) R[in.dst] = cv(0); }
static void h_one(Inst &in) { if (in.dst >= 0) R[in.dst] = cv(1); }
static void fail(Inst &in, int err);
static void h_syscall(Inst &in) {
  uint64_t no = conc(arg(in, 0));
  if (no == 318) { // getrandom: a fixed arbitrary seed
    uint64_t a = conc(arg(in, 1)), n = conc(arg(in, 2));
    for (uint64_t i = 0; i < n; i++) memWrite(a + i, 1, 8, cv((i * 37 + 11) & 255));
    setRet(in, cv(n));
    return;
  }
  if (no == 202) { setRet(in, cv(0)); return; } // futex
  if (no == 332) return fail(in, 38); // statx: not there, fstat is
  engineError("syscall " + std::to_string(no));
}
static void h_getrandom(Inst &in) {
  uint64_t a = conc(arg(in, 0)), n = conc(arg(in, 1));
  for (uint64_t i = 0; i < n; i++) memWrite(a + i, 1, 8, cv((i * 37 + 11) & 255));
  setRet(in, cv(n));
}
static Val clockSecs = cv(1600000000);
static void h_nk_clock(Inst &in) { clockSecs = arg(in, 0); }
static void h_clock(Inst &in) {
  uint64_t ts = conc(arg(in, 1));
  memWrite(ts, 8, 64, clockSecs);
  memWrite(ts + 8, 8, 64, cv(0));
  setRet(in, cv(0));
}
static void h_abort(Inst &) { doPanic("abort"); }
static uint64_t errnoAddr = 0;
static void h_errno(Inst &in) {
  if (!errnoAddr) errnoAddr = heapAlloc(16);
  setRet(in, cv(errnoAddr));
}

// An in-memory file system: regular files under /nk, everything else does not exist. Contents
// live in the executor's memory like any other data, so they can be symbolic.
struct NkFile { std::string name; uint64_t mem = 0, cap = 0, size = 0; };
struct NkOpen { int file; uint64_t pos; bool append; int refs; };
static std::vector<NkFile> nkFiles;
static std::vector<NkOpen> nkOpens;
static std::vector<int> nkFds; // fd - 100 -> open, or -1
static void fail(Inst &in, int err) {
  if (!errnoAddr) errnoAddr = heapAlloc(16);
  memWrite(errnoAddr, 4, 32, cv(err));
  setRet(in, cv(in.I->getType()->getIntegerBitWidth() == 32 ? 0xffffffffull : ~0ull));
}
static NkOpen *openOf(Inst &in) {
  uint64_t fd = conc(arg(in, 0));
  if (fd < 100 || fd - 100 >= nkFds.size() || nkFds[fd - 100] < 0) return nullptr;
  return &nkOpens[nkFds[fd - 100]];
}
static int newFd(int o) {
  for (size_t i = 0; i < nkFds.size(); i++)
    if (nkFds[i] < 0) { nkFds[i] = o; return 100 + i; }
  nkFds.push_back(o);
  return 100 + nkFds.size() - 1;
}
static void resize(NkFile &f, uint64_t n) {
  if (n > (1 << 20)) engineError("file too large");
  if (n > f.cap) {
    uint64_t cap = std::max<uint64_t>(4096, n * 2), m = heapAlloc(cap);
    if (f.size) memCopy(m, f.mem, f.size);
    f.mem = m;
    f.cap = cap;
  }
  if (n > f.size) memSetByte(f.mem + f.size, cv(0), n - f.size);
  f.size = n;
}
static int findFile(const std::string &name) {
  for (size_t i = 0; i < nkFiles.size(); i++)
    if (nkFiles[i].name == name) return i;
  return -1;
}
static void h_open(Inst &in) {
  std::string name;
  for (uint64_t a = conc(arg(in, 0)); name.size() < 4096; a++) {
    uint64_t c = conc(memRead(a, 1, 8));
    if (!c) break;
    name += (char)c;
  }
  uint64_t flags = conc(arg(in, 1));
  if (name.compare(0, 4, "/nk/")) return fail(in, 2);
  int f = findFile(name);
  if (f < 0) {
    if (!(flags & 0100)) return fail(in, 2);
    f = nkFiles.size();
    nkFiles.push_back(NkFile());
    nkFiles[f].name = name;
  } else if ((flags & 0300) == 0300) return fail(in, 17);
  if (flags & 01000) resize(nkFiles[f], 0);
  nkOpens.push_back({f, 0, (flags & 02000) != 0, 1});
  setRet(in, cv(newFd(nkOpens.size() - 1)));
}
static std::vector<uint64_t> closedFds; // of the sockets made by the harness
static void h_nk_closed(Inst &in) {
  setRet(in, cv(std::count(closedFds.begin(), closedFds.end(), conc(arg(in, 0)))));
}
static void h_close(Inst &in) {
  if (conc(arg(in, 0)) >= 1000) closedFds.push_back(conc(arg(in, 0)));
  if (openOf(in)) nkFds[conc(arg(in, 0)) - 100] = -1;
  setRet(in, cv(0));
}
static void h_read(Inst &in) {
  if (conc(arg(in, 0)) >= 1000) { setRet(in, cv(0)); return; } // the waker's socket, emptied
  NkOpen *o = openOf(in);
  if (!o) return fail(in, 9);
  NkFile &f = nkFiles[o->file];
  uint64_t n = conc(arg(in, 2));
  n = o->pos >= f.size ? 0 : std::min(n, f.size - o->pos);
  memCopy(conc(arg(in, 1)), f.mem + o->pos, n);
  o->pos += n;
  setRet(in, cv(n));
}
// After so many further changes to files (writes, truncations) the process is taken to be killed:
// what the files are then is kept, and put back when the budget is lifted.
static Val fsBudget = cv(~0ull); // possibly symbolic: every change asks whether it is the one
static uint64_t fsCount = 0;
static bool fsKept = false;
static std::vector<NkFile> fsSnapshot;
static void fsChange() {
  if ((!fsBudget.e && fsBudget.c == ~0ull) || fsKept) return;
  uint64_t n = fsCount++;
  if (!(fsBudget.e ? decide(mkBin(EQ, fsBudget.e, mkConst(fsBudget.e->width, n))) : fsBudget.c == n)) return;
  fsKept = true;
  fsSnapshot.clear();
  for (NkFile &f : nkFiles) {
    NkFile g;
    g.name = f.name;
    if (f.size) {
      resize(g, f.size);
      memCopy(g.mem, f.mem, f.size);
    }
    fsSnapshot.push_back(g);
  }
}
// Thread-specific values of the one thread; destructors are not run.
static std::vector<uint64_t> tsd(1, 0);
static void h_key_create(Inst &in) {
  memWrite(conc(arg(in, 0)), 4, 32, cv(tsd.size()));
  tsd.push_back(0);
  setRet(in, cv(0));
}
static void h_setspecific(Inst &in) {
  tsd.at(conc(arg(in, 0))) = conc(arg(in, 1));
  setRet(in, cv(0));
}
static void h_getspecific(Inst &in) { setRet(in, cv(tsd.at(conc(arg(in, 0))))); }
static void h_nk_fs_budget(Inst &in) {
  fsBudget = arg(in, 0);
  fsCount = 0;
  if (!fsKept) return;
  fsKept = false;
  for (size_t i = 0; i < nkFiles.size(); i++)
    if (i < fsSnapshot.size()) nkFiles[i] = fsSnapshot[i];
    else nkFiles[i].name = ""; // made after the process was killed
}
static void h_nk_fs_killed(Inst &in) { setRet(in, cv(fsKept)); }
static uint64_t sockWrites = 0; // to the sockets made by the harness, i.e. the waker's
static void h_nk_written(Inst &in) { setRet(in, cv(sockWrites)); }
static void h_write(Inst &in) {
  if (conc(arg(in, 0)) >= 1000) sockWrites++;
  NkOpen *o = openOf(in);
  if (!o) { setRet(in, arg(in, 2)); return; } // standard output and error
  fsChange();
  NkFile &f = nkFiles[o->file];
  uint64_t n = conc(arg(in, 2));
  if (o->append) o->pos = f.size;
  if (n && o->pos + n > f.size) resize(f, o->pos + n);
  memCopy(f.mem + o->pos, conc(arg(in, 1)), n);
  o->pos += n;
  setRet(in, cv(n));
}
static void h_lseek(Inst &in) {
  NkOpen *o = openOf(in);
  if (!o) return fail(in, 9);
  uint64_t off = conc(arg(in, 1)), wh = conc(arg(in, 2));
  uint64_t p = wh == 0 ? off : wh == 1 ? o->pos + off : nkFiles[o->file].size + off;
  if ((int64_t)p < 0) return fail(in, 22);
  o->pos = p;
  setRet(in, cv(p));
}
static void h_ftruncate(Inst &in) {
  NkOpen *o = openOf(in);
  if (!o) return fail(in, 9);
  uint64_t n = conc(arg(in, 1));
  if ((int64_t)n < 0) return fail(in, 22);
  fsChange();
  resize(nkFiles[o->file], n);
  setRet(in, cv(0));
}
static void h_fsync(Inst &in) {
  if (!openOf(in)) return fail(in, 9);
  setRet(in, cv(0));
}
static void h_fcntl(Inst &in) {
  if (conc(arg(in, 0)) >= 1000) { setRet(in, cv(0)); return; }
  if (!openOf(in)) return fail(in, 9);
  uint64_t cmd = conc(arg(in, 1));
  if (cmd == 1030) { setRet(in, cv(newFd(nkFds[conc(arg(in, 0)) - 100]))); return; } // F_DUPFD_CLOEXEC
  if (cmd == 1 || cmd == 3) { setRet(in, cv(0)); return; }
  engineError("fcntl " + std::to_string(cmd));
}
static void h_fstat(Inst &in) {
  NkOpen *o = openOf(in);
  if (!o) return fail(in, 9);
  uint64_t b = conc(arg(in, 1));
  memSetByte(b, cv(0), 144);
  memWrite(b + 24, 4, 32, cv(0100644));
  memWrite(b + 48, 8, 64, cv(nkFiles[o->file].size));
  setRet(in, cv(0));
}
static void h_enosys(Inst &in) { fail(in, 38); }

// arithmetic intrinsics
static void h_overflow(Inst &in) {
  StringRef nm = in.callee->getName();
  uint32_t w = in.argWidths[0];
  Val a = arg(in, 0), b = arg(in, 1);
  Op op = nm.contains("add.with") ? ADD : nm.contains("sub.with") ? SUB : MUL;
  bool sg = nm.starts_with("llvm.s");
  Val r = binop(op, a, b, w);
  Val o;
  if (!a.e && !b.e && w <= 64) {
    APInt x(w, a.c), y(w, b.c);
    bool ov = false;
    if (sg) { if (op == ADD) (void)x.sadd_ov(y, ov); else if (op == SUB) (void)x.ssub_ov(y, ov); else (void)x.smul_ov(y, ov); }
    else { if (op == ADD) (void)x.uadd_ov(y, ov); else if (op == SUB) (void)x.usub_ov(y, ov); else (void)x.umul_ov(y, ov); }
    o = cv(ov);
  } else {
    Expr *x = toE(a, w), *y = toE(b, w), *z = toE(r, w);
    Expr *e;
    if (!sg) {
      if (op == ADD) e = mkBin(ULT, z, x);
      else if (op == SUB) e = mkBin(ULT, x, y);
      else if (isConst(x) || isConst(y)) {
        // x*y overflows iff y > MAX / x
        Expr *k = isConst(x) ? x : y, *v = isConst(x) ? y : x;
        APInt kv = constVal(k);
        e = kv.isZero() ? mkConst(1, 0) : mkBin(ULT, mkConst(APInt::getMaxValue(w).udiv(kv)), v);
      } else {
        Expr *p = mkBin(MUL, mkZExt(x, 2 * w), mkZExt(y, 2 * w));
        e = mkNot(mkBin(EQ, mkConst(APInt(w, 0)), mkExtract(p, w, w)));
      }
      if (op == ADD) { // better form with constants
        if (isConst(x)) e = mkBin(ULT, mkConst(APInt::getMaxValue(w) - constVal(x)), y);
        else if (isConst(y)) e = mkBin(ULT, mkConst(APInt::getMaxValue(w) - constVal(y)), x);
        else {
          Expr *s = mkBin(ADD, mkZExt(x, w + 1), mkZExt(y, w + 1));
          e = mkExtract(s, w, 1);
        }
      }
    } else {
      uint32_t W = op == MUL ? 2 * w : w + 1;
      Expr *p = mkBin(op, mkSExt(x, W), mkSExt(y, W));
      e = mkNot(mkBin(EQ, p, mkSExt(mkExtract(p, 0, w), W)));
    }
    o = fromE(e);
  }
  R[in.dst] = r;
  R[in.dst + 1] = o;
}
static void h_sat(Inst &in) {
  StringRef nm = in.callee->getName();
  uint32_t n = in.leaves.size();
  for (uint32_t i = 0; i < n; i++) {
    uint32_t w = in.argWidths[i];
    Val a = get(in.ops[i]), b = get(in.ops[n + i]);
    if (nm.starts_with("llvm.uadd")) {
      Val r = binop(ADD, a, b, w);
      R[in.dst + i] = ite(icmp(CmpInst::ICMP_ULT, r, a, w), w <= 64 ? cv(maskw(w)) : fromE(mkConst(APInt::getMaxValue(w))), r, w);
    } else if (nm.starts_with("llvm.usub")) {
      Val z = w <= 64 ? cv(0) : fromE(mkConst(APInt(w, 0)));
      R[in.dst + i] = ite(icmp(CmpInst::ICMP_ULT, a, b, w), z, binop(SUB, a, b, w), w);
    } else {
      bool add = nm.starts_with("llvm.sadd");
      Expr *p = mkBin(add ? ADD : SUB, mkSExt(toE(a, w), w + 1), mkSExt(toE(b, w), w + 1));
      Expr *mx = mkConst(APInt::getSignedMaxValue(w)), *mn = mkConst(APInt::getSignedMinValue(w));
      Expr *r = mkIte(mkBin(SLT, mkSExt(mx, w + 1), p), mx, mkIte(mkBin(SLT, p, mkSExt(mn, w + 1)), mn, mkExtract(p, 0, w)));
      R[in.dst + i] = fromE(r);
    }
  }
}
static void h_minmax(Inst &in) {
  StringRef nm = in.callee->getName();
  unsigned pred = nm.starts_with("llvm.umin") ? CmpInst::ICMP_ULT : nm.starts_with("llvm.umax") ? CmpInst::ICMP_UGT : nm.starts_with("llvm.smin") ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
  uint32_t n = in.leaves.size();
  for (uint32_t i = 0; i < n; i++) {
    Val a = get(in.ops[i]), b = get(in.ops[n + i]);
    uint32_t w = in.argWidths[i];
    R[in.dst + i] = ite(icmp(pred, a, b, w), a, b, w);
  }
}
static void h_abs(Inst &in) {
  uint32_t w = in.argWidths[0];
  Val a = arg(in, 0), z = w <= 64 ? cv(0) : fromE(mkConst(APInt(w, 0)));
  R[in.dst] = ite(icmp(CmpInst::ICMP_SLT, a, z, w), binop(SUB, z, a, w), a, w);
}
static void h_bits(Inst &in) {
  StringRef nm = in.callee->getName();
  uint32_t n = in.leaves.size();
  for (uint32_t i = 0; i < n; i++) {
    uint32_t w = in.argWidths[i];
    Val v = get(in.ops[i]);
    if (!v.e || isConst(v.e)) {
      APInt x = constVal(toE(v, w));
      uint64_t r = nm.starts_with("llvm.ctlz") ? x.countl_zero() : nm.starts_with("llvm.cttz") ? x.countr_zero() : x.popcount();
      R[in.dst + i] = w <= 64 ? cv(r) : fromE(mkConst(APInt(w, r)));
      continue;
    }
    Expr *e = v.e;
    Expr *r;
    if (nm.starts_with("llvm.ctpop")) {
      r = mkConst(APInt(w, 0));
      for (uint32_t k = 0; k < w; k++) r = mkBin(ADD, r, mkZExt(mkExtract(e, k, 1), w));
    } else {
      bool lz = nm.starts_with("llvm.ctlz");
      r = mkConst(APInt(w, w));
      for (uint32_t k = 0; k < w; k++) {
        uint32_t bit = lz ? k : w - 1 - k;
        r = mkIte(mkExtract(e, bit, 1), mkConst(APInt(w, lz ? w - 1 - k : bit)), r);
      }
    }
    R[in.dst + i] = fromE(r);
  }
}
static void h_bswap(Inst &in) {
  uint32_t n = in.leaves.size();
  for (uint32_t i = 0; i < n; i++) {
    uint32_t w = in.argWidths[i];
    Expr *e = toE(get(in.ops[i]), w), *r = nullptr;
    for (uint32_t k = 0; k < w; k += 8) {
      Expr *b = mkExtract(e, k, 8);
      r = r ? mkConcat(r, b) : b;
    }
    R[in.dst + i] = fromE(r);
  }
}
static void h_bitreverse(Inst &in) {
  uint32_t w = in.argWidths[0];
  Expr *e = toE(arg(in, 0), w), *r = nullptr;
  for (uint32_t k = 0; k < w; k++) {
    Expr *b = mkExtract(e, k, 1);
    r = r ? mkConcat(r, b) : b;
  }
  R[in.dst] = fromE(r);
}
static void h_fsh(Inst &in) {
  bool left = in.callee->getName().starts_with("llvm.fshl");
  uint32_t n = in.leaves.size();
  for (uint32_t i = 0; i < n; i++) {
    uint32_t w = in.argWidths[i];
    Val a = get(in.ops[i]), b = get(in.ops[n + i]), c = get(in.ops[2 * n + i]);
    uint64_t s = conc(c) % w;
    Expr *x = toE(a, w), *y = toE(b, w);
    Expr *cat = mkConcat(x, y);
    if (left) R[in.dst + i] = fromE(mkExtract(cat, w - s, w));
    else R[in.dst + i] = fromE(mkExtract(cat, s, w));
  }
}
static void h_copy0(Inst &in) { for (uint32_t i = 0; i < in.leaves.size(); i++) R[in.dst + i] = get(in.ops[i]); }
static void h_loadrel(Inst &in) {
  uint64_t p = conc(arg(in, 0)), o = conc(arg(in, 1));
  Val v = memRead(p + o, 4, 32);
  int64_t off = (int32_t)conc(v);
  setRet(in, cv(p + off));
}
static void h_ptrmask(Inst &in) { setRet(in, binop(AND, arg(in, 0), arg(in, 1), 64)); }
static void h_reduce(Inst &in) {
  StringRef nm = in.callee->getName();
  uint32_t w = in.argWidths[0];
  Val r = get(in.ops[0]);
  for (size_t i = 1; i < in.ops.size(); i++) {
    Val b = get(in.ops[i]);
    if (nm.contains(".add.")) r = binop(ADD, r, b, w);
    else if (nm.contains(".mul.")) r = binop(MUL, r, b, w);
    else if (nm.contains(".or.")) r = binop(OR, r, b, w);
    else if (nm.contains(".and.")) r = binop(AND, r, b, w);
    else if (nm.contains(".xor.")) r = binop(XOR, r, b, w);
    else if (nm.contains(".umax.")) r = ite(icmp(CmpInst::ICMP_UGT, r, b, w), r, b, w);
    else if (nm.contains(".umin.")) r = ite(icmp(CmpInst::ICMP_ULT, r, b, w), r, b, w);
    else if (nm.contains(".smax.")) r = ite(icmp(CmpInst::ICMP_SGT, r, b, w), r, b, w);
    else if (nm.contains(".smin.")) r = ite(icmp(CmpInst::ICMP_SLT, r, b, w), r, b, w);
    else engineError("reduce " + nm.str());
  }
  setRet(in, r);
}
static void h_pmovmskb(Inst &in) {
  Expr *r = nullptr;
  for (size_t i = 0; i < in.ops.size(); i++) {
    Expr *b = mkExtract(toE(get(in.ops[i]), 8), 7, 1);
    r = r ? mkConcat(b, r) : b;
  }
  setRet(in, fromE(mkZExt(r, 32)));
}
static void h_fptoint_sat(Inst &in) {
  bool sg = in.callee->getName().starts_with("llvm.fptosi");
  uint32_t w = in.leaves[0].width;
  double d = asF(arg(in, 0), in.argWidths[0]);
  if (std::isnan(d)) { setRet(in, cv(0)); return; }
  if (sg) {
    double mx = ldexp(1.0, w - 1);
    int64_t r = d >= mx ? (int64_t)(maskw(w) >> 1) : d < -mx ? -(int64_t)(1ull << (w - 1)) : (int64_t)d;
    setRet(in, cv((uint64_t)r & maskw(w)));
  } else {
    double mx = ldexp(1.0, w);
    setRet(in, cv(d <= 0 ? 0 : d >= mx ? maskw(w) : (uint64_t)d));
  }
}
static void h_fmath(Inst &in) {
  StringRef nm = in.callee->getName();
  double a = asF(arg(in, 0), in.argWidths[0]), r;
  if (nm.starts_with("llvm.floor")) r = floor(a);
  else if (nm.starts_with("llvm.ceil")) r = ceil(a);
  else if (nm.starts_with("llvm.round")) r = round(a);
  else if (nm.starts_with("llvm.trunc")) r = trunc(a);
  else if (nm.starts_with("llvm.fabs")) r = fabs(a);
  else if (nm.starts_with("llvm.sqrt")) r = sqrt(a);
  else engineError("float intrinsic " + nm.str());
  setRet(in, fromF(r, in.argWidths[0]));
}

// bitcoin::util::uint::Uint256::div_rem(out: {quotient, remainder}, self, other)
static Val read256(uint64_t a) { return memRead(a, 32, 256); }
static void h_divrem256(Inst &in) {
  if (in.ops.size() != 3) engineError("div_rem signature");
  uint64_t out = conc(arg(in, 0)), pa = conc(arg(in, 1)), pb = conc(arg(in, 2));
  Expr *a = toE(read256(pa), 256), *b = toE(read256(pb), 256);
  Expr *z = mkBin(EQ, b, mkConst(APInt(256, 0)));
  if (decide(z)) doPanic("attempt to divide by zero");
  memWrite(out, 32, 256, Val{0, mkBin(UDIV, a, b)});
  memWrite(out + 32, 32, 256, Val{0, mkBin(UREM, a, b)});
}

// harness interface
static void h_nk_sym(Inst &in) {
  uint64_t bits = conc(arg(in, 0));
  uint32_t id = varWidth.size();
  varWidth.push_back(bits);
  varModel.push_back(0);
  sh->symVars++;
  Expr *v = mkVar(bits, id);
  inputs.push_back({(uint32_t)bits, v, 0});
  setRet(in, fromE(mkZExt(v, 64)));
}
static void h_nk_choose(Inst &in) {
  uint64_t n = conc(arg(in, 0));
  uint64_t pick = 0;
  for (uint64_t i = n; i-- > 1;) {
    if (forkState()) { pick = i; break; }
  }
  inputs.push_back({64, nullptr, pick});
  setRet(in, cv(pick));
}
static void h_nk_concrete(Inst &in) { setRet(in, cv(conc(arg(in, 0)))); }
static void h_nk_assume(Inst &in) {
  Val c = arg(in, 0);
  if (!c.e) {
    if (!(c.c & 1)) finish("pruned", "");
    return;
  }
  Expr *e = c.e->width > 1 ? mkExtract(c.e, 0, 1) : c.e;
  if (isConst(e)) { if (!e->k) finish("pruned", ""); return; }
  if (!modelSays(e) && !satisfiable(e, true)) finish("pruned", "");
  addConstraint(e);
}
static void h_nk_check(Inst &in) {
  Val c = arg(in, 0);
  uint64_t id = conc(arg(in, 1));
  sh->checks++;
  if (id < 4096) sh->checkHits[id]++;
  if (!c.e) {
    if (!(c.c & 1)) finish("check", "check " + std::to_string(id));
    return;
  }
  Expr *e = c.e->width > 1 ? mkExtract(c.e, 0, 1) : c.e;
  sh->checksSym++;
  Expr *ne = mkNot(e);
  if (satisfiable(ne, true)) {
    addConstraint(ne);
    finish("check", "check " + std::to_string(id));
  }
}
static void h_nk_cover(Inst &in) {
  uint64_t id = conc(arg(in, 0));
  if (id < 4096) sh->cover[id]++;
}
static void h_nk_allow_panic(Inst &in) { allowPanic = conc(arg(in, 0)) & 1; }
static void h_nk_end(Inst &) { finish("ok", ""); }
static void h_nk_note(Inst &in) {
  std::string s = readStr(conc(arg(in, 0)), conc(arg(in, 1)));
  Val v = arg(in, 2);
  s += "=" + (v.e ? exprStr(v.e, 5) : std::to_string(v.c));
  if (verbose) fprintf(stderr, "note %s\n", s.c_str());
  if (notes.size() < 200) notes.push_back(s);
}

static Handler findHandler(Function *F, bool &panic) {
  panic = false;
  StringRef nm = F->getName();
  auto it = handlers.find(nm.str());
  if (it != handlers.end()) return it->second;
  static const std::pair<const char *, Handler> pre[] = {
      {"llvm.memcpy.", h_memcpy}, {"llvm.memmove.", h_memcpy}, {"llvm.memset.", h_memset},
      {"llvm.uadd.with.overflow", h_overflow}, {"llvm.usub.with.overflow", h_overflow}, {"llvm.umul.with.overflow", h_overflow},
      {"llvm.sadd.with.overflow", h_overflow}, {"llvm.ssub.with.overflow", h_overflow}, {"llvm.smul.with.overflow", h_overflow},
      {"llvm.uadd.sat", h_sat}, {"llvm.usub.sat", h_sat}, {"llvm.sadd.sat", h_sat}, {"llvm.ssub.sat", h_sat},
      {"llvm.umin.", h_minmax}, {"llvm.umax.", h_minmax}, {"llvm.smin.", h_minmax}, {"llvm.smax.", h_minmax},
      {"llvm.abs.", h_abs}, {"llvm.ctlz.", h_bits}, {"llvm.cttz.", h_bits}, {"llvm.ctpop.", h_bits},
      {"llvm.bswap.", h_bswap}, {"llvm.bitreverse.", h_bitreverse}, {"llvm.fshl.", h_fsh}, {"llvm.fshr.", h_fsh},
      {"llvm.expect.", h_copy0}, {"llvm.threadlocal.address", h_copy0}, {"llvm.load.relative", h_loadrel},
      {"llvm.ptrmask", h_ptrmask}, {"llvm.vector.reduce.", h_reduce}, {"llvm.x86.sse2.pmovmskb", h_pmovmskb},
      {"llvm.is.constant", h_zero}, {"llvm.fptosi.sat", h_fptoint_sat}, {"llvm.fptoui.sat", h_fptoint_sat},
      {"llvm.floor", h_fmath}, {"llvm.ceil", h_fmath}, {"llvm.round", h_fmath}, {"llvm.trunc.", h_fmath}, {"llvm.fabs", h_fmath}, {"llvm.sqrt", h_fmath},
      {"llvm.stacksave", h_zero}, {"llvm.stackrestore", h_zero},
  };
  for (auto &p : pre)
    if (nm.starts_with(p.first)) return p.second;
  if (nm.starts_with("_ZN7bitcoin4util4uint7Uint2567div_rem17h")) return h_divrem256;
  if (nm == "llvm.trap" || nm == "llvm.ubsantrap") { panic = true; return nullptr; }
  if (F->doesNotReturn()) {
    std::string d = demangle(nm);
    auto st = [&](const char *p) { return d.compare(0, strlen(p), p) == 0; };
    if (st("core::") || st("std::") || st("alloc::") || st("<core::") || st("<std::") || st("<alloc::") || nm == "rust_begin_unwind" || st("rust_panic") || st("__rust_start_panic") || st("__rg_oom") || st("__rdl_oom")) {
      panic = true;
      return nullptr;
    }
  }
  return nullptr;
}

static void initHandlers() {
  auto &h = handlers;
  h["memcpy"] = h_memcpy_ret;
  h["memmove"] = h_memcpy_ret;
  h["memset"] = h_memset_ret;
  h["memcmp"] = h_memcmp;
  h["bcmp"] = h_memcmp;
  h["strlen"] = h_strlen;
  h["malloc"] = h_malloc;
  h["calloc"] = h_calloc;
  h["realloc"] = h_realloc;
  h["free"] = h_free;
  h["posix_memalign"] = h_posix_memalign;
  h["syscall"] = h_syscall;
  h["getrandom"] = h_getrandom;
  h["clock_gettime"] = h_clock;
  h["abort"] = h_abort;
  h["__errno_location"] = h_errno;
  h["write"] = h_write;
  h["open64"] = h_open;
  h["open"] = h_open;
  h["close"] = h_close;
  h["read"] = h_read;
  h["lseek64"] = h_lseek;
  h["ftruncate64"] = h_ftruncate;
  h["fsync"] = h_fsync;
  h["fdatasync"] = h_fsync;
  h["fcntl"] = h_fcntl;
  h["fcntl64"] = h_fcntl;
  h["fstat64"] = h_fstat;
  h["statx"] = h_enosys;
  h["getenv"] = h_zero;
  h["__cxa_thread_atexit_impl"] = h_zero;
  h["pthread_mutex_lock"] = h_zero;
  h["pthread_mutex_unlock"] = h_zero;
  h["pthread_self"] = h_one;
  h["sched_yield"] = h_zero;
  h["nk_sym"] = h_nk_sym;
  h["nk_choose"] = h_nk_choose;
  h["nk_concrete"] = h_nk_concrete;
  h["nk_assume"] = h_nk_assume;
  h["nk_check"] = h_nk_check;
  h["nk_cover"] = h_nk_cover;
  h["nk_allow_panic"] = h_nk_allow_panic;
  h["nk_end"] = h_nk_end;
  h["nk_note"] = h_nk_note;
  h["nk_fs_budget"] = h_nk_fs_budget;
  h["nk_clock"] = h_nk_clock;
  h["nk_written"] = h_nk_written;
  h["nk_closed"] = h_nk_closed;
  h["nk_fs_killed"] = h_nk_fs_killed;
  h["mkdir"] = h_zero;
  h["pthread_key_create"] = h_key_create;
  h["pthread_setspecific"] = h_setspecific;
  h["pthread_getspecific"] = h_getspecific;
  h["nk_symbolic"] = h_one;
}

static uint64_t startNs;
static std::string entryName;
void report() {
  FILE *o = fopen((outDir + "/result.json").c_str(), "w");
  fprintf(o, "{\"harness\":\"%s\",\"paths\":%lu,\"pruned\":%lu,\"panics\":%lu,\"violations\":%lu,\"errors\":%lu,\"limit\":%lu,\"forks\":%lu,"
             "\"queries\":%lu,\"unsat\":%lu,\"sat\":%lu,\"unknown\":%lu,\"checks\":%lu,\"checks_symbolic\":%lu,\"solver_s\":%.3f,\"instructions\":%lu,"
             "\"sym_vars\":%lu,\"concretized\":%lu,\"max_depth\":%lu,\"wall_s\":%.3f,",
          entryName.c_str(), sh->paths.load(), sh->pruned.load(), sh->panics.load(), sh->violations.load(), sh->errors.load(), sh->limitHit.load(),
          sh->forks.load(), sh->queries.load(), sh->unsatQ.load(), sh->satQ.load(), sh->unknownQ.load(), sh->checks.load(), sh->checksSym.load(),
          sh->solverNs.load() / 1e9, sh->instrs.load(), sh->symVars.load(), sh->concretized.load(), sh->maxDepth.load(), (nowNs() - startNs) / 1e9);
  fprintf(o, "\"covers\":{");
  bool first = true;
  for (int i = 0; i < 4096; i++)
    if (sh->cover[i]) { fprintf(o, "%s\"%d\":%u", first ? "" : ",", i, sh->cover[i].load()); first = false; }
  fprintf(o, "},\"check_hits\":{");
  first = true;
  for (int i = 0; i < 4096; i++)
    if (sh->checkHits[i]) { fprintf(o, "%s\"%d\":%lu", first ? "" : ",", i, sh->checkHits[i].load()); first = false; }
  fprintf(o, "},\"functions\":[");
  first = true;
  for (size_t i = 0; i < fnByIx.size(); i++)
    if (sh->fnSeen[i]) {
      std::string d = demangle(fnByIx[i]->getName());
      if (d.find("nakamoto") == std::string::npos) continue;
      fprintf(o, "%s%s", first ? "" : ",", jstr(d).c_str());
      first = false;
    }
  fprintf(o, "]}\n");
  fclose(o);
}

int main(int argc, char **argv) {
  startNs = nowNs();
  std::string bc, entry;
  int jobs = 8;
  double timeLimit = 600;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "-o") outDir = nx();
    else if (a == "-j") jobs = atoi(nx().c_str());
    else if (a == "-t") timeLimit = atof(nx().c_str());
    else if (a == "-v") verbose = true;
    else if (a == "-T") traceCalls = true;
    else if (a == "--max-instr") maxInstr = strtoull(nx().c_str(), 0, 10);
    else if (a == "--max-violations") maxViolations = strtoull(nx().c_str(), 0, 10);
    else if (a == "--max-paths") maxPaths = strtoull(nx().c_str(), 0, 10);
    else if (a == "--solver-rlimit") solverRlimit = atoi(nx().c_str());
    else if (bc.empty()) bc = a;
    else entry = a;
  }
  entryName = entry;
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sem_init(&sh->tokens, 1, jobs - 1);
  sh->deadlineNs = startNs + (uint64_t)(timeLimit * 1e9);
  logFd = open((outDir + "/log.jsonl").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (logFd < 0) { perror("log"); return 2; }
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  if (mmap((void *)BASE, SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)BASE) { perror("mmap"); return 2; }
  shadow = (uint8_t *)mmap(nullptr, SPAN >> 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  regs.resize(1 << 16);
  LLVMContext ctx;
  auto buf = MemoryBuffer::getFile(bc);
  if (!buf) { fprintf(stderr, "cannot read %s\n", bc.c_str()); return 2; }
  auto mod = parseBitcodeFile((*buf)->getMemBufferRef(), ctx);
  if (!mod) { fprintf(stderr, "cannot parse bitcode\n"); return 2; }
  M = mod->get();
  // The layout the module was compiled with: LLVM 18 raises the alignment of i128 to 16 when it
  // reads older bitcode, which would move struct fields.
  std::string layout = M->getDataLayoutStr();
  size_t i128 = layout.find("-i128:128");
  if (i128 != std::string::npos) layout.erase(i128, 9);
  M->setDataLayout(layout);
  DL = &M->getDataLayout();
  for (Function &F : *M) {
    fnAddr[&F] = FNBASE + 16 * fnByIx.size();
    fnByIx.push_back(&F);
  }
  if (fnByIx.size() >= sizeof(sh->fnSeen)) { fprintf(stderr, "too many functions\n"); return 2; }
  for (GlobalVariable &G : M->globals()) {
    uint64_t sz = DL->getTypeAllocSize(G.getValueType());
    uint64_t al = std::max<uint64_t>(16, G.getAlign() ? G.getAlign()->value() : 16);
    globTop = (globTop + al - 1) & ~(al - 1);
    globAddr[&G] = globTop;
    globTop += sz ? sz : 1;
  }
  initHandlers();
  for (GlobalVariable &G : M->globals())
    if (G.hasInitializer()) writeConst(G.getInitializer(), globAddr[&G]);
  initSolver();
  Function *F = M->getFunction(entry);
  if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  signal(SIGALRM, onAlarm);
  armDeadline();
  pushFrame(infoOf(F), -1, -1);
  run();
}
