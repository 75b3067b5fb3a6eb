// svsym: a path-complete symbolic executor for LLVM IR (clang 18), deciding every branch,
// memory access and assertion with Z3. See /verif/DESIGN.md.
#include "expr.h"

#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>

#include <algorithm>
#include <chrono>
#include <unistd.h>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>

using namespace llvm;
typedef std::chrono::steady_clock Clk;

// ---------------------------------------------------------------- values & decoded code
struct Val {
  uint64_t c = 0;
  const Expr *e = nullptr;
};
struct Opd {
  int slot = -1;
  uint64_t c = 0;
};
struct DFunc;
struct GepTerm { Opd idx; uint64_t scale; unsigned w; };
struct PhiMove { int dst; Opd src; };
struct Edge { int target = -1; std::vector<PhiMove> moves; };
enum DOp : uint8_t {
  DBin, DICmp, DSelect, DLoad, DStore, DGep, DAlloca, DZExt, DSExt, DTrunc, DMove, DBr, DCondBr,
  DSwitch, DRet, DCall, DIntr, DUnreachable, DUnsupported
};
struct DInst {
  DOp op;
  Op xop = XAdd;
  uint8_t pred = 0;
  unsigned w = 0, w2 = 0;   // operand/result widths
  int dst = -1;
  int ndst = 1;
  std::vector<Opd> ops;
  std::vector<GepTerm> gep;
  uint64_t imm = 0;
  std::vector<Edge> edges;
  std::vector<uint64_t> cases;
  std::vector<unsigned> argw;
  DFunc *callee = nullptr;
  int intr = 0;
  const Instruction *I = nullptr;
  const char *why = "";
  int cov = -1;
};
struct DFunc {
  const Function *F;
  bool decoded = false;
  std::vector<DInst> code;
  int nslots = 0;
  std::vector<int> argSlots;
  int intr = 0;
  bool executed = false;
};

// ---------------------------------------------------------------- memory
struct Object {
  uint32_t id = 0;
  uint32_t size = 0;
  bool heap = false, ro = false, stack = false;
  bool shared = false;  // memory of the code under test that threads may share
  std::vector<uint8_t> data;
  std::vector<const Expr *> sym;   // empty: all concrete
  std::vector<uint8_t> uninit;     // empty: all initialised
  std::string name;
};
struct Chunk { std::shared_ptr<Object> o[64]; uint8_t dead[64]; };

struct Frame {
  DFunc *f;
  int pc = 0;
  std::vector<Val> regs;
  std::vector<uint32_t> allocas;
  const DInst *callsite = nullptr;
};
enum TStat { T_RUN, T_LOCK, T_COND, T_JOIN, T_DONE, T_IDLE };
struct Thread {
  std::vector<Frame> st;
  TStat status = T_RUN;
  uint64_t waitOn = 0, waitM = 0;
  bool parked = false;   // suspended in a synchronisation instruction
  bool timed = false;    // a condition wait that may time out
  bool relock = false;   // woken from a condition wait, must re-acquire
  uint64_t retval = 0;
  std::vector<uint32_t> vc;  // vector clock
};
struct InputRec { std::string name; uint32_t var0 = 0; uint32_t n = 0; std::vector<uint8_t> conc; };
// Race detection: per byte the last write, and the last read of each thread (clk 0: none).
struct AccessRec { uint32_t clk = 0; uint16_t tid = 0, where = 0; };
struct Shadow { std::vector<AccessRec> w; std::vector<std::vector<AccessRec>> r; };
struct State {
  std::vector<Thread> th;
  int cur = 0;
  bool scheduled = false;
  int preempts = 0, spurious = 0;
  std::vector<std::shared_ptr<Chunk>> mem;
  uint32_t nextObj = 1;
  std::vector<const Expr *> cons;
  std::vector<int> known;           // var -> value or -1
  std::vector<uint8_t> model;
  uint32_t nvars = 0;
  std::vector<InputRec> inputs;
  uint64_t steps = 0;
  uint32_t depth = 0;
  std::map<uint64_t, int> mutex;
  std::map<uint64_t, std::vector<uint32_t>> mutexVC;
  std::map<uint32_t, std::shared_ptr<Shadow>> shadow;
  std::vector<std::string> trace;
};
typedef std::unique_ptr<State> SP;

static const uint64_t FN_BASE = 0x70000000ull;

// ---------------------------------------------------------------- globals
static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::unordered_map<const Function *, DFunc *> fmap;
static std::vector<DFunc *> fnByIdx;
static std::unordered_map<const GlobalVariable *, uint64_t> gaddr;
static std::vector<SP> work;
static std::map<std::string, std::vector<uint64_t>> fixes;
static int preemptBound = 2, spuriousBound = 0;
static bool raceDetect = false;
static bool trackCover = true;

struct Stats {
  uint64_t paths = 0, errPaths = 0, killedAssume = 0, insts = 0, forks = 0, queries = 0, cacheHits = 0,
           sat = 0, unsat = 0, unknown = 0, asserts = 0, assertsSym = 0, memChecksSym = 0, concTrunc = 0,
           unsupported = 0, schedForks = 0, z3calls = 0, incompletePaths = 0;
  double solverS = 0;
} S;
static std::map<std::string, uint64_t> reach;
static std::map<std::string, uint64_t> assertSeen;
static std::set<std::string> unsupportedMsgs;
static uint64_t maxSteps = 30000000, maxPaths = 100000000;
static double timeLimit = 800;
static unsigned maxErrors = 8;
static unsigned concLimit = 400;
static unsigned iteLimit = 300;
static Clk::time_point t0;
static bool stopAll = false;
static std::string stopReason;
static std::vector<char> covered;

struct Err {
  std::string kind, msg, func, loc;
  std::vector<std::string> stack;
  std::vector<InputRec> inputs;
  std::vector<uint8_t> model;
  std::vector<std::string> trace;
};
static std::vector<Err> errList;
static std::set<std::string> errKeys;

static double secs() { return std::chrono::duration<double>(Clk::now() - t0).count(); }

// ---------------------------------------------------------------- solver
struct QRes { int r; std::vector<std::pair<uint32_t, uint8_t>> m; };
struct VecHash {
  size_t operator()(const std::vector<uint32_t> &v) const {
    uint64_t h = v.size();
    for (uint32_t x : v) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; }
    return h;
  }
};
static std::unordered_map<std::vector<uint32_t>, QRes, VecHash> qcache;
static Z3_solver zs;
static uint64_t zsUses = 0;

static bool inter(const VarSet &a, const VarSet &b) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; i++) if (a[i] & b[i]) return true;
  return false;
}

static void newSolver() {
  if (zs) Z3_solver_dec_ref(Z, zs);
  zs = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
  Z3_solver_inc_ref(Z, zs);
  Z3_params p = Z3_mk_params(Z);
  Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), 60000);
  Z3_solver_set_params(Z, zs, p);
  Z3_params_dec_ref(Z, p);
}

// Is (path constraints of s) && extra satisfiable? 1 sat, 0 unsat, -1 unknown. On sat, *model gets
// s.model updated with the satisfying values.
static int query(const State &s, const Expr *extra, std::vector<uint8_t> *model) {
  S.queries++;
  if (isC(extra)) {
    if (extra->c && model) *model = s.model;
    return (int)extra->c;
  }
  // slice
  VarSet vs = varsOf(extra);
  std::vector<const Expr *> sl;
  std::vector<char> used(s.cons.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.cons.size(); i++) {
      if (used[i]) continue;
      const VarSet &v = varsOf(s.cons[i]);
      if (inter(v, vs)) {
        used[i] = 1;
        sl.push_back(s.cons[i]);
        if (v.size() > vs.size()) vs.resize(v.size(), 0);
        for (size_t j = 0; j < v.size(); j++) if (v[j] & ~vs[j]) { vs[j] |= v[j]; ch = true; }
      }
    }
  }
  std::vector<uint32_t> key;
  key.reserve(sl.size() + 1);
  for (auto e : sl) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  key.push_back(extra->id);
  auto it = qcache.find(key);
  if (it == qcache.end()) {
    auto ts = Clk::now();
    if (!zs || zsUses++ > 2000) { newSolver(); zsUses = 0; }
    Z3_solver_push(Z, zs);
    Z3_ast one = Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1));
    for (auto e : sl) Z3_solver_assert(Z, zs, Z3_mk_eq(Z, toZ3(e), one));
    Z3_solver_assert(Z, zs, Z3_mk_eq(Z, toZ3(extra), one));
    Z3_lbool r = Z3_solver_check(Z, zs);
    S.z3calls++;
    QRes qr;
    qr.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (r == Z3_L_TRUE) {
      Z3_model zm = Z3_solver_get_model(Z, zs);
      Z3_model_inc_ref(Z, zm);
      for (size_t j = 0; j < vs.size(); j++)
        for (int b = 0; b < 64; b++)
          if (vs[j] >> b & 1) {
            uint32_t vi = j * 64 + b;
            Z3_ast out = 0;
            uint64_t val = 0;
            if (Z3_model_eval(Z, zm, toZ3(mkVar(vi)), true, &out)) Z3_get_numeral_uint64(Z, out, &val);
            qr.m.push_back({vi, (uint8_t)val});
          }
      Z3_model_dec_ref(Z, zm);
      // Self-check: the model must satisfy the constraints under our own evaluator.
      std::vector<uint8_t> chk(s.model);
      for (auto &p : qr.m) { if (chk.size() <= p.first) chk.resize(p.first + 1, 0); chk[p.first] = p.second; }
      if (!evalExpr(extra, chk)) { fprintf(stderr, "ENGINE: model does not satisfy query\n"); abort(); }
    }
    Z3_solver_pop(Z, zs, 1);
    if (qr.r == 1) S.sat++; else if (qr.r == 0) S.unsat++; else S.unknown++;
    it = qcache.emplace(key, qr).first;
    S.solverS += std::chrono::duration<double>(Clk::now() - ts).count();
  } else S.cacheHits++;
  if (it->second.r == 1 && model) {
    *model = s.model;
    for (auto &p : it->second.m) {
      if (model->size() <= p.first) model->resize(p.first + 1, 0);
      (*model)[p.first] = p.second;
    }
  }
  return it->second.r;
}

static void addCons(State &s, const Expr *e) {
  if (isC(e)) return;
  if (e->op == XAnd) { addCons(s, e->k[0]); addCons(s, e->k[1]); return; }
  if (e->op == XXor && isC(e->k[1]) && e->k[0]->op == XOr) {
    addCons(s, mkNot(e->k[0]->k[0])); addCons(s, mkNot(e->k[0]->k[1])); return;
  }
  if (e->op == XEq && e->k[0]->op == XVar && isC(e->k[1])) {
    uint32_t v = e->k[0]->c;
    if (s.known.size() <= v) s.known.resize(v + 1, -1);
    s.known[v] = (int)e->k[1]->c;
  }
  for (auto c : s.cons) if (c == e) return;
  s.cons.push_back(e);
}

// ---------------------------------------------------------------- memory helpers
static std::shared_ptr<Object> *slotOf(State &s, uint32_t id) {
  uint32_t ch = id / 64;
  if (ch >= s.mem.size() || !s.mem[ch]) return nullptr;
  return &s.mem[ch]->o[id % 64];
}
static const Object *roObj(State &s, uint32_t id) {
  auto p = slotOf(s, id);
  return p ? p->get() : nullptr;
}
static Chunk *rwChunk(State &s, uint32_t ch) {
  if (s.mem.size() <= ch) s.mem.resize(ch + 1);
  auto &c = s.mem[ch];
  if (!c) { c = std::make_shared<Chunk>(); memset(c->dead, 0, 64); }
  else if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
  return c.get();
}
static Object *rwObj(State &s, uint32_t id) {
  Chunk *c = rwChunk(s, id / 64);
  auto &p = c->o[id % 64];
  if (!p) return nullptr;
  if (p.use_count() > 1) p = std::make_shared<Object>(*p);
  return p.get();
}
static uint64_t newObj(State &s, uint32_t size, const char *name, bool initZero) {
  uint32_t id = s.nextObj++;
  Chunk *c = rwChunk(s, id / 64);
  auto o = std::make_shared<Object>();
  o->id = id; o->size = size; o->name = name;
  o->data.assign(size, 0);
  if (!initZero) o->uninit.assign(size, 1);
  c->o[id % 64] = o;
  return (uint64_t)id << 32;
}
static void killObj(State &s, uint32_t id) {
  Chunk *c = rwChunk(s, id / 64);
  c->o[id % 64].reset();
  c->dead[id % 64] = 1;
}

static std::string locStr(const Instruction *I) {
  if (!I) return "?";
  if (const DebugLoc &d = I->getDebugLoc()) {
    return std::string(d->getScope()->getFilename()) + ":" + std::to_string(d.getLine());
  }
  return "?";
}

static std::vector<std::string> stackOf(State &s) {
  std::vector<std::string> r;
  auto &st = s.th[s.cur].st;
  for (size_t i = st.size(); i-- > 0;) {
    Frame &f = st[i];
    const DInst *d = f.pc < (int)f.f->code.size() ? &f.f->code[f.pc] : nullptr;
    r.push_back(f.f->F->getName().str() + " @ " + (d ? locStr(d->I) : "?"));
  }
  return r;
}
static const char *repoMarker = "/lib/";
// The innermost frame whose source lies in the repository, used to name an error's location.
static void repoFrame(State &s, std::string &fn, std::string &loc) {
  auto &st = s.th[s.cur].st;
  fn = st.back().f->F->getName().str();
  for (size_t i = st.size(); i-- > 0;) {
    Frame &f = st[i];
    if (f.f->F->getName().starts_with("vf_")) continue;
    if (auto *sp = f.f->F->getSubprogram()) {
      if (sp->getFilename().contains("/engine/") || sp->getFilename().contains("/rt/")) continue;
    }
    fn = f.f->F->getName().str();
    const DInst *d = f.pc < (int)f.f->code.size() ? &f.f->code[f.pc] : nullptr;
    loc = d ? locStr(d->I) : "?";
    return;
  }
}

static void report(State &s, const std::string &kind, const std::string &msg, const std::vector<uint8_t> &model) {
  std::string fn, loc;
  repoFrame(s, fn, loc);
  std::string key = kind + "|" + msg + "|" + loc;
  if (!errKeys.insert(key).second) return;
  Err e;
  e.kind = kind; e.msg = msg; e.func = fn; e.loc = loc;
  e.stack = stackOf(s);
  e.inputs = s.inputs;
  e.model = model;
  e.trace = s.trace;
  errList.push_back(e);
  fprintf(stderr, "ERROR %s: %s in %s (%s)\n", kind.c_str(), msg.c_str(), fn.c_str(), loc.c_str());
  for (auto &l : e.stack) fprintf(stderr, "    %s\n", l.c_str());
  if (errList.size() >= maxErrors) { stopAll = true; stopReason = "error limit"; }
}

static const Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static Val fromE(const Expr *e) {
  Val v;
  if (isC(e)) v.c = e->c; else v.e = e;
  return v;
}

static const Expr *freshByte(State &s) {
  uint32_t i = s.nvars++;
  if (s.model.size() <= i) s.model.resize(i + 1, 0);
  s.model[i] = 0;
  return mkVar(i);
}

// ---------------------------------------------------------------- decoding
enum { IN_NONE = 0, IN_SYM, IN_ASSUME, IN_ASSERT, IN_CONC, IN_REACH, IN_ENGINE, IN_MALLOC, IN_CALLOC,
  IN_REALLOC, IN_FREE, IN_MEMCPY, IN_MEMMOVE, IN_MEMSET, IN_MEMCMP, IN_NOP, IN_ASSERTFAIL, IN_ABORT,
  IN_EXIT, IN_TRACE, IN_OBJSIZE, IN_UBSAN, IN_THCREATE, IN_THJOIN, IN_LOCK, IN_UNLOCK, IN_CWAIT, IN_CTWAIT, IN_IDLE,
  IN_CSIGNAL, IN_YIELD, IN_ABS, IN_UMIN, IN_UMAX, IN_SMIN, IN_SMAX, IN_EXPECT, IN_OVF, IN_FSHL, IN_FSHR,
  IN_BSWAP, IN_SELF, IN_ISSYM, IN_USUBSAT, IN_ZERO, IN_CTPOP, IN_STACKSAVE, IN_VAARG, IN_OBJECTSIZE,
  IN_MKSYMVAL, IN_CTLZ, IN_CTTZ, IN_VASTART, IN_MAYBE, IN_DIE };

static int intrOf(const Function *F) {
  StringRef n = F->getName();
  static const std::map<std::string, int> t = {{"vf_sym", IN_SYM}, {"vf_assume_", IN_ASSUME},
      {"vf_assert_", IN_ASSERT}, {"vf_concretize", IN_CONC}, {"vf_reach", IN_REACH},
      {"vf_engine", IN_ENGINE}, {"malloc", IN_MALLOC}, {"calloc", IN_CALLOC}, {"realloc", IN_REALLOC},
      {"free", IN_FREE}, {"memcpy", IN_MEMCPY}, {"memmove", IN_MEMMOVE}, {"memset", IN_MEMSET},
      {"memcmp", IN_MEMCMP}, {"__assert_fail", IN_ASSERTFAIL}, {"abort", IN_ABORT}, {"exit", IN_EXIT},
      {"vf_trace", IN_TRACE}, {"vf_obj_size", IN_OBJSIZE}, {"vf_thread_create", IN_THCREATE},
      {"vf_thread_join", IN_THJOIN}, {"vf_mutex_lock", IN_LOCK}, {"vf_mutex_unlock", IN_UNLOCK},
      {"vf_cond_wait", IN_CWAIT}, {"vf_cond_timedwait", IN_CTWAIT}, {"vf_wait_idle", IN_IDLE}, {"vf_cond_signal", IN_CSIGNAL}, {"vf_yield", IN_YIELD},
      {"vf_thread_self", IN_SELF}, {"vf_is_symbolic", IN_ISSYM}, {"printf", IN_ZERO},
      {"fprintf", IN_ZERO}, {"puts", IN_ZERO}, {"putchar", IN_ZERO}, {"vf_maybe_true", IN_MAYBE},
      {"vf_die", IN_DIE}, {"fputs", IN_ZERO}, {"fflush", IN_ZERO}, {"vprintf", IN_ZERO}, {"vfprintf", IN_ZERO}};
  auto it = t.find(n.str());
  if (it != t.end() && (F->isDeclaration())) return it->second;
  if (n.starts_with("llvm.")) {
    if (n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") ||
        n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.stackrestore") || n.starts_with("llvm.va_end"))
      return IN_NOP;
    if (n.starts_with("llvm.va_start")) return IN_NOP;  // the only consumer, vprintf, is a model that reads no arguments
    if (n.starts_with("llvm.memcpy")) return IN_MEMCPY;
    if (n.starts_with("llvm.memmove")) return IN_MEMMOVE;
    if (n.starts_with("llvm.memset")) return IN_MEMSET;
    if (n.starts_with("llvm.ubsantrap") || n.starts_with("llvm.trap")) return IN_UBSAN;
    if (n.starts_with("llvm.expect")) return IN_EXPECT;
    if (n.starts_with("llvm.umin")) return IN_UMIN;
    if (n.starts_with("llvm.umax")) return IN_UMAX;
    if (n.starts_with("llvm.smin")) return IN_SMIN;
    if (n.starts_with("llvm.smax")) return IN_SMAX;
    if (n.starts_with("llvm.abs")) return IN_ABS;
    if (n.starts_with("llvm.bswap")) return IN_BSWAP;
    if (n.starts_with("llvm.fshl")) return IN_FSHL;
    if (n.starts_with("llvm.fshr")) return IN_FSHR;
    if (n.starts_with("llvm.usub.sat")) return IN_USUBSAT;
    if (n.starts_with("llvm.ctpop")) return IN_CTPOP;
    if (n.starts_with("llvm.ctlz")) return IN_CTLZ;
    if (n.starts_with("llvm.cttz")) return IN_CTTZ;
    if (n.starts_with("llvm.stacksave")) return IN_ZERO;
    if (n.starts_with("llvm.objectsize")) return IN_OBJECTSIZE;
    if (n.contains(".with.overflow.")) return IN_OVF;
  }
  return IN_NONE;
}

static unsigned widthOf(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  return 0;
}
static unsigned leaves(Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto *e : st->elements()) n += leaves(e); return n; }
  if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * leaves(at->getElementType());
  return 1;
}
static unsigned leafIndex(Type *t, ArrayRef<unsigned> idx) {
  unsigned off = 0;
  for (unsigned i : idx) {
    if (auto *st = dyn_cast<StructType>(t)) {
      for (unsigned j = 0; j < i; j++) off += leaves(st->getElementType(j));
      t = st->getElementType(i);
    } else {
      auto *at = cast<ArrayType>(t);
      off += i * leaves(at->getElementType());
      t = at->getElementType();
    }
  }
  return off;
}

static DFunc *getF(const Function *F) {
  auto &d = fmap[F];
  if (!d) {
    d = new DFunc();
    d->F = F;
    d->intr = intrOf(F);
    fnByIdx.push_back(d);
  }
  return d;
}
static uint64_t fnAddr(const Function *F) {
  DFunc *d = getF(F);
  for (size_t i = 0; i < fnByIdx.size(); i++) if (fnByIdx[i] == d) return (FN_BASE + i) << 32;
  abort();
}

static bool constVal(const Constant *C, std::vector<uint64_t> &out);
static uint64_t constScalar(const Constant *C, bool &ok) {
  ok = true;
  if (auto *ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) { ok = false; return 0; } return ci->getZExtValue(); }
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return 0;
  if (auto *gv = dyn_cast<GlobalVariable>(C)) {
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) { ok = false; return 0; }
    return it->second;
  }
  if (auto *f = dyn_cast<Function>(C)) return fnAddr(f);
  if (auto *ga = dyn_cast<GlobalAlias>(C)) return constScalar(ga->getAliasee(), ok);
  if (auto *fp = dyn_cast<ConstantFP>(C)) return fp->getValueAPF().bitcastToAPInt().getZExtValue();
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      uint64_t b = constScalar(cast<Constant>(gep->getPointerOperand()), ok);
      APInt off(64, 0);
      if (!gep->accumulateConstantOffset(*DL, off)) { ok = false; return 0; }
      return b + off.getZExtValue();
    }
    switch (ce->getOpcode()) {
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
      case Instruction::ZExt: case Instruction::Trunc: {
        uint64_t v = constScalar(ce->getOperand(0), ok);
        return v & maskw(widthOf(ce->getType()));
      }
      case Instruction::Add: { bool k2; uint64_t a = constScalar(ce->getOperand(0), ok), b = constScalar(ce->getOperand(1), k2); ok = ok && k2; return a + b; }
      case Instruction::Sub: { bool k2; uint64_t a = constScalar(ce->getOperand(0), ok), b = constScalar(ce->getOperand(1), k2); ok = ok && k2; return a - b; }
      default: break;
    }
  }
  ok = false;
  return 0;
}
static bool constVal(const Constant *C, std::vector<uint64_t> &out) {
  Type *t = C->getType();
  if (t->isStructTy() || t->isArrayTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) {
      Constant *e = C->getAggregateElement(i);
      if (!e || !constVal(e, out)) return false;
    }
    return true;
  }
  bool ok;
  out.push_back(constScalar(C, ok));
  return ok;
}

static void initConst(Object *o, uint64_t off, const Constant *C) {
  Type *t = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
  if (auto *ds = dyn_cast<ConstantDataSequential>(C)) {
    uint64_t es = DL->getTypeAllocSize(ds->getElementType());
    for (unsigned i = 0; i < ds->getNumElements(); i++) {
      uint64_t v = ds->getElementType()->isIntegerTy() ? ds->getElementAsInteger(i)
          : ds->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue();
      for (uint64_t b = 0; b < es; b++) o->data[off + i * es + b] = v >> (8 * b);
    }
    return;
  }
  if (auto *st = dyn_cast<StructType>(t)) {
    const StructLayout *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) initConst(o, off + sl->getElementOffset(i), C->getAggregateElement(i));
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) initConst(o, off + i * es, C->getAggregateElement(i));
    return;
  }
  bool ok;
  uint64_t v = constScalar(C, ok);
  if (!ok) { llvm::errs() << "unhandled constant initialiser: " << *C << "\n"; exit(3); }
  uint64_t es = DL->getTypeStoreSize(t);
  for (uint64_t b = 0; b < es; b++) o->data[off + b] = v >> (8 * b);
}

static int covNext = 0;
static void decode(DFunc *df) {
  const Function *F = df->F;
  std::unordered_map<const Value *, int> slot;
  std::unordered_map<const BasicBlock *, int> bbStart;
  int ns = 0;
  for (auto &a : F->args()) {
    slot[&a] = ns;
    df->argSlots.push_back(ns);
    ns += leaves(a.getType());
  }
  for (auto &bb : *F)
    for (auto &i : bb)
      if (!i.getType()->isVoidTy()) { slot[&i] = ns; ns += leaves(i.getType()); }
  df->nslots = ns;
  auto opd = [&](const Value *v, std::vector<Opd> &out) -> bool {
    auto it = slot.find(v);
    if (it != slot.end()) {
      for (unsigned i = 0; i < leaves(v->getType()); i++) { Opd o; o.slot = it->second + i; out.push_back(o); }
      return true;
    }
    if (auto *c = dyn_cast<Constant>(v)) {
      std::vector<uint64_t> cs;
      if (!constVal(c, cs)) return false;
      for (uint64_t x : cs) { Opd o; o.c = x; out.push_back(o); }
      return true;
    }
    if (isa<MetadataAsValue>(v)) { out.push_back(Opd()); return true; }
    return false;
  };
  // first pass: emit with block indices; edges patched afterwards
  std::vector<std::pair<size_t, std::pair<const BasicBlock *, std::vector<const BasicBlock *>>>> patches;
  for (auto &bb : *F) {
    bbStart[&bb] = (int)df->code.size();
    for (auto &i : bb) {
      if (isa<PHINode>(&i)) continue;
      if (isa<DbgInfoIntrinsic>(&i)) continue;
      DInst d;
      d.I = &i;
      d.cov = covNext++;
      if (!i.getType()->isVoidTy()) { d.dst = slot[&i]; d.ndst = leaves(i.getType()); }
      bool ok = true;
      auto unsup = [&](const char *w) { d.op = DUnsupported; d.why = w; };
      switch (i.getOpcode()) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv:
        case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And:
        case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr:
        case Instruction::AShr: {
          static const std::map<unsigned, Op> m = {{Instruction::Add, XAdd}, {Instruction::Sub, XSub},
              {Instruction::Mul, XMul}, {Instruction::UDiv, XUDiv}, {Instruction::SDiv, XSDiv},
              {Instruction::URem, XURem}, {Instruction::SRem, XSRem}, {Instruction::And, XAnd},
              {Instruction::Or, XOr}, {Instruction::Xor, XXor}, {Instruction::Shl, XShl},
              {Instruction::LShr, XLShr}, {Instruction::AShr, XAShr}};
          d.op = DBin; d.xop = m.at(i.getOpcode()); d.w = widthOf(i.getType());
          ok = opd(i.getOperand(0), d.ops) && opd(i.getOperand(1), d.ops);
          if (d.w == 0 || d.w > 64) unsup("wide/vector arithmetic");
          break;
        }
        case Instruction::ICmp: {
          auto *c = cast<ICmpInst>(&i);
          d.op = DICmp; d.pred = c->getPredicate(); d.w = widthOf(c->getOperand(0)->getType());
          ok = opd(i.getOperand(0), d.ops) && opd(i.getOperand(1), d.ops);
          if (d.w == 0 || d.w > 64) unsup("wide compare");
          break;
        }
        case Instruction::Select:
          d.op = DSelect; d.w = widthOf(i.getType());
          d.w2 = i.getType()->isPointerTy();
          ok = opd(i.getOperand(0), d.ops) && opd(i.getOperand(1), d.ops) && opd(i.getOperand(2), d.ops);
          if (leaves(i.getType()) != 1) unsup("aggregate select");
          break;
        case Instruction::Load:
          d.op = DLoad; d.w = widthOf(i.getType()); d.imm = DL->getTypeStoreSize(i.getType());
          ok = opd(i.getOperand(0), d.ops);
          if (d.w == 0 || d.w > 64) unsup("aggregate load");
          break;
        case Instruction::Store: {
          Type *t = i.getOperand(0)->getType();
          d.op = DStore; d.w = widthOf(t); d.imm = DL->getTypeStoreSize(t);
          ok = opd(i.getOperand(0), d.ops) && opd(i.getOperand(1), d.ops);
          if (d.w == 0 || d.w > 64) unsup("aggregate store");
          break;
        }
        case Instruction::GetElementPtr: {
          d.op = DGep;
          auto *g = cast<GEPOperator>(&i);
          ok = opd(g->getPointerOperand(), d.ops);
          MapVector<Value *, APInt> vo;
          APInt co(64, 0);
          if (!g->collectOffset(*DL, 64, vo, co)) { ok = false; break; }
          d.imm = co.getZExtValue();
          for (auto &p : vo) {
            std::vector<Opd> t;
            ok = ok && opd(p.first, t);
            if (!ok) break;
            GepTerm gt; gt.idx = t[0]; gt.scale = p.second.getZExtValue(); gt.w = widthOf(p.first->getType());
            d.gep.push_back(gt);
          }
          break;
        }
        case Instruction::Alloca: {
          auto *a = cast<AllocaInst>(&i);
          d.op = DAlloca;
          d.imm = DL->getTypeAllocSize(a->getAllocatedType());
          ok = opd(a->getArraySize(), d.ops);
          break;
        }
        case Instruction::ZExt: d.op = DZExt; d.w = widthOf(i.getOperand(0)->getType()); d.w2 = widthOf(i.getType()); ok = opd(i.getOperand(0), d.ops); if (!d.w2 || d.w2 > 64) unsup("wide zext"); break;
        case Instruction::SExt: d.op = DSExt; d.w = widthOf(i.getOperand(0)->getType()); d.w2 = widthOf(i.getType()); ok = opd(i.getOperand(0), d.ops); if (!d.w2 || d.w2 > 64) unsup("wide sext"); break;
        case Instruction::Trunc: d.op = DTrunc; d.w = widthOf(i.getOperand(0)->getType()); d.w2 = widthOf(i.getType()); ok = opd(i.getOperand(0), d.ops); if (!d.w || d.w > 64) unsup("wide trunc"); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
          unsigned a = widthOf(i.getOperand(0)->getType()), b = widthOf(i.getType());
          ok = opd(i.getOperand(0), d.ops);
          d.w = a; d.w2 = b;
          d.op = a == b ? DMove : a < b ? DZExt : DTrunc;
          break;
        }
        case Instruction::Freeze: d.op = DMove; ok = opd(i.getOperand(0), d.ops); break;
        case Instruction::ExtractValue: {
          auto *e = cast<ExtractValueInst>(&i);
          std::vector<Opd> t;
          ok = opd(e->getAggregateOperand(), t);
          if (ok) {
            unsigned k = leafIndex(e->getAggregateOperand()->getType(), e->getIndices());
            d.op = DMove;
            for (int j = 0; j < d.ndst; j++) d.ops.push_back(t[k + j]);
          }
          break;
        }
        case Instruction::InsertValue: {
          auto *e = cast<InsertValueInst>(&i);
          std::vector<Opd> t, v;
          ok = opd(e->getAggregateOperand(), t) && opd(e->getInsertedValueOperand(), v);
          if (ok) {
            unsigned k = leafIndex(e->getAggregateOperand()->getType(), e->getIndices());
            for (size_t j = 0; j < v.size(); j++) t[k + j] = v[j];
            d.op = DMove; d.ops = t;
          }
          break;
        }
        case Instruction::Br: {
          auto *b = cast<BranchInst>(&i);
          std::vector<const BasicBlock *> ts;
          for (unsigned k = 0; k < b->getNumSuccessors(); k++) ts.push_back(b->getSuccessor(k));
          d.op = b->isConditional() ? DCondBr : DBr;
          if (b->isConditional()) ok = opd(b->getCondition(), d.ops);
          patches.push_back({df->code.size(), {&bb, ts}});
          break;
        }
        case Instruction::Switch: {
          auto *sw = cast<SwitchInst>(&i);
          d.op = DSwitch; d.w = widthOf(sw->getCondition()->getType());
          ok = opd(sw->getCondition(), d.ops);
          std::vector<const BasicBlock *> ts{sw->getDefaultDest()};
          for (auto &c : sw->cases()) { d.cases.push_back(c.getCaseValue()->getZExtValue()); ts.push_back(c.getCaseSuccessor()); }
          patches.push_back({df->code.size(), {&bb, ts}});
          break;
        }
        case Instruction::Ret:
          d.op = DRet;
          if (i.getNumOperands()) ok = opd(i.getOperand(0), d.ops);
          break;
        case Instruction::Unreachable: d.op = DUnreachable; break;
        case Instruction::Call: {
          auto *c = cast<CallInst>(&i);
          d.op = DCall;
          d.w = i.getType()->isVoidTy() ? 0 : widthOf(i.getType());
          if (c->isInlineAsm()) { unsup("inline asm"); break; }
          const Function *cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
          if (cf) {
            d.callee = getF(cf);
            d.intr = d.callee->intr;
            if (d.intr == IN_OVF) {
              StringRef n = cf->getName();
              d.pred = n.starts_with("llvm.sadd") ? 0 : n.starts_with("llvm.uadd") ? 1 : n.starts_with("llvm.ssub") ? 2 : n.starts_with("llvm.usub") ? 3 : n.starts_with("llvm.smul") ? 4 : 5;
              d.w = widthOf(c->getArgOperand(0)->getType());
            }
          } else {
            ok = opd(c->getCalledOperand(), d.ops);
            d.imm = 1;  // ops[0] is the callee address
          }
          for (unsigned k = 0; k < c->arg_size(); k++) {
            unsigned n0 = d.ops.size();
            if (c->getArgOperand(k)->getType()->isMetadataTy()) { d.ops.push_back(Opd()); d.argw.push_back(0); continue; }
            if (c->paramHasAttr(k, Attribute::ByVal)) { d.cases.push_back(k); d.w2 = 1; }
            ok = ok && opd(c->getArgOperand(k), d.ops);
            for (unsigned q = n0; q < d.ops.size(); q++) d.argw.push_back(widthOf(c->getArgOperand(k)->getType()));
          }
          break;
        }
        default: unsup(i.getOpcodeName()); break;
      }
      if (!ok) unsup("operand");
      df->code.push_back(std::move(d));
    }
  }
  for (auto &p : patches) {
    DInst &d = df->code[p.first];
    for (auto *t : p.second.second) {
      Edge e;
      e.target = bbStart[t];
      for (auto &phi : t->phis()) {
        std::vector<Opd> src;
        const Value *in = phi.getIncomingValueForBlock(p.second.first);
        if (!opd(in, src)) { fprintf(stderr, "phi operand\n"); exit(3); }
        for (size_t k = 0; k < src.size(); k++) e.moves.push_back({slot[&phi] + (int)k, src[k]});
      }
      d.edges.push_back(std::move(e));
    }
  }
  df->decoded = true;
  covered.resize(covNext, 0);
}

// ---------------------------------------------------------------- execution
static State *cs;                 // current state
static bool alive;                // current state still running
static inline Val rd(const Opd &o) {
  if (o.slot < 0) { Val v; v.c = o.c; return v; }
  return cs->th[cs->cur].st.back().regs[o.slot];
}
static inline void wr(int slot, Val v) { cs->th[cs->cur].st.back().regs[slot] = v; }

static SP forkState() {
  S.forks++;
  SP n(new State(*cs));
  n->depth++;
  return n;
}
static void killCur() { alive = false; }
static void errorHere(const std::string &kind, const std::string &msg) {
  report(*cs, kind, msg, cs->model);
  S.errPaths++;
  killCur();
}

// Make operand o concrete in the current state, forking over every feasible value. Returns false if
// the current state was replaced by forks (the instruction will be re-executed in each).
static bool concretize(const Opd &o, unsigned w) {
  Val v = rd(o);
  if (!v.e) return true;
  const Expr *e = v.e;
  (void)w;
  unsigned cnt = 0;
  std::vector<uint64_t> vals;
  // enumerate feasible values
  SP base(new State(*cs));
  std::vector<SP> outs;
  const Expr *rest = mkConst(1, 1);
  std::vector<uint8_t> model = cs->model;
  while (true) {
    uint64_t x = evalExpr(e, model);
    SP n(new State(*cs));
    n->model = model;
    addCons(*n, mkBin(XEq, e, mkConst(x, e->w)));
    Val cv; cv.c = x;
    n->th[n->cur].st.back().regs[o.slot] = cv;
    n->depth++;
    outs.push_back(std::move(n));
    cnt++;
    rest = mkBin(XAnd, rest, mkNot(mkBin(XEq, e, mkConst(x, e->w))));
    // keep the query sliced on e: assert the conjunction of disequalities
    int r = query(*cs, rest, &model);
    if (r == 0) break;
    if (r < 0) { S.incompletePaths++; break; }
    if (cnt >= concLimit) {
      S.concTrunc++;
      unsupportedMsgs.insert("concretisation truncated at " + stackOf(*cs)[0] + " < " + (cs->th[cs->cur].st.size() > 1 ? stackOf(*cs)[1] : std::string("")));
      break;
    }
  }
  if (cnt == 1) {
    // single value: continue in place
    addCons(*cs, outs[0]->cons.empty() ? mkConst(1, 1) : mkConst(1, 1));
    Val cv; cv.c = evalExpr(e, outs[0]->model);
    cs->th[cs->cur].st.back().regs[o.slot] = cv;
    return true;
  }
  S.forks += cnt - 1;
  for (auto &n : outs) work.push_back(std::move(n));
  killCur();
  return false;
}

// Decide a boolean. Returns 1/0 for the continuing state after possibly forking the other side
// (the forked state gets register/pc set up by the caller through the returned pointer).
// mode: on fork, *other receives a state in which cond is false.
static int decide(const Expr *cond, SP *other) {
  uint64_t cur = evalExpr(cond, cs->model);
  const Expr *oth = cur ? mkNot(cond) : cond;
  std::vector<uint8_t> m2;
  int r = query(*cs, oth, &m2);
  if (r == 0) return (int)cur;
  SP n = forkState();
  if (r == 1) n->model = m2;
  else S.incompletePaths++;
  if (r == -1) {
    // unknown: drop that side, remembering that the exploration is incomplete
    return (int)cur;
  }
  addCons(*n, oth);
  addCons(*cs, cur ? cond : mkNot(cond));
  *other = std::move(n);
  return (int)cur;
}

static const std::string objName(const Object *o) { return o->name; }

// Resolve an address for an access of n bytes. Returns false if the path ended / was replaced.
static bool resolve(const Opd &po, uint64_t n, bool write, uint32_t &id, uint64_t &off, const char *what);

static void raceAccess(uint64_t addr, uint64_t n, bool write);

static Val loadBytes(uint32_t id, uint64_t off, unsigned nb, unsigned w) {
  const Object *o = roObj(*cs, id);
  Val v;
  bool anysym = false;
  if (!o->uninit.empty()) {
    bool un = false;
    for (unsigned i = 0; i < nb; i++) if (o->uninit[off + i]) un = true;
    if (un) {
      Object *rw = rwObj(*cs, id);
      if (rw->sym.empty()) rw->sym.assign(rw->size, nullptr);
      for (unsigned i = 0; i < nb; i++)
        if (rw->uninit[off + i]) { rw->sym[off + i] = freshByte(*cs); rw->uninit[off + i] = 0; }
      o = rw;
    }
  }
  if (!o->sym.empty()) {
    for (unsigned i = 0; i < nb; i++) {
      const Expr *e = o->sym[off + i];
      if (!e) continue;
      if (e->op == XVar && e->c < cs->known.size() && cs->known[e->c] >= 0) continue;
      anysym = true;
    }
  }
  auto cb = [&](unsigned i) -> uint64_t {
    if (!o->sym.empty() && o->sym[off + i]) return (uint64_t)cs->known[o->sym[off + i]->c];
    return o->data[off + i];
  };
  if (!anysym) {
    uint64_t r = 0;
    for (unsigned i = 0; i < nb; i++) r |= cb(i) << (8 * i);
    v.c = r & maskw(w);
    return v;
  }
  const Expr *acc = nullptr;
  for (unsigned i = 0; i < nb; i++) {
    const Expr *e = o->sym[off + i];
    if (e && e->op == XVar && e->c < cs->known.size() && cs->known[e->c] >= 0) e = mkConst(cs->known[e->c], 8);
    if (!e) e = mkConst(o->data[off + i], 8);
    acc = acc ? mkConcat(e, acc) : e;
  }
  if (acc->w > w) acc = mkExtract(acc, 0, w);
  return fromE(acc);
}
static void storeBytes(uint32_t id, uint64_t off, unsigned nb, Val v, unsigned w) {
  Object *o = rwObj(*cs, id);
  if (!o->uninit.empty()) for (unsigned i = 0; i < nb; i++) o->uninit[off + i] = 0;
  if (!v.e) {
    for (unsigned i = 0; i < nb; i++) o->data[off + i] = (uint8_t)(i < 8 ? v.c >> (8 * i) : 0);
    if (!o->sym.empty()) for (unsigned i = 0; i < nb; i++) o->sym[off + i] = nullptr;
    return;
  }
  if (o->sym.empty()) o->sym.assign(o->size, nullptr);
  const Expr *e = v.e;
  if (e->w < nb * 8) e = mkZExt(e, nb * 8);
  (void)w;
  for (unsigned i = 0; i < nb; i++) {
    const Expr *b = mkExtract(e, 8 * i, 8);
    if (isC(b)) { o->data[off + i] = (uint8_t)b->c; o->sym[off + i] = nullptr; }
    else o->sym[off + i] = b;
  }
}

static bool resolve(const Opd &po, uint64_t n, bool write, uint32_t &id, uint64_t &off, const char *what) {
  Val p = rd(po);
  uint64_t a = p.e ? evalExpr(p.e, cs->model) : p.c;
  if (p.e) {
    S.memChecksSym++;
    uint32_t oid = a >> 32;
    const Object *o = roObj(*cs, oid);
    if (!o) { errorHere("memory", std::string(what) + ": invalid pointer"); return false; }
    // in-bounds condition
    const Expr *offE = mkBin(XSub, p.e, mkConst((uint64_t)oid << 32, 64));
    uint64_t lim = o->size >= n ? o->size - n : 0;
    const Expr *inb = o->size >= n ? mkBin(XUle, offE, mkConst(lim, 64)) : mkConst(0, 1);
    std::vector<uint8_t> m2;
    int r = query(*cs, mkNot(inb), &m2);
    if (r == 1) {
      report(*cs, "memory", std::string(what) + " out of bounds (" + std::to_string(n) + " bytes at a symbolic offset of " + objName(o) + ")", m2);
      std::vector<uint8_t> m3;
      if (query(*cs, inb, &m3) != 1) { S.errPaths++; killCur(); return false; }
      cs->model = m3;
      addCons(*cs, inb);
    } else if (r < 0) S.incompletePaths++;
    if (!concretize(po, 64)) return false;
    p = rd(po);
    a = p.c;
  }
  id = a >> 32;
  off = a & 0xffffffffull;
  const Object *o = roObj(*cs, id);
  if (!o) {
    std::string w = std::string(what);
    if (a < 4096) w += ": NULL pointer dereference";
    else if (id / 64 < cs->mem.size() && cs->mem[id / 64] && cs->mem[id / 64]->dead[id % 64]) w += ": use after free / scope";
    else if (id >= FN_BASE) w += ": access to code";
    else w += ": wild pointer";
    errorHere("memory", w);
    return false;
  }
  if (off + n > o->size) {
    // (no offsets in the message: it has to be stable across contexts)
    errorHere("memory", std::string(what) + " out of bounds of " + objName(o));
    return false;
  }
  if (write && o->ro) { errorHere("memory", "write to constant " + objName(o)); return false; }
  if (raceDetect && cs->th.size() > 1 && o->shared) raceAccess(a, n, write);
  return true;
}

static std::map<DFunc *, uint16_t> whereIdx;
static std::vector<DFunc *> whereFn;
static void raceAccess(uint64_t addr, uint64_t n, bool write) {
  uint32_t t = cs->cur;
  auto &vc = cs->th[t].vc;
  DFunc *f = cs->th[t].st.back().f;
  auto wi = whereIdx.find(f);
  if (wi == whereIdx.end()) { wi = whereIdx.emplace(f, (uint16_t)whereFn.size()).first; whereFn.push_back(f); }
  AccessRec me;
  me.clk = t < vc.size() ? vc[t] + 1 : 1;
  me.tid = (uint16_t)t;
  me.where = wi->second;
  uint32_t id = addr >> 32;
  uint64_t off = addr & 0xffffffffull;
  auto &p = cs->shadow[id];
  if (!p) p = std::make_shared<Shadow>();
  else if (p.use_count() > 1) p = std::make_shared<Shadow>(*p);
  Shadow &sh = *p;
  uint32_t size = roObj(*cs, id)->size;
  if (sh.w.empty()) sh.w.resize(size);
  if (sh.r.size() <= t) sh.r.resize(t + 1);
  if (sh.r[t].empty()) sh.r[t].resize(size);
  auto bad = [&](const AccessRec &x) { return x.clk && x.tid != t && !(x.tid < vc.size() && vc[x.tid] + 1 >= x.clk); };
  auto rep = [&](const AccessRec &x) { report(*cs, "race", "data race with " + whereFn[x.where]->F->getName().str(), cs->model); };
  for (uint64_t g = off; g < off + n && g < size; g++) {
    if (bad(sh.w[g])) { rep(sh.w[g]); return; }
    if (write) {
      for (auto &r : sh.r) if (!r.empty() && bad(r[g])) { rep(r[g]); return; }
      sh.w[g] = me;
    } else sh.r[t][g] = me;
  }
}

static std::string readStr(uint64_t a) {
  std::string r;
  const Object *o = roObj(*cs, a >> 32);
  if (!o) return "?";
  for (uint64_t i = a & 0xffffffff; i < o->size; i++) {
    if (!o->sym.empty() && o->sym[i]) { r += '?'; continue; }
    if (!o->data[i]) break;
    r += (char)o->data[i];
  }
  return r;
}

static void pushFrame(Thread &t, DFunc *f, const std::vector<Val> &args, const DInst *cs_) {
  if (!f->decoded) decode(f);
  f->executed = true;
  Frame fr;
  fr.f = f;
  fr.regs.resize(f->nslots);
  for (size_t i = 0; i < args.size() && i < (size_t)f->nslots; i++) fr.regs[i] = args[i];
  fr.callsite = cs_;
  t.st.push_back(std::move(fr));
}

// ---- threads
static bool runnable(State &s, int t) {
  Thread &th = s.th[t];
  switch (th.status) {
    case T_RUN: return true;
    case T_LOCK: { auto it = s.mutex.find(th.waitOn); return it == s.mutex.end() || it->second < 0; }
    case T_JOIN: return s.th[th.waitOn].status == T_DONE;
    case T_COND: { auto it = s.mutex.find(th.waitM); return (th.timed || s.spurious < spuriousBound) && (it == s.mutex.end() || it->second < 0); }
    default: return false;
  }
}
// Choose who runs next. `mayStay`: current thread could continue. Returns false if current state ended.
static void recordSched(State &s, int t) {
  InputRec r;
  r.name = "sched";
  r.n = 1;
  r.conc.push_back((uint8_t)t);
  s.inputs.push_back(r);
}
static bool schedule() {
  std::vector<int> c;
  cs->th[cs->cur].parked = cs->th[cs->cur].status != T_DONE;
  bool curOk = runnable(*cs, cs->cur);
  for (int t = 0; t < (int)cs->th.size(); t++) if (runnable(*cs, t)) c.push_back(t);
  if (c.empty())  // threads that wait for all others to be idle
    for (int t = 0; t < (int)cs->th.size(); t++) if (cs->th[t].status == T_IDLE) { c.push_back(t); break; }
  if (c.empty()) { errorHere("deadlock", "no runnable thread"); return false; }
  if (curOk && cs->preempts >= preemptBound) { c.clear(); c.push_back(cs->cur); }
  int keep = curOk ? cs->cur : c[0];
  for (int t : c) {
    if (t == keep) continue;
    SP n = forkState();
    S.schedForks++;
    n->cur = t;
    if (curOk) n->preempts++;
    n->scheduled = n->th[t].parked;
    recordSched(*n, t);
    work.push_back(std::move(n));
  }
  cs->cur = keep;
  cs->scheduled = cs->th[keep].parked;
  recordSched(*cs, keep);
  return true;
}
static void vcJoin(std::vector<uint32_t> &a, const std::vector<uint32_t> &b) {
  if (a.size() < b.size()) a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]);
}
static void vcTick(int t) {
  auto &v = cs->th[t].vc;
  if ((int)v.size() <= t) v.resize(t + 1, 0);
  v[t]++;
}

static bool copyMem(const DInst &d, bool move) {
  if (!concretize(d.ops[2], 64)) return false;
  uint64_t n = rd(d.ops[2]).c;
  if (n == 0) { return true; }
  uint32_t di, si;
  uint64_t doff, soff;
  if (!resolve(d.ops[1], n, false, si, soff, "memcpy source read")) return false;
  if (!resolve(d.ops[0], n, true, di, doff, "memcpy destination write")) return false;
  if (!move && di == si && doff != soff && doff < soff + n && soff < doff + n) {
    errorHere("memory", "memcpy on overlapping regions");
    return false;
  }
  Object *o = rwObj(*cs, di);
  const Object *s2 = roObj(*cs, si);
  std::vector<uint8_t> tmp(s2->data.begin() + soff, s2->data.begin() + soff + n);
  if (!s2->sym.empty() || !o->sym.empty()) {
    if (o->sym.empty()) o->sym.assign(o->size, nullptr);
    std::vector<const Expr *> ts(n, nullptr);
    if (!s2->sym.empty()) for (uint64_t i = 0; i < n; i++) ts[i] = s2->sym[soff + i];
    for (uint64_t i = 0; i < n; i++) o->sym[doff + i] = ts[i];
  }
  if (!s2->uninit.empty() || !o->uninit.empty()) {
    if (o->uninit.empty()) o->uninit.assign(o->size, 0);
    std::vector<uint8_t> tu(n, 0);
    if (!s2->uninit.empty()) for (uint64_t i = 0; i < n; i++) tu[i] = s2->uninit[soff + i];
    for (uint64_t i = 0; i < n; i++) o->uninit[doff + i] = tu[i];
  }
  std::copy(tmp.begin(), tmp.end(), o->data.begin() + doff);
  return true;
}

static void advance() { cs->th[cs->cur].st.back().pc++; }

// Is the current function the allocator of the code under test?
static bool fromRepo() {
  StringRef n = cs->th[cs->cur].st.back().f->F->getName();
  return n == "vf_malloc" || n == "vf_calloc" || n == "vf_realloc" || n == "vf_strdup";
}
static bool doIntr(const DInst &d, int intr) {
  // returns true if the instruction completed (pc advanced here)
  auto retv = [&](Val v) { if (d.dst >= 0) wr(d.dst, v); advance(); };
  auto retc = [&](uint64_t c) { Val v; v.c = c; retv(v); };
  switch (intr) {
    case IN_NOP: advance(); return true;
    case IN_ZERO: retc(0); return true;
    case IN_ENGINE: retc(1); return true;
    case IN_SELF: retc(cs->cur); return true;
    case IN_TRACE: {
      std::string t = readStr(rd(d.ops[0]).c);
      if (d.ops.size() > 1) { Val v = rd(d.ops[1]); t += v.e ? " sym" : " " + std::to_string((int64_t)v.c); }
      cs->trace.push_back(t);
      advance();
      return true;
    }
    case IN_SYM: {
      if (!concretize(d.ops[1], 64)) return false;
      uint64_t n = rd(d.ops[1]).c;
      std::string nm = readStr(rd(d.ops[2]).c);
      uint32_t id; uint64_t off;
      InputRec r;
      r.name = nm; r.n = n;
      auto fx = fixes.find(nm);
      if (n) {
        if (!resolve(d.ops[0], n, true, id, off, "vf_sym")) return false;
        Object *o = rwObj(*cs, id);
        if (!o->uninit.empty()) for (uint64_t i = 0; i < n; i++) o->uninit[off + i] = 0;
        if (fx != fixes.end() && n == 1) {
          size_t k = 0;
          for (auto &ir : cs->inputs) if (ir.name == nm) k++;
          if (k < fx->second.size()) {
            o->data[off] = (uint8_t)fx->second[k];
            if (!o->sym.empty()) o->sym[off] = nullptr;
            r.conc.push_back((uint8_t)fx->second[k]);
            cs->inputs.push_back(r);
            advance();
            return true;
          }
        }
        if (o->sym.empty()) o->sym.assign(o->size, nullptr);
        r.var0 = cs->nvars;
        for (uint64_t i = 0; i < n; i++) o->sym[off + i] = freshByte(*cs);
      }
      cs->inputs.push_back(r);
      advance();
      return true;
    }
    case IN_ASSUME: {
      Val v = rd(d.ops[0]);
      if (!v.e) {
        if (!v.c) { S.killedAssume++; killCur(); return false; }
        advance();
        return true;
      }
      const Expr *c = mkNot(mkBin(XEq, v.e, mkConst(0, v.e->w)));
      if (!evalExpr(c, cs->model)) {
        std::vector<uint8_t> m;
        int r = query(*cs, c, &m);
        if (r != 1) { if (r < 0) S.incompletePaths++; S.killedAssume++; killCur(); return false; }
        cs->model = m;
      }
      addCons(*cs, c);
      advance();
      return true;
    }
    case IN_ASSERT: {
      Val v = rd(d.ops[0]);
      S.asserts++;
      std::string msg = readStr(rd(d.ops[1]).c);
      assertSeen[msg]++;
      if (!v.e) {
        if (!v.c) { errorHere("assertion", msg); return false; }
        advance();
        return true;
      }
      S.assertsSym++;
      const Expr *c = mkNot(mkBin(XEq, v.e, mkConst(0, v.e->w)));
      std::vector<uint8_t> m;
      int r = query(*cs, mkNot(c), &m);
      if (r == 1) {
        report(*cs, "assertion", msg, m);
        if (query(*cs, c, &m) != 1) { S.errPaths++; killCur(); return false; }
        cs->model = m;
      } else if (r < 0) S.incompletePaths++;
      addCons(*cs, c);
      advance();
      return true;
    }
    case IN_MAYBE: {  // can the argument be true here? (no constraint added)
      Val v = rd(d.ops[0]);
      uint64_t r = v.e ? (query(*cs, mkNot(mkBin(XEq, v.e, mkConst(0, v.e->w))), nullptr) != 0) : v.c != 0;
      retc(r);
      return true;
    }
    case IN_ISSYM: retc(rd(d.ops[0]).e != nullptr); return true;
    case IN_CONC:
      if (!concretize(d.ops[0], 64)) return false;
      retv(rd(d.ops[0]));
      return true;
    case IN_REACH: reach[readStr(rd(d.ops[0]).c)]++; advance(); return true;
    case IN_OBJSIZE: {
      Val v = rd(d.ops[0]);
      if (v.e) { if (!concretize(d.ops[0], 64)) return false; v = rd(d.ops[0]); }
      const Object *o = roObj(*cs, v.c >> 32);
      uint64_t off = v.c & 0xffffffff;
      retc(o && off <= o->size ? o->size - off : 0);
      return true;
    }
    case IN_MALLOC: case IN_CALLOC: {
      if (!concretize(d.ops[0], 64)) return false;
      uint64_t n = rd(d.ops[0]).c;
      if (intr == IN_CALLOC) { if (!concretize(d.ops[1], 64)) return false; n *= rd(d.ops[1]).c; }
      if (n > (1ull << 31)) { retc(0); return true; }
      std::string fn, lo;
      repoFrame(*cs, fn, lo);
      uint64_t a = newObj(*cs, n, ("heap block from " + fn).c_str(), intr == IN_CALLOC);
      rwObj(*cs, a >> 32)->heap = true;
      rwObj(*cs, a >> 32)->shared = fromRepo();
      retc(a);
      return true;
    }
    case IN_REALLOC: {
      if (!concretize(d.ops[1], 64)) return false;
      Val p = rd(d.ops[0]);
      uint64_t n = rd(d.ops[1]).c;
      std::string fn, lo;
      repoFrame(*cs, fn, lo);
      if (p.c == 0) {
        uint64_t a = newObj(*cs, n, ("heap block from " + fn).c_str(), false);
        rwObj(*cs, a >> 32)->heap = true;
        rwObj(*cs, a >> 32)->shared = fromRepo();
        retc(a);
        return true;
      }
      const Object *o = roObj(*cs, p.c >> 32);
      if (!o || !o->heap || (p.c & 0xffffffff)) { errorHere("memory", "realloc of a pointer that is not a live heap block"); return false; }
      uint64_t a = newObj(*cs, n, ("heap block from " + fn).c_str(), false);
      Object *no = rwObj(*cs, a >> 32);
      no->heap = true;
      no->shared = fromRepo();
      o = roObj(*cs, p.c >> 32);
      uint64_t m = std::min<uint64_t>(n, o->size);
      for (uint64_t i = 0; i < m; i++) {
        no->data[i] = o->data[i];
        no->uninit[i] = o->uninit.empty() ? 0 : o->uninit[i];
        if (!o->sym.empty() && o->sym[i]) { if (no->sym.empty()) no->sym.assign(n, nullptr); no->sym[i] = o->sym[i]; }
      }
      killObj(*cs, p.c >> 32);
      retc(a);
      return true;
    }
    case IN_FREE: {
      Val p = rd(d.ops[0]);
      if (p.e) { if (!concretize(d.ops[0], 64)) return false; p = rd(d.ops[0]); }
      if (p.c == 0) { advance(); return true; }
      const Object *o = roObj(*cs, p.c >> 32);
      if (!o || !o->heap || (p.c & 0xffffffff)) {
        errorHere("memory", o ? "free of a pointer that is not the start of a heap block" : "double free / free of an invalid pointer");
        return false;
      }
      if (raceDetect && cs->th.size() > 1 && o->shared) raceAccess(p.c, o->size, true);
      killObj(*cs, p.c >> 32);
      advance();
      return true;
    }
    case IN_MEMCPY: case IN_MEMMOVE: {
      if (!copyMem(d, intr == IN_MEMMOVE)) return false;
      retv(rd(d.ops[0]));
      return true;
    }
    case IN_MEMSET: {
      if (!concretize(d.ops[2], 64)) return false;
      uint64_t n = rd(d.ops[2]).c;
      if (n) {
        uint32_t id; uint64_t off;
        if (!resolve(d.ops[0], n, true, id, off, "memset destination write")) return false;
        Val v = rd(d.ops[1]);
        Val b;
        if (v.e) { b = fromE(mkExtract(v.e, 0, 8)); } else b.c = v.c & 0xff;
        if (!b.e) {
          Object *o = rwObj(*cs, id);
          memset(o->data.data() + off, (int)b.c, n);
          if (!o->sym.empty()) std::fill(o->sym.begin() + off, o->sym.begin() + off + n, nullptr);
          if (!o->uninit.empty()) std::fill(o->uninit.begin() + off, o->uninit.begin() + off + n, 0);
        } else for (uint64_t i = 0; i < n; i++) storeBytes(id, off + i, 1, b, 8);
      }
      retv(rd(d.ops[0]));
      return true;
    }
    case IN_MEMCMP: {
      if (!concretize(d.ops[2], 64)) return false;
      uint64_t n = rd(d.ops[2]).c;
      if (n == 0) { retc(0); return true; }
      uint32_t ai, bi; uint64_t ao, bo;
      if (!resolve(d.ops[0], n, false, ai, ao, "memcmp read")) return false;
      if (!resolve(d.ops[1], n, false, bi, bo, "memcmp read")) return false;
      const Expr *acc = mkConst(0, 32);
      for (uint64_t i = n; i-- > 0;) {
        Val x = loadBytes(ai, ao + i, 1, 8), y = loadBytes(bi, bo + i, 1, 8);
        const Expr *xe = toE(x, 8), *ye = toE(y, 8);
        acc = mkIte(mkBin(XEq, xe, ye), acc, mkBin(XSub, mkZExt(xe, 32), mkZExt(ye, 32)));
      }
      retv(fromE(acc));
      return true;
    }
    case IN_ASSERTFAIL: errorHere("abort", "assert(" + readStr(rd(d.ops[0]).c) + ") fails"); return false;
    case IN_ABORT: errorHere("abort", "abort() called"); return false;
    case IN_UBSAN: errorHere("ub", "undefined behaviour check failed"); return false;
    case IN_DIE: case IN_EXIT: S.paths++; killCur(); return false;
    case IN_EXPECT: retv(rd(d.ops[0])); return true;
    case IN_OBJECTSIZE: retc(~0ull); return true;
    case IN_UMIN: case IN_UMAX: case IN_SMIN: case IN_SMAX: {
      Val a = rd(d.ops[0]), b = rd(d.ops[1]);
      const Expr *x = toE(a, d.w), *y = toE(b, d.w);
      bool sg = intr == IN_SMIN || intr == IN_SMAX, mx = intr == IN_UMAX || intr == IN_SMAX;
      const Expr *lt = mkBin(sg ? XSlt : XUlt, x, y);
      retv(fromE(mx ? mkIte(lt, y, x) : mkIte(lt, x, y)));
      return true;
    }
    case IN_USUBSAT: {
      const Expr *x = toE(rd(d.ops[0]), d.w), *y = toE(rd(d.ops[1]), d.w);
      retv(fromE(mkIte(mkBin(XUlt, x, y), mkConst(0, d.w), mkBin(XSub, x, y))));
      return true;
    }
    case IN_ABS: {
      const Expr *x = toE(rd(d.ops[0]), d.w);
      retv(fromE(mkIte(mkBin(XSlt, x, mkConst(0, d.w)), mkBin(XSub, mkConst(0, d.w), x), x)));
      return true;
    }
    case IN_BSWAP: {
      const Expr *x = toE(rd(d.ops[0]), d.w), *acc = nullptr;
      for (unsigned i = 0; i < d.w / 8; i++) {
        const Expr *b = mkExtract(x, d.w - 8 - 8 * i, 8);
        acc = acc ? mkConcat(b, acc) : b;
      }
      retv(fromE(acc));
      return true;
    }
    case IN_FSHL: case IN_FSHR: {
      if (!concretize(d.ops[2], d.w)) return false;
      unsigned k = rd(d.ops[2]).c % d.w;
      const Expr *x = toE(rd(d.ops[0]), d.w), *y = toE(rd(d.ops[1]), d.w);
      if (intr == IN_FSHR) k = (d.w - k) % d.w;
      if (k == 0) { retv(fromE(intr == IN_FSHL ? x : y)); return true; }
      retv(fromE(mkBin(XOr, mkBin(XShl, x, mkConst(k, d.w)), mkBin(XLShr, y, mkConst(d.w - k, d.w)))));
      return true;
    }
    case IN_CTPOP: case IN_CTLZ: case IN_CTTZ: {
      if (!concretize(d.ops[0], d.w)) return false;
      uint64_t x = rd(d.ops[0]).c;
      unsigned r = intr == IN_CTPOP ? __builtin_popcountll(x)
          : intr == IN_CTLZ ? (x ? __builtin_clzll(x) - (64 - d.w) : d.w) : (x ? __builtin_ctzll(x) : d.w);
      retc(r);
      return true;
    }
    case IN_OVF: {
      unsigned w = d.w;
      const Expr *a = toE(rd(d.ops[0]), w), *b = toE(rd(d.ops[1]), w);
      bool sg = d.pred % 2 == 0;
      Op op = d.pred <= 1 ? XAdd : d.pred <= 3 ? XSub : XMul;
      const Expr *res = mkBin(op, a, b), *ovf;
      if (w <= 32) {
        const Expr *wa = sg ? mkSExt(a, 64) : mkZExt(a, 64), *wb = sg ? mkSExt(b, 64) : mkZExt(b, 64);
        const Expr *wr_ = mkBin(op, wa, wb);
        ovf = mkNot(mkBin(XEq, wr_, sg ? mkSExt(res, 64) : mkZExt(res, 64)));
      } else if (op == XAdd) {
        if (sg) {
          const Expr *z = mkConst(0, w);
          const Expr *sa = mkBin(XSlt, a, z), *sb = mkBin(XSlt, b, z), *sr = mkBin(XSlt, res, z);
          ovf = mkBin(XAnd, mkBin(XEq, sa, sb), mkNot(mkBin(XEq, sa, sr)));
        } else ovf = mkBin(XUlt, res, a);
      } else if (op == XSub) {
        if (sg) {
          const Expr *z = mkConst(0, w);
          const Expr *sa = mkBin(XSlt, a, z), *sb = mkBin(XSlt, b, z), *sr = mkBin(XSlt, res, z);
          ovf = mkBin(XAnd, mkNot(mkBin(XEq, sa, sb)), mkNot(mkBin(XEq, sa, sr)));
        } else ovf = mkBin(XUlt, a, b);
      } else if (isC(a) && isC(b)) {
        __int128 p = sg ? (__int128)(int64_t)a->c * (int64_t)b->c : 0;
        unsigned __int128 up = (unsigned __int128)a->c * b->c;
        ovf = mkConst(sg ? p != (int64_t)p : (up >> 64) != 0, 1);
      } else {
        unsupportedMsgs.insert("symbolic 64-bit multiplication overflow check");
        S.incompletePaths++;
        ovf = mkConst(0, 1);
      }
      wr(d.dst, fromE(res));
      wr(d.dst + 1, fromE(ovf));
      advance();
      return true;
    }
    // ---- threads
    case IN_THCREATE: {
      uint64_t fa = rd(d.ops[0]).c;
      DFunc *f = (fa >> 32) >= FN_BASE && (fa >> 32) - FN_BASE < fnByIdx.size() ? fnByIdx[(fa >> 32) - FN_BASE] : nullptr;
      if (!f || f->F->isDeclaration()) { errorHere("memory", "thread start routine"); return false; }
      int nt = cs->th.size();
      vcTick(cs->cur);
      Thread t;
      t.vc = cs->th[cs->cur].vc;
      Val a = rd(d.ops[1]);
      cs->th.push_back(std::move(t));
      pushFrame(cs->th[nt], f, {a}, nullptr);
      vcTick(nt);
      retc(nt);
      return true;
    }
    case IN_YIELD:
      if (!cs->scheduled && cs->th.size() > 1) { if (!schedule()) return false; return false; }
      cs->scheduled = cs->th[cs->cur].parked = false;
      advance();
      return true;
    case IN_IDLE: {
      Thread &T = cs->th[cs->cur];
      if (cs->scheduled && T.status == T_IDLE) { cs->scheduled = T.parked = false; T.status = T_RUN; advance(); return true; }
      T.status = T_IDLE;
      schedule();
      return false;
    }
    case IN_LOCK: case IN_CWAIT: case IN_CTWAIT: case IN_THJOIN: case IN_UNLOCK: case IN_CSIGNAL: {
      if ((intr == IN_LOCK || intr == IN_THJOIN) && !cs->scheduled) {
        int alive_ = 0;
        for (auto &t : cs->th) if (t.status != T_DONE) alive_++;
        if (alive_ > 1) { schedule(); return false; }
      }
      Thread &T = cs->th[cs->cur];
      cs->scheduled = T.parked = false;
      if (intr == IN_THJOIN) {
        uint64_t t = rd(d.ops[0]).c;
        if (t >= cs->th.size()) { errorHere("memory", "join of an invalid thread"); return false; }
        if (cs->th[t].status != T_DONE) {
          T.status = T_JOIN; T.waitOn = t;
          schedule();
          return false;
        }
        T.status = T_RUN;
        vcJoin(T.vc, cs->th[t].vc);
        retc(cs->th[t].retval);
        return true;
      }
      uint64_t m = rd(d.ops[intr == IN_CWAIT || intr == IN_CTWAIT ? 1 : 0]).c;
      if (intr == IN_LOCK) {
        auto it = cs->mutex.find(m);
        if (it != cs->mutex.end() && it->second >= 0) {
          if (it->second == cs->cur) { errorHere("deadlock", "thread locks a mutex it already holds"); return false; }
          T.status = T_LOCK; T.waitOn = m;
          schedule();
          return false;
        }
        T.status = T_RUN;
        cs->mutex[m] = cs->cur;
        vcJoin(T.vc, cs->mutexVC[m]);
        advance();
        return true;
      }
      if (intr == IN_UNLOCK) {
        auto it = cs->mutex.find(m);
        if (it == cs->mutex.end() || it->second != cs->cur) { errorHere("deadlock", "unlock of a mutex not held"); return false; }
        it->second = -1;
        cs->mutexVC[m] = T.vc;
        vcTick(cs->cur);
        advance();
        return true;
      }
      if (intr == IN_CSIGNAL) {
        uint64_t c = m;
        std::vector<int> w;
        for (int t = 0; t < (int)cs->th.size(); t++)
          if (cs->th[t].status == T_COND && cs->th[t].waitOn == c) w.push_back(t);
        advance();
        if (w.empty()) return true;
        auto wake = [&](State &s, int t) {
          s.th[t].status = T_LOCK;
          s.th[t].relock = true;
          // waitOn becomes the mutex recorded in the waiting instruction's second operand
          Frame &f = s.th[t].st.back();
          const DInst &wd = f.f->code[f.pc];
          const Opd &mo = wd.ops[1];
          s.th[t].waitOn = mo.slot < 0 ? mo.c : f.regs[mo.slot].c;
        };
        for (size_t i = 1; i < w.size(); i++) {
          SP n = forkState();
          wake(*n, w[i]);
          InputRec r; r.name = "wake"; r.n = 1; r.conc.push_back(w[i]);
          n->inputs.push_back(r);
          work.push_back(std::move(n));
        }
        wake(*cs, w[0]);
        InputRec r; r.name = "wake"; r.n = 1; r.conc.push_back(w[0]);
        cs->inputs.push_back(r);
        return true;
      }
      // cond wait
      bool timeout = !T.relock && T.status == T_COND;  // a timed wait that was scheduled without a signal
      if (timeout || T.relock) {
        auto it = cs->mutex.find(m);
        if (it != cs->mutex.end() && it->second >= 0) { if (!timeout) { T.status = T_LOCK; T.waitOn = m; } schedule(); return false; }
        if (timeout && !T.timed) cs->spurious++;
        T.relock = false;
        T.timed = false;
        T.status = T_RUN;
        cs->mutex[m] = cs->cur;
        vcJoin(T.vc, cs->mutexVC[m]);
        if (intr == IN_CTWAIT) { retc(timeout ? 0 : 1); return true; }
        advance();
        return true;
      }
      {
        auto it = cs->mutex.find(m);
        if (it == cs->mutex.end() || it->second != cs->cur) { errorHere("deadlock", "condition wait without holding the mutex"); return false; }
        it->second = -1;
        cs->mutexVC[m] = T.vc;
        vcTick(cs->cur);
        T.status = T_COND;
        T.timed = intr == IN_CTWAIT;
        T.waitM = m;
        T.waitOn = rd(d.ops[0]).c;
        schedule();
        return false;
      }
    }
    default: break;
  }
  std::string nm = d.callee ? d.callee->F->getName().str() : "?";
  unsupportedMsgs.insert("intrinsic " + nm);
  S.unsupported++;
  killCur();
  return false;
}

static const Expr *icmpE(unsigned pred, const Expr *a, const Expr *b) {
  switch (pred) {
    case CmpInst::ICMP_EQ: return mkBin(XEq, a, b);
    case CmpInst::ICMP_NE: return mkNot(mkBin(XEq, a, b));
    case CmpInst::ICMP_ULT: return mkBin(XUlt, a, b);
    case CmpInst::ICMP_ULE: return mkBin(XUle, a, b);
    case CmpInst::ICMP_UGT: return mkBin(XUlt, b, a);
    case CmpInst::ICMP_UGE: return mkBin(XUle, b, a);
    case CmpInst::ICMP_SLT: return mkBin(XSlt, a, b);
    case CmpInst::ICMP_SLE: return mkBin(XSle, a, b);
    case CmpInst::ICMP_SGT: return mkBin(XSlt, b, a);
    case CmpInst::ICMP_SGE: return mkBin(XSle, b, a);
  }
  abort();
}
static bool icmpC(unsigned pred, uint64_t a, uint64_t b, unsigned w) {
  a &= maskw(w); b &= maskw(w);
  switch (pred) {
    case CmpInst::ICMP_EQ: return a == b;
    case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_ULT: return a < b;
    case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_UGT: return a > b;
    case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w);
    case CmpInst::ICMP_SLE: return sx(a, w) <= sx(b, w);
    case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w);
    case CmpInst::ICMP_SGE: return sx(a, w) >= sx(b, w);
  }
  abort();
}

static void takeEdge(State &s, const Edge &e) {
  Frame &f = s.th[s.cur].st.back();
  if (!e.moves.empty()) {
    Val tmp[64];
    std::vector<Val> big;
    Val *t = tmp;
    if (e.moves.size() > 64) { big.resize(e.moves.size()); t = big.data(); }
    for (size_t i = 0; i < e.moves.size(); i++) {
      const Opd &o = e.moves[i].src;
      if (o.slot < 0) { t[i].c = o.c; t[i].e = nullptr; } else t[i] = f.regs[o.slot];
    }
    for (size_t i = 0; i < e.moves.size(); i++) f.regs[e.moves[i].dst] = t[i];
  }
  f.pc = e.target;
}

static void popFrame(const std::vector<Val> &rv) {
  Thread &t = cs->th[cs->cur];
  Frame &f = t.st.back();
  for (uint32_t a : f.allocas) killObj(*cs, a);
  const DInst *call = f.callsite;
  t.st.pop_back();
  if (t.st.empty()) {
    t.status = T_DONE;
    t.retval = rv.empty() ? 0 : rv[0].c;
    vcTick(cs->cur);
    if (cs->cur == 0) { S.paths++; killCur(); return; }
    cs->scheduled = false;
    schedule();
    return;
  }
  Frame &c = t.st.back();
  if (call && call->dst >= 0)
    for (size_t i = 0; i < rv.size() && (int)i < call->ndst; i++) c.regs[call->dst + i] = rv[i];
  c.pc++;
}

static void step() {
  Thread &T = cs->th[cs->cur];
  Frame &f = T.st.back();
  const DInst &d = f.f->code[f.pc];
  cs->steps++;
  S.insts++;
  covered[d.cov] = 1;
  switch (d.op) {
    case DBin: {
      Val a = rd(d.ops[0]), b = rd(d.ops[1]);
      Val r;
      bool divop = d.xop == XUDiv || d.xop == XSDiv || d.xop == XURem || d.xop == XSRem;
      if (divop) {
        if (!b.e) {
          if (!(b.c & maskw(d.w))) { errorHere("ub", "division by zero"); return; }
        } else {
          const Expr *z = mkBin(XEq, b.e, mkConst(0, d.w));
          std::vector<uint8_t> m;
          if (query(*cs, z, &m) == 1) {
            report(*cs, "ub", "division by zero", m);
            if (query(*cs, mkNot(z), &m) != 1) { S.errPaths++; killCur(); return; }
            cs->model = m;
            addCons(*cs, mkNot(z));
          }
        }
      }
      if (!a.e && !b.e) {
        bool ok;
        r.c = foldBin(d.xop, a.c, b.c, d.w, ok);
        if (!ok) { errorHere("ub", "division overflow"); return; }
      } else r = fromE(mkBin(d.xop, toE(a, d.w), toE(b, d.w)));
      f.regs[d.dst] = r;
      f.pc++;
      return;
    }
    case DICmp: {
      Val a = rd(d.ops[0]), b = rd(d.ops[1]);
      Val r;
      if (!a.e && !b.e) r.c = icmpC(d.pred, a.c, b.c, d.w);
      else r = fromE(icmpE(d.pred, toE(a, d.w), toE(b, d.w)));
      f.regs[d.dst] = r;
      f.pc++;
      return;
    }
    case DSelect: {
      Val c = rd(d.ops[0]);
      if (!c.e) { f.regs[d.dst] = rd(d.ops[c.c & 1 ? 1 : 2]); f.pc++; return; }
      if (d.w2) {  // pointer: fork so that addresses stay concrete
        if (!concretize(d.ops[0], 1)) return;
        c = rd(d.ops[0]);
        cs->th[cs->cur].st.back().regs[d.dst] = rd(d.ops[c.c & 1 ? 1 : 2]);
        advance();
        return;
      }
      f.regs[d.dst] = fromE(mkIte(c.e, toE(rd(d.ops[1]), d.w), toE(rd(d.ops[2]), d.w)));
      f.pc++;
      return;
    }
    case DLoad: {
      uint32_t id; uint64_t off;
      Val p = rd(d.ops[0]);
      if (p.e) {
        // Read at a symbolic offset: build an if-then-else over the object when it is small.
        uint64_t a = evalExpr(p.e, cs->model);
        const Object *o = roObj(*cs, a >> 32);
        if (o && o->size <= iteLimit && o->size >= d.imm) {
          uint32_t oid = a >> 32;
          S.memChecksSym++;
          const Expr *offE = mkBin(XSub, p.e, mkConst((uint64_t)oid << 32, 64));
          const Expr *inb = mkBin(XUle, offE, mkConst(o->size - d.imm, 64));
          std::vector<uint8_t> m2;
          int r = query(*cs, mkNot(inb), &m2);
          if (r == 1) {
            report(*cs, "memory", "read out of bounds (symbolic offset) of " + objName(o), m2);
            if (query(*cs, inb, &m2) != 1) { S.errPaths++; killCur(); return; }
            cs->model = m2;
            addCons(*cs, inb);
          }
          uint32_t sz = o->size;
          const Expr *acc = nullptr;
          bool ptrs = false;
          for (uint64_t k = 0; k + d.imm <= sz; k++) {
            const Expr *c = mkBin(XEq, offE, mkConst(k, 64));
            if (isC(c) && !c->c) continue;
            const Expr *v = toE(loadBytes(oid, k, d.imm, d.w), d.w);
            acc = acc ? mkIte(c, v, acc) : v;
          }
          (void)ptrs;
          cs->th[cs->cur].st.back().regs[d.dst] = fromE(acc);
          advance();
          return;
        }
      }
      if (!resolve(d.ops[0], d.imm, false, id, off, "read")) return;
      Val v = loadBytes(id, off, d.imm, d.w);
      cs->th[cs->cur].st.back().regs[d.dst] = v;
      advance();
      return;
    }
    case DStore: {
      uint32_t id; uint64_t off;
      if (!resolve(d.ops[1], d.imm, true, id, off, "write")) return;
      storeBytes(id, off, d.imm, rd(d.ops[0]), d.w);
      advance();
      return;
    }
    case DGep: {
      Val b = rd(d.ops[0]);
      uint64_t c = d.imm;
      const Expr *acc = nullptr;
      for (auto &g : d.gep) {
        Val i = rd(g.idx);
        if (!i.e) c += (uint64_t)sx(i.c, g.w) * g.scale;
        else {
          const Expr *t = mkBin(XMul, mkSExt(i.e, 64), mkConst(g.scale, 64));
          acc = acc ? mkBin(XAdd, acc, t) : t;
        }
      }
      Val r;
      if (!b.e && !acc) r.c = b.c + c;
      else {
        const Expr *e = toE(b, 64);
        if (acc) e = mkBin(XAdd, acc, e);
        r = fromE(mkBin(XAdd, e, mkConst(c, 64)));
      }
      f.regs[d.dst] = r;
      f.pc++;
      return;
    }
    case DAlloca: {
      if (!concretize(d.ops[0], 64)) return;
      uint64_t n = d.imm * rd(d.ops[0]).c;
      if (n > (1u << 26)) { errorHere("memory", "stack allocation too large"); return; }
      std::string nm = "local " + d.I->getName().str() + " of " + f.f->F->getName().str();
      uint64_t a = newObj(*cs, n, nm.c_str(), false);
      rwObj(*cs, a >> 32)->stack = true;
      Frame &ff = cs->th[cs->cur].st.back();
      ff.allocas.push_back(a >> 32);
      Val v; v.c = a;
      ff.regs[d.dst] = v;
      ff.pc++;
      return;
    }
    case DZExt: { Val a = rd(d.ops[0]); Val r; if (a.e) r = fromE(mkZExt(a.e, d.w2)); else r.c = a.c & maskw(d.w); f.regs[d.dst] = r; f.pc++; return; }
    case DSExt: { Val a = rd(d.ops[0]); Val r; if (a.e) r = fromE(mkSExt(a.e, d.w2)); else r.c = (uint64_t)sx(a.c, d.w) & maskw(d.w2); f.regs[d.dst] = r; f.pc++; return; }
    case DTrunc: { Val a = rd(d.ops[0]); Val r; if (a.e) r = fromE(mkExtract(a.e, 0, d.w2)); else r.c = a.c & maskw(d.w2); f.regs[d.dst] = r; f.pc++; return; }
    case DMove: {
      std::vector<Val> t;
      for (auto &o : d.ops) t.push_back(rd(o));
      for (size_t i = 0; i < t.size(); i++) f.regs[d.dst + i] = t[i];
      f.pc++;
      return;
    }
    case DBr: takeEdge(*cs, d.edges[0]); return;
    case DCondBr: {
      Val c = rd(d.ops[0]);
      if (!c.e) { takeEdge(*cs, d.edges[c.c & 1 ? 0 : 1]); return; }
      SP other;
      int r = decide(c.e, &other);
      if (other) { takeEdge(*other, d.edges[r ? 1 : 0]); work.push_back(std::move(other)); }
      takeEdge(*cs, d.edges[r ? 0 : 1]);
      return;
    }
    case DSwitch: {
      Val v = rd(d.ops[0]);
      if (!v.e) {
        size_t k = 0;
        for (size_t i = 0; i < d.cases.size(); i++) if ((d.cases[i] & maskw(d.w)) == (v.c & maskw(d.w))) { k = i + 1; break; }
        takeEdge(*cs, d.edges[k]);
        return;
      }
      // group by target edge (phi moves may differ, so treat each case separately)
      const Expr *def = mkConst(1, 1);
      std::vector<std::pair<const Expr *, size_t>> opts;
      for (size_t i = 0; i < d.cases.size(); i++) {
        const Expr *c = mkBin(XEq, v.e, mkConst(d.cases[i], d.w));
        bool merged = false;
        for (auto &o : opts)
          if (d.edges[o.second].target == d.edges[i + 1].target && d.edges[i + 1].moves.empty()) { o.first = mkBin(XOr, o.first, c); merged = true; break; }
        if (!merged) opts.push_back({c, i + 1});
        def = mkBin(XAnd, def, mkNot(c));
      }
      opts.push_back({def, 0});
      std::vector<std::pair<SP, size_t>> outs;
      for (auto &o : opts) {
        std::vector<uint8_t> m;
        int r = isC(o.first) ? (int)o.first->c : query(*cs, o.first, &m);
        if (r == 0) continue;
        if (r < 0) { S.incompletePaths++; continue; }
        SP n(new State(*cs));
        if (!m.empty()) n->model = m;
        addCons(*n, o.first);
        takeEdge(*n, d.edges[o.second]);
        n->depth++;
        outs.push_back({std::move(n), o.second});
      }
      S.forks += outs.size() ? outs.size() - 1 : 0;
      for (auto &o : outs) work.push_back(std::move(o.first));
      killCur();
      return;
    }
    case DRet: {
      std::vector<Val> rv;
      for (auto &o : d.ops) rv.push_back(rd(o));
      popFrame(rv);
      return;
    }
    case DCall: {
      if (d.callee && d.intr) { doIntr(d, d.intr); return; }
      DFunc *cf = d.callee;
      size_t a0 = 0;
      if (!cf) {
        if (!concretize(d.ops[0], 64)) return;
        uint64_t fa = rd(d.ops[0]).c;
        uint64_t ix = (fa >> 32) - FN_BASE;
        if ((fa >> 32) < FN_BASE || ix >= fnByIdx.size() || (fa & 0xffffffff)) { errorHere("memory", fa ? "call through an invalid function pointer" : "call through a NULL function pointer"); return; }
        cf = fnByIdx[ix];
        a0 = 1;
      }
      if (cf->F->isDeclaration()) {
        if (cf->intr && a0) {
          DInst tmp = d;
          tmp.ops.erase(tmp.ops.begin());
          tmp.callee = cf;
          doIntr(tmp, cf->intr);
          return;
        }
        unsupportedMsgs.insert("external function " + cf->F->getName().str());
        S.unsupported++;
        killCur();
        return;
      }
      std::vector<Val> args;
      for (size_t i = a0; i < d.ops.size(); i++) args.push_back(rd(d.ops[i]));
      if (d.w2 && d.op == DCall) {
        auto *ci = cast<CallInst>(d.I);
        for (uint64_t k : d.cases) {
          // byval argument: copy the object (arguments are scalars here)
          uint64_t sz = DL->getTypeAllocSize(ci->getParamByValType(k));
          uint64_t src = args[k].c;
          const Object *so = roObj(*cs, src >> 32);
          if (!so || (src & 0xffffffff) + sz > so->size) { errorHere("memory", "byval argument"); return; }
          uint64_t n = newObj(*cs, sz, "byval copy", true);
          Object *o = rwObj(*cs, n >> 32);
          so = roObj(*cs, src >> 32);
          uint64_t so_off = src & 0xffffffff;
          for (uint64_t i = 0; i < sz; i++) o->data[i] = so->data[so_off + i];
          if (!so->sym.empty()) { o->sym.assign(sz, nullptr); for (uint64_t i = 0; i < sz; i++) o->sym[i] = so->sym[so_off + i]; }
          args[k].c = n;
        }
      }
      if (cs->th[cs->cur].st.size() > 400) { errorHere("hang", "call stack too deep"); return; }
      pushFrame(cs->th[cs->cur], cf, args, &d);
      return;
    }
    case DUnreachable: errorHere("ub", "unreachable code reached"); return;
    case DUnsupported:
      unsupportedMsgs.insert(std::string("instruction ") + d.why + " in " + f.f->F->getName().str());
      S.unsupported++;
      killCur();
      return;
    default: abort();
  }
}

static std::string jesc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

int main(int argc, char **argv) {
  std::vector<std::string> files;
  std::string out = "", entry = "harness", errdir = "";
  bool simp = true;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "-o") out = nxt();
    else if (a == "--entry") entry = nxt();
    else if (a == "--errdir") errdir = nxt();
    else if (a == "--timeout") timeLimit = atof(nxt().c_str());
    else if (a == "--max-steps") maxSteps = strtoull(nxt().c_str(), 0, 10);
    else if (a == "--max-paths") maxPaths = strtoull(nxt().c_str(), 0, 10);
    else if (a == "--max-errors") maxErrors = atoi(nxt().c_str());
    else if (a == "--conc-limit") concLimit = atoi(nxt().c_str());
    else if (a == "--ite-limit") iteLimit = atoi(nxt().c_str());
    else if (a == "--spurious") spuriousBound = atoi(nxt().c_str());
    else if (a == "--preempt") preemptBound = atoi(nxt().c_str());
    else if (a == "--race") raceDetect = true;
    else if (a == "--no-simplify") simp = false;
    else if (a == "--fix") {
      std::string f = nxt();
      size_t e = f.find('=');
      std::stringstream ss(f.substr(e + 1));
      std::string t;
      while (std::getline(ss, t, ',')) fixes[f.substr(0, e)].push_back(strtoull(t.c_str(), 0, 0));
    } else files.push_back(a);
  }
  t0 = Clk::now();
  SMDiagnostic diag;
  for (auto &f : files) {
    auto m = parseIRFile(f, diag, Ctx);
    if (!m) { diag.print("svsym", llvm::errs()); return 3; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "link failed\n"); return 3; }
  }
  DL = &M->getDataLayout();
  for (auto &F : *M) { F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); }
  {
    PassBuilder PB;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    FunctionPassManager FPM;
    FPM.addPass(PromotePass());
    if (simp) {
      SimplifyCFGOptions o;
      o.bonusInstThreshold(4).convertSwitchRangeToICmp(true).speculateBlocks(true).hoistCommonInsts(false).sinkCommonInsts(false);
      FPM.addPass(SimplifyCFGPass(o));
    }
    ModulePassManager MPM;
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.run(*M, MAM);
  }
  Z3_config cfg = Z3_mk_config();
  Z = Z3_mk_context(cfg);
  SP init(new State());
  init->th.resize(1);
  for (auto &gv : M->globals()) {
    if (gv.getName().starts_with("llvm.")) continue;
    uint64_t sz = DL->getTypeAllocSize(gv.getValueType());
    uint64_t a = newObj(*init, sz, ("global " + gv.getName().str()).c_str(), true);
    gaddr[&gv] = a;
    SmallVector<DIGlobalVariableExpression *, 1> dv;
    gv.getDebugInfo(dv);
    for (auto *x : dv) {
      StringRef fn = x->getVariable()->getFilename();
      if (fn.contains("/lib/") && !fn.starts_with("/usr/")) rwObj(*init, a >> 32)->shared = true;
    }
  }
  for (auto &gv : M->globals()) {
    if (!gaddr.count(&gv)) continue;
    Object *o = rwObj(*init, gaddr[&gv] >> 32);
    if (gv.hasInitializer()) initConst(o, 0, gv.getInitializer());
    else if (!gv.hasInitializer()) {
      // external data (e.g. stdout): leave zero
    }
  }
  for (auto &gv : M->globals())
    if (gaddr.count(&gv) && gv.isConstant()) rwObj(*init, gaddr[&gv] >> 32)->ro = true;
  Function *EF = M->getFunction(entry);
  if (!EF) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  pushFrame(init->th[0], getF(EF), {}, nullptr);
  work.push_back(std::move(init));
  double lastPrint = 0;
  uint64_t tick = 0;
  while (!work.empty() && !stopAll) {
    SP s = std::move(work.back());
    work.pop_back();
    cs = s.get();
    alive = true;
    while (alive) {
      step();
      if (alive && cs->steps > maxSteps) {
        errorHere("hang", "more than " + std::to_string(maxSteps) + " instructions on one path");
      }
      if ((++tick & 0xfff) == 0) {
        double t = secs();
        if (t > timeLimit) { stopAll = true; stopReason = "time limit"; break; }
        if (t - lastPrint > 10) {
          lastPrint = t;
          fprintf(stderr, "[%.0fs] paths %lu err %lu pending %zu insts %lu queries %lu z3 %lu (%.1fs)\n", t, S.paths, S.errPaths, work.size(), S.insts, S.queries, S.z3calls, S.solverS);
        }
      }
    }
    if (S.paths >= maxPaths) { stopAll = true; stopReason = "path limit"; }
  }
  bool complete = !stopAll && S.unsupported == 0 && S.concTrunc == 0 && S.incompletePaths == 0;
  // output
  std::string js = "{\n";
  auto num = [&](const char *k, double v, bool last = false) {
    char b[128];
    if (v == (double)(uint64_t)v) snprintf(b, sizeof b, "  \"%s\": %lu%s\n", k, (unsigned long)v, last ? "" : ",");
    else snprintf(b, sizeof b, "  \"%s\": %.3f%s\n", k, v, last ? "" : ",");
    js += b;
  };
  js += std::string("  \"complete\": ") + (complete ? "true" : "false") + ",\n";
  js += "  \"stop_reason\": \"" + stopReason + "\",\n";
  num("paths", S.paths); num("error_paths", S.errPaths); num("assume_killed", S.killedAssume);
  num("pending", work.size()); num("instructions", S.insts); num("forks", S.forks);
  num("sched_forks", S.schedForks);
  num("queries", S.queries); num("z3_calls", S.z3calls); num("cache_hits", S.cacheHits); num("sat", S.sat);
  num("unsat", S.unsat); num("unknown", S.unknown); num("asserts", S.asserts); num("asserts_symbolic", S.assertsSym);
  num("mem_checks_symbolic", S.memChecksSym); num("conc_truncated", S.concTrunc); num("unsupported", S.unsupported);
  num("incomplete", S.incompletePaths);
  num("solver_s", S.solverS); num("wall_s", secs());
  js += "  \"unsupported_msgs\": [";
  { bool f = true; for (auto &u : unsupportedMsgs) { js += (f ? "" : ", ") + ("\"" + jesc(u) + "\""); f = false; } }
  js += "],\n  \"reach\": {";
  { bool f = true; for (auto &u : reach) { js += (f ? "" : ", ") + ("\"" + jesc(u.first) + "\": " + std::to_string(u.second)); f = false; } }
  js += "},\n  \"assertions\": {";
  { bool f = true; for (auto &u : assertSeen) { js += (f ? "" : ", ") + ("\"" + jesc(u.first) + "\": " + std::to_string(u.second)); f = false; } }
  js += "},\n  \"functions\": [";
  {
    bool f = true;
    for (auto *d : fnByIdx)
      if (d->executed) {
        std::string file = d->F->getSubprogram() ? d->F->getSubprogram()->getFilename().str() : "";
        size_t n = 0, c = 0;
        for (auto &i : d->code) { n++; c += covered[i.cov]; }
        js += (f ? "" : ",\n    ");
        js += "{\"name\": \"" + jesc(d->F->getName().str()) + "\", \"file\": \"" + jesc(file) + "\", \"insts\": " + std::to_string(n) + ", \"covered\": " + std::to_string(c) + "}";
        f = false;
      }
  }
  js += "],\n  \"errors\": [";
  {
    bool f = true;
    int k = 0;
    for (auto &e : errList) {
      js += (f ? "\n" : ",\n");
      f = false;
      js += "   {\"kind\": \"" + jesc(e.kind) + "\", \"msg\": \"" + jesc(e.msg) + "\", \"func\": \"" + jesc(e.func) + "\", \"loc\": \"" + jesc(e.loc) + "\", \"stack\": [";
      for (size_t i = 0; i < e.stack.size(); i++) js += (i ? ", " : "") + ("\"" + jesc(e.stack[i]) + "\"");
      js += "], \"trace\": [";
      for (size_t i = 0; i < e.trace.size(); i++) js += (i ? ", " : "") + ("\"" + jesc(e.trace[i]) + "\"");
      js += "], \"inputs\": [";
      std::string rp;
      for (size_t i = 0; i < e.inputs.size(); i++) {
        auto &r = e.inputs[i];
        std::string hex;
        for (uint32_t b = 0; b < r.n; b++) {
          uint8_t v = !r.conc.empty() ? r.conc[b] : (r.var0 + b < e.model.size() ? e.model[r.var0 + b] : 0);
          char t[4];
          snprintf(t, sizeof t, "%02x", v);
          hex += t;
        }
        js += (i ? ", " : "") + ("[\"" + jesc(r.name) + "\", \"" + hex + "\"]");
        rp += r.name + " " + std::to_string(r.n) + " " + (hex.empty() ? "-" : hex) + "\n";
      }
      js += "]}";
      if (!errdir.empty()) {
        std::ofstream o(errdir + "/err" + std::to_string(k) + ".inputs");
        o << rp;
      }
      k++;
    }
  }
  js += "]\n}\n";
  if (out.empty()) fputs(js.c_str(), stdout);
  else { std::ofstream o(out); o << js; }
  fflush(stdout);
  _exit(errList.empty() ? 0 : 1);
}
