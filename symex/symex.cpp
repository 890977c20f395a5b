// symex: a symbolic executor for LLVM IR (bounded, path-wise, z3 back end).
// usage: symex MODULE.bc ENTRY [--out FILE] [--max-time S] [--max-paths N] [--max-instr N] [--seed N] [--arg K=V ...]
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <unistd.h>
#include <set>
#include <sys/resource.h>
#include <pthread.h>

using namespace llvm;

static Ctx cx;
static Solver *solver;

static std::string dumpE(E e, int d = 0) {
  static const char *N[] = {"c", "v", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "not", "ite", "cat", "ext", "zx", "sx", "in", "lut", "agg"};
  char t[64];
  if (e->op == E_CONST || e->op == E_VAR || e->op == E_EXTRACT) snprintf(t, sizeof t, "%s%llx:%d", N[e->op], (unsigned long long)e->c, e->w); else snprintf(t, sizeof t, "%s:%d", N[e->op], e->w);
  if (d > 8) return t;
  std::string r = t;
  bool any = false;
  for (int i = 0; i < 3; i++) if (e->op != E_CONST && e->op != E_VAR && e->k[i]) { r += (any ? "," : "(") + dumpE(e->k[i], d + 1); any = true; }
  return any ? r + ")" : r;
}
struct Val {
  uint64_t v = 0;
  E e = nullptr;   // symbolic if non-null (or E_AGG marker with aggregate index in v)
};
static inline Val cv(uint64_t v) { Val x; x.v = v; return x; }
static std::deque<std::vector<Val>> aggs;
static Expr aggMark;
static inline Val mkAgg(std::vector<Val> f) { Val x; aggs.push_back(std::move(f)); x.v = aggs.size() - 1; x.e = &aggMark; return x; }
static inline bool isAgg(const Val &x) { return x.e == &aggMark; }
static inline Val norm(E e) { Val x; if (e->op == E_CONST) { x.v = e->c; return x; } x.e = e; return x; }
static inline E toE(const Val &x, unsigned w) { return x.e ? x.e : cx.cst(x.v, w); }

// ---------------------------------------------------------------- memory
enum { K_HEAP, K_STACK, K_GLOBAL, K_FUNC };
struct Obj {
  int rc = 0;
  uint32_t size = 0;
  uint8_t kind = 0;
  bool ro = false, freed = false;
  const Instruction *site = nullptr;
  std::vector<uint8_t> d;
  std::vector<E> s;  // empty or size
  std::string *name = nullptr;
};
struct ObjRef {
  Obj *p = nullptr;
  ObjRef() {}
  ObjRef(Obj *o) : p(o) { if (p) p->rc++; }
  ObjRef(const ObjRef &o) : p(o.p) { if (p) p->rc++; }
  ObjRef(ObjRef &&o) noexcept : p(o.p) { o.p = nullptr; }
  ObjRef &operator=(ObjRef o) { std::swap(p, o.p); return *this; }
  ~ObjRef() { if (p && --p->rc == 0) delete p; }
};
struct Chunk { int rc = 0; ObjRef o[64]; };
struct PVec { // persistent vector of objects
  std::vector<Chunk *> c;
  size_t n = 0;
  PVec() {}
  PVec(const PVec &o) : c(o.c), n(o.n) { for (auto x : c) x->rc++; }
  PVec &operator=(const PVec &) = delete;
  ~PVec() { for (auto x : c) if (--x->rc == 0) delete x; }
  Obj *get(size_t i) const { return i < n ? c[i >> 6]->o[i & 63].p : nullptr; }
  Chunk *own(size_t k) {
    Chunk *x = c[k];
    if (x->rc > 1) { Chunk *y = new Chunk(*x); y->rc = 1; x->rc--; c[k] = y; x = y; }
    return x;
  }
  void set(size_t i, Obj *o) { own(i >> 6)->o[i & 63] = ObjRef(o); }
  void push(Obj *o) {
    if ((n >> 6) >= c.size()) { Chunk *x = new Chunk; x->rc = 1; c.push_back(x); }
    n++;
    set(n - 1, o);
  }
  Obj *write(size_t i) {
    Chunk *x = own(i >> 6);
    Obj *o = x->o[i & 63].p;
    if (o->rc > 1) { Obj *q = new Obj(*o); q->rc = 0; x->o[i & 63] = ObjRef(q); o = q; }
    return o;
  }
  void trunc(size_t m) {
    for (size_t i = m; i < n; i++) own(i >> 6)->o[i & 63] = ObjRef();
    n = m;
  }
};
static const uint64_t SLOT = 24, SLOTSZ = 1ull << SLOT, PADOFF = 0x10000;
static const uint64_t R_GLOB = 1ull << 44, R_STACK = 2ull << 44, R_HEAP = 4ull << 44, R_FUNC = 1ull << 43, R_MASK = ~((1ull << 44) - 1);
static inline uint64_t addrOf(uint64_t region, size_t idx) { return region + (idx << SLOT) + PADOFF; }

// ---------------------------------------------------------------- compiled code
struct Opd { int reg = -1; Val c; };
struct Move { int dst; Opd src; };
struct Edge { int target; std::vector<Move> mv; };
enum IOp : uint8_t { I_BIN, I_ICMP, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_EXTRACTV, I_INSERTV, I_UNREACHABLE, I_UNSUP };
struct CFunc;
typedef struct State State;
struct Instr {
  IOp op; uint8_t sub = 0; uint16_t w = 0, w2 = 0; bool ptr = false;
  int dst = -1;
  std::vector<Opd> o;
  std::vector<Edge> e;
  std::vector<uint64_t> aux;
  const Instruction *src = nullptr;
  Function *callee = nullptr; CFunc *cf = nullptr; int intr = 0; // resolved lazily
  uint32_t hits = 0;
};
struct CFunc {
  Function *f; int nregs = 0; std::vector<Instr> code; std::vector<int> bb; // block start
  std::vector<unsigned> argByval; bool vararg = false; uint64_t calls = 0;
  std::vector<std::pair<unsigned, unsigned>> byval;
};

static Module *mod;
static const DataLayout *DL;
static std::unordered_map<const Value *, uint64_t> gaddr;
static std::vector<Function *> funcs;   // by function index
static std::unordered_map<Function *, CFunc *> cfuncs;

static Val constVal(const Constant *c);
static unsigned wOf(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  return 0;
}
static std::vector<Val> aggConst(const Constant *c, Type *t) {
  std::vector<Val> r;
  unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : cast<ArrayType>(t)->getNumElements();
  for (unsigned i = 0; i < n; i++) r.push_back(constVal(c->getAggregateElement(i)));
  return r;
}
static Val constVal(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return cv(ci->getValue().getLimitedValue() & maskw(ci->getBitWidth()));
  if (isa<ConstantPointerNull>(c)) return cv(0);
  if (isa<UndefValue>(c)) { if (c->getType()->isAggregateType()) return mkAgg(aggConst(c, c->getType())); return cv(0); }
  if (c->getType()->isAggregateType()) return mkAgg(aggConst(c, c->getType()));
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(gv);
    if (it != gaddr.end()) return cv(it->second);
    if (auto *ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee());
    errs() << "no address for " << gv->getName() << "\n";
    return cv(0);
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) return cv(cf->getValueAPF().bitcastToAPInt().getLimitedValue());
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { errs() << "gep constexpr\n"; abort(); }
      return cv(constVal(ce->getOperand(0)).v + off.getSExtValue());
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
      return constVal(ce->getOperand(0));
    case Instruction::Trunc: return cv(constVal(ce->getOperand(0)).v & maskw(wOf(ce->getType())));
    case Instruction::ZExt: return constVal(ce->getOperand(0));
    case Instruction::Add: return cv((constVal(ce->getOperand(0)).v + constVal(ce->getOperand(1)).v) & maskw(wOf(ce->getType())));
    case Instruction::Sub: return cv((constVal(ce->getOperand(0)).v - constVal(ce->getOperand(1)).v) & maskw(wOf(ce->getType())));
    default: errs() << "constexpr " << *ce << "\n"; abort();
    }
  }
  errs() << "const " << *c << "\n";
  abort();
}
static void initBytes(std::vector<uint8_t> &d, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    unsigned es = cd->getElementByteSize();
    StringRef raw = cd->getRawDataValues();
    memcpy(&d[off], raw.data(), raw.size());
    (void)es;
    return;
  }
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) initBytes(d, off + sl->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) initBytes(d, off + i * es, c->getAggregateElement(i));
    return;
  }
  uint64_t v = constVal(c).v;
  unsigned n = DL->getTypeStoreSize(t);
  for (unsigned i = 0; i < n; i++) d[off + i] = v >> (8 * i);
}

enum Intr {
  N_NONE, N_UNKNOWN, N_NOP, N_MALLOC, N_CALLOC, N_REALLOC, N_FREE, N_MEMCPY, N_MEMSET, N_VASTART, N_VACOPY, N_ABORT, N_EXIT, N_ASSERTFAIL,
  N_SYMBYTES, N_SYMASSUME, N_SYMASSERT, N_SYMREACH, N_SYMOBS, N_SYMOBSMEM, N_SYMARG, N_SYMLIVE, N_SYMFORK, N_SYMISSYM, N_SYMFAIL, N_SYMDONE, N_SYMPRINT, N_SYMLIVEN, N_SYMBOOLAND, N_SYMSAME, N_SYMSTUB,
  N_UMAX, N_UMIN, N_SMAX, N_SMIN, N_ABS, N_BSWAP, N_CTPOP, N_CTLZ, N_CTTZ, N_FSHL, N_FSHR, N_USUBSAT, N_UADDSAT, N_BITREV, N_SADDSAT, N_SSUBSAT, N_UADDO, N_USUBO, N_UMULO, N_SADDO, N_SSUBO, N_SMULO, N_TRAP, N_RETARG0, N_OBJSIZE, N_STACKSAVE,
  N_STRLEN, N_STRCMP, N_STRNCMP, N_MEMCMP, N_STRCHR
};
static std::map<std::string, int> intrByName = {
  {"malloc", N_MALLOC}, {"calloc", N_CALLOC}, {"realloc", N_REALLOC}, {"free", N_FREE},
  {"memcpy", N_MEMCPY}, {"memmove", N_MEMCPY}, {"memset", N_MEMSET}, {"abort", N_ABORT}, {"exit", N_EXIT}, {"_exit", N_EXIT}, {"__assert_fail", N_ASSERTFAIL},
  {"sym_bytes", N_SYMBYTES}, {"sym_assume", N_SYMASSUME}, {"sym_assert_", N_SYMASSERT}, {"sym_reach", N_SYMREACH}, {"sym_observe", N_SYMOBS}, {"sym_observe_mem", N_SYMOBSMEM},
  {"sym_arg", N_SYMARG}, {"sym_live_bytes", N_SYMLIVE}, {"sym_live_blocks", N_SYMLIVEN}, {"sym_concretize", N_SYMFORK}, {"sym_is_symbolic", N_SYMISSYM}, {"sym_done", N_SYMDONE}, {"sym_print", N_SYMPRINT}, {"sym_and", N_SYMBOOLAND}, {"sym_same", N_SYMSAME}, {"sym_stub", N_SYMSTUB}, {"sym_unmodelled", N_SYMFAIL},
  {"strlen", N_STRLEN}, {"strcmp", N_STRCMP}, {"strncmp", N_STRNCMP}, {"memcmp", N_MEMCMP}, {"strchr", N_STRCHR}
};
static int intrOf(Function *f) {
  if (f->isIntrinsic()) {
    switch (f->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return N_MEMCPY;
    case Intrinsic::memset: return N_MEMSET;
    case Intrinsic::vastart: return N_VASTART;
    case Intrinsic::vacopy: return N_VACOPY;
    case Intrinsic::umax: return N_UMAX; case Intrinsic::umin: return N_UMIN; case Intrinsic::smax: return N_SMAX; case Intrinsic::smin: return N_SMIN;
    case Intrinsic::abs: return N_ABS; case Intrinsic::bswap: return N_BSWAP; case Intrinsic::ctpop: return N_CTPOP; case Intrinsic::ctlz: return N_CTLZ; case Intrinsic::cttz: return N_CTTZ;
    case Intrinsic::fshl: return N_FSHL; case Intrinsic::fshr: return N_FSHR; case Intrinsic::usub_sat: return N_USUBSAT; case Intrinsic::uadd_sat: return N_UADDSAT;
    case Intrinsic::bitreverse: return N_BITREV; case Intrinsic::sadd_sat: return N_SADDSAT; case Intrinsic::ssub_sat: return N_SSUBSAT; case Intrinsic::memset_inline: return N_MEMSET;
    case Intrinsic::uadd_with_overflow: return N_UADDO; case Intrinsic::usub_with_overflow: return N_USUBO; case Intrinsic::umul_with_overflow: return N_UMULO;
    case Intrinsic::sadd_with_overflow: return N_SADDO; case Intrinsic::ssub_with_overflow: return N_SSUBO; case Intrinsic::smul_with_overflow: return N_SMULO;
    case Intrinsic::trap: return N_TRAP;
    case Intrinsic::expect: return N_RETARG0;
    case Intrinsic::objectsize: return N_OBJSIZE;
    case Intrinsic::stacksave: case Intrinsic::is_constant: return N_STACKSAVE;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::vaend: case Intrinsic::assume: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: return N_NOP;
    default: return N_UNKNOWN;
    }
  }
  auto it = intrByName.find(f->getName().str());
  if (it != intrByName.end()) return it->second;
  return f->isDeclaration() ? N_UNKNOWN : N_NONE;
}

static CFunc *compile(Function *f) {
  auto it = cfuncs.find(f);
  if (it != cfuncs.end()) return it->second;
  CFunc *cf = new CFunc;
  cfuncs[f] = cf;
  cf->f = f;
  cf->vararg = f->isVarArg();
  std::unordered_map<const Value *, int> reg;
  for (auto &a : f->args()) {
    if (a.hasByValAttr()) cf->byval.push_back({a.getArgNo(), (unsigned)DL->getTypeAllocSize(a.getParamByValType())});
    reg[&a] = cf->nregs++;
  }
  std::unordered_map<const BasicBlock *, int> bbi;
  int nb = 0;
  for (auto &b : *f) bbi[&b] = nb++;
  for (auto &b : *f) for (auto &i : b) if (!i.getType()->isVoidTy()) reg[&i] = cf->nregs++;
  cf->bb.resize(nb);
  auto opd = [&](const Value *v) {
    Opd o;
    if (auto *c = dyn_cast<Constant>(v)) { o.c = constVal(c); return o; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return o;
    auto r = reg.find(v);
    if (r == reg.end()) { errs() << "opd " << *v << "\n"; abort(); }
    o.reg = r->second;
    return o;
  };
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) {
    Edge e;
    e.target = bbi[to];
    for (auto &phi : to->phis()) e.mv.push_back({reg[&phi], opd(phi.getIncomingValueForBlock(from))});
    return e;
  };
  for (auto &b : *f) {
    cf->bb[bbi[&b]] = cf->code.size();
    for (auto &i : b) {
      if (isa<PHINode>(i)) continue;
      Instr c;
      c.op = I_UNSUP;
      c.src = &i;
      if (!i.getType()->isVoidTy()) c.dst = reg[&i];
      Type *ty = i.getType();
      c.w = wOf(ty);
      if (auto *bo = dyn_cast<BinaryOperator>(&i)) {
        static const std::map<unsigned, EOp> m = {{Instruction::Add, E_ADD}, {Instruction::Sub, E_SUB}, {Instruction::Mul, E_MUL}, {Instruction::UDiv, E_UDIV}, {Instruction::SDiv, E_SDIV}, {Instruction::URem, E_UREM}, {Instruction::SRem, E_SREM}, {Instruction::And, E_AND}, {Instruction::Or, E_OR}, {Instruction::Xor, E_XOR}, {Instruction::Shl, E_SHL}, {Instruction::LShr, E_LSHR}, {Instruction::AShr, E_ASHR}};
        auto mi = m.find(bo->getOpcode());
        if (mi != m.end() && c.w && c.w <= 64) { c.op = I_BIN; c.sub = mi->second; c.o = {opd(i.getOperand(0)), opd(i.getOperand(1))}; }
      } else if (auto *ic = dyn_cast<ICmpInst>(&i)) {
        c.w2 = wOf(ic->getOperand(0)->getType());
        if (c.w2 && c.w2 <= 64) { c.op = I_ICMP; c.sub = ic->getPredicate(); c.o = {opd(i.getOperand(0)), opd(i.getOperand(1))}; }
      } else if (auto *br = dyn_cast<BranchInst>(&i)) {
        if (br->isConditional()) {
          c.op = I_CBR;
          c.o = {opd(br->getCondition())};
          c.e = {edge(&b, br->getSuccessor(0)), edge(&b, br->getSuccessor(1))};
        } else { c.op = I_BR; c.e = {edge(&b, br->getSuccessor(0))}; }
      } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
        c.op = I_SWITCH;
        c.w2 = wOf(sw->getCondition()->getType());
        c.o = {opd(sw->getCondition())};
        c.e.push_back(edge(&b, sw->getDefaultDest()));
        for (auto &cs : sw->cases()) { c.aux.push_back(cs.getCaseValue()->getZExtValue()); c.e.push_back(edge(&b, cs.getCaseSuccessor())); }
      } else if (isa<ReturnInst>(i)) {
        c.op = I_RET;
        if (i.getNumOperands()) c.o = {opd(i.getOperand(0))};
      } else if (auto *cb = dyn_cast<CallBase>(&i)) {
        if (!cb->isInlineAsm()) {
          c.op = I_CALL;
          Function *cal = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
          c.callee = cal;
          if (cal && cal->isIntrinsic() && intrOf(cal) == N_NOP) { continue; }
          for (auto &a : cb->args()) { c.o.push_back(opd(a)); c.aux.push_back(wOf(a->getType())); }
          if (cal) c.intr = intrOf(cal);
          else c.o.push_back(opd(cb->getCalledOperand()));
          if (cb->getFunctionType()->isVarArg()) c.w2 = cb->getFunctionType()->getNumParams();
        }
      } else if (isa<LoadInst>(i)) {
        c.op = I_LOAD;
        c.w2 = DL->getTypeStoreSize(ty);
        c.o = {opd(i.getOperand(0))};
        if (!c.w) c.op = I_UNSUP;
        if (ty->isAggregateType()) { c.op = I_LOAD; }
      } else if (auto *st = dyn_cast<StoreInst>(&i)) {
        c.op = I_STORE;
        c.w = wOf(st->getValueOperand()->getType());
        c.w2 = DL->getTypeStoreSize(st->getValueOperand()->getType());
        c.o = {opd(i.getOperand(0)), opd(i.getOperand(1))};
        if (!c.w && !st->getValueOperand()->getType()->isAggregateType()) c.op = I_UNSUP;
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
        c.op = I_GEP;
        c.o = {opd(g->getPointerOperand())};
        uint64_t off = 0;
        c.aux.push_back(0);
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          Value *ix = gi.getOperand();
          if (StructType *st2 = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st2)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(ix)) { off += ci->getSExtValue() * sz; continue; }
          c.o.push_back(opd(ix));
          c.aux.push_back(sz);
          c.aux.push_back(wOf(ix->getType()));
        }
        c.aux[0] = off;
      } else if (auto *al = dyn_cast<AllocaInst>(&i)) {
        c.op = I_ALLOCA;
        c.aux = {DL->getTypeAllocSize(al->getAllocatedType())};
        c.o = {opd(al->getArraySize())};
        c.w2 = wOf(al->getArraySize()->getType());
      } else if (isa<SelectInst>(i)) {
        if (c.w || true) { c.op = I_SELECT; c.ptr = ty->isPointerTy() || ty->isAggregateType(); c.o = {opd(i.getOperand(0)), opd(i.getOperand(1)), opd(i.getOperand(2))}; }
        if (ty->isVectorTy()) c.op = I_UNSUP;
      } else if (auto *ca = dyn_cast<CastInst>(&i)) {
        unsigned sw2 = wOf(ca->getSrcTy());
        c.w2 = sw2;
        c.o = {opd(i.getOperand(0))};
        switch (ca->getOpcode()) {
        case Instruction::ZExt: c.op = I_ZEXT; break;
        case Instruction::SExt: c.op = I_SEXT; break;
        case Instruction::Trunc: c.op = I_TRUNC; break;
        case Instruction::PtrToInt: c.op = c.w < 64 ? I_TRUNC : I_COPY; break;
        case Instruction::IntToPtr: c.op = sw2 < 64 ? I_ZEXT : I_COPY; break;
        case Instruction::BitCast: case Instruction::AddrSpaceCast: c.op = I_COPY; break;
        default: break;
        }
        if (!c.w || c.w > 64 || !sw2 || sw2 > 64) c.op = I_UNSUP;
      } else if (isa<FreezeInst>(i)) { c.op = I_COPY; c.o = {opd(i.getOperand(0))}; }
      else if (auto *ev = dyn_cast<ExtractValueInst>(&i)) { c.op = I_EXTRACTV; c.o = {opd(i.getOperand(0))}; for (auto x : ev->indices()) c.aux.push_back(x); }
      else if (auto *iv = dyn_cast<InsertValueInst>(&i)) { c.op = I_INSERTV; c.o = {opd(i.getOperand(0)), opd(i.getOperand(1))}; for (auto x : iv->indices()) c.aux.push_back(x); }
      else if (isa<UnreachableInst>(i)) c.op = I_UNREACHABLE;
      cf->code.push_back(std::move(c));
    }
  }
  return cf;
}

// ---------------------------------------------------------------- states
struct Frame {
  CFunc *f; int pc; std::vector<Val> r; size_t stackMark; uint64_t vaAddr = 0; Instr *callI = nullptr;
};
struct SymIn { std::string name; int first, n; };
struct Obsv { Val v; uint8_t w; };
struct State {
  std::vector<Frame> fr;
  PVec glob, stack, heap;
  std::vector<Bits256> dom;        // per variable
  std::vector<E> multi;            // constraints over several variables
  std::vector<uint8_t> wit;        // satisfying assignment
  std::vector<uint8_t> inMulti;    // variable occurs in multi
  std::vector<SymIn> ins;
  std::vector<Obsv> obs;
  uint64_t ninstr = 0, asserts = 0;
  uint64_t liveBytes = 0, liveBlocks = 0;
  uint32_t forks = 0;
};

struct Err { std::string kind, msg, loc; std::vector<std::string> stack; std::vector<std::pair<std::string, std::vector<uint8_t>>> ins; };
static std::vector<Err> errors;
static std::vector<State *> work;
static State *cur;
static bool killed;
static uint64_t nPaths, nErrPaths, nForks, nInstr, nAssertsSym, nAssertsConc, nDomDecided, nWitDecided, nInconcl, nAssumeKilled, nFinalChecks, nDone;
static std::map<std::string, uint64_t> reach;
static std::map<std::string, uint64_t> inconcl;
static std::map<std::string, std::string> args;
static std::map<std::string, uint64_t> assertLocs;
static uint64_t maxInstr = 30000000, maxErrors = 4;
static double tStart, maxTime = 600;
static uint64_t maxPaths = ~0ull;
static uint64_t sampleEvery = 1, nSamplesMax = 24;
static std::vector<std::string> samples;
static uint32_t rngs = 1;

static std::string locOf(const Instruction *i) {
  if (!i) return "?";
  std::string s;
  if (auto &dl = i->getDebugLoc()) {
    s = dl->getFilename().str();
    auto p = s.rfind('/');
    if (p != std::string::npos) s = s.substr(p + 1);
    s += ":" + std::to_string(dl.getLine());
  } else s = "?";
  return s + " " + i->getFunction()->getName().str();
}
static Instr *curI() { return &cur->fr.back().f->code[cur->fr.back().pc]; }
static void report(const std::string &kind, const std::string &msg) {
  killed = true;
  nErrPaths++;
  Err e;
  e.kind = kind; e.msg = msg;
  e.loc = locOf(curI()->src);
  for (auto it = cur->fr.rbegin(); it != cur->fr.rend(); ++it) e.stack.push_back(locOf(it->f->code[it->pc].src));
  for (auto &x : errors) if (x.kind == e.kind && x.loc == e.loc && x.msg == e.msg) return;
  for (auto &s : cur->ins) {
    std::vector<uint8_t> b;
    for (int i = 0; i < s.n; i++) b.push_back(cur->wit[s.first + i]);
    e.ins.push_back({s.name, b});
  }
  if (errors.size() < 64) errors.push_back(e);
}
static void inconclusive(const std::string &why) {
  killed = true;
  nInconcl++;
  std::string l = why + " @ " + locOf(curI()->src);
  if (getenv("SYMEX_BT")) for (auto it = cur->fr.rbegin(); it != cur->fr.rend(); ++it) l += " < " + locOf(it->f->code[it->pc].src);
  inconcl[l]++;
}

// feasibility of c in state s; on success fills `m` with the model of the slice. 1/0/-1
static int feasible(State &s, E c, std::vector<std::pair<int, uint8_t>> &m, bool forceZ3 = false) {
  m.clear();
  if (c->op == E_CONST) return c->c;
  if (!forceZ3 && c->op == E_IN && !s.inMulti[c->var]) {
    Bits256 b = s.dom[c->var] & cx.doms[c->c & 0xffffffff];
    nDomDecided++;
    if (b.empty()) return 0;
    m.push_back({c->var, (uint8_t)b.first()});
    return 1;
  }
  if (c->op == E_IN) {
    Bits256 b = s.dom[c->var] & cx.doms[c->c & 0xffffffff];
    if (b.empty() && !forceZ3) { nDomDecided++; return 0; }
  }
  // slice
  std::vector<int> vars = cx.vsets[c->vs];
  std::set<int> vs(vars.begin(), vars.end());
  std::vector<E> cons{c};
  if (!s.multi.empty()) {
    std::vector<char> used(s.multi.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < s.multi.size(); i++) if (!used[i]) {
        auto &mv = cx.vsets[s.multi[i]->vs];
        bool hit = false;
        for (int v : mv) if (vs.count(v)) { hit = true; break; }
        if (hit) { used[i] = 1; ch = true; cons.push_back(s.multi[i]); for (int v : mv) vs.insert(v); }
      }
    }
  }
  std::vector<std::pair<int, Bits256>> doms;
  for (int v : vs) doms.push_back({v, s.dom[v]});
  return solver->check(cons, doms, m);
}
static void addCons(State &s, E c) {
  if (c->op == E_CONST) return;
  if (c->op == E_AND) { addCons(s, c->k[0]); addCons(s, c->k[1]); return; }
  if (c->op == E_NOT && c->k[0]->op == E_OR) { addCons(s, cx.notE(c->k[0]->k[0])); addCons(s, cx.notE(c->k[0]->k[1])); return; }
  if (c->op == E_IN) { s.dom[c->var] = s.dom[c->var] & cx.doms[c->c & 0xffffffff]; return; }
  if (c->var >= 0) { fprintf(stderr, "uncanonical bool op %d\n", c->op); abort(); }
  for (E x : s.multi) if (x == c) return;
  s.multi.push_back(c);
  for (int v : cx.vsets[c->vs]) s.inMulti[v] = 1;
}
static inline bool witTrue(State &s, E c) { return cx.eval(c, s.wit) & 1; }
static void applyModel(State &s, const std::vector<std::pair<int, uint8_t>> &m) { for (auto &p : m) s.wit[p.first] = p.second; }

// Assume c on current state. returns false when infeasible (state dead)
static bool assume(State &s, E c) {
  if (c->op == E_CONST) return c->c;
  if (!witTrue(s, c)) {
    std::vector<std::pair<int, uint8_t>> m;
    int r = feasible(s, c, m);
    if (r == 0) return false;
    if (r < 0) { inconclusive("solver unknown"); return false; }
    applyModel(s, m);
  }
  addCons(s, c);
  return true;
}
// fork on c: current state takes c if returns 1, notc if 0; other side pushed (re-executes current instruction unless handled)
static bool rnd() { rngs ^= rngs << 13; rngs ^= rngs >> 17; rngs ^= rngs << 5; return rngs & 1; }
static bool reduceAnd(State &s, E c);
static E known(E c);
static int branch(E c, State **other) {
  *other = nullptr;
  c = known(c);
  if (c->op == E_CONST) return c->c;
  bool side = witTrue(*cur, c);
  nWitDecided++;
  E oc = side ? cx.notE(c) : c;
  std::vector<std::pair<int, uint8_t>> m;
  int r = feasible(*cur, oc, m);
  if (r < 0) { inconcl["solver unknown @ " + locOf(curI()->src)]++; nInconcl++; }
  if (r == 1) {
    State *o = new State(*cur);
    applyModel(*o, m);
    addCons(*o, oc);
    o->forks++;
    *other = o;
    nForks++;
    addCons(*cur, side ? c : cx.notE(c));
    cur->forks++;
  }
  return side;
}
// value of a condition already decided by the path, or the condition itself
static E known(E c) {
  if (c->op == E_CONST) return c;
  if (c->op == E_IN) {
    Bits256 b = cx.doms[c->c & 0xffffffff], d = cur->dom[c->var];
    if ((b & d).empty()) return cx.F;
    if (((~b) & d).empty()) return cx.T;
    return c;
  }
  if (cur->multi.empty()) return c;
  E n = cx.notE(c);
  for (E x : cur->multi) { if (x == c) return cx.T; if (x == n) return cx.F; }
  return c;
}
static E pathIte(E c, E a, E b) { return cx.ite(known(c), a, b); }
// make expression concrete by forking over its feasible values
static uint64_t concretize(E e) {
  if (e->op == E_CONST) return e->c;
  uint64_t v = cx.eval(e, cur->wit);
  E c = cx.bin(E_EQ, e, cx.cst(v, e->w));
  State *o;
  branch(c, &o);
  if (o) work.push_back(o); // o re-executes the instruction with e != v
  return v;
}

static Obj *newObj(uint64_t size, int kind, uint8_t fill) {
  Obj *o = new Obj;
  o->size = size; o->kind = kind;
  o->d.assign(size, fill);
  return o;
}
static PVec *region(uint64_t a, size_t *idx) {
  uint64_t r = a & R_MASK;
  *idx = (a & ~R_MASK) >> SLOT;
  if (r == R_GLOB) return &cur->glob;
  if (r == R_STACK) return &cur->stack;
  if (r == R_HEAP) return &cur->heap;
  return nullptr;
}
static std::string hex(uint64_t x) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)x); return b; }
static Obj *lookup(uint64_t a, uint64_t n, bool write, uint32_t *off) {
  if (a < 0x10000) { report("null-deref", "access of " + std::to_string(n) + " bytes at " + hex(a)); return nullptr; }
  size_t i;
  PVec *p = region(a, &i);
  Obj *o = p ? p->get(i) : nullptr;
  if (!o) { report("wild-access", "access of " + std::to_string(n) + " bytes at " + hex(a)); return nullptr; }
  int64_t of = (int64_t)(a & (SLOTSZ - 1)) - (int64_t)PADOFF;
  if (o->freed) { report("use-after-free", std::string(write ? "write" : "read") + " of freed block"); return nullptr; }
  if (of < 0 || of + n > o->size) {
    report(o->kind == K_HEAP ? "heap-overflow" : o->kind == K_STACK ? "stack-overflow" : "global-overflow",
           std::string(write ? "write" : "read") + " of " + std::to_string(n) + " at offset " + std::to_string(of) + " of " + std::to_string(o->size) + "-byte block");
    return nullptr;
  }
  if (write && o->ro) { report("readonly-write", "write to constant"); return nullptr; }
  *off = of;
  return o;
}
static Obj *wr(uint64_t a) { size_t i; PVec *p = region(a, &i); return p->write(i); }

static Val loadFrom(Obj *o, uint32_t off, unsigned n, unsigned w) {
  bool sym = false;
  if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym) {
    uint64_t v = 0;
    memcpy(&v, &o->d[off], n);
    return cv(v & maskw(w));
  }
  E r = o->s[off] ? o->s[off] : cx.cst(o->d[off], 8);
  for (unsigned i = 1; i < n; i++) r = cx.concat(o->s[off + i] ? o->s[off + i] : cx.cst(o->d[off + i], 8), r);
  if (r->w > w) r = cx.extract(r, 0, w);
  return norm(r);
}
static inline void putByte(Obj *o, uint32_t off, E b) {
  if (b->op == E_CONST) { o->d[off] = b->c; if (!o->s.empty()) o->s[off] = nullptr; }
  else { if (o->s.empty()) o->s.assign(o->size, nullptr); o->s[off] = b; }
}
static void storeTo(Obj *o, uint32_t off, unsigned n, unsigned w, const Val &v) {
  if (!v.e) {
    uint64_t x = v.v;
    memcpy(&o->d[off], &x, n);
    if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr;
    return;
  }
  E e = v.e;
  if (w < n * 8) e = cx.zext(e, n * 8);
  for (unsigned i = 0; i < n; i++) putByte(o, off + i, cx.extract(e, 8 * i, 8));
}
// returns false if the path ended or the instruction must be re-executed
static bool symLoad(E addr, unsigned n, unsigned w, Val &out) {
  uint64_t a0 = cx.eval(addr, cur->wit);
  uint32_t off;
  Obj *o = lookup(a0, n, false, &off);
  if (!o) return false;
  uint64_t base = a0 - off;
  E rel = cx.bin(E_SUB, addr, cx.cst(base, 64));
  E inside = cx.bin(E_ULE, rel, cx.cst(o->size - n, 64));
  State *oth;
  branch(inside, &oth);
  if (oth) work.push_back(oth);
  // cur is inside
  if (addr->var >= 0) {
    const uint64_t *t = cx.table(addr);
    Bits256 &d = cur->dom[addr->var];
    bool conc = o->s.empty();
    if (conc) {
      std::array<uint64_t, 256> l{};
      uint64_t defv = 0; bool first = true, same = true;
      for (int i = 0; i < 256; i++) if (d.get(i)) {
        uint64_t f = t[i] - base, v = 0;
        if (f > o->size - n) continue; // excluded through other constraints
        memcpy(&v, &o->d[f], n);
        v &= maskw(w);
        l[i] = v;
        if (first) { defv = v; first = false; } else if (v != defv) same = false;
      }
      if (same) { out = cv(defv); return true; }
      for (int i = 0; i < 256; i++) if (!d.get(i)) l[i] = defv;
      out = norm(cx.canon(cx.lut(addr->var, w, l)));
      return true;
    }
  }
  if (o->size <= 512) {
    // enumerate offsets by solver, bounded; build ite
    std::vector<uint64_t> offs;
    if (addr->var >= 0) {
      const uint64_t *t = cx.table(addr);
      std::set<uint64_t> u;
      for (int i = 0; i < 256; i++) if (cur->dom[addr->var].get(i) && t[i] - base <= o->size - n) u.insert(t[i] - base);
      offs.assign(u.begin(), u.end());
    } else for (uint64_t f = 0; f + n <= o->size; f++) offs.push_back(f);
    if (offs.size() <= 300) {
      E r = nullptr;
      for (auto it = offs.rbegin(); it != offs.rend(); ++it) {
        Val v = loadFrom(o, *it, n, w);
        E ve = toE(v, w);
        r = r ? cx.ite(cx.bin(E_EQ, rel, cx.cst(*it, 64)), ve, r) : ve;
      }
      out = norm(r);
      return true;
    }
  }
  uint64_t v = concretize(addr);
  o = lookup(v, n, false, &off);
  if (!o) return false;
  out = loadFrom(o, off, n, w);
  return true;
}

static uint64_t heapAlloc(uint64_t n, uint8_t fill) {
  Obj *o = newObj(n, K_HEAP, fill);
  o->site = curI()->src;
  cur->heap.push(o);
  cur->liveBytes += n;
  cur->liveBlocks++;
  return addrOf(R_HEAP, cur->heap.n - 1);
}
static bool heapFree(uint64_t a) {
  if (!a) return true;
  size_t i;
  PVec *p = region(a, &i);
  Obj *o = p ? p->get(i) : nullptr;
  if (!o || p != &cur->heap || (a & (SLOTSZ - 1)) != PADOFF) { report("bad-free", "free of a pointer that is not a heap block start"); return false; }
  if (o->freed) { report("double-free", "block freed twice"); return false; }
  cur->liveBytes -= o->size;
  cur->liveBlocks--;
  Obj *q = new Obj;
  q->size = o->size; q->kind = K_HEAP; q->freed = true; q->site = o->site;
  cur->heap.set(i, q);
  return true;
}
static uint64_t stackAlloc(uint64_t n) {
  Obj *o = newObj(n, K_STACK, 0xBE);
  cur->stack.push(o);
  return addrOf(R_STACK, cur->stack.n - 1);
}
// concrete C string helper: reads until NUL; returns false if symbolic or error
static bool cstr(uint64_t a, std::string &out) {
  size_t i;
  if (a < 0x10000) return false;
  PVec *p = region(a, &i);
  Obj *o = p ? p->get(i) : nullptr;
  if (!o || o->freed) return false;
  int64_t of = (int64_t)(a & (SLOTSZ - 1)) - (int64_t)PADOFF;
  if (of < 0) return false;
  for (; of < o->size; of++) {
    if (!o->s.empty() && o->s[of]) return false;
    if (!o->d[of]) return true;
    out += (char)o->d[of];
  }
  return false;
}
static std::string cstrOr(uint64_t a) { std::string s; cstr(a, s); return s; }

static inline Val get(Frame &f, const Opd &o) { return o.reg >= 0 ? f.r[o.reg] : o.c; }

static Val doBin(EOp op, unsigned w, const Val &a, const Val &b, unsigned kw) {
  if (!a.e && !b.e) return cv(Ctx::fold(op, w, a.v, b.v, kw));
  return norm(cx.bin(op, toE(a, kw), toE(b, kw)));
}
static Val doCmp(unsigned pred, const Val &a, const Val &b, unsigned kw) {
  switch (pred) {
  case CmpInst::ICMP_EQ: return doBin(E_EQ, 1, a, b, kw);
  case CmpInst::ICMP_NE: { Val x = doBin(E_EQ, 1, a, b, kw); return x.e ? norm(cx.notE(x.e)) : cv(!x.v); }
  case CmpInst::ICMP_ULT: return doBin(E_ULT, 1, a, b, kw);
  case CmpInst::ICMP_ULE: return doBin(E_ULE, 1, a, b, kw);
  case CmpInst::ICMP_UGT: return doBin(E_ULT, 1, b, a, kw);
  case CmpInst::ICMP_UGE: return doBin(E_ULE, 1, b, a, kw);
  case CmpInst::ICMP_SLT: return doBin(E_SLT, 1, a, b, kw);
  case CmpInst::ICMP_SLE: return doBin(E_SLE, 1, a, b, kw);
  case CmpInst::ICMP_SGT: return doBin(E_SLT, 1, b, a, kw);
  case CmpInst::ICMP_SGE: return doBin(E_SLE, 1, b, a, kw);
  }
  abort();
}
static void take(Frame &f, const Edge &e) {
  if (e.mv.size() == 1) { f.r[e.mv[0].dst] = get(f, e.mv[0].src); }
  else if (!e.mv.empty()) {
    static std::vector<Val> tmp;
    tmp.clear();
    for (auto &m : e.mv) tmp.push_back(get(f, m.src));
    for (size_t i = 0; i < tmp.size(); i++) f.r[e.mv[i].dst] = tmp[i];
  }
  f.pc = f.f->bb[e.target];
}
static bool finishPath() {
  // confirm with z3 that the whole path condition is satisfiable (independent of the domain shortcut)
  std::vector<E> cons = cur->multi;
  std::vector<std::pair<int, Bits256>> doms;
  std::set<int> vs;
  for (E e : cons) for (int v : cx.vsets[e->vs]) vs.insert(v);
  for (size_t i = 0; i < cur->dom.size(); i++) if (!cur->dom[i].full() || vs.count(i)) doms.push_back({(int)i, cur->dom[i]});
  if (!doms.empty()) {
    std::vector<std::pair<int, uint8_t>> m;
    int r = solver->check(cons, doms, m);
    nFinalChecks++;
    if (r == 0) { fprintf(stderr, "INTERNAL: infeasible path completed\n"); abort(); }
  }
  return true;
}
static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string insJson(const std::vector<std::pair<std::string, std::vector<uint8_t>>> &ins) {
  std::string r = "[";
  for (size_t i = 0; i < ins.size(); i++) {
    if (i) r += ",";
    r += "[" + jstr(ins[i].first) + ",\"";
    for (auto b : ins[i].second) { char t[4]; snprintf(t, sizeof t, "%02x", b); r += t; }
    r += "\"]";
  }
  return r + "]";
}
static void pathDone(bool normal) {
  if (!normal) return;
  nPaths++;
  finishPath();
  if (nPaths % sampleEvery == 0) {
    std::string r = "{\"ins\":";
    std::vector<std::pair<std::string, std::vector<uint8_t>>> ins;
    for (auto &s : cur->ins) {
      std::vector<uint8_t> b;
      for (int i = 0; i < s.n; i++) b.push_back(cur->wit[s.first + i]);
      ins.push_back({s.name, b});
    }
    r += insJson(ins) + ",\"obs\":[";
    bool first = true;
    for (auto &o : cur->obs) {
      uint64_t v = o.v.e ? cx.eval(o.v.e, cur->wit) : o.v.v;
      if (!first) r += ",";
      first = false;
      r += "\"" + hex(v & maskw(o.w)) + "\"";
    }
    r += "]}";
    samples.push_back(r);
    if (samples.size() >= nSamplesMax * 2) { // thin out
      std::vector<std::string> t;
      for (size_t i = 0; i < samples.size(); i += 2) t.push_back(samples[i]);
      samples.swap(t);
      sampleEvery *= 2;
    }
  }
}
static std::unordered_map<CFunc *, CFunc *> stubs;
static void pushFrame(CFunc *cf, Instr *ci, std::vector<Val> &args, size_t nfixed, const std::vector<uint64_t> &widths) {
  if (!stubs.empty()) { auto it = stubs.find(cf); if (it != stubs.end()) cf = it->second; }
  if (cur->fr.size() > 1500) { report("stack-exhaustion", "call depth over 1500 frames"); return; }
  cf->calls++;
  Frame f;
  f.f = cf;
  f.pc = 0;
  f.r.resize(cf->nregs);
  f.stackMark = cur->stack.n;
  f.callI = ci;
  size_t np = cf->f->arg_size();
  for (size_t i = 0; i < np && i < args.size(); i++) f.r[i] = args[i];
  for (auto &bvp : cf->byval) {
    uint64_t na = stackAlloc(bvp.second);
    uint32_t off;
    Obj *src = lookup(args[bvp.first].v, bvp.second, false, &off);
    if (!src) return;
    Obj *d = wr(na);
    for (unsigned i = 0; i < bvp.second; i++) storeTo(d, i, 1, 8, loadFrom(src, off + i, 1, 8));
    f.r[bvp.first] = cv(na);
  }
  if (cf->vararg) {
    size_t n = args.size() > np ? args.size() - np : 0;
    uint64_t a = stackAlloc(n * 8 + 8);
    Obj *o = wr(a);
    for (size_t i = 0; i < n; i++) {
      unsigned w = widths[np + i];
      Val v = args[np + i];
      if (v.e) v = norm(cx.zext(v.e, 64));
      (void)w;
      storeTo(o, i * 8, 8, 64, v);
    }
    f.vaAddr = a;
  }
  cur->fr.push_back(std::move(f));
}
static void setRet(Frame &f, Instr &I, Val v) { if (I.dst >= 0) f.r[I.dst] = v; f.pc++; }

static bool memCopy(uint64_t d, uint64_t s, uint64_t n) {
  if (n == 0) return true;
  uint32_t so, dof;
  Obj *os = lookup(s, n, false, &so);
  if (!os) return false;
  Obj *od = lookup(d, n, true, &dof);
  if (!od) return false;
  ObjRef keep(os);
  od = wr(d);
  if (od == os) {
    memmove(&od->d[dof], &od->d[so], n);
    if (!od->s.empty()) memmove(&od->s[dof], &od->s[so], n * sizeof(E));
  } else {
    memcpy(&od->d[dof], &os->d[so], n);
    bool ss = !os->s.empty();
    if (ss) {
      bool any = false;
      for (uint64_t i = 0; i < n; i++) if (os->s[so + i]) { any = true; break; }
      if (any && od->s.empty()) od->s.assign(od->size, nullptr);
      if (!od->s.empty()) memcpy(&od->s[dof], &os->s[so], n * sizeof(E));
    } else if (!od->s.empty()) for (uint64_t i = 0; i < n; i++) od->s[dof + i] = nullptr;
  }
  return true;
}

static bool concStr(uint64_t a, const uint8_t **p, uint64_t *n) { // concrete bytes up to NUL (inclusive)
  if (a < 0x10000) return false;
  size_t i;
  PVec *pv = region(a, &i);
  Obj *o = pv ? pv->get(i) : nullptr;
  if (!o || o->freed) return false;
  int64_t of = (int64_t)(a & (SLOTSZ - 1)) - (int64_t)PADOFF;
  if (of < 0 || of >= o->size) return false;
  const uint8_t *b = &o->d[of];
  const void *z = memchr(b, 0, o->size - of);
  if (!z) return false;
  uint64_t len = (const uint8_t *)z - b + 1;
  if (!o->s.empty()) {
    for (uint64_t k = 0; k < len; k++) if (o->s[of + k]) return false;
  }
  *p = b;
  *n = len;
  return true;
}

static void doCall(Frame &f, Instr &I);

static void step() {
  Frame &f = cur->fr.back();
  Instr &I = f.f->code[f.pc];
  I.hits++;
  switch (I.op) {
  case I_BIN: {
    Val a = get(f, I.o[0]), b = get(f, I.o[1]);
    if (I.sub == E_UDIV || I.sub == E_SDIV || I.sub == E_UREM || I.sub == E_SREM) {
      if (!b.e) { if (b.v == 0) { report("div-by-zero", "division by zero"); return; } }
      else {
        E z = cx.bin(E_EQ, b.e, cx.cst(0, I.w));
        State *o;
        int r = branch(z, &o);
        if (o) work.push_back(o);
        if (r) { report("div-by-zero", "division by zero"); return; }
      }
    }
    f.r[I.dst] = doBin((EOp)I.sub, I.w, a, b, I.w);
    f.pc++;
    return;
  }
  case I_ICMP: f.r[I.dst] = doCmp(I.sub, get(f, I.o[0]), get(f, I.o[1]), I.w2); f.pc++; return;
  case I_BR: take(f, I.e[0]); return;
  case I_CBR: {
    Val c = get(f, I.o[0]);
    if (!c.e) { take(f, I.e[c.v ? 0 : 1]); return; }
    State *o;
    int r = branch(c.e, &o);
    if (o) {
      take(o->fr.back(), I.e[r ? 1 : 0]);
      if (rnd()) { take(f, I.e[r ? 0 : 1]); work.push_back(cur); cur = o; return; }
      work.push_back(o);
    }
    take(f, I.e[r ? 0 : 1]);
    return;
  }
  case I_SWITCH: {
    Val c = get(f, I.o[0]);
    if (!c.e) {
      for (size_t i = 0; i < I.aux.size(); i++) if (I.aux[i] == c.v) { take(f, I.e[i + 1]); return; }
      take(f, I.e[0]);
      return;
    }
    // group by target
    std::map<int, E> g;
    E any = cx.F;
    std::map<int, size_t> first;
    for (size_t i = 0; i < I.aux.size(); i++) {
      E q = cx.bin(E_EQ, c.e, cx.cst(I.aux[i], I.w2));
      any = cx.orE(any, q);
      int key = I.e[i + 1].mv.empty() ? I.e[i + 1].target : 100000 + (int)i;
      auto it = g.find(key);
      if (it == g.end()) { g[key] = q; first[key] = i + 1; }
      else it->second = cx.orE(it->second, q);
    }
    for (auto &p : g) {
      State *o;
      int r = branch(p.second, &o);
      if (r) {
        // current takes this edge; the rest continues in o re-executing the switch
        if (o) work.push_back(o);
        take(cur->fr.back(), I.e[first[p.first]]);
        return;
      }
      if (o) { take(o->fr.back(), I.e[first[p.first]]); work.push_back(o); }
    }
    take(cur->fr.back(), I.e[0]);
    return;
  }
  case I_RET: {
    Val v;
    if (!I.o.empty()) v = get(f, I.o[0]);
    cur->stack.trunc(f.stackMark);
    Instr *ci = f.callI;
    cur->fr.pop_back();
    if (cur->fr.empty()) return;
    Frame &c = cur->fr.back();
    if (ci && ci->dst >= 0) c.r[ci->dst] = v;
    c.pc++;
    return;
  }
  case I_LOAD: {
    Val a = get(f, I.o[0]);
    Val out;
    if (!I.w) { inconclusive("aggregate load"); return; }
    if (a.e) { if (!symLoad(a.e, I.w2, I.w, out)) return; }
    else {
      uint32_t off;
      Obj *o = lookup(a.v, I.w2, false, &off);
      if (!o) return;
      out = loadFrom(o, off, I.w2, I.w);
    }
    Frame &f2 = cur->fr.back();
    f2.r[I.dst] = out;
    f2.pc++;
    return;
  }
  case I_STORE: {
    Val v = get(f, I.o[0]), a = get(f, I.o[1]);
    if (isAgg(v)) { inconclusive("aggregate store"); return; }
    uint64_t ad = a.e ? concretize(a.e) : a.v;
    uint32_t off;
    Obj *o = lookup(ad, I.w2, true, &off);
    if (!o) return;
    storeTo(wr(ad), off, I.w2, I.w, v);
    f.pc++;
    return;
  }
  case I_GEP: {
    Val b = get(f, I.o[0]);
    uint64_t off = I.aux[0];
    E se = nullptr;
    for (size_t i = 1; i < I.o.size(); i++) {
      Val x = get(f, I.o[i]);
      uint64_t sc = I.aux[1 + (i - 1) * 2];
      unsigned w = I.aux[2 + (i - 1) * 2];
      if (!x.e) off += (uint64_t)sxt(x.v, w) * sc;
      else {
        E t = cx.bin(E_MUL, cx.sext(x.e, 64), cx.cst(sc, 64));
        se = se ? cx.bin(E_ADD, se, t) : t;
      }
    }
    if (!b.e && !se) f.r[I.dst] = cv(b.v + off);
    else {
      E r = toE(b, 64);
      if (se) r = cx.bin(E_ADD, r, se);
      f.r[I.dst] = norm(cx.bin(E_ADD, r, cx.cst(off, 64)));
    }
    f.pc++;
    return;
  }
  case I_ALLOCA: {
    Val n = get(f, I.o[0]);
    uint64_t c = n.e ? concretize(n.e) : n.v;
    f.r[I.dst] = cv(stackAlloc(c * I.aux[0]));
    f.pc++;
    return;
  }
  case I_SELECT: {
    Val c = get(f, I.o[0]), a = get(f, I.o[1]), b = get(f, I.o[2]);
    if (!c.e) { f.r[I.dst] = c.v ? a : b; f.pc++; return; }
    if (isAgg(a) || isAgg(b) || I.ptr) {
      if (!isAgg(a) && !isAgg(b) && !a.e && !b.e && a.v == b.v) { f.r[I.dst] = a; f.pc++; return; }
      State *o;
      int r = branch(c.e, &o);
      if (o) { Frame &of = o->fr.back(); of.r[I.dst] = r ? b : a; of.pc++; work.push_back(o); }
      f.r[I.dst] = r ? a : b;
      f.pc++;
      return;
    }
    f.r[I.dst] = norm(pathIte(c.e, toE(a, I.w), toE(b, I.w)));
    f.pc++;
    return;
  }
  case I_ZEXT: { Val a = get(f, I.o[0]); f.r[I.dst] = a.e ? norm(cx.zext(a.e, I.w)) : a; f.pc++; return; }
  case I_SEXT: { Val a = get(f, I.o[0]); f.r[I.dst] = a.e ? norm(cx.sext(a.e, I.w)) : cv((uint64_t)sxt(a.v, I.w2) & maskw(I.w)); f.pc++; return; }
  case I_TRUNC: { Val a = get(f, I.o[0]); f.r[I.dst] = a.e ? norm(cx.extract(a.e, 0, I.w)) : cv(a.v & maskw(I.w)); f.pc++; return; }
  case I_COPY: f.r[I.dst] = get(f, I.o[0]); f.pc++; return;
  case I_EXTRACTV: {
    Val a = get(f, I.o[0]);
    for (auto i : I.aux) { if (!isAgg(a)) { inconclusive("extractvalue"); return; } a = aggs[a.v][i]; }
    f.r[I.dst] = a;
    f.pc++;
    return;
  }
  case I_INSERTV: {
    Val a = get(f, I.o[0]), b = get(f, I.o[1]);
    if (!isAgg(a) || I.aux.size() != 1) { inconclusive("insertvalue"); return; }
    std::vector<Val> fl = aggs[a.v];
    fl[I.aux[0]] = b;
    f.r[I.dst] = mkAgg(fl);
    f.pc++;
    return;
  }
  case I_UNREACHABLE: report("unreachable", "reached unreachable code"); return;
  case I_CALL: doCall(f, I); return;
  default: {
    std::string s;
    raw_string_ostream os(s);
    os << *I.src;
    inconclusive("unsupported instruction " + os.str());
    return;
  }
  }
}

static void doCall(Frame &f, Instr &I) {
  size_t na = I.aux.size();
  if (!I.callee) {
    Val t = get(f, I.o[na]);
    uint64_t a = t.e ? concretize(t.e) : t.v;
    if ((a & R_FUNC) != R_FUNC || a >= R_GLOB || ((a - R_FUNC) >> 4) >= funcs.size()) { report("bad-call", "call through bad function pointer " + hex(a)); return; }
    Function *fn = funcs[(a - R_FUNC) >> 4];
    int in = intrOf(fn);
    if (in == N_UNKNOWN) { inconclusive("unmodelled external " + fn->getName().str()); return; }
    if (in == N_NONE) {
      std::vector<Val> av;
      for (size_t i = 0; i < na; i++) av.push_back(get(f, I.o[i]));
      pushFrame(compile(fn), &I, av, 0, I.aux);
      return;
    }
    // an intrinsic called through a pointer: as a direct call of it (the copy stays: frames point to their call)
    static std::map<std::pair<Instr *, Function *>, Instr *> direct;
    Instr *&D = direct[{&I, fn}];
    if (!D) { D = new Instr(I); D->callee = fn; D->intr = in; D->cf = nullptr; }
    doCall(f, *D);
    return;
  }
  if (I.intr == N_NONE) {
    if (!I.cf) I.cf = compile(I.callee);
    std::vector<Val> av;
    av.reserve(na);
    for (size_t i = 0; i < na; i++) av.push_back(get(f, I.o[i]));
    pushFrame(I.cf, &I, av, 0, I.aux);
    return;
  }
  auto A = [&](int i) { return get(f, I.o[i]); };
  auto modelCall = [&]() { // fall back to the C model of the same name, "m_<name>"
    if (!I.cf) {
      Function *m = mod->getFunction("m_" + I.callee->getName().str());
      if (!m) { inconclusive("no model for " + I.callee->getName().str()); return; }
      I.cf = compile(m);
    }
    std::vector<Val> av;
    for (size_t i = 0; i < na; i++) av.push_back(get(f, I.o[i]));
    pushFrame(I.cf, &I, av, 0, I.aux);
  };
  switch (I.intr) {
  case N_UNKNOWN: inconclusive("unmodelled external " + I.callee->getName().str()); return;
  case N_NOP: f.pc++; return;
  case N_MALLOC: case N_CALLOC: {
    Val n = A(0);
    uint64_t sz;
    if (I.intr == N_CALLOC) {
      Val k = A(1);
      uint64_t n0 = n.e ? concretize(n.e) : n.v, k0 = k.e ? concretize(k.e) : k.v;
      if (k0 && n0 > (1ull << 40) / k0) sz = ~0ull; else sz = n0 * k0;
    } else sz = n.e ? concretize(n.e) : n.v;
    if (sz > 15000000) { setRet(f, I, cv(0)); return; }
    setRet(f, I, cv(heapAlloc(sz, I.intr == N_CALLOC ? 0 : 0xBE)));
    return;
  }
  case N_REALLOC: {
    Val p = A(0), n = A(1);
    uint64_t pv = p.e ? concretize(p.e) : p.v;
    uint64_t sz = n.e ? concretize(n.e) : n.v;
    if (sz > 15000000) { setRet(f, I, cv(0)); return; }
    if (pv) {
      size_t i;
      PVec *rg = region(pv, &i);
      Obj *o = rg ? rg->get(i) : nullptr;
      if (!o || rg != &cur->heap || (pv & (SLOTSZ - 1)) != PADOFF) { report("bad-free", "realloc of a pointer that is not a heap block start"); return; }
      if (o->freed) { report("double-free", "realloc of freed block"); return; }
      if (sz == 0) { heapFree(pv); setRet(f, I, cv(0)); return; }
      uint64_t na2 = heapAlloc(sz, 0xBE);
      o = cur->heap.get(i);
      if (!memCopy(na2, pv, std::min<uint64_t>(sz, o->size))) return;
      heapFree(pv);
      setRet(f, I, cv(na2));
      return;
    }
    setRet(f, I, cv(heapAlloc(sz, 0xBE)));
    return;
  }
  case N_FREE: {
    Val p = A(0);
    uint64_t pv = p.e ? concretize(p.e) : p.v;
    if (!heapFree(pv)) return;
    f.pc++;
    return;
  }
  case N_MEMCPY: {
    Val d = A(0), s = A(1), n = A(2);
    uint64_t nv = n.e ? concretize(n.e) : n.v;
    uint64_t dv = d.e ? concretize(d.e) : d.v;
    uint64_t sv = s.e ? concretize(s.e) : s.v;
    if (!memCopy(dv, sv, nv)) return;
    setRet(f, I, cv(dv));
    return;
  }
  case N_MEMSET: {
    Val d = A(0), c = A(1), n = A(2);
    uint64_t nv = n.e ? concretize(n.e) : n.v;
    uint64_t dv = d.e ? concretize(d.e) : d.v;
    if (nv) {
      uint32_t off;
      Obj *o = lookup(dv, nv, true, &off);
      if (!o) return;
      o = wr(dv);
      if (!c.e) {
        memset(&o->d[off], c.v & 0xff, nv);
        if (!o->s.empty()) for (uint64_t i = 0; i < nv; i++) o->s[off + i] = nullptr;
      } else { E b = cx.extract(c.e, 0, 8); for (uint64_t i = 0; i < nv; i++) putByte(o, off + i, b); }
    }
    setRet(f, I, cv(dv));
    return;
  }
  case N_STRLEN: {
    Val a = A(0);
    const uint8_t *p; uint64_t n;
    if (!a.e && concStr(a.v, &p, &n)) { setRet(f, I, cv(n - 1)); return; }
    modelCall();
    return;
  }
  case N_STRCHR: {
    Val a = A(0), c = A(1);
    const uint8_t *p; uint64_t n;
    if (!a.e && !c.e && concStr(a.v, &p, &n)) { const void *z = memchr(p, c.v & 0xff, n); setRet(f, I, cv(z ? a.v + ((const uint8_t *)z - p) : 0)); return; }
    modelCall();
    return;
  }
  case N_STRCMP: case N_STRNCMP: {
    Val a = A(0), b = A(1), l = I.intr == N_STRNCMP ? A(2) : cv(~0ull);
    const uint8_t *p, *q; uint64_t n, m;
    if (!a.e && !b.e && !l.e && concStr(a.v, &p, &n) && concStr(b.v, &q, &m)) {
      int r = 0;
      for (uint64_t i = 0; i < l.v; i++) { if (p[i] != q[i]) { r = (int)p[i] - (int)q[i]; break; } if (!p[i]) break; }
      setRet(f, I, cv((uint32_t)r));
      return;
    }
    modelCall();
    return;
  }
  case N_MEMCMP: modelCall(); return;
  case N_VASTART: {
    uint64_t ap = A(0).v;
    uint32_t off;
    Obj *o = lookup(ap, 24, true, &off);
    if (!o) return;
    o = wr(ap);
    storeTo(o, off, 4, 32, cv(48));
    storeTo(o, off + 4, 4, 32, cv(304));
    storeTo(o, off + 8, 8, 64, cv(f.vaAddr));
    storeTo(o, off + 16, 8, 64, cv(0));
    f.pc++;
    return;
  }
  case N_VACOPY: if (!memCopy(A(0).v, A(1).v, 24)) return; f.pc++; return;
  case N_ABORT: report("abort", "abort() called"); return;
  case N_TRAP: report("trap", "trap"); return;
  case N_EXIT: report("exit", "exit() called"); return;
  case N_ASSERTFAIL: report("assertion", "assert(" + cstrOr(A(0).v) + ") failed"); return;
  case N_SYMBYTES: { // void sym_bytes(void *p, size_t n, const char *name)
    uint64_t p = A(0).v, n = A(1).v;
    if (n) {
      uint32_t off;
      Obj *o = lookup(p, n, true, &off);
      if (!o) return;
      o = wr(p);
      SymIn si{cstrOr(A(2).v), (int)cur->dom.size(), (int)n};
      for (uint64_t i = 0; i < n; i++) {
        int vi = cur->dom.size();
        while ((int)cx.vars.size() <= vi) cx.newVar();
        Bits256 full;
        cur->dom.push_back(~full);
        cur->wit.push_back(0);
        cur->inMulti.push_back(0);
        putByte(o, off + i, cx.vars[vi]);
      }
      cur->ins.push_back(si);
    }
    f.pc++;
    return;
  }
  case N_SYMASSUME: {
    Val c = A(0);
    E e;
    if (!c.e) { if (!c.v) { killed = true; nAssumeKilled++; return; } f.pc++; return; }
    e = cx.notE(cx.bin(E_EQ, c.e, cx.cst(0, c.e->w)));
    if (!assume(*cur, e)) { killed = true; nAssumeKilled++; return; }
    f.pc++;
    return;
  }
  case N_SYMASSERT: { // sym_assert_(int cond, const char *msg)
    Val c = A(0);
    cur->asserts++;
    std::string m = cstrOr(A(1).v);
    assertLocs[m]++;
    if (!c.e) {
      nAssertsConc++;
      if (!c.v) { report("assert", m); return; }
      f.pc++;
      return;
    }
    E bad = cx.bin(E_EQ, c.e, cx.cst(0, c.e->w));
    nAssertsSym++;
    if (bad->op == E_CONST) { if (bad->c) { report("assert", m); return; } f.pc++; return; }
    std::vector<std::pair<int, uint8_t>> md;
    int r = feasible(*cur, bad, md, true);
    if (r < 0) { inconclusive("solver unknown on assertion " + m); return; }
    if (r == 1) {
      // report with the counterexample, then continue on the satisfying side
      State *keep = new State(*cur);
      applyModel(*cur, md);
      report("assert", m);
      State *dead = cur;
      cur = keep;
      delete dead;
      killed = false;
      if (!assume(*cur, cx.notE(bad))) { killed = true; return; }
      cur->fr.back().pc++;
      return;
    }
    addCons(*cur, cx.notE(bad));
    f.pc++;
    return;
  }
  case N_SYMREACH: reach[cstrOr(A(0).v)]++; f.pc++; return;
  case N_SYMOBS: cur->obs.push_back({A(0), 64}); f.pc++; return;
  case N_SYMOBSMEM: {
    uint64_t p = A(0).v;
    Val nv = A(1);
    uint64_t n = nv.e ? concretize(nv.e) : nv.v;
    if (n) {
      uint32_t off;
      Obj *o = lookup(p, n, false, &off);
      if (!o) return;
      for (uint64_t i = 0; i < n; i++) cur->obs.push_back({loadFrom(o, off + i, 1, 8), 8});
    }
    f.pc++;
    return;
  }
  case N_SYMARG: { // long sym_arg(const char *name, long def)
    std::string k = cstrOr(A(0).v);
    auto it = args.find(k);
    setRet(f, I, it == args.end() ? A(1) : cv(strtoll(it->second.c_str(), 0, 0)));
    return;
  }
  case N_SYMLIVE: setRet(f, I, cv(cur->liveBytes)); return;
  case N_SYMLIVEN: setRet(f, I, cv(cur->liveBlocks)); return;
  case N_SYMFORK: { Val v = A(0); setRet(f, I, v.e ? cv(concretize(v.e)) : v); return; }
  case N_SYMISSYM: setRet(f, I, cv(A(0).e != nullptr)); return;
  case N_SYMDONE: cur->fr.clear(); return;
  case N_SYMFAIL: inconclusive("unmodelled: " + cstrOr(A(0).v)); return;
  case N_SYMSAME: { // syntactically the same term (hash-consed)
    Val a = A(0), b = A(1);
    setRet(f, I, cv(a.e == b.e && (a.e || a.v == b.v)));
    return;
  }
  case N_SYMBOOLAND: { // non-branching conjunction
    Val a = A(0), b = A(1);
    E ea = cx.notE(cx.bin(E_EQ, toE(a, 32), cx.cst(0, 32))), eb = cx.notE(cx.bin(E_EQ, toE(b, 32), cx.cst(0, 32)));
    setRet(f, I, norm(cx.zext(cx.andE(ea, eb), 32)));
    return;
  }
  case N_SYMSTUB: { // from now on calls of the first function go to the second (same for every path)
    Function *a = mod->getFunction(cstrOr(A(0).v)), *b = mod->getFunction(cstrOr(A(1).v));
    if (a && b && !a->isDeclaration()) stubs[compile(a)] = compile(b);
    f.pc++;
    return;
  }
  case N_SYMPRINT: {
    Val v = A(1);
    std::string nm = cstrOr(A(0).v);
    if (v.e) fprintf(stderr, "PRINT %s: sym id %u w %d (wit %llx) %s\n", nm.c_str(), v.e->id, v.e->w, (unsigned long long)cx.eval(v.e, cur->wit), dumpE(v.e).c_str());
    else fprintf(stderr, "PRINT %s: %lld 0x%llx '%s'\n", nm.c_str(), (long long)v.v, (unsigned long long)v.v, cstrOr(v.v).c_str());
    f.pc++;
    return;
  }
  case N_UMAX: case N_UMIN: case N_SMAX: case N_SMIN: {
    Val a = A(0), b = A(1);
    unsigned w = I.w;
    bool sg = I.intr == N_SMAX || I.intr == N_SMIN, mx = I.intr == N_UMAX || I.intr == N_SMAX;
    Val lt = doBin(sg ? E_SLT : E_ULT, 1, a, b, w);
    if (!lt.e) setRet(f, I, (lt.v != 0) == mx ? b : a);
    else setRet(f, I, norm(pathIte(lt.e, toE(mx ? b : a, w), toE(mx ? a : b, w))));
    return;
  }
  case N_ABS: {
    Val a = A(0);
    unsigned w = I.w;
    Val neg = doBin(E_SUB, w, cv(0), a, w), lt = doBin(E_SLT, 1, a, cv(0), w);
    if (!lt.e) setRet(f, I, lt.v ? neg : a);
    else setRet(f, I, norm(pathIte(lt.e, toE(neg, w), toE(a, w))));
    return;
  }
  case N_BSWAP: {
    Val a = A(0);
    unsigned w = I.w;
    if (!a.e) { uint64_t r = 0; for (unsigned i = 0; i < w; i += 8) r = (r << 8) | ((a.v >> i) & 0xff); setRet(f, I, cv(r)); return; }
    E r = cx.extract(a.e, 0, 8);
    for (unsigned i = 8; i < w; i += 8) r = cx.concat(r, cx.extract(a.e, i, 8));
    setRet(f, I, norm(r));
    return;
  }
  case N_BITREV: {
    Val a = A(0);
    unsigned w = I.w;
    if (!a.e) { uint64_t r = 0; for (unsigned i = 0; i < w; i++) r = (r << 1) | ((a.v >> i) & 1); setRet(f, I, cv(r)); return; }
    E r = cx.extract(a.e, 0, 1);
    for (unsigned i = 1; i < w; i++) r = cx.concat(r, cx.extract(a.e, i, 1));
    setRet(f, I, norm(r));
    return;
  }
  case N_SADDSAT: case N_SSUBSAT: {
    Val a = A(0), b = A(1);
    unsigned w = I.w;
    uint64_t mx = maskw(w) >> 1, mn = mx + 1;
    Val r = doBin(I.intr == N_SADDSAT ? E_ADD : E_SUB, w, a, b, w);
    Val neg = doBin(E_SLT, 1, a, cv(0), w);
    /* overflow: the sign of a equals (add) or differs from (sub) that of b and differs from that of the result */
    Val x1 = doBin(E_XOR, w, a, r, w), x2 = I.intr == N_SADDSAT ? doBin(E_XOR, w, b, r, w) : doBin(E_XOR, w, a, b, w);
    Val ov = doBin(E_SLT, 1, doBin(E_AND, w, x1, x2, w), cv(0), w);
    Val sat = neg.e ? norm(pathIte(neg.e, cx.cst(mn, w), cx.cst(mx, w))) : cv(neg.v ? mn : mx);
    setRet(f, I, ov.e ? norm(pathIte(ov.e, toE(sat, w), toE(r, w))) : ov.v ? sat : r);
    return;
  }
  case N_FSHL: case N_FSHR: {
    Val a = A(0), b = A(1), s = A(2);
    unsigned w = I.w;
    if (s.e) {
      Val k = doBin(E_UREM, w, s, cv(w), w), back = doBin(E_SUB, w, cv(w - 1), k, w), hi, lo;
      if (I.intr == N_FSHL) { hi = doBin(E_SHL, w, a, k, w); lo = doBin(E_LSHR, w, doBin(E_LSHR, w, b, cv(1), w), back, w); }
      else { lo = doBin(E_LSHR, w, b, k, w); hi = doBin(E_SHL, w, doBin(E_SHL, w, a, cv(1), w), back, w); }
      setRet(f, I, doBin(E_OR, w, hi, lo, w));
      return;
    }
    unsigned k = s.v % w;
    if (I.intr == N_FSHR) k = (w - k) % w;
    if (k == 0) { setRet(f, I, I.intr == N_FSHL ? a : (s.v % w == 0 ? b : a)); return; }
    Val hi = doBin(E_SHL, w, a, cv(k), w), lo = doBin(E_LSHR, w, b, cv(w - k), w);
    setRet(f, I, doBin(E_OR, w, hi, lo, w));
    return;
  }
  case N_USUBSAT: case N_UADDSAT: {
    Val a = A(0), b = A(1);
    unsigned w = I.w;
    if (I.intr == N_USUBSAT) {
      Val lt = doBin(E_ULT, 1, a, b, w), r = doBin(E_SUB, w, a, b, w);
      setRet(f, I, lt.e ? norm(pathIte(lt.e, cx.cst(0, w), toE(r, w))) : lt.v ? cv(0) : r);
    } else {
      Val r = doBin(E_ADD, w, a, b, w), lt = doBin(E_ULT, 1, r, a, w);
      setRet(f, I, lt.e ? norm(pathIte(lt.e, cx.cst(~0ull, w), toE(r, w))) : lt.v ? cv(maskw(w)) : r);
    }
    return;
  }
  case N_UADDO: case N_USUBO: case N_UMULO: case N_SADDO: case N_SSUBO: case N_SMULO: {
    Val a = A(0), b = A(1);
    unsigned w = I.aux[0];
    EOp op = (I.intr == N_UADDO || I.intr == N_SADDO) ? E_ADD : (I.intr == N_USUBO || I.intr == N_SSUBO) ? E_SUB : E_MUL;
    Val r = doBin(op, w, a, b, w), ov;
    if (I.intr == N_UADDO) ov = doBin(E_ULT, 1, r, a, w);
    else if (I.intr == N_USUBO) ov = doBin(E_ULT, 1, a, b, w);
    else if (w <= 32) {
      bool sg = I.intr != N_UMULO;
      auto ext = [&](Val x) { return x.e ? norm(sg ? cx.sext(x.e, 64) : cx.zext(x.e, 64)) : cv(sg ? (uint64_t)sxt(x.v, w) : x.v); };
      Val wide = doBin(op, 64, ext(a), ext(b), 64);
      Val back = ext(r);
      ov = doCmp(CmpInst::ICMP_NE, wide, back, 64);
    } else if (I.intr == N_SADDO || I.intr == N_SSUBO) {
      Val z = cv(0);
      Val blt = doBin(E_SLT, 1, b, z, w);
      Val c1 = I.intr == N_SADDO ? doBin(E_SLT, 1, r, a, w) : doBin(E_SLT, 1, a, r, w);
      ov = doBin(E_XOR, 1, blt, c1, 1);
    } else if (!a.e && !b.e) {
      __int128 p = I.intr == N_UMULO ? (__int128)((unsigned __int128)a.v * b.v) : (__int128)sxt(a.v, w) * sxt(b.v, w);
      ov = cv(I.intr == N_UMULO ? (unsigned __int128)p > maskw(w) : p != (__int128)sxt(r.v, w));
    } else { inconclusive("symbolic 64-bit mul overflow"); return; }
    setRet(f, I, mkAgg({r, ov}));
    return;
  }
  case N_CTPOP: case N_CTLZ: case N_CTTZ: {
    Val a = A(0);
    uint64_t v = a.e ? concretize(a.e) : a.v;
    unsigned w = I.w;
    uint64_t r = I.intr == N_CTPOP ? __builtin_popcountll(v) : v == 0 ? w : I.intr == N_CTLZ ? __builtin_clzll(v) - (64 - w) : __builtin_ctzll(v);
    setRet(f, I, cv(r));
    return;
  }
  case N_RETARG0: setRet(f, I, A(0)); return;
  case N_OBJSIZE: setRet(f, I, cv(~0ull)); return;
  case N_STACKSAVE: setRet(f, I, cv(0)); return;
  default: inconclusive("intrinsic " + I.callee->getName().str());
  }
}

static void run(State *s0) {
  work.push_back(s0);
  while (!work.empty()) {
    if (errors.size() >= maxErrors) break;
    double el = nowS() - tStart;
    if (el > maxTime || nPaths >= maxPaths) break;
    struct rusage ru;
    if ((nDone & 63) == 0) { getrusage(RUSAGE_SELF, &ru); if (ru.ru_maxrss > 3500000) { inconcl["memory limit"]++; break; } }
    cur = work.back();
    work.pop_back();
    killed = false;
    while (!killed && !cur->fr.empty()) {
      cur->ninstr++;
      nInstr++;
      if (cur->ninstr > maxInstr) { report("hang", "path executed more than " + std::to_string(maxInstr) + " instructions"); break; }
      if ((nInstr & 0xfffff) == 0 && nowS() - tStart > maxTime + 5) { inconcl["time limit inside a path"]++; killed = true; break; }
      step();
    }
    nDone++;
    if (!killed) pathDone(true);
    delete cur;
    cur = nullptr;
  }
}

struct Main { int argc; char **argv; };
static int realMain(int argc, char **argv) {
  std::string out;
  uint64_t seed = 1;
  unsigned qto = 20000;
  for (int i = 3; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--out") out = nx();
    else if (a == "--max-time") maxTime = atof(nx().c_str());
    else if (a == "--max-paths") maxPaths = atoll(nx().c_str());
    else if (a == "--max-instr") maxInstr = atoll(nx().c_str());
    else if (a == "--max-errors") maxErrors = atoll(nx().c_str());
    else if (a == "--query-timeout") qto = atoi(nx().c_str());
    else if (a == "--samples") nSamplesMax = atoi(nx().c_str());
    else if (a == "--seed") seed = atoll(nx().c_str());
    else if (a == "--arg") { std::string kv = nx(); auto p = kv.find('='); args[kv.substr(0, p)] = kv.substr(p + 1); }
    else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; }
  }
  rngs = seed * 2654435761u + 1;
  LLVMContext lc;
  SMDiagnostic diag;
  auto m = parseIRFile(argv[1], diag, lc);
  if (!m) { diag.print("symex", errs()); return 2; }
  mod = m.get();
  DL = &mod->getDataLayout();
  solver = new Solver(cx, qto, seed);
  tStart = nowS();
  State *s = new State;
  cur = s;
  // addresses
  size_t gi = 0;
  for (auto &f : *mod) { gaddr[&f] = R_FUNC + (funcs.size() << 4); funcs.push_back(&f); }
  std::vector<GlobalVariable *> gvs;
  for (auto &g : mod->globals()) { gaddr[&g] = addrOf(R_GLOB, gi++); gvs.push_back(&g); }
  for (auto *g : gvs) {
    uint64_t sz = DL->getTypeAllocSize(g->getValueType());
    Obj *o = newObj(sz, K_GLOBAL, 0);
    if (g->hasInitializer()) initBytes(o->d, 0, g->getInitializer());
    else if (!g->getName().starts_with("llvm.")) { o->d.assign(sz, 0); }
    o->ro = g->isConstant();
    s->glob.push(o);
  }
  Function *ef = mod->getFunction(argv[2]);
  if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", argv[2]); return 2; }
  CFunc *cf = compile(ef);
  Frame f;
  f.f = cf;
  f.pc = 0;
  f.r.resize(cf->nregs);
  f.stackMark = 0;
  s->fr.push_back(f);
  run(s);
  bool complete = work.empty() && inconcl.empty() && errors.size() < maxErrors;
  uint64_t pending = work.size();
  std::string o = "{";
  auto kv = [&](const char *k, uint64_t v) { o += std::string("\"") + k + "\":" + std::to_string(v) + ","; };
  kv("paths", nPaths); kv("error_paths", nErrPaths); kv("forks", nForks); kv("instructions", nInstr); kv("pending", pending);
  kv("asserts_symbolic", nAssertsSym); kv("asserts_concrete", nAssertsConc); kv("domain_decided", nDomDecided); kv("assume_killed", nAssumeKilled);
  kv("z3_queries", solver->queries); kv("z3_sat", solver->sat); kv("z3_unsat", solver->unsat); kv("z3_unknown", solver->unknown); kv("z3_cache_hits", solver->cacheHits);
  kv("final_path_checks", nFinalChecks); kv("expressions", cx.arena.size());
  o += "\"solver_s\":" + std::to_string(solver->time) + ",\"max_query_s\":" + std::to_string(solver->maxq) + ",\"wall_s\":" + std::to_string(nowS() - tStart) + ",";
  o += std::string("\"complete\":") + (complete ? "true" : "false") + ",";
  o += "\"reach\":{";
  bool fi = true;
  for (auto &p : reach) { if (!fi) o += ","; fi = false; o += jstr(p.first) + ":" + std::to_string(p.second); }
  o += "},\"asserts\":{";
  fi = true;
  for (auto &p : assertLocs) { if (!fi) o += ","; fi = false; o += jstr(p.first) + ":" + std::to_string(p.second); }
  o += "},\"inconclusive\":{";
  fi = true;
  for (auto &p : inconcl) { if (!fi) o += ","; fi = false; o += jstr(p.first) + ":" + std::to_string(p.second); }
  o += "},\"functions\":[";
  fi = true;
  std::vector<std::string> fn;
  for (auto &p : cfuncs) if (p.second->calls) fn.push_back(p.first->getName().str());
  std::sort(fn.begin(), fn.end());
  for (auto &n : fn) { if (!fi) o += ","; fi = false; o += jstr(n); }
  o += "],\"errors\":[";
  fi = true;
  for (auto &e : errors) {
    if (!fi) o += ",";
    fi = false;
    o += "{\"kind\":" + jstr(e.kind) + ",\"msg\":" + jstr(e.msg) + ",\"loc\":" + jstr(e.loc) + ",\"stack\":[";
    for (size_t i = 0; i < e.stack.size() && i < 12; i++) { if (i) o += ","; o += jstr(e.stack[i]); }
    o += "],\"ins\":" + insJson(e.ins) + "}";
  }
  o += "],\"samples\":[";
  for (size_t i = 0; i < samples.size(); i++) { if (i) o += ","; o += samples[i]; }
  o += "]}\n";
  if (out.empty()) fputs(o.c_str(), stdout);
  else { FILE *fo = fopen(out.c_str(), "w"); fputs(o.c_str(), fo); fclose(fo); }
  if (getenv("SYMEX_COV")) {
    std::map<std::string, std::map<unsigned, uint64_t>> cov;
    for (auto &p : cfuncs) for (auto &I : p.second->code) if (auto &dl = I.src->getDebugLoc()) cov[dl->getFilename().str()][dl.getLine()] += I.hits;
    FILE *fo = fopen(getenv("SYMEX_COV"), "w");
    for (auto &a : cov) for (auto &b : a.second) fprintf(fo, "%s:%u %llu\n", a.first.c_str(), b.first, (unsigned long long)b.second);
    fclose(fo);
  }
  fflush(stdout);
  _exit(0);
}
static void *thr(void *p) { Main *m = (Main *)p; realMain(m->argc, m->argv); _exit(2); }
int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: symex module.bc entry [options]\n"); return 2; }
  Main mm{argc, argv};
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1ull << 30);
  pthread_t t;
  pthread_create(&t, &at, thr, &mm);
  pthread_join(t, 0);
  return 2;
}
