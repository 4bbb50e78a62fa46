// sx: symbolic executor over LLVM IR (LLVM 18) with Z3 as the deciding solver.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <memory>
#include <functional>
#include <sys/resource.h>
#include <pthread.h>
#include <fstream>
#include <sstream>
using namespace llvm;

struct Val { uint64_t lo = 0, hi = 0; Expr* e = nullptr; };
static inline u128 v128(const Val& v) { return ((u128)v.hi << 64) | v.lo; }

enum Op : uint8_t { OBin, OCast, OICmp, OFCmp, OSelect, OLoad, OStore, OAlloca, OGep, OCall, ORet, OBr, OCondBr, OSwitch, OUnreachable, OCopy, OFNeg, OIBr, OLandingPad, OResume, OUnsupported, OShuffle, OInsDyn, OExtDyn, OCmpXchg, ORMW };
struct Leaf { uint32_t off; uint16_t w; uint8_t kind; }; // kind 0 int/ptr, 1 float,2 double,3 fp80
struct Inst {
  Op op; uint8_t sub = 0; uint16_t w = 0, w2 = 0; int lanes = 1;
  int dst = -1; std::vector<int> ops;      // operand slots (neg -> const ~ix)
  uint64_t imm = 0; std::vector<uint64_t> sc; // gep scales
  std::vector<Leaf> leaves; int t = -1, f = -1; std::vector<std::pair<u128, int>> cases;
  Function* callee = nullptr; int builtin = -1; Instruction* I = nullptr; std::vector<int> argSlots; std::vector<int> argCnt; int retCnt = 0; bool invoke = false; int normalD = -1, unwindD = -1; uint8_t fk = 0, fk2 = 0;
};
struct Edge { int pred; std::vector<std::pair<int, int>> copies; }; // dst<-src
struct BB { std::vector<Inst> in; std::vector<Edge> edges; int ipdom = -1; BasicBlock* B = nullptr; bool counted = false; };
struct Func { Function* F; std::vector<BB> bbs; std::vector<Val> consts; int nregs = 0; std::vector<std::pair<int, int>> args; uint64_t addr; std::string name; bool entered = false; };

struct Obj { uint64_t base = 0, size = 0; uint8_t kind = 0; bool freed = false, ro = false; int allocKind = 0; std::vector<uint8_t> d; std::vector<Expr*> s; };
typedef std::shared_ptr<Obj> ObjP;
typedef std::map<uint64_t, ObjP> OMap;

struct Frame { Func* f; int bb = 0, ip = 0, pred = -1; std::vector<Val> r; Inst* call = nullptr; uint64_t stackSave; std::vector<uint64_t> allocas; };
struct State;
struct Group { int live = 0; std::vector<State*> parked; size_t depth; Func* f; int bb; bool autoG; int id; };
struct State {
  std::vector<std::shared_ptr<Frame>> stk; std::shared_ptr<OMap> mem[3]; // 0 globals 1 heap 2 stack
  std::vector<Expr*> pc; std::vector<u128> model; std::vector<Expr*> syms; std::shared_ptr<std::map<Expr*, u128>> known;
  uint64_t heapNext = 0x100000000ull, stackNext = 0x7f0000000000ull, steps = 0; std::vector<Group*> groups; int autoMerge = 0; int id = 0; Val exc; bool incomplete = false; std::set<std::string>* dummy = nullptr;
  ObjP cacheObj;
  struct Thr { std::vector<std::shared_ptr<Frame>> stk; uint64_t stackNext = 0; }; std::vector<Thr> thr; size_t curT = 0; // suspended threads of control
};

struct Violation { std::string kind, msg, loc; std::vector<std::pair<std::string, std::string>> vals; };
struct PathEnd {}; struct Refork {}; // control flow exceptions

static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

enum Builtin { B_none = -1, B_sym_u, B_sym_i, B_bits, B_assume, B_assert, B_reach, B_conc, B_mopen, B_mclose, B_choose, B_automerge, B_known, B_ite, B_heaplive, B_malloc, B_calloc, B_realloc, B_free, B_delete, B_memcpy, B_memset, B_memchr_, B_strlen_, B_abort, B_exit, B_nop, B_nop0, B_fmath1, B_fmath2, B_throw, B_allocexc, B_begincatch, B_endcatch, B_guardacq, B_guardrel, B_overflow, B_ctpop, B_ctlz, B_cttz, B_bswap, B_bitrev, B_fsh, B_minmax, B_abs, B_sat, B_fpintr, B_expect, B_objsize, B_issym, B_print, B_symf, B_typeidfor, B_assumeintr, B_isconst, B_param, B_fmuladd, B_isfpclass, B_vecreduce, B_stacksave, B_scmp, B_exctor, B_copysign, B_mark, B_thrstart, B_thrswitch, B_thrself };

class Engine {
public:
  LLVMContext C; std::unique_ptr<Module> M; const DataLayout* DL; ExprCtx X; Solver S{X};
  std::unordered_map<Function*, Func*> funcs; std::map<uint64_t, Function*> addrF; std::unordered_map<const GlobalValue*, uint64_t> gaddr;
  std::vector<State*> work; std::vector<std::pair<uint64_t, Function*>> dummy;
  std::map<std::string, long> params;
  // options
  uint64_t maxSteps = 50000000; double maxTime = 600; size_t maxViol = 4; std::string entry; int autoMergeDefault = 0; uint64_t memLimitMB = 6000; std::set<std::string> knownOn; std::string onlyKnown;
  // results
  uint64_t paths = 0, forks = 0, asserts = 0, assertsProved = 0, assertsConst = 0, merges = 0, dead = 0, totalSteps = 0; std::vector<Violation> viol; std::set<std::string> violKeys; std::map<std::string, int> reach, inconc; std::set<std::string> fnNames, execFns; int stateIds = 0; double t0 = nowS(); bool budgetOut = false; std::map<std::string, uint64_t> assertCount; std::vector<std::string> samplePaths;
  State* cur = nullptr; Inst* curInst = nullptr;
  OMap initGlobals;

  // ---------- module setup ----------
  static int leafWidth(Type* t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isX86_FP80Ty()) return 80; return -1; }
  static int fkind(Type* t) { if (auto* v = dyn_cast<VectorType>(t)) t = v->getElementType(); if (t->isFloatTy()) return 1; if (t->isDoubleTy()) return 2; if (t->isX86_FP80Ty()) return 3; return 0; }
  int countLeaves(Type* t) {
    if (t->isVoidTy()) return 0;
    if (auto* st = dyn_cast<StructType>(t)) { int n = 0; for (auto* e : st->elements()) n += countLeaves(e); return n; }
    if (auto* at = dyn_cast<ArrayType>(t)) return (int)at->getNumElements() * countLeaves(at->getElementType());
    if (auto* vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements();
    return 1;
  }
  bool flat(Type* t, uint64_t off, std::vector<Leaf>& out) {
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) if (!flat(st->getElementType(i), off + sl->getElementOffset(i), out)) return false; return true; }
    if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) if (!flat(at->getElementType(), off + i * es, out)) return false; return true; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { int w = leafWidth(vt->getElementType()); if (w < 8) return false; for (unsigned i = 0; i < vt->getNumElements(); i++) out.push_back({(uint32_t)(off + i * (w / 8)), (uint16_t)w, (uint8_t)fkind(vt->getElementType())}); return true; }
    int w = leafWidth(t); if (w < 0 || w > 128) return false;
    out.push_back({(uint32_t)off, (uint16_t)w, (uint8_t)fkind(t)}); return true;
  }
  u128 fpBits(const APFloat& f) { APInt b = f.bitcastToAPInt(); u128 v = b.getRawData()[0]; if (b.getBitWidth() > 64) v |= (u128)b.getRawData()[1] << 64; return v; }
  void constVals(Constant* c, std::vector<Val>& out) {
    Type* t = c->getType();
    auto push = [&](u128 v) { Val x; x.lo = (uint64_t)v; x.hi = (uint64_t)(v >> 64); out.push_back(x); };
    if (auto* ci = dyn_cast<ConstantInt>(c)) { u128 v = ci->getValue().getRawData()[0]; if (ci->getBitWidth() > 64) v |= (u128)ci->getValue().getRawData()[1] << 64; push(v); return; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { push(fpBits(cf->getValueAPF())); return; }
    if (isa<ConstantPointerNull>(c)) { push(0); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { int n = countLeaves(t); for (int i = 0; i < n; i++) push(0); return; }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (auto& o : ca->operands()) constVals(cast<Constant>(o), out); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out); return; }
    if (auto* gv = dyn_cast<GlobalValue>(c)) { push(addrOf(gv)); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); auto* g = cast<GEPOperator>(ce); g->accumulateConstantOffset(*DL, off); std::vector<Val> b; constVals(ce->getOperand(0), b); push((uint64_t)(b[0].lo + off.getSExtValue())); return; }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { std::vector<Val> b; constVals(ce->getOperand(0), b); push(v128(b[0]) & maskw(leafWidth(t))); return; }
        case Instruction::Trunc: { std::vector<Val> b; constVals(ce->getOperand(0), b); push(v128(b[0]) & maskw(leafWidth(t))); return; }
        case Instruction::Sub: case Instruction::Add: { std::vector<Val> a, b; constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), b); push((ce->getOpcode() == Instruction::Sub ? v128(a[0]) - v128(b[0]) : v128(a[0]) + v128(b[0])) & maskw(leafWidth(t))); return; }
        default: break;
      }
    }
    std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant %s\n", s.c_str()); push(0);
  }
  uint64_t nextG = 0x10000000, nextF = 0x400000;
  uint64_t addrOf(const GlobalValue* g) {
    if (auto* ga = dyn_cast<GlobalAlias>(g)) return addrOf(cast<GlobalValue>(ga->getAliasee()->stripPointerCasts()));
    auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
    uint64_t a;
    if (auto* f = dyn_cast<Function>(g)) { a = nextF; nextF += 16; addrF[a] = const_cast<Function*>(f); }
    else { auto* v = cast<GlobalVariable>(g); uint64_t sz = v->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(v->getValueType()) : 8; a = nextG; nextG += ((sz + 63) & ~63ull) + 64; }
    gaddr[g] = a; return a;
  }
  void initGlobal(GlobalVariable* g, OMap& m) {
    uint64_t a = addrOf(g); auto o = std::make_shared<Obj>(); o->base = a; o->size = g->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g->getValueType()) : 8; o->d.assign(o->size, 0); o->ro = g->isConstant(); o->kind = 0; m[a] = o;
    if (g->hasInitializer()) writeConst(*o, 0, g->getInitializer());
  }
  void writeConst(Obj& o, uint64_t off, Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
    if (isa<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) writeConst(o, off + i * es, cast<Constant>(c->getOperand(i))); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(&o.d[off], r.data(), r.size()); return; }
    if (auto* cv = dyn_cast<ConstantVector>(c)) { uint64_t es = DL->getTypeStoreSize(cv->getType()->getElementType()); for (unsigned i = 0; i < cv->getNumOperands(); i++) writeConst(o, off + i * es, cv->getOperand(i)); return; }
    std::vector<Val> v; constVals(c, v); u128 x = v128(v[0]); uint64_t sz = DL->getTypeStoreSize(t); for (uint64_t i = 0; i < sz && i < 16; i++) o.d[off + i] = (uint8_t)(x >> (8 * i));
  }
  bool load(const std::string& file) {
    SMDiagnostic err; M = parseIRFile(file, err, C); if (!M) { err.print("sx", errs()); return false; }
    DL = &M->getDataLayout();
    for (auto& f : *M) addrOf(&f);
    for (auto& g : M->globals()) initGlobal(&g, initGlobals);
    return true;
  }

  // ---------- function compilation ----------
  std::unordered_map<std::string, int> bmap;
  void setupBuiltins() {
    auto B = [&](std::initializer_list<const char*> n, int b) { for (auto* s : n) bmap[s] = b; };
    B({"sv_sym_u"}, B_sym_u); B({"sv_sym_i"}, B_sym_i); B({"sv_bits"}, B_bits); B({"sv_assume"}, B_assume); B({"sv_assert_"}, B_assert); B({"sv_reach"}, B_reach); B({"sv_concretize"}, B_conc);
    B({"sv_merge_open"}, B_mopen); B({"sv_merge_close"}, B_mclose); B({"sv_choose"}, B_choose); B({"sv_automerge"}, B_automerge); B({"sv_known"}, B_known); B({"sv_ite"}, B_ite); B({"sv_heap_live"}, B_heaplive); B({"sv_is_sym"}, B_issym); B({"sv_print"}, B_print); B({"sv_param"}, B_param); B({"sv_mark"}, B_mark); B({"sv_thread_start"}, B_thrstart); B({"sv_thread_switch"}, B_thrswitch); B({"sv_thread_self"}, B_thrself);
    B({"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}, B_malloc); B({"calloc"}, B_calloc); B({"realloc"}, B_realloc); B({"free"}, B_free); B({"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm"}, B_delete);
    B({"memcpy", "memmove"}, B_memcpy); B({"memset"}, B_memset);
    B({"abort", "_ZSt9terminatev", "__clang_call_terminate", "_ZNSt3__122__libcpp_verbose_abortEPKcz", "__assert_fail", "__cxa_pure_virtual"}, B_abort); B({"exit", "_exit"}, B_exit);
    B({"__cxa_atexit", "__cxa_thread_atexit"}, B_nop0); B({"__cxa_throw"}, B_throw); B({"__cxa_allocate_exception"}, B_allocexc); B({"__cxa_begin_catch"}, B_begincatch); B({"__cxa_end_catch", "__cxa_free_exception"}, B_endcatch); B({"__cxa_guard_acquire"}, B_guardacq); B({"__cxa_guard_release"}, B_guardrel);
    B({"sqrt", "floor", "ceil", "pow", "cbrt", "log", "log2", "log10", "exp", "sin", "cos", "tan", "fabs", "round", "trunc", "fmod", "atan2", "atan", "acos", "asin", "exp2", "nearbyint", "rint", "sqrtf", "floorf", "ceilf", "powf", "cbrtf", "roundf", "fmax", "fmin", "sqrtl", "floorl", "ceill", "powl", "cbrtl", "logl", "roundl", "ldexp", "copysign", "lround", "llround", "expm1", "log1p", "sinh", "cosh", "tanh", "fabsf", "truncf"}, B_fmath1);
  }
  int builtinOf(Function* f) {
    if (f->isIntrinsic()) {
      switch (f->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_memcpy; case Intrinsic::memset: return B_memset;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::sideeffect: case Intrinsic::donothing: case Intrinsic::stackrestore: return B_nop;
        case Intrinsic::assume: return B_assumeintr;
        case Intrinsic::trap: case Intrinsic::debugtrap: return B_abort;
        case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: return B_overflow;
        case Intrinsic::ctpop: return B_ctpop; case Intrinsic::ctlz: return B_ctlz; case Intrinsic::cttz: return B_cttz; case Intrinsic::bswap: return B_bswap; case Intrinsic::bitreverse: return B_bitrev;
        case Intrinsic::fshl: case Intrinsic::fshr: return B_fsh;
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: return B_minmax; case Intrinsic::abs: return B_abs;
        case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: return B_sat;
        case Intrinsic::sqrt: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::fabs: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::pow: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::maxnum: case Intrinsic::minnum: case Intrinsic::copysign: case Intrinsic::powi: return B_fpintr;
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: return B_expect; case Intrinsic::objectsize: return B_objsize; case Intrinsic::eh_typeid_for: return B_typeidfor; case Intrinsic::is_constant: return B_isconst; case Intrinsic::fmuladd: case Intrinsic::fma: return B_fmuladd; case Intrinsic::stacksave: return B_stacksave; case Intrinsic::is_fpclass: return B_isfpclass;
        case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: return B_vecreduce;
        default: return B_none;
      }
    }
    std::string n = f->getName().str();
    auto it = bmap.find(n); if (it != bmap.end()) return it->second;
    if (f->isDeclaration()) {
      if (n.find("logic_error") != n.npos || n.find("out_of_range") != n.npos || n.find("length_error") != n.npos || n.find("runtime_error") != n.npos || n.find("invalid_argument") != n.npos || n.find("bad_alloc") != n.npos || n.find("9exceptionD") != n.npos) return B_exctor;
      if (n.find("__throw_") != n.npos) return B_abort;
    }
    return B_none;
  }
  Func* getFunc(Function* F) {
    auto it = funcs.find(F); if (it != funcs.end()) return it->second;
    Func* f = new Func(); funcs[F] = f; f->F = F; f->name = F->getName().str(); f->addr = addrOf(F);
    std::unordered_map<Value*, int> slot; int n = 0;
    for (auto& a : F->args()) { int c = countLeaves(a.getType()); slot[&a] = n; f->args.push_back({n, c}); n += c; }
    std::unordered_map<BasicBlock*, int> bi; int k = 0;
    for (auto& b : *F) { bi[&b] = k++; for (auto& i : b) if (!i.getType()->isVoidTy()) { slot[&i] = n; n += countLeaves(i.getType()); } }
    f->nregs = n; f->bbs.resize(k);
    PostDominatorTree pdt; bool pd = true; pdt.recalculate(*F);
    std::unordered_map<Constant*, int> cmap;
    auto opnd = [&](Value* v) -> int {
      if (auto* c = dyn_cast<Constant>(v)) { auto it = cmap.find(c); if (it != cmap.end()) return it->second; int ix = f->consts.size(); std::vector<Val> vs; constVals(c, vs); for (auto& x : vs) f->consts.push_back(x); return cmap[c] = ~ix; }
      auto it = slot.find(v); if (it == slot.end()) return ~0x3fffffff; return it->second; };
    // slot arithmetic: leaf j of operand o
    for (auto& b : *F) {
      BB& bb = f->bbs[bi[&b]]; bb.B = &b;
      if (pd) { auto* nd = pdt.getNode(&b); if (nd && nd->getIDom() && nd->getIDom()->getBlock()) bb.ipdom = bi[nd->getIDom()->getBlock()]; }
      for (auto* p : predecessors(&b)) {
        bool have = false; for (auto& e : bb.edges) if (e.pred == bi[p]) have = true; if (have) continue;
        Edge e; e.pred = bi[p];
        for (auto& ph : b.phis()) { int c = countLeaves(ph.getType()); int s = opnd(ph.getIncomingValueForBlock(p)), d = slot[&ph]; for (int j = 0; j < c; j++) e.copies.push_back({d + j, at(s, j)}); }
        bb.edges.push_back(e);
      }
      for (auto& I : b) { if (isa<PHINode>(I)) continue; compileInst(f, I, bb, slot, bi, opnd); }
    }
    return f;
  }
  static int at(int s, int j) { return s >= 0 ? s + j : ~(~s + j); }
  template <class FN> void compileInst(Func* f, Instruction& I, BB& bb, std::unordered_map<Value*, int>& slot, std::unordered_map<BasicBlock*, int>& bi, FN& opnd) {
    Inst n; n.I = &I; n.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; n.op = OUnsupported;
    auto scal = [&](Type* t) { if (auto* v = dyn_cast<FixedVectorType>(t)) { n.lanes = v->getNumElements(); return v->getElementType(); } return t; };
    if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
      Type* t = scal(I.getType()); n.w = leafWidth(t); n.fk = fkind(t); n.op = OBin; n.sub = bo->getOpcode(); n.ops = {opnd(bo->getOperand(0)), opnd(bo->getOperand(1))};
    } else if (isa<FreezeInst>(&I)) { n.op = OCopy; n.lanes = countLeaves(I.getType()); n.ops = {opnd(I.getOperand(0))}; }
    else if (I.getOpcode() == Instruction::FNeg) { Type* t = scal(I.getType()); n.w = leafWidth(t); n.fk = fkind(t); n.op = OFNeg; n.ops = {opnd(I.getOperand(0))}; }
    else if (auto* ci = dyn_cast<CastInst>(&I)) {
      Type *d = scal(I.getType()), *s = ci->getOperand(0)->getType(); int sl = 1; if (auto* v = dyn_cast<FixedVectorType>(s)) { sl = v->getNumElements(); s = v->getElementType(); }
      n.op = OCast; n.sub = ci->getOpcode(); n.w = leafWidth(d); n.w2 = leafWidth(s); n.fk = fkind(d); n.fk2 = fkind(s); n.imm = sl; n.ops = {opnd(ci->getOperand(0))};
      if (leafWidth(d) < 0 || leafWidth(s) < 0) n.op = OUnsupported;
    } else if (auto* ic = dyn_cast<ICmpInst>(&I)) { Type* t = scal(ic->getOperand(0)->getType()); n.op = OICmp; n.sub = ic->getPredicate(); n.w = leafWidth(t); n.ops = {opnd(ic->getOperand(0)), opnd(ic->getOperand(1))}; }
    else if (auto* fc = dyn_cast<FCmpInst>(&I)) { Type* t = scal(fc->getOperand(0)->getType()); n.op = OFCmp; n.sub = fc->getPredicate(); n.w = leafWidth(t); n.fk = fkind(t); n.ops = {opnd(fc->getOperand(0)), opnd(fc->getOperand(1))}; }
    else if (auto* se = dyn_cast<SelectInst>(&I)) {
      n.op = OSelect; n.ops = {opnd(se->getCondition()), opnd(se->getTrueValue()), opnd(se->getFalseValue())}; n.imm = se->getCondition()->getType()->isVectorTy();
      flat(I.getType(), 0, n.leaves); n.lanes = n.leaves.size(); if (I.getType()->isVectorTy() && n.leaves.empty()) { int c = countLeaves(I.getType()); for (int i = 0; i < c; i++) n.leaves.push_back({0, 1, 0}); n.lanes = c; }
    } else if (auto* ld = dyn_cast<LoadInst>(&I)) { if (flat(I.getType(), 0, n.leaves)) n.op = OLoad; n.ops = {opnd(ld->getPointerOperand())}; n.imm = DL->getTypeStoreSize(I.getType()); }
    else if (auto* st = dyn_cast<StoreInst>(&I)) { if (flat(st->getValueOperand()->getType(), 0, n.leaves)) n.op = OStore; n.ops = {opnd(st->getPointerOperand()), opnd(st->getValueOperand())}; n.imm = DL->getTypeStoreSize(st->getValueOperand()->getType()); }
    else if (auto* al = dyn_cast<AllocaInst>(&I)) { n.op = OAlloca; n.imm = DL->getTypeAllocSize(al->getAllocatedType()); n.ops = {opnd(al->getArraySize())}; n.w2 = leafWidth(al->getArraySize()->getType()); }
    else if (auto* ge = dyn_cast<GetElementPtrInst>(&I)) {
      if (!I.getType()->isVectorTy()) {
        n.op = OGep; n.ops = {opnd(ge->getPointerOperand())}; int64_t off = 0;
        for (auto gti = gep_type_begin(ge), e = gep_type_end(ge); gti != e; ++gti) {
          Value* ix = gti.getOperand();
          if (auto* stt = gti.getStructTypeOrNull()) { off += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          uint64_t es = DL->getTypeAllocSize(gti.getIndexedType());
          if (auto* c = dyn_cast<ConstantInt>(ix)) off += c->getSExtValue() * (int64_t)es;
          else { n.ops.push_back(opnd(ix)); n.sc.push_back(es); n.argCnt.push_back(leafWidth(ix->getType())); }
        }
        n.imm = (uint64_t)off;
      }
    } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { n.op = OCopy; n.lanes = countLeaves(I.getType()); n.ops = {at(opnd(ev->getAggregateOperand()), leafOff(ev->getAggregateOperand()->getType(), ev->getIndices()))}; }
    else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
      Inst c; c.I = &I; c.op = OCopy; c.dst = n.dst; c.lanes = countLeaves(I.getType()); c.ops = {opnd(iv->getAggregateOperand())}; bb.in.push_back(c);
      n.op = OCopy; n.dst += leafOff(I.getType(), iv->getIndices()); n.lanes = countLeaves(iv->getInsertedValueOperand()->getType()); n.ops = {opnd(iv->getInsertedValueOperand())};
    } else if (auto* ee = dyn_cast<ExtractElementInst>(&I)) {
      if (auto* c = dyn_cast<ConstantInt>(ee->getIndexOperand())) { n.op = OCopy; n.lanes = 1; n.ops = {at(opnd(ee->getVectorOperand()), (int)c->getZExtValue())}; }
    } else if (auto* ie = dyn_cast<InsertElementInst>(&I)) {
      if (auto* ci = dyn_cast<ConstantInt>(ie->getOperand(2))) {
        Inst c; c.I = &I; c.op = OCopy; c.dst = n.dst; c.lanes = countLeaves(I.getType()); c.ops = {opnd(ie->getOperand(0))}; bb.in.push_back(c);
        n.op = OCopy; n.dst += (int)ci->getZExtValue(); n.lanes = 1; n.ops = {opnd(ie->getOperand(1))};
      }
    } else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) {
      n.op = OShuffle; int nl = countLeaves(sv->getOperand(0)->getType()); int a = opnd(sv->getOperand(0)), b = opnd(sv->getOperand(1));
      for (int mi : sv->getShuffleMask()) n.ops.push_back(mi < 0 ? at(a, 0) : mi < nl ? at(a, mi) : at(b, mi - nl));
    } else if (auto* br = dyn_cast<BranchInst>(&I)) {
      if (br->isUnconditional()) { n.op = OBr; n.t = bi[br->getSuccessor(0)]; } else { n.op = OCondBr; n.ops = {opnd(br->getCondition())}; n.t = bi[br->getSuccessor(0)]; n.f = bi[br->getSuccessor(1)]; }
    } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
      n.op = OSwitch; n.ops = {opnd(sw->getCondition())}; n.w = leafWidth(sw->getCondition()->getType()); n.f = bi[sw->getDefaultDest()];
      for (auto& c : sw->cases()) { std::vector<Val> v; constVals(c.getCaseValue(), v); n.cases.push_back({v128(v[0]), bi[c.getCaseSuccessor()]}); }
    } else if (isa<ReturnInst>(&I)) { n.op = ORet; auto* rv = cast<ReturnInst>(&I)->getReturnValue(); if (rv) { n.ops = {opnd(rv)}; n.lanes = countLeaves(rv->getType()); } else n.lanes = 0; }
    else if (isa<UnreachableInst>(&I)) n.op = OUnreachable;
    else if (isa<LandingPadInst>(&I)) { n.op = OLandingPad; auto* lp = cast<LandingPadInst>(&I); n.imm = 0; for (unsigned i = 0; i < lp->getNumClauses(); i++) if (lp->isCatch(i)) n.imm = 1; }
    else if (isa<ResumeInst>(&I)) n.op = OResume;
    else if (isa<FenceInst>(&I)) { n.op = OCopy; n.lanes = 0; n.ops = {0}; }
    else if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) { n.op = ORMW; n.sub = rm->getOperation(); n.w = leafWidth(I.getType()); n.ops = {opnd(rm->getPointerOperand()), opnd(rm->getValOperand())}; }
    else if (auto* cb = dyn_cast<CallBase>(&I)) {
      n.op = OCall; n.invoke = isa<InvokeInst>(&I); if (n.invoke) { auto* iv = cast<InvokeInst>(&I); n.normalD = bi[iv->getNormalDest()]; n.unwindD = bi[iv->getUnwindDest()]; }
      Value* cv = cb->getCalledOperand()->stripPointerCasts(); n.callee = dyn_cast<Function>(cv); if (auto* ga = dyn_cast<GlobalAlias>(cv)) n.callee = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
      if (cb->isInlineAsm()) { n.op = OUnsupported; n.callee = nullptr; auto* ia = cast<InlineAsm>(cb->getCalledOperand()); if (ia->getAsmString().empty() && I.getType()->isVoidTy()) { n.op = OCopy; n.lanes = 0; n.ops = {0}; bb.in.push_back(n); return; } }
      else if (!n.callee) n.ops = {opnd(cb->getCalledOperand())}; else n.builtin = builtinOf(n.callee);
      for (unsigned i = 0; i < cb->arg_size(); i++) { Value* a = cb->getArgOperand(i); if (a->getType()->isMetadataTy()) { n.argSlots.push_back(0); n.argCnt.push_back(0); continue; }
        if (cb->isByValArgument(i)) n.sc.push_back(((uint64_t)i << 32) | DL->getTypeAllocSize(cb->getParamByValType(i)));
        n.argSlots.push_back(opnd(a)); n.argCnt.push_back(countLeaves(a->getType())); }
      n.retCnt = countLeaves(I.getType()); Type* t = scal(I.getType()); if (!t->isVoidTy() && !t->isStructTy() && !t->isArrayTy()) n.w = leafWidth(t); n.fk = fkind(t);
      if (cb->arg_size() > 0) { Type* at0 = cb->getArgOperand(0)->getType(); if (auto* v = dyn_cast<FixedVectorType>(at0)) { n.imm = v->getNumElements(); at0 = v->getElementType(); } if (leafWidth(at0) > 0) n.w2 = leafWidth(at0); n.fk2 = fkind(at0); }
    }
    bb.in.push_back(n);
  }
  int leafOff(Type* t, ArrayRef<unsigned> ix) {
    int o = 0; for (unsigned i : ix) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) o += countLeaves(st->getElementType(j)); t = st->getElementType(i); } else { auto* a = cast<ArrayType>(t); o += i * countLeaves(a->getElementType()); t = a->getElementType(); } } return o;
  }

  // ---------- state helpers ----------
  State* clone(State* s) { State* n = new State(*s); if (!n->stk.empty()) n->stk.back() = std::make_shared<Frame>(*n->stk.back()); // the running state keeps its own top frame
    n->id = ++stateIds; n->cacheObj = nullptr; s->cacheObj = nullptr; for (auto* g : n->groups) g->live++; forks++; return n; }
  Frame& top(State* s) { auto& p = s->stk.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }
  std::vector<Val>* R; Func* CF; // current frame regs
  Val& get(int o) { return o >= 0 ? (*R)[o] : CF->consts[~o]; }
  Expr* ex(const Val& v, int w) { if (v.e) return v.e; return X.cst(v128(v), w); }
  void setE(Val& d, Expr* e) { if (e->k == KConst) { d.lo = (uint64_t)e->val; d.hi = (uint64_t)(e->val >> 64); d.e = nullptr; } else { d.e = e; } }
  void setC(Val& d, u128 v) { d.lo = (uint64_t)v; d.hi = (uint64_t)(v >> 64); d.e = nullptr; }
  void addPC(State* s, Expr* e) {
    if (e->k == KConst) return;
    if (e->k == KAnd && e->w == 1) { addPC(s, e->a); addPC(s, e->b); return; }
    s->pc.push_back(e);
    if (e->k == KEq && e->b->k == KConst) { if (s->known.use_count() > 1 || !s->known) s->known = s->known ? std::make_shared<std::map<Expr*, u128>>(*s->known) : std::make_shared<std::map<Expr*, u128>>(); (*s->known)[e->a] = e->b->val; }
    else if (e->k != KConst && e->w == 1) { Expr* x = e; bool v = true; if (e->k == KXor && e->b == X.T) { x = e->a; v = false; } if (s->known.use_count() > 1 || !s->known) s->known = s->known ? std::make_shared<std::map<Expr*, u128>>(*s->known) : std::make_shared<std::map<Expr*, u128>>(); (*s->known)[x] = v; if (v && false) {} }
  }
  void inconclusive(const std::string& why) { inconc[why]++; }
  std::string locOf(Instruction* I) { if (!I) return ""; const DebugLoc& d = I->getDebugLoc(); if (!d) return I->getFunction()->getName().str(); std::string s; DILocation* l = d.get(); s = l->getFilename().str() + ":" + std::to_string(l->getLine()); while ((l = l->getInlinedAt())) { s += " < " + l->getFilename().str() + ":" + std::to_string(l->getLine()); } return s; }
  double firstViol = 0;
  void violation(State* s, const std::string& kind, const std::string& msg, const std::vector<u128>& model) {
    std::string loc = locOf(curInst ? curInst->I : nullptr);
    std::string key = kind + "|" + msg + (kind == "assert" ? "" : loc.substr(0, loc.find(" <")));
    if (violKeys.count(key) || viol.size() >= maxViol * 4) return; violKeys.insert(key);
    if (const char* dbg = getenv("SV_DEBUG")) { (void)dbg; fprintf(stderr, "VIOL %s %s @ %s\n", kind.c_str(), msg.c_str(), loc.c_str()); }
    for (size_t i = s->stk.size(); i-- > 0;) if (i + 1 < s->stk.size() || true) { if (i + 1 == s->stk.size()) continue; auto& fr = *s->stk[i]; (void)fr; }
    Violation v; v.kind = kind; v.msg = msg; v.loc = loc;
    for (Expr* e : s->syms) { SymInfo& si = X.syms[(size_t)e->val]; u128 x = X.symVal((size_t)e->val, model); std::string t = si.isSigned ? std::to_string((long long)sextw(x, si.w)) : std::to_string((unsigned long long)x); v.vals.push_back({si.name, t}); }
    if (viol.empty()) firstViol = nowS(); viol.push_back(v);
  }
  // terminate current path with an error if cond is satisfiable; continue with !cond
  void errorIf(State* s, Expr* cond, const std::string& kind, const std::string& msg) {
    if (cond == X.F) return;
    if (cond->k != KConst) { if (knownBool(s, cond) == 0) return; }
    std::vector<u128> m = s->model; Res r;
    if (cond == X.T) r = SAT; else if (X.evalIn(cond, s->model)) r = SAT; else r = S.check(s->pc, cond, m, true);
    if (r == SAT) {
      violation(s, kind, msg, m);
      Expr* nc = X.mkNot(cond); if (nc == X.F) throw PathEnd();
      if (!feasibleAdd(s, nc)) throw PathEnd();
    } else if (r == UNKNOWN) { inconclusive("solver: " + kind + " " + msg); addPC(s, X.mkNot(cond)); }
    else addKnown(s, cond, 0);
  }
  void addKnown(State* s, Expr* c, u128 v) { if (c->k == KConst) return; if (s->known.use_count() > 1 || !s->known) s->known = s->known ? std::make_shared<std::map<Expr*, u128>>(*s->known) : std::make_shared<std::map<Expr*, u128>>(); (*s->known)[c] = v; Expr* n = X.mkNot(c); (*s->known)[n] = !v; }
  int knownBool(State* s, Expr* c) { if (c->k == KConst) return (int)c->val; if (!s->known) return -1; auto it = s->known->find(c); if (it != s->known->end()) return (int)it->second; it = s->known->find(X.mkNot(c)); if (it != s->known->end()) return !(int)it->second; return -1; }
  // add constraint; keep model valid; false if infeasible
  bool feasibleAdd(State* s, Expr* c) {
    if (c->k == KConst) return c->val != 0;
    if (X.evalIn(c, s->model)) { addPC(s, c); return true; }
    Res r = S.check(s->pc, c, s->model);
    if (r == SAT) { addPC(s, c); return true; }
    if (r == UNKNOWN) { inconclusive("solver: path feasibility"); return false; }
    return false;
  }
  // decide a symbolic boolean: returns 1/0; forks the other side if both feasible (other state re-executes current inst unless setOther given)
  int branch(State* s, Expr* c, State** other) {
    *other = nullptr;
    if (c->k == KConst) return c->val != 0;
    int kb = knownBool(s, c); if (kb >= 0) return kb;
    int v = X.evalIn(c, s->model) ? 1 : 0;
    Expr* oc = v ? X.mkNot(c) : c; Expr* tc = v ? c : X.mkNot(c);
    std::vector<u128> m = s->model;
    Res r = S.check(s->pc, oc, m);
    if (r == UNSAT) { addKnown(s, c, v); return v; }
    if (r == UNKNOWN) { inconclusive("solver: branch feasibility @ " + locOf(curInst->I)); addPC(s, tc); return v; }
    State* o = clone(s); o->model = m; addPC(o, oc); addPC(s, tc);
    *other = o; return v;
  }
  // concretize an expression completely: forks states that re-execute the current instruction
  u128 concretize(State* s, Expr* e) {
    if (e->k == KConst) return e->val;
    if (s->known) { auto it = s->known->find(e); if (it != s->known->end()) return it->second; }
    u128 v = X.evalIn(e, s->model); Expr* eq = X.mkEq(e, X.cst(v, e->w));
    State* o = nullptr; int b = branch(s, eq, &o); if (!b) { fprintf(stderr, "concretize?\n"); }
    if (o) push(o);
    addKnownVal(s, e, v);
    return v;
  }
  void addKnownVal(State* s, Expr* e, u128 v) { if (s->known.use_count() > 1 || !s->known) s->known = s->known ? std::make_shared<std::map<Expr*, u128>>(*s->known) : std::make_shared<std::map<Expr*, u128>>(); (*s->known)[e] = v; }
  uint64_t concU(State* s, Val& v, int w) { if (!v.e) return v.lo; u128 x = concretize(s, v.e); return (uint64_t)x; }
  void push(State* s) { work.push_back(s); }

  // ---------- memory ----------
  int region(uint64_t a) { return a < 0x100000000ull ? 0 : a < 0x7f0000000000ull ? 1 : 2; }
  Obj* findObj(State* s, uint64_t a) {
    if (s->cacheObj && a >= s->cacheObj->base && a < s->cacheObj->base + s->cacheObj->size) return s->cacheObj.get();
    OMap& m = *s->mem[region(a)]; auto it = m.upper_bound(a); if (it == m.begin()) return nullptr; --it;
    Obj* o = it->second.get(); if (a >= o->base + std::max<uint64_t>(o->size, 1)) return nullptr; s->cacheObj = it->second; return o;
  }
  Obj* wObj(State* s, uint64_t a) { // writable copy
    int rg = region(a); if (s->mem[rg].use_count() > 1) s->mem[rg] = std::make_shared<OMap>(*s->mem[rg]);
    s->cacheObj = nullptr;
    OMap& m = *s->mem[rg]; auto it = m.upper_bound(a); --it; if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
    return it->second.get();
  }
  OMap& wMap(State* s, int rg) { s->cacheObj = nullptr; if (s->mem[rg].use_count() > 1) s->mem[rg] = std::make_shared<OMap>(*s->mem[rg]); return *s->mem[rg]; }
  uint64_t allocHeap(State* s, uint64_t sz, int ak, int fill) {
    uint64_t a = s->heapNext; s->heapNext += ((sz + 15) & ~15ull) + 64; auto o = std::make_shared<Obj>(); o->base = a; o->size = sz; o->kind = 1; o->allocKind = ak; o->d.assign(sz, (uint8_t)fill); wMap(s, 1)[a] = o; return a;
  }
  uint64_t allocStack(State* s, uint64_t sz) { uint64_t a = s->stackNext; s->stackNext += ((sz + 15) & ~15ull) + 64; auto o = std::make_shared<Obj>(); o->base = a; o->size = sz; o->kind = 2; o->d.assign(sz, 0xAA); wMap(s, 2)[a] = o; return a; }
  Expr* readBytes(Obj* o, uint64_t off, int nb) { // little endian
    Expr* r = nullptr; bool sym = !o->s.empty();
    if (sym) { sym = false; for (int i = 0; i < nb; i++) if (o->s[off + i]) { sym = true; break; } }
    if (!sym) { u128 v = 0; for (int i = nb; i-- > 0;) v = (v << 8) | o->d[off + i]; return X.cst(v, nb * 8); }
    for (int i = nb; i-- > 0;) { Expr* b = o->s[off + i]; if (!b) b = X.cst(o->d[off + i], 8);
      else if (b->k == KExtract) { int j = i; while (j > 0 && o->s[off + j - 1] && o->s[off + j - 1]->k == KExtract && o->s[off + j - 1]->a == b->a && o->s[off + j - 1]->val + 8 == o->s[off + j]->val) j--; b = X.mkExtract(b->a, (int)o->s[off + j]->val, 8 * (i - j + 1)); i = j; }
      r = r ? X.mkConcat(r, b) : b; }
    return r;
  }
  void writeBytes(Obj* o, uint64_t off, int nb, Expr* e) {
    if (e->k == KConst) { for (int i = 0; i < nb; i++) { o->d[off + i] = (uint8_t)(e->val >> (8 * i)); if (!o->s.empty()) o->s[off + i] = nullptr; } return; }
    if (o->s.empty()) o->s.resize(o->size, nullptr);
    for (int i = 0; i < nb; i++) { Expr* b = nb == 1 ? e : X.mkExtract(e, 8 * i, 8); if (b->k == KConst) { o->d[off + i] = (uint8_t)b->val; o->s[off + i] = nullptr; } else o->s[off + i] = nb == 1 || e->k == KIte ? b : X.raw(KExtract, 8, e, nullptr, nullptr, 8 * i); }
  }
  // resolve an address for an access of sz bytes. Returns object; if offset stays symbolic *offE is set.
  Obj* resolve(State* s, Val& a, uint64_t sz, bool write, uint64_t& off, Expr** offE) {
    *offE = nullptr; uint64_t addr;
    if (!a.e) addr = a.lo;
    else {
      if (s->known) { auto it = s->known->find(a.e); if (it != s->known->end()) { addr = (uint64_t)it->second; goto conc; } }
      addr = (uint64_t)X.evalIn(a.e, s->model);
      Obj* o = findObj(s, addr);
      if (!o || o->freed || addr + sz > o->base + o->size) { // erroneous under the model
        Expr* eq = X.mkEq(a.e, X.cst(addr, 64));
        (void)eq; violation(s, "memory", std::string(write ? "invalid write" : "invalid read") + (o && o->freed ? " (freed object)" : o ? " (out of bounds)" : addr < 4096 ? " (null pointer)" : " (no object)"), s->model);
        // continue on addresses elsewhere
        if (o && !o->freed && o->size >= sz) { Expr* in = X.mkUle(X.mkSub(a.e, X.cst(o->base, 64)), X.cst(o->size - sz, 64)); if (!feasibleAdd(s, in)) throw PathEnd(); return resolve(s, a, sz, write, off, offE); }
        throw PathEnd();
      }
      Expr* rel = X.mkSub(a.e, X.cst(o->base, 64));
      Expr* in = X.mkUle(rel, X.cst(o->size - sz, 64));
      if (in != X.T) {
        int kb = knownBool(s, in);
        if (kb != 1) {
          std::vector<u128> m = s->model; Res r = S.check(s->pc, X.mkNot(in), m);
          if (r == SAT) { // other object or out of bounds: fork, other re-executes
            State* oth = clone(s); oth->model = m; addPC(oth, X.mkNot(in)); push(oth); addPC(s, in);
          } else if (r == UNKNOWN) { inconclusive("solver: address range"); addPC(s, in); }
          else addKnown(s, in, 1);
        }
      }
      *offE = rel; off = addr - o->base;
      return o;
    }
  conc:
    Obj* o = findObj(s, addr);
    if (!o || o->freed || addr + sz > o->base + o->size) {
      violation(s, "memory", std::string(write ? "invalid write" : "invalid read") + (o && o->freed ? " (freed object)" : o ? " (out of bounds)" : addr < 4096 ? " (null pointer)" : " (no object)"), s->model);
      throw PathEnd();
    }
    if (write && o->ro) { violation(s, "memory", "write to constant", s->model); throw PathEnd(); }
    off = addr - o->base; return o;
  }
  int tzKnown(Expr* e) { switch (e->k) { case KConst: { if (!e->val) return 64; int n = 0; u128 v = e->val; while (!(v & 1)) { n++; v >>= 1; } return n; } case KConcat: { int t = tzKnown(e->b); return t >= e->b->w ? e->b->w + tzKnown(e->a) : t; } case KZExt: case KSExt: return tzKnown(e->a); case KAdd: case KSub: case KOr: return std::min(tzKnown(e->a), tzKnown(e->b)); case KMul: return tzKnown(e->a) + tzKnown(e->b); case KIte: return std::min(tzKnown(e->b), tzKnown(e->c)); case KAnd: return std::max(tzKnown(e->a), tzKnown(e->b)); default: return 0; } }
  // enumerate feasible offsets of offE (complete); returns false if more than limit
  bool enumerate(State* s, Expr* e, std::vector<uint64_t>& out, size_t limit) {
    Expr* ex = X.T; std::vector<u128> m = s->model; u128 v = X.evalIn(e, m);
    while (true) {
      out.push_back((uint64_t)v); if (out.size() > limit) return false;
      ex = X.mkAnd(ex, X.mkNot(X.mkEq(e, X.cst(v, e->w))));
      if (ex == X.F) return true;
      std::vector<u128> m2 = s->model; Res r = S.check(s->pc, ex, m2);
      if (r == UNSAT) return true; if (r == UNKNOWN) { inconclusive("solver: enumerate offsets"); return true; }
      v = X.evalIn(e, m2);
    }
  }
  Expr* treeRead(Obj* o, Expr* offE, int bit, uint64_t hi, int nb, int tz) { // offE high bits fixed to hi
    if (bit < tz) { if (hi + nb > o->size) return nullptr; return readBytes(o, hi, nb); }
    Expr* l = treeRead(o, offE, bit - 1, hi, nb, tz); Expr* h = nullptr;
    uint64_t h2 = hi | (1ull << bit); if (h2 < o->size) h = treeRead(o, offE, bit - 1, h2, nb, tz);
    if (!h) return l; if (!l) return h; if (l == h) return l;
    return X.mkIte(X.mkExtract(offE, bit, 1), h, l);
  }
  // one output bit of a large constant table as a decision tree over the index bits (equal subtables shared)
  Expr* bitTree(const std::vector<uint8_t>& tab, size_t lo, size_t n, Expr* offE, int bit) {
    uint8_t f = tab[lo]; bool same = true; for (size_t i = 1; i < n && same; i++) same = tab[lo + i] == f; if (same) return f ? X.T : X.F;
    size_t h = n / 2; Expr* c = X.mkExtract(offE, bit, 1);
    bool eq = !memcmp(&tab[lo], &tab[lo + h], h); if (eq) return bitTree(tab, lo, h, offE, bit - 1);
    bool comp = true; for (size_t i = 0; i < h && comp; i++) comp = tab[lo + i] != tab[lo + h + i];
    Expr* l = bitTree(tab, lo, h, offE, bit - 1); if (comp) return X.mkXor(c, l);
    return X.mkIte(c, bitTree(tab, lo + h, h, offE, bit - 1), l);
  }
  Expr* sliceRead(Obj* o, Expr* offE, int nb, int tz) {
    if (!o->s.empty() || tz > 5 || nb > 8) return nullptr; int nbits = bitlen(o->size - 1); size_t n = (size_t)1 << (nbits - tz); if (n < 1024) return nullptr;
    if ((n << tz) != o->size) return nullptr;
    std::vector<uint64_t> vals(n, 0); for (size_t i = 0; i < n; i++) memcpy(&vals[i], &o->d[i << tz], std::min<size_t>(nb, o->size - (i << tz)));
    std::vector<uint64_t> d = vals; std::sort(d.begin(), d.end()); d.erase(std::unique(d.begin(), d.end()), d.end()); if (d.size() <= 64) return nullptr;
    Expr* r = nullptr; std::vector<uint8_t> tab(n);
    for (int b = 0; b < nb * 8; b++) { for (size_t i = 0; i < n; i++) tab[i] = vals[i] >> b & 1; Expr* e = bitTree(tab, 0, n, offE, nbits - 1); r = r ? X.mkConcat(e, r) : e; }
    return r;
  }
  Expr* loadLeaf(State* s, Obj* o, uint64_t off, Expr* offE, int w) {
    int nb = (w + 7) / 8; Expr* r;
    if (!offE) r = readBytes(o, off, nb);
    else {
      bool uniform = false; (void)uniform;
      int tz = std::min(tzKnown(offE), 62);
      // candidate count
      u128 lo = offE->umin, hi = std::min<u128>(offE->umax, o->size - 1); size_t cand = hi >= lo ? (size_t)(((hi - lo) >> tz) + 1) : 1;
      std::vector<uint64_t> offs;
      if (cand > 300 && (r = sliceRead(o, offE, nb, tz))) {}
      else if (cand > 300 || (cand > 24 && tz >= 0 && nb == (1 << std::min(tz, 6)))) { int nbits = bitlen(o->size - 1); r = treeRead(o, offE, nbits - 1, 0, nb, tz); if (!r) throw PathEnd(); }
      else {
        auto key = std::make_pair(offE, s->pc.size()); (void)key;
        if (!enumerate(s, offE, offs, 300)) { int nbits = bitlen(o->size - 1); r = treeRead(o, offE, nbits - 1, 0, nb, tz); if (!r) throw PathEnd(); }
        else { std::sort(offs.begin(), offs.end()); r = nullptr; for (size_t i = offs.size(); i-- > 0;) { Expr* v = readBytes(o, offs[i], nb); r = r ? X.mkIte(X.mkEq(offE, X.cst(offs[i], 64)), v, r) : v; } }
      }
    }
    if (w != nb * 8) r = X.mkExtract(r, 0, w);
    return r;
  }
  void doLoad(State* s, Inst& n, Frame& fr) {
    Val a = get(n.ops[0]); uint64_t off; Expr* oe; Obj* o = resolve(s, a, n.imm, false, off, &oe);
    for (size_t i = 0; i < n.leaves.size(); i++) {
      Leaf& l = n.leaves[i]; Val& d = fr.r[n.dst + i];
      if (!oe && o->s.empty()) { u128 v = 0; int nb = (l.w + 7) / 8; memcpy(&v, &o->d[off + l.off], nb); v &= maskw(l.w); d.lo = (uint64_t)v; d.hi = (uint64_t)(v >> 64); d.e = nullptr; continue; }
      Expr* o2 = oe && l.off ? X.mkAdd(oe, X.cst(l.off, 64)) : oe;
      setE(d, simpKnown(s, loadLeaf(s, o, off + l.off, o2, l.w)));
    }
  }
  Expr* simpKnown(State* s, Expr* e) { if (e->k == KConst || !s->known) return e; auto it = s->known->find(e); if (it != s->known->end()) return X.cst(it->second, e->w); return e; }
  void storeLeaf(State* s, uint64_t base, uint64_t off, Expr* oe, int w, Expr* v) {
    int nb = (w + 7) / 8; if (w != nb * 8) v = X.mkZExt(v, nb * 8);
    if (!oe) { writeBytes(wObj(s, base), off, nb, v); return; }
    std::vector<uint64_t> offs; if (!enumerate(s, oe, offs, 600)) { inconclusive("symbolic store with too many targets"); throw PathEnd(); }
    Obj* o = wObj(s, base);
    if (offs.size() == 1) { writeBytes(o, offs[0], nb, v); return; }
    for (uint64_t of : offs) { Expr* old = readBytes(o, of, nb); writeBytes(o, of, nb, X.mkIte(X.mkEq(oe, X.cst(of, 64)), v, old)); }
  }
  void doStore(State* s, Inst& n) {
    Val a = get(n.ops[0]); uint64_t off; Expr* oe; Obj* o = resolve(s, a, n.imm, true, off, &oe); uint64_t base = o->base;
    if (o->ro) { violation(s, "memory", "write to constant", s->model); throw PathEnd(); }
    for (size_t i = 0; i < n.leaves.size(); i++) {
      Leaf& l = n.leaves[i]; Val& v = get(at(n.ops[1], i));
      if (!oe && !v.e) { Obj* w = wObj(s, base); u128 x = v128(v) & maskw(l.w); int nb = (l.w + 7) / 8; memcpy(&w->d[off + l.off], &x, nb); if (!w->s.empty()) for (int k = 0; k < nb; k++) w->s[off + l.off + k] = nullptr; continue; }
      Expr* o2 = oe && l.off ? X.mkAdd(oe, X.cst(l.off, 64)) : oe;
      storeLeaf(s, base, off + l.off, o2, l.w, ex(v, l.w));
    }
  }
  Expr* bytePtrRead(State* s, uint64_t addr) { Val v; v.lo = addr; uint64_t off; Expr* oe; Obj* o = resolve(s, v, 1, false, off, &oe); return readBytes(o, off, 1); }
  std::string cstr(State* s, uint64_t a) { std::string r; for (int i = 0; i < 200; i++) { Expr* b = bytePtrRead(s, a + i); if (b->k != KConst || !b->val) break; r += (char)b->val; } return r; }

  // ---------- instruction semantics ----------
  static long double ld80(u128 v) { long double x = 0; memcpy(&x, &v, 10); return x; }
  static u128 of80(long double x) { u128 v = 0; memcpy(&v, &x, 10); return v; }
  void binop(State* s, Inst& n, int lane, Frame& fr) {
    Val a = get(at(n.ops[0], lane)), b = get(at(n.ops[1], lane)); Val& d = fr.r[n.dst + lane]; int w = n.w;
    using I = Instruction;
    if (n.fk) {
      if (n.fk == 3) { if (a.e || b.e) { inconclusive("symbolic x86_fp80"); throw PathEnd(); } long double x = ld80(v128(a)), y = ld80(v128(b)), r = 0; switch (n.sub) { case I::FAdd: r = x + y; break; case I::FSub: r = x - y; break; case I::FMul: r = x * y; break; case I::FDiv: r = x / y; break; case I::FRem: r = fmodl(x, y); break; } setC(d, of80(r)); return; }
      if (!a.e && !b.e) {
        if (w == 64) { double x = asD(a.lo), y = asD(b.lo), r = 0; switch (n.sub) { case I::FAdd: r = x + y; break; case I::FSub: r = x - y; break; case I::FMul: r = x * y; break; case I::FDiv: r = x / y; break; case I::FRem: r = fmod(x, y); break; } setC(d, ofD(r)); }
        else { float x = asF(a.lo), y = asF(b.lo), r = 0; switch (n.sub) { case I::FAdd: r = x + y; break; case I::FSub: r = x - y; break; case I::FMul: r = x * y; break; case I::FDiv: r = x / y; break; case I::FRem: r = fmodf(x, y); break; } setC(d, ofF(r)); }
        return;
      }
      K k; switch (n.sub) { case I::FAdd: k = KFAdd; break; case I::FSub: k = KFSub; break; case I::FMul: k = KFMul; break; case I::FDiv: k = KFDiv; break; default: inconclusive("symbolic frem"); throw PathEnd(); }
      setE(d, X.mkF(k, w, ex(a, w), ex(b, w))); return;
    }
    bool isdiv = n.sub == I::UDiv || n.sub == I::SDiv || n.sub == I::URem || n.sub == I::SRem;
    if (!a.e && !b.e) {
      u128 M = maskw(w);
      if (w <= 64) {
        uint64_t x = a.lo, y = b.lo, m = (uint64_t)M, r = 0;
        if (isdiv) { if (y == 0) { violation(s, "arith", "division by zero", s->model); throw PathEnd(); } if ((n.sub == I::SDiv || n.sub == I::SRem) && w >= 32 && x == (uint64_t)1 << (w - 1) && y == m) { violation(s, "arith", "signed division overflow", s->model); throw PathEnd(); } }
        int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w), sy = (int64_t)(y << (64 - w)) >> (64 - w);
        switch (n.sub) {
          case I::Add: r = x + y; break; case I::Sub: r = x - y; break; case I::Mul: r = x * y; break;
          case I::UDiv: r = x / y; break; case I::URem: r = x % y; break; case I::SDiv: r = sx / sy; break; case I::SRem: r = sx % sy; break;
          case I::And: r = x & y; break; case I::Or: r = x | y; break; case I::Xor: r = x ^ y; break;
          case I::Shl: r = x << (y & (w <= 32 ? 31 : 63)); break; case I::LShr: r = x >> (y & (w <= 32 ? 31 : 63)); break; case I::AShr: r = sx >> (y & (w <= 32 ? 31 : 63)); break;
        }
        d.lo = r & m; d.hi = 0; d.e = nullptr;
      } else {
        u128 x = v128(a), y = v128(b), r = 0; if (isdiv && !y) { violation(s, "arith", "division by zero", s->model); throw PathEnd(); }
        i128 sx = sextw(x, w), sy = sextw(y, w);
        switch (n.sub) { case I::Add: r = x + y; break; case I::Sub: r = x - y; break; case I::Mul: r = x * y; break; case I::UDiv: r = x / y; break; case I::URem: r = x % y; break; case I::SDiv: r = sx / sy; break; case I::SRem: r = sx % sy; break; case I::And: r = x & y; break; case I::Or: r = x | y; break; case I::Xor: r = x ^ y; break; case I::Shl: r = y >= (u128)w ? 0 : x << (int)y; break; case I::LShr: r = y >= (u128)w ? 0 : x >> (int)y; break; case I::AShr: r = sx >> (y >= (u128)w ? w - 1 : (int)y); break; }
        setC(d, r & M);
      }
      return;
    }
    Expr *ea = ex(a, w), *eb = ex(b, w);
    if (isdiv) {
      errorIf(s, X.mkEq(eb, X.cst(0, w)), "arith", "division by zero");
      if (n.sub == I::SDiv || n.sub == I::SRem) if (w >= 32) { Expr* c = X.mkEq(eb, X.cst(maskw(w), w)); if (c != X.F) errorIf(s, X.mkAnd(c, X.mkEq(ea, X.cst((u128)1 << (w - 1), w))), "arith", "signed division overflow"); }
    }
    Expr* r;
    switch (n.sub) {
      case I::Add: r = X.mkAdd(ea, eb); break; case I::Sub: r = X.mkSub(ea, eb); break; case I::Mul: r = X.mkMul(ea, eb); break;
      case I::UDiv: r = X.mkUDiv(ea, eb); break; case I::URem: r = X.mkURem(ea, eb); break; case I::SDiv: r = X.mkSDiv(ea, eb); break; case I::SRem: r = X.mkSRem(ea, eb); break;
      case I::And: r = X.mkAnd(ea, eb); break; case I::Or: r = X.mkOr(ea, eb); break; case I::Xor: r = X.mkXor(ea, eb); break;
      default: {
        if (w <= 64 && eb->k != KConst && eb->umax >= (u128)w) eb = X.mkAnd(eb, X.cst(w <= 32 ? 31 : 63, w)); // x86 masks the count
        else if (eb->k == KConst && w <= 64) eb = X.cst(eb->val & (w <= 32 ? 31 : 63), w);
        r = n.sub == I::Shl ? X.mkShl(ea, eb) : n.sub == I::LShr ? X.mkLShr(ea, eb) : X.mkAShr(ea, eb); }
    }
    setE(d, simpKnown(s, r));
  }
  Expr* icmp(int p, Expr* a, Expr* b) {
    switch (p) { case ICmpInst::ICMP_EQ: return X.mkEq(a, b); case ICmpInst::ICMP_NE: return X.mkNot(X.mkEq(a, b)); case ICmpInst::ICMP_ULT: return X.mkUlt(a, b); case ICmpInst::ICMP_ULE: return X.mkUle(a, b); case ICmpInst::ICMP_UGT: return X.mkUlt(b, a); case ICmpInst::ICMP_UGE: return X.mkUle(b, a); case ICmpInst::ICMP_SLT: return X.mkSlt(a, b); case ICmpInst::ICMP_SLE: return X.mkSle(a, b); case ICmpInst::ICMP_SGT: return X.mkSlt(b, a); default: return X.mkSle(b, a); }
  }
  bool icmpC(int p, u128 x, u128 y, int w) {
    switch (p) { case ICmpInst::ICMP_EQ: return x == y; case ICmpInst::ICMP_NE: return x != y; case ICmpInst::ICMP_ULT: return x < y; case ICmpInst::ICMP_ULE: return x <= y; case ICmpInst::ICMP_UGT: return x > y; case ICmpInst::ICMP_UGE: return x >= y; }
    i128 a = sextw(x, w), b = sextw(y, w); switch (p) { case ICmpInst::ICMP_SLT: return a < b; case ICmpInst::ICMP_SLE: return a <= b; case ICmpInst::ICMP_SGT: return a > b; default: return a >= b; }
  }
  bool fcmpC(int p, long double a, long double b) { bool un = std::isnan(a) || std::isnan(b); switch (p) { case FCmpInst::FCMP_FALSE: return 0; case FCmpInst::FCMP_OEQ: return !un && a == b; case FCmpInst::FCMP_OGT: return !un && a > b; case FCmpInst::FCMP_OGE: return !un && a >= b; case FCmpInst::FCMP_OLT: return !un && a < b; case FCmpInst::FCMP_OLE: return !un && a <= b; case FCmpInst::FCMP_ONE: return !un && a != b; case FCmpInst::FCMP_ORD: return !un; case FCmpInst::FCMP_UNO: return un; case FCmpInst::FCMP_UEQ: return un || a == b; case FCmpInst::FCMP_UGT: return un || a > b; case FCmpInst::FCMP_UGE: return un || a >= b; case FCmpInst::FCMP_ULT: return un || a < b; case FCmpInst::FCMP_ULE: return un || a <= b; case FCmpInst::FCMP_UNE: return un || a != b; } return 1; }
  Expr* fcmp(int p, Expr* a, Expr* b) {
    Expr* un = X.raw(KFUno, 1, a, b, nullptr, 0); auto eq = [&] { return X.raw(KFEq, 1, a, b, nullptr, 0); }; auto lt = [&](Expr* x, Expr* y) { return X.raw(KFLt, 1, x, y, nullptr, 0); }; auto le = [&](Expr* x, Expr* y) { return X.raw(KFLe, 1, x, y, nullptr, 0); };
    switch (p) { case FCmpInst::FCMP_FALSE: return X.F; case FCmpInst::FCMP_OEQ: return eq(); case FCmpInst::FCMP_OGT: return lt(b, a); case FCmpInst::FCMP_OGE: return le(b, a); case FCmpInst::FCMP_OLT: return lt(a, b); case FCmpInst::FCMP_OLE: return le(a, b); case FCmpInst::FCMP_ONE: return X.mkOr(lt(a, b), lt(b, a)); case FCmpInst::FCMP_ORD: return X.mkNot(un); case FCmpInst::FCMP_UNO: return un; case FCmpInst::FCMP_UEQ: return X.mkOr(un, eq()); case FCmpInst::FCMP_UGT: return X.mkNot(le(a, b)); case FCmpInst::FCMP_UGE: return X.mkNot(lt(a, b)); case FCmpInst::FCMP_ULT: return X.mkNot(le(b, a)); case FCmpInst::FCMP_ULE: return X.mkNot(lt(b, a)); case FCmpInst::FCMP_UNE: return X.mkNot(eq()); } return X.T;
  }
  long double toLD(const Val& v, int fk) { return fk == 3 ? ld80(v128(v)) : fk == 2 ? (long double)asD(v.lo) : (long double)asF(v.lo); }
  u128 fromLD(long double x, int fk) { return fk == 3 ? of80(x) : fk == 2 ? ofD((double)x) : ofF((float)x); }
  void castop(State* s, Inst& n, Frame& fr) {
    using I = Instruction;
    if (n.sub == I::BitCast && ((int)n.imm != n.lanes)) { // vector <-> int reshape
      int sl = (int)n.imm; u128 acc = 0; bool sym = false; for (int i = 0; i < sl; i++) if (get(at(n.ops[0], i)).e) sym = true;
      if (sl * n.w2 > 128) { inconclusive("wide bitcast"); throw PathEnd(); }
      if (!sym) { for (int i = sl; i-- > 0;) acc = (acc << n.w2) | v128(get(at(n.ops[0], i))); for (int i = 0; i < n.lanes; i++) setC(fr.r[n.dst + i], (acc >> (i * n.w)) & maskw(n.w)); }
      else { Expr* e = nullptr; for (int i = sl; i-- > 0;) { Expr* x = ex(get(at(n.ops[0], i)), n.w2); e = e ? X.mkConcat(e, x) : x; } for (int i = 0; i < n.lanes; i++) setE(fr.r[n.dst + i], X.mkExtract(e, i * n.w, n.w)); }
      return;
    }
    for (int l = 0; l < n.lanes; l++) {
      Val a = get(at(n.ops[0], l)); Val& d = fr.r[n.dst + l]; int w = n.w, w2 = n.w2;
      if (!a.e) {
        u128 x = v128(a);
        switch (n.sub) {
          case I::Trunc: case I::PtrToInt: case I::IntToPtr: setC(d, x & maskw(w)); break; case I::ZExt: case I::BitCast: case I::AddrSpaceCast: setC(d, x); break; case I::SExt: setC(d, (u128)sextw(x, w2) & maskw(w)); break;
          case I::SIToFP: { i128 v = sextw(x, w2); setC(d, n.fk == 3 ? of80((long double)v) : n.fk == 2 ? ofD((double)v) : ofF((float)v)); break; }
          case I::UIToFP: setC(d, n.fk == 3 ? of80((long double)x) : n.fk == 2 ? ofD((double)x) : ofF((float)x)); break;
          case I::FPToSI: { long double v = toLD(a, n.fk2); long double lim = ldexpl(1.0L, w - 1); if (!(v > -lim - 1 && v < lim)) setC(d, (u128)1 << (w - 1)); else setC(d, (u128)(i128)v & maskw(w)); break; }
          case I::FPToUI: { long double v = toLD(a, n.fk2); if (!(v > -1 && v < ldexpl(1.0L, w))) { if (v < 0 && v > -ldexpl(1.0L, 63)) setC(d, (u128)(i128)v & maskw(w)); else setC(d, maskw(w)); } else setC(d, (u128)v & maskw(w)); break; }
          case I::FPExt: case I::FPTrunc: setC(d, fromLD(toLD(a, n.fk2), n.fk)); break;
          default: inconclusive("cast"); throw PathEnd();
        }
        continue;
      }
      Expr* e = a.e;
      switch (n.sub) {
        case I::Trunc: setE(d, X.mkTrunc(e, w)); break; case I::PtrToInt: case I::IntToPtr: setE(d, w <= w2 ? X.mkTrunc(e, w) : X.mkZExt(e, w)); break;
        case I::ZExt: setE(d, X.mkZExt(e, w)); break; case I::SExt: setE(d, X.mkSExt(e, w)); break; case I::BitCast: case I::AddrSpaceCast: setE(d, e); break;
        default:
          if (n.fk == 3 || n.fk2 == 3) { inconclusive("symbolic x86_fp80"); throw PathEnd(); }
          if (n.sub == I::FPToSI || n.sub == I::FPToUI) if (Expr* q = rootAbs(s, e, w, w2, n.sub == I::FPToSI)) { setE(d, q); break; }
          switch (n.sub) { case I::SIToFP: setE(d, X.mkF(KFOfSI, w, e)); break; case I::UIToFP: setE(d, X.mkF(KFOfUI, w, e)); break; case I::FPToSI: setE(d, X.mkF(KFToSI, w, e)); break; case I::FPToUI: setE(d, X.mkF(KFToUI, w, e)); break; default: setE(d, X.mkF(KFCvt, w, e)); break; }
      }
    }
  }
  // floor/ceil of sqrt(double(x)) or pow(double(x), 1.0/3) converted to an integer: a fresh integer with a sound
  // (for sqrt below 2^53: exact) integer description instead of floating-point terms.
  struct FpAbs { Expr* x; Expr* q; bool cube; int mode; }; std::vector<FpAbs> fpAbs; std::map<Expr*, int> fpIx;
  static u128 fpReal(const FpAbs& f, u128 xv) { double d = (double)(int64_t)xv; d = f.cube ? pow(d, 1.0 / 3) : sqrt(d); d = f.mode == 1 ? ceil(d) : floor(d); return (u128)(int64_t)d; }
  Expr* rootAbs(State* s, Expr* e, int w, int w2, bool sg) {
    if (w2 != 64 || w > 64) return nullptr;
    int mode = 2; Expr* r = e; if (r->k == KFRound) { mode = (int)r->val; r = r->a; if (mode > 2) return nullptr; } if (mode == 2) mode = 0;
    if (r->k != KFSqrt && r->k != KFPow3) return nullptr; bool cube = r->k == KFPow3; Expr* f = r->a; if (f->k != KFOfSI && f->k != KFOfUI) return nullptr;
    Expr* x = f->a; if (x->w > 64) return nullptr; x = x->w == 64 ? x : f->k == KFOfSI ? X.mkSExt(x, 64) : X.mkZExt(x, 64);
    auto C = [&](uint64_t v) { return X.cst(v, 64); };
    bool rangeOk = x->smin >= 0 && x->smax <= (i128)((1ll << 62) - (1ll << 33)); if (cube && !(x->smax <= (i128)(1ll << 62))) return nullptr;
    Expr* neg = X.mkSlt(x, C(0));
    if (neg != X.F) { std::vector<u128> m = s->model; if (neg == X.T || X.evalIn(neg, s->model) || S.check(s->pc, neg, m) != UNSAT) return nullptr; }
    int ix; auto it = fpIx.find(e); bool fresh = it == fpIx.end();
    if (fresh) { FpAbs a; a.x = x; a.cube = cube; a.mode = mode; if (!S.cands) S.cands = [this](const std::vector<u128>& b, const std::function<bool(const std::vector<u128>&)>& t) { rootCands(b, t); }; a.q = X.newSym("#root", 64, false, 0, cube ? 1664511 : rangeOk ? 2147483646ull : 3037000500ull); ix = fpAbs.size(); fpAbs.push_back(a); fpIx[e] = ix; } else ix = it->second;
    Expr* q = fpAbs[ix].q; size_t qi = (size_t)q->val;
    Expr* q1 = X.mkAdd(q, C(1)); Expr* qm = X.mkSub(q, C(1));
    auto P = [&](Expr* a) { Expr* b = X.mkMul(a, a); return cube ? X.mkMul(b, a) : b; };
    Expr *pq = P(q), *pq1 = P(q1), *pqm = P(qm); Expr* c;
    auto le = [&](Expr* a, Expr* b) { return X.mkUle(a, b); }; auto lt = [&](Expr* a, Expr* b) { return X.mkUlt(a, b); };
    Expr* T26 = C(1ull << 26);
    if (!cube && mode == 0) {
      Expr* up = X.mkIte(lt(x, C(1ull << 53)), X.mkAnd(X.mkEq(X.mkAdd(x, C(1)), pq), lt(T26, q)), le(pq, X.mkAdd(x, C(1024))));
      c = X.mkAnd(X.mkOr(le(pq, x), up), lt(x, pq1));
      c = X.mkAnd(c, X.mkNot(X.mkAnd(X.mkAnd(lt(x, C(1ull << 53)), lt(T26, q1)), X.mkEq(X.mkAdd(x, C(1)), pq1))));
    } else if (!cube) {
      Expr* dn = X.mkIte(lt(x, C(1ull << 53)), X.mkAnd(X.mkEq(x, X.mkAdd(pq, C(1))), le(T26, q)), le(x, X.mkAdd(pq, C(1024))));
      c = X.mkAnd(X.mkOr(le(x, pq), dn), X.mkOr(X.mkEq(q, C(0)), lt(pqm, x)));
      c = X.mkAnd(c, X.mkNot(X.mkAnd(X.mkAnd(lt(x, C(1ull << 53)), lt(T26, q)), X.mkEq(x, X.mkAdd(pqm, C(1))))));
    } else {
      // pow is off by less than 2^-46 relative (in terms of x): only values right at a cube can go to the neighbour
      Expr* sl = X.mkLShr(x, C(46)); Expr* big = le(C(1ull << 46), x);
      if (mode == 0) { Expr* dn = le(x, X.mkAdd(pq1, sl)); Expr* up = X.mkAnd(big, le(pq, X.mkAdd(x, X.mkAdd(sl, C(1))))); c = X.mkAnd(X.mkOr(le(pq, x), up), X.mkOr(lt(x, pq1), dn)); }
      else { Expr* up = le(X.mkAdd(pqm, C(0)), X.mkAdd(x, sl)); (void)up; Expr* lo = X.mkOr(X.mkEq(q, C(0)), X.mkOr(lt(pqm, x), le(pqm, X.mkAdd(x, sl)))); Expr* hi = X.mkOr(le(x, pq), X.mkAnd(big, le(x, X.mkAdd(pq, X.mkAdd(sl, C(1)))))); c = X.mkAnd(lo, hi); }
    }
    u128 xv = X.evalIn(x, s->model); S.growModel(s->model, qi); if (s->model.size() <= qi) s->model.resize(qi + 1); if (fresh || !X.evalIn(c, s->model)) s->model[qi] = fpReal(fpAbs[ix], xv);
    if (!X.evalIn(c, s->model)) { fprintf(stderr, "root abstraction does not contain the real value for %lld\n", (long long)xv); inconclusive("root abstraction"); throw PathEnd(); }
    if (fresh || true) addPC(s, c);
    Expr* res = w == 64 ? q : X.mkTrunc(q, w);
    if (w == 32 && sg && !cube && !rangeOk) res = X.mkIte(lt(q, C(1ull << 31)), res, X.cst(0x80000000u, 32));
    return res;
  }
  void rootCands(const std::vector<u128>& base, const std::function<bool(const std::vector<u128>&)>& tryM) {
    uint64_t rng = 88172645463325252ull; auto rnd = [&] { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
    for (size_t fi = 0; fi < fpAbs.size(); fi++) { Expr* x = fpAbs[fi].x; Expr* sy = x; bool ng = false; if (sy->k == KSub && sy->a->k == KConst && sy->a->val == 0) { ng = true; sy = sy->b; } while (sy->k == KZExt || sy->k == KSExt) sy = sy->a; if (sy->k != KSym) continue;
      bool cube = fpAbs[fi].cube;
      for (int it = 0; it < 3000; it++) {
        int bits = it < 400 ? it / 8 % (cube ? 21 : 31) : cube ? 21 : 31; uint64_t k = it < 400 ? (1ull << bits) - 3 + it % 8 : rnd() & ((1ull << bits) - 1); if (it >= 400 && it % 3 == 0) k = (1ull << bits) - 1 - (rnd() & ((1ull << (bits - 1)) - 1));
        for (int d = -2; d <= 2; d++) {
          uint64_t xv = (cube ? k * k * k : k * k) + d; if (ng) xv = -xv; if ((i128)(int64_t)xv < x->smin && !ng) continue;
          std::vector<u128> m = base; size_t si = (size_t)sy->val; S.growModel(m, std::max(si, m.empty() ? si : m.size() - 1)); m[si] = (u128)xv & maskw(sy->w);
          SymInfo& inf = X.syms[si]; if (inf.isSigned ? ((i128)(int64_t)xv < (i128)(int64_t)inf.lo || (i128)(int64_t)xv > (i128)(int64_t)inf.hi) : (xv < inf.lo || xv > inf.hi)) continue;
          for (auto& f : fpAbs) { size_t qi = (size_t)f.q->val; if (m.size() <= qi) S.growModel(m, qi); m[qi] = fpReal(f, X.evalIn(f.x, m)); }
          if (tryM(m)) return;
          if (X.syms.size() < 40) for (int dk = -1; dk <= 1; dk++) { std::vector<u128> m2 = m; bool any = false; for (size_t i = 0; i < X.syms.size(); i++) if (i != si && X.syms[i].name[0] != '#') { uint64_t v = k + dk; SymInfo& f2 = X.syms[i]; if (v < f2.lo || v > f2.hi) continue; S.growModel(m2, std::max(i, m2.size() - 1)); m2[i] = v; any = true; } if (any && tryM(m2)) return; }
        } } }
  }
  // counterexamples that use an unreal root value are refined away (up to a limit)
  Res refineRoots(State* s, Expr* nc, std::vector<u128>& m) {
    std::vector<Expr*> pc = s->pc;
    for (int it = 0; it < 60; it++) {
      bool ok = true;
      for (auto& f : fpAbs) { size_t qi = (size_t)f.q->val; if (qi >= m.size()) continue; bool rel = ExprCtx::intersects(nc->sup, f.q->sup); for (Expr* e : pc) rel = rel || ExprCtx::intersects(e->sup, f.q->sup); if (!rel) continue;
        u128 xv = X.evalIn(f.x, m); u128 real = fpReal(f, xv); if (real != X.evalIn(f.q, m)) { ok = false; pc.push_back(X.mkOr(X.mkNot(X.mkEq(f.x, X.cst(xv, 64))), X.mkEq(f.q, X.cst(real, 64)))); } }
      if (ok) return SAT;
      std::vector<u128> m2 = m; Res r = S.check(pc, nc, m2, true); if (r != SAT) return r == UNSAT ? UNSAT : UNKNOWN; m = m2;
    }
    return UNKNOWN;
  }
  void jump(State* s, Frame& fr, int to) {
    BB& b = CF->bbs[to]; int from = fr.bb;
    for (auto& e : b.edges) if (e.pred == from) {
      if (e.copies.size() == 1) fr.r[e.copies[0].first] = get(e.copies[0].second);
      else if (!e.copies.empty()) { static std::vector<Val> tmp; tmp.clear(); for (auto& c : e.copies) tmp.push_back(get(c.second)); for (size_t i = 0; i < tmp.size(); i++) fr.r[e.copies[i].first] = tmp[i]; }
      break;
    }
    fr.pred = from; fr.bb = to; fr.ip = 0; noteBlock(b);
  }
  void noteBlock(BB& b) {
    if (b.counted) return; b.counted = true;
    for (auto& I : *b.B) { const DebugLoc& d = I.getDebugLoc(); if (!d) continue; for (DILocation* l = d.get(); l; l = l->getInlinedAt()) if (auto* sp = l->getScope()->getSubprogram()) { std::string fl = sp->getFilename().str(); if (fl.find("altruct") != fl.npos) fnNames.insert(std::string(sp->getName().str()) + " (" + fl.substr(fl.find("altruct")) + ")"); } }
  }
  void killState(State* s) { for (auto* g : s->groups) { g->live--; } std::vector<Group*> gs = s->groups; delete s; for (size_t i = gs.size(); i-- > 0;) checkGroup(gs[i]); }
  // ---------- merging ----------
  void checkGroup(Group* g) {
    if (g->live > 0) return;
    if (g->parked.empty()) return;
    std::vector<State*> ps; ps.swap(g->parked);
    // merge pairwise
    std::vector<State*> out;
    for (State* p : ps) { bool ok = false; for (State*& q : out) if (tryMerge(q, p)) { ok = true; merges++; for (auto* og : p->groups) og->live--; delete p; break; } if (!ok) out.push_back(p); }
    for (State* q : out) push(q);
  }
  void park(State* s) { Group* g = s->groups.back(); s->groups.pop_back(); g->live--; g->parked.push_back(s); s->cacheObj = nullptr; checkGroup(g); }
  bool eqv(const Val& a, const Val& b) { return a.e == b.e && (a.e || (a.lo == b.lo && a.hi == b.hi)); }
  bool tryMerge(State* a, State* b) {
    if (a->stk.size() != b->stk.size() || a->groups != b->groups || a->autoMerge != b->autoMerge) return false;
    if (a->syms != b->syms || !a->thr.empty() || !b->thr.empty()) return false;
    for (size_t i = 0; i < a->stk.size(); i++) { Frame &x = *a->stk[i], &y = *b->stk[i]; if (&x == &y) continue; if (x.f != y.f || x.bb != y.bb || x.ip != y.ip || x.call != y.call || x.allocas != y.allocas || x.stackSave != y.stackSave) return false; }
    for (int rg = 0; rg < 3; rg++) if (a->mem[rg] != b->mem[rg]) { OMap &x = *a->mem[rg], &y = *b->mem[rg]; for (auto& kv : y) { auto it = x.find(kv.first); if (it != x.end() && it->second != kv.second && (it->second->size != kv.second->size || it->second->freed != kv.second->freed || it->second->allocKind != kv.second->allocKind)) return false; } 
      // overlapping different-size objects at different bases
      if (rg == 1) { for (auto& kv : y) if (!x.count(kv.first)) { auto it = x.upper_bound(kv.first); if (it != x.begin()) { auto p = std::prev(it); if (p->first + p->second->size + 16 > kv.first) return false; } if (it != x.end() && kv.first + kv.second->size + 16 > it->first) return false; } } }
    size_t k = 0; while (k < a->pc.size() && k < b->pc.size() && a->pc[k] == b->pc[k]) k++;
    Expr *ca = X.T, *cb = X.T; for (size_t i = k; i < a->pc.size(); i++) ca = X.mkAnd(ca, a->pc[i]); for (size_t i = k; i < b->pc.size(); i++) cb = X.mkAnd(cb, b->pc[i]);
    // prefer the simpler one as selector
    // widths are needed for register merging: use function type info lazily (slot widths)
    for (size_t i = 0; i < a->stk.size(); i++) if (a->stk[i].get() != b->stk[i].get()) {
      if (a->stk[i].use_count() > 1) a->stk[i] = std::make_shared<Frame>(*a->stk[i]);
      Frame &x = *a->stk[i], &y = *b->stk[i]; std::vector<int>& sw = slotWidths(x.f);
      for (size_t j = 0; j < x.r.size(); j++) if (!eqv(x.r[j], y.r[j])) { int w = sw[j]; if (w <= 0) { continue; } if ((x.r[j].e && x.r[j].e->w != w) || (y.r[j].e && y.r[j].e->w != w)) continue; setE(x.r[j], X.mkIte(ca, ex(x.r[j], w), ex(y.r[j], w))); }
    }
    for (int rg = 0; rg < 3; rg++) if (a->mem[rg] != b->mem[rg]) {
      OMap& y = *b->mem[rg]; OMap& x = wMap(a, rg);
      for (auto& kv : y) { auto it = x.find(kv.first); if (it == x.end()) { x[kv.first] = kv.second; continue; } if (it->second == kv.second) continue;
        if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second); Obj &p = *it->second, &q = *kv.second; if (p.freed) continue;
        for (uint64_t i = 0; i < p.size; i++) { Expr* e1 = p.s.empty() ? nullptr : p.s[i]; Expr* e2 = q.s.empty() ? nullptr : q.s[i]; if (e1 == e2 && (e1 || p.d[i] == q.d[i])) continue; Expr* v1 = e1 ? e1 : X.cst(p.d[i], 8); Expr* v2 = e2 ? e2 : X.cst(q.d[i], 8); Expr* m = X.mkIte(ca, v1, v2); if (p.s.empty()) p.s.resize(p.size, nullptr); if (m->k == KConst) { p.d[i] = (uint8_t)m->val; p.s[i] = nullptr; } else p.s[i] = m; } }
    }
    a->pc.resize(k); 
    // known facts: rebuild from common ones
    if (a->known && b->known && a->known != b->known) { auto nk = std::make_shared<std::map<Expr*, u128>>(); for (auto& kv : *a->known) { auto it = b->known->find(kv.first); if (it != b->known->end() && it->second == kv.second) nk->insert(kv); } a->known = nk; } else if (!b->known) a->known = nullptr;
    Expr* d = X.mkOr(ca, cb); if (d != X.T) a->pc.push_back(d);
    a->heapNext = std::max(a->heapNext, b->heapNext); a->stackNext = std::max(a->stackNext, b->stackNext); a->steps = std::max(a->steps, b->steps);
    return true;
  }
  std::unordered_map<Func*, std::vector<int>> sws;
  std::vector<int>& slotWidths(Func* f) {
    auto it = sws.find(f); if (it != sws.end()) return it->second; std::vector<int> v;
    std::function<void(Type*)> add = [&](Type* t) { if (t->isVoidTy()) return; if (auto* st = dyn_cast<StructType>(t)) { for (auto* e : st->elements()) add(e); return; } if (auto* at = dyn_cast<ArrayType>(t)) { for (uint64_t i = 0; i < at->getNumElements(); i++) add(at->getElementType()); return; } if (auto* vt = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(leafWidth(vt->getElementType())); return; } v.push_back(leafWidth(t)); };
    for (auto& a : f->F->args()) add(a.getType()); for (auto& b : *f->F) for (auto& i : b) add(i.getType());
    return sws[f] = v;
  }
  Group* openGroup(State* s, bool autoG, Func* f, int bb) { Group* g = new Group(); g->live = 1; g->depth = s->stk.size(); g->f = f; g->bb = bb; g->autoG = autoG; s->groups.push_back(g); return g; }
  // drop groups that can no longer be closed properly (frame returned past them)
  void popStaleGroups(State* s) { while (!s->groups.empty() && s->groups.back()->autoG && s->groups.back()->depth > s->stk.size()) { Group* g = s->groups.back(); s->groups.pop_back(); g->live--; checkGroup(g); } }

  // ---------- calls ----------
  void enter(State* s, Inst& n, Function* F, Frame& fr) {
    if (F->isDeclaration()) { inconclusive("call to external function " + demangle(F->getName().str())); throw PathEnd(); }
    Func* f = getFunc(F); if (s->stk.size() > 4000) { violation(s, "stack", "stack overflow (recursion depth > 4000)", s->model); throw PathEnd(); }
    if (!f->entered) { f->entered = true; if (auto* sp = F->getSubprogram()) { std::string fl = sp->getFilename().str(); if (fl.find("altruct") != fl.npos) fnNames.insert(std::string(sp->getName().str()) + " (" + fl.substr(fl.find("altruct")) + ")"); } }
    auto nf = std::make_shared<Frame>(); nf->f = f; nf->r.resize(f->nregs); nf->call = &n; nf->stackSave = s->stackNext;
    for (size_t i = 0; i < f->args.size(); i++) { if (i >= n.argSlots.size()) break; for (int j = 0; j < f->args[i].second && j < n.argCnt[i]; j++) nf->r[f->args[i].first + j] = get(at(n.argSlots[i], j)); }
    for (uint64_t bv : n.sc) { int ai = bv >> 32; uint64_t sz = (uint32_t)bv; Val src = get(n.argSlots[ai]); uint64_t a = allocStack(s, sz); nf->allocas.push_back(a); copyMem(s, a, concU(s, src, 64), sz); nf->r[f->args[ai].first].lo = a; nf->r[f->args[ai].first].e = nullptr; }
    fr.ip++; // resume after the call
    s->stk.push_back(nf); noteBlock(f->bbs[0]);
  }
  void copyMem(State* s, uint64_t dst, uint64_t src, uint64_t n) {
    if (!n) return; Val a; a.lo = src; uint64_t so; Expr* oe; resolve(s, a, n, false, so, &oe); Val b; b.lo = dst; uint64_t dof; Obj* o2 = resolve(s, b, n, true, dof, &oe);
    uint64_t db = o2->base; Obj* d = wObj(s, db); Obj* o = findObj(s, src); so = src - o->base;
    std::vector<uint8_t> t(o->d.begin() + so, o->d.begin() + so + n); std::vector<Expr*> ts; if (!o->s.empty()) ts.assign(o->s.begin() + so, o->s.begin() + so + n);
    memcpy(&d->d[dof], t.data(), n);
    if (!ts.empty()) { bool any = false; for (auto* x : ts) if (x) any = true; if (any && d->s.empty()) d->s.resize(d->size, nullptr); }
    if (!d->s.empty()) for (uint64_t i = 0; i < n; i++) d->s[dof + i] = ts.empty() ? nullptr : ts[i];
  }
  void doThrow(State* s) { // unwind to nearest invoke
    while (true) {
      popFrame(s); if (s->stk.empty()) { violation(s, "exception", "uncaught exception", s->model); throw PathEnd(); }
      Frame& fr = top(s); Func* f = fr.f; Inst* c = lastCall; if (c && c->invoke) { R = &fr.r; CF = f; jump(s, fr, c->unwindD); return; }
    }
  }
  Inst* lastCall = nullptr;
  void popFrame(State* s) { Frame& fr = *s->stk.back(); lastCall = fr.call; if (!fr.allocas.empty()) { OMap& m = wMap(s, 2); for (uint64_t a : fr.allocas) m.erase(a); } s->stackNext = fr.stackSave; s->stk.pop_back(); popStaleGroups(s); }
  void retVal(State* s, Inst& n, const std::vector<Val>& vs) { // return from builtin
    Frame& fr = top(s); for (size_t i = 0; i < vs.size() && (int)i < n.retCnt; i++) fr.r[n.dst + i] = vs[i];
    advance(s, n);
  }
  void advance(State* s, Inst& n) { Frame& fr = top(s); R = &fr.r; CF = fr.f; if (n.invoke) jump(s, fr, n.normalD); else fr.ip++; }
  Val mk(u128 v) { Val x; setC(x, v); return x; }
  Val mkv(Expr* e) { Val x; setE(x, e); return x; }
  Expr* popcnt(Expr* e) { int w = e->w; Expr* r = X.cst(0, w); for (int i = 0; i < w; i++) r = X.mkAdd(r, X.mkZExt(X.mkExtract(e, i, 1), w)); return r; }
  Expr* popcntTree(Expr* e, int lo, int n, int w) { if (n == 1) return X.mkZExt(X.mkExtract(e, lo, 1), w); int h = n / 2; return X.mkAdd(popcntTree(e, lo, h, w), popcntTree(e, lo + h, n - h, w)); }
  void makeSym(State* s, Inst& n, const std::string& name, int w, bool sg, uint64_t lo, uint64_t hi) {
    size_t ord = s->syms.size(); 
    static std::map<std::tuple<size_t, std::string, int, bool, uint64_t, uint64_t>, Expr*> symIntern;
    auto key = std::make_tuple(ord, name, w, sg, lo, hi); auto it = symIntern.find(key); Expr* e;
    int need = w;
    if (it != symIntern.end()) e = it->second;
    else {
      // choose the smallest width that holds the range
      if (!sg) need = std::max(1, bitlen(hi)); else { int a = bitlen((int64_t)hi < 0 ? (u128) ~hi & maskw(64) : (u128)hi), b = bitlen((int64_t)lo < 0 ? (u128)(~lo & maskw(64)) : (u128)lo); need = std::max(a, b) + 1; }
      if (need > w) need = w;
      if (lo == hi) e = X.cst(lo, w);
      else e = X.newSym(name, need, sg, sg ? lo : lo, hi);
      symIntern[key] = e;
    }
    if (e->k == KConst) { // degenerate: still record for replay through a pseudo symbol
      Expr* pseudo = X.newSym(name, w, sg, lo, hi); symIntern[key] = pseudo; e = pseudo; }
    s->syms.push_back(e); size_t ix = (size_t)e->val; if (s->model.size() <= ix) S.growModel(s->model, ix);
    Expr* v = e->umin == e->umax ? X.cst(e->umin, e->w) : e; v = sg ? X.mkSExt(v, 64) : X.mkZExt(v, 64);
    retVal(s, n, {mkv(v)});
  }
  // model must hold a legal value for fresh symbols: growModel uses range low.

  void builtin(State* s, Inst& n, Frame& fr) {
    auto A = [&](int i) -> Val& { return get(n.argSlots[i]); };
    switch (n.builtin) {
      case B_nop: case B_exctor: if (n.retCnt) retVal(s, n, {n.argSlots.empty() ? mk(0) : A(0)}); else advance(s, n); return;
      case B_nop0: if (n.retCnt) retVal(s, n, {mk(0)}); else advance(s, n); return;
      case B_stacksave: retVal(s, n, {mk(0)}); return;
      case B_sym_u: { std::string nm = cstr(s, A(0).lo); makeSym(s, n, nm, 64, false, A(1).lo, A(2).lo); return; }
      case B_sym_i: { std::string nm = cstr(s, A(0).lo); makeSym(s, n, nm, 64, true, A(1).lo, A(2).lo); return; }
      case B_param: { std::string nm = cstr(s, A(0).lo); auto it = params.find(nm); retVal(s, n, {it == params.end() ? A(1) : mk((uint64_t)it->second)}); return; }
      case B_choose: { // fresh symbol, concretized by forking over all values
        std::string nm = cstr(s, A(0).lo); uint64_t cnt = concU(s, A(1), 64); if (cnt == 0) { inconclusive("sv_choose(0)"); throw PathEnd(); }
        // one state per value
        Frame& f0 = top(s); (void)f0;
        // create symbol with range
        size_t before = s->syms.size(); (void)before;
        makeSym(s, n, nm, 64, false, 0, cnt - 1);
        Frame& f1 = top(s); Val v = n.invoke ? Val() : f1.r[n.dst]; Expr* e = s->syms.back();
        if (cnt == 1) { setC(f1.r[n.dst], 0); return; }
        (void)v;
        for (uint64_t k = cnt - 1; k >= 1; k--) { State* o = clone(s); S.growModel(o->model, (size_t)e->val); o->model[(size_t)e->val] = k; addPC(o, X.mkEq(e, X.cst(k, e->w))); Frame& g = top(o); setC(g.r[n.dst], k); push(o); }
        S.growModel(s->model, (size_t)e->val); s->model[(size_t)e->val] = 0; addPC(s, X.mkEq(e, X.cst(0, e->w))); Frame& g = top(s); setC(g.r[n.dst], 0); return; }
      case B_assume: { Expr* c = X.mkNot(X.mkEq(ex(A(0), n.w2), X.cst(0, n.w2))); if (knownBool(s, c) == 1) { advance(s, n); return; } if (!feasibleAdd(s, c)) throw PathEnd(); advance(s, n); return; }
      case B_assumeintr: advance(s, n); return;
      case B_assert: {
        Expr* c = X.mkNot(X.mkEq(ex(A(0), n.w2), X.cst(0, n.w2))); std::string msg = cstr(s, A(1).lo); asserts++; assertCount[msg]++;
        if (c == X.T) { assertsConst++; assertsProved++; advance(s, n); return; }
        if (knownBool(s, c) == 1) { assertsProved++; advance(s, n); return; }
        Expr* nc = X.mkNot(c); std::vector<u128> m = s->model; Res r; double tA = nowS(); struct TA { double t; std::string m; ~TA() { static bool on = getenv("SV_TIMES"); double d = nowS() - t; if (on && d > 0.5) fprintf(stderr, "assert %.1fs %s\n", d, m.c_str()); } } ta{tA, msg};
        if (nc == X.T) r = SAT; else if (X.evalIn(nc, s->model)) r = SAT; else r = S.check(s->pc, nc, m, true);
        if (r == SAT && !fpAbs.empty()) { Res r2 = refineRoots(s, nc, m); if (r2 == UNSAT) r = UNSAT; else if (r2 == UNKNOWN) { inconclusive("floating-point root abstraction: no real counterexample found for " + msg); if (c == X.F || !feasibleAdd(s, c)) throw PathEnd(); advance(s, n); return; } }
        if (r == SAT) { violation(s, "assert", msg, m); if (c == X.F || !feasibleAdd(s, c)) throw PathEnd(); }
        else if (r == UNSAT) { assertsProved++; addKnown(s, c, 1); }
        else { inconclusive("solver: assert " + msg); }
        advance(s, n); return; }
      case B_known: { // sv_known(id, cond): region of a recorded finding
        std::string id = cstr(s, A(0).lo); Expr* c = X.mkNot(X.mkEq(ex(A(1), 32), X.cst(0, 32)));
        if (onlyKnown == id) { if (!feasibleAdd(s, c)) throw PathEnd(); }
        else if (knownOn.count(id)) { if (!feasibleAdd(s, X.mkNot(c))) throw PathEnd(); }
        advance(s, n); return; }
      case B_reach: { std::string l = cstr(s, A(0).lo); reach[l]++; advance(s, n); return; }
      case B_thrstart: { // a new suspended thread of control that starts in A(0)(A(1))
        uint64_t a = concU(s, A(0), 64); auto it = addrF.find(a); if (it == addrF.end() || it->second->isDeclaration()) { inconclusive("sv_thread_start: unknown function"); throw PathEnd(); }
        if (s->thr.empty()) s->thr.emplace_back();
        Func* f = getFunc(it->second); auto nf = std::make_shared<Frame>(); nf->f = f; nf->r.resize(f->nregs); nf->call = nullptr; uint64_t base = 0x7f0000000000ull + ((uint64_t)s->thr.size() << 32); nf->stackSave = base;
        if (!f->args.empty()) nf->r[f->args[0].first] = A(1); noteBlock(f->bbs[0]);
        s->thr.emplace_back(); s->thr.back().stk.push_back(nf); s->thr.back().stackNext = base; retVal(s, n, {mk(s->thr.size() - 1)}); return; }
      case B_thrswitch: {
        uint64_t t = concU(s, A(0), 64); if (t >= std::max<size_t>(s->thr.size(), 1)) { inconclusive("sv_thread_switch: no such thread"); throw PathEnd(); }
        advance(s, n); if (t == s->curT) return;
        if (s->thr[t].stk.empty()) { inconclusive("sv_thread_switch: thread has ended"); throw PathEnd(); }
        s->thr[s->curT].stk = std::move(s->stk); s->thr[s->curT].stackNext = s->stackNext; s->stk = std::move(s->thr[t].stk); s->thr[t].stk.clear(); s->stackNext = s->thr[t].stackNext; s->curT = t;
        Frame& fr = top(s); R = &fr.r; CF = fr.f; return; }
      case B_thrself: { retVal(s, n, {mk(s->curT)}); return; }
      case B_mark: { advance(s, n); return; }
      case B_conc: { Val v = A(0); u128 x = v.e ? concretize(s, v.e) : v128(v); retVal(s, n, {mk(x)}); return; }
      case B_ite: { Expr* c = X.mkNot(X.mkEq(ex(A(0), 32), X.cst(0, 32))); retVal(s, n, {mkv(X.mkIte(c, ex(A(1), 64), ex(A(2), 64)))}); return; }
      case B_issym: retVal(s, n, {mk(A(0).e != nullptr)}); return;
      case B_print: { fprintf(stderr, "[sv] %s = %s\n", cstr(s, A(0).lo).c_str(), A(1).e ? X.str(A(1).e, 8).c_str() : std::to_string((long long)A(1).lo).c_str()); advance(s, n); return; }
      case B_automerge: s->autoMerge = (int)A(0).lo; advance(s, n); return;
      case B_mopen: openGroup(s, false, nullptr, -1); advance(s, n); return;
      case B_mclose: {
        // discard auto groups opened above the explicit one
        while (!s->groups.empty() && s->groups.back()->autoG) { Group* g = s->groups.back(); s->groups.pop_back(); g->live--; checkGroup(g); }
        advance(s, n); if (s->groups.empty()) return; park(s); throw Refork(); }
      case B_heaplive: { uint64_t c = 0; for (auto& kv : *s->mem[1]) if (!kv.second->freed && kv.second->allocKind != 9) c++; retVal(s, n, {mk(c)}); return; }
      case B_malloc: { uint64_t sz = concU(s, A(0), 64); if (sz > (1ull << 28)) { if (sz > (1ull << 40)) { violation(s, "memory", "huge allocation", s->model); throw PathEnd(); } inconclusive("allocation too large"); throw PathEnd(); } const char* nm = n.callee->getName().data(); int ak = nm[0] == 'm' ? 1 : nm[3] == 'w' ? 2 : 3; uint64_t a = allocHeap(s, sz, ak, 0xBE); retVal(s, n, {mk(a)}); return; }
      case B_calloc: { uint64_t x = concU(s, A(0), 64), y = concU(s, A(1), 64); uint64_t a = allocHeap(s, x * y, 1, 0); retVal(s, n, {mk(a)}); return; }
      case B_realloc: { uint64_t p = concU(s, A(0), 64), sz = concU(s, A(1), 64); uint64_t a = allocHeap(s, sz, 1, 0xBE); if (p) { Obj* o = findObj(s, p); if (!o || o->base != p || o->freed) { violation(s, "memory", "bad realloc", s->model); throw PathEnd(); } uint64_t c = std::min(o->size, sz); copyMem(s, a, p, c); wObj(s, p)->freed = true; } retVal(s, n, {mk(a)}); return; }
      case B_free: case B_delete: { uint64_t p = concU(s, A(0), 64); if (p) { OMap& m = *s->mem[region(p)]; auto it = m.find(p); if (it == m.end() || it->second->kind != 1) { violation(s, "memory", "free of invalid pointer", s->model); throw PathEnd(); } if (it->second->freed) { violation(s, "memory", "double free", s->model); throw PathEnd(); }
            const char* nm = n.callee->getName().data(); int ak = nm[0] == 'f' ? 1 : nm[3] == 'l' ? 2 : 3; if (ak != it->second->allocKind) { violation(s, "memory", "mismatched allocation/deallocation", s->model); throw PathEnd(); }
            Obj* o = wObj(s, p); o->freed = true; o->s.clear(); }
          advance(s, n); return; }
      case B_memcpy: { uint64_t c = concU(s, A(2), 64); uint64_t d = concU(s, A(0), 64), sr = concU(s, A(1), 64); if (c) copyMem(s, d, sr, c); if (n.retCnt) retVal(s, n, {mk(d)}); else advance(s, n); return; }
      case B_memset: { uint64_t c = concU(s, A(2), 64); uint64_t d = concU(s, A(0), 64); Val v = A(1); if (c) { Val a; a.lo = d; uint64_t off; Expr* oe; Obj* o = resolve(s, a, c, true, off, &oe); Obj* w = wObj(s, o->base); Expr* b = v.e ? X.mkTrunc(v.e, 8) : X.cst(v.lo & 255, 8); if (b->k == KConst && w->s.empty()) memset(&w->d[off], (int)b->val, c); else for (uint64_t i = 0; i < c; i++) writeBytes(w, off + i, 1, b); } if (n.retCnt) retVal(s, n, {mk(d)}); else advance(s, n); return; }
      case B_abort: violation(s, "abort", "abort/terminate/library precondition failure (" + demangle(n.callee->getName().str()) + ")", s->model); throw PathEnd();
      case B_exit: violation(s, "abort", "exit called", s->model); throw PathEnd();
      case B_allocexc: { uint64_t a = allocHeap(s, concU(s, A(0), 64) + 64, 9, 0); retVal(s, n, {mk(a)}); return; }
      case B_throw: { s->exc = A(0); Frame& f = top(s); if (n.invoke) { R = &f.r; CF = f.f; jump(s, f, n.unwindD); return; } doThrow(s); return; }
      case B_begincatch: retVal(s, n, {A(0)}); return;
      case B_endcatch: advance(s, n); return;
      case B_typeidfor: retVal(s, n, {mk(1)}); return;
      case B_guardacq: { Expr* b = bytePtrRead(s, A(0).lo); retVal(s, n, {mk(b->k == KConst && b->val == 0)}); return; }
      case B_guardrel: { Obj* o = findObj(s, A(0).lo); uint64_t off = A(0).lo - o->base; writeBytes(wObj(s, A(0).lo), off, 1, X.cst(1, 8)); advance(s, n); return; }
      case B_isconst: retVal(s, n, {mk(0)}); return;
      case B_objsize: retVal(s, n, {mk(maskw(64))}); return;
      case B_expect: retVal(s, n, {A(0)}); return;
      case B_overflow: { int w = n.w2; Expr *a = ex(A(0), w), *b = ex(A(1), w); Expr *r, *o; Intrinsic::ID id = n.callee->getIntrinsicID();
          int ww = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? 2 * w : w + 1; bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
          if (ww > 128) { inconclusive("wide overflow intrinsic"); throw PathEnd(); }
          Expr *wa = sg ? X.mkSExt(a, ww) : X.mkZExt(a, ww), *wb = sg ? X.mkSExt(b, ww) : X.mkZExt(b, ww), *wr;
          switch (id) { case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: r = X.mkAdd(a, b); wr = X.mkAdd(wa, wb); break; case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: r = X.mkSub(a, b); wr = X.mkSub(wa, wb); break; default: r = X.mkMul(a, b); wr = X.mkMul(wa, wb); }
          if (id == Intrinsic::uadd_with_overflow) o = X.mkUlt(r, a); else if (id == Intrinsic::usub_with_overflow) o = X.mkUlt(a, b); else o = X.mkNot(X.mkEq(wr, sg ? X.mkSExt(r, ww) : X.mkZExt(r, ww)));
          retVal(s, n, {mkv(r), mkv(o)}); return; }
      case B_ctpop: case B_ctlz: case B_cttz: case B_bswap: case B_bitrev: case B_abs: {
          std::vector<Val> out; int L = n.retCnt, w = n.w;
          for (int l = 0; l < L; l++) { Val a = get(at(n.argSlots[0], l)); Expr* r = nullptr;
            if (!a.e) { u128 v = v128(a), x = 0; switch (n.builtin) { case B_ctpop: x = __builtin_popcountll((uint64_t)v) + __builtin_popcountll((uint64_t)(v >> 64)); break; case B_ctlz: x = w - bitlen(v); break; case B_cttz: { int c = 0; while (c < w && !((v >> c) & 1)) c++; x = c; break; } case B_bswap: for (int i = 0; i < w / 8; i++) x |= ((v >> (8 * i)) & 255) << (w - 8 - 8 * i); break; case B_bitrev: for (int i = 0; i < w; i++) x |= ((v >> i) & 1) << (w - 1 - i); break; case B_abs: x = sextw(v, w) < 0 ? ((u128)0 - v) & maskw(w) : v; break; } out.push_back(mk(x)); continue; }
            Expr* e = a.e;
            switch (n.builtin) { case B_ctpop: r = popcntTree(e, 0, w, w); break;
              case B_ctlz: r = X.cst(w, w); for (int i = 0; i < w; i++) r = X.mkIte(X.mkExtract(e, i, 1), X.cst(w - 1 - i, w), r); break;
              case B_cttz: r = X.cst(w, w); for (int i = w; i-- > 0;) r = X.mkIte(X.mkExtract(e, i, 1), X.cst(i, w), r); break;
              case B_bswap: for (int i = 0; i < w / 8; i++) { Expr* b = X.mkExtract(e, 8 * i, 8); r = r ? X.mkConcat(r, b) : b; } break;
              case B_bitrev: for (int i = 0; i < w; i++) { Expr* b = X.mkExtract(e, i, 1); r = r ? X.mkConcat(r, b) : b; } break;
              case B_abs: r = X.mkIte(X.mkSlt(e, X.cst(0, w)), X.mkSub(X.cst(0, w), e), e); break; }
            out.push_back(mkv(r)); }
          retVal(s, n, out); return; }
      case B_fsh: { int w = n.w; bool left = n.callee->getIntrinsicID() == Intrinsic::fshl; std::vector<Val> out; for (int l = 0; l < n.retCnt; l++) { Expr *a = ex(get(at(n.argSlots[0], l)), w), *b = ex(get(at(n.argSlots[1], l)), w), *c = ex(get(at(n.argSlots[2], l)), w); Expr* m = (w & (w - 1)) == 0 ? X.mkAnd(c, X.cst(w - 1, w)) : X.mkURem(c, X.cst(w, w)); Expr* z = X.mkEq(m, X.cst(0, w)); Expr* inv = X.mkSub(X.cst(w, w), m);
            Expr* r = left ? X.mkIte(z, a, X.mkOr(X.mkShl(a, m), X.mkLShr(b, inv))) : X.mkIte(z, b, X.mkOr(X.mkShl(a, inv), X.mkLShr(b, m))); out.push_back(mkv(r)); } retVal(s, n, out); return; }
      case B_minmax: { int w = n.w; std::vector<Val> out; for (int l = 0; l < n.retCnt; l++) { Expr *a = ex(get(at(n.argSlots[0], l)), w), *b = ex(get(at(n.argSlots[1], l)), w); Expr* r; switch (n.callee->getIntrinsicID()) { case Intrinsic::umin: r = X.mkIte(X.mkUlt(a, b), a, b); break; case Intrinsic::umax: r = X.mkIte(X.mkUlt(a, b), b, a); break; case Intrinsic::smin: r = X.mkIte(X.mkSlt(a, b), a, b); break; default: r = X.mkIte(X.mkSlt(a, b), b, a); } out.push_back(mkv(simpKnown(s, r))); } retVal(s, n, out); return; }
      case B_sat: { int w = n.w; Expr *a = ex(A(0), w), *b = ex(A(1), w); Expr* r; switch (n.callee->getIntrinsicID()) { case Intrinsic::usub_sat: r = X.mkIte(X.mkUlt(a, b), X.cst(0, w), X.mkSub(a, b)); break; case Intrinsic::uadd_sat: { Expr* t = X.mkAdd(a, b); r = X.mkIte(X.mkUlt(t, a), X.cst(maskw(w), w), t); break; } default: inconclusive("signed sat"); throw PathEnd(); } retVal(s, n, {mkv(r)}); return; }
      case B_vecreduce: { int w = n.w; Expr* r = nullptr; int L = (int)n.imm; for (int l = 0; l < L; l++) { Expr* e = ex(get(at(n.argSlots[0], l)), w); if (!r) { r = e; continue; } switch (n.callee->getIntrinsicID()) { case Intrinsic::vector_reduce_add: r = X.mkAdd(r, e); break; case Intrinsic::vector_reduce_or: r = X.mkOr(r, e); break; case Intrinsic::vector_reduce_and: r = X.mkAnd(r, e); break; case Intrinsic::vector_reduce_mul: r = X.mkMul(r, e); break; default: r = X.mkXor(r, e); } } retVal(s, n, {mkv(r)}); return; }
      case B_fmuladd: { if (A(0).e || A(1).e || A(2).e) { int w = n.w; if (n.fk == 3) { inconclusive("fp80"); throw PathEnd(); } retVal(s, n, {mkv(X.mkF(KFAdd, w, X.mkF(KFMul, w, ex(A(0), w), ex(A(1), w)), ex(A(2), w)))}); return; } long double x; if (n.fk == 2) x = asD(A(0).lo) * asD(A(1).lo) + asD(A(2).lo); else if (n.fk == 1) x = asF(A(0).lo) * asF(A(1).lo) + asF(A(2).lo); else x = toLD(A(0), 3) * toLD(A(1), 3) + toLD(A(2), 3); retVal(s, n, {mk(fromLD(x, n.fk))}); return; }
      case B_isfpclass: { if (A(0).e || n.fk2 == 3) { inconclusive("is.fpclass"); throw PathEnd(); } double x = n.fk2 == 2 ? asD(A(0).lo) : asF(A(0).lo); int m = (int)A(1).lo, r = 0; if (std::isnan(x)) r = m & 3; else if (std::isinf(x)) r = m & (x < 0 ? 4 : 512); else if (x == 0) r = m & (std::signbit(x) ? 32 : 64); else r = m & (std::fpclassify(x) == FP_SUBNORMAL ? (x < 0 ? 16 : 128) : (x < 0 ? 8 : 256)); retVal(s, n, {mk(r != 0)}); return; }
      case B_fpintr: case B_fmath1: {
          std::string nm = n.callee->isIntrinsic() ? Intrinsic::getBaseName(n.callee->getIntrinsicID()).str().substr(5) : n.callee->getName().str(); if (!n.callee->isIntrinsic() && (nm.back() == 'l' && nm != "ceil") ) nm.pop_back(); else if (!n.callee->isIntrinsic() && nm.size() > 4 && nm.back() == 'f' && (n.fk == 1)) nm.pop_back();
          bool two = n.argSlots.size() > 1; bool sym = A(0).e || (two && A(1).e); int fk = n.fk2 ? n.fk2 : n.fk;
          if (sym) {
            int w = n.w; if (fk == 3) { inconclusive("symbolic x86_fp80"); throw PathEnd(); }
            if (nm == "sqrt") { retVal(s, n, {mkv(X.mkF(KFSqrt, w, A(0).e))}); return; }
            int md = nm == "floor" ? 0 : nm == "ceil" ? 1 : nm == "trunc" ? 2 : nm == "round" ? 3 : nm == "rint" || nm == "nearbyint" ? 4 : -1;
            if (md >= 0) { retVal(s, n, {mkv(X.mkF(KFRound, w, A(0).e, nullptr, md))}); return; }
            if (nm == "pow" && w == 64 && A(0).e && !A(1).e && asD(A(1).lo) == 1.0 / 3) { retVal(s, n, {mkv(X.mkF(KFPow3, w, A(0).e))}); return; }
            if (nm == "fabs") { retVal(s, n, {mkv(X.mkF(KFAbs, w, A(0).e))}); return; }
            inconclusive("symbolic math function " + nm); throw PathEnd();
          }
          if (nm == "ldexp") { retVal(s, n, {mk(ofD(ldexp(asD(A(0).lo), (int)A(1).lo)))}); return; } if (nm == "powi") { retVal(s, n, {mk(fromLD(__builtin_powi(toLD(A(0), fk), (int)A(1).lo), n.fk))}); return; }
          if (nm == "lround" || nm == "llround") { retVal(s, n, {mk((uint64_t)llround(asD(A(0).lo)))}); return; }
          std::vector<Val> out; for (int l = 0; l < n.retCnt; l++) { Val a = get(at(n.argSlots[0], l)); Val bv = two ? get(at(n.argSlots[1], l)) : Val();
          long double x = toLD(a, fk), y = two ? toLD(bv, fk) : 0, r = 0; bool d = fk != 3;
#define F1(name) else if (nm == #name) r = d ? (fk == 1 ? (long double)name##f((float)x) : (long double)name((double)x)) : name##l(x);
#define F2(name) else if (nm == #name) r = d ? (fk == 1 ? (long double)name##f((float)x, (float)y) : (long double)name((double)x, (double)y)) : name##l(x, y);
          if (nm == "maxnum") r = fmaxl(x, y); else if (nm == "minnum") r = fminl(x, y);
          F1(sqrt) F1(floor) F1(ceil) F1(cbrt) F1(log) F1(log2) F1(log10) F1(exp) F1(sin) F1(cos) F1(tan) F1(fabs) F1(round) F1(trunc) F1(atan) F1(acos) F1(asin) F1(exp2) F1(nearbyint) F1(rint) F1(expm1) F1(log1p) F1(sinh) F1(cosh) F1(tanh) F2(pow) F2(fmod) F2(atan2) F2(fmax) F2(fmin) F2(copysign)
          else { inconclusive("math function " + nm); throw PathEnd(); }
          out.push_back(mk(fromLD(r, n.fk))); }
          retVal(s, n, out); return; }
    }
    inconclusive("builtin"); throw PathEnd();
  }
  // ---------- main loop ----------
  void run(State* s) {
    cur = s;
    try {
      while (true) {
        Frame& fr = top(s); R = &fr.r; CF = fr.f; Inst& n = CF->bbs[fr.bb].in[fr.ip]; curInst = &n;
        if (++s->steps > maxSteps) { violation(s, "hang", "path exceeded the step limit", s->model); inconclusive("step limit"); throw PathEnd(); }
        if ((++totalSteps & 0xfff) == 0) { if (nowS() - t0 > maxTime) { budgetOut = true; throw PathEnd(); } if ((totalSteps & 0xffffff) == 0) checkMem(); }
        switch (n.op) {
          case OBin: for (int l = 0; l < n.lanes; l++) binop(s, n, l, fr); fr.ip++; break;
          case OCast: castop(s, n, fr); fr.ip++; break;
          case OICmp: for (int l = 0; l < n.lanes; l++) { Val a = get(at(n.ops[0], l)), b = get(at(n.ops[1], l)); if (!a.e && !b.e) { fr.r[n.dst + l].lo = n.w <= 64 && n.sub <= ICmpInst::ICMP_ULE ? icmpC(n.sub, a.lo, b.lo, 64) : icmpC(n.sub, v128(a), v128(b), n.w); fr.r[n.dst + l].hi = 0; fr.r[n.dst + l].e = nullptr; } else setE(fr.r[n.dst + l], icmp(n.sub, ex(a, n.w), ex(b, n.w))); } fr.ip++; break;
          case OFCmp: for (int l = 0; l < n.lanes; l++) { Val a = get(at(n.ops[0], l)), b = get(at(n.ops[1], l)); if (!a.e && !b.e) setC(fr.r[n.dst + l], fcmpC(n.sub, toLD(a, n.fk), toLD(b, n.fk))); else { if (n.fk == 3) { inconclusive("symbolic x86_fp80"); throw PathEnd(); } setE(fr.r[n.dst + l], fcmp(n.sub, ex(a, n.w), ex(b, n.w))); } } fr.ip++; break;
          case OFNeg: for (int l = 0; l < n.lanes; l++) { Val a = get(at(n.ops[0], l)); if (a.e) setE(fr.r[n.dst + l], X.mkF(KFNeg, n.w, a.e)); else setC(fr.r[n.dst + l], v128(a) ^ ((u128)1 << (n.w - 1))); } fr.ip++; break;
          case OSelect: {
            for (int l = 0; l < n.lanes; l++) { Val c = get(n.imm ? at(n.ops[0], l) : n.ops[0]); Val a = get(at(n.ops[1], l)), b = get(at(n.ops[2], l)); if (c.e) { int kb = knownBool(s, c.e); if (kb >= 0) { c.e = nullptr; c.lo = kb; } } if (!c.e) fr.r[n.dst + l] = (c.lo & 1) ? a : b; else { if (eqv(a, b)) fr.r[n.dst + l] = a; else { int w = n.leaves[l].w; setE(fr.r[n.dst + l], X.mkIte(c.e, ex(a, w), ex(b, w))); } } }
            fr.ip++; break; }
          case OLoad: doLoad(s, n, fr); fr.ip++; break;
          case OStore: doStore(s, n); top(s).ip++; break;
          case OAlloca: { Val c = get(n.ops[0]); uint64_t cnt = concU(s, c, n.w2); uint64_t a = allocStack(s, n.imm * cnt); fr.allocas.push_back(a); setC(fr.r[n.dst], a); fr.ip++; break; }
          case OGep: {
            Val b = get(n.ops[0]); bool sym = b.e; for (size_t i = 1; i < n.ops.size() && !sym; i++) sym = get(n.ops[i]).e;
            if (!sym) { uint64_t a = b.lo + n.imm; for (size_t i = 1; i < n.ops.size(); i++) { Val& ix = get(n.ops[i]); int w = n.argCnt[i - 1]; a += (uint64_t)(int64_t)sextw(ix.lo, w) * n.sc[i - 1]; } fr.r[n.dst].lo = a; fr.r[n.dst].hi = 0; fr.r[n.dst].e = nullptr; }
            else { Expr* a = X.mkAdd(ex(b, 64), X.cst(n.imm, 64)); for (size_t i = 1; i < n.ops.size(); i++) { Val& ix = get(n.ops[i]); int w = n.argCnt[i - 1]; Expr* e = X.mkSExt(ex(ix, w), 64); if (w > 64) e = X.mkTrunc(ex(ix, w), 64); a = X.mkAdd(a, X.mkMul(e, X.cst(n.sc[i - 1], 64))); } setE(fr.r[n.dst], a); }
            fr.ip++; break; }
          case OCopy: if (n.lanes == 1) fr.r[n.dst] = get(n.ops[0]); else { for (int l = 0; l < n.lanes; l++) fr.r[n.dst + l] = get(at(n.ops[0], l)); } fr.ip++; break;
          case OShuffle: { std::vector<Val> t; for (int o : n.ops) t.push_back(get(o)); for (size_t i = 0; i < t.size(); i++) fr.r[n.dst + i] = t[i]; fr.ip++; break; }
          case OBr: jump(s, fr, n.t); afterJump(s); break;
          case OCondBr: {
            Val c = get(n.ops[0]);
            if (!c.e) { jump(s, fr, (c.lo & 1) ? n.t : n.f); afterJump(s); break; }
            int ipd = CF->bbs[fr.bb].ipdom; Group* g = nullptr;
            if (s->autoMerge && ipd >= 0 && knownBool(s, c.e) < 0) g = openGroup(s, true, CF, ipd);
            State* o = nullptr; int v = branch(s, c.e, &o);
            if (!o && g) { s->groups.pop_back(); delete g; g = nullptr; }
            if (o) { Frame& fo = top(o); auto* sr = R; R = &fo.r; jump(o, fo, v ? n.f : n.t); R = sr; Frame& f2 = top(s); R = &f2.r; jump(s, f2, v ? n.t : n.f); State* me = s; 
              bool po = arrived(o), pm = arrived(me);
              if (po) park(o); else push(o);
              if (pm) { park(me); throw Refork(); }
              break; }
            Frame& f2 = top(s); R = &f2.r; jump(s, f2, v ? n.t : n.f); afterJump(s); break; }
          case OSwitch: {
            Val c = get(n.ops[0]);
            if (c.e && s->known) { auto it = s->known->find(c.e); if (it != s->known->end()) { setC(c, it->second); } }
            if (!c.e) { int to = n.f; u128 x = v128(c); for (auto& k : n.cases) if (k.first == x) { to = k.second; break; } jump(s, fr, to); afterJump(s); break; }
            // group by destination
            std::map<int, Expr*> dest; Expr* any = X.F; for (auto& k : n.cases) { Expr* q = X.mkEq(c.e, X.cst(k.first, n.w)); any = X.mkOr(any, q); auto& d = dest[k.second]; d = d ? X.mkOr(d, q) : q; } { Expr* q = X.mkNot(any); auto& d = dest[n.f]; d = d ? X.mkOr(d, q) : q; }
            int ipd = CF->bbs[fr.bb].ipdom; bool g = false; if (s->autoMerge && ipd >= 0) { openGroup(s, true, CF, ipd); g = true; }
            std::vector<State*> outs; std::vector<std::pair<int, Expr*>> ds(dest.begin(), dest.end()); (void)g;
            State* curS = s; bool done = false;
            for (size_t i = 0; i < ds.size(); i++) {
              State* o = nullptr; int v = branch(curS, ds[i].second, &o);
              if (v) { Frame& f2 = top(curS); auto* sr = R; R = &f2.r; jump(curS, f2, ds[i].first); R = sr; outs.push_back(curS); if (!o) { done = true; break; } curS = o; }
              else if (o) { Frame& f2 = top(o); auto* sr = R; R = &f2.r; jump(o, f2, ds[i].first); R = sr; outs.push_back(o); }
            }
            if (!done) { bool in = false; for (auto* q : outs) if (q == curS) in = true; if (!in) { inconclusive("switch residue"); killState(curS); if (curS == s) s = nullptr; } }
            bool keep = false; for (auto* q : outs) { if (arrived(q)) park(q); else if (q == s) keep = true; else push(q); }
            if (!keep) throw Refork();
            break; }
          case OUnreachable: violation(s, "unreachable", "reached unreachable code (undefined behaviour)", s->model); throw PathEnd();
          case ORet: {
            static std::vector<Val> rv; rv.clear(); for (int l = 0; l < n.lanes; l++) rv.push_back(get(at(n.ops[0], l)));
            popFrame(s); Inst* call = lastCall;
            if (s->curT && (s->stk.empty() || !call)) { inconclusive("a thread returned from its first function"); throw PathEnd(); }
            if (s->stk.empty() || !call) { paths++; endPath(s); throw PathEnd(); }
            Frame& c = top(s); R = &c.r; CF = c.f; for (int l = 0; l < call->retCnt && l < (int)rv.size(); l++) c.r[call->dst + l] = rv[l];
            if (call->invoke) { jump(s, c, call->normalD); afterJump(s); }
            break; }
          case OCall: {
            if (n.callee) { if (n.builtin >= 0) { builtin(s, n, fr); if (n.invoke) afterJump(s); } else enter(s, n, n.callee, fr); break; }
            Val c = get(n.ops[0]); uint64_t a = concU(s, c, 64); auto it = addrF.find(a); if (it == addrF.end()) { violation(s, "memory", a < 4096 ? "call through null function pointer" : "call through bad function pointer", s->model); throw PathEnd(); }
            int b = builtinOf(it->second); if (b >= 0) { Inst* c2 = new Inst(n); c2->callee = it->second; c2->builtin = b; builtin(s, *c2, top(s)); break; }
            enter(s, n, it->second, top(s)); break; }
          case OLandingPad: fr.r[n.dst] = s->exc; setC(fr.r[n.dst + 1], n.imm); fr.ip++; break;
          case OResume: doThrow(s); break;
          case ORMW: { Val a = get(n.ops[0]); uint64_t off; Expr* oe; Obj* o = resolve(s, a, n.w / 8, true, off, &oe); if (oe) { inconclusive("symbolic atomic"); throw PathEnd(); } Expr* old = readBytes(o, off, n.w / 8); Expr* v = ex(get(n.ops[1]), n.w); Expr* nv; switch (n.sub) { case AtomicRMWInst::Add: nv = X.mkAdd(old, v); break; case AtomicRMWInst::Sub: nv = X.mkSub(old, v); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::And: nv = X.mkAnd(old, v); break; case AtomicRMWInst::Or: nv = X.mkOr(old, v); break; default: inconclusive("atomicrmw"); throw PathEnd(); } writeBytes(wObj(s, o->base), off, n.w / 8, nv); setE(fr.r[n.dst], old); fr.ip++; break; }
          default: { std::string str; raw_string_ostream os(str); n.I->print(os); inconclusive("unsupported instruction " + str.substr(0, 120)); throw PathEnd(); }
        }
      }
    } catch (PathEnd&) { dead++; killState(s); } catch (Refork&) {}
  }
  bool arrived(State* s) { if (s->groups.empty()) return false; Group* g = s->groups.back(); return g->autoG && g->depth == s->stk.size() && g->f == s->stk.back()->f && g->bb == s->stk.back()->bb && s->stk.back()->ip == 0; }
  void afterJump(State* s) { if (arrived(s)) { park(s); throw Refork(); } }
  std::vector<std::vector<std::pair<std::string,std::string>>> witnesses; uint64_t wseed = 88172645463325252ull;
  std::vector<std::pair<std::string,std::string>> symVals(State* s) { std::vector<std::pair<std::string,std::string>> o; for (auto* q : s->syms) { SymInfo& si = X.syms[(size_t)q->val]; u128 x = X.symVal((size_t)q->val, s->model); o.push_back({si.name, si.isSigned ? std::to_string((long long)sextw(x, si.w)) : std::to_string((unsigned long long)x)}); } return o; }
  void endPath(State* s) {
    { size_t ix = 99; if (witnesses.size() < 4) { witnesses.push_back({}); ix = witnesses.size() - 1; } else { wseed ^= wseed << 13; wseed ^= wseed >> 7; wseed ^= wseed << 17; uint64_t k = wseed % (paths + 1); if (k < 4) ix = k; } if (ix < 4) witnesses[ix] = symVals(s); }
    if (samplePaths.size() < 3) { std::string t; for (size_t i = 0; i < s->syms.size() && i < 24; i++) { SymInfo& si = X.syms[(size_t)s->syms[i]->val]; u128 x = X.symVal((size_t)s->syms[i]->val, s->model); t += (i ? ", " : "") + si.name + "=" + (si.isSigned ? std::to_string((long long)sextw(x, si.w)) : std::to_string((unsigned long long)x)); } samplePaths.push_back("path of " + std::to_string(s->steps) + " IR steps, " + std::to_string(s->pc.size()) + " path constraints, witness {" + t + "}"); }
  }
  void checkMem() { std::ifstream f("/proc/self/statm"); uint64_t a, b; f >> a >> b; if (b * 4096 / 1048576 > memLimitMB) { budgetOut = true; inconclusive("memory limit"); throw PathEnd(); } }

  void execAll(Function* F, std::shared_ptr<OMap>* baseMem, std::shared_ptr<OMap>* outMem) {
    State* s = new State(); for (int i = 0; i < 3; i++) s->mem[i] = baseMem[i] ? baseMem[i] : std::make_shared<OMap>();
    if (heapStart) s->heapNext = heapStart;
    auto fr = std::make_shared<Frame>(); fr->f = getFunc(F); fr->r.resize(fr->f->nregs); fr->stackSave = s->stackNext; s->stk.push_back(fr); s->autoMerge = autoMergeDefault; noteBlock(fr->f->bbs[0]);
    if (outMem) { // concrete init run: keep final memory
      keepFinal = true; finalMem = outMem;
    }
    push(s);
    while (!work.empty()) {
      if (nowS() - t0 > maxTime) { budgetOut = true; break; }
      if (!viol.empty() && !keepFinal && (viol.size() >= maxViol || nowS() > firstViol + 30)) break;
      State* x = work.back(); work.pop_back();
      if (keepFinal) runInit(x); else run(x);
    }
    keepFinal = false;
  }
  bool keepFinal = false; std::shared_ptr<OMap>* finalMem = nullptr; uint64_t heapStart = 0;
  void runInit(State* s) { // run ctor concretely, capturing memory at return
    // emulate: push a sentinel frame by copying memory right before the path ends
    initState = s; run2(s); }
  State* initState = nullptr;
  void run2(State* s) {
    // simple approach: step until stack depth would be zero
    try {
      while (true) {
        Frame& fr = top(s); Inst& n = fr.f->bbs[fr.bb].in[fr.ip];
        if (n.op == ORet && s->stk.size() == 1) { for (int i = 0; i < 3; i++) finalMem[i] = s->mem[i]; heapStart = s->heapNext; return; }
        stepOnce(s);
      }
    } catch (PathEnd&) { inconclusive("static initializer failed"); } catch (Refork&) { inconclusive("static initializer forked"); }
  }
  void stepOnce(State* s); // defined via macro trick below
};

// single-step wrapper: reuse run() by bounding steps is costly, so replicate with a tiny dispatcher
void Engine::stepOnce(State* s) {
  cur = s; Frame& fr = top(s); R = &fr.r; CF = fr.f; Inst& n = CF->bbs[fr.bb].in[fr.ip]; curInst = &n; totalSteps++;
  switch (n.op) {
    case OBin: for (int l = 0; l < n.lanes; l++) binop(s, n, l, fr); fr.ip++; break;
    case OCast: castop(s, n, fr); fr.ip++; break;
    case OICmp: for (int l = 0; l < n.lanes; l++) { Val a = get(at(n.ops[0], l)), b = get(at(n.ops[1], l)); setC(fr.r[n.dst + l], icmpC(n.sub, v128(a), v128(b), n.w)); } fr.ip++; break;
    case OFCmp: for (int l = 0; l < n.lanes; l++) { Val a = get(at(n.ops[0], l)), b = get(at(n.ops[1], l)); setC(fr.r[n.dst + l], fcmpC(n.sub, toLD(a, n.fk), toLD(b, n.fk))); } fr.ip++; break;
    case OFNeg: for (int l = 0; l < n.lanes; l++) { Val a = get(at(n.ops[0], l)); setC(fr.r[n.dst + l], v128(a) ^ ((u128)1 << (n.w - 1))); } fr.ip++; break;
    case OSelect: for (int l = 0; l < n.lanes; l++) { Val c = get(n.imm ? at(n.ops[0], l) : n.ops[0]); fr.r[n.dst + l] = (c.lo & 1) ? get(at(n.ops[1], l)) : get(at(n.ops[2], l)); } fr.ip++; break;
    case OLoad: doLoad(s, n, fr); fr.ip++; break;
    case OStore: doStore(s, n); top(s).ip++; break;
    case OAlloca: { Val c = get(n.ops[0]); uint64_t a = allocStack(s, n.imm * c.lo); fr.allocas.push_back(a); setC(fr.r[n.dst], a); fr.ip++; break; }
    case OGep: { Val b = get(n.ops[0]); uint64_t a = b.lo + n.imm; for (size_t i = 1; i < n.ops.size(); i++) { Val& ix = get(n.ops[i]); a += (uint64_t)(int64_t)sextw(ix.lo, n.argCnt[i - 1]) * n.sc[i - 1]; } setC(fr.r[n.dst], a); fr.ip++; break; }
    case OCopy: for (int l = 0; l < n.lanes; l++) fr.r[n.dst + l] = get(at(n.ops[0], l)); fr.ip++; break;
    case OShuffle: { std::vector<Val> t; for (int o : n.ops) t.push_back(get(o)); for (size_t i = 0; i < t.size(); i++) fr.r[n.dst + i] = t[i]; fr.ip++; break; }
    case OBr: jump(s, fr, n.t); break;
    case OCondBr: jump(s, fr, (get(n.ops[0]).lo & 1) ? n.t : n.f); break;
    case OSwitch: { int to = n.f; u128 x = v128(get(n.ops[0])); for (auto& k : n.cases) if (k.first == x) { to = k.second; break; } jump(s, fr, to); break; }
    case ORet: { std::vector<Val> rv; for (int l = 0; l < n.lanes; l++) rv.push_back(get(at(n.ops[0], l))); popFrame(s); Inst* call = lastCall; Frame& c = top(s); R = &c.r; CF = c.f; for (int l = 0; l < call->retCnt && l < (int)rv.size(); l++) c.r[call->dst + l] = rv[l]; if (call->invoke) jump(s, c, call->normalD); break; }
    case OCall: {
      if (n.callee) { if (n.builtin >= 0) builtin(s, n, fr); else enter(s, n, n.callee, fr); break; }
      auto it = addrF.find(get(n.ops[0]).lo); if (it == addrF.end()) { inconclusive("init: bad call"); throw PathEnd(); }
      int b = builtinOf(it->second); if (b >= 0) { Inst* c2 = new Inst(n); c2->callee = it->second; c2->builtin = b; builtin(s, *c2, fr); break; }
      enter(s, n, it->second, fr); break; }
    default: inconclusive("init: unsupported instruction"); throw PathEnd();
  }
}

static int g_argc; static char** g_argv; static int g_ret;
static void* realMain(void*) {
  Engine E; std::string file, outF; 
  for (int i = 1; i < g_argc; i++) { std::string a = g_argv[i]; auto nx = [&] { return std::string(g_argv[++i]); };
    if (a == "--entry") E.entry = nx(); else if (a == "--out") outF = nx(); else if (a == "--max-time") E.maxTime = atof(nx().c_str()); else if (a == "--max-steps") E.maxSteps = atoll(nx().c_str()); else if (a == "--automerge") E.autoMergeDefault = atoi(nx().c_str()); else if (a == "--lia") E.S.lia = atoi(nx().c_str()) != 0; else if (a == "--fast-ms") E.S.fastMs = atoi(nx().c_str()); else if (a == "--hard-ms") E.S.hardMs = atoi(nx().c_str()); else if (a == "--param") { std::string p = nx(); auto q = p.find('='); E.params[p.substr(0, q)] = atoll(p.substr(q + 1).c_str()); } else if (a == "--known") E.knownOn.insert(nx()); else if (a == "--only-known") E.onlyKnown = nx(); else if (a == "--max-viol") E.maxViol = atoi(nx().c_str()); else if (a == "--mem") E.memLimitMB = atoi(nx().c_str()); else file = a; }
  E.setupBuiltins();
  if (!E.load(file)) { g_ret = 2; return nullptr; }
  E.S.deadline = nowS() + E.maxTime; 
  std::shared_ptr<OMap> mem[3]; mem[0] = std::make_shared<OMap>(E.initGlobals); mem[1] = std::make_shared<OMap>(); mem[2] = std::make_shared<OMap>();
  // static constructors
  if (auto* gc = E.M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<uint64_t, Function*>> cs; for (auto& o : ca->operands()) { auto* st = cast<ConstantStruct>(o); cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())}); }
    std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : cs) if (c.second) { std::shared_ptr<OMap> out[3]; E.execAll(c.second, mem, out); for (int i = 0; i < 3; i++) if (out[i]) mem[i] = out[i]; }
  }
  Function* F = E.M->getFunction(E.entry); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", E.entry.c_str()); g_ret = 2; return nullptr; }
  for (auto& f : E.funcs) for (auto& b : f.second->bbs) b.counted = false; E.fnNames.clear(); E.totalSteps = 0;
  E.execAll(F, mem, nullptr);
  bool complete = E.inconc.empty() && !E.budgetOut && E.work.empty();
  std::ostringstream o;
  o << "{\"entry\":\"" << E.entry << "\",\"complete\":" << (complete ? "true" : "false") << ",\"budget_out\":" << (E.budgetOut ? "true" : "false") << ",\"paths\":" << E.paths << ",\"forks\":" << E.forks << ",\"merges\":" << E.merges << ",\"pending\":" << E.work.size() << ",\"steps\":" << E.totalSteps << ",\"asserts\":" << E.asserts << ",\"asserts_proved\":" << E.assertsProved << ",\"asserts_const\":" << E.assertsConst << ",\"wall\":" << (nowS() - E.t0);
  auto& st = E.S.st; o << ",\"solver\":{\"queries\":" << st.queries << ",\"z3\":" << st.z3 << ",\"sat\":" << st.sat << ",\"unsat\":" << st.unsat << ",\"unknown\":" << st.unknown << ",\"cache\":" << st.cacheHit << ",\"model_reuse\":" << st.modelHit << ",\"ring\":" << st.ring << ",\"time\":" << st.time << ",\"max_query\":" << st.maxq << "},\"exprs\":" << E.X.count;
  o << ",\"reach\":{"; bool f1 = true; for (auto& r : E.reach) { o << (f1 ? "" : ",") << "\"" << jesc(r.first) << "\":" << r.second; f1 = false; } o << "},\"inconclusive\":{"; f1 = true; for (auto& r : E.inconc) { o << (f1 ? "" : ",") << "\"" << jesc(r.first) << "\":" << r.second; f1 = false; }
  o << "},\"assert_msgs\":{"; f1 = true; for (auto& r : E.assertCount) { o << (f1 ? "" : ",") << "\"" << jesc(r.first) << "\":" << r.second; f1 = false; }
  o << "},\"functions\":["; f1 = true; for (auto& r : E.fnNames) { o << (f1 ? "" : ",") << "\"" << jesc(r) << "\""; f1 = false; } o << "],\"samples\":["; f1 = true; for (auto& r : E.samplePaths) { o << (f1 ? "" : ",") << "\"" << jesc(r) << "\""; f1 = false; } o << "],\"witnesses\":["; f1 = true; for (auto& w : E.witnesses) { o << (f1 ? "[" : ",["); for (size_t i = 0; i < w.size(); i++) o << (i ? "," : "") << "[\"" << jesc(w[i].first) << "\",\"" << w[i].second << "\"]"; o << "]"; f1 = false; } o << "],\"violations\":["; f1 = true;
  for (auto& v : E.viol) { o << (f1 ? "" : ",") << "{\"kind\":\"" << v.kind << "\",\"msg\":\"" << jesc(v.msg) << "\",\"loc\":\"" << jesc(v.loc) << "\",\"vals\":["; for (size_t i = 0; i < v.vals.size(); i++) o << (i ? "," : "") << "[\"" << jesc(v.vals[i].first) << "\",\"" << v.vals[i].second << "\"]"; o << "]}"; f1 = false; }
  o << "]}\n";
  if (outF.empty()) fputs(o.str().c_str(), stdout); else { std::ofstream of(outF); of << o.str(); }
  fflush(stdout); g_ret = E.viol.empty() ? (complete ? 0 : 3) : 1; _exit(g_ret);
  return nullptr;
}
int main(int argc, char** argv) {
  g_argc = argc; g_argv = argv; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4ull << 30); pthread_t t; if (pthread_create(&t, &at, realMain, nullptr)) { realMain(nullptr); return g_ret; } pthread_join(t, nullptr); return g_ret;
}
