// gpsym instrumentation pass: attaches a shadow expression to every integer /
// pointer SSA value of the real code so that it can be executed symbolically.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/InstVisitor.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <map>
#include <set>

using namespace llvm;

namespace {

// Keep in sync with gs_rt.cpp
enum Op { ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR };

struct Rt {
  Module &M;
  LLVMContext &C;
  PointerType *P;
  IntegerType *I64, *I32, *I1, *I8;
  Type *V;
  GlobalVariable *Args, *Ret, *ByVal;
  FunctionCallee bin, icmp, cast, select, gepadd, load, store, storesymclear,
      br, sw, conc, enter, call, after, setret, memcpy_, memset_, clear,
      concmem, minmax, bswap, fshl, tick;

  explicit Rt(Module &M) : M(M), C(M.getContext()) {
    P = PointerType::getUnqual(C);
    I64 = Type::getInt64Ty(C);
    I32 = Type::getInt32Ty(C);
    I1 = Type::getInt1Ty(C);
    I8 = Type::getInt8Ty(C);
    V = Type::getVoidTy(C);
    auto arr = [&](const char *n, unsigned k) {
      auto *T = ArrayType::get(P, k);
      return new GlobalVariable(M, T, false, GlobalValue::ExternalLinkage,
                                nullptr, n);
    };
    Args = arr("gs_args", 64);
    Ret = arr("gs_ret", 16);
    ByVal = arr("gs_byval", 64);
    auto f = [&](const char *n, Type *r, std::vector<Type *> a) {
      return M.getOrInsertFunction(n, FunctionType::get(r, a, false));
    };
    bin = f("_gs_bin", P, {I32, I32, P, P, I64, I64});
    icmp = f("_gs_icmp", P, {I32, I32, P, P, I64, I64});
    cast = f("_gs_cast", P, {I32, I32, I32, P, I64});
    select = f("_gs_select", P, {P, I32, I32, P, P, I64, I64});
    gepadd = f("_gs_gepadd", P, {P, I64, P, I64, I32, I64});
    load = f("_gs_load", P, {P, P, I32, I32});
    store = f("_gs_store", V, {P, P, I32, P, I64});
    storesymclear = f("_gs_store_clear", V, {P, P, I64});
    br = f("_gs_br", V, {P, I32, I64});
    sw = f("_gs_switch", V, {P, I64, I32, P, I32, I64});
    conc = f("_gs_concretize", V, {P, I64, I64});
    enter = f("_gs_enter", V, {P, I32});
    call = f("_gs_call", V, {P, I32});
    after = f("_gs_after", V, {P, I32});
    setret = f("_gs_setret", V, {P});
    memcpy_ = f("_gs_memcpy", V, {P, P, I64});
    memset_ = f("_gs_memset", V, {P, P, I64});
    clear = f("_gs_clear", V, {P, I64});
    concmem = f("_gs_concmem", V, {P, P, I64});
    minmax = f("_gs_minmax", P, {I32, I32, P, P, I64, I64});
    bswap = f("_gs_bswap", P, {I32, P});
    fshl = f("_gs_fsh", P, {I32, I32, P, P, P, I64, I64, I64});
    tick = f("_gs_prearg", V, {P, I32});
  }
};

bool isRuntimeName(StringRef n) {
  return n.starts_with("_gs_") || n.starts_with("gs_") ;
}

class FnInstr {
  Rt &R;
  Function &F;
  const DataLayout &DL;
  std::map<Value *, Value *> Sh;
  std::vector<Instruction *> Dead;
  std::vector<std::pair<PHINode *, PHINode *>> Phis; // (orig, shadow leaf) flattened not supported for aggregates
  uint64_t SiteBase;
  unsigned SiteNo = 0;

  Value *null() { return ConstantPointerNull::get(R.P); }
  bool isNull(Value *v) { return isa<ConstantPointerNull>(v) || isa<ConstantAggregateZero>(v); }
  uint64_t site() { return SiteBase + (SiteNo++); }

  // Symbolic-capable scalar?
  bool isSc(Type *T) {
    if (T->isIntegerTy())
      return T->getIntegerBitWidth() <= 64;
    return T->isPointerTy();
  }
  unsigned bits(Type *T) {
    return T->isPointerTy() ? 64 : T->getIntegerBitWidth();
  }
  Type *shTy(Type *T) {
    if (auto *S = dyn_cast<StructType>(T)) {
      std::vector<Type *> e;
      for (Type *t : S->elements())
        e.push_back(shTy(t));
      return StructType::get(R.C, e);
    }
    if (auto *A = dyn_cast<ArrayType>(T))
      return ArrayType::get(shTy(A->getElementType()), A->getNumElements());
    return R.P;
  }
  Constant *nullSh(Type *T) { return Constant::getNullValue(shTy(T)); }
  Value *sh(Value *v) {
    if (isa<Constant>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v))
      return nullSh(v->getType()->isSized() ? v->getType() : (Type *)R.P);
    auto it = Sh.find(v);
    if (it == Sh.end()) {
      return nullSh(v->getType());
    }
    return it->second;
  }
  Value *c64(IRBuilder<> &B, Value *v) {
    Type *T = v->getType();
    if (T->isPointerTy())
      return B.CreatePtrToInt(v, R.I64);
    if (T->isIntegerTy() && T->getIntegerBitWidth() <= 64)
      return B.CreateZExt(v, R.I64);
    return B.getInt64(0);
  }
  unsigned slots(Type *T) {
    if (auto *S = dyn_cast<StructType>(T)) {
      unsigned n = 0;
      for (Type *t : S->elements())
        n += slots(t);
      return n;
    }
    if (auto *A = dyn_cast<ArrayType>(T))
      return A->getNumElements() * slots(A->getElementType());
    return 1;
  }
  Value *slotPtr(IRBuilder<> &B, GlobalVariable *G, unsigned i) {
    return B.CreateConstInBoundsGEP2_64(G->getValueType(), G, 0, i);
  }
  // Store shadow tree into array slots
  void putSlots(IRBuilder<> &B, GlobalVariable *G, unsigned &i, Type *T, Value *s,
                bool skipNull) {
    if (auto *S = dyn_cast<StructType>(T)) {
      for (unsigned k = 0; k < S->getNumElements(); k++)
        putSlots(B, G, i, S->getElementType(k), ext(B, s, k), skipNull);
      return;
    }
    if (auto *A = dyn_cast<ArrayType>(T)) {
      for (unsigned k = 0; k < A->getNumElements(); k++)
        putSlots(B, G, i, A->getElementType(), ext(B, s, k), skipNull);
      return;
    }
    if (!(skipNull && isNull(s)))
      B.CreateStore(s, slotPtr(B, G, i));
    i++;
  }
  Value *ext(IRBuilder<> &B, Value *s, unsigned k) {
    if (auto *c = dyn_cast<Constant>(s))
      return c->getAggregateElement(k);
    return B.CreateExtractValue(s, k);
  }
  Value *getSlots(IRBuilder<> &B, GlobalVariable *G, unsigned &i, Type *T) {
    if (T->isStructTy() || T->isArrayTy()) {
      unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
      Value *agg = UndefValue::get(shTy(T));
      for (unsigned k = 0; k < n; k++) {
        Type *e = T->isStructTy() ? T->getStructElementType(k) : T->getArrayElementType();
        agg = B.CreateInsertValue(agg, getSlots(B, G, i, e), k);
      }
      return agg;
    }
    Value *r = null();
    if (isSc(T))
      r = B.CreateLoad(R.P, slotPtr(B, G, i));
    i++;
    return r;
  }
  bool anySh(Value *v) { return !isNull(sh(v)); }

  Value *memLoad(IRBuilder<> &B, Value *ps, Value *p, Type *T, uint64_t off) {
    if (T->isStructTy() || T->isArrayTy()) {
      Value *agg = UndefValue::get(shTy(T));
      unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
      for (unsigned k = 0; k < n; k++) {
        Type *e = T->isStructTy() ? T->getStructElementType(k) : T->getArrayElementType();
        uint64_t o = T->isStructTy() ? (uint64_t)DL.getStructLayout(cast<StructType>(T))->getElementOffset(k)
                                     : k * (uint64_t)DL.getTypeAllocSize(e);
        agg = B.CreateInsertValue(agg, memLoad(B, ps, p, e, off + o), k);
      }
      return agg;
    }
    Value *q = off ? B.CreateConstGEP1_64(R.I8, p, off) : p;
    if (isSc(T))
      return B.CreateCall(R.load, {ps, q, B.getInt32(DL.getTypeStoreSize(T)), B.getInt32(bits(T))});
    B.CreateCall(R.concmem, {ps, q, B.getInt64(DL.getTypeStoreSize(T))});
    return null();
  }
  void memStore(IRBuilder<> &B, Value *ps, Value *p, Type *T, Value *v, Value *s, uint64_t off) {
    if (T->isStructTy() || T->isArrayTy()) {
      unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
      for (unsigned k = 0; k < n; k++) {
        Type *e = T->isStructTy() ? T->getStructElementType(k) : T->getArrayElementType();
        uint64_t o = T->isStructTy() ? (uint64_t)DL.getStructLayout(cast<StructType>(T))->getElementOffset(k)
                                     : k * (uint64_t)DL.getTypeAllocSize(e);
        memStore(B, ps, p, e, B.CreateExtractValue(v, k), ext(B, s, k), off + o);
      }
      return;
    }
    Value *q = off ? B.CreateConstGEP1_64(R.I8, p, off) : p;
    if (isSc(T) && !isNull(s))
      B.CreateCall(R.store, {ps, q, B.getInt32(DL.getTypeStoreSize(T)), s, c64(B, v)});
    else
      B.CreateCall(R.storesymclear, {ps, q, B.getInt64(DL.getTypeStoreSize(T))});
  }

public:
  FnInstr(Rt &R, Function &F) : R(R), F(F), DL(F.getParent()->getDataLayout()) {
    uint64_t h = 1469598103934665603ull;
    for (char c : F.getName()) {
      h ^= (unsigned char)c;
      h *= 1099511628211ull;
    }
    SiteBase = h & ~0xffffull;
  }

  void run() {
    std::vector<Instruction *> work;
    ReversePostOrderTraversal<Function *> rpo(&F);
    std::vector<BasicBlock *> order(rpo.begin(), rpo.end());
    std::vector<AllocaInst *> allocas;
    for (BasicBlock *bb : order)
      for (Instruction &I : *bb) {
        work.push_back(&I);
        if (auto *A = dyn_cast<AllocaInst>(&I))
          if (A->isStaticAlloca())
            allocas.push_back(A);
      }
    // entry
    BasicBlock &E = F.getEntryBlock();
    Instruction *ip = &*E.getFirstNonPHIOrDbgOrAlloca();
    // allocas interleaved? place after last static alloca in entry
    for (Instruction &I : E)
      if (isa<AllocaInst>(&I))
        ip = I.getNextNode();
    {
      IRBuilder<> B(ip);
      unsigned n = 0;
      for (Argument &A : F.args())
        n += slots(A.getType());
      if (n > 60)
        n = 60;
      B.CreateCall(R.enter, {&F, B.getInt32(n)});
      unsigned i = 0;
      for (Argument &A : F.args()) {
        if (A.hasByValAttr()) {
          Value *src = B.CreateLoad(R.P, slotPtr(B, R.ByVal, i));
          B.CreateCall(R.memcpy_, {&A, src, B.getInt64(DL.getTypeAllocSize(A.getParamByValType()))});
          i++;
          continue;
        }
        if (i + slots(A.getType()) > 60)
          break;
        Value *s = getSlots(B, R.Args, i, A.getType());
        if (!A.use_empty())
          Sh[&A] = s;
      }
      for (AllocaInst *A : allocas)
        if (auto sz = A->getAllocationSize(DL))
          B.CreateCall(R.clear, {A, B.getInt64(sz->getFixedValue())});
    }
    for (Instruction *I : work)
      visit(*I, allocas);
    for (auto &[o, s] : Phis)
      for (unsigned k = 0; k < o->getNumIncomingValues(); k++)
        s->addIncoming(sh(o->getIncomingValue(k)), o->getIncomingBlock(k));
    for (Instruction *I : Dead)
      I->eraseFromParent();
  }

  void visit(Instruction &I, std::vector<AllocaInst *> &allocas) {
    IRBuilder<> B(&I);
    if (auto *P = dyn_cast<PHINode>(&I)) {
      Type *T = P->getType();
      if (isSc(T) || T->isStructTy()) {
        // all incoming constants?
        bool all = true;
        for (Value *v : P->incoming_values())
          all &= isa<Constant>(v);
        if (all)
          return;
        auto *s = PHINode::Create(shTy(T), P->getNumIncomingValues(), "", P);
        Phis.push_back({P, s});
        Sh[P] = s;
      }
      return;
    }
    if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
      if (!isSc(I.getType()) || (!anySh(BO->getOperand(0)) && !anySh(BO->getOperand(1))))
        return;
      int op;
      switch (BO->getOpcode()) {
      case Instruction::Add: op = ADD; break;
      case Instruction::Sub: op = SUB; break;
      case Instruction::Mul: op = MUL; break;
      case Instruction::UDiv: op = UDIV; break;
      case Instruction::SDiv: op = SDIV; break;
      case Instruction::URem: op = UREM; break;
      case Instruction::SRem: op = SREM; break;
      case Instruction::And: op = AND; break;
      case Instruction::Or: op = OR; break;
      case Instruction::Xor: op = XOR; break;
      case Instruction::Shl: op = SHL; break;
      case Instruction::LShr: op = LSHR; break;
      case Instruction::AShr: op = ASHR; break;
      default: return;
      }
      Value *a = BO->getOperand(0), *b = BO->getOperand(1);
      if ((op >= UDIV && op <= SREM) && anySh(b)) // avoid div by zero modelling
        B.CreateCall(R.conc, {sh(b), c64(B, b), B.getInt64(site())});
      Sh[&I] = B.CreateCall(R.bin, {B.getInt32(op), B.getInt32(bits(I.getType())), sh(a), sh(b), c64(B, a), c64(B, b)});
      return;
    }
    if (auto *C = dyn_cast<ICmpInst>(&I)) {
      Value *a = C->getOperand(0), *b = C->getOperand(1);
      if (!isSc(a->getType()) || (!anySh(a) && !anySh(b)))
        return;
      Sh[&I] = B.CreateCall(R.icmp, {B.getInt32(C->getPredicate()), B.getInt32(bits(a->getType())), sh(a), sh(b), c64(B, a), c64(B, b)});
      return;
    }
    if (auto *C = dyn_cast<CastInst>(&I)) {
      Value *a = C->getOperand(0);
      if (!isSc(a->getType()) || !anySh(a))
        return;
      if (!isSc(I.getType())) {
        B.CreateCall(R.conc, {sh(a), c64(B, a), B.getInt64(site())});
        return;
      }
      unsigned f = bits(a->getType()), t = bits(I.getType());
      int kind = isa<SExtInst>(C) ? 1 : 0; // zext/trunc/bitcast resolved by sizes
      if (f == t)
        Sh[&I] = sh(a);
      else
        Sh[&I] = B.CreateCall(R.cast, {B.getInt32(kind), B.getInt32(f), B.getInt32(t), sh(a), c64(B, a)});
      return;
    }
    if (auto *S = dyn_cast<SelectInst>(&I)) {
      Value *c = S->getCondition(), *a = S->getTrueValue(), *b = S->getFalseValue();
      if (!c->getType()->isIntegerTy(1))
        return;
      if (isSc(I.getType())) {
        if (!anySh(c) && !anySh(a) && !anySh(b))
          return;
        Sh[&I] = B.CreateCall(R.select, {sh(c), B.CreateZExt(c, R.I32), B.getInt32(bits(I.getType())), sh(a), sh(b), c64(B, a), c64(B, b)});
      } else {
        if (anySh(c))
          B.CreateCall(R.conc, {sh(c), c64(B, c), B.getInt64(site())});
        if (I.getType()->isAggregateType())
          Sh[&I] = B.CreateSelect(c, sh(a), sh(b));
      }
      return;
    }
    if (auto *Fz = dyn_cast<FreezeInst>(&I)) {
      if (isSc(I.getType()) || I.getType()->isAggregateType())
        Sh[&I] = sh(Fz->getOperand(0));
      return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      if (!G->getType()->isPointerTy())
        return;
      bool any = anySh(G->getPointerOperand());
      for (Value *v : G->indices())
        any |= anySh(v);
      if (!any)
        return;
      MapVector<Value *, APInt> var;
      APInt off(64, 0);
      if (!G->collectOffset(DL, 64, var, off)) {
        for (Value *v : G->indices())
          if (anySh(v))
            B.CreateCall(R.conc, {sh(v), c64(B, v), B.getInt64(site())});
        return;
      }
      Value *acc = sh(G->getPointerOperand());
      Value *cacc = B.CreatePtrToInt(G->getPointerOperand(), R.I64);
      for (auto &[v, sc] : var) {
        Value *vi = B.CreateSExtOrTrunc(v, R.I64);
        acc = B.CreateCall(R.gepadd, {acc, cacc, sh(v), c64(B, v), B.getInt32(bits(v->getType())), B.getInt64(sc.getSExtValue())});
        cacc = B.CreateAdd(cacc, B.CreateMul(vi, B.getInt64(sc.getSExtValue())));
      }
      if (off != 0)
        acc = B.CreateCall(R.bin, {B.getInt32(ADD), B.getInt32(64), acc, null(), cacc, B.getInt64(off.getSExtValue())});
      Sh[&I] = acc;
      return;
    }
    if (auto *L = dyn_cast<LoadInst>(&I)) {
      Value *p = L->getPointerOperand();
      Value *s = memLoad(B, sh(p), p, I.getType(), 0);
      if (isSc(I.getType()) || I.getType()->isAggregateType())
        Sh[&I] = s;
      return;
    }
    if (auto *S = dyn_cast<StoreInst>(&I)) {
      Value *p = S->getPointerOperand(), *v = S->getValueOperand();
      memStore(B, sh(p), p, v->getType(), v, sh(v), 0);
      return;
    }
    if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
      Value *s = sh(E->getAggregateOperand());
      if (isNull(s))
        return;
      if (isa<Constant>(s)) return;
      Sh[&I] = B.CreateExtractValue(s, E->getIndices());
      return;
    }
    if (auto *E = dyn_cast<InsertValueInst>(&I)) {
      Value *s = sh(E->getAggregateOperand());
      Value *v = sh(E->getInsertedValueOperand());
      if (isNull(s) && isNull(v))
        return;
      Sh[&I] = B.CreateInsertValue(s, v, E->getIndices());
      return;
    }
    if (auto *Br = dyn_cast<BranchInst>(&I)) {
      if (Br->isConditional() && anySh(Br->getCondition()))
        B.CreateCall(R.br, {sh(Br->getCondition()), B.CreateZExt(Br->getCondition(), R.I32), B.getInt64(site())});
      return;
    }
    if (auto *S = dyn_cast<SwitchInst>(&I)) {
      if (anySh(S->getCondition())) {
        std::vector<Constant *> cs;
        // pairs (value, successor); values sharing a successor form one outcome
        std::map<BasicBlock *, unsigned> succ;
        succ[S->getDefaultDest()] = 0;
        for (auto &c : S->cases()) {
          auto it = succ.emplace(c.getCaseSuccessor(), succ.size()).first;
          cs.push_back(ConstantInt::get(R.I64, c.getCaseValue()->getValue().getZExtValue()));
          cs.push_back(ConstantInt::get(R.I64, it->second));
        }
        auto *AT = ArrayType::get(R.I64, cs.size());
        auto *G = new GlobalVariable(R.M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, cs));
        B.CreateCall(R.sw, {sh(S->getCondition()), c64(B, S->getCondition()), B.getInt32(bits(S->getCondition()->getType())), G, B.getInt32(cs.size() / 2), B.getInt64(site())});
      }
      return;
    }
    if (auto *Rt_ = dyn_cast<ReturnInst>(&I)) {
      for (AllocaInst *A : allocas)
        if (auto sz = A->getAllocationSize(DL))
          B.CreateCall(R.clear, {A, B.getInt64(sz->getFixedValue())});
      if (Value *v = Rt_->getReturnValue()) {
        Type *T = v->getType();
        if (isSc(T) || (T->isAggregateType() && slots(T) <= 16)) {
          unsigned i = 0;
          putSlots(B, R.Ret, i, T, sh(v), false);
          B.CreateCall(R.setret, {&F});
        }
      }
      return;
    }
    if (auto *RMW = dyn_cast<AtomicRMWInst>(&I)) {
      B.CreateCall(R.concmem, {sh(RMW->getPointerOperand()), RMW->getPointerOperand(), B.getInt64(DL.getTypeStoreSize(RMW->getValOperand()->getType()))});
      B.CreateCall(R.clear, {RMW->getPointerOperand(), B.getInt64(DL.getTypeStoreSize(RMW->getValOperand()->getType()))});
      return;
    }
    if (auto *CX = dyn_cast<AtomicCmpXchgInst>(&I)) {
      B.CreateCall(R.clear, {CX->getPointerOperand(), B.getInt64(DL.getTypeStoreSize(CX->getNewValOperand()->getType()))});
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(&I)) {
      visitCall(*CB);
      return;
    }
    if (isa<ExtractElementInst>(I) || isa<InsertElementInst>(I) || isa<ShuffleVectorInst>(I)) {
      for (Value *v : I.operands())
        if (isSc(v->getType()) && anySh(v))
          B.CreateCall(R.conc, {sh(v), c64(B, v), B.getInt64(site())});
      return;
    }
  }

  void visitCall(CallBase &C) {
    IRBuilder<> B(&C);
    auto concAll = [&] {
      for (Value *a : C.args())
        if (isSc(a->getType()) && anySh(a))
          B.CreateCall(R.conc, {sh(a), c64(B, a), B.getInt64(site())});
    };
    if (C.isInlineAsm()) {
      concAll();
      return;
    }
    if (auto *II = dyn_cast<IntrinsicInst>(&C)) {
      switch (II->getIntrinsicID()) {
      case Intrinsic::memcpy:
      case Intrinsic::memmove:
      case Intrinsic::memcpy_inline: {
        concAll();
        if (II->getIntrinsicID() == Intrinsic::memmove) {
          // Overlapping: shadows and bytes must move in one step.
          FunctionCallee mv = R.M.getOrInsertFunction("_gs_memmove", FunctionType::get(R.V, {R.P, R.P, R.I64}, false));
          B.CreateCall(mv, {C.getArgOperand(0), C.getArgOperand(1), B.CreateZExtOrTrunc(C.getArgOperand(2), R.I64)});
          Dead.push_back(&C);
          return;
        }
        B.CreateCall(R.memcpy_, {C.getArgOperand(0), C.getArgOperand(1), B.CreateZExtOrTrunc(C.getArgOperand(2), R.I64)});
        return;
      }
      case Intrinsic::memset: {
        if (anySh(C.getArgOperand(0))) B.CreateCall(R.conc, {sh(C.getArgOperand(0)), c64(B, C.getArgOperand(0)), B.getInt64(site())});
        if (anySh(C.getArgOperand(2))) B.CreateCall(R.conc, {sh(C.getArgOperand(2)), c64(B, C.getArgOperand(2)), B.getInt64(site())});
        // symbolic fill value: keep it (after the bytes are written: the libc
        // function, if one is called, clears shadows)
        IRBuilder<> A(C.getNextNode());
        A.CreateCall(R.memset_, {C.getArgOperand(0), sh(C.getArgOperand(1)), A.CreateZExtOrTrunc(C.getArgOperand(2), R.I64)});
        return;
      }
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::usub_sat: case Intrinsic::uadd_sat: {
        Value *a = C.getArgOperand(0), *b = C.getArgOperand(1);
        if (!isSc(a->getType()) || (!anySh(a) && !anySh(b)))
          return;
        int k = II->getIntrinsicID() == Intrinsic::umin ? 0 : II->getIntrinsicID() == Intrinsic::umax ? 1 : II->getIntrinsicID() == Intrinsic::smin ? 2 : II->getIntrinsicID() == Intrinsic::smax ? 3 : II->getIntrinsicID() == Intrinsic::usub_sat ? 4 : 5;
        Sh[&C] = B.CreateCall(R.minmax, {B.getInt32(k), B.getInt32(bits(a->getType())), sh(a), sh(b), c64(B, a), c64(B, b)});
        return;
      }
      case Intrinsic::bswap:
        if (isSc(C.getType()) && anySh(C.getArgOperand(0)))
          Sh[&C] = B.CreateCall(R.bswap, {B.getInt32(bits(C.getType())), sh(C.getArgOperand(0))});
        return;
      case Intrinsic::fshl: case Intrinsic::fshr: {
        Value *a = C.getArgOperand(0), *b = C.getArgOperand(1), *n = C.getArgOperand(2);
        if (isSc(C.getType()) && (anySh(a) || anySh(b) || anySh(n)))
          Sh[&C] = B.CreateCall(R.fshl, {B.getInt32(II->getIntrinsicID() == Intrinsic::fshl), B.getInt32(bits(C.getType())), sh(a), sh(b), sh(n), c64(B, a), c64(B, b), c64(B, n)});
        return;
      }
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect_with_probability:
        Sh[&C] = sh(C.getArgOperand(0));
        return;
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
      case Intrinsic::trap: case Intrinsic::is_constant: case Intrinsic::objectsize: case Intrinsic::prefetch:
        return;
      default:
        concAll();
        return;
      }
    }
    Function *Callee = C.getCalledFunction();
    StringRef N = Callee ? Callee->getName() : "";
    if (N.starts_with("_gs_"))
      return;
    // Redirect byte-scanning libc functions to modelled versions.
    static const char *redir[] = {"memcmp", "bcmp", "strlen", "memchr", "strcmp", "strncmp", "strchr",
        // models of LLVM support routines (harness/models.cpp)
        "_ZN4llvm20getAsUnsignedIntegerENS_9StringRefEjRy", "_ZN5clang5Lexer11getSpellingB5cxx11ERKNS_5TokenERKNS_13SourceManagerERKNS_11LangOptionsEPb",
        "_ZNK4llvm9StringRef17find_first_not_ofES0_m", "_ZNK4llvm9StringRef17find_first_not_ofEcm",
        "_ZNK4llvm9StringRef13find_first_ofES0_m", "_ZNK4llvm9StringRef16find_last_not_ofES0_m",
        "_ZNK4llvm9StringRef16find_last_not_ofEcm", "_ZNK4llvm9StringRef12find_last_ofES0_m",
        "_ZNK4llvm9StringRef4findES0_m", "_ZNK4llvm9StringRef5rfindES0_", "_ZNK4llvm9StringRef5upperEv",
        "_ZNK4llvm9StringRef5lowerEv",
        "_ZNK4llvm9StringRef19compare_insensitiveES0_", "_ZNK4llvm9StringRef23starts_with_insensitiveES0_", "_ZNK4llvm9StringRef21ends_with_insensitiveES0_",
        "_ZN4llvm22consumeUnsignedIntegerERNS_9StringRefEjRy", "_ZNK4llvm9StringRef5countES0_",
        "_ZN4llvm3sys4path4stemENS_9StringRefENS1_5StyleE", "_ZN4llvm3sys4path8filenameENS_9StringRefENS1_5StyleE",
        "_ZN4llvm3sys4path9extensionENS_9StringRefENS1_5StyleE",
        "isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "isprint", "isxdigit", "tolower", "toupper",
        "_ZN4llvm11raw_ostream13write_escapedENS_9StringRefEb",
        "_ZN4llvm11raw_ostream5writeEPKcm", "_ZN4llvm11raw_ostream5writeEh"};
    for (const char *r : redir)
      if (N == r) {
        FunctionCallee nf = R.M.getOrInsertFunction(std::string("_gsm_") + r, C.getFunctionType());
        C.setCalledFunction(nf);
        C.setAttributes(AttributeList());
        if (auto *CI = dyn_cast<CallInst>(&C)) CI->setTailCallKind(CallInst::TCK_None);
        Callee = cast<Function>(nf.getCallee());
        N = Callee->getName();
        break;
      }
    if (N == "free" || N == "malloc" || N == "_Znwm" || N == "_Znam") {
      concAll();
      return;
    }
    Value *tgt = C.getCalledOperand();
    if (!Callee && anySh(tgt))
      B.CreateCall(R.conc, {sh(tgt), c64(B, tgt), B.getInt64(site())});
    unsigned n = 0;
    for (Value *a : C.args())
      n += slots(a->getType());
    if (n > 60) {
      concAll();
      return;
    }
    // tell runtime about pointer args (for native callee exposure checks)
    B.CreateCall(R.call, {tgt, B.getInt32(n)});
    unsigned i = 0, k = 0;
    for (Value *a : C.args()) {
      if (C.isByValArgument(k)) {
        B.CreateStore(a, slotPtr(B, R.ByVal, i));
        i++;
        k++;
        continue;
      }
      if (a->getType()->isMetadataTy()) { i++; k++; continue; }
      putSlots(B, R.Args, i, a->getType(), sh(a), true);
      k++;
    }
    bool isMustTail = isa<CallInst>(C) && cast<CallInst>(C).isMustTailCall();
    // native exposure check (concretises symbolic data handed to unmodelled code)
    if (!Callee || Callee->isDeclaration()) {
      std::vector<Value *> av;
      unsigned idx = 0;
      auto *AT = ArrayType::get(R.I64, std::max(1u, (unsigned)C.arg_size()));
      // only when there is at least one argument
      if (C.arg_size() > 0) {
        IRBuilder<> EB(&*F.getEntryBlock().begin());
        AllocaInst *buf = EB.CreateAlloca(AT);
        uint64_t ptrmask = 0;
        for (Value *a : C.args()) {
          if (idx >= 40) break;
          if (isSc(a->getType())) {
            B.CreateStore(c64(B, a), B.CreateConstInBoundsGEP2_64(AT, buf, 0, idx));
            if (a->getType()->isPointerTy() && !C.paramHasAttr(idx, Attribute::StructRet))
              ptrmask |= 1ull << idx;
          } else
            B.CreateStore(B.getInt64(0), B.CreateConstInBoundsGEP2_64(AT, buf, 0, idx));
          idx++;
        }
        FunctionCallee nat = R.M.getOrInsertFunction("_gs_native", FunctionType::get(R.V, {R.P, R.P, R.I32, R.I64, R.I64}, false));
        B.CreateCall(nat, {tgt, buf, B.getInt32(idx), B.getInt64(ptrmask), B.getInt64(site())});
      }
    }
    if (isMustTail || C.getType()->isVoidTy())
      return;
    Type *T = C.getType();
    if (!(isSc(T) || (T->isAggregateType() && slots(T) <= 16)))
      return;
    if (C.use_empty())
      return;
    if (isa<InvokeInst>(C))
      return;
    IRBuilder<> A(C.getNextNode());
    A.CreateCall(R.after, {tgt, A.getInt32(slots(T))});
    i = 0;
    Sh[&C] = getSlots(A, R.Ret, i, T);
    if (auto *CI = dyn_cast<CallInst>(&C)) CI->setTailCallKind(CallInst::TCK_None);
  }
};

struct GsPass : PassInfoMixin<GsPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Rt R(M);
    std::vector<Function *> fs;
    for (Function &F : M)
      if (!F.isDeclaration() && !F.hasAvailableExternallyLinkage() && !F.hasFnAttribute(Attribute::Naked) && !isRuntimeName(F.getName()))
        fs.push_back(&F);
    std::vector<Constant *> reg;
    for (Function *F : fs) {
      F->removeFnAttr(Attribute::Memory);
      F->removeFnAttr(Attribute::NoSync);
      F->removeFnAttr(Attribute::WillReturn);
      F->removeFnAttr(Attribute::Speculatable);
      FnInstr(R, *F).run();
      reg.push_back(F);
    }
    // Attributes on declarations could let later code motion cross runtime calls.
    for (Function &F : M) {
      F.removeFnAttr(Attribute::Memory);
      for (auto &BB : F)
        for (auto &I : BB)
          if (auto *C = dyn_cast<CallBase>(&I))
            C->removeFnAttr(Attribute::Memory);
    }
    if (!reg.empty()) {
      auto *AT = ArrayType::get(R.P, reg.size());
      auto *G = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, reg), "gs_fn_table");
      // strings with names for evidence
      std::vector<Constant *> names;
      IRBuilder<> SB(R.C);
      for (Constant *c : reg) {
        auto *s = ConstantDataArray::getString(R.C, cast<Function>(c)->getName());
        auto *g = new GlobalVariable(M, s->getType(), true, GlobalValue::PrivateLinkage, s);
        names.push_back(g);
      }
      auto *NG = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, names), "gs_fn_names");
      auto *ctor = Function::Create(FunctionType::get(R.V, false), GlobalValue::InternalLinkage, "_gs_module_ctor", M);
      IRBuilder<> B(BasicBlock::Create(R.C, "e", ctor));
      auto f = M.getOrInsertFunction("_gs_register", FunctionType::get(R.V, {R.P, R.P, R.I64}, false));
      B.CreateCall(f, {G, NG, B.getInt64(reg.size())});
      B.CreateRetVoid();
      appendToGlobalCtors(M, ctor, 0);
    }
    return PreservedAnalyses::none();
  }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "gs", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback(
                [](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(GsPass()); });
          }};
}
