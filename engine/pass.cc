// LLVM 18 pass plugin: attaches a symbolic shadow (expression id, 0 = concrete) to every SSA value, call argument,
// return value and byte of memory of the code under test.  See DESIGN.md, "Engine".
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"

using namespace llvm;
namespace {

bool isRuntimeName(StringRef n) { return n.starts_with("__lfs"); }
bool isApiName(StringRef n) { return n.starts_with("lfs_"); }

// Declarations that belong to the code under test (defined in another instrumented translation unit).
bool isUnderTestName(StringRef n) {
  return n.contains("2lf") || n.contains("8projects") || n.contains("7harness") || isApiName(n);
}
// Library functions that may receive symbolic scalars without consequence (diagnostic output only).
bool isHarmlessExternal(StringRef n) {
  return n.starts_with("_ZNSo") || n.starts_with("_ZStlsI") || n.starts_with("_ZSt16__ostream_insert") ||
         n.starts_with("_ZNSt7__cxx1112basic_string") || n.starts_with("_ZSt4endl") || n.contains("6spdlog") ||
         n.contains("3fmt") || n.starts_with("_ZNSt15basic_streambuf") || n.starts_with("_ZNSt8ios_base") ||
         n.starts_with("_ZNKSt") || n == "__cxa_throw";
}

struct Instr {
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  Type *I8, *I32, *I64, *F64, *PtrT, *VoidT;
  GlobalVariable *ArgSlots, *RetSlots, *Target, *Exited, *Cov;
  FunctionCallee fLoad, fStore, fIBin, fFBin, fICmp, fFCmp, fISel, fBranch, fConc, fTload, fSwitch, fCast, fFUn, fMemcpy, fMemset,
      fUnsup, fClear, fPost, fOvf, fFpClass, fMemcmp, fNoShadow;
  static constexpr int NSLOT = 256;

  Instr(Module &M_) : M(M_), C(M_.getContext()), DL(M_.getDataLayout()) {
    I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C); F64 = Type::getDoubleTy(C);
    PtrT = PointerType::getUnqual(C); VoidT = Type::getVoidTy(C);
    auto gv = [&](const char *n, Type *t) {
      return cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
    };
    ArgSlots = gv("__lfs_arg", ArrayType::get(I32, NSLOT));
    RetSlots = gv("__lfs_ret", ArrayType::get(I32, NSLOT));
    Target = gv("__lfs_target", PtrT);
    Exited = gv("__lfs_exited", PtrT);
    Cov = gv("__lfs_cov", PtrT);
    fLoad = M.getOrInsertFunction("__lfs_load", I32, PtrT, I32);
    fStore = M.getOrInsertFunction("__lfs_store", VoidT, PtrT, I32, I32);
    fIBin = M.getOrInsertFunction("__lfs_ibin", I32, I32, I32, I32, I64, I32, I64);
    fFBin = M.getOrInsertFunction("__lfs_fbin", I32, I32, I32, F64, I32, F64);
    fICmp = M.getOrInsertFunction("__lfs_icmp", I32, I32, I32, I32, I64, I32, I64);
    fFCmp = M.getOrInsertFunction("__lfs_fcmp", I32, I32, I32, F64, I32, F64, I32);
    fISel = M.getOrInsertFunction("__lfs_isel", I32, I32, I32, I32, I32, I64, I32, I64);
    fBranch = M.getOrInsertFunction("__lfs_branch", I32, I32, I32);
    fSwitch = M.getOrInsertFunction("__lfs_switch", I64, I32, I32, I64, PtrT, I32);
    fTload = M.getOrInsertFunction("__lfs_tload", I32, PtrT, I64, I32, I32, I32);
    fConc = M.getOrInsertFunction("__lfs_conc", I64, I32, I32, I64);
    fCast = M.getOrInsertFunction("__lfs_cast", I32, I32, I32, I32, I32);
    fFUn = M.getOrInsertFunction("__lfs_fun", I32, I32, I32, F64);
    fMemcpy = M.getOrInsertFunction("__lfs_memcpy", VoidT, PtrT, PtrT, I64);
    fMemset = M.getOrInsertFunction("__lfs_memset", VoidT, PtrT, I64, I32);
    fUnsup = M.getOrInsertFunction("__lfs_unsup", VoidT, I32, PtrT);
    fClear = M.getOrInsertFunction("__lfs_clear", VoidT, PtrT, I64);
    fPost = M.getOrInsertFunction("__lfs_postcall", VoidT, PtrT, I32, I32, PtrT);
    fOvf = M.getOrInsertFunction("__lfs_ovf", I32, I32, I32, I32, I64, I32, I64);
    fMemcmp = M.getOrInsertFunction("__lfs_memcmp", I32, PtrT, PtrT, I64, I32, I32);
    fNoShadow = M.getOrInsertFunction("__lfs_noshadow", VoidT, PtrT, I64, PtrT);
    fFpClass = M.getOrInsertFunction("__lfs_fpclass", I32, I32, I32, I32);
  }

  Type *ST(Type *T) {
    if (auto *S = dyn_cast<StructType>(T)) {
      SmallVector<Type *, 4> e;
      for (Type *t : S->elements()) e.push_back(ST(t));
      return StructType::get(C, e);
    }
    if (auto *A = dyn_cast<ArrayType>(T)) return ArrayType::get(ST(A->getElementType()), A->getNumElements());
    if (auto *V = dyn_cast<FixedVectorType>(T)) return ArrayType::get(I32, V->getNumElements());
    return I32;
  }
  unsigned nslots(Type *T) {
    if (T->isVoidTy()) return 0;
    if (auto *S = dyn_cast<StructType>(T)) {
      unsigned n = 0;
      for (Type *t : S->elements()) n += nslots(t);
      return n;
    }
    if (auto *A = dyn_cast<ArrayType>(T)) return nslots(A->getElementType()) * A->getNumElements();
    if (auto *V = dyn_cast<FixedVectorType>(T)) return V->getNumElements();
    return 1;
  }
  bool isIntScalar(Type *T) { return T->isIntegerTy() && T->getIntegerBitWidth() <= 64; }
  bool isFP(Type *T) { return T->isFloatTy() || T->isDoubleTy(); }

  // ---- per function state
  Function *F = nullptr;
  DenseMap<Value *, Value *> SH;
  std::vector<std::pair<PHINode *, PHINode *>> Phis;
  Value *ValidFlag = nullptr;

  Value *zeroST(Type *T) { return Constant::getNullValue(ST(T)); }
  Value *sh(Value *V) {
    if (isa<Constant>(V) || isa<MetadataAsValue>(V) || isa<InlineAsm>(V) || isa<BasicBlock>(V)) return zeroST(V->getType());
    auto it = SH.find(V);
    if (it != SH.end()) return it->second;
    return zeroST(V->getType());
  }
  bool isZero(Value *S) { return isa<Constant>(S) && cast<Constant>(S)->isNullValue(); }
  Value *c32(uint32_t v) { return ConstantInt::get(I32, v); }
  Value *to64(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (T->isIntegerTy()) return B.CreateZExtOrTrunc(V, I64);
    if (T->isPointerTy()) return B.CreatePtrToInt(V, I64);
    return ConstantInt::get(I64, 0);
  }
  Value *toF(IRBuilder<> &B, Value *V) {
    if (V->getType()->isDoubleTy()) return V;
    return B.CreateFPExt(V, F64);
  }
  Value *slotPtr(IRBuilder<> &B, GlobalVariable *G, unsigned i) {
    return B.CreateConstInBoundsGEP2_32(G->getValueType(), G, 0, i);
  }
  void storeSlots(IRBuilder<> &B, GlobalVariable *G, unsigned &i, Value *S) {
    Type *T = S->getType();
    if (T->isIntegerTy()) {
      if (i < NSLOT) B.CreateStore(S, slotPtr(B, G, i));
      i++;
      return;
    }
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
    for (unsigned k = 0; k < n; k++) storeSlots(B, G, i, B.CreateExtractValue(S, k));
  }
  Value *loadSlots(IRBuilder<> &B, GlobalVariable *G, unsigned &i, Type *STy) {
    if (STy->isIntegerTy()) {
      Value *r = (i < NSLOT) ? (Value *)B.CreateLoad(I32, slotPtr(B, G, i)) : c32(0);
      i++;
      return r;
    }
    Value *agg = UndefValue::get(STy);
    unsigned n = STy->isStructTy() ? STy->getStructNumElements() : STy->getArrayNumElements();
    for (unsigned k = 0; k < n; k++) {
      Type *et = STy->isStructTy() ? STy->getStructElementType(k) : STy->getArrayElementType();
      agg = B.CreateInsertValue(agg, loadSlots(B, G, i, et), k);
    }
    return agg;
  }
  Value *strPtr(IRBuilder<> &B, StringRef s) {
    static std::map<std::pair<Module *, std::string>, GlobalVariable *> cache;
    auto key = std::make_pair(&M, s.str());
    auto &g = cache[key];
    if (!g) {
      Constant *c = ConstantDataArray::getString(C, s);
      g = new GlobalVariable(M, c->getType(), true, GlobalValue::PrivateLinkage, c, "__lfs_str");
    }
    return g;
  }
  void unsup(IRBuilder<> &B, Value *S, StringRef what) {
    if (isZero(S)) return;
    if (!S->getType()->isIntegerTy()) {
      unsigned n = S->getType()->isStructTy() ? S->getType()->getStructNumElements() : S->getType()->getArrayNumElements();
      for (unsigned k = 0; k < n; k++) unsup(B, B.CreateExtractValue(S, k), what);
      return;
    }
    B.CreateCall(fUnsup, {S, strPtr(B, what)});
  }
  // memory of (possibly aggregate) type
  Value *loadShadow(IRBuilder<> &B, Value *P, Type *T) {
    if (auto *S = dyn_cast<StructType>(T)) {
      const StructLayout *SL = DL.getStructLayout(S);
      Value *agg = UndefValue::get(ST(T));
      for (unsigned k = 0; k < S->getNumElements(); k++) {
        Value *p = B.CreateConstInBoundsGEP1_64(I8, P, SL->getElementOffset(k));
        agg = B.CreateInsertValue(agg, loadShadow(B, p, S->getElementType(k)), k);
      }
      return agg;
    }
    if (isa<ArrayType>(T) || isa<FixedVectorType>(T)) {
      Type *et = isa<ArrayType>(T) ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
      unsigned n = isa<ArrayType>(T) ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
      uint64_t sz = DL.getTypeAllocSize(et);
      Value *agg = UndefValue::get(ST(T));
      for (unsigned k = 0; k < n; k++)
        agg = B.CreateInsertValue(agg, loadShadow(B, B.CreateConstInBoundsGEP1_64(I8, P, sz * k), et), k);
      return agg;
    }
    if (T->isPointerTy()) return c32(0);
    uint64_t sz = DL.getTypeStoreSize(T);
    Value *r = B.CreateCall(fLoad, {P, c32(sz)});
    if (T->isIntegerTy()) {
      unsigned w = T->getIntegerBitWidth();
      if (w > 64) { unsup(B, r, "wide integer load"); return c32(0); }
      if (w % 8 != 0) r = B.CreateCall(fCast, {c32(0), c32(sz * 8), c32(w), r});
    } else if (!isFP(T)) {
      unsup(B, r, "load of unsupported type");
      return c32(0);
    }
    return r;
  }
  void storeShadow(IRBuilder<> &B, Value *P, Type *T, Value *S) {
    if (auto *St = dyn_cast<StructType>(T)) {
      const StructLayout *SL = DL.getStructLayout(St);
      for (unsigned k = 0; k < St->getNumElements(); k++)
        storeShadow(B, B.CreateConstInBoundsGEP1_64(I8, P, SL->getElementOffset(k)), St->getElementType(k), B.CreateExtractValue(S, k));
      return;
    }
    if (isa<ArrayType>(T) || isa<FixedVectorType>(T)) {
      Type *et = isa<ArrayType>(T) ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
      unsigned n = isa<ArrayType>(T) ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
      uint64_t sz = DL.getTypeAllocSize(et);
      for (unsigned k = 0; k < n; k++)
        storeShadow(B, B.CreateConstInBoundsGEP1_64(I8, P, sz * k), et, B.CreateExtractValue(S, k));
      return;
    }
    uint64_t sz = DL.getTypeStoreSize(T);
    if (T->isIntegerTy() && T->getIntegerBitWidth() % 8 != 0 && !isZero(S))
      S = B.CreateCall(fCast, {c32(1), c32(T->getIntegerBitWidth()), c32(sz * 8), S});
    B.CreateCall(fStore, {P, c32(sz), S});
  }

  // A lookup in a constant table of integers at a symbolic index becomes a case distinction instead of one path per index.
  DenseMap<const GetElementPtrInst *, Value *> tableRead;
  Value *tableGep(GetElementPtrInst *G) {
    auto it = tableRead.find(G);
    if (it != tableRead.end()) return it->second;
    Value *&slot = tableRead[G];
    slot = nullptr;
    auto *GV = dyn_cast<GlobalVariable>(G->getPointerOperand());
    if (!GV || !GV->isConstant() || !GV->hasDefinitiveInitializer()) return nullptr;
    uint64_t bytes = DL.getTypeAllocSize(GV->getValueType());
    Type *ET = G->getSourceElementType();
    if (G->getNumIndices() == 2) {
      auto *z = dyn_cast<ConstantInt>(G->getOperand(1));
      auto *AT = dyn_cast<ArrayType>(ET);
      if (!z || !z->isZero() || !AT || DL.getTypeAllocSize(AT) > bytes) return nullptr;
      bytes = DL.getTypeAllocSize(AT);
      ET = AT->getElementType();
    } else if (G->getNumIndices() != 1) return nullptr;
    if (!ET->isIntegerTy()) return nullptr;
    unsigned w = ET->getIntegerBitWidth();
    if (w != 8 && w != 16 && w != 32 && w != 64) return nullptr;
    uint64_t num = bytes / (w / 8);
    if (num == 0 || num > 512) return nullptr;
    Value *ix = G->getOperand(G->getNumOperands() - 1);
    if (!isIntScalar(ix->getType())) return nullptr;
    for (User *u : G->users()) {
      auto *L = dyn_cast<LoadInst>(u);
      if (!L || L->getType() != ET) return nullptr;
    }
    Value *s = sh(ix);
    if (isZero(s)) return nullptr;
    IRBuilder<> B(G);
    Value *r = B.CreateCall(fTload, {GV, ConstantInt::get(I64, num), c32(w), s, c32(ix->getType()->getIntegerBitWidth())});
    Value *done = B.CreateICmpNE(r, c32(0));
    Value *v = B.CreateSelect(done, ConstantInt::get(I64, 0), to64(B, ix));
    Value *c = B.CreateCall(fConc, {B.CreateSelect(done, c32(0), s), c32(ix->getType()->getIntegerBitWidth()), v});
    G->setOperand(G->getNumOperands() - 1, B.CreateZExtOrTrunc(c, ix->getType()));
    return tableRead[G] = r;
  }
  Value *concretize(IRBuilder<> &B, Value *V) {
    Value *s = sh(V);
    if (isZero(s) || !isIntScalar(V->getType())) return V;
    Value *r = B.CreateCall(fConc, {s, c32(V->getType()->getIntegerBitWidth()), to64(B, V)});
    return B.CreateZExtOrTrunc(r, V->getType());
  }

  void stripByval() {
    // Make by-value aggregates explicit copies (both sides of the call are instrumented code).
    auto under = [&](Function *G) { return G && (!G->isDeclaration() || isUnderTestName(G->getName())); };
    for (Function &G : M)
      for (BasicBlock &BB : G)
        for (Instruction &I : BB)
          if (auto *CB = dyn_cast<CallBase>(&I)) {
            Function *callee = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
            if (CB->isInlineAsm() || (callee && !under(callee))) continue;
            for (unsigned k = 0; k < CB->arg_size(); k++)
              if (CB->paramHasAttr(k, Attribute::ByVal)) {
                Type *T = CB->getParamByValType(k);
                if (!T && callee) T = callee->getParamByValType(k);
                IRBuilder<> B0(&*G.getEntryBlock().getFirstInsertionPt());
                AllocaInst *A = B0.CreateAlloca(T);
                A->setAlignment(Align(16));
                IRBuilder<> B(CB);
                B.CreateMemCpy(A, Align(1), CB->getArgOperand(k), Align(1), DL.getTypeAllocSize(T));
                CB->setArgOperand(k, A);
                CB->removeParamAttr(k, Attribute::ByVal);
                CB->removeParamAttr(k, Attribute::Alignment);
                if (auto *CI = dyn_cast<CallInst>(CB)) if (CI->isTailCall()) CI->setTailCall(false);
              }
          }
    for (Function &G : M) {
      if (!under(&G)) continue;
      for (Argument &A : G.args())
        if (A.hasByValAttr()) { G.removeParamAttr(A.getArgNo(), Attribute::ByVal); G.removeParamAttr(A.getArgNo(), Attribute::Alignment); }
    }
  }

  void setSh(Instruction *I, Value *S) { SH[I] = S; }

  void handleIntrinsic(IntrinsicInst *II) {
    Instruction *next = II->getNextNode();
    Intrinsic::ID id = II->getIntrinsicID();
    IRBuilder<> Bb(II);
    switch (id) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        if (id != Intrinsic::memcpy_inline) II->setArgOperand(2, concretize(Bb, II->getArgOperand(2)));
        Bb.CreateCall(fMemcpy, {II->getArgOperand(0), II->getArgOperand(1), to64(Bb, II->getArgOperand(2))});
        return;
      }
      case Intrinsic::memset: {
        II->setArgOperand(2, concretize(Bb, II->getArgOperand(2)));
        Bb.CreateCall(fMemset, {II->getArgOperand(0), to64(Bb, II->getArgOperand(2)), sh(II->getArgOperand(1))});
        return;
      }
      case Intrinsic::lifetime_start: {
        if (auto *A = dyn_cast<AllocaInst>(II->getArgOperand(1)->stripPointerCasts()))
          if (A->isStaticAlloca()) {
            auto sz = A->getAllocationSize(DL);
            if (sz) { IRBuilder<> B(next); B.CreateCall(fClear, {A, ConstantInt::get(I64, sz->getFixedValue())}); }
          }
        return;
      }
      case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
      case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
      case Intrinsic::trap: case Intrinsic::prefetch: case Intrinsic::stacksave: case Intrinsic::stackrestore:
      case Intrinsic::eh_typeid_for: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::objectsize:
      case Intrinsic::is_constant: case Intrinsic::threadlocal_address: case Intrinsic::ubsantrap: case Intrinsic::ptrmask:
        return;
      case Intrinsic::expect: case Intrinsic::expect_with_probability:
        setSh(II, sh(II->getArgOperand(0)));
        return;
      default: break;
    }
    if (isFP(II->getType())) {
      int op = -1;
      switch (id) {
        case Intrinsic::sqrt: op = 1; break;
        case Intrinsic::fabs: op = 2; break;
        case Intrinsic::floor: op = 3; break;
        case Intrinsic::ceil: op = 4; break;
        case Intrinsic::trunc: op = 5; break;
        case Intrinsic::round: op = 6; break;
        case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: op = 7; break;
        case Intrinsic::sin: op = 10; break;
        case Intrinsic::cos: op = 11; break;
        case Intrinsic::exp: op = 12; break;
        case Intrinsic::log: op = 13; break;
        case Intrinsic::canonicalize: op = 0; break;
        default: break;
      }
      if (op >= 0) {
        Value *s = sh(II->getArgOperand(0));
        if (isZero(s)) return;
        IRBuilder<> B(next);
        setSh(II, op == 0 ? s : B.CreateCall(fFUn, {c32(op), s, toF(B, II->getArgOperand(0))}));
        return;
      }
      int bop = -1;
      switch (id) {
        case Intrinsic::minnum: case Intrinsic::minimum: bop = 10; break;
        case Intrinsic::maxnum: case Intrinsic::maximum: bop = 11; break;
        case Intrinsic::pow: bop = 12; break;
        case Intrinsic::copysign: bop = 13; break;
        default: break;
      }
      if (bop >= 0) {
        Value *a = sh(II->getArgOperand(0)), *b = sh(II->getArgOperand(1));
        if (isZero(a) && isZero(b)) return;
        IRBuilder<> B(next);
        setSh(II, B.CreateCall(fFBin, {c32(bop), a, toF(B, II->getArgOperand(0)), b, toF(B, II->getArgOperand(1))}));
        return;
      }
      if (id == Intrinsic::fmuladd || id == Intrinsic::fma) {
        Value *a = sh(II->getArgOperand(0)), *b = sh(II->getArgOperand(1)), *c = sh(II->getArgOperand(2));
        if (isZero(a) && isZero(b) && isZero(c)) return;
        IRBuilder<> B(next);
        Value *x = toF(B, II->getArgOperand(0)), *y = toF(B, II->getArgOperand(1)), *z = toF(B, II->getArgOperand(2));
        Value *p = B.CreateCall(fFBin, {c32(2), a, x, b, y});
        setSh(II, B.CreateCall(fFBin, {c32(0), p, B.CreateFMul(x, y), c, z}));
        return;
      }
      if (id == Intrinsic::powi) {
        Value *a = sh(II->getArgOperand(0));
        II->setArgOperand(1, concretize(Bb, II->getArgOperand(1)));
        if (isZero(a)) return;
        IRBuilder<> B(next);
        setSh(II, B.CreateCall(fFBin, {c32(12), a, toF(B, II->getArgOperand(0)), c32(0), B.CreateSIToFP(II->getArgOperand(1), F64)}));
        return;
      }
    }
    if (id == Intrinsic::is_fpclass) {
      Value *s = sh(II->getArgOperand(0));
      if (isZero(s)) return;
      IRBuilder<> B(next);
      Value *z = B.CreateZExt(II, I32);
      Value *r = B.CreateCall(fFpClass, {s, B.CreateZExtOrTrunc(II->getArgOperand(1), I32), z});
      Value *n = B.CreateTrunc(r, II->getType());
      II->replaceUsesWithIf(n, [&](Use &U) { return U.getUser() != z; });
      return;
    }
    if (isIntScalar(II->getType()) && II->arg_size() >= 1 && isIntScalar(II->getArgOperand(0)->getType())) {
      unsigned w = II->getType()->getIntegerBitWidth();
      int op = -1;
      switch (id) {
        case Intrinsic::smax: op = 20; break;
        case Intrinsic::smin: op = 21; break;
        case Intrinsic::umax: op = 22; break;
        case Intrinsic::umin: op = 23; break;
        case Intrinsic::abs: op = 24; break;
        case Intrinsic::usub_sat: op = 25; break;
        case Intrinsic::uadd_sat: op = 26; break;
        case Intrinsic::bswap: op = 27; break;
        default: break;
      }
      if (op >= 0) {
        Value *a = sh(II->getArgOperand(0)), *b = op == 24 || op == 27 ? c32(0) : sh(II->getArgOperand(1));
        if (isZero(a) && isZero(b)) return;
        IRBuilder<> B(next);
        Value *bv = op == 24 || op == 27 ? ConstantInt::get(I64, 0) : to64(B, II->getArgOperand(1));
        setSh(II, B.CreateCall(fIBin, {c32(op), c32(w), a, to64(B, II->getArgOperand(0)), b, bv}));
        return;
      }
    }
    switch (id) {
      case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow:
      case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
        Value *a = sh(II->getArgOperand(0)), *b = sh(II->getArgOperand(1));
        if (isZero(a) && isZero(b)) return;
        unsigned w = II->getArgOperand(0)->getType()->getIntegerBitWidth();
        int op = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? 0
                 : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? 1 : 2;
        int sg = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow);
        IRBuilder<> B(next);
        Value *x = to64(B, II->getArgOperand(0)), *y = to64(B, II->getArgOperand(1));
        Value *r = B.CreateCall(fIBin, {c32(op), c32(w), a, x, b, y});
        Value *o = B.CreateCall(fOvf, {c32(op * 2 + sg), c32(w), a, x, b, y});
        Value *agg = UndefValue::get(ST(II->getType()));
        agg = B.CreateInsertValue(agg, r, 0);
        agg = B.CreateInsertValue(agg, o, 1);
        setSh(II, agg);
        return;
      }
      default: break;
    }
    // generic fall-back: concretise integer operands, refuse symbolic reals
    for (unsigned k = 0; k < II->arg_size(); k++) {
      Value *a = II->getArgOperand(k);
      if (a->getType()->isMetadataTy()) continue;
      Value *s = sh(a);
      if (isZero(s)) continue;
      if (isIntScalar(a->getType())) { if (!isa<ConstantInt>(a)) II->setArgOperand(k, concretize(Bb, a)); }
      else unsup(Bb, s, II->getCalledFunction()->getName());
    }
  }

  void handleCall(CallBase *CB) {
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
      if (!II->isTerminator()) { handleIntrinsic(II); }
      return;
    }
    if (CB->isInlineAsm()) {
      IRBuilder<> B(CB);
      for (Value *a : CB->args()) unsup(B, sh(a), "inline asm");
      return;
    }
    Function *callee = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
    StringRef name = callee ? callee->getName() : "";
    if (isRuntimeName(name)) return;
    IRBuilder<> B(CB);
    // libc memory functions called by name
    if (callee && callee->isDeclaration()) {
      if ((name == "memcpy" || name == "memmove") && CB->arg_size() == 3) {
        CB->setArgOperand(2, concretize(B, CB->getArgOperand(2)));
        B.CreateCall(fMemcpy, {CB->getArgOperand(0), CB->getArgOperand(1), to64(B, CB->getArgOperand(2))});
        return;
      }
      if ((name == "wmemcpy" || name == "wmemmove") && CB->arg_size() == 3) {
        CB->setArgOperand(2, concretize(B, CB->getArgOperand(2)));
        B.CreateCall(fMemcpy, {CB->getArgOperand(0), CB->getArgOperand(1), B.CreateShl(to64(B, CB->getArgOperand(2)), 2)});
        return;
      }
      if (name == "wmemset" && CB->arg_size() == 3) {
        CB->setArgOperand(1, concretize(B, CB->getArgOperand(1)));
        CB->setArgOperand(2, concretize(B, CB->getArgOperand(2)));
        B.CreateCall(fClear, {CB->getArgOperand(0), B.CreateShl(to64(B, CB->getArgOperand(2)), 2)});
        return;
      }
      if (name == "memset" && CB->arg_size() == 3) {
        B.CreateCall(fMemset, {CB->getArgOperand(0), to64(B, CB->getArgOperand(2)), sh(CB->getArgOperand(1))});
        return;
      }
      if ((name == "memcmp" || name == "bcmp") && CB->arg_size() == 3 && isa<CallInst>(CB)) {
        CB->setArgOperand(2, concretize(B, CB->getArgOperand(2)));
        bool eq = name == "bcmp";
        if (!eq) {
          eq = true;
          for (User *U : CB->users()) {
            auto *IC = dyn_cast<ICmpInst>(U);
            auto *K = IC ? dyn_cast<ConstantInt>(IC->getOperand(1)) : nullptr;
            if (!IC || !IC->isEquality() || !K || !K->isZero()) eq = false;
          }
        }
        setSh(CB, B.CreateCall(fMemcmp, {CB->getArgOperand(0), CB->getArgOperand(1), to64(B, CB->getArgOperand(2)),
                                         c32(CB->getType()->getIntegerBitWidth()), c32(eq)}));
        return;
      }
      if (name == "memchr" && CB->arg_size() == 3)
        B.CreateCall(fNoShadow, {CB->getArgOperand(0), to64(B, CB->getArgOperand(2)), strPtr(B, name)});
      if (name == "strlen" || name == "strchr" || name == "strcmp" || name == "strncmp" || name == "strtol" || name == "strtod" ||
          name == "strtoul" || name == "atoi" || name == "strcpy" || name == "stpcpy" || name == "strcat" || name == "strncpy" || name == "mempcpy")
        for (Value *a : CB->args())
          if (a->getType()->isPointerTy() && !isa<ConstantPointerNull>(a) && (a == CB->getArgOperand(0) || name.starts_with("strcmp") || name.starts_with("strncmp")))
            B.CreateCall(fNoShadow, {a, ConstantInt::get(I64, ~0ull), strPtr(B, name)});
      if (name == "_ZSt11_Hash_bytesPKvmm") B.CreateCall(fNoShadow, {CB->getArgOperand(0), to64(B, CB->getArgOperand(1)), strPtr(B, name)});
      if (name == "modf" || name == "modff" || name == "frexp" || name == "frexpf" || name == "remquo")
        B.CreateCall(fClear, {CB->getArgOperand(CB->arg_size() - 1), ConstantInt::get(I64, name == "modf" ? 8 : 4)});
      int op = name == "sqrt" ? 1 : name == "fabs" ? 2 : name == "floor" ? 3 : name == "ceil" ? 4 : name == "trunc" ? 5
             : name == "round" ? 6 : name == "sin" ? 10 : name == "cos" ? 11 : name == "exp" ? 12 : name == "log" ? 13 : -1;
      if (op >= 0 && CB->getType()->isDoubleTy() && isa<CallInst>(CB)) {
        Value *s = sh(CB->getArgOperand(0));
        if (isZero(s)) return;
        IRBuilder<> B2(CB->getNextNode());
        setSh(CB, B2.CreateCall(fFUn, {c32(op), s, CB->getArgOperand(0)}));
        return;
      }
      int bop = name == "pow" ? 12 : name == "fmin" ? 10 : name == "fmax" ? 11 : name == "hypot" ? 14 : -1;
      if (bop >= 0 && CB->getType()->isDoubleTy() && isa<CallInst>(CB)) {
        Value *s = sh(CB->getArgOperand(0)), *t = sh(CB->getArgOperand(1));
        if (isZero(s) && isZero(t)) return;
        IRBuilder<> B2(CB->getNextNode());
        setSh(CB, B2.CreateCall(fFBin, {c32(bop), s, CB->getArgOperand(0), t, CB->getArgOperand(1)}));
        return;
      }
      if (name == "_Znwm" || name == "_Znam" || name == "malloc" || name == "_ZnwmSt11align_val_t" || name == "_ZdlPvm" || name == "calloc" || name == "realloc") {
        for (unsigned k = 0; k < CB->arg_size(); k++)
          if (isIntScalar(CB->getArgOperand(k)->getType())) CB->setArgOperand(k, concretize(B, CB->getArgOperand(k)));
      }
    }
    unsigned slot = 0;
    bool any = false;
    Value *orAll = nullptr;
    std::function<void(Value *)> orIn = [&](Value *s) {
      if (isZero(s)) return;
      if (s->getType()->isIntegerTy()) { orAll = orAll ? B.CreateOr(orAll, s) : s; return; }
      unsigned n = s->getType()->isStructTy() ? s->getType()->getStructNumElements() : s->getType()->getArrayNumElements();
      for (unsigned k = 0; k < n; k++) orIn(B.CreateExtractValue(s, k));
    };
    for (Value *a : CB->args()) {
      if (a->getType()->isMetadataTy()) { continue; }
      Value *s = sh(a);
      if (!isZero(s)) any = true;
      orIn(s);
      storeSlots(B, ArgSlots, slot, s);
    }
    bool ext = callee && callee->isDeclaration() && !isUnderTestName(name);
    Value *tgt = CB->getCalledOperand();
    B.CreateStore(tgt, Target);
    Type *RT = CB->getType();
    unsigned nr = nslots(RT);
    if (nr > NSLOT) nr = NSLOT;
    for (unsigned k = 0; k < nr; k++) B.CreateStore(c32(0), slotPtr(B, RetSlots, k));
    if (CB->isMustTailCall()) return;
    if (auto *CI = dyn_cast<CallInst>(CB)) CI->setTailCallKind(CallInst::TCK_None);
    Instruction *ip = nullptr;
    if (auto *CI = dyn_cast<CallInst>(CB)) {
      ip = CI->getNextNode();
      if (!ip || CI->doesNotReturn()) return;
    } else if (auto *IV = dyn_cast<InvokeInst>(CB)) {
      ip = &*IV->getNormalDest()->getFirstInsertionPt();
    } else return;
    IRBuilder<> B2(ip);
    if (any && (!callee || callee->isDeclaration()) && orAll)
      B2.CreateCall(fPost, {tgt, orAll, c32(isHarmlessExternal(name) ? 1 : 0), strPtr(B2, name)});
    if (nr && !ext) {
      unsigned i = 0;
      if (!callee || callee->isDeclaration()) {   // an uninstrumented callee may have called back instrumented code: its result is not the callee's
        Value *own = B2.CreateICmpEQ(B2.CreateLoad(PtrT, Exited), tgt);
        for (unsigned k = 0; k < nr; k++) B2.CreateStore(B2.CreateSelect(own, B2.CreateLoad(I32, slotPtr(B2, RetSlots, k)), c32(0)), slotPtr(B2, RetSlots, k));
      }
      SH[CB] = loadSlots(B2, RetSlots, i, ST(RT));
    }
  }

  void visit(Instruction &I) {
    IRBuilder<> B(&I);
    auto after = [&]() { return IRBuilder<>(I.getNextNode()); };
    if (auto *P = dyn_cast<PHINode>(&I)) {
      if (P->getType()->isPointerTy()) return;
      IRBuilder<> BP(P);
      PHINode *SP = BP.CreatePHI(ST(P->getType()), P->getNumIncomingValues());
      SH[P] = SP;
      Phis.push_back({P, SP});
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(&I)) { handleCall(CB); return; }
    if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
      Value *a = sh(BO->getOperand(0)), *b = sh(BO->getOperand(1));
      if (isZero(a) && isZero(b)) return;
      Type *T = BO->getType();
      IRBuilder<> B2 = after();
      if (isIntScalar(T)) {
        int op = -1;
        switch (BO->getOpcode()) {
          case Instruction::Add: op = 0; break; case Instruction::Sub: op = 1; break; case Instruction::Mul: op = 2; break;
          case Instruction::UDiv: op = 3; break; case Instruction::SDiv: op = 4; break; case Instruction::URem: op = 5; break;
          case Instruction::SRem: op = 6; break; case Instruction::Shl: op = 7; break; case Instruction::LShr: op = 8; break;
          case Instruction::AShr: op = 9; break; case Instruction::And: op = 10; break; case Instruction::Or: op = 11; break;
          case Instruction::Xor: op = 12; break; default: break;
        }
        if (op >= 3 && op <= 6) {
          // the hardware traps on a zero divisor: protect the meaningless concrete part
          Value *z = B.CreateICmpNE(b, c32(0));
          BO->setOperand(1, B.CreateSelect(z, ConstantInt::get(T, 1), BO->getOperand(1)));
          setSh(&I, B2.CreateCall(fIBin, {c32(op), c32(T->getIntegerBitWidth()), a, to64(B2, BO->getOperand(0)), b, to64(B2, BO->getOperand(1))}));
          return;
        }
        setSh(&I, B2.CreateCall(fIBin, {c32(op), c32(T->getIntegerBitWidth()), a, to64(B2, BO->getOperand(0)), b, to64(B2, BO->getOperand(1))}));
        return;
      }
      if (isFP(T)) {
        int op = -1;
        switch (BO->getOpcode()) {
          case Instruction::FAdd: op = 0; break; case Instruction::FSub: op = 1; break; case Instruction::FMul: op = 2; break;
          case Instruction::FDiv: op = 3; break; default: op = 99;
        }
        setSh(&I, B2.CreateCall(fFBin, {c32(op), a, toF(B2, BO->getOperand(0)), b, toF(B2, BO->getOperand(1))}));
        return;
      }
      unsup(B2, a, "binary operator"); unsup(B2, b, "binary operator");
      return;
    }
    if (auto *U = dyn_cast<UnaryOperator>(&I)) {
      Value *a = sh(U->getOperand(0));
      if (isZero(a)) return;
      IRBuilder<> B2 = after();
      if (isFP(U->getType())) setSh(&I, B2.CreateCall(fFUn, {c32(9), a, toF(B2, U->getOperand(0))}));
      else unsup(B2, a, "unary operator");
      return;
    }
    if (auto *IC = dyn_cast<ICmpInst>(&I)) {
      if (!isIntScalar(IC->getOperand(0)->getType())) {
        if (!IC->getOperand(0)->getType()->isPointerTy()) { unsup(B, sh(IC->getOperand(0)), "icmp"); unsup(B, sh(IC->getOperand(1)), "icmp"); }
        return;
      }
      Value *a = sh(IC->getOperand(0)), *b = sh(IC->getOperand(1));
      if (isZero(a) && isZero(b)) return;
      int p = 0;
      switch (IC->getPredicate()) {
        case CmpInst::ICMP_EQ: p = 0; break; case CmpInst::ICMP_NE: p = 1; break; case CmpInst::ICMP_UGT: p = 2; break;
        case CmpInst::ICMP_UGE: p = 3; break; case CmpInst::ICMP_ULT: p = 4; break; case CmpInst::ICMP_ULE: p = 5; break;
        case CmpInst::ICMP_SGT: p = 6; break; case CmpInst::ICMP_SGE: p = 7; break; case CmpInst::ICMP_SLT: p = 8; break;
        default: p = 9; break;
      }
      IRBuilder<> B2 = after();
      setSh(&I, B2.CreateCall(fICmp, {c32(p), c32(IC->getOperand(0)->getType()->getIntegerBitWidth()), a, to64(B2, IC->getOperand(0)), b, to64(B2, IC->getOperand(1))}));
      return;
    }
    if (auto *FC = dyn_cast<FCmpInst>(&I)) {
      Value *a = sh(FC->getOperand(0)), *b = sh(FC->getOperand(1));
      if (isZero(a) && isZero(b)) return;
      IRBuilder<> B2 = after();
      if (!isFP(FC->getOperand(0)->getType())) { unsup(B2, a, "fcmp"); unsup(B2, b, "fcmp"); return; }
      Value *z = B2.CreateZExt(FC, I32);
      Value *r = B2.CreateCall(fFCmp, {c32((unsigned)FC->getPredicate()), a, toF(B2, FC->getOperand(0)), b, toF(B2, FC->getOperand(1)), z});
      Value *n = B2.CreateTrunc(r, FC->getType());
      FC->replaceUsesWithIf(n, [&](Use &U) { return U.getUser() != z; });
      return;
    }
    if (auto *S = dyn_cast<SelectInst>(&I)) {
      Value *c = sh(S->getCondition()), *t = sh(S->getTrueValue()), *f = sh(S->getFalseValue());
      if (!S->getCondition()->getType()->isIntegerTy(1)) { unsup(B, c, "vector select"); unsup(B, t, "vector select"); unsup(B, f, "vector select"); return; }
      if (!isZero(c) && isIntScalar(S->getType())) {
        IRBuilder<> B2 = after();
        setSh(&I, B2.CreateCall(fISel, {c32(S->getType()->getIntegerBitWidth()), c, B2.CreateZExt(S->getCondition(), I32), t, to64(B2, S->getTrueValue()), f, to64(B2, S->getFalseValue())}));
        return;
      }
      if (!isZero(c)) {
        Value *r = B.CreateCall(fBranch, {c, B.CreateZExt(S->getCondition(), I32)});
        S->setCondition(B.CreateTrunc(r, Type::getInt1Ty(C)));
      }
      if (S->getType()->isPointerTy() || (isZero(t) && isZero(f))) return;
      IRBuilder<> B2 = after();
      setSh(&I, B2.CreateSelect(S->getCondition(), t, f));
      return;
    }
    if (auto *BI = dyn_cast<BranchInst>(&I)) {
      if (!BI->isConditional()) return;
      Value *c = sh(BI->getCondition());
      if (isZero(c)) return;
      Value *r = B.CreateCall(fBranch, {c, B.CreateZExt(BI->getCondition(), I32)});
      BI->setCondition(B.CreateTrunc(r, Type::getInt1Ty(C)));
      return;
    }
    if (auto *SI = dyn_cast<SwitchInst>(&I)) {
      Value *s = sh(SI->getCondition());
      if (isZero(s) || !isIntScalar(SI->getCondition()->getType())) return;
      std::vector<uint64_t> vals;
      for (auto &c : SI->cases()) vals.push_back(c.getCaseValue()->getZExtValue());
      auto *init = ConstantDataArray::get(M.getContext(), vals);
      auto *gv = new GlobalVariable(M, init->getType(), true, GlobalValue::PrivateLinkage, init, "__lfs_cases");
      Value *r = B.CreateCall(fSwitch, {s, c32(SI->getCondition()->getType()->getIntegerBitWidth()), to64(B, SI->getCondition()), gv, c32(vals.size())});
      SI->setCondition(B.CreateZExtOrTrunc(r, SI->getCondition()->getType()));
      return;
    }
    if (auto *CI = dyn_cast<CastInst>(&I)) {
      Value *V = CI->getOperand(0);
      Value *s = sh(V);
      if (isZero(s)) return;
      Type *TF = V->getType(), *TT = CI->getType();
      switch (CI->getOpcode()) {
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
          if (!isIntScalar(TF) || !isIntScalar(TT)) {
            if (isIntScalar(TF)) { CI->setOperand(0, concretize(B, V)); return; }
            unsup(B, s, "wide integer cast"); return;
          }
          int k = CI->getOpcode() == Instruction::Trunc ? 0 : CI->getOpcode() == Instruction::ZExt ? 1 : 2;
          IRBuilder<> B2 = after();
          setSh(&I, B2.CreateCall(fCast, {c32(k), c32(TF->getIntegerBitWidth()), c32(TT->getIntegerBitWidth()), s}));
          return;
        }
        case Instruction::FPExt: case Instruction::FPTrunc:
          if (isFP(TF) && isFP(TT)) setSh(&I, s); else unsup(B, s, "long double");
          return;
        case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::IntToPtr:
          CI->setOperand(0, concretize(B, V));
          return;
        case Instruction::FPToSI: case Instruction::FPToUI: {
          if (!isIntScalar(TT)) { unsup(B, s, "fptoint"); return; }
          IRBuilder<> B2 = after();
          setSh(&I, B2.CreateCall(fCast, {c32(CI->getOpcode() == Instruction::FPToSI ? 10 : 11), c32(0), c32(TT->getIntegerBitWidth()), s}));
          return;
        }
        case Instruction::BitCast:
          if (s->getType() == ST(TT)) setSh(&I, s); else unsup(B, s, "bitcast");
          return;
        default: unsup(B, s, "cast"); return;
      }
    }
    if (auto *L = dyn_cast<LoadInst>(&I)) {
      if (L->getType()->isPointerTy()) return;
      IRBuilder<> B2 = after();
      if (auto *G = dyn_cast<GetElementPtrInst>(L->getPointerOperand())) if (Value *r = tableGep(G)) { setSh(&I, r); return; }
      setSh(&I, loadShadow(B2, L->getPointerOperand(), L->getType()));
      return;
    }
    if (auto *S = dyn_cast<StoreInst>(&I)) {
      storeShadow(B, S->getPointerOperand(), S->getValueOperand()->getType(), sh(S->getValueOperand()));
      return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      if (tableGep(G)) return;
      for (unsigned k = 1; k < G->getNumOperands(); k++) G->setOperand(k, concretize(B, G->getOperand(k)));
      return;
    }
    if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
      Value *s = sh(E->getAggregateOperand());
      if (isZero(s)) return;
      IRBuilder<> B2 = after();
      setSh(&I, B2.CreateExtractValue(s, E->getIndices()));
      return;
    }
    if (auto *E = dyn_cast<InsertValueInst>(&I)) {
      Value *s = sh(E->getAggregateOperand()), *v = sh(E->getInsertedValueOperand());
      if (isZero(s) && isZero(v)) return;
      IRBuilder<> B2 = after();
      setSh(&I, B2.CreateInsertValue(s, v, E->getIndices()));
      return;
    }
    if (auto *E = dyn_cast<ExtractElementInst>(&I)) {
      Value *s = sh(E->getVectorOperand());
      if (isZero(s)) return;
      if (auto *ci = dyn_cast<ConstantInt>(E->getIndexOperand())) { IRBuilder<> B2 = after(); setSh(&I, B2.CreateExtractValue(s, ci->getZExtValue())); }
      else unsup(B, s, "extractelement");
      return;
    }
    if (auto *E = dyn_cast<InsertElementInst>(&I)) {
      Value *s = sh(E->getOperand(0)), *v = sh(E->getOperand(1));
      if (isZero(s) && isZero(v)) return;
      if (auto *ci = dyn_cast<ConstantInt>(E->getOperand(2))) { IRBuilder<> B2 = after(); setSh(&I, B2.CreateInsertValue(s, v, ci->getZExtValue())); }
      else { unsup(B, s, "insertelement"); unsup(B, v, "insertelement"); }
      return;
    }
    if (auto *V = dyn_cast<ShuffleVectorInst>(&I)) {
      Value *a = sh(V->getOperand(0)), *b = sh(V->getOperand(1));
      if (isZero(a) && isZero(b)) return;
      IRBuilder<> B2 = after();
      unsigned n = cast<FixedVectorType>(V->getOperand(0)->getType())->getNumElements();
      Value *agg = Constant::getNullValue(ST(V->getType()));
      ArrayRef<int> mask = V->getShuffleMask();
      for (unsigned k = 0; k < mask.size(); k++) {
        int m = mask[k];
        if (m < 0) continue;
        agg = B2.CreateInsertValue(agg, (unsigned)m < n ? B2.CreateExtractValue(a, m) : B2.CreateExtractValue(b, m - n), k);
      }
      setSh(&I, agg);
      return;
    }
    if (isa<FreezeInst>(&I)) { Value *s = sh(I.getOperand(0)); if (!isZero(s)) setSh(&I, s); return; }
    if (auto *R = dyn_cast<ReturnInst>(&I)) {
      if (!R->getReturnValue()) return;
      if (auto *pc = dyn_cast_or_null<CallInst>(R->getPrevNode())) if (pc->isMustTailCall()) return;
      Value *s = sh(R->getReturnValue());
      if (isZero(s)) return;  // caller zeroed the slots... but nested calls may have overwritten them: see below
      return;
    }
    if (isa<AtomicCmpXchgInst>(&I) || isa<AtomicRMWInst>(&I)) {
      for (unsigned k = 1; k < I.getNumOperands(); k++) unsup(B, sh(I.getOperand(k)), "atomic");
      return;
    }
    if (isa<AllocaInst>(&I)) {
      auto *A = cast<AllocaInst>(&I);
      if (!A->isStaticAlloca()) A->setOperand(0, concretize(B, A->getArraySize()));
      return;
    }
    if (isa<ResumeInst>(&I) || isa<LandingPadInst>(&I) || isa<UnreachableInst>(&I) || isa<FenceInst>(&I)) return;
    for (Value *o : I.operands())
      if (!isa<BasicBlock>(o)) unsup(B, sh(o), I.getOpcodeName());
  }

  GlobalVariable *IdVar = nullptr;
  std::vector<std::pair<std::string, GlobalVariable *>> Registered;

  void runOn(Function &Fn) {
    F = &Fn;
    SH.clear(); tableRead.clear();
    Phis.clear();
    EliminateUnreachableBlocks(Fn);
    // dedicated normal destination for each invoke
    {
      std::vector<InvokeInst *> inv;
      for (Instruction &I : instructions(Fn)) if (auto *iv = dyn_cast<InvokeInst>(&I)) inv.push_back(iv);
      for (auto *iv : inv) {
        BasicBlock *ND = iv->getNormalDest();
        BasicBlock *NB = BasicBlock::Create(C, "lfs.nd", &Fn, ND);
        BranchInst::Create(ND, NB);
        iv->setNormalDest(NB);
        for (PHINode &P : ND->phis()) {
          int k = P.getBasicBlockIndex(iv->getParent());
          P.setIncomingBlock(k, NB);
        }
      }
    }
    std::vector<Instruction *> order;
    {
      ReversePostOrderTraversal<Function *> RPOT(&Fn);
      for (BasicBlock *BB : RPOT) for (Instruction &I : *BB) order.push_back(&I);
    }
    // prologue
    BasicBlock &EB = Fn.getEntryBlock();
    BasicBlock::iterator ip = EB.begin();
    while (isa<AllocaInst>(*ip)) ++ip;
    IRBuilder<> B(&EB, ip);
    Value *tgt = B.CreateLoad(PtrT, Target);
    Value *valid = B.CreateICmpEQ(tgt, &Fn);
    B.CreateStore(ConstantPointerNull::get(cast<PointerType>(PtrT)), Target);
    unsigned slot = 0;
    for (Argument &A : Fn.args()) {
      unsigned s0 = slot;
      Value *s = loadSlots(B, ArgSlots, slot, ST(A.getType()));
      (void)s0;
      if (!A.getType()->isPointerTy()) SH[&A] = B.CreateSelect(valid, s, Constant::getNullValue(s->getType()));
    }
    for (Instruction &I : EB)
      if (auto *A = dyn_cast<AllocaInst>(&I))
        if (A->isStaticAlloca()) {
          auto sz = A->getAllocationSize(DL);
          if (sz && sz->getFixedValue() > 0) B.CreateCall(fClear, {A, ConstantInt::get(I64, sz->getFixedValue())});
        }
    StringRef nm = Fn.getName();
    if (nm.contains("2lf") || nm.contains("8projects")) {
      auto *id = new GlobalVariable(M, I32, false, GlobalValue::PrivateLinkage, ConstantInt::get(I32, 0), "__lfs_id");
      Registered.push_back({nm.str(), id});
      Value *p = B.CreateLoad(PtrT, Cov);
      Value *ix = B.CreateZExt(B.CreateLoad(I32, id), I64);
      B.CreateStore(ConstantInt::get(I8, 1), B.CreateGEP(I8, p, ix));
    }
    for (Instruction *I : order) visit(*I);
    for (auto &[P, SP] : Phis)
      for (unsigned k = 0; k < P->getNumIncomingValues(); k++) SP->addIncoming(sh(P->getIncomingValue(k)), P->getIncomingBlock(k));
    // returns; the caller recognises by __lfs_exited that its callee was instrumented
    for (BasicBlock &BB : Fn)
      if (auto *R = dyn_cast<ReturnInst>(BB.getTerminator())) {
        if (auto *pc = dyn_cast_or_null<CallInst>(R->getPrevNode())) if (pc->isMustTailCall()) continue;
        IRBuilder<>(R).CreateStore(&Fn, Exited);
      }
    if (!Fn.getReturnType()->isVoidTy()) {
      for (BasicBlock &BB : Fn)
        if (auto *R = dyn_cast<ReturnInst>(BB.getTerminator())) {
          if (auto *pc = dyn_cast_or_null<CallInst>(R->getPrevNode())) if (pc->isMustTailCall()) continue;
          IRBuilder<> BR(R);
          Value *s = sh(R->getReturnValue());
          if (!isZero(s)) s = BR.CreateSelect(valid, s, Constant::getNullValue(s->getType()));
          unsigned i = 0;
          storeSlots(BR, RetSlots, i, s);
        }
    }
  }

  void run() {
    stripByval();
    std::vector<Function *> fs;
    for (Function &G : M)
      if (!G.isDeclaration() && !isRuntimeName(G.getName()) && !isApiName(G.getName()) && !G.hasAvailableExternallyLinkage()) fs.push_back(&G);
    for (Function &G : M)
      if (G.hasAvailableExternallyLinkage()) { G.deleteBody(); }
    for (Function *G : fs) {
      // drop attributes that the instrumentation invalidates
      for (auto k : {Attribute::NoFree, Attribute::NoSync, Attribute::WillReturn, Attribute::Speculatable, Attribute::Memory, Attribute::NoRecurse})
        G->removeFnAttr(k);
      runOn(*G);
    }
    for (Function &G : M)
      if (G.isDeclaration() && !G.isIntrinsic())
        for (auto k : {Attribute::Memory, Attribute::Speculatable}) G.removeFnAttr(k);
    for (Function &G : M)
      for (Instruction &I : instructions(G))
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (!isa<IntrinsicInst>(CB)) CB->removeFnAttr(Attribute::Memory);
    if (!Registered.empty()) {
      FunctionCallee reg = M.getOrInsertFunction("__lfs_register", VoidT, PtrT, PtrT);
      Function *ctor = Function::Create(FunctionType::get(VoidT, false), GlobalValue::InternalLinkage, "__lfs_ctor", &M);
      IRBuilder<> B(BasicBlock::Create(C, "e", ctor));
      for (auto &[n, id] : Registered) B.CreateCall(reg, {strPtr(B, n), id});
      B.CreateRetVoid();
      appendToGlobalCtors(M, ctor, 1);
    }
  }
};

struct LFSymPass : PassInfoMixin<LFSymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Instr(M).run();
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "lfsym", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) {
              ScalarizerPassOptions o;
              o.ScalarizeLoadStore = true;
              MPM.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass(o)));
              MPM.addPass(LFSymPass());
            });
          }};
}
