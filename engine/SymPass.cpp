// LLVM-18 pass: instruments every function of a module for exhaustive symbolic execution.
// Every scalar SSA value (integer <=64 bit, double) gets a "shadow" (Expr* of the runtime, null = concrete).
// Pointers are always concrete: a symbolic index reaching an address is split (completely) by the runtime.
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Scalar/LowerAtomicPass.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/ADT/DenseSet.h"
#include "llvm/ADT/SetVector.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

namespace {
// library functions replaced by models (runtime functions or instrumented C++ models)
const std::map<std::string, std::string> kRename = {
    {"memcmp", "__symw_memcmp"},   {"bcmp", "__symw_memcmp"},     {"strlen", "__symw_strlen"},
    {"strcmp", "__symw_strcmp"},   {"memchr", "__symw_memchr"},   {"memcpy", "__symw_memcpy"},
    {"memmove", "__symw_memmove"}, {"memset", "__symw_memset"},   {"strtol", "__symw_strtol"},
    {"strtoll", "__symw_strtol"},  {"strtoul", "__symw_strtoul"}, {"strtoull", "__symw_strtoul"},
    {"strtod", "__symw_strtod"},   {"__isoc23_strtol", "__symw_strtol"},
    {"__isoc23_strtoll", "__symw_strtol"}, {"__isoc23_strtoul", "__symw_strtoul"},
    {"__isoc23_strtoull", "__symw_strtoul"},
    {"_ZSt11_Hash_bytesPKvmm", "__symw_hash_bytes"},
    {"sqrt", "__symw_sqrt"}, {"fabs", "__symw_fabs"}, {"floor", "__symw_floor"}, {"ceil", "__symw_ceil"},
    {"round", "__symw_round"}, {"lround", "__symw_lround"}, {"trunc", "__symw_trunc"},
    {"sin", "__symw_sin"}, {"cos", "__symw_cos"}, {"tan", "__symw_tan"}, {"atan", "__symw_atan"},
    {"atan2", "__symw_atan2"}, {"asin", "__symw_asin"}, {"acos", "__symw_acos"}, {"exp", "__symw_exp"},
    {"log", "__symw_log"}, {"pow", "__symw_pow"}, {"fmod", "__symw_fmod"}, {"hypot", "__symw_hypot"},
    {"fmin", "__symw_fmin"}, {"fmax", "__symw_fmax"}, {"sinh", "__symw_sinh"}, {"cosh", "__symw_cosh"},
    {"tanh", "__symw_tanh"}, {"log10", "__symw_log10"},{"lrint", "__symw_lrint"},{"rint", "__symw_rint"},{"nearbyint", "__symw_rint"},
    {"__errno_location", "__symw_errno"},
    {"_Znwm", "__symw_new"}, {"_Znam", "__symw_new"}, {"malloc", "__symw_malloc"},
};
const std::set<std::string> kNoCheckExt = {"malloc", "free", "_Znwm", "_Znam", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm",
    "__cxa_begin_catch", "__cxa_end_catch", "__cxa_allocate_exception", "__cxa_free_exception", "__cxa_throw",
    "__cxa_rethrow", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_atexit", "_ZSt9terminatev",
    "__clang_call_terminate", "_Unwind_Resume", "__cxa_pure_virtual", "__assert_fail", "abort","__dynamic_cast",
    "__cxa_bad_cast","__cxa_get_exception_ptr","__gxx_personality_v0","_ZNSt9exceptionD2Ev","__cxa_throw_bad_array_new_length",
    "_ZSt28__throw_bad_array_new_lengthv","_ZSt17__throw_bad_allocv",
    "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base","_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base",
    "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base","_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base",
    "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",
    "_ZNSt10_Sp_lockerC1EPKv","_ZNSt10_Sp_lockerC1EPKvS1_","_ZNSt10_Sp_lockerD1Ev","_ZNSt10_Sp_lockerC2EPKv","_ZNSt10_Sp_lockerC2EPKvS1_","_ZNSt10_Sp_lockerD2Ev"};

struct Instr {
  Module &M;
  LLVMContext &C;
  Type *PtrTy, *I64, *I32, *I8, *I1, *VoidTy, *DblTy;
  GlobalVariable *GArgs, *GRet, *GCallee, *GRetFrom;
  FunctionCallee fEnter, fBin, fCmp, fCast, fFBin, fFCmp, fFUn, fIte, fBranch, fConc, fLoad, fStore, fStoreC, fPost,
      fMemcpy, fMemset, fByval, fIntr, fSelBr, fYield, fExtr, fConcMem;
  bool yield = false;
  DenseMap<Value *, SmallVector<Value *, 1>> S;
  Function *F = nullptr;
  Instr(Module &M) : M(M), C(M.getContext()) {
    PtrTy = PointerType::getUnqual(C);
    I64 = Type::getInt64Ty(C);
    I32 = Type::getInt32Ty(C);
    I8 = Type::getInt8Ty(C);
    I1 = Type::getInt1Ty(C);
    VoidTy = Type::getVoidTy(C);
    DblTy = Type::getDoubleTy(C);
    auto gv = [&](const char *n, Type *t) {
      auto *g = cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
      return g;
    };
    GArgs = gv("__sym_args", ArrayType::get(PtrTy, 64));
    GRet = gv("__sym_ret", ArrayType::get(PtrTy, 16));
    GCallee = gv("__sym_callee", PtrTy);
    GRetFrom = gv("__sym_ret_from", PtrTy);
    auto fn = [&](const char *n, Type *r, std::vector<Type *> a) {
      return M.getOrInsertFunction(n, FunctionType::get(r, a, false));
    };
    fEnter = fn("__sym_enter", VoidTy, {PtrTy, I32});
    fBin = fn("__sym_bin", PtrTy, {I32, I32, PtrTy, PtrTy, I64, I64});
    fCmp = fn("__sym_cmp", PtrTy, {I32, I32, PtrTy, PtrTy, I64, I64});
    fCast = fn("__sym_cast", PtrTy, {I32, I32, I32, PtrTy});
    fFBin = fn("__sym_fbin", PtrTy, {I32, PtrTy, PtrTy, DblTy, DblTy});
    fFCmp = fn("__sym_fcmp", PtrTy, {I32, PtrTy, PtrTy, DblTy, DblTy});
    fFUn = fn("__sym_fun", PtrTy, {I32, PtrTy});
    fIte = fn("__sym_ite", PtrTy, {PtrTy, PtrTy, PtrTy, I32, I64, I64, I32});
    fBranch = fn("__sym_branch", VoidTy, {PtrTy, I32, I32});
    fConc = fn("__sym_conc", VoidTy, {PtrTy, I32});
    fLoad = fn("__sym_load", PtrTy, {PtrTy, I32, I64});
    fStore = fn("__sym_store", VoidTy, {PtrTy, I32, PtrTy, I64});
    fStoreC = fn("__sym_store_c", VoidTy, {PtrTy, I32});
    fPost = fn("__sym_post", VoidTy, {PtrTy, PtrTy, I32, PtrTy, PtrTy, PtrTy});
    fMemcpy = fn("__sym_memcpy", VoidTy, {PtrTy, PtrTy, I64, PtrTy});
    fMemset = fn("__sym_memset", VoidTy, {PtrTy, I64, PtrTy, I8, PtrTy});
    fByval = fn("__sym_byval", VoidTy, {PtrTy, PtrTy, I64});
    fIntr = fn("__sym_intr", PtrTy, {I32, I32, PtrTy, PtrTy, I64, I64});
    fSelBr = fn("__sym_branch", VoidTy, {PtrTy, I32, I32});
    fYield = fn("__sym_yield", VoidTy, {});
    fConcMem = fn("__sym_conc_mem", VoidTy, {PtrTy, I32});
    fExtr = fn("__sym_extract", PtrTy, {PtrTy, I32, I32});
  }
  Constant *null() { return ConstantPointerNull::get(cast<PointerType>(PtrTy)); }
  static bool scalar(Type *T) {
    if (auto *I = dyn_cast<IntegerType>(T)) return I->getBitWidth() <= 64;
    return T->isDoubleTy();
  }
  // leaf scalar types of a (first class) type; non-scalars leaves are kept with type so indices stay aligned
  void leaves(Type *T, SmallVectorImpl<Type *> &out) {
    if (auto *ST = dyn_cast<StructType>(T)) {
      for (auto *E : ST->elements()) leaves(E, out);
    } else if (auto *AT = dyn_cast<ArrayType>(T)) {
      for (unsigned i = 0; i < AT->getNumElements(); i++) leaves(AT->getElementType(), out);
    } else if (auto *VT = dyn_cast<FixedVectorType>(T)) {
      for (unsigned i = 0; i < VT->getNumElements(); i++) leaves(VT->getElementType(), out);
    } else
      out.push_back(T);
  }
  unsigned nleaves(Type *T) {
    if (T->isVoidTy()) return 0;
    SmallVector<Type *, 4> l;
    leaves(T, l);
    return l.size();
  }
  unsigned leafIndex(Type *T, ArrayRef<unsigned> idx) {
    unsigned off = 0;
    for (unsigned i : idx) {
      if (auto *ST = dyn_cast<StructType>(T)) {
        for (unsigned k = 0; k < i; k++) off += nleaves(ST->getElementType(k));
        T = ST->getElementType(i);
      } else if (auto *AT = dyn_cast<ArrayType>(T)) {
        off += i * nleaves(AT->getElementType());
        T = AT->getElementType();
      }
    }
    return off;
  }
  bool hasUntracked(Type *T) {
    SmallVector<Type *, 4> l;
    leaves(T, l);
    for (auto *t : l)
      if (!scalar(t) && !t->isPointerTy()) return true;
    return false;
  }
  bool hasScalar(Type *T) {
    if (T->isVoidTy() || T->isPointerTy() || T->isLabelTy() || T->isTokenTy() || T->isMetadataTy()) return false;
    SmallVector<Type *, 4> l;
    leaves(T, l);
    for (auto *t : l)
      if (scalar(t)) return true;
    return false;
  }
  Value *sh(Value *V, unsigned leaf = 0) {
    auto it = S.find(V);
    if (it == S.end()) return null();
    return it->second[leaf];
  }
  bool conc(Value *V) {  // statically concrete
    auto it = S.find(V);
    if (it == S.end()) return true;
    for (auto *x : it->second)
      if (!isa<ConstantPointerNull>(x)) return false;
    return true;
  }
  Value *bits64(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (T->isDoubleTy()) return B.CreateBitCast(V, I64);
    if (T->isPointerTy()) return B.CreatePtrToInt(V, I64);
    if (T->isIntegerTy()) {
      if (T->getIntegerBitWidth() > 64) return B.CreateTrunc(V, I64);
      return B.CreateZExt(V, I64);
    }
    return B.getInt64(0);
  }
  Value *argSlot(IRBuilder<> &B, unsigned i) { return B.CreateConstGEP2_32(GArgs->getValueType(), GArgs, 0, i); }
  Value *retSlot(IRBuilder<> &B, unsigned i) { return B.CreateConstGEP2_32(GRet->getValueType(), GRet, 0, i); }
  unsigned site = 0;
  SmallVector<GlobalValue *, 64> used;
  ConstantInt *B0(int v) { return ConstantInt::get(cast<IntegerType>(I8), v); }

  bool inert(Function &F) {
    if (F.isDeclaration() || F.hasAvailableExternallyLinkage()) return true;
    if (F.getName().starts_with("__sym") && !F.getName().starts_with("__symw")) return true;
    if (F.hasFnAttribute(Attribute::Naked)) return true;
    return false;
  }

  void run() {
    SmallVector<Function *, 64> fs;
    for (auto &F : M)
      if (!inert(F)) fs.push_back(&F);
    // redirect modelled library functions
    for (auto &kv : kRename) {
      if (auto *f = M.getFunction(kv.first)) {
        if (!f->isDeclaration()) continue;
        FunctionType *ft = f->getFunctionType();
        auto nf = M.getOrInsertFunction(kv.second, ft);
        f->replaceAllUsesWith(nf.getCallee());
      }
    }
    for (auto *f : fs) runOn(*f);
    appendToUsed(M, used);
    for (auto &F : M) {
      F.removeFnAttr(Attribute::Memory);
      F.removeFnAttr(Attribute::Speculatable);
      F.removeFnAttr(Attribute::NoSync);
      for (auto &A : F.args()) { A.removeAttr(Attribute::ReadNone); A.removeAttr(Attribute::ReadOnly); A.removeAttr(Attribute::WriteOnly);}
      if (!F.isDeclaration() && F.getName() != "main" && !F.hasLocalLinkage()) {
        if (!F.hasAvailableExternallyLinkage()) { F.setVisibility(GlobalValue::HiddenVisibility); F.setDLLStorageClass(GlobalValue::DefaultStorageClass);}
        F.setDSOLocal(true);
      }
    }
    for (auto &A : M.aliases()) if (!A.hasLocalLinkage() && isa<Function>(A.getAliaseeObject())) A.setVisibility(GlobalValue::HiddenVisibility);
  }

  // results of untracked types (i128, float, vectors of them) are never in sym: their symbolic operands must be split
  bool skip(DenseSet<Value *> &sym, Instruction &I) { return !sym.count(&I) && !hasUntracked(I.getType()); }

  void runOn(Function &Fn) {
    F = &Fn;
    S.clear();
    // vector/odd values: we keep leaf shadows for vectors too
    // split invoke normal edges
    SmallVector<InvokeInst *, 16> invs;
    for (auto &BB : Fn)
      if (auto *II = dyn_cast<InvokeInst>(BB.getTerminator())) invs.push_back(II);
    for (auto *II : invs) {
      BasicBlock *N = II->getNormalDest();
      if (!N->getSinglePredecessor() || isa<PHINode>(N->front())) {
        BasicBlock *NB = BasicBlock::Create(C, "inv.split", &Fn, N);
        BranchInst::Create(N, NB);
        II->setNormalDest(NB);
        for (auto &P : N->phis()) {
          int i = P.getBasicBlockIndex(II->getParent());
          P.setIncomingBlock(i, NB);
        }
      }
    }
    // static "may be symbolic" analysis
    DenseSet<Value *> sym;
    SmallVector<Value *, 64> wl;
    auto mark = [&](Value *V) {
      if (hasScalar(V->getType()) && sym.insert(V).second) wl.push_back(V);
    };
    for (auto &A : Fn.args()) mark(&A);
    for (auto &I : instructions(Fn)) {
      if (isa<LoadInst>(I)) mark(&I);
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
          (void)II;
        } else
          mark(&I);
      }
    }
    while (!wl.empty()) {
      Value *V = wl.pop_back_val();
      for (auto *U : V->users()) {
        auto *I = dyn_cast<Instruction>(U);
        if (!I) continue;
        if (isa<BinaryOperator>(I) || isa<UnaryOperator>(I) || isa<CmpInst>(I) || isa<CastInst>(I) || isa<SelectInst>(I) ||
            isa<PHINode>(I) || isa<ExtractValueInst>(I) || isa<InsertValueInst>(I) || isa<ExtractElementInst>(I) ||
            isa<InsertElementInst>(I) || isa<ShuffleVectorInst>(I) || isa<FreezeInst>(I) || isa<IntrinsicInst>(I))
          mark(I);
      }
    }
    // original instruction list
    SmallVector<Instruction *, 256> work;
    // reverse post order so that definitions precede uses
    {
      SmallVector<BasicBlock *, 64> rpo;
      DenseSet<BasicBlock *> seen;
      SmallVector<std::pair<BasicBlock *, unsigned>, 64> st;
      st.push_back({&Fn.getEntryBlock(), 0});
      seen.insert(&Fn.getEntryBlock());
      while (!st.empty()) {
        auto &[bb, i] = st.back();
        auto *T = bb->getTerminator();
        if (i < T->getNumSuccessors()) {
          auto *s = T->getSuccessor(i++);
          if (seen.insert(s).second) st.push_back({s, 0});
        } else {
          rpo.push_back(bb);
          st.pop_back();
        }
      }
      for (auto it = rpo.rbegin(); it != rpo.rend(); ++it)
        for (auto &I : **it) work.push_back(&I);
    }
    // entry: read argument shadows
    {
      Instruction *ip = &*Fn.getEntryBlock().getFirstInsertionPt();
      while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
      IRBuilder<> B(ip);
      unsigned n = 0;
      bool any = false;
      for (auto &A : Fn.args())
        if (hasScalar(A.getType()) || A.hasByValAttr()) any = true;
      if (any && !Fn.isVarArg()) {
        B.CreateCall(fEnter, {&Fn, B.getInt32(countSlots(Fn.getFunctionType(), &Fn))});
        for (auto &A : Fn.args()) {
          if (A.hasByValAttr()) {
            auto *src = B.CreateLoad(PtrTy, argSlot(B, n++));
            B.CreateCall(fByval, {&A, src, B.getInt64(M.getDataLayout().getTypeAllocSize(A.getParamByValType()))});
            continue;
          }
          if (!hasScalar(A.getType())) continue;
          SmallVector<Value *, 1> l;
          for (unsigned k = 0; k < nleaves(A.getType()); k++) l.push_back(B.CreateLoad(PtrTy, argSlot(B, n++)));
          S[&A] = l;
        }
      }
    }
    if (Fn.getName().contains("lanelet")) {
      auto *flag = new GlobalVariable(M, I8, false, GlobalValue::PrivateLinkage, B0(0), "symfn.flag");
      auto *nm = ConstantDataArray::getString(C, Fn.getName());
      auto *ng = new GlobalVariable(M, nm->getType(), true, GlobalValue::PrivateLinkage, nm, "symfn.name");
      auto *ty = StructType::get(C, {PtrTy, PtrTy});
      auto *ent = new GlobalVariable(M, ty, false, GlobalValue::PrivateLinkage, ConstantStruct::get(ty, {ng, flag}), "symfn.ent");
      ent->setSection("symfns");
      ent->setAlignment(Align(16));
      used.push_back(ent);
      Instruction *ip = &*Fn.getEntryBlock().getFirstInsertionPt();
      while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
      IRBuilder<>(ip).CreateStore(B0(1), flag);
    }
    // phi placeholders
    SmallVector<PHINode *, 32> phis;
    for (auto *I : work)
      if (auto *P = dyn_cast<PHINode>(I))
        if (sym.count(P)) {
          SmallVector<Value *, 1> l;
          IRBuilder<> B(P);
          SmallVector<Type *, 4> lt;
          leaves(P->getType(), lt);
          for (auto *t : lt) l.push_back(scalar(t) ? (Value *)B.CreatePHI(PtrTy, P->getNumIncomingValues()) : (Value *)null());
          S[P] = l;
          phis.push_back(P);
        }
    for (auto *I : work)
      if (!isa<PHINode>(I)) visit(*I, sym);
    for (auto *P : phis) {
      for (unsigned k = 0; k < S[P].size(); k++) {
        auto *SP = dyn_cast<PHINode>(S[P][k]);
        if (!SP) continue;
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) SP->addIncoming(sh(P->getIncomingValue(i), k), P->getIncomingBlock(i));
      }
    }
  }
  unsigned countSlots(FunctionType *FT, Function *Fn) {
    unsigned n = 0;
    for (unsigned i = 0; i < FT->getNumParams(); i++) {
      if (Fn && Fn->hasParamAttribute(i, Attribute::ByVal)) n++;
      else if (hasScalar(FT->getParamType(i))) n += nleaves(FT->getParamType(i));
    }
    return n;
  }

  void set1(Value *V, Value *s) { S[V] = SmallVector<Value *, 1>{s}; }
  // completely concretize scalar leaves of V before I
  void concretize(IRBuilder<> &B, Value *V) {
    auto it = S.find(V);
    if (it == S.end()) return;
    for (auto *s : it->second)
      if (!isa<ConstantPointerNull>(s)) B.CreateCall(fConc, {s, B.getInt32(++site)});
  }

  void visit(Instruction &I, DenseSet<Value *> &sym) {
    const DataLayout &DL = M.getDataLayout();
    if (auto *A = dyn_cast<AllocaInst>(&I)) {
      if (A->isArrayAllocation() && !conc(A->getArraySize())) { IRBuilder<> B(&I); concretize(B, A->getArraySize()); }
      return;
    }
    if (auto *L = dyn_cast<LoadInst>(&I)) {
      IRBuilder<> B(I.getNextNode());
      Type *T = L->getType();
      if (!T->isPointerTy() && hasUntracked(T))  // e.g. float, i128: split completely on the symbolic bytes
        B.CreateCall(fConcMem, {L->getPointerOperand(), B.getInt32(DL.getTypeStoreSize(T))});
      if (!hasScalar(T)) return;  // pointers are concrete
      if (scalar(T)) {
        set1(L, B.CreateCall(fLoad, {L->getPointerOperand(), B.getInt32(DL.getTypeStoreSize(T)), bits64(B, L)}));
      } else {
        aggLoad(B, L, T, L->getPointerOperand());
      }
      return;
    }
    if (auto *St = dyn_cast<StoreInst>(&I)) {
      IRBuilder<> B(I.getNextNode());
      Value *V = St->getValueOperand();
      Type *T = V->getType();
      if (scalar(T) && !conc(V))
        B.CreateCall(fStore, {St->getPointerOperand(), B.getInt32(DL.getTypeStoreSize(T)), sh(V), bits64(B, V)});
      else if (scalar(T) || !hasScalar(T) || conc(V))
        B.CreateCall(fStoreC, {St->getPointerOperand(), B.getInt32(DL.getTypeStoreSize(T))});
      else
        aggStore(B, V, T, St->getPointerOperand());
      return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      IRBuilder<> B(&I);
      for (auto &Ix : G->indices()) concretize(B, Ix);
      return;
    }
    if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
      if (skip(sym, I)) return;
      IRBuilder<> B(I.getNextNode());
      Value *a = BO->getOperand(0), *b = BO->getOperand(1);
      if (conc(a) && conc(b)) return;
      Type *T = I.getType();
      if (T->isIntegerTy() && scalar(T)) {
        set1(&I, B.CreateCall(fBin, {B.getInt32(BO->getOpcode()), B.getInt32(T->getIntegerBitWidth()), sh(a), sh(b), bits64(B, a), bits64(B, b)}));
      } else if (T->isDoubleTy()) {
        set1(&I, B.CreateCall(fFBin, {B.getInt32(BO->getOpcode()), sh(a), sh(b), a, b}));
      } else
        odd(&I);
      return;
    }
    if (auto *U = dyn_cast<UnaryOperator>(&I)) {
      if (skip(sym, I) || conc(U->getOperand(0))) return;
      IRBuilder<> B(I.getNextNode());
      if (I.getType()->isDoubleTy())
        set1(&I, B.CreateCall(fFUn, {B.getInt32(0), sh(U->getOperand(0))}));
      else
        odd(&I);
      return;
    }
    if (auto *Cm = dyn_cast<CmpInst>(&I)) {
      if (!sym.count(&I)) return;
      Value *a = Cm->getOperand(0), *b = Cm->getOperand(1);
      if (conc(a) && conc(b)) return;
      IRBuilder<> B(I.getNextNode());
      Type *T = a->getType();
      if (T->isIntegerTy() && scalar(T))
        set1(&I, B.CreateCall(fCmp, {B.getInt32(Cm->getPredicate()), B.getInt32(T->getIntegerBitWidth()), sh(a), sh(b), bits64(B, a), bits64(B, b)}));
      else if (T->isDoubleTy())
        set1(&I, B.CreateCall(fFCmp, {B.getInt32(Cm->getPredicate()), sh(a), sh(b), a, b}));
      else
        odd(&I);
      return;
    }
    if (auto *Ca = dyn_cast<CastInst>(&I)) {
      Value *a = Ca->getOperand(0);
      if (isa<IntToPtrInst>(Ca)) {
        if (!conc(a)) { IRBuilder<> B(&I); concretize(B, a); }
        return;
      }
      if (skip(sym, I) || conc(a)) return;
      IRBuilder<> B(I.getNextNode());
      Type *from = a->getType(), *to = Ca->getType();
      if (scalar(from) && scalar(to)) {
        unsigned fb = from->isDoubleTy() ? 64 : from->getIntegerBitWidth();
        unsigned tb = to->isDoubleTy() ? 64 : to->getIntegerBitWidth();
        set1(&I, B.CreateCall(fCast, {B.getInt32(Ca->getOpcode()), B.getInt32(fb), B.getInt32(tb), sh(a)}));
      } else if (isa<BitCastInst>(Ca) && S.count(a) && nleaves(from) == nleaves(to)) {
        S[&I] = S[a];
      } else
        odd(&I);
      return;
    }
    if (auto *Se = dyn_cast<SelectInst>(&I)) {
      Value *c = Se->getCondition(), *a = Se->getTrueValue(), *b = Se->getFalseValue();
      if (!c->getType()->isIntegerTy(1)) {
        if (sym.count(&I)) odd(&I);
        return;
      }
      Type *T = I.getType();
      IRBuilder<> B(I.getNextNode());
      if (scalar(T) && sym.count(&I)) {
        if (conc(c) && conc(a) && conc(b)) return;
        if (conc(c)) {
          set1(&I, B.CreateSelect(c, sh(a), sh(b)));
          return;
        }
        // runtime ite: handles concrete condition too
        unsigned bits = T->isDoubleTy() ? 0 : T->getIntegerBitWidth();
        set1(&I, B.CreateCall(fIte, {sh(c), sh(a), sh(b), B.getInt32(bits), bits64(B, a), bits64(B, b), B.CreateZExt(c, I32)}));
        return;
      }
      // pointer / aggregate: split on the condition
      if (!conc(c)) B.CreateCall(fBranch, {sh(c), B.CreateZExt(c, I32), B.getInt32(++site)});
      if (hasScalar(T)) {
        SmallVector<Value *, 1> l;
        for (unsigned k = 0; k < nleaves(T); k++) l.push_back(B.CreateSelect(c, sh(a, k), sh(b, k)));
        S[&I] = l;
      }
      return;
    }
    if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
      Value *a = EV->getAggregateOperand();
      if (!S.count(a) || !hasScalar(I.getType())) return;
      unsigned o = leafIndex(a->getType(), EV->getIndices());
      SmallVector<Value *, 1> l;
      for (unsigned k = 0; k < nleaves(I.getType()); k++) l.push_back(S[a][o + k]);
      S[&I] = l;
      return;
    }
    if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
      if (!hasScalar(I.getType())) return;
      Value *a = IV->getAggregateOperand(), *v = IV->getInsertedValueOperand();
      SmallVector<Value *, 1> l;
      unsigned n = nleaves(I.getType());
      for (unsigned k = 0; k < n; k++) l.push_back(sh(a, k));
      unsigned o = leafIndex(I.getType(), IV->getIndices());
      for (unsigned k = 0; k < nleaves(v->getType()); k++) l[o + k] = sh(v, k);
      S[&I] = l;
      return;
    }
    if (auto *EE = dyn_cast<ExtractElementInst>(&I)) {
      Value *a = EE->getVectorOperand();
      if (!S.count(a)) return;
      if (auto *ci = dyn_cast<ConstantInt>(EE->getIndexOperand())) {
        if (scalar(I.getType())) set1(&I, S[a][ci->getZExtValue()]);
      } else odd(&I);
      return;
    }
    if (auto *IE = dyn_cast<InsertElementInst>(&I)) {
      if (!sym.count(&I)) return;
      unsigned n = nleaves(I.getType());
      SmallVector<Value *, 1> l;
      for (unsigned k = 0; k < n; k++) l.push_back(sh(IE->getOperand(0), k));
      if (auto *ci = dyn_cast<ConstantInt>(IE->getOperand(2))) {
        l[ci->getZExtValue()] = sh(IE->getOperand(1));
        S[&I] = l;
      } else odd(&I);
      return;
    }
    if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) {
      if (!sym.count(&I)) return;
      SmallVector<Value *, 1> l;
      unsigned n0 = nleaves(SV->getOperand(0)->getType());
      for (int m : SV->getShuffleMask()) l.push_back(m < 0 ? (Value *)null() : ((unsigned)m < n0 ? sh(SV->getOperand(0), m) : sh(SV->getOperand(1), m - n0)));
      S[&I] = l;
      return;
    }
    if (auto *Fr = dyn_cast<FreezeInst>(&I)) {
      if (S.count(Fr->getOperand(0))) S[&I] = S[Fr->getOperand(0)];
      return;
    }
    if (auto *Br = dyn_cast<BranchInst>(&I)) {
      if (Br->isConditional() && !conc(Br->getCondition())) {
        IRBuilder<> B(&I);
        B.CreateCall(fBranch, {sh(Br->getCondition()), B.CreateZExt(Br->getCondition(), I32), B.getInt32(++site)});
      }
      return;
    }
    if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
      IRBuilder<> B(&I);
      concretize(B, Sw->getCondition());
      return;
    }
    if (auto *R = dyn_cast<ReturnInst>(&I)) {
      IRBuilder<> B(&I);
      Value *v = R->getReturnValue();
      if (v && hasScalar(v->getType())) {
        unsigned n = nleaves(v->getType());
        if (n > 16) n = 16;
        for (unsigned k = 0; k < n; k++) B.CreateStore(sh(v, k), retSlot(B, k));
      }
      B.CreateStore(F, GRetFrom);
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(&I)) {
      visitCall(*CB, sym);
      return;
    }
    if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
      // only reached if not lowered; clear memory
      return;
    }
  }
  void aggLoad(IRBuilder<> &B, Instruction *L, Type *T, Value *P) {
    SmallVector<Value *, 1> l;
    const DataLayout &DL = M.getDataLayout();
    std::function<void(Type *, uint64_t, Value *)> rec = [&](Type *t, uint64_t off, Value *v) {
      if (auto *ST = dyn_cast<StructType>(t)) {
        for (unsigned i = 0; i < ST->getNumElements(); i++) rec(ST->getElementType(i), off + DL.getStructLayout(ST)->getElementOffset(i), B.CreateExtractValue(v, i));
      } else if (auto *AT = dyn_cast<ArrayType>(t)) {
        for (unsigned i = 0; i < AT->getNumElements(); i++) rec(AT->getElementType(), off + i * DL.getTypeAllocSize(AT->getElementType()), B.CreateExtractValue(v, i));
      } else if (auto *VT = dyn_cast<FixedVectorType>(t)) {
        for (unsigned i = 0; i < VT->getNumElements(); i++) rec(VT->getElementType(), off + i * DL.getTypeAllocSize(VT->getElementType()), B.CreateExtractElement(v, i));
      } else if (scalar(t))
        l.push_back(B.CreateCall(fLoad, {B.CreateConstGEP1_64(I8, P, off), B.getInt32(DL.getTypeStoreSize(t)), bits64(B, v)}));
      else
        l.push_back(null());
    };
    rec(T, 0, L);
    S[L] = l;
  }
  void aggStore(IRBuilder<> &B, Value *V, Type *T, Value *P) {
    const DataLayout &DL = M.getDataLayout();
    unsigned k = 0;
    std::function<void(Type *, uint64_t, Value *)> rec = [&](Type *t, uint64_t off, Value *v) {
      if (auto *ST = dyn_cast<StructType>(t)) {
        for (unsigned i = 0; i < ST->getNumElements(); i++) rec(ST->getElementType(i), off + DL.getStructLayout(ST)->getElementOffset(i), B.CreateExtractValue(v, i));
      } else if (auto *AT = dyn_cast<ArrayType>(t)) {
        for (unsigned i = 0; i < AT->getNumElements(); i++) rec(AT->getElementType(), off + i * DL.getTypeAllocSize(AT->getElementType()), B.CreateExtractValue(v, i));
      } else if (auto *VT = dyn_cast<FixedVectorType>(t)) {
        for (unsigned i = 0; i < VT->getNumElements(); i++) rec(VT->getElementType(), off + i * DL.getTypeAllocSize(VT->getElementType()), B.CreateExtractElement(v, i));
      } else {
        Value *s = S[V][k++];
        Value *p = B.CreateConstGEP1_64(I8, P, off);
        if (scalar(t))
          B.CreateCall(fStore, {p, B.getInt32(DL.getTypeStoreSize(t)), s, bits64(B, v)});
        else
          B.CreateCall(fStoreC, {p, B.getInt32(DL.getTypeStoreSize(t))});
      }
    };
    rec(T, 0, V);
  }
  // unsupported operation: split completely on all symbolic operands (sound and complete, but forks per value)
  void odd(Instruction *I) {
    IRBuilder<> B(I);
    for (auto &O : I->operands()) concretize(B, O);
  }

  void visitCall(CallBase &CB, DenseSet<Value *> &sym) {
    if (CB.isInlineAsm()) {
      IRBuilder<> B(&CB);
      for (auto &A : CB.args()) concretize(B, A);
      return;
    }
    if (auto *II = dyn_cast<IntrinsicInst>(&CB)) {
      visitIntr(*II, sym);
      return;
    }
    Function *Cal = CB.getCalledFunction();
    if (!Cal) {
      auto *st = CB.getCalledOperand()->stripPointerCasts();
      if (auto *ga = dyn_cast<GlobalAlias>(st)) st = dyn_cast_or_null<Function>(ga->getAliaseeObject());
      Cal = dyn_cast_or_null<Function>(st);
      if (Cal && Cal->getFunctionType() != CB.getFunctionType()) Cal = nullptr;
    }
    std::string name = Cal ? Cal->getName().str() : std::string("(indirect)");
    if (Cal && Cal->isDeclaration() && StringRef(name).starts_with("__sym_")) return;
    bool noCheck = Cal && Cal->isDeclaration() && kNoCheckExt.count(name);
    bool known = Cal && !inert(*Cal) && Cal == CB.getCalledOperand();
    if (auto *ci = dyn_cast<CallInst>(&CB))
      if (!ci->isMustTailCall()) ci->setTailCallKind(CallInst::TCK_None);
    bool must = CB.isMustTailCall();
    CB.removeFnAttr(Attribute::Memory);
    IRBuilder<> B(&CB);
    Value *callee = CB.getCalledOperand();
    if (!must && isa<Function>(callee) == false) {}
    // argument shadows
    unsigned n = 0;
    SmallVector<Value *, 8> shs, vals;
    std::string kinds;
    unsigned nfix = CB.getFunctionType()->getNumParams();
    bool vararg = CB.getFunctionType()->isVarArg();
    bool anySlot = false;
    for (unsigned i = 0; i < CB.arg_size(); i++) {
      Value *A = CB.getArgOperand(i);
      if (A->getType()->isMetadataTy()) continue;
      if (vararg || noCheck) {
        concretize(B, A);
        continue;
      }
      if (i >= nfix) continue;
      if (CB.isByValArgument(i)) {
        if (n < 64) B.CreateStore(A, argSlot(B, n++));
        anySlot = true;
        continue;
      }
      if (hasScalar(A->getType())) {
        SmallVector<Type *, 4> lt;
        leaves(A->getType(), lt);
        for (unsigned k = 0; k < lt.size(); k++) {
          Value *s = sh(A, k);
          if (n < 64) B.CreateStore(s, argSlot(B, n++));
          anySlot = true;
          if (!known && !isa<ConstantPointerNull>(s)) {
            shs.push_back(s);
            vals.push_back(scalar(A->getType()) ? bits64(B, A) : B.getInt64(0));
            kinds += 'i';
          }
        }
      } else if (A->getType()->isPointerTy() && !known && !isa<Constant>(A)) {
        shs.push_back(null());
        vals.push_back(bits64(B, A));
        kinds += 'p';
      }
    }
    if (anySlot) B.CreateStore(callee, GCallee);
    if (must) return;
    bool retScalar = hasScalar(CB.getType());
    if (noCheck || vararg) {
      if (retScalar) { SmallVector<Value *, 1> l; for (unsigned k = 0; k < nleaves(CB.getType()); k++) l.push_back(null()); S[&CB] = l; }
      return;
    }
    if (!known) B.CreateStore(null(), GRetFrom);
    AllocaInst *as = nullptr, *av = nullptr;
    if (!known && !shs.empty()) {
      IRBuilder<> EB(&*F->getEntryBlock().getFirstInsertionPt());
      as = EB.CreateAlloca(ArrayType::get(PtrTy, shs.size()));
      av = EB.CreateAlloca(ArrayType::get(I64, shs.size()));
      for (unsigned i = 0; i < shs.size(); i++) {
        B.CreateStore(shs[i], B.CreateConstGEP2_32(as->getAllocatedType(), as, 0, i));
        B.CreateStore(vals[i], B.CreateConstGEP2_32(av->getAllocatedType(), av, 0, i));
      }
    }
    if (CB.doesNotReturn()) return;
    Instruction *after;
    if (auto *II = dyn_cast<InvokeInst>(&CB))
      after = &*II->getNormalDest()->getFirstInsertionPt();
    else
      after = CB.getNextNode();
    IRBuilder<> A(after);
    Value *ok = nullptr;
    if (!known) {
      Value *rf = A.CreateLoad(PtrTy, GRetFrom);
      ok = A.CreateICmpEQ(rf, callee);
      if (as) {
        Constant *ns = A.CreateGlobalStringPtr(name, "", 0, &M);
        Constant *ks = A.CreateGlobalStringPtr(kinds, "", 0, &M);
        A.CreateCall(fPost, {callee, ns, A.getInt32(shs.size()), as, av, ks});
      }
    }
    if (retScalar) {
      SmallVector<Value *, 1> l;
      SmallVector<Type *, 4> lt;
      leaves(CB.getType(), lt);
      for (unsigned k = 0; k < lt.size(); k++) {
        if (!scalar(lt[k]) || k >= 16) {
          l.push_back(null());
          continue;
        }
        Value *s = A.CreateLoad(PtrTy, retSlot(A, k));
        if (ok) s = A.CreateSelect(ok, s, null());
        l.push_back(s);
      }
      S[&CB] = l;
    }
  }

  void visitIntr(IntrinsicInst &II, DenseSet<Value *> &sym) {
    IRBuilder<> B(II.getNextNode() ? II.getNextNode() : &II);
    switch (II.getIntrinsicID()) {
      case Intrinsic::memcpy:
      case Intrinsic::memmove:
      case Intrinsic::memcpy_inline: {
        auto &MT = cast<MemTransferInst>(II);
        IRBuilder<> P(&II);
        // before the move (overlap): copies shadows
        P.CreateCall(fMemcpy, {MT.getRawDest(), MT.getRawSource(), P.CreateZExtOrTrunc(MT.getLength(), I64), sh(MT.getLength())});
        return;
      }
      case Intrinsic::memset:
      case Intrinsic::memset_inline: {
        auto &MS = cast<MemSetInst>(II);
        IRBuilder<> P(&II);
        P.CreateCall(fMemset, {MS.getRawDest(), P.CreateZExtOrTrunc(MS.getLength(), I64), sh(MS.getLength()), MS.getValue(), sh(MS.getValue())});
        return;
      }
      case Intrinsic::lifetime_start:
      case Intrinsic::lifetime_end:
      case Intrinsic::dbg_declare:
      case Intrinsic::dbg_value:
      case Intrinsic::dbg_label:
      case Intrinsic::assume:
      case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::invariant_start:
      case Intrinsic::invariant_end:
      case Intrinsic::eh_typeid_for:
      case Intrinsic::stacksave:
      case Intrinsic::stackrestore:
      case Intrinsic::trap:
      case Intrinsic::donothing:
      case Intrinsic::prefetch:
      case Intrinsic::is_constant:
      case Intrinsic::objectsize:
      case Intrinsic::vastart:
      case Intrinsic::vaend:
        return;
      case Intrinsic::expect:
      case Intrinsic::expect_with_probability:
      case Intrinsic::ssa_copy:
        if (S.count(II.getArgOperand(0))) S[&II] = S[II.getArgOperand(0)];
        return;
      default: break;
    }
    bool any = false;
    for (auto &A : II.args())
      if (!conc(A)) any = true;
    if (!any) return;
    Type *T = II.getType();
    if (T->isDoubleTy()) {
      int op = -1;
      switch (II.getIntrinsicID()) {
        case Intrinsic::fabs: op = 1; break;
        case Intrinsic::sqrt: op = 2; break;
        case Intrinsic::floor: op = 3; break;
        case Intrinsic::ceil: op = 4; break;
        case Intrinsic::trunc: op = 5; break;
        case Intrinsic::round: op = 6; break;
        case Intrinsic::rint:
        case Intrinsic::nearbyint:
        case Intrinsic::roundeven: op = 7; break;
        case Intrinsic::sin: op = 10; break;
        case Intrinsic::cos: op = 11; break;
        case Intrinsic::exp: op = 12; break;
        case Intrinsic::log: op = 13; break;
        case Intrinsic::log10: op = 21; break;
        default: break;
      }
      if (op >= 0) {
        set1(&II, B.CreateCall(fFUn, {B.getInt32(op), sh(II.getArgOperand(0))}));
        return;
      }
      int bop = -1;
      switch (II.getIntrinsicID()) {
        case Intrinsic::minnum: bop = 1000; break;
        case Intrinsic::maxnum: bop = 1001; break;
        case Intrinsic::copysign: bop = 1002; break;
        case Intrinsic::pow: bop = 1003; break;
        default: break;
      }
      if (bop >= 0) {
        Value *a = II.getArgOperand(0), *b = II.getArgOperand(1);
        set1(&II, B.CreateCall(fFBin, {B.getInt32(bop), sh(a), sh(b), a, b}));
        return;
      }
      if (II.getIntrinsicID() == Intrinsic::fmuladd) {
        // code generation splits fmuladd into fmul+fadd (no FMA target)
        Value *a = II.getArgOperand(0), *b = II.getArgOperand(1), *c = II.getArgOperand(2);
        Value *m = B.CreateCall(fFBin, {B.getInt32(Instruction::FMul), sh(a), sh(b), a, b});
        Value *mv = B.CreateFMul(a, b);
        set1(&II, B.CreateCall(fFBin, {B.getInt32(Instruction::FAdd), m, sh(c), mv, c}));
        return;
      }
    }
    if (II.getIntrinsicID() == Intrinsic::is_fpclass && II.getArgOperand(0)->getType()->isDoubleTy()) {
      // fin/nan tests: handled as unary predicate in runtime
      set1(&II, B.CreateCall(fFCmp, {B.CreateAdd(B.getInt32(4096), B.CreateZExtOrTrunc(II.getArgOperand(1), I32)), sh(II.getArgOperand(0)), null(), II.getArgOperand(0), ConstantFP::get(DblTy, 0.)}));
      return;
    }
    if (T->isIntegerTy() && scalar(T)) {
      unsigned bits = T->getIntegerBitWidth();
      Value *a = II.getArgOperand(0), *b = II.arg_size() > 1 ? II.getArgOperand(1) : B.getInt64(0);
      int op = -1;
      switch (II.getIntrinsicID()) {
        case Intrinsic::smax: op = 1; break;
        case Intrinsic::smin: op = 2; break;
        case Intrinsic::umax: op = 3; break;
        case Intrinsic::umin: op = 4; break;
        case Intrinsic::abs: op = 5; break;
        case Intrinsic::usub_sat: op = 6; break;
        case Intrinsic::ctpop: op = 7; break;
        default: break;
      }
      if (op >= 0) {
        set1(&II, B.CreateCall(fIntr, {B.getInt32(op), B.getInt32(bits), sh(a), sh(b), bits64(B, a), bits64(B, b)}));
        return;
      }
    }
    if (II.getIntrinsicID() == Intrinsic::umul_with_overflow || II.getIntrinsicID() == Intrinsic::uadd_with_overflow ||
        II.getIntrinsicID() == Intrinsic::usub_with_overflow || II.getIntrinsicID() == Intrinsic::smul_with_overflow ||
        II.getIntrinsicID() == Intrinsic::sadd_with_overflow || II.getIntrinsicID() == Intrinsic::ssub_with_overflow) {
      odd(&II);
      return;
    }
    odd(&II);
  }
};

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &MAM) {
    auto &FAM = MAM.getResult<FunctionAnalysisManagerModuleProxy>(M).getManager();
    Instr In(M);
    const bool yieldAtAtomics = getenv("SYM_YIELD") != nullptr;
    if (yieldAtAtomics && getenv("SYM_YIELD_MEM"))  // freed memory is filled with a pattern and not used again
      for (auto [from, to] : {std::pair<const char *, const char *>{"_Znwm", "__sym_new"}, {"_ZdlPv", "__sym_delete"}, {"_ZdlPvm", "__sym_delete_n"}})
        if (auto *F = M.getFunction(from)) F->replaceAllUsesWith(M.getOrInsertFunction(to, F->getFunctionType()).getCallee());
    for (auto &F : M) {
      if (In.inert(F)) continue;
      if (yieldAtAtomics) {
        SmallVector<Instruction *, 8> at;
        const bool mem = getenv("SYM_YIELD_MEM") != nullptr;  // every access to registered shared memory is a step of its own
        for (auto &I : instructions(F)) {
          if (!mem) {
            if (I.isAtomic() && !isa<FenceInst>(I)) at.push_back(&I);
            continue;
          }
          if (isa<LoadInst>(I) || isa<StoreInst>(I) || isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) at.push_back(&I);
          if (auto *CB = dyn_cast<CallBase>(&I))
            if (auto *C = CB->getCalledFunction())
              if (C->getName().contains("_Sp_lockerC")) at.push_back(&I);
        }
        if (mem) {
          for (auto *I : at) {
            Value *P = nullptr;
            bool w = I->isAtomic();
            if (auto *L = dyn_cast<LoadInst>(I)) P = L->getPointerOperand();
            else if (auto *S = dyn_cast<StoreInst>(I)) { P = S->getPointerOperand(); w = true; }
            else if (auto *A = dyn_cast<AtomicRMWInst>(I)) P = A->getPointerOperand();
            else if (auto *X = dyn_cast<AtomicCmpXchgInst>(I)) P = X->getPointerOperand();
            else { P = cast<CallBase>(I)->getArgOperand(1); w = true; }
            if (isa<AllocaInst>(getUnderlyingObject(P, 0)) || isa<Constant>(P)) continue;
            auto *Ty1 = Type::getInt32Ty(F.getContext());
            auto FM = M.getOrInsertFunction("__sym_yield_mem", Type::getVoidTy(F.getContext()), P->getType(), Ty1);
            IRBuilder<>(I).CreateCall(FM, {P, ConstantInt::get(Ty1, w)});
            if (I->isAtomic() && !I->isTerminator()) IRBuilder<>(I->getNextNode()).CreateCall(FM, {P, ConstantInt::get(Ty1, 1)});
          }
          at.clear();
        }
        for (auto *I : at) IRBuilder<>(I).CreateCall(In.fYield, {});
      }
      for (auto &I : instructions(F))
        if (auto *CI = dyn_cast<CallInst>(&I)) (void)CI;
      if (getenv("SYM_ONLY_YIELD")) continue;
      LowerAtomicPass().run(F, FAM);
      LowerSwitchPass().run(F, FAM);
    }
    if (getenv("SYM_ONLY_YIELD")) return PreservedAnalyses::none();
    In.run();
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "v1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
          }};
}
