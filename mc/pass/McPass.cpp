// LLVM pass that turns every memory access of the code under test into a call to the
// model-checking runtime (mc_load*/mc_store*/mc_rmw/mc_cas/mc_fence/mc_mem*).
// Accesses to non-escaping locals are left alone (they are part of the thread's private state).
#include "llvm/Analysis/CaptureTracking.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <map>
#include <cstdlib>
#include <string>
#include <tuple>
#include <vector>
using namespace llvm;

namespace {
static std::map<uint64_t, uint64_t> ConstMap;

static const char *Renamed[] = {"malloc", "calloc", "realloc", "free", "memalign", "posix_memalign", "aligned_alloc",
    "numa_alloc_local", "numa_alloc_onnode", "numa_alloc", "numa_alloc_interleaved", "numa_free", "numa_available",
    "numa_num_task_nodes", "numa_num_configured_nodes", "numa_max_node", "numa_node_of_cpu", "numa_num_configured_cpus", "numa_num_task_cpus",
    "exit", "abort", "_exit", "perror", "pthread_create", "pthread_join", "pthread_detach", "pthread_self", "pthread_setconcurrency",
    "sched_setaffinity", "sched_getaffinity", "sched_yield", "sched_getcpu", "sysconf", "get_nprocs", "getpid", "clock_gettime", "time", "gettimeofday", "usleep", "nanosleep",
    "fprintf", "printf", "puts", "putchar", "fputs", "fflush", "fputc", "fwrite", "rand", "srand", "random", "getenv", "mmap", "munmap", "mprotect",
    "mlock", "munlock", "madvise", "pthread_setaffinity_np", "__assert_fail", nullptr};

struct McPass : PassInfoMixin<McPass> {
  Module *M; LLVMContext *C; const DataLayout *DL;
  Type *I8, *I32, *I64, *V; PointerType *P;
  std::map<std::pair<std::string, unsigned>, Constant *> Sites;
  std::map<std::string, Constant *> Strs;

  Constant *str(StringRef s) {
    auto &e = Strs[s.str()];
    if (!e) {
      auto *d = ConstantDataArray::getString(*C, s);
      e = new GlobalVariable(*M, d->getType(), true, GlobalValue::PrivateLinkage, d, "mcs");
    }
    return e;
  }
  Constant *site(Instruction *I) {
    unsigned line = 0; std::string f = I->getFunction()->getName().str();
    if (auto *dl = I->getDebugLoc().get()) {
      line = dl->getLine();
      if (auto *sp = dl->getScope()->getSubprogram()) f = sp->getName().str();
    }
    auto &e = Sites[{f, line}];
    if (!e) {
      auto *st = ConstantStruct::getAnon(*C, {str(f), str(M->getSourceFileName()), ConstantInt::get(I32, line), ConstantInt::get(I32, 0)});
      e = new GlobalVariable(*M, st->getType(), true, GlobalValue::PrivateLinkage, st, "mcsite");
    }
    return e;
  }
  FunctionCallee fn(const char *n, Type *R, ArrayRef<Type *> A) { return M->getOrInsertFunction(n, FunctionType::get(R, A, false)); }

  bool isLocal(Value *Ptr) {
    const Value *U = getUnderlyingObject(Ptr, 0);
    if (auto *A = dyn_cast<AllocaInst>(U)) return !PointerMayBeCaptured(A, true, true);
    if (auto *G = dyn_cast<GlobalVariable>(U)) return G->isConstant();
    return false;
  }
  Value *toInt(IRBuilder<> &B, Value *v) {
    Type *T = v->getType();
    if (T->isPointerTy()) return B.CreatePtrToInt(v, I64);
    if (T->isIntegerTy()) return B.CreateZExtOrTrunc(v, I64);
    unsigned bits = DL->getTypeSizeInBits(T);
    return B.CreateZExtOrTrunc(B.CreateBitCast(v, IntegerType::get(*C, bits)), I64);
  }
  Value *fromInt(IRBuilder<> &B, Value *v, Type *T) {
    if (T->isPointerTy()) return B.CreateIntToPtr(v, T);
    if (T->isIntegerTy()) return B.CreateZExtOrTrunc(v, T);
    unsigned bits = DL->getTypeSizeInBits(T);
    return B.CreateBitCast(B.CreateZExtOrTrunc(v, IntegerType::get(*C, bits)), T);
  }
  bool simple(Type *T, unsigned &sz) {
    if (!T->isSized() || T->isAggregateType() || T->isVectorTy()) return false;
    uint64_t s = DL->getTypeStoreSize(T).getFixedValue();
    if (T->isIntegerTy() && T->getIntegerBitWidth() > 64) return false;
    if (T->isX86_FP80Ty() || T->isFP128Ty()) return false;
    if (s != 1 && s != 2 && s != 4 && s != 8) return false;
    sz = s; return true;
  }
  void wrapNative(Instruction *I, Value *ptr, uint64_t sz, bool w, bool atomic, ArrayRef<Value *>) {
    IRBuilder<> B(I);
    Constant *S = site(I);
    auto pre = fn("mc_pre", V, {P, I64, I32, P}), post = fn("mc_post", V, {P, I64, I32, P});
    Value *fl = ConstantInt::get(I32, (w ? 1 : 0) | (atomic ? 2 : 0));
    B.CreateCall(pre, {ptr, ConstantInt::get(I64, sz), fl, S});
    IRBuilder<> B2(I->getNextNode());
    B2.CreateCall(post, {ptr, ConstantInt::get(I64, sz), fl, S});
  }

  PreservedAnalyses run(Module &Mod, ModuleAnalysisManager &) {
    M = &Mod; C = &M->getContext(); DL = &M->getDataLayout();
    I8 = Type::getInt8Ty(*C); I32 = Type::getInt32Ty(*C); I64 = Type::getInt64Ty(*C); V = Type::getVoidTy(*C); P = PointerType::get(*C, 0);
    // constants to be scaled down
    if (const char *e = getenv("MC_CONST")) {
      std::string s = e; size_t p = 0;
      while (p < s.size()) {
        size_t c = s.find(':', p), q = s.find(',', p); if (q == std::string::npos) q = s.size();
        ConstMap[strtoull(s.c_str() + p, 0, 0)] = strtoull(s.c_str() + c + 1, 0, 0);
        p = q + 1;
      }
    }
    // redirect the environment
    for (int i = 0; Renamed[i]; i++) {
      if (Function *F = M->getFunction(Renamed[i])) {
        if (!F->isDeclaration()) continue;
        std::string nn = std::string("mcw_") + Renamed[i];
        F->setName(nn);
      }
    }
    SmallVector<Function *, 64> Fs;
    for (auto &F : *M) if (!F.isDeclaration() && !F.getName().starts_with("mc_native_")) Fs.push_back(&F);
    for (Function *F : Fs) {
      F->removeFnAttr(Attribute::NoInline); F->removeFnAttr(Attribute::OptimizeNone);
      // memory effect attributes (pure/const) no longer hold once accesses are calls
      F->removeFnAttr(Attribute::Memory); F->removeFnAttr(Attribute::NoSync); F->removeFnAttr(Attribute::NoFree);
      F->removeFnAttr(Attribute::WillReturn); F->removeFnAttr(Attribute::MustProgress);
      SmallVector<Instruction *, 256> Is;
      for (auto &I : instructions(*F)) Is.push_back(&I);
      for (Instruction *I : Is) instr(I);
    }
    for (auto &F : *M) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) {
      CB->removeFnAttr(Attribute::Memory); CB->removeFnAttr(Attribute::NoSync); CB->removeFnAttr(Attribute::WillReturn); CB->removeFnAttr(Attribute::NoFree);
    }
    for (auto &F : *M) if (F.isDeclaration() && !F.isIntrinsic() ) { if (M->getFunction(F.getName()) && !F.getName().starts_with("llvm.")) F.removeFnAttr(Attribute::Memory); }
    registerGlobals();
    return PreservedAnalyses::none();
  }

  void registerGlobals() {
    // constructor: mc_register_global(ptr, size, flags) for every definition
    SmallVector<GlobalVariable *, 32> Gs;
    for (auto &G : M->globals()) {
      if (G.isDeclaration() || G.getName().starts_with("mcs") || G.getName().starts_with("llvm.") || G.isThreadLocal()) continue;
      Gs.push_back(&G);
    }
    if (Gs.empty()) return;
    Function *Ct = Function::Create(FunctionType::get(V, false), GlobalValue::InternalLinkage, "mc_ctor", M);
    IRBuilder<> B(BasicBlock::Create(*C, "e", Ct));
    auto rg = fn("mc_register_global", V, {P, I64, I32, P});
    for (auto *G : Gs)
      B.CreateCall(rg, {G, ConstantInt::get(I64, DL->getTypeAllocSize(G->getValueType())), ConstantInt::get(I32, G->isConstant()), str(G->getName())});
    B.CreateRetVoid();
    appendToGlobalCtors(*M, Ct, 101);
  }

  void instr(Instruction *I) {
    for (auto &kv : ConstMap)
      for (unsigned o = 0; o < I->getNumOperands(); o++)
        if (auto *ci = dyn_cast<ConstantInt>(I->getOperand(o)))
          if (ci->getBitWidth() <= 64 && ci->getBitWidth() >= 32 && ci->getZExtValue() == kv.first && !isa<CallBase>(I)) { I->setOperand(o, ConstantInt::get(ci->getType(), kv.second)); break; }
    if (auto *L = dyn_cast<LoadInst>(I)) {
      Value *p = L->getPointerOperand();
      if (isLocal(p)) return;
      unsigned sz;
      IRBuilder<> B(I);
      if (simple(L->getType(), sz)) {
        char nm[16]; snprintf(nm, sizeof nm, "mc_load%u", sz * 8);
        Value *r = B.CreateCall(fn(nm, I64, {P, P}), {p, site(I)});
        I->replaceAllUsesWith(fromInt(B, r, L->getType()));
        I->eraseFromParent();
      } else wrapNative(I, p, DL->getTypeStoreSize(L->getType()).getFixedValue(), false, L->isAtomic(), {});
    } else if (auto *S = dyn_cast<StoreInst>(I)) {
      Value *p = S->getPointerOperand();
      if (isLocal(p)) return;
      unsigned sz; IRBuilder<> B(I);
      Type *T = S->getValueOperand()->getType();
      if (simple(T, sz)) {
        char nm[16]; snprintf(nm, sizeof nm, "mc_store%u", sz * 8);
        B.CreateCall(fn(nm, V, {P, I64, P}), {p, toInt(B, S->getValueOperand()), site(I)});
        if (S->getOrdering() == AtomicOrdering::SequentiallyConsistent) B.CreateCall(fn("mc_fence", V, {I32, P}), {ConstantInt::get(I32, 3), site(I)});
        I->eraseFromParent();
      } else wrapNative(I, p, DL->getTypeStoreSize(T).getFixedValue(), true, S->isAtomic(), {});
    } else if (auto *R = dyn_cast<AtomicRMWInst>(I)) {
      Value *p = R->getPointerOperand(); unsigned sz; IRBuilder<> B(I);
      Type *T = R->getType();
      int op = -1;
      switch (R->getOperation()) {
        case AtomicRMWInst::Xchg: op = 0; break; case AtomicRMWInst::Add: op = 1; break; case AtomicRMWInst::Sub: op = 2; break;
        case AtomicRMWInst::And: op = 3; break; case AtomicRMWInst::Or: op = 4; break; case AtomicRMWInst::Xor: op = 5; break;
        case AtomicRMWInst::Nand: op = 6; break; default: break;
      }
      if (op >= 0 && simple(T, sz)) {
        Value *r = B.CreateCall(fn("mc_rmw", I64, {I32, P, I64, I32, P}), {ConstantInt::get(I32, op), p, toInt(B, R->getValOperand()), ConstantInt::get(I32, sz), site(I)});
        I->replaceAllUsesWith(fromInt(B, r, T)); I->eraseFromParent();
      } else wrapNative(I, p, DL->getTypeStoreSize(T).getFixedValue(), true, true, {});
    } else if (auto *X = dyn_cast<AtomicCmpXchgInst>(I)) {
      Value *p = X->getPointerOperand(); unsigned sz; IRBuilder<> B(I);
      Type *T = X->getCompareOperand()->getType();
      if (simple(T, sz)) {
        Value *e = toInt(B, X->getCompareOperand());
        if (sz < 8) e = B.CreateAnd(e, ConstantInt::get(I64, (1ull << (sz * 8)) - 1));
        Value *r = B.CreateCall(fn("mc_cas", I64, {P, I64, I64, I32, P}), {p, e, toInt(B, X->getNewValOperand()), ConstantInt::get(I32, sz), site(I)});
        Value *ok = B.CreateICmpEQ(r, e);
        Value *res = UndefValue::get(X->getType());
        res = B.CreateInsertValue(res, fromInt(B, r, T), 0);
        res = B.CreateInsertValue(res, ok, 1);
        I->replaceAllUsesWith(res); I->eraseFromParent();
      } else wrapNative(I, p, DL->getTypeStoreSize(T).getFixedValue(), true, true, {});
    } else if (auto *F = dyn_cast<FenceInst>(I)) {
      if (F->getSyncScopeID() == SyncScope::SingleThread) return;
      IRBuilder<> B(I);
      B.CreateCall(fn("mc_fence", V, {I32, P}), {ConstantInt::get(I32, F->getOrdering() == AtomicOrdering::SequentiallyConsistent ? 3 : 0), site(I)});
      I->eraseFromParent();
    } else if (auto *MS = dyn_cast<MemSetInst>(I)) {
      if (isLocal(MS->getDest())) return;
      IRBuilder<> B(I);
      B.CreateCall(fn("mc_memset", V, {P, I32, I64, P}), {MS->getDest(), B.CreateZExt(MS->getValue(), I32), B.CreateZExtOrTrunc(MS->getLength(), I64), site(I)});
      I->eraseFromParent();
    } else if (auto *MT = dyn_cast<MemTransferInst>(I)) {
      if (isLocal(MT->getDest()) && isLocal(MT->getSource())) return;
      IRBuilder<> B(I);
      B.CreateCall(fn("mc_memmove", V, {P, P, I64, P}), {MT->getDest(), MT->getSource(), B.CreateZExtOrTrunc(MT->getLength(), I64), site(I)});
      I->eraseFromParent();
    } else if (auto *CI = dyn_cast<CallInst>(I)) {
      if (CI->isInlineAsm()) {
        auto *IA = cast<InlineAsm>(CI->getCalledOperand());
        StringRef s = IA->getAsmString();
        IRBuilder<> B(I);
        if (s.contains("fence")) {
          int k = s.contains("mfence") ? 3 : 0;
          B.CreateCall(fn("mc_fence", V, {I32, P}), {ConstantInt::get(I32, k), site(I)});
          return;
        }
        bool atomic = s.contains("lock") || s.contains("xchg");
        // memory operands
        auto CV = IA->ParseConstraints(); unsigned arg = 0; 
        SmallVector<Value *, 4> done;
        for (auto &ci : CV) {
          bool isArg = ci.Type == InlineAsm::isInput || (ci.Type == InlineAsm::isOutput && ci.isIndirect);
          if (!isArg) continue;
          Value *a = CI->getArgOperand(arg);
          Type *ET = CI->getParamElementType(arg);
          arg++;
          if (!ci.isIndirect || !a->getType()->isPointerTy()) continue;
          if (isLocal(a)) continue;
          bool seen = false; for (auto *d : done) if (d == a) seen = true;
          if (seen) continue;
          done.push_back(a);
          uint64_t sz = ET ? DL->getTypeStoreSize(ET).getFixedValue() : 8;
          if (s.contains("cmpxchg16b")) sz = 16;
          wrapNative(I, a, sz, true, atomic, {});
        }
        return;
      }
      Function *cf = CI->getCalledFunction();
      if (!cf) return;
      StringRef n = cf->getName();
      if (n == "memcpy" || n == "memmove") {
        IRBuilder<> B(I);
        B.CreateCall(fn("mc_memmove", V, {P, P, I64, P}), {CI->getArgOperand(0), CI->getArgOperand(1), CI->getArgOperand(2), site(I)});
        I->replaceAllUsesWith(CI->getArgOperand(0)); I->eraseFromParent();
      } else if (n == "memset") {
        IRBuilder<> B(I);
        B.CreateCall(fn("mc_memset", V, {P, I32, I64, P}), {CI->getArgOperand(0), CI->getArgOperand(1), CI->getArgOperand(2), site(I)});
        I->replaceAllUsesWith(CI->getArgOperand(0)); I->eraseFromParent();
      }
    }
  }
};

// What the most aggressive load-reusing compiler may do: a plain load (neither volatile nor atomic) yields the value
// that the previous load of the same address in this activation gave, unless something in between may have written to
// memory (a store, a call, an atomic operation, a fence, an assembler statement that clobbers memory).
struct McReuse : PassInfoMixin<McReuse> {
  static bool asmClobbers(const InlineAsm *IA) {
    if (StringRef(IA->getConstraintString()).contains("~{memory}")) return true;
    for (auto &ci : IA->ParseConstraints()) if (ci.isIndirect) return true;
    return false;
  }
  static bool clobbers(Instruction *I) {
    if (auto *L = dyn_cast<LoadInst>(I)) return L->isAtomic();
    if (auto *S = dyn_cast<StoreInst>(I)) { auto *A = dyn_cast<AllocaInst>(getUnderlyingObject(S->getPointerOperand(), 0)); return !A || PointerMayBeCaptured(A, true, true); }
    if (auto *II = dyn_cast<IntrinsicInst>(I)) { if (II->isLifetimeStartOrEnd() || isa<DbgInfoIntrinsic>(II) || II->getIntrinsicID() == Intrinsic::assume || II->getIntrinsicID() == Intrinsic::prefetch) return false; }
    if (auto *CB = dyn_cast<CallBase>(I)) if (auto *IA = dyn_cast<InlineAsm>(CB->getCalledOperand())) return asmClobbers(IA);
    return I->mayWriteToMemory();
  }
  PreservedAnalyses run(Function &F, FunctionAnalysisManager &) {
    std::map<std::pair<Value *, Type *>, SmallVector<LoadInst *, 4>> Ls;
    SmallVector<Instruction *, 64> Cl;
    const DataLayout &DL = F.getParent()->getDataLayout();
    for (auto &I : instructions(F)) {
      if (clobbers(&I)) Cl.push_back(&I);
      auto *L = dyn_cast<LoadInst>(&I);
      if (!L || L->isVolatile() || L->isAtomic() || !(L->getType()->isIntegerTy() || L->getType()->isPointerTy())) continue;
      const Value *U = getUnderlyingObject(L->getPointerOperand(), 0);
      if (isa<AllocaInst>(U)) continue;
      if (auto *G = dyn_cast<GlobalVariable>(U)) if (G->isConstant()) continue;
      Ls[{L->getPointerOperand()->stripPointerCasts(), L->getType()}].push_back(L);
    }
    (void)DL;
    if (Ls.empty()) return PreservedAnalyses::all();
    IRBuilder<> E(&*F.getEntryBlock().getFirstInsertionPt());
    SmallVector<AllocaInst *, 16> Vs;
    std::vector<std::tuple<AllocaInst *, AllocaInst *, AllocaInst *, SmallVector<LoadInst *, 4>>> Todo;
    for (auto &kv : Ls) {
      auto *v = E.CreateAlloca(E.getInt1Ty()); auto *x = E.CreateAlloca(kv.first.second); auto *a = E.CreateAlloca(PointerType::get(F.getContext(), 0));
      E.CreateStore(E.getFalse(), v); E.CreateStore(Constant::getNullValue(kv.first.second), x); E.CreateStore(ConstantPointerNull::get(PointerType::get(F.getContext(), 0)), a);
      Vs.push_back(v); Todo.push_back({v, x, a, kv.second});
    }
    for (auto *I : Cl) {
      if (isa<PHINode>(I)) continue;
      Instruction *at = I->isTerminator() ? I : I->getNextNode();
      IRBuilder<> B(at); for (auto *v : Vs) B.CreateStore(B.getFalse(), v);
    }
    for (auto &[v, x, a, ls] : Todo) for (auto *L : ls) {
      IRBuilder<> B(L);
      Value *ok = B.CreateAnd(B.CreateLoad(B.getInt1Ty(), v), B.CreateICmpEQ(B.CreateLoad(a->getAllocatedType(), a), L->getPointerOperand()));
      Instruction *T = SplitBlockAndInsertIfThen(B.CreateNot(ok), L, false);
      IRBuilder<> B2(T);
      auto *N = B2.CreateLoad(L->getType(), L->getPointerOperand()); N->setAlignment(L->getAlign()); N->setDebugLoc(L->getDebugLoc());
      B2.CreateStore(N, x); B2.CreateStore(L->getPointerOperand(), a); B2.CreateStore(B2.getTrue(), v);
      IRBuilder<> B3(L);
      L->replaceAllUsesWith(B3.CreateLoad(L->getType(), x)); L->eraseFromParent();
    }
    return PreservedAnalyses::none();
  }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "McPass", "1", [](PassBuilder &PB) {
    PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
      if (N == "mc") { MPM.addPass(McPass()); return true; }
      return false;
    });
    PB.registerPipelineParsingCallback([](StringRef N, FunctionPassManager &FPM, ArrayRef<PassBuilder::PipelineElement>) {
      if (N == "mc-reuse") { FPM.addPass(McReuse()); return true; }
      return false;
    });
  }};
}
