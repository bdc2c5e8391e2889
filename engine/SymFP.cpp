// LLVM pass plugin: route every double-precision operation of the compiled
// code through the symbolic run-time (symrt.cpp).  Values travel as NaN-boxed
// handles, so loads, stores, phis, memcpy and calls need no change.
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

namespace {
const std::map<std::string, int> libm1 = {
    {"sqrt",1},{"fabs",1},{"exp",1},{"log",1},{"log10",1},{"log2",1},{"exp2",1},{"sin",1},{"cos",1},{"tan",1},
    {"asin",1},{"acos",1},{"atan",1},{"sinh",1},{"cosh",1},{"tanh",1},{"floor",1},{"ceil",1},{"round",1},
    {"trunc",1},{"rint",1},{"nearbyint",1},{"cbrt",1},{"expm1",1},{"log1p",1},
    {"pow",2},{"fmax",2},{"fmin",2},{"fmod",2},{"atan2",2},{"hypot",2},{"copysign",2},{"fdim",2},
    {"fma",3}};

struct SymFP : PassInfoMixin<SymFP> {
  Module *M; Type *D; LLVMContext *C;
  FunctionCallee fn(const std::string &n, Type *R, std::vector<Type*> A) {
    return M->getOrInsertFunction(n, FunctionType::get(R, A, false));
  }
  bool isD(Value *v) { return v->getType()->isDoubleTy(); }
  static unsigned predOf(FCmpInst::Predicate p) { return (unsigned)p; }

  Value *callm(IRBuilder<> &B, const std::string &name, std::vector<Value*> args) {
    std::vector<Type*> T(args.size(), D);
    return B.CreateCall(fn("__sym_" + name, D, T), args);
  }
  Value *toint(IRBuilder<> &B, Value *v, Type *dst, bool sgn) {
    Type *I64 = Type::getInt64Ty(*C);
    Value *r = B.CreateCall(fn(sgn ? "__sym_fptosi" : "__sym_fptoui", I64, {D}), {v});
    return B.CreateIntCast(r, dst, sgn);
  }
  Value *cmp(IRBuilder<> &B, FCmpInst::Predicate p, Value *a, Value *b) {
    Type *I32 = Type::getInt32Ty(*C);
    Value *r = B.CreateCall(fn("__sym_fcmp", I32, {I32, D, D}),
                            {ConstantInt::get(I32, predOf(p)), a, b});
    return B.CreateICmpNE(r, ConstantInt::get(I32, 0));
  }

  Value *rewrite(Instruction &I) {
    IRBuilder<> B(&I);
    if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
      if (!isD(bo)) return nullptr;
      switch (bo->getOpcode()) {
      case Instruction::FAdd: return callm(B, "fadd", {bo->getOperand(0), bo->getOperand(1)});
      case Instruction::FSub: return callm(B, "fsub", {bo->getOperand(0), bo->getOperand(1)});
      case Instruction::FMul: return callm(B, "fmul", {bo->getOperand(0), bo->getOperand(1)});
      case Instruction::FDiv: return callm(B, "fdiv", {bo->getOperand(0), bo->getOperand(1)});
      case Instruction::FRem: return callm(B, "fmod", {bo->getOperand(0), bo->getOperand(1)});
      default: return nullptr;
      }
    }
    if (auto *uo = dyn_cast<UnaryOperator>(&I)) {
      if (uo->getOpcode() == Instruction::FNeg && isD(uo)) return callm(B, "fneg", {uo->getOperand(0)});
      return nullptr;
    }
    if (auto *fc = dyn_cast<FCmpInst>(&I)) {
      if (!isD(fc->getOperand(0))) return nullptr;
      return cmp(B, fc->getPredicate(), fc->getOperand(0), fc->getOperand(1));
    }
    if (isa<FPToSIInst>(&I) && isD(I.getOperand(0))) return toint(B, I.getOperand(0), I.getType(), true);
    if (isa<FPToUIInst>(&I) && isD(I.getOperand(0))) return toint(B, I.getOperand(0), I.getType(), false);
    if (isa<FPTruncInst>(&I) && isD(I.getOperand(0))) {
      Value *v = callm(B, "concretize", {I.getOperand(0)});
      I.setOperand(0, v); return nullptr;
    }
    if (isa<FPExtInst>(&I) && isD(I.getOperand(0))) {
      Value *v = callm(B, "concretize", {I.getOperand(0)});
      I.setOperand(0, v); return nullptr;
    }
    if (auto *ci = dyn_cast<CallInst>(&I)) {
      if (auto *ii = dyn_cast<IntrinsicInst>(ci)) {
        auto op = [&](int k) { return ii->getArgOperand(k); };
        switch (ii->getIntrinsicID()) {
        case Intrinsic::experimental_constrained_fadd: if (!isD(ii)) break; return callm(B, "fadd", {op(0), op(1)});
        case Intrinsic::experimental_constrained_fsub: if (!isD(ii)) break; return callm(B, "fsub", {op(0), op(1)});
        case Intrinsic::experimental_constrained_fmul: if (!isD(ii)) break; return callm(B, "fmul", {op(0), op(1)});
        case Intrinsic::experimental_constrained_fdiv: if (!isD(ii)) break; return callm(B, "fdiv", {op(0), op(1)});
        case Intrinsic::experimental_constrained_frem: if (!isD(ii)) break; return callm(B, "fmod", {op(0), op(1)});
        case Intrinsic::experimental_constrained_fmuladd:
        case Intrinsic::experimental_constrained_fma:
        case Intrinsic::fmuladd: case Intrinsic::fma: {
          if (!isD(ii)) break;
          Value *m = callm(B, "fmul", {op(0), op(1)});
          return callm(B, "fadd", {m, op(2)});
        }
        case Intrinsic::experimental_constrained_fcmp:
        case Intrinsic::experimental_constrained_fcmps: {
          if (!isD(op(0))) break;
          return cmp(B, cast<ConstrainedFPCmpIntrinsic>(ii)->getPredicate(), op(0), op(1));
        }
        case Intrinsic::experimental_constrained_fptosi: if (!isD(op(0))) break; return toint(B, op(0), ii->getType(), true);
        case Intrinsic::experimental_constrained_fptoui: if (!isD(op(0))) break; return toint(B, op(0), ii->getType(), false);
        case Intrinsic::experimental_constrained_sitofp:
          if (!isD(ii)) break; return B.CreateSIToFP(op(0), D);
        case Intrinsic::experimental_constrained_uitofp:
          if (!isD(ii)) break; return B.CreateUIToFP(op(0), D);
        case Intrinsic::experimental_constrained_fptrunc:
        case Intrinsic::experimental_constrained_fpext:
          if (isD(op(0))) { Value *v = callm(B, "concretize", {op(0)}); ii->setArgOperand(0, v); }
          return nullptr;
        case Intrinsic::is_fpclass: {
          if (!isD(op(0))) break;
          Type *I32 = Type::getInt32Ty(*C);
          Value *r = B.CreateCall(fn("__sym_fpclass", I32, {D, I32}), {op(0), op(1)});
          return B.CreateICmpNE(r, ConstantInt::get(I32, 0));
        }
#define U1(ID, N) case Intrinsic::ID: if (!isD(ii)) break; return callm(B, N, {op(0)});
#define U2(ID, N) case Intrinsic::ID: if (!isD(ii)) break; return callm(B, N, {op(0), op(1)});
        U1(fabs, "fabs") U1(sqrt, "sqrt") U1(floor, "floor") U1(ceil, "ceil") U1(exp, "exp") U1(log, "log")
        U1(log10, "log10") U1(sin, "sin") U1(cos, "cos") U1(round, "round") U1(trunc, "trunc") U1(rint, "rint")
        U1(nearbyint, "rint") U1(exp2, "exp2") U1(log2, "log2")
        U2(pow, "pow") U2(maxnum, "fmax") U2(minnum, "fmin") U2(copysign, "copysign")
        U1(experimental_constrained_sqrt, "sqrt") U1(experimental_constrained_floor, "floor")
        U1(experimental_constrained_ceil, "ceil") U1(experimental_constrained_exp, "exp")
        U1(experimental_constrained_log, "log") U1(experimental_constrained_log10, "log10")
        U1(experimental_constrained_sin, "sin") U1(experimental_constrained_cos, "cos")
        U1(experimental_constrained_round, "round") U1(experimental_constrained_trunc, "trunc")
        U1(experimental_constrained_rint, "rint") U1(experimental_constrained_nearbyint, "rint")
        U1(experimental_constrained_exp2, "exp2") U1(experimental_constrained_log2, "log2")
        U2(experimental_constrained_pow, "pow") U2(experimental_constrained_maxnum, "fmax")
        U2(experimental_constrained_minnum, "fmin")
        case Intrinsic::powi: case Intrinsic::experimental_constrained_powi: {
          if (!isD(ii)) break;
          Value *e = B.CreateSIToFP(op(1), D);
          return callm(B, "pow", {op(0), e});
        }
        default: return nullptr;
        }
        return nullptr;
      }
      if (Function *f = ci->getCalledFunction()) {
        auto it = libm1.find(f->getName().str());
        if (it != libm1.end() && isD(ci) && f->isDeclaration()) {
          std::vector<Value*> a(ci->arg_begin(), ci->arg_end());
          for (auto *v : a) if (!isD(v)) return nullptr;
          if ((int)a.size() != it->second) return nullptr;
          if (it->first == "fma") { Value *m = callm(B, "fmul", {a[0], a[1]}); return callm(B, "fadd", {m, a[2]}); }
          return callm(B, it->first, a);
        }
      }
    }
    return nullptr;
  }

  PreservedAnalyses run(Module &Mod, ModuleAnalysisManager &) {
    M = &Mod; C = &Mod.getContext(); D = Type::getDoubleTy(*C);
    const char *root = getenv("SYMFP_ROOT");
    std::vector<Function*> cover;
    for (Function &F : Mod) {
      if (F.isDeclaration()) continue;
      if (root) if (DISubprogram *sp = F.getSubprogram()) {
        std::string fn = sp->getFilename().str();
        if (!fn.empty() && fn[0] != '/') fn = (sp->getDirectory() + "/" + sp->getFilename()).str();
        if (fn.rfind(root, 0) == 0) cover.push_back(&F);
      }
      std::vector<Instruction*> work;
      for (Instruction &I : instructions(F)) work.push_back(&I);
      for (Instruction *I : work)
        if (Value *v = rewrite(*I)) { I->replaceAllUsesWith(v); I->eraseFromParent(); }
      // constrained semantics are no longer needed
      F.removeFnAttr(Attribute::StrictFP);
      for (Instruction &I : instructions(F)) {
        if (auto *cb = dyn_cast<CallBase>(&I))
          if (!isa<ConstrainedFPIntrinsic>(cb)) cb->removeFnAttr(Attribute::StrictFP);
      }
    }
    for (Function &F : Mod) {
      StringRef n = F.getName(); bool mx = n == "_ZSt3maxIdERKT_S2_S2_", mn = n == "_ZSt3minIdERKT_S2_S2_";
      if (F.isDeclaration() || !(mx || mn)) continue;
      BasicBlock *old = &F.getEntryBlock();
      BasicBlock *n1 = BasicBlock::Create(*C, "sym", &F, old), *n2 = BasicBlock::Create(*C, "symret", &F, old);
      IRBuilder<> B(n1);
      Type *P = PointerType::getUnqual(*C), *I32 = Type::getInt32Ty(*C);
      Value *r = B.CreateCall(fn("__sym_maxref", P, {P, P, I32}), {F.getArg(0), F.getArg(1), ConstantInt::get(I32, mx)});
      B.CreateCondBr(B.CreateICmpNE(r, ConstantPointerNull::get(cast<PointerType>(P))), n2, old);
      IRBuilder<> B2(n2); B2.CreateRet(r);
    }
    for (Function *F : cover) {
      DISubprogram *sp = F->getSubprogram();
      std::string fn = sp->getFilename().str();
      if (!fn.empty() && fn[0] != '/') fn = (sp->getDirectory() + "/" + sp->getFilename()).str();
      std::string nm = demangle(F->getName().str());
      size_t p = nm.find('('); if (p != std::string::npos && p > 0) nm = nm.substr(0, p);
      std::string s = fn.substr(std::string(root).size()) + ":" + nm;
      IRBuilder<> B(&*F->getEntryBlock().getFirstInsertionPt());
      Value *str = B.CreateGlobalStringPtr(s);
      auto *flag = new GlobalVariable(Mod, Type::getInt8Ty(*C), false, GlobalValue::InternalLinkage,
                                      ConstantInt::get(Type::getInt8Ty(*C), 0), "__sym_cov");
      B.CreateCall(fnv("__sym_cover_fn", {str->getType(), flag->getType()}), {str, flag});
    }
    return PreservedAnalyses::none();
  }
  FunctionCallee fnv(const std::string &n, std::vector<Type*> A) {
    return M->getOrInsertFunction(n, FunctionType::get(Type::getVoidTy(*C), A, false));
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymFP", "1", [](PassBuilder &PB) {
    PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymFP()); });
    PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
      if (N == "symfp") { MPM.addPass(SymFP()); return true; } return false; });
  }};
}
