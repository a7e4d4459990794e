// Data lengths are size_t: no path may narrow one before it bounds a loop, a copy, an index, or a callee's work,
// and no counter narrower than the length may drive or index a loop over it.
// Input: the linked module, optimised lightly (registers instead of stack slots). Output: one JSON object per line.
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/LazyValueInfo.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/ConstantRange.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
using VS = std::set<Value *>;
static unsigned nFun, nLen, nTrunc, nLoop, nArg;
static std::set<std::string> seen;

static void report(Instruction *I, const char *kind, const std::string &what) {
  std::string file = "lib", fn = I->getFunction()->getName().str(); unsigned line = 0;
  if (DILocation *d = I->getDebugLoc()) {
    file = d->getFilename().str(); line = d->getLine();
    if (auto *sp = d->getScope()->getSubprogram()) fn = sp->getName().str();
  }
  if (!line) if (auto *sp = I->getFunction()->getSubprogram()) { file = sp->getFilename().str(); line = sp->getLine(); fn = sp->getName().str(); }
  auto p = file.find("lib/"); if (p != std::string::npos) file = file.substr(p);
  char b[1024];
  snprintf(b, sizeof b, "{\"ev\":\"%s\",\"file\":\"%s\",\"line\":%u,\"func\":\"%s\",\"detail\":\"%s\",\"ctx\":\"-\",\"count\":1}", kind, file.c_str(), line, fn.c_str(), what.c_str());
  if (seen.insert(b).second) puts(b);
}
// values computed from the roots by integer arithmetic
static bool arith(Instruction *I) {
  if (auto *b = dyn_cast<BinaryOperator>(I)) return b->getType()->isIntegerTy();
  if (isa<PHINode>(I) || isa<SelectInst>(I) || isa<ZExtInst>(I) || isa<SExtInst>(I) || isa<FreezeInst>(I)) return I->getType()->isIntegerTy();
  if (auto *c = dyn_cast<IntrinsicInst>(I))
    switch (c->getIntrinsicID()) {
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::usub_sat: return true;
    default: return false;
    }
  return false;
}
static VS closure(std::vector<Value *> w, bool masks) {
  VS s(w.begin(), w.end());
  while (!w.empty()) {
    Value *v = w.back(); w.pop_back();
    for (User *u : v->users()) {
      auto *I = dyn_cast<Instruction>(u);
      if (!I || !arith(I)) continue;
      if (auto *sl = dyn_cast<SelectInst>(I)) if (sl->getCondition() == v) continue;
      // what is left after a mask or a remainder by a constant is a position, not a length
      if (!masks && (I->getOpcode() == Instruction::And || I->getOpcode() == Instruction::URem) && !s.count(I->getOperand(I->getOperand(0) == v))) continue;
      if (!masks && (I->getOpcode() == Instruction::URem || I->getOpcode() == Instruction::LShr || I->getOpcode() == Instruction::UDiv || I->getOpcode() == Instruction::Shl) && I->getOperand(1) == v && I->getOperand(0) != v) continue;
      if (s.insert(I).second) w.push_back(I);
    }
  }
  return s;
}
static Value *strip(Value *v) { while (isa<ZExtInst>(v) || isa<SExtInst>(v) || isa<FreezeInst>(v)) v = cast<Instruction>(v)->getOperand(0); return v; }

int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic e;
  auto M = parseIRFile(argv[1], e, C);
  if (!M) { e.print(argv[0], errs()); return 2; }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  // output functions of digests with a largest size (a few dozen bytes): no data length
  std::set<const Function *> digest;
  DebugInfoFinder DF; DF.processModule(*M);
  int iOut = -1, iMax = -1;
  for (DIType *t : DF.types()) if (auto *ct = dyn_cast<DICompositeType>(t)) if (ct->getName() == "kripto_desc_hash" && ct->getElements().size()) {
    int k = 0;
    for (auto *m : ct->getElements()) if (auto *d = dyn_cast<DIDerivedType>(m)) { if (d->getName() == "output") iOut = k; if (d->getName() == "maxout") iMax = k; k++; }
  }
  auto isDesc = [](GlobalVariable &G) {
    SmallVector<DIGlobalVariableExpression *, 1> x; G.getDebugInfo(x);
    for (auto *d : x) for (DIType *t = d->getVariable()->getType(); t;) {
      if (auto *ct = dyn_cast<DICompositeType>(t)) return ct->getName() == "kripto_desc_hash";
      auto *dt = dyn_cast<DIDerivedType>(t); t = dt && dt->getTag() != dwarf::DW_TAG_pointer_type ? dt->getBaseType() : nullptr;
    }
    return false;
  };
  for (GlobalVariable &G : M->globals()) if (iOut >= 0 && iMax >= 0 && G.hasInitializer()) if (auto *cs = dyn_cast<ConstantStruct>(G.getInitializer()))
    if (isDesc(G) && (unsigned)std::max(iOut, iMax) < cs->getNumOperands()) {
      auto *f = dyn_cast<Function>(cs->getOperand(iOut)->stripPointerCasts()); auto *m = dyn_cast<ConstantInt>(cs->getOperand(iMax));
      if (f && m && !m->isZero()) digest.insert(f);
    }
  for (Function &F : *M) {
    if (F.isDeclaration()) continue;
    nFun++;
    std::vector<Value *> roots;
    for (Argument &a : F.args()) if (a.getType()->isIntegerTy(64)) roots.push_back(&a);
    // one-call digests (.., in, in_len, out, out_len): the output length is a parameter of the digest, not data
    if (roots.size() == 2 && cast<Argument>(roots[1])->getArgNo() == F.arg_size() - 1 && F.getReturnType()->isIntegerTy() && F.arg_size() > 5) roots.pop_back();
    if (digest.count(&F)) continue;
    if (roots.empty()) continue;
    nLen += roots.size();
    auto &LI = FAM.getResult<LoopAnalysis>(F); auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F); auto &LV = FAM.getResult<LazyValueAnalysis>(F);
    auto max = [&](Value *v, Instruction *at) {
      APInt m = LV.getConstantRange(v, at, false).getUnsignedMax();
      if (SE.isSCEVable(v->getType())) { APInt n = SE.getUnsignedRangeMax(SE.getSCEV(v)); if (n.ult(m)) m = n; }
      return m;
    };
    auto fits = [&](Value *v, Instruction *at, unsigned w) { return max(v, at).getActiveBits() <= w; };
    VS wide = closure(roots, true);
    // a narrowed length
    std::vector<Value *> cut;
    for (Instruction &I : instructions(F)) {
      Value *src = nullptr; unsigned w = 0;
      if (auto *t = dyn_cast<TruncInst>(&I)) { src = t->getOperand(0); w = t->getType()->getIntegerBitWidth(); }
      // after the optimiser, the conversion there and back is a mask of 8, 16 or 32 bits
      else if (I.getOpcode() == Instruction::And) if (auto *c = dyn_cast<ConstantInt>(I.getOperand(1))) {
        if (c->getBitWidth() == 64 && c->getValue().isMask() && (c->getValue().getActiveBits() == 32 || c->getValue().getActiveBits() == 16)) { src = I.getOperand(0); w = c->getValue().getActiveBits(); }
      }
      if (!src || w < 8 || !wide.count(src)) continue;
      nTrunc++;
      if (!fits(src, &I, w)) cut.push_back(&I);
    }
    for (Value *c : cut) {
      auto *t = cast<Instruction>(c);
      unsigned w = isa<TruncInst>(t) ? t->getType()->getIntegerBitWidth() : cast<ConstantInt>(t->getOperand(1))->getValue().getActiveBits();
      std::string bits = std::to_string(w);
      VS part = closure({c}, false);
      for (Value *v : part) for (User *u : v->users()) {
        auto *I = dyn_cast<Instruction>(u);
        if (!I) continue;
        if (isa<GetElementPtrInst>(I)) report(t, "narrow_len", "a data length is cut to " + bits + " bits and used as an index");
        else if (auto *S = dyn_cast<StoreInst>(I)) {
          if (S->getValueOperand() == v && v->getType()->isIntegerTy(64) && w == 32 && isa<Instruction>(v)) report(t, "narrow_len", "a data length is cut to " + bits + " bits before a 64-bit value computed from it is stored");
        } else if (auto *B = dyn_cast<CallBase>(I)) {
          if (isa<DbgInfoIntrinsic>(B) || arith(I)) continue;
          if (w >= 16 || v->getType()->isIntegerTy(64)) report(t, "narrow_len", "a data length is cut to " + bits + " bits and passed on");
        } else if (auto *X = dyn_cast<ICmpInst>(I)) {
          Value *o = X->getOperand(X->getOperand(0) == v);
          // a sum compared with one of its terms is a carry
          bool carry = part.count(o);
          for (User *k : o->users()) if (part.count(k)) carry = true;
          if (isa<Constant>(o)) carry = false;
          for (User *b : X->users()) {
            auto *br = dyn_cast<BranchInst>(b); Loop *L = br ? LI.getLoopFor(br->getParent()) : nullptr;
            if (L && L->isLoopExiting(br->getParent()) && !carry) report(t, "narrow_len", "a data length is cut to " + bits + " bits and bounds a loop");
            else if ((br || isa<SelectInst>(b)) && X->isRelational() && !carry && w >= 16) report(t, "narrow_len", "a data length is cut to " + bits + " bits before its size is examined");
          }
        }
      }
    }
    // a narrow counter in a loop over a length
    for (Loop *L : LI.getLoopsInPreorder()) {
      SmallVector<BasicBlock *, 4> ex; L->getExitingBlocks(ex);
      bool over = false;
      for (BasicBlock *B : ex) if (auto *br = dyn_cast<BranchInst>(B->getTerminator())) if (br->isConditional()) if (auto *X = dyn_cast<ICmpInst>(br->getCondition())) {
        for (int k = 0; k < 2; k++) {
          Value *a = X->getOperand(k), *b = X->getOperand(1 - k);
          if (!wide.count(a)) continue;
          over = true;
          Value *n = strip(b); unsigned w = n->getType()->isIntegerTy() ? n->getType()->getIntegerBitWidth() : 64;
          if (w >= 64 || !L->contains(X)) continue;
          auto *ni = dyn_cast<Instruction>(n);
          if (!ni || !L->contains(ni) || isa<LoadInst>(ni)) continue;
          nLoop++;
          if (!fits(a, X, w)) report(X, "narrow_counter", "a counter of " + std::to_string(w) + " bits is compared with a data length of 64 bits: the loop never ends for longer data");
        }
      }
      if (!over) continue;
      nLoop++;
      for (BasicBlock *B : L->blocks()) for (Instruction &I : *B) if (auto *g = dyn_cast<GetElementPtrInst>(&I)) for (Value *ix : g->indices()) {
        if (!isa<ZExtInst>(ix) && !isa<SExtInst>(ix)) continue;
        Value *n = strip(ix);
        if (!SE.isSCEVable(n->getType())) continue;
        if (!isa<SCEVAddRecExpr>(SE.getSCEV(ix)) ) if (auto *r = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(n))) if (r->getLoop() == L && SE.getUnsignedRangeMax(SE.getSCEV(n)).isAllOnes())
          report(g, "narrow_counter", "a counter of " + std::to_string(n->getType()->getIntegerBitWidth()) + " bits indexes a loop over a data length of 64 bits");
      }
    }
  }
  printf("{\"functions\":%u,\"length_parameters\":%u,\"conversions\":%u,\"loops\":%u}\n", nFun, nLen, nTrunc, nLoop);
}
