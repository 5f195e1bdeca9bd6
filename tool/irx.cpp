// irx: normalises one LLVM module (inlining the analysed code and most of libstdc++ into the
// entry points, keeping a listed set of library operations as opaque primitives) and exports the
// result as JSON for the analyses in /verif/vpa.  It decides nothing by itself.
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"

#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static cl::opt<std::string> In(cl::Positional, cl::Required);
static cl::opt<std::string> Out("o", cl::Required);
static cl::opt<std::string> Prims("prims", cl::desc("file of regexes: opaque library operations"));
static cl::opt<std::string> Entries("entries", cl::desc("regex of demangled entry names"), cl::init("^vp_"));
static cl::opt<std::string> EmitLL("ll", cl::desc("also write the normalised module here"));
static cl::opt<std::string> Pipe("pipe", cl::init(
    "function<eager-inv>(lower-expect,sroa<modify-cfg>,early-cse<memssa>,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0;no-switch-range-to-icmp>,"
    "instcombine<no-verify-fixpoint>,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>,"
    "sroa<modify-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,gvn<no-pre;no-load-pre;memdep>,adce,"
    "simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>,instcombine<no-verify-fixpoint>,"
    "adce,loop-simplify)"));

static std::vector<Regex> PrimRe;

static std::string demangled(StringRef N) { return demangle(N.str()); }

// A demangled template name begins with its return type.  A regex whose line begins with '@' is matched
// against the name from the function's own qualified name on.
static std::vector<Regex> NameRe;
static std::string ownName(const std::string &D) {
  int Deep = 0;
  size_t Start = 0;
  for (size_t I = 0; I < D.size(); ++I) {
    char C = D[I];
    if (Deep == 0) {
      if (D.compare(I, 21, "(anonymous namespace)") == 0) { I += 20; continue; }
      if (D.compare(I, 8, "operator") == 0 && (I == 0 || !(isalnum(D[I - 1]) || D[I - 1] == '_')) &&
          (I + 8 >= D.size() || !(isalnum(D[I + 8]) || D[I + 8] == '_')))
        break;
      if (C == ' ') Start = I + 1;
      if (C == '(') break;
    }
    if (C == '<' || C == '(' || C == '{' || C == '[') ++Deep;
    if (C == '>' || C == ')' || C == '}' || C == ']') --Deep;
  }
  return D.substr(Start);
}
static bool isPrim(const std::string &D) {
  for (auto &R : PrimRe)
    if (R.match(D))
      return true;
  if (NameRe.empty()) return false;
  std::string N = ownName(D);
  for (auto &R : NameRe)
    if (R.match(N))
      return true;
  return false;
}

static json::Value typeOf(Type *T, const DataLayout &DL) {
  if (T->isPointerTy()) return "p";
  if (auto *I = dyn_cast<IntegerType>(T)) return "i" + std::to_string(I->getBitWidth());
  if (T->isVoidTy()) return "void";
  if (T->isFloatTy()) return "f32";
  if (T->isDoubleTy()) return "f64";
  std::string S;
  raw_string_ostream OS(S);
  T->print(OS);
  return OS.str();
}

struct Exporter {
  const DataLayout &DL;
  std::map<const Value *, int> Ids;
  explicit Exporter(const DataLayout &D) : DL(D) {}

  json::Value gep(const GEPOperator *G) {
    unsigned W = DL.getIndexTypeSizeInBits(G->getType());
    MapVector<Value *, APInt> Var;
    APInt C(W, 0);
    if (!G->collectOffset(DL, W, Var, C)) {
      return json::Object{{"k", "op"}, {"op", "gep?"}};
    }
    json::Array Vs;
    for (auto &P : Var)
      Vs.push_back(json::Array{val(P.first), P.second.getSExtValue()});
    return json::Object{{"k", "gep"}, {"base", val(G->getPointerOperand())}, {"off", C.getSExtValue()}, {"vars", std::move(Vs)},
                        {"inb", G->isInBounds()}};
  }

  json::Value val(const Value *V) {
    if (auto *CI = dyn_cast<ConstantInt>(V)) {
      SmallString<40> S;
      CI->getValue().toString(S, 10, false);
      return json::Object{{"k", "int"}, {"v", std::string(S)}, {"w", (int)CI->getBitWidth()}};
    }
    if (isa<ConstantPointerNull>(V)) return json::Object{{"k", "int"}, {"v", "0"}, {"w", 64}};
    if (isa<UndefValue>(V)) return json::Object{{"k", "undef"}};
    if (auto *F = dyn_cast<Function>(V))
      return json::Object{{"k", "fn"}, {"n", F->getName().str()}, {"d", demangled(F->getName())}};
    if (auto *G = dyn_cast<GlobalAlias>(V)) return val(G->getAliasee());
    if (auto *G = dyn_cast<GlobalVariable>(V)) {
      json::Object O{{"k", "glob"}, {"n", G->getName().str()}};
      if (G->isConstant() && G->hasInitializer())
        if (auto *CD = dyn_cast<ConstantDataSequential>(G->getInitializer()))
          if (CD->isString()) O["s"] = toHex(CD->getAsString());
      return std::move(O);
    }
    if (auto *A = dyn_cast<Argument>(V)) return json::Object{{"k", "arg"}, {"n", (int)A->getArgNo()}};
    if (auto *F = dyn_cast<ConstantFP>(V)) {
      SmallString<40> S;
      F->getValueAPF().toString(S);
      return json::Object{{"k", "fp"}, {"v", std::string(S)}};
    }
    if (auto *I = dyn_cast<Instruction>(V)) {
      auto It = Ids.find(I);
      return json::Object{{"k", "v"}, {"id", It == Ids.end() ? -1 : It->second}};
    }
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      if (auto *G = dyn_cast<GEPOperator>(CE)) return gep(G);
      json::Array Ops;
      for (auto &O : CE->operands()) Ops.push_back(val(O));
      return json::Object{{"k", "op"}, {"op", CE->getOpcodeName()}, {"ops", std::move(Ops)}, {"ty", typeOf(CE->getType(), DL)}};
    }
    if (auto *CA = dyn_cast<ConstantAggregate>(V)) {
      json::Array Ops;
      for (auto &O : CA->operands()) Ops.push_back(val(O));
      return json::Object{{"k", "agg"}, {"ops", std::move(Ops)}};
    }
    if (isa<ConstantAggregateZero>(V)) return json::Object{{"k", "zero"}, {"ty", typeOf(V->getType(), DL)}};
    if (auto *CD = dyn_cast<ConstantDataSequential>(V)) {
      json::Array Ops;
      for (unsigned i = 0; i < CD->getNumElements(); i++) Ops.push_back(val(CD->getElementAsConstant(i)));
      return json::Object{{"k", "agg"}, {"ops", std::move(Ops)}};
    }
    if (isa<MetadataAsValue>(V)) return json::Object{{"k", "md"}};
    return json::Object{{"k", "other"}};
  }

  static std::string ordering(AtomicOrdering O) { return toIRString(O); }

  json::Value loc(const Instruction &I) {
    json::Array Chain;
    const DILocation *L = I.getDebugLoc().get();
    int n = 0;
    while (L && n++ < 40) {
      std::string Sub;
      if (auto *S = L->getScope()->getSubprogram()) Sub = S->getName().str();
      Chain.push_back(json::Array{L->getFilename().str(), (int)L->getLine(), Sub});
      L = L->getInlinedAt();
    }
    return std::move(Chain);
  }

  json::Value inst(const Instruction &I) {
    json::Object O;
    O["id"] = Ids[&I];
    O["op"] = I.getOpcodeName();
    O["ty"] = typeOf(I.getType(), DL);
    O["loc"] = loc(I);
    json::Array Ops;
    if (auto *B = dyn_cast<BranchInst>(&I)) {
      if (B->isConditional()) {
        O["cond"] = val(B->getCondition());
        O["succ"] = json::Array{Ids[B->getSuccessor(0)], Ids[B->getSuccessor(1)]};
      } else
        O["succ"] = json::Array{Ids[B->getSuccessor(0)]};
      return std::move(O);
    }
    if (auto *S = dyn_cast<SwitchInst>(&I)) {
      O["cond"] = val(S->getCondition());
      json::Array Cs;
      for (auto &C : S->cases()) {
        SmallString<40> T;
        C.getCaseValue()->getValue().toString(T, 10, false);
        Cs.push_back(json::Array{std::string(T), Ids[C.getCaseSuccessor()]});
      }
      O["cases"] = std::move(Cs);
      O["default"] = Ids[S->getDefaultDest()];
      return std::move(O);
    }
    if (auto *P = dyn_cast<PHINode>(&I)) {
      json::Array In;
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
        In.push_back(json::Array{Ids[P->getIncomingBlock(i)], val(P->getIncomingValue(i))});
      O["in"] = std::move(In);
      return std::move(O);
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      O["gep"] = gep(cast<GEPOperator>(G));
      return std::move(O);
    }
    if (auto *C = dyn_cast<ICmpInst>(&I)) O["pred"] = ICmpInst::getPredicateName(C->getPredicate()).str();
    if (auto *C = dyn_cast<FCmpInst>(&I)) O["pred"] = FCmpInst::getPredicateName(C->getPredicate()).str();
    if (auto *L = dyn_cast<LoadInst>(&I)) {
      O["vol"] = L->isVolatile();
      O["atomic"] = ordering(L->getOrdering());
      O["sz"] = (int64_t)DL.getTypeStoreSize(L->getType()).getFixedValue();
    }
    if (auto *S = dyn_cast<StoreInst>(&I)) {
      O["vol"] = S->isVolatile();
      O["atomic"] = ordering(S->getOrdering());
      O["sz"] = (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue();
      O["vty"] = typeOf(S->getValueOperand()->getType(), DL);
    }
    if (auto *A = dyn_cast<AtomicRMWInst>(&I)) {
      O["rmw"] = AtomicRMWInst::getOperationName(A->getOperation()).str();
      O["atomic"] = ordering(A->getOrdering());
      O["sz"] = (int64_t)DL.getTypeStoreSize(A->getType()).getFixedValue();
    }
    if (auto *A = dyn_cast<AtomicCmpXchgInst>(&I)) {
      O["atomic"] = ordering(A->getSuccessOrdering());
      O["sz"] = (int64_t)DL.getTypeStoreSize(A->getCompareOperand()->getType()).getFixedValue();
    }
    if (auto *A = dyn_cast<AllocaInst>(&I)) O["sz"] = (int64_t)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue();
    if (auto *B = dyn_cast<OverflowingBinaryOperator>(&I)) {
      O["nuw"] = B->hasNoUnsignedWrap();
      O["nsw"] = B->hasNoSignedWrap();
    }
    if (auto *P = dyn_cast<PossiblyExactOperator>(&I))
      if (P->isExact()) O["exact"] = true;
    if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
      json::Array Ix;
      for (auto i : E->indices()) Ix.push_back((int)i);
      O["idx"] = std::move(Ix);
    }
    if (auto *E = dyn_cast<InsertValueInst>(&I)) {
      json::Array Ix;
      for (auto i : E->indices()) Ix.push_back((int)i);
      O["idx"] = std::move(Ix);
    }
    if (auto *L = dyn_cast<LandingPadInst>(&I)) {
      O["cleanup"] = L->isCleanup();
      json::Array Cs;
      for (unsigned i = 0; i < L->getNumClauses(); i++) Cs.push_back(val(L->getClause(i)));
      O["clauses"] = std::move(Cs);
      return std::move(O);
    }
    if (auto *C = dyn_cast<CallBase>(&I)) {
      const Value *Cal = C->getCalledOperand()->stripPointerCasts();
      O["callee"] = val(Cal);
      for (unsigned i = 0; i < C->arg_size(); i++) Ops.push_back(val(C->getArgOperand(i)));
      O["ops"] = std::move(Ops);
      O["nounwind"] = C->doesNotThrow();
      O["noret"] = C->doesNotReturn();
      json::Array SRet;
      for (unsigned i = 0; i < C->arg_size(); i++)
        SRet.push_back(C->paramHasAttr(i, Attribute::StructRet) ? "sret" : (C->isByValArgument(i) ? "byval" : ""));
      O["pattr"] = std::move(SRet);
      if (auto *II = dyn_cast<IntrinsicInst>(C)) O["intr"] = Intrinsic::getBaseName(II->getIntrinsicID()).str();
      if (auto *Inv = dyn_cast<InvokeInst>(C)) {
        O["normal"] = Ids[Inv->getNormalDest()];
        O["unwind"] = Ids[Inv->getUnwindDest()];
      }
      return std::move(O);
    }
    for (auto &U : I.operands()) Ops.push_back(val(U.get()));
    O["ops"] = std::move(Ops);
    return std::move(O);
  }

  json::Value func(const Function &F) {
    Ids.clear();
    int n = 0;
    for (auto &B : F) Ids[&B] = n++;
    for (auto &B : F)
      for (auto &I : B) Ids[&I] = n++;
    json::Array Blocks;
    for (auto &B : F) {
      json::Array Is;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        Is.push_back(inst(I));
      }
      Blocks.push_back(json::Object{{"id", Ids[&B]}, {"name", B.getName().str()}, {"is", std::move(Is)}});
    }
    json::Array Args;
    for (auto &A : F.args())
      Args.push_back(json::Object{{"ty", typeOf(A.getType(), DL)}, {"sret", A.hasStructRetAttr()}, {"byval", A.hasByValAttr()},
                                  {"name", A.getName().str()}});
    std::string File;
    int Line = 0;
    if (auto *S = F.getSubprogram()) {
      File = S->getFilename().str();
      Line = S->getLine();
    }
    return json::Object{{"name", F.getName().str()}, {"dem", demangled(F.getName())}, {"args", std::move(Args)},
                        {"ret", typeOf(F.getReturnType(), DL)}, {"blocks", std::move(Blocks)}, {"file", File}, {"line", Line}};
  }
};

// A loop whose test is written once before it and once at its end (if (c) do { } while (c);  or a flag
// computed before the loop and again in each round) is brought into the form with one test at its head:
// the code before the loop is replaced by a jump to the equal code at the end of the loop's body.
namespace {
struct Rejoin {
  Function &F;
  DominatorTree DT;
  LoopInfo LI;
  explicit Rejoin(Function &F) : F(F), DT(F), LI(DT) {}

  struct Match {
    std::map<const Value *, const Value *> Map;
    std::map<const Value *, const Value *> Back;
    std::map<const BasicBlock *, const BasicBlock *> Blocks;
    std::vector<std::pair<const PHINode *, const PHINode *>> Phis;
    std::vector<std::array<const BasicBlock *, 3>> Leaves;  // G block, L block, common successor
    std::set<const Instruction *> Mine;
    unsigned N = 0;
    bool Deep = false, Test = false;
  };

  static bool same(Match &M, const Value *A, const Value *B) {
    if (A == B) return true;
    auto It = M.Map.find(A);
    if (It != M.Map.end()) return It->second == B;
    auto *X = dyn_cast<AllocaInst>(A), *Y = dyn_cast<AllocaInst>(B);
    if (!X || !Y || X->getAllocatedType() != Y->getAllocatedType() || M.Back.count(B)) return false;
    M.Map[A] = B;
    M.Back[B] = A;
    return true;
  }

  static bool lifeEnd(const Instruction &I) {
    auto *X = dyn_cast<IntrinsicInst>(&I);
    return X && X->getIntrinsicID() == Intrinsic::lifetime_end;
  }

  bool walk(Match &M, Loop *L, BasicBlock::const_iterator G, BasicBlock::const_iterator E) {
    const BasicBlock *GB = G->getParent(), *EB = E->getParent();
    M.Blocks[GB] = EB;
    while (true) {
      while (isa<DbgInfoIntrinsic>(*G)) ++G;
      while (isa<DbgInfoIntrinsic>(*E)) ++E;
      // the end of a body-local variable's life does no harm before the first round either
      while (lifeEnd(*E) && !lifeEnd(*G)) ++E;
      const Instruction &X = *G, &Y = *E;
      if (X.getOpcode() != Y.getOpcode() || X.getType() != Y.getType()) return false;
      if (isa<AllocaInst>(X)) return false;
      M.Mine.insert(&X);
      M.Map[&X] = &Y;
      M.N++;
      if (auto *P = dyn_cast<PHINode>(&X)) {
        if (P->getNumIncomingValues() != cast<PHINode>(Y).getNumIncomingValues()) return false;
        M.Phis.push_back({P, cast<PHINode>(&Y)});
        ++G, ++E;
        continue;
      }
      if (!X.isSameOperationAs(&Y)) return false;
      if (X.getType()->isIntegerTy(1)) M.Test = true;
      if (isa<LoadInst>(X) || (isa<CallBase>(X) && !isa<IntrinsicInst>(X))) M.Deep = true;
      for (unsigned I = 0; I < X.getNumOperands(); ++I) {
        const Value *A = X.getOperand(I), *B = Y.getOperand(I);
        if (isa<BasicBlock>(A)) continue;
        if (!same(M, A, B)) return false;
      }
      if (!X.isTerminator()) {
        ++G, ++E;
        continue;
      }
      for (unsigned I = 0; I < X.getNumSuccessors(); ++I) {
        const BasicBlock *S = X.getSuccessor(I), *T = Y.getSuccessor(I);
        if (S == T) {
          M.Leaves.push_back({GB, EB, S});
          continue;
        }
        auto It = M.Blocks.find(S);
        if (It != M.Blocks.end()) {
          if (It->second != T) return false;
          continue;
        }
        if (L->contains(S)) return false;
        if (!walk(M, L, S->begin(), T->begin())) return false;
      }
      return true;
    }
  }

  bool valid(Match &M, Loop *L, const BasicBlock *First, const BasicBlock *Top) {
    bool Into = false;
    for (auto &Lf : M.Leaves) {
      if (Lf[2] == L->getHeader() && L->contains(Lf[1])) Into = true;
      for (auto &P : Lf[2]->phis())
        if (!same(M, P.getIncomingValueForBlock(Lf[0]), P.getIncomingValueForBlock(Lf[1]))) return false;
    }
    if (!Into || M.N < 3 || !M.Deep || !M.Test) return false;
    for (auto &[P, Q] : M.Phis)
      for (unsigned I = 0; I < P->getNumIncomingValues(); ++I) {
        auto It = M.Blocks.find(P->getIncomingBlock(I));
        if (It == M.Blocks.end()) return false;
        int K = Q->getBasicBlockIndex(It->second);
        if (K < 0 || !same(M, P->getIncomingValue(I), Q->getIncomingValue(K))) return false;
      }
    std::set<const BasicBlock *> Lv;
    for (auto &Lf : M.Leaves) Lv.insert(Lf[2]);
    for (auto &[A, B] : M.Map) {
      auto *I = dyn_cast<Instruction>(A);
      if (!I || A == B) continue;
      for (auto *U : I->users()) {
        auto *UI = cast<Instruction>(U);
        if (M.Mine.count(UI)) continue;
        if (isa<PHINode>(UI) && Lv.count(UI->getParent()) && !isa<AllocaInst>(I)) continue;
        return false;
      }
    }
    for (auto &[A, B] : M.Blocks) {
      if (A == First) continue;
      for (auto *P : predecessors(A))
        if (!M.Blocks.count(P)) return false;
    }
    (void)Top;
    return true;
  }

  bool once() {
    SmallVector<Loop *, 8> All = LI.getLoopsInPreorder();
    for (Loop *L : All) {
      BasicBlock *H = L->getHeader();
      Match Best;
      Instruction *BG = nullptr, *BE = nullptr;
      for (auto &GB : F) {
        if (L->contains(&GB) || !DT.isReachableFromEntry(&GB) || !DT.dominates(&GB, H)) continue;
        for (auto &G : GB) {
          if (isa<PHINode>(G) || isa<AllocaInst>(G) || isa<DbgInfoIntrinsic>(G) || G.isEHPad()) continue;
          for (auto *EB : L->blocks())
            for (auto &E : *EB) {
              if (E.getOpcode() != G.getOpcode() || isa<PHINode>(E)) continue;
              Match M;
              if (!walk(M, L, G.getIterator(), E.getIterator()) || M.N <= Best.N) continue;
              if (!valid(M, L, &GB, EB)) continue;
              Best = std::move(M);
              BG = &G, BE = &E;
            }
        }
      }
      if (!BG) continue;
      BasicBlock *GB = BG->getParent(), *EB = BE->getParent();
      SmallVector<BasicBlock *, 8> Dead;
      for (auto &[A, B] : Best.Blocks)
        if (A != GB) Dead.push_back(const_cast<BasicBlock *>(A));
      BasicBlock *Mid = EB->splitBasicBlock(BE->getIterator(), "rejoin");
      BasicBlock *Rest = GB->splitBasicBlock(BG->getIterator(), "old");
      GB->getTerminator()->replaceUsesOfWith(Rest, Mid);
      Dead.push_back(Rest);
      DeleteDeadBlocks(Dead);
      return true;
    }
    return false;
  }
};
}  // namespace

static void rejoinLoops(Module &M, PassBuilder &PB, FunctionAnalysisManager &FAM) {
  std::vector<Function *> Fs;
  for (auto &F : M) {
    if (F.isDeclaration() || !F.getSubprogram()) continue;
    StringRef File = F.getSubprogram()->getFilename();
    if (File.contains("/xitren/")) Fs.push_back(&F);
  }
  for (Function *F : Fs) {
    {
      DominatorTree DT(*F);
      LoopInfo LI(DT);
      if (LI.empty()) continue;
    }
    ValueToValueMapTy VM;
    Function *C = CloneFunction(F, VM);
    FunctionPassManager FPM;
    (void)PB.parsePassPipeline(FPM, "simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>");
    FPM.run(*C, FAM);
    FAM.clear();
    bool Changed = false;
    for (int I = 0; I < 8; ++I) {
      Rejoin R(*C);
      if (!R.once()) break;
      Changed = true;
    }
    if (!Changed || verifyFunction(*C)) {
      C->eraseFromParent();
      continue;
    }
    auto Link = F->getLinkage();
    auto *Com = F->getComdat();
    F->deleteBody();
    F->setLinkage(Link);
    F->setComdat(Com);
    F->splice(F->begin(), C);
    for (auto A = F->arg_begin(), B = C->arg_begin(); A != F->arg_end(); ++A, ++B) B->replaceAllUsesWith(&*A);
    if (C->hasPersonalityFn()) F->setPersonalityFn(C->getPersonalityFn());
    auto *SP = C->getSubprogram();
    C->setSubprogram(nullptr);
    F->setSubprogram(SP);
    C->eraseFromParent();
  }
}

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv, "irx\n");
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(In, Err, Ctx);
  if (!M) {
    Err.print("irx", errs());
    return 2;
  }
  if (!Prims.empty()) {
    std::ifstream F(Prims);
    std::string L;
    while (std::getline(F, L)) {
      if (L.empty() || L[0] == '#') continue;
      bool Own = L[0] == '@';
      Regex R(Own ? L.substr(1) : L);
      std::string E;
      if (!R.isValid(E)) {
        errs() << "bad regex " << L << ": " << E << "\n";
        return 2;
      }
      (Own ? NameRe : PrimRe).push_back(std::move(R));
    }
  }
  Regex EntryRe(Entries);

  // Recursive functions cannot be inlined away: find direct self-recursion.
  std::set<std::string> Defined;
  json::Array PrimSeen;
  std::vector<Function *> Keep;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    std::string D = demangled(F.getName());
    Defined.insert(D);
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::AlwaysInline);
    bool Entry = EntryRe.match(D);
    if (!Entry && isPrim(D)) {
      PrimSeen.push_back(D);
      bool NU = F.doesNotThrow();
      F.deleteBody();
      F.setComdat(nullptr);
      if (NU) F.setDoesNotThrow();
      F.addFnAttr(Attribute::NoInline);
      continue;
    }
    if (Entry) {
      F.addFnAttr(Attribute::NoInline);
      Keep.push_back(&F);
    } else {
      bool Self = false;
      for (auto *U : F.users())
        if (auto *CB = dyn_cast<CallBase>(U))
          if (CB->getFunction() == &F) Self = true;
      if (!Self) F.addFnAttr(Attribute::AlwaysInline);
    }
  }

  PassBuilder PB;
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  rejoinLoops(*M, PB, FAM);
  ModulePassManager MPM;
  // constant globals folded first, then everything is inlined, then each function is simplified
  if (auto E = PB.parsePassPipeline(MPM, "always-inline")) {
    errs() << toString(std::move(E)) << "\n";
    return 2;
  }
  if (auto E = PB.parsePassPipeline(MPM, StringRef(Pipe))) {
    errs() << toString(std::move(E)) << "\n";
    return 2;
  }
  MPM.run(*M, MAM);
  // Indirect calls resolved by the simplification (e.g. a lambda handed to an algorithm, or a
  // devirtualised call) may have exposed new always-inline call sites.
  {
    ModulePassManager MPM2;
    (void)PB.parsePassPipeline(MPM2, "always-inline");
    (void)PB.parsePassPipeline(MPM2, StringRef(Pipe));
    MAM.clear(); CGAM.clear(); FAM.clear(); LAM.clear();
    MPM2.run(*M, MAM);
  }
  if (!EmitLL.empty()) {
    std::error_code EC;
    raw_fd_ostream OS(EmitLL, EC);
    M->print(OS, nullptr);
  }
  if (verifyModule(*M, &errs())) return 2;

  json::Array Fs;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    std::string D = demangled(F.getName());
    if (!EntryRe.match(D)) continue;
    Exporter X(M->getDataLayout());
    Fs.push_back(X.func(F));
  }
  // virtual tables: class -> slot functions
  json::Object Vt;
  for (auto &G : M->globals()) {
    if (!G.getName().starts_with("_ZTV") || !G.hasInitializer()) continue;
    json::Array Slots;
    if (auto *CS = dyn_cast<ConstantStruct>(G.getInitializer()))
      for (auto &A : CS->operands())
        if (auto *CA = dyn_cast<ConstantArray>(A)) {
          json::Array One;
          for (auto &E : CA->operands()) {
            const Value *V = E->stripPointerCasts();
            if (auto *F = dyn_cast<Function>(V)) One.push_back(demangled(F->getName()));
            else One.push_back(nullptr);
          }
          Slots.push_back(std::move(One));
        }
    Vt[demangled(G.getName())] = std::move(Slots);
  }
  std::error_code EC;
  raw_fd_ostream OS(Out, EC);
  OS << json::Value(json::Object{{"functions", std::move(Fs)}, {"prims", std::move(PrimSeen)}, {"vtables", std::move(Vt)}});
  OS << "\n";
  return 0;
}
