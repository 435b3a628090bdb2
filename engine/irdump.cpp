// irdump: LLVM bitcode -> JSON for the Python analyses.
// usage: irdump in.bc known-functions.txt out.json
// Functions that are not in known-functions.txt (helpers introduced by a
// later change) are inlined into their callers, so rules judge code and not
// how it is cut into functions.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include <fstream>
#include <set>
#include <map>
using namespace llvm;

static std::map<std::string, DICompositeType*> DIStructs;

static std::string diTypeName(const DIType *T) {
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return diTypeName(D->getBaseType()) + " *";
    case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type:
    case dwarf::DW_TAG_restrict_type:
      return diTypeName(D->getBaseType());
    case dwarf::DW_TAG_typedef: {
      std::string n = D->getName().str();
      if (n == "jmp_buf" || n == "va_list") return n;
      return diTypeName(D->getBaseType());
    }
    default: return diTypeName(D->getBaseType());
    }
  }
  if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().str();
  if (isa<DISubroutineType>(T)) return "fn";
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    switch (C->getTag()) {
    case dwarf::DW_TAG_structure_type: return "struct " + C->getName().str();
    case dwarf::DW_TAG_union_type: return "union " + C->getName().str();
    case dwarf::DW_TAG_enumeration_type: return "enum " + C->getName().str();
    case dwarf::DW_TAG_array_type: {
      std::string s = diTypeName(C->getBaseType());
      for (auto *E : C->getElements())
        if (auto *SR = dyn_cast<DISubrange>(E)) {
          s += "[";
          if (auto *CI = dyn_cast_if_present<ConstantInt *>(SR->getCount()))
            s += std::to_string(CI->getSExtValue());
          s += "]";
        }
      return s;
    }
    default: return C->getName().str();
    }
  }
  return "?";
}

static std::string tyStr(Type *T) {
  if (auto *S = dyn_cast<StructType>(T))
    if (S->hasName()) {
      StringRef n = S->getName();
      n.consume_front("struct.");
      return "struct " + n.str();
    }
  std::string s; raw_string_ostream os(s); T->print(os); return os.str();
}

static std::string fieldName(StructType *S, unsigned i) {
  if (S->hasName()) {
    StringRef n = S->getName(); n.consume_front("struct.");
    // linker may add .123 suffixes to duplicate types
    std::string base = n.str();
    size_t dot = base.find('.');
    std::string key = dot == std::string::npos ? base : base.substr(0, dot);
    auto it = DIStructs.find(key);
    if (it != DIStructs.end()) {
      unsigned k = 0, anon = 0;
      for (auto *E : it->second->getElements())
        if (auto *D = dyn_cast<DIDerivedType>(E)) {
          std::string f = D->getName().str();
          if (f.empty()) { f = anon ? "u" + std::to_string(anon) : "u"; anon++; }
          if (k == i) return f;
          k++;
        }
    }
  }
  return std::to_string(i);
}
static std::string structName(StructType *S) {
  if (!S->hasName()) return "anon";
  StringRef n = S->getName(); n.consume_front("struct.");
  std::string base = n.str();
  size_t dot = base.find('.');
  if (StringRef(base).starts_with("union.")) return base;
  return dot == std::string::npos ? base : base.substr(0, dot);
}

static std::string anonField(const std::string &S, const std::string &F, unsigned k) {
  auto it = DIStructs.find(S);
  if (it != DIStructs.end())
    for (auto *E : it->second->getElements())
      if (auto *D = dyn_cast<DIDerivedType>(E))
        if (D->getName() == F)
          if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType())) {
            unsigned j = 0;
            for (auto *E2 : C->getElements())
              if (auto *D2 = dyn_cast<DIDerivedType>(E2)) { if (j == k) return D2->getName().str(); j++; }
          }
  return std::to_string(k);
}

struct FnDump {
  std::map<const Value*, unsigned> num;
  std::map<const BasicBlock*, unsigned> bnum;
  const DataLayout &DL;
  FnDump(const DataLayout &DL) : DL(DL) {}

  json::Array gepPath(const GEPOperator *G) {
    json::Array path; std::string lastS, lastF;
    Type *cur = G->getSourceElementType();
    bool first = true;
    for (auto it = G->idx_begin(); it != G->idx_end(); ++it) {
      Value *ix = *it;
      if (first) {
        first = false;
        if (auto *C = dyn_cast<ConstantInt>(ix)) if (C->isZero()) continue;
        path.push_back(json::Array{"x", operand(ix), tyStr(cur)});
        continue;
      }
      if (auto *S = dyn_cast<StructType>(cur)) {
        unsigned k = cast<ConstantInt>(ix)->getZExtValue();
        std::string sn = structName(S), fnm = fieldName(S, k);
        if (StringRef(sn).starts_with("anon") && !lastS.empty()) {
          // anonymous struct member: name it after the member holding it
          sn = lastS + "." + lastF;
          fnm = anonField(lastS, lastF, k);
        }
        path.push_back(json::Array{"f", sn, fnm});
        lastS = sn; lastF = fnm;
        cur = S->getElementType(k);
      } else if (auto *A = dyn_cast<ArrayType>(cur)) {
        path.push_back(json::Array{"x", operand(ix), tyStr(A->getElementType()), (int64_t)A->getNumElements()});
        cur = A->getElementType();
      }
    }
    return path;
  }

  json::Value operand(const Value *V) {
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      if (C->getBitWidth() <= 64) return json::Array{"c", C->getSExtValue(), C->getBitWidth()};
      return json::Array{"u"};
    }
    if (isa<ConstantPointerNull>(V)) return json::Array{"null"};
    if (auto *F = dyn_cast<ConstantFP>(V)) {
      return json::Array{"fp", F->getValueAPF().convertToDouble()==F->getValueAPF().convertToDouble() ? F->getValueAPF().convertToDouble() : 0.0};
    }
    if (isa<UndefValue>(V)) return json::Array{"undef"};
    if (auto *F = dyn_cast<Function>(V)) return json::Array{"fn", F->getName().str()};
    if (auto *G = dyn_cast<GlobalVariable>(V)) return json::Array{"g", G->getName().str()};
    if (auto *A = dyn_cast<Argument>(V)) return json::Array{"a", (int64_t)A->getArgNo()};
    if (isa<Instruction>(V)) return json::Array{"i", (int64_t)num[V]};
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      if (auto *G = dyn_cast<GEPOperator>(CE))
        return json::Array{"cgep", operand(G->getPointerOperand()), gepPath(G)};
      json::Array ops;
      for (auto &o : CE->operands()) ops.push_back(operand(o));
      return json::Array{"ce", CE->getOpcodeName(), std::move(ops)};
    }
    if (isa<ConstantAggregateZero>(V)) return json::Array{"zero"};
    if (isa<BasicBlock>(V)) return json::Array{"bb", (int64_t)bnum[cast<BasicBlock>(V)]};
    if (isa<MetadataAsValue>(V)) return json::Array{"md"};
    return json::Array{"?"};
  }

  json::Object dump(Function &F) {
    unsigned n = 0, b = 0;
    for (auto &BB : F) { bnum[&BB] = b++; for (auto &I : BB) num[&I] = n++; }
    json::Object fo;
    fo["name"] = F.getName().str();
    fo["vararg"] = F.isVarArg();
    fo["nargs"] = (int64_t)F.arg_size();
    json::Array aty; for (auto &A : F.args()) aty.push_back(tyStr(A.getType()));
    fo["argtypes"] = std::move(aty);
    fo["ret"] = tyStr(F.getReturnType());
    fo["internal"] = F.hasLocalLinkage();
    fo["noreturn"] = F.doesNotReturn();
    if (auto *SP = F.getSubprogram()) {
      fo["file"] = SP->getFilename().str();
      fo["line"] = (int64_t)SP->getLine();
      json::Array dt;
      if (auto *ST = SP->getType())
        for (auto *T : ST->getTypeArray()) dt.push_back(diTypeName(T));
      fo["ditypes"] = std::move(dt);
    }
    json::Array blocks;
    for (auto &BB : F) {
      json::Array ins;
      for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I))
          if (II->isLifetimeStartOrEnd()) continue;
        json::Object o;
        o["id"] = (int64_t)num[&I];
        o["op"] = I.getOpcodeName();
        if (!I.getType()->isVoidTy()) o["ty"] = tyStr(I.getType());
        if (auto *L = I.getDebugLoc().get()) {
          o["ln"] = (int64_t)L->getLine();
          if (auto *SP = L->getScope()->getSubprogram()) {
            if (SP != F.getSubprogram()) o["fn"] = SP->getName().str();
            o["fl"] = SP->getFilename().str();
          }
        }
        json::Array ops;
        if (auto *C = dyn_cast<CallBase>(&I)) {
          Value *cv = C->getCalledOperand();
          if (auto *CF = dyn_cast<Function>(cv)) o["callee"] = CF->getName().str();
          else o["cv"] = operand(cv);
          for (auto &a : C->args()) ops.push_back(operand(a.get()));
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          for (unsigned k = 0; k < P->getNumIncomingValues(); k++)
            ops.push_back(json::Array{operand(P->getIncomingValue(k)), (int64_t)bnum[P->getIncomingBlock(k)]});
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
          ops.push_back(operand(S->getCondition()));
          json::Array cs;
          for (auto &c : S->cases())
            cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), (int64_t)bnum[c.getCaseSuccessor()]});
          o["cases"] = std::move(cs);
          o["default"] = (int64_t)bnum[S->getDefaultDest()];
        } else if (auto *B = dyn_cast<BranchInst>(&I)) {
          if (B->isConditional()) {
            ops.push_back(operand(B->getCondition()));
            o["t"] = (int64_t)bnum[B->getSuccessor(0)];
            o["f"] = (int64_t)bnum[B->getSuccessor(1)];
          } else o["t"] = (int64_t)bnum[B->getSuccessor(0)];
        } else if (auto *G = dyn_cast<GEPOperator>(&I)) {
          ops.push_back(operand(G->getPointerOperand()));
          o["path"] = gepPath(G);
        } else {
          for (auto &a : I.operands()) ops.push_back(operand(a.get()));
        }
        if (auto *C = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
        if (auto *A = dyn_cast<AllocaInst>(&I)) { o["aty"] = tyStr(A->getAllocatedType());
          o["asz"] = (int64_t)DL.getTypeAllocSize(A->getAllocatedType()); }
        if (auto *S = dyn_cast<StoreInst>(&I)) o["sty"] = tyStr(S->getValueOperand()->getType());
        if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) {
          if (OB->hasNoSignedWrap()) o["nsw"] = true;
        }
        o["o"] = std::move(ops);
        ins.push_back(std::move(o));
      }
      json::Array su;
      for (auto *S : successors(&BB)) su.push_back((int64_t)bnum[S]);
      blocks.push_back(json::Object{{"i", std::move(ins)}, {"s", std::move(su)}});
    }
    fo["blocks"] = std::move(blocks);
    return fo;
  }
  json::Value init(const Constant *C, int depth = 0) {
    if (auto *CS = dyn_cast<ConstantDataSequential>(C)) {
      if (CS->isString()) return json::Object{{"str", json::fixUTF8(CS->getAsString())}, {"len", (int64_t)CS->getNumElements()}};
      json::Array a;
      for (unsigned i = 0; i < CS->getNumElements(); i++) a.push_back(init(CS->getElementAsConstant(i), depth + 1));
      return a;
    }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
      json::Array a;
      for (auto &o : CA->operands()) a.push_back(init(cast<Constant>(o.get()), depth + 1));
      return a;
    }
    return operand(C);
  }
};

int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 2; }
  std::set<std::string> known;
  { std::ifstream f(argv[2]); std::string s; while (std::getline(f, s)) if (!s.empty()) known.insert(s); }
  // Unknown helpers: inline unless recursive / vararg / address taken as data only.
  CallGraph CG(*M);
  std::set<Function*> recursive;
  for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it)
    if (it.hasCycle()) for (auto *N : *it) if (N->getFunction()) recursive.insert(N->getFunction());
  json::Array inlined;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    if (known.empty() || known.count(F.getName().str())) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); continue; }
    F.removeFnAttr(Attribute::NoInline);
    if (recursive.count(&F) || F.isVarArg()) continue;
    F.addFnAttr(Attribute::AlwaysInline);
    inlined.push_back(F.getName().str());
  }
  // Inlining folds "address of the first member" to the address of the whole;
  // stand-ins keep those steps visible.
  std::map<std::string, std::pair<Type*, unsigned>> standins;
  for (auto &F : *M) {
    if (!F.hasFnAttribute(Attribute::AlwaysInline)) continue;
    std::vector<GetElementPtrInst*> zs;
    for (auto &B : F) for (auto &I : B)
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) if (G->hasAllZeroIndices() && G->getNumIndices() > 1) zs.push_back(G);
    for (auto *G : zs) {
      std::string key; raw_string_ostream os(key); os << "nk.first."; G->getSourceElementType()->print(os, false, true); os << "." << G->getNumIndices(); os.flush();
      standins[key] = {G->getSourceElementType(), G->getNumIndices()};
      auto *FT = FunctionType::get(G->getType(), {G->getPointerOperand()->getType()}, false);
      auto FC = M->getOrInsertFunction(key, FT);
      if (auto *D = dyn_cast<Function>(FC.getCallee())) { D->setDoesNotAccessMemory(); D->setDoesNotThrow(); D->setWillReturn(); }
      auto *C = CallInst::Create(FC, {G->getPointerOperand()}, "", G);
      C->setDebugLoc(G->getDebugLoc());
      G->replaceAllUsesWith(C); G->eraseFromParent();
    }
  }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  const char *pipe = argc > 4 ? argv[4] : "function(mem2reg),always-inline,function(mem2reg,jump-threading)";
  if (auto E = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(E)) << "\n"; return 2; }
  MPM.run(*M, MAM);
  for (auto &kv : standins) {
    auto *D = M->getFunction(kv.first);
    if (!D) continue;
    std::vector<CallInst*> cs;
    for (auto *U : D->users()) if (auto *C = dyn_cast<CallInst>(U)) cs.push_back(C);
    for (auto *C : cs) {
      std::vector<Value*> idx(kv.second.second, ConstantInt::get(Type::getInt32Ty(Ctx), 0));
      auto *G = GetElementPtrInst::Create(kv.second.first, C->getArgOperand(0), idx, "", C);
      G->setDebugLoc(C->getDebugLoc());
      C->replaceAllUsesWith(G); C->eraseFromParent();
    }
    D->eraseFromParent();
  }

  DebugInfoFinder DF; DF.processModule(*M);
  json::Object enums, structs;
  for (auto *T : DF.types())
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() == dwarf::DW_TAG_structure_type && !C->isForwardDecl() && !C->getName().empty()) {
        DIStructs[C->getName().str()] = C;
        json::Array fs;
        unsigned anon = 0;
        for (auto *E : C->getElements())
          if (auto *D = dyn_cast<DIDerivedType>(E)) {
            std::string f = D->getName().str();
            if (f.empty()) { f = anon ? "u" + std::to_string(anon) : "u"; anon++; }
            fs.push_back(json::Array{f, diTypeName(D->getBaseType()), (int64_t)(D->getSizeInBits()/8)});
          }
        structs[C->getName().str()] = json::Object{{"fields", std::move(fs)}, {"size", (int64_t)(C->getSizeInBits()/8)}};
      }
      if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
        json::Array es;
        for (auto *E : C->getElements())
          if (auto *D = dyn_cast<DIEnumerator>(E)) es.push_back(json::Array{D->getName().str(), D->getValue().getSExtValue()});
        enums[C->getName().empty() ? "anon" + std::to_string(enums.size()) : C->getName().str()] = std::move(es);
      }
    }
  json::Object fns, globals;
  json::Array decls;
  for (auto &F : *M) {
    if (F.isDeclaration()) { if (!F.isIntrinsic()) decls.push_back(F.getName().str()); continue; }
    FnDump D(M->getDataLayout());
    fns[F.getName().str()] = D.dump(F);
  }
  for (auto &G : M->globals()) {
    FnDump D(M->getDataLayout());
    json::Object o; o["ty"] = tyStr(G.getValueType()); o["const"] = G.isConstant(); o["internal"] = G.hasLocalLinkage();
    o["size"] = (int64_t)M->getDataLayout().getTypeAllocSize(G.getValueType());
    if (G.hasInitializer()) o["init"] = D.init(G.getInitializer());
    globals[G.getName().str()] = std::move(o);
  }
  json::Object root{{"functions", std::move(fns)}, {"globals", std::move(globals)}, {"decls", std::move(decls)},
                    {"enums", std::move(enums)}, {"structs", std::move(structs)}, {"inlined", std::move(inlined)}};
  std::error_code EC; raw_fd_ostream out(argv[3], EC);
  out << json::Value(std::move(root)) << "\n";
  return 0;
}
