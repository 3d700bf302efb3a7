// mmexport: link the bitcode of every translation unit of metamath-exe, inline
// helper functions that are not in the reference function list, normalise the
// IR (promotion to SSA, instruction simplification), and write the resolved
// program -- functions, blocks, instructions, resolved callees, access-path
// information, debug locations -- as JSON for the rule layer.
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <iostream>
#include <map>
#include <set>
using namespace llvm;

static std::map<const Value *, long> VId;           // per function
static std::map<const BasicBlock *, long> BId;
static std::map<std::string, std::vector<std::string>> StructFields;

static std::string tyStr(Type *T) {
  if (T->isVoidTy()) return "void";
  if (T->isPointerTy()) return "ptr";
  if (auto *I = dyn_cast<IntegerType>(T)) return "i" + std::to_string(I->getBitWidth());
  if (T->isDoubleTy()) return "double";
  if (auto *A = dyn_cast<ArrayType>(T))
    return "[" + std::to_string(A->getNumElements()) + " x " + tyStr(A->getElementType()) + "]";
  if (auto *S = dyn_cast<StructType>(T)) {
    if (!S->hasName()) return "%anon";
    return ("%" + S->getName()).str();
  }
  std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str();
}

static json::Value constVal(const Constant *C, int depth = 0);

static std::string cstr(const Constant *C) {
  if (auto *D = dyn_cast<ConstantDataSequential>(C))
    if (D->isString()) return D->getAsString().str();
  return "";
}

// Operands: ["v",id] instruction/argument, ["c",n] integer constant, ["n"] null,
// ["g",name] global, ["f",name] function, ["s",text] pointer to constant string,
// ["b",id] block, ["u"] undef, ["d",x] floating constant, ["e",...] const expr
static json::Value opnd(const Value *V, int depth = 0) {
  if (auto *C = dyn_cast<Constant>(V)) return constVal(C, depth);
  if (auto *B = dyn_cast<BasicBlock>(V)) return json::Array{"b", BId[B]};
  auto it = VId.find(V);
  if (it != VId.end()) return json::Array{"v", it->second};
  return json::Array{"?"};
}

static std::string esc(const std::string &s) { // latin1 -> utf8
  std::string r;
  for (unsigned char c : s) {
    if (c < 0x80) r += (char)c;
    else { r += (char)(0xC0 | (c >> 6)); r += (char)(0x80 | (c & 0x3F)); }
  }
  return r;
}

static json::Value gepPath(const GEPOperator *G, int depth) {
  // list of steps: ["f",struct,idx,fieldname] | ["i",operand] (array/pointer index)
  json::Array steps;
  Type *T = G->getSourceElementType();
  bool first = true;
  for (auto I = G->idx_begin(); I != G->idx_end(); ++I) {
    if (first) {
      first = false;
      steps.push_back(json::Array{"i", opnd(*I, depth + 1), tyStr(T)});
      continue;
    }
    if (auto *S = dyn_cast<StructType>(T)) {
      unsigned n = (unsigned)cast<ConstantInt>(*I)->getZExtValue();
      std::string nm = S->hasName() ? S->getName().str() : "";
      std::string fn = std::to_string(n);
      auto it = StructFields.find(nm);
      if (it != StructFields.end() && n < it->second.size()) fn = it->second[n];
      steps.push_back(json::Array{"f", nm, (int64_t)n, fn});
      T = S->getElementType(n);
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      steps.push_back(json::Array{"a", opnd(*I, depth + 1), tyStr(T)});
      T = A->getElementType();
    } else {
      steps.push_back(json::Array{"?", opnd(*I, depth + 1)});
    }
  }
  return steps;
}

static json::Value constVal(const Constant *C, int depth) {
  if (auto *I = dyn_cast<ConstantInt>(C)) {
    if (I->getBitWidth() <= 64) return json::Array{"c", I->getSExtValue()};
    return json::Array{"?"};
  }
  if (isa<ConstantPointerNull>(C)) return json::Array{"n"};
  if (auto *F = dyn_cast<ConstantFP>(C)) {
    bool li; APFloat a = F->getValueAPF(); a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    std::string t; raw_string_ostream o(t); o << a.convertToDouble();
    return json::Array{"d", o.str()};
  }
  if (auto *F = dyn_cast<Function>(C)) return json::Array{"f", F->getName().str()};
  if (auto *G = dyn_cast<GlobalVariable>(C)) {
    if (G->isConstant() && G->hasInitializer()) {
      auto *Init = G->getInitializer();
      if (auto *D = dyn_cast<ConstantDataSequential>(Init))
        if (D->isString()) return json::Array{"s", esc(D->getAsString().drop_back(D->isCString() ? 1 : 0).str()), G->getName().str()};
      if (isa<ConstantAggregateZero>(Init) && Init->getType()->isArrayTy() &&
          Init->getType()->getArrayElementType()->isIntegerTy(8))
        return json::Array{"s", "", G->getName().str()};
    }
    return json::Array{"g", G->getName().str()};
  }
  if (isa<UndefValue>(C)) return json::Array{"u"};
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    if (depth > 6) return json::Array{"?"};
    if (auto *G = dyn_cast<GEPOperator>(E))
      return json::Array{"e", "gep", opnd(G->getPointerOperand(), depth + 1), gepPath(G, depth)};
    json::Array ops;
    for (auto &o : E->operands()) ops.push_back(opnd(o.get(), depth + 1));
    return json::Array{"e", E->getOpcodeName(), std::move(ops)};
  }
  if (auto *A = dyn_cast<ConstantAggregate>(C)) {
    json::Array ops;
    if (A->getNumOperands() > 5000) return json::Array{"?"};
    for (auto &o : A->operands()) ops.push_back(opnd(o.get(), depth + 1));
    return json::Array{"agg", std::move(ops)};
  }
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    if (D->isString()) return json::Array{"str", esc(D->getAsString().str())};
    json::Array ops;
    for (unsigned i = 0; i < D->getNumElements(); i++) ops.push_back(opnd(D->getElementAsConstant(i), depth + 1));
    return json::Array{"agg", std::move(ops)};
  }
  if (isa<ConstantAggregateZero>(C)) return json::Array{"zero"};
  return json::Array{"?"};
}

static json::Value locOf(const DebugLoc &L) {
  if (!L) return nullptr;
  auto *D = L.get();
  std::string fn;
  if (auto *S = dyn_cast_or_null<DILocalScope>(D->getScope()))
    if (auto *SP = S->getSubprogram()) fn = SP->getName().str();
  json::Array a{D->getFilename().str(), (int64_t)D->getLine(), fn};
  return a;
}

static std::string dbgTypeName(const DIType *T) {
  std::string s;
  int n = 0;
  while (T && n++ < 10) {
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_typedef) return D->getName().str() + s;
      if (D->getTag() == dwarf::DW_TAG_pointer_type) { s += "*"; T = D->getBaseType(); if (!T) return "void" + s; continue; }
      T = D->getBaseType(); continue;
    }
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() == dwarf::DW_TAG_array_type) {
        std::string dim;
        for (auto *e : C->getElements())
          if (auto *r = dyn_cast<DISubrange>(e))
            if (auto *ci = dyn_cast_if_present<ConstantInt *>(r->getCount())) dim += "[" + std::to_string(ci->getSExtValue()) + "]";
        return dbgTypeName(C->getBaseType()) + dim + s;
      }
      return C->getName().str() + s;
    }
    return T->getName().str() + s;
  }
  return s;
}

int main(int argc, char **argv) {
  // mmexport KNOWN_FUNCS OUT.json PIPELINE in1.bc in2.bc ...
  if (argc < 5) return 2;
  std::set<std::string> known;
  bool haveKnown = std::string(argv[1]) != "-";
  if (haveKnown) { std::ifstream f(argv[1]); std::string l; while (f >> l) known.insert(l); }
  LLVMContext Ctx; SMDiagnostic Err;
  std::unique_ptr<Module> M;
  for (int i = 4; i < argc; i++) {
    auto m = parseIRFile(argv[i], Err, Ctx);
    if (!m) { Err.print("mmexport", errs()); return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed " << argv[i] << "\n"; return 2; }
  }
  // struct field names from debug info
  DebugInfoFinder Fnd; Fnd.processModule(*M);
  json::Object structs;
  for (auto *T : Fnd.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C || C->getTag() != dwarf::DW_TAG_structure_type || C->getName().empty()) continue;
    std::vector<std::string> f; json::Array fa;
    for (auto *e : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(e)) {
      f.push_back(D->getName().str());
      fa.push_back(json::Array{D->getName().str(), dbgTypeName(D->getBaseType())});
    }
    if (f.empty()) continue;
    StructFields["struct." + C->getName().str()] = f;
    structs["struct." + C->getName().str()] = std::move(fa);
  }
  // Helper functions that the reference tree does not have are inlined, so an
  // extracted helper and the code it was extracted from look the same.
  std::vector<std::string> inlined;
  std::map<const Function *, std::set<const Function *>> calls;
  for (auto &F : *M) for (auto &I : instructions(F))
    if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = C->getCalledFunction()) if (!G->isDeclaration()) calls[&F].insert(G);
  auto recursive = [&](const Function *F) {
    // (only among helpers: the functions of the reference tree are never inlined)
    std::set<const Function *> seen; std::vector<const Function *> w(calls[F].begin(), calls[F].end());
    while (!w.empty()) { auto *g = w.back(); w.pop_back(); if (g == F) return true; if (known.count(g->getName().str()) || !seen.insert(g).second) continue; for (auto *h : calls[g]) w.push_back(h); }
    return false; };
  std::vector<Function *> toKill;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
    std::string n = F.getName().str();
    // strip ".NNN" suffix that linking gives to clashing static names
    if (haveKnown && !known.count(n) && n != "main" && !F.isVarArg() && !recursive(&F)) {
      bool taken = F.hasAddressTaken();
      F.addFnAttr(Attribute::AlwaysInline);
      F.setLinkage(GlobalValue::InternalLinkage);
      inlined.push_back(n);
      (void)taken;
    } else F.addFnAttr(Attribute::NoInline);
  }
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, argv[3])) { errs() << toString(std::move(E)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  for (auto &n : inlined) if (auto *F = M->getFunction(n)) if (F->use_empty()) F->eraseFromParent();
  // byte offsets from a pointer to a known structure (as SROA makes them) back to fields
  for (auto &F : *M) {
    std::map<Value *, std::set<StructType *>> st;
    for (auto &A : F.args()) if (A.hasByValAttr()) if (auto *S = dyn_cast<StructType>(A.getParamByValType())) st[&A].insert(S);
    for (auto &B : F) for (auto &I : B) {
      if (auto *A = dyn_cast<AllocaInst>(&I)) { if (auto *S = dyn_cast<StructType>(A->getAllocatedType())) st[A].insert(S); }
      else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) { if (auto *S = dyn_cast<StructType>(G->getSourceElementType())) st[G->getPointerOperand()].insert(S); }
    }
    std::vector<GetElementPtrInst *> todo;
    for (auto &B : F) for (auto &I : B)
      if (auto *G = dyn_cast<GetElementPtrInst>(&I))
        if (G->getSourceElementType()->isIntegerTy(8) && G->getNumIndices() == 1 && isa<ConstantInt>(*G->idx_begin())) todo.push_back(G);
    for (auto *G : todo) {
      auto it = st.find(G->getPointerOperand());
      if (it == st.end() || it->second.size() != 1) continue;
      Type *T = *it->second.begin();
      const DataLayout &DL = M->getDataLayout();
      APInt Off(DL.getIndexSizeInBits(0), cast<ConstantInt>(*G->idx_begin())->getSExtValue(), true);
      if (Off.isNegative() || Off.uge(DL.getTypeAllocSize(T).getFixedValue())) continue;
      StructType *S = cast<StructType>(T);
      unsigned n = DL.getStructLayout(S)->getElementContainingOffset(Off.getZExtValue());
      if (DL.getStructLayout(S)->getElementOffset(n).getFixedValue() != Off.getZExtValue()) continue;
      Type *I32 = Type::getInt32Ty(Ctx);
      auto *N = GetElementPtrInst::Create(S, G->getPointerOperand(), {ConstantInt::get(I32, 0), ConstantInt::get(I32, n)}, "", G);
      N->setDebugLoc(G->getDebugLoc());
      G->replaceAllUsesWith(N);
      G->eraseFromParent();
    }
  }

  std::error_code EC; raw_fd_ostream OS(argv[2], EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  json::Object top;
  top["structs"] = std::move(structs);
  json::Array inl; for (auto &n : inlined) inl.push_back(n);
  top["inlined"] = std::move(inl);
  json::Object globals;
  for (auto &G : M->globals()) {
    json::Object o;
    o["type"] = tyStr(G.getValueType());
    o["const"] = G.isConstant();
    SmallVector<DIGlobalVariableExpression *, 2> gv; G.getDebugInfo(gv);
    if (!gv.empty()) {
      o["name"] = gv[0]->getVariable()->getName().str();
      o["dtype"] = dbgTypeName(gv[0]->getVariable()->getType());
      if (auto *sp = dyn_cast_or_null<DISubprogram>(gv[0]->getVariable()->getScope())) o["func"] = sp->getName().str();
      o["line"] = (int64_t)gv[0]->getVariable()->getLine();
      o["file"] = gv[0]->getVariable()->getFilename().str();
    }
    if (G.hasInitializer()) o["init"] = constVal(G.getInitializer());
    globals[G.getName()] = std::move(o);
  }
  top["globals"] = std::move(globals);
  json::Array decls;
  for (auto &F : *M) if (F.isDeclaration()) decls.push_back(F.getName().str());
  top["decls"] = std::move(decls);
  json::Object funcs;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    VId.clear(); BId.clear();
    long n = 0;
    for (auto &A : F.args()) VId[&A] = n++;
    long b = 0;
    for (auto &B : F) { BId[&B] = b++; for (auto &I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; VId[&I] = n++; } }
    std::map<const Value *, std::pair<std::string,std::string>> dbgName;
    for (auto &I : instructions(F)) {
      if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
        for (auto *v : D->location_ops())
          if (v && !isa<Constant>(v) && !dbgName.count(v))
            dbgName[v] = {D->getVariable()->getName().str(), dbgTypeName(D->getVariable()->getType())};
      }
    }
    json::Object fo;
    json::Array args;
    { unsigned i = 0; DISubprogram *SP = F.getSubprogram();
      std::vector<std::string> an, at;
      if (SP) for (auto *N : SP->getRetainedNodes()) (void)N;
      for (auto &A : F.args()) {
        std::string nm, ty; auto it = dbgName.find(&A); if (it != dbgName.end()) { nm = it->second.first; ty = it->second.second; }
        if (SP && SP->getType()) { auto ta = SP->getType()->getTypeArray(); if (i + 1 < ta.size() && ta[i+1]) ty = dbgTypeName(ta[i+1]); }
        args.push_back(json::Array{nm, ty, tyStr(A.getType())}); i++; }
      if (SP && SP->getType()) { auto ta = SP->getType()->getTypeArray(); fo["rettype"] = (ta.size() && ta[0]) ? dbgTypeName(ta[0]) : "void"; }
      if (SP) { fo["file"] = SP->getFilename().str(); fo["line"] = (int64_t)SP->getLine(); }
    }
    fo["args"] = std::move(args);
    fo["vararg"] = F.isVarArg();
    json::Array blocks;
    for (auto &B : F) {
      json::Array insts;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        json::Object o;
        o["id"] = VId[&I];
        o["op"] = I.getOpcodeName();
        if (!I.getType()->isVoidTy()) o["ty"] = tyStr(I.getType());
        auto L = locOf(I.getDebugLoc());
        if (!(L == json::Value(nullptr))) o["loc"] = std::move(L);
        auto it = dbgName.find(&I); if (it != dbgName.end()) { o["name"] = it->second.first; o["dty"] = it->second.second; }
        json::Array ops;
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          ops.push_back(opnd(G->getPointerOperand()));
          o["path"] = gepPath(cast<GEPOperator>(G), 0);
          o["aty"] = tyStr(G->getSourceElementType());
        } else if (auto *C = dyn_cast<CallBase>(&I)) {
          if (auto *Cf = C->getCalledFunction()) o["callee"] = Cf->getName().str();
          else o["icallee"] = opnd(C->getCalledOperand());
          for (auto &a : C->args()) ops.push_back(opnd(a.get()));
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
            ops.push_back(json::Array{opnd(P->getIncomingValue(i)), BId[P->getIncomingBlock(i)]});
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
          ops.push_back(opnd(S->getCondition()));
          json::Array cs;
          for (auto &c : S->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), BId[c.getCaseSuccessor()]});
          o["cases"] = std::move(cs); o["default"] = BId[S->getDefaultDest()];
        } else {
          for (auto &a : I.operands()) ops.push_back(opnd(a.get()));
          if (auto *A = dyn_cast<AllocaInst>(&I)) { o["aty"] = tyStr(A->getAllocatedType()); }
          if (auto *S = dyn_cast<StoreInst>(&I)) o["sty"] = tyStr(S->getValueOperand()->getType());
        }
        if (auto *Cm = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(Cm->getPredicate()).str();
        o["ops"] = std::move(ops);
        insts.push_back(std::move(o));
      }
      blocks.push_back(std::move(insts));
    }
    fo["blocks"] = std::move(blocks);
    funcs[F.getName()] = std::move(fo);
  }
  top["funcs"] = std::move(funcs);
  OS << json::Value(std::move(top)) << "\n";
  return 0;
}
