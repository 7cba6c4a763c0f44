// Dumps an LLVM module (with debug info) as JSON for the abstract interpreter and the call-graph/effect rules.
// It only reads the module: nothing of the analysed program is executed.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/ADT/APSInt.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
using namespace llvm;
namespace J = llvm::json;

static const DataLayout *DL;
static std::map<const Value *, int> Ids;

static std::string tyName(Type *T) {
  if (T->isVoidTy()) return "void";
  if (T->isPointerTy()) return "ptr";
  if (T->isFloatTy()) return "f32";
  if (T->isDoubleTy()) return "f64";
  if (auto *I = dyn_cast<IntegerType>(T)) return "i" + std::to_string(I->getBitWidth());
  if (T->isMetadataTy()) return "meta";
  std::string S; raw_string_ostream O(S); T->print(O); return O.str();
}

static J::Value tySpec(Type *T) {
  if (auto *S = dyn_cast<StructType>(T)) {
    J::Array A; auto *L = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); ++i)
      A.push_back(J::Array{(int64_t)(uint64_t)L->getElementOffset(i), tySpec(S->getElementType(i))});
    return J::Object{{"s", std::move(A)}, {"n", (int64_t)(uint64_t)DL->getTypeAllocSize(T)}};
  }
  if (auto *A = dyn_cast<ArrayType>(T))
    return J::Object{{"a", tySpec(A->getElementType())}, {"k", (int64_t)A->getNumElements()},
                     {"n", (int64_t)(uint64_t)DL->getTypeAllocSize(T)}};
  return J::Value(tyName(T));
}

static J::Value operand(const Value *V);

static J::Value constant(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C))
    return J::Object{{"c", toString(I->getValue(), 10, false)}, {"w", (int64_t)I->getBitWidth()}};
  if (auto *F = dyn_cast<ConstantFP>(C)) {
    APInt B = F->getValueAPF().bitcastToAPInt();
    return J::Object{{"c", toString(B, 10, false)}, {"w", (int64_t)B.getBitWidth()}, {"fp", 1}};
  }
  if (isa<ConstantPointerNull>(C)) return J::Object{{"null", 1}};
  if (isa<UndefValue>(C)) return J::Object{{"undef", tySpec(C->getType())}};
  if (auto *F = dyn_cast<Function>(C)) return J::Object{{"f", F->getName().str()}};
  if (auto *G = dyn_cast<GlobalVariable>(C)) return J::Object{{"g", G->getName().str()}, {"off", 0}};
  if (auto *A = dyn_cast<GlobalAlias>(C)) return operand(A->getAliasee());
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (auto *GO = dyn_cast<GEPOperator>(CE)) {
      APInt Off(64, 0);
      if (GO->accumulateConstantOffset(*DL, Off)) {
        J::Value B = operand(GO->getPointerOperand());
        if (auto *O = B.getAsObject()) {
          if (O->get("g")) { (*O)["off"] = *O->getInteger("off") + Off.getSExtValue(); return B; }
        }
      }
    }
    if (CE->isCast()) return operand(CE->getOperand(0));
    std::string S; raw_string_ostream O(S); CE->print(O);
    return J::Object{{"x", O.str()}};
  }
  if (isa<ConstantAggregateZero>(C)) return J::Object{{"zero", (int64_t)(uint64_t)DL->getTypeAllocSize(C->getType())}, {"ty", tySpec(C->getType())}};
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    J::Array A; for (unsigned i = 0; i < D->getNumElements(); ++i) A.push_back(constant(D->getElementAsConstant(i)));
    return J::Object{{"arr", std::move(A)}, {"es", (int64_t)(uint64_t)DL->getTypeAllocSize(D->getElementType())}};
  }
  if (isa<ConstantArray>(C)) {
    J::Array A; for (unsigned i = 0; i < C->getNumOperands(); ++i) A.push_back(operand(C->getOperand(i)));
    return J::Object{{"arr", std::move(A)}, {"es", (int64_t)(uint64_t)DL->getTypeAllocSize(C->getType()->getArrayElementType())}};
  }
  if (isa<ConstantStruct>(C)) {
    J::Array A; auto *L = DL->getStructLayout(cast<StructType>(C->getType()));
    for (unsigned i = 0; i < C->getNumOperands(); ++i)
      A.push_back(J::Array{(int64_t)(uint64_t)L->getElementOffset(i), operand(C->getOperand(i))});
    return J::Object{{"st", std::move(A)}, {"ty", tySpec(C->getType())}};
  }
  std::string S; raw_string_ostream O(S); C->print(O);
  return J::Object{{"x", O.str()}};
}

static J::Value operand(const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return constant(C);
  auto It = Ids.find(V);
  if (It != Ids.end()) return J::Object{{"v", It->second}};
  if (auto *M = dyn_cast<MetadataAsValue>(V)) {
    if (auto *S = dyn_cast<MDString>(M->getMetadata())) return J::Object{{"md", S->getString().str()}};
    return J::Object{{"md", ""}};
  }
  return J::Object{{"x", "?"}};
}

static std::string diTypeName(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 12) return "...";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return diTypeName(D->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_reference_type: return diTypeName(D->getBaseType(), depth + 1) + "&";
    case dwarf::DW_TAG_rvalue_reference_type: return diTypeName(D->getBaseType(), depth + 1) + "&&";
    case dwarf::DW_TAG_const_type: return "const " + diTypeName(D->getBaseType(), depth + 1);
    case dwarf::DW_TAG_volatile_type: return diTypeName(D->getBaseType(), depth + 1);
    default: return diTypeName(D->getBaseType(), depth + 1);
    }
  }
  std::string N;
  const DIScope *S = T->getScope();
  std::vector<std::string> P;
  while (S && !isa<DIFile>(S) && !isa<DICompileUnit>(S)) { if (!S->getName().empty()) P.push_back(S->getName().str()); S = S->getScope(); }
  for (auto It = P.rbegin(); It != P.rend(); ++It) N += *It + "::";
  N += T->getName().str();
  return N;
}
static std::string scopeName(const DIScope *S) {
  std::vector<std::string> P; std::string N;
  while (S && !isa<DIFile>(S) && !isa<DICompileUnit>(S)) { if (!S->getName().empty()) P.push_back(S->getName().str()); S = S->getScope(); }
  for (auto It = P.rbegin(); It != P.rend(); ++It) { if (!N.empty()) N += "::"; N += *It; }
  return N;
}
static J::Object spInfo(const DISubprogram *SP) {
  J::Object O;
  O["name"] = SP->getName().str();
  O["linkage"] = SP->getLinkageName().str();
  O["scope"] = scopeName(SP->getScope());
  O["file"] = SP->getFilename().str();
  O["line"] = (int64_t)SP->getLine();
  if (SP->getVirtuality()) O["vidx"] = (int64_t)SP->getVirtualIndex();
  const DISubprogram *Dc = SP->getDeclaration() ? SP->getDeclaration() : SP;
  O["flags"] = (int64_t)Dc->getFlags();
  O["public"] = (Dc->getFlags() & DINode::FlagAccessibility) == DINode::FlagPublic;
  O["private"] = (Dc->getFlags() & DINode::FlagAccessibility) == DINode::FlagPrivate;
  O["protected"] = (Dc->getFlags() & DINode::FlagAccessibility) == DINode::FlagProtected;
  O["artificial"] = (Dc->getFlags() & DINode::FlagArtificial) != 0;
  if (auto *T = SP->getType()) {
    J::Array A; auto TA = T->getTypeArray();
    for (unsigned i = 0; i < TA.size(); ++i) A.push_back(diTypeName(TA[i]));
    O["types"] = std::move(A);
  }
  return O;
}

static J::Value gepParts(const GEPOperator *G, J::Object &I) {
  int64_t C = 0; J::Array Idx; Type *Cur = nullptr; J::Array Ext;
  for (gep_type_iterator It = gep_type_begin(G), E = gep_type_end(G); It != E; ++It) {
    Value *Op = It.getOperand();
    if (StructType *ST = It.getStructTypeOrNull()) {
      C += (int64_t)(uint64_t)DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(Op)->getZExtValue());
      Cur = It.getIndexedType();
      continue;
    }
    if (Cur && Cur->isArrayTy()) // stepping into an array member: [position so far, number of index terms so far, byte size]
      Ext = J::Array{C, (int64_t)Idx.size(), (int64_t)(uint64_t)DL->getTypeAllocSize(Cur)};
    Cur = It.getIndexedType();
    int64_t Sz = (int64_t)(uint64_t)DL->getTypeAllocSize(It.getIndexedType());
    if (auto *CI = dyn_cast<ConstantInt>(Op)) C += CI->getSExtValue() * Sz;
    else Idx.push_back(J::Array{operand(Op), Sz});
  }
  if (!Ext.empty()) I["ext"] = std::move(Ext);
  I["off"] = C; I["idx"] = std::move(Idx);
  return nullptr;
}

int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  std::error_code EC; raw_fd_ostream Out(argv[2], EC);
  J::Object Root, Funcs, Globals, Classes;

  for (auto &G : M->globals()) {
    J::Object O;
    O["const"] = G.isConstant();
    O["tls"] = G.isThreadLocal();
    O["size"] = (int64_t)(uint64_t)DL->getTypeAllocSize(G.getValueType());
    O["decl"] = G.isDeclaration();
    O["dem"] = demangle(G.getName().str());
    SmallVector<MDNode *, 4> TMs; G.getMetadata(LLVMContext::MD_type, TMs);
    if (!TMs.empty()) {
      J::Array TA;
      for (auto *T : TMs)
        if (auto *S = dyn_cast<MDString>(T->getOperand(1)))
          TA.push_back(J::Array{(int64_t)mdconst::extract<ConstantInt>(T->getOperand(0))->getZExtValue(), S->getString().str()});
      O["types"] = std::move(TA);
    }
    if (G.hasInitializer()) O["init"] = operand(G.getInitializer());
    SmallVector<DIGlobalVariableExpression *, 1> GVs; G.getDebugInfo(GVs);
    if (!GVs.empty()) {
      auto *V = GVs[0]->getVariable();
      O["file"] = V->getFilename().str(); O["line"] = (int64_t)V->getLine();
      O["scope"] = scopeName(V->getScope()); O["name"] = V->getName().str();
    }
    Globals[G.getName()] = std::move(O);
  }

  for (auto &F : *M) {
    J::Object FO; Ids.clear(); int N = 0;
    FO["dem"] = demangle(F.getName().str());
    FO["decl"] = F.isDeclaration();
    FO["noreturn"] = F.doesNotReturn();
    FO["ret"] = tySpec(F.getReturnType());
    if (F.getSubprogram()) FO["sp"] = spInfo(F.getSubprogram());
    J::Array Args;
    for (auto &A : F.args()) {
      Ids[&A] = N++;
      J::Object AO{{"t", tySpec(A.getType())}};
      if (A.hasStructRetAttr()) AO["sret"] = (int64_t)(uint64_t)DL->getTypeAllocSize(A.getParamStructRetType());
      if (A.hasByValAttr()) AO["byval"] = (int64_t)(uint64_t)DL->getTypeAllocSize(A.getParamByValType());
      Args.push_back(std::move(AO));
    }
    FO["args"] = std::move(Args);
    if (!F.isDeclaration()) {
      std::map<const BasicBlock *, int> BI; int B = 0;
      for (auto &BB : F) { BI[&BB] = B++; for (auto &I : BB) Ids[&I] = N++; }
      J::Array Blocks; J::Object Vars;
      for (auto &BB : F) {
        J::Array Is;
        for (auto &I : BB) {
          if (auto *D = dyn_cast<DbgDeclareInst>(&I)) {
            if (D->getAddress()) { auto It = Ids.find(D->getAddress());
              if (It != Ids.end()) Vars[std::to_string(It->second)] = J::Array{D->getVariable()->getName().str(), diTypeName(D->getVariable()->getType())}; }
            continue;
          }
          if (isa<DbgInfoIntrinsic>(I)) continue;
          J::Object O;
          O["o"] = I.getOpcodeName();
          O["r"] = Ids[&I];
          O["t"] = tySpec(I.getType());
          if (auto *L = I.getDebugLoc().get()) {
            O["l"] = (int64_t)L->getLine();
            if (auto *S = L->getScope()) O["lf"] = S->getFilename().str();
          }
          if (auto *A = dyn_cast<AllocaInst>(&I)) {
            O["n"] = (int64_t)(uint64_t)DL->getTypeAllocSize(A->getAllocatedType());
            O["at"] = tySpec(A->getAllocatedType());
          } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            O["b"] = operand(G->getPointerOperand()); gepParts(cast<GEPOperator>(G), O);
          } else if (auto *C = dyn_cast<CallBase>(&I)) {
            O["o"] = "call";
            J::Array A; for (auto &U : C->args()) A.push_back(operand(U.get()));
            O["a"] = std::move(A); O["fn"] = operand(C->getCalledOperand());
            O["noreturn"] = C->doesNotReturn();
            if (auto *Inv = dyn_cast<InvokeInst>(&I)) O["normal"] = BI[Inv->getNormalDest()];
          } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
            J::Array T; for (unsigned i = 0; i < Br->getNumSuccessors(); ++i) T.push_back(BI[Br->getSuccessor(i)]);
            O["to"] = std::move(T);
            if (Br->isConditional()) O["a"] = J::Array{operand(Br->getCondition())};
          } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
            O["a"] = J::Array{operand(Sw->getCondition())};
            J::Array Cs; for (auto &C : Sw->cases()) Cs.push_back(J::Array{toString(C.getCaseValue()->getValue(), 10, false), BI[C.getCaseSuccessor()]});
            O["cases"] = std::move(Cs); O["default"] = BI[Sw->getDefaultDest()];
          } else if (auto *P = dyn_cast<PHINode>(&I)) {
            J::Array In; for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) In.push_back(J::Array{BI[P->getIncomingBlock(i)], operand(P->getIncomingValue(i))});
            O["in"] = std::move(In);
          } else {
            if (auto *C = dyn_cast<CmpInst>(&I)) O["p"] = CmpInst::getPredicateName(C->getPredicate()).str();
            if (auto *E = dyn_cast<ExtractValueInst>(&I)) { J::Array A; for (unsigned i : E->indices()) A.push_back((int64_t)i); O["ix"] = std::move(A); }
            if (auto *E = dyn_cast<InsertValueInst>(&I)) { J::Array A; for (unsigned i : E->indices()) A.push_back((int64_t)i); O["ix"] = std::move(A); }
            if (auto *L = dyn_cast<LoadInst>(&I)) { O["n"] = (int64_t)(uint64_t)DL->getTypeStoreSize(L->getType()); if (L->isVolatile()) O["vol"] = 1; }
            if (auto *S = dyn_cast<StoreInst>(&I)) { O["n"] = (int64_t)(uint64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()); O["st"] = tySpec(S->getValueOperand()->getType()); }
            J::Array A; J::Array W;
            for (auto &U : I.operands()) { A.push_back(operand(U.get())); W.push_back(tySpec(U->getType())); }
            O["a"] = std::move(A); O["at"] = std::move(W);
          }
          Is.push_back(std::move(O));
        }
        Blocks.push_back(std::move(Is));
      }
      FO["blocks"] = std::move(Blocks); FO["vars"] = std::move(Vars);
    }
    Funcs[F.getName()] = std::move(FO);
  }

  DebugInfoFinder Fi; Fi.processModule(*M);
  for (auto *T : Fi.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C || C->getName().empty()) continue;
    std::string Q = diTypeName(C);
    J::Object O; O["size"] = (int64_t)(C->getSizeInBits() / 8); O["tag"] = (int64_t)C->getTag();
    O["file"] = C->getFilename().str(); O["line"] = (int64_t)C->getLine();
    J::Array Mem, Bases, Meths, Enums;
    for (auto *E : C->getElements()) {
      if (auto *D = dyn_cast<DIDerivedType>(E)) {
        if (D->getTag() == dwarf::DW_TAG_inheritance) Bases.push_back(J::Array{diTypeName(D->getBaseType()), (int64_t)(D->getOffsetInBits() / 8)});
        else if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember())
          Mem.push_back(J::Array{D->getName().str(), (int64_t)(D->getOffsetInBits() / 8), (int64_t)(D->getSizeInBits() / 8), diTypeName(D->getBaseType())});
      } else if (auto *S = dyn_cast<DISubprogram>(E)) Meths.push_back(spInfo(S));
      else if (auto *En = dyn_cast<DIEnumerator>(E)) Enums.push_back(J::Array{En->getName().str(), toString(En->getValue(), 10, !En->isUnsigned())});
    }
    if (C->getTag() == dwarf::DW_TAG_enumeration_type) O["base"] = diTypeName(C->getBaseType());
    O["members"] = std::move(Mem); O["bases"] = std::move(Bases); O["methods"] = std::move(Meths); O["enums"] = std::move(Enums);
    if (C->isForwardDecl() && Classes.get(Q)) continue;
    if (!C->isForwardDecl() || !Classes.get(Q)) Classes[Q] = std::move(O);
  }
  Root["funcs"] = std::move(Funcs); Root["globals"] = std::move(Globals); Root["classes"] = std::move(Classes);
  Out << J::Value(std::move(Root));
  return 0;
}
