// Dumps an LLVM module (bitcode) as JSON: functions, blocks, instructions, globals, vtables, debug types.
#include "llvm/ADT/SmallString.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/GlobalAlias.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace llvm;
static const DataLayout *DL;
static std::string tyStr(Type *T) {
  std::string s; raw_string_ostream os(s);
  if (auto *ST = dyn_cast<StructType>(T); ST && ST->hasName()) os << "%" << ST->getName();
  else T->print(os);
  return os.str();
}
static json::Value op(const Value *V, const DenseMap<const Value *, int> &ids);
static json::Array gepInfo(const GEPOperator *G, const DenseMap<const Value *, int> &ids) {
  // [srcElemType, constByteOffset, [[scale, operand]...], [path of struct field (structName, idx) / -1 for arrays]]
  int64_t off = 0; json::Array vars, path;
  for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
    Value *idx = it.getOperand();
    if (StructType *ST = it.getStructTypeOrNull()) {
      unsigned f = cast<ConstantInt>(idx)->getZExtValue();
      off += DL->getStructLayout(ST)->getElementOffset(f);
      path.push_back(json::Array{tyStr(ST), (int64_t)f});
    } else {
      int64_t sz = DL->getTypeAllocSize(it.getIndexedType());
      if (auto *CI = dyn_cast<ConstantInt>(idx)) off += sz * CI->getSExtValue();
      else vars.push_back(json::Array{sz, op(idx, ids)});
    }
  }
  return json::Array{tyStr(G->getSourceElementType()), off, std::move(vars), std::move(path), tyStr(G->getResultElementType()), (int64_t)DL->getTypeAllocSize(G->getSourceElementType())};
}
static json::Value op(const Value *V, const DenseMap<const Value *, int> &ids) {
  auto it = ids.find(V);
  if (it != ids.end()) return json::Array{"v", it->second};
  if (auto *C = dyn_cast<ConstantInt>(V)) {
    if (C->getBitWidth() <= 64) return json::Array{"c", (int64_t)C->getSExtValue(), (int64_t)C->getBitWidth()};
    SmallString<64> s; C->getValue().toStringUnsigned(s); return json::Array{"C", s.str().str(), (int64_t)C->getBitWidth()};
  }
  if (auto *C = dyn_cast<ConstantFP>(V)) {
    APInt b = C->getValueAPF().bitcastToAPInt();
    SmallString<64> s; if (b.getBitWidth() <= 64) return json::Array{"f", std::to_string(b.getZExtValue()), (int64_t)b.getBitWidth()};
    return json::Array{"u"};
  }
  if (isa<ConstantPointerNull>(V)) return json::Array{"n"};
  if (isa<UndefValue>(V)) return json::Array{"u"};
  if (auto *GA = dyn_cast<GlobalAlias>(V)) { return op(GA->getAliasee(), ids); }
  if (auto *GV = dyn_cast<GlobalValue>(V)) return json::Array{"g", GV->getName().str()};
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    if (auto *G = dyn_cast<GEPOperator>(CE)) return json::Array{"e", "gep", op(G->getPointerOperand(), ids), gepInfo(G, ids)};
    json::Array a{"e", CE->getOpcodeName()};
    for (auto &o : CE->operands()) a.push_back(op(o, ids));
    return a;
  }
  if (isa<ConstantAggregateZero>(V)) return json::Array{"z", tyStr(V->getType())};
  if (auto *CDS = dyn_cast<ConstantDataSequential>(V)) {
    if (CDS->isString()) { std::string s = CDS->getAsString().str(); json::Array a; for (unsigned char c : s) a.push_back((int64_t)c); 
      return json::Array{"s", std::move(a)}; }
    json::Array a;
    for (unsigned i = 0; i < CDS->getNumElements(); i++) a.push_back(op(CDS->getElementAsConstant(i), ids));
    return json::Array{"a", std::move(a)};
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(V)) {
    json::Array a;
    for (auto &o : CA->operands()) a.push_back(op(o, ids));
    return json::Array{"a", std::move(a)};
  }
  if (auto *MV = dyn_cast<MetadataAsValue>(V)) {
    if (auto *S = dyn_cast<MDString>(MV->getMetadata())) return json::Array{"m", S->getString().str()};
    return json::Array{"m"};
  }
  if (auto *B = dyn_cast<BasicBlock>(V)) { auto i2 = ids.find(B); return json::Array{"b", i2 == ids.end() ? -1 : i2->second}; }
  return json::Array{"?"};
}
static std::string scopeName(const DIScope *S) {
  std::string r;
  while (S && !isa<DIFile>(S) && !isa<DICompileUnit>(S)) {
    std::string n = S->getName().str();
    if (isa<DISubprogram>(S)) n += "()";
    if (n.empty()) if (auto *C = dyn_cast<DICompositeType>(S)) {
      n = "<anon";
      for (auto *e : C->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) { n += ":" + en->getName().str(); break; }
      n += ">";
    }
    if (!n.empty()) r = r.empty() ? n : n + "::" + r;
    S = S->getScope();
  }
  return r;
}
static std::string diTypeName(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 12) return "...";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return diTypeName(D->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_reference_type: return diTypeName(D->getBaseType(), depth + 1) + "&";
    case dwarf::DW_TAG_rvalue_reference_type: return diTypeName(D->getBaseType(), depth + 1) + "&&";
    case dwarf::DW_TAG_const_type: return "const " + diTypeName(D->getBaseType(), depth + 1);
    case dwarf::DW_TAG_volatile_type: return "volatile " + diTypeName(D->getBaseType(), depth + 1);
    case dwarf::DW_TAG_typedef: return diTypeName(D->getBaseType(), depth + 1);
    default: return diTypeName(D->getBaseType(), depth + 1);
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = diTypeName(C->getBaseType(), depth + 1) + "[";
      for (auto *e : C->getElements()) if (auto *sr = dyn_cast<DISubrange>(e)) if (auto ci = dyn_cast_if_present<ConstantInt *>(sr->getCount())) s += std::to_string(ci->getSExtValue());
      return s + "]";
    }
    return scopeName(C);
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return T->getName().str();
}
int main(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  std::string prefix = argc > 3 ? argv[3] : "/repo/";
  std::error_code ec; raw_fd_ostream out(argv[2], ec);
  if (ec) return 2;
  DenseMap<const Value *, int> none;
  json::OStream J(out);
  J.object([&] {
    J.attributeObject("functions", [&] {
      for (auto &F : *M) {
        J.attributeObject(F.getName(), [&] {
          J.attribute("dem", demangle(F.getName().str()));
          J.attribute("decl", F.isDeclaration());
          J.attribute("ret", tyStr(F.getReturnType()));
          J.attribute("linkage", (int64_t)F.getLinkage());
          J.attribute("vis", F.hasDefaultVisibility() && !F.hasLocalLinkage());
          J.attribute("noret", F.doesNotReturn());
          auto *SP = F.getSubprogram();
          if (SP) {
            J.attribute("file", SP->getFile() ? (SP->getFile()->getFilename().startswith("/") ? SP->getFile()->getFilename().str() : (SP->getFile()->getDirectory() + "/" + SP->getFile()->getFilename()).str()) : "");
            J.attribute("line", (int64_t)SP->getLine());
            J.attribute("scope", scopeName(SP->getScope()));
            J.attribute("sname", SP->getName().str());
            J.attribute("access", (int64_t)(SP->getDeclaration() ? (SP->getDeclaration()->getFlags() & DINode::FlagAccessibility) : (SP->getFlags() & DINode::FlagAccessibility)));
            json::Array pt;
            if (SP->getType()) for (auto *t : SP->getType()->getTypeArray()) pt.push_back(diTypeName(t));
            J.attribute("sig", std::move(pt));
          }
          DenseMap<const Value *, int> ids; int n = 0;
          json::Array args;
          for (auto &A : F.args()) { ids[&A] = n++; args.push_back(json::Array{A.getName().str(), tyStr(A.getType()), A.hasStructRetAttr()}); }
          J.attribute("args", std::move(args));
          if (F.isDeclaration()) return;
          int bn = 0;
          for (auto &B : F) { ids[&B] = bn++; for (auto &I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
          J.attribute("nvals", n);
          std::map<std::string, int> names;
          J.attributeArray("blocks", [&] {
            for (auto &B : F) J.array([&] {
              for (auto &I : B) {
                if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I)) {
                  auto *L = DV->getVariableLocationOp(0);
                  if (L && ids.count(L)) { J.array([&] { J.value("dbg"); J.value(ids[L]); J.value(DV->getVariable()->getName().str()); J.value(diTypeName(DV->getVariable()->getType())); J.value(isa<DbgDeclareInst>(DV)); }); }
                  continue;
                }
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                J.array([&] {
                  J.value(I.getOpcodeName());
                  J.value(I.getType()->isVoidTy() ? -1 : ids[&I]);
                  J.value(tyStr(I.getType()));
                  std::string loc;
                  if (auto &L = I.getDebugLoc()) { auto *sc = cast<DIScope>(L.getScope()); loc = sc->getFilename().str(); 
                    if (StringRef(loc).startswith(prefix)) loc = loc.substr(prefix.size()); loc += ":" + std::to_string(L.getLine()); }
                  J.value(loc);
                  auto O = [&](const Value *V) { J.value(op(V, ids)); };
                  if (auto *A = dyn_cast<AllocaInst>(&I)) { J.value(tyStr(A->getAllocatedType())); J.value((int64_t)DL->getTypeAllocSize(A->getAllocatedType())); O(A->getArraySize()); J.value(A->getName().str()); }
                  else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) { O(G->getPointerOperand()); J.value(gepInfo(cast<GEPOperator>(G), ids)); }
                  else if (auto *L = dyn_cast<LoadInst>(&I)) { O(L->getPointerOperand()); J.value((int64_t)DL->getTypeStoreSize(L->getType())); }
                  else if (auto *S = dyn_cast<StoreInst>(&I)) { O(S->getValueOperand()); O(S->getPointerOperand()); J.value((int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType())); J.value(tyStr(S->getValueOperand()->getType())); }
                  else if (auto *C = dyn_cast<CmpInst>(&I)) { J.value(CmpInst::getPredicateName(C->getPredicate()).str()); O(C->getOperand(0)); O(C->getOperand(1)); J.value(tyStr(C->getOperand(0)->getType())); }
                  else if (auto *P = dyn_cast<PHINode>(&I)) { json::Array a; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) a.push_back(json::Array{op(P->getIncomingValue(i), ids), ids[P->getIncomingBlock(i)]}); J.value(std::move(a)); }
                  else if (auto *CB = dyn_cast<CallBase>(&I)) {
                    O(CB->getCalledOperand()); json::Array a; for (auto &x : CB->args()) a.push_back(op(x.get(), ids)); J.value(std::move(a));
                    if (auto *IV = dyn_cast<InvokeInst>(&I)) J.value(json::Array{ids[IV->getNormalDest()], ids[IV->getUnwindDest()]}); else J.value(nullptr);
                    J.value(CB->doesNotReturn());
                  }
                  else if (auto *Br = dyn_cast<BranchInst>(&I)) { json::Array a; if (Br->isConditional()) O(Br->getCondition()); else J.value(nullptr); for (unsigned i = 0; i < Br->getNumSuccessors(); i++) a.push_back(ids[Br->getSuccessor(i)]); J.value(std::move(a)); }
                  else if (auto *Sw = dyn_cast<SwitchInst>(&I)) { O(Sw->getCondition()); J.value(ids[Sw->getDefaultDest()]); json::Array a; for (auto &c : Sw->cases()) a.push_back(json::Array{c.getCaseValue()->getSExtValue(), ids[c.getCaseSuccessor()]}); J.value(std::move(a)); }
                  else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { O(EV->getAggregateOperand()); json::Array a; for (auto x : EV->indices()) a.push_back((int64_t)x); J.value(std::move(a)); }
                  else if (auto *IV = dyn_cast<InsertValueInst>(&I)) { O(IV->getAggregateOperand()); O(IV->getInsertedValueOperand()); json::Array a; for (auto x : IV->indices()) a.push_back((int64_t)x); J.value(std::move(a)); }
                  else if (auto *CI = dyn_cast<CastInst>(&I)) { O(CI->getOperand(0)); J.value(tyStr(CI->getSrcTy())); }
                  else { for (auto &o : I.operands()) O(o.get()); }
                });
              }
            });
          });
        });
      }
    });
    J.attributeObject("globals", [&] {
      for (auto &G : M->globals()) {
        J.attributeObject(G.getName(), [&] {
          J.attribute("dem", demangle(G.getName().str()));
          J.attribute("const", G.isConstant());
          J.attribute("type", tyStr(G.getValueType()));
          J.attribute("size", G.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(G.getValueType()) : 0);
          J.attribute("decl", G.isDeclaration());
          J.attribute("tls", G.isThreadLocal());
          SmallVector<DIGlobalVariableExpression *, 1> gv; G.getDebugInfo(gv);
          if (!gv.empty()) { auto *v = gv[0]->getVariable(); std::string f = v->getFilename().str(); if (StringRef(f).startswith(prefix)) f = f.substr(prefix.size());
            J.attribute("loc", f + ":" + std::to_string(v->getLine())); J.attribute("ditype", diTypeName(v->getType())); J.attribute("scope", scopeName(v->getScope())); J.attribute("dname", v->getName().str()); }
          if (G.hasInitializer()) J.attribute("init", op(G.getInitializer(), none));
        });
      }
    });
    // struct layouts
    J.attributeObject("structs", [&] {
      std::set<std::string> seen;
      for (auto *ST : M->getIdentifiedStructTypes()) if (ST->isSized() && seen.insert(ST->getName().str()).second) {
        json::Array a; auto *SL = DL->getStructLayout(ST);
        for (unsigned i = 0; i < ST->getNumElements(); i++) a.push_back(json::Array{(int64_t)SL->getElementOffset(i), tyStr(ST->getElementType(i)), (int64_t)DL->getTypeAllocSize(ST->getElementType(i))});
        J.attribute(ST->getName(), json::Value(json::Object{{"size", (int64_t)SL->getSizeInBytes()}, {"elems", std::move(a)}}));
      }
    });
    DebugInfoFinder Fd; Fd.processModule(*M);
    J.attributeObject("types", [&] {
      std::set<std::string> seen;
      for (auto *T : Fd.types()) if (auto *C = dyn_cast<DICompositeType>(T)) {
        if (C->isForwardDecl()) continue;
        std::string n = scopeName(C);
        if (n.empty() || !seen.insert(n).second) continue;
        if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
          json::Object o; for (auto *e : C->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) o[en->getName()] = en->getValue().getSExtValue();
          J.attribute(n, json::Value(json::Object{{"enum", std::move(o)}}));
        } else {
          json::Array m, b;
          for (auto *e : C->getElements()) {
            auto *D = dyn_cast<DIDerivedType>(e); if (!D) continue;
            if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember()) m.push_back(json::Array{D->getName().str(), (int64_t)D->getOffsetInBits() / 8, (int64_t)D->getSizeInBits() / 8, diTypeName(D->getBaseType()), (int64_t)D->getLine()});
            if (D->getTag() == dwarf::DW_TAG_inheritance) b.push_back(json::Array{diTypeName(D->getBaseType()), (int64_t)D->getOffsetInBits() / 8});
          }
          J.attribute(n, json::Value(json::Object{{"members", std::move(m)}, {"bases", std::move(b)}, {"size", (int64_t)C->getSizeInBits() / 8}}));
        }
      }
    });
  });
  return 0;
}
